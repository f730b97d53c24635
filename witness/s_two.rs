#![allow(unused)]
//! State witnesses: several assemblers in one process.
extern crate monoasm;
extern crate monoasm_macro;
#[path = "/verif/witness/v.rs"]
mod v;
use monoasm::*;
use monoasm_macro::monoasm;

include!("/verif/witness/h.rs");

fn target(slot: u64, after: u64) -> u64 {
    (slot + 4 + after).wrapping_add(rd32(slot) as u32 as i32 as i64 as u64)
}
/// start of the assembler's memory
fn base(j: &JitMemory) -> u64 {
    addr(j) - j.get_current() as u64 - (j.get_page() * v::page_size()) as u64
}
/// any state of any assembler, with n bytes of room on each of its pages
fn hv_any(j: &mut JitMemory, n: usize) {
    let b = base(j);
    let data = j.label();
    v::havoc(j);
    let p = j.get_page();
    v::assume(p < 2);
    j.bind_label_with_page(Page(2), data);
    v::assume(j.get_label_u64(data) + n as u64 <= b + 3 * v::page_size() as u64);
    v::assume(j.get_current() + n <= v::page_size());
    j.select_page(1 - p);
    v::assume(j.get_current() + n <= v::page_size());
    j.select_page(p);
}
/// everything an assembler can be asked to do
fn busy(j: &mut JitMemory) {
    let l = j.label();
    let m = j.label();
    let f = j.label();
    monoasm! { &mut *j,
        jmp f;
    l:
        movq rax, (v::any::<i64>("bi"));
        call l;
        lea rax, [rip + m];
    m:
        dq 5;
    }
    j.emitb(1);
    j.emitq(2);
    j.const_i64(v::any("bc"));
    j.const_i32(3);
    j.data_i32(4);
    j.abs_address(m);
    j.select_page(1);
    j.align16();
    monoasm! { &mut *j,
        jne f;
    }
    j.data_i64(4);
    j.select_page(0);
    j.finalize();
    j.bind_label(f);
    j.finalize();
    j.apply_jmp_patch(l, m);
}
fn w_c31_untouched() {
    // whatever one assembler does, another in any state stays as it was
    let mut w = any();
    let mut k = JitMemory::new();
    v::disjoint();
    hv_any(&mut k, 1024);
    let o = observe(&mut w);
    let b = base(&k);
    let s = v::snap(&w.j);
    v::mark();
    busy(&mut k);
    v::writes_in("C31", b, b + 3 * v::page_size() as u64, "an assembler stores only in memory of its own");
    v::same_tables("C31", s, &w.j, "another assembler's bookkeeping is unchanged");
    frame("C31", &mut w, &o, 0);
}
fn w_c31_created() {
    // creating an assembler changes no other
    let mut w = any();
    let o = observe(&mut w);
    let s = v::snap(&w.j);
    let k = JitMemory::new();
    let k2 = JitMemory::default();
    v::same_tables("C31", s, &w.j, "bookkeeping is unchanged");
    frame("C31", &mut w, &o, 0);
    v::eq("C31", k.get_current() as u64, 0, "a new assembler starts empty");
    v::eq("C31", k2.get_current() as u64, 0, "a new assembler starts empty");
    v::eq("C31", k.get_page() as u64, 0, "a new assembler starts on its first page");
    v::eq("C31", k2.get_page() as u64, 0, "a new assembler starts on its first page");
    v::eq("C31", k.as_slice().len() as u64, 0, "a new assembler has no code");
}
fn w_c31_dropped() {
    // dropping one assembler leaves the labels and code of another
    v::full_drop();
    let mut w = any();
    room(&w.j, 64);
    let l = w.j.label();
    let o = observe(&mut w);
    w.j.emitl(v::any("x"));
    let x = rd32(o.at);
    {
        let mut k = JitMemory::new();
        v::disjoint();
        let m = k.label();
        k.bind_label(m);
        k.emitb(1);
        k.finalize();
    }
    frame("C31", &mut w, &o, 4);
    v::eq("C31", rd32(o.at), x, "the code stays");
    v::panics(true);
    w.j.get_label_u64(w.pending);
    v::never("C31", "an unbound label stays unbound");
}
fn w_c31_interleaved() {
    // two assemblers used in turns: each does what it does alone
    let mut a = JitMemory::new();
    let _ = v::page_size();
    let mut b = JitMemory::new();
    v::disjoint();
    let la = a.label();
    let lb = b.label();
    hv_any(&mut a, 512);
    hv_any(&mut b, 512);
    let aa = addr(&a);
    let ab = addr(&b);
    let x: i64 = v::any("x");
    let y: i64 = v::any("y");
    monoasm! { &mut a,
        jmp la;
    }
    monoasm! { &mut b,
        call lb;
    }
    let ka = a.const_i64(x);
    let kb = b.const_i64(y);
    let da = a.data_i64(x);
    let db = b.data_i64(y);
    let aba = a.abs_address(la);
    let abb = b.abs_address(lb);
    b.bind_label(lb);
    let tb = addr(&b);
    b.finalize();
    v::eq("C31", rd32(aa + 1), 0, "a reference of the other assembler stays pending");
    v::eq("C31", target(ab + 1, 0), tb, "the reference leads to the label of its own assembler");
    v::eq("C31", addr(&a), aa + 5, "the other assembler's cursor stays");
    let ma = a.label();
    let mb = b.label();
    v::oblige("C31", ma != la && ma != ka && ma != da && ma != aba, "a new label is new to its assembler");
    v::oblige("C31", mb != lb && mb != kb && mb != db && mb != abb, "a new label is new to its assembler");
    a.bind_label(la);
    let ta = addr(&a);
    a.finalize();
    v::eq("C31", target(aa + 1, 0), ta, "the reference leads to the label of its own assembler");
    v::eq("C31", rd8(aa), 0xe9, "the first assembler's code");
    v::eq("C31", rd8(ab), 0xe8, "the second assembler's code");
    v::eq("C31", target(ab + 1, 0), tb, "the resolved reference stays");
    v::eq("C31", rd64(a.get_label_u64(ka)), x as u64, "the first assembler's constant");
    v::eq("C31", rd64(b.get_label_u64(kb)), y as u64, "the second assembler's constant");
    v::eq("C31", rd64(a.get_label_u64(da)), x as u64, "the first assembler's data");
    v::eq("C31", rd64(b.get_label_u64(db)), y as u64, "the second assembler's data");
    v::eq("C31", rd64(a.get_label_u64(aba)), ta, "the first assembler's address");
    v::eq("C31", rd64(b.get_label_u64(abb)), tb, "the second assembler's address");
}
fn w_c31_pages() {
    // page selection of one does not select for the other
    let mut a = JitMemory::new();
    let _ = v::page_size();
    let mut b = JitMemory::new();
    v::disjoint();
    hv_any(&mut a, 64);
    hv_any(&mut b, 64);
    let pa = a.get_page();
    let aa = addr(&a);
    let p = v::within("p", 0, 1) as usize;
    b.select_page(p);
    v::eq("C31", a.get_page() as u64, pa as u64, "the other assembler's page stays selected");
    v::eq("C31", addr(&a), aa, "the other assembler's cursor stays");
    b.emitw(1);
    b.align_page();
    v::eq("C31", addr(&a), aa, "the other assembler's cursor stays");
    a.emitb(v::any("x"));
    v::eq("C31", addr(&a), aa + 1, "its own emission moves it");
    v::eq("C31", b.get_page() as u64, p as u64, "the selected page stays");
}
fn w_c31_order() {
    // labels made in turns are each new to their own assembler, and bound where they are bound
    let mut a = JitMemory::new();
    let _ = v::page_size();
    let mut b = JitMemory::new();
    let mut c = JitMemory::new();
    v::disjoint();
    hv_any(&mut a, 64);
    hv_any(&mut b, 64);
    hv_any(&mut c, 64);
    let a1 = a.label();
    let b1 = b.label();
    let b2 = b.label();
    let c1 = c.label();
    let a2 = a.label();
    let a3 = a.label();
    let c2 = c.label();
    let b3 = b.label();
    v::oblige("C31", a1 != a2 && a2 != a3 && a1 != a3, "labels of one assembler differ");
    v::oblige("C31", b1 != b2 && b2 != b3 && b1 != b3, "labels of one assembler differ");
    v::oblige("C31", c1 != c2, "labels of one assembler differ");
    a.bind_label(a1);
    let x1 = addr(&a);
    a.emitb(1);
    b.bind_label(b3);
    let y3 = addr(&b);
    b.emitb(1);
    c.bind_label(c2);
    let z2 = addr(&c);
    a.bind_label(a3);
    b.bind_label(b1);
    v::eq("C31", a.get_label_u64(a1), x1, "where it was bound");
    v::eq("C31", a.get_label_u64(a3), x1 + 1, "where it was bound");
    v::eq("C31", b.get_label_u64(b3), y3, "where it was bound");
    v::eq("C31", b.get_label_u64(b1), y3 + 1, "where it was bound");
    v::eq("C31", c.get_label_u64(c2), z2, "where it was bound");
    v::panics(true);
    match v::within("q", 0, 2) {
        0 => a.get_label_u64(a2),
        1 => b.get_label_u64(b2),
        _ => c.get_label_u64(c1),
    };
    v::never("C31", "a label bound in none is refused, whatever is bound in the others");
}
fn w_c31_membership() {
    // code of one assembler is not code of another
    let mut a = JitMemory::new();
    let _ = v::page_size();
    let mut b = JitMemory::new();
    v::disjoint();
    hv_any(&mut a, 64);
    hv_any(&mut b, 64);
    v::oblige("C31", a.include(addr(&a) as *mut u8), "its own code");
    v::oblige("C31", b.include(addr(&b) as *mut u8), "its own code");
}
fn w_c31_nested() {
    // an assembler may be used while operands for another are computed
    let mut a = JitMemory::new();
    let _ = v::page_size();
    let mut b = JitMemory::new();
    v::disjoint();
    hv_any(&mut a, 64);
    hv_any(&mut b, 64);
    let aa = addr(&a);
    let ab = addr(&b);
    let la = a.label();
    let lb = b.label();
    a.bind_label(la);
    b.bind_label(lb);
    monoasm! { &mut a,
        movl rax, ({
            monoasm! { &mut b,
                jmp lb;
            }
            7
        });
        jmp la;
    }
    a.finalize();
    b.finalize();
    v::eq("C31", rd8(ab), 0xe9, "the inner block goes to the inner assembler");
    v::eq("C31", target(ab + 1, 0), ab, "with its label");
    v::eq("C31", addr(&b), ab + 5, "and nothing else");
    let n = addr(&a) - aa;
    v::eq("C31", target(aa + n - 4, 0), aa, "the outer block goes to the outer assembler");
    v::eq("C31", rd32(aa + n - 9), 7, "with its operand");
}
fn w_c31_code_outlives() {
    // code of a dropped assembler is not overwritten by assemblers made later
    v::full_drop();
    let x: u32 = v::any("x");
    let at;
    {
        let mut a = JitMemory::new();
        let _ = v::page_size();
        hv_any(&mut a, 64);
        at = addr(&a);
        a.emitl(x);
        a.finalize();
    }
    let mut b = JitMemory::new();
    let mut c = JitMemory::new();
    v::disjoint();
    hv_any(&mut b, 1024);
    hv_any(&mut c, 1024);
    let p = v::page_size() as u64;
    v::oblige("C18+C31", at < base(&b) || at >= base(&b) + 3 * p, "a later assembler has memory of its own");
    v::oblige("C18+C31", at < base(&c) || at >= base(&c) + 3 * p, "a later assembler has memory of its own");
    b.emitq(v::any("y"));
    c.emitq(v::any("z"));
    b.finalize();
    v::eq("C18+C31", rd32(at), x as u64, "the code is still there");
    v::not_freed("C18+C31", "no code is freed");
}
fn w_c31_code_outlives_fresh() {
    // the same for an assembler dropped without any code finalised, or with nothing emitted at all
    v::full_drop();
    let at;
    {
        let mut a = JitMemory::new();
        let _ = v::page_size();
        at = addr(&a);
        if v::within("q", 0, 1) == 1 {
            a.emitb(0xc3);
        }
    }
    let b = JitMemory::new();
    v::disjoint();
    v::oblige("C18+C31", at != addr(&b), "a later assembler has memory of its own");
}
fn w_c31_uneven() {
    // one assembler with many labels, constants and blocks, another with few
    let mut a = JitMemory::new();
    let _ = v::page_size();
    let mut i = 0;
    while i < 300 {
        a.label();
        a.const_i32(1);
        i += 1;
    }
    let mut i = 0;
    while i < 20 {
        a.emitb(1);
        a.finalize();
        i += 1;
    }
    let mut b = JitMemory::new();
    v::disjoint();
    hv_any(&mut b, 512);
    let ab = addr(&b);
    let l = b.label();
    let m = b.label();
    let n = b.label();
    v::oblige("C31", l != m && m != n && l != n, "labels of one assembler differ");
    monoasm! { &mut b,
        jmp l;
    m:
        jmp n;
    n:
        jmp m;
    l:
    }
    let k = b.const_i64(v::any("x"));
    let nb = b.code_block.len() as u64;
    b.finalize();
    v::eq("C31", target(ab + 1, 0), ab + 15, "the jump leads to its label");
    v::eq("C31", target(ab + 6, 0), ab + 10, "the jump leads to its label");
    v::eq("C31", target(ab + 11, 0), ab + 5, "the jump leads to its label");
    v::eq("C31", b.code_block.len() as u64, nb + 1, "one block per finalisation");
    v::eq("C31", b.get_label_u64(k), (ab + 15 + 15) & !15, "its constant follows its code");
}
