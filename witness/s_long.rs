#![allow(unused)]
//! State witnesses: long histories (counts beyond what a byte or a half word can hold).
extern crate monoasm;
extern crate monoasm_macro;
#[path = "/verif/witness/v.rs"]
mod v;
use monoasm::*;
use monoasm_macro::monoasm;

include!("/verif/witness/h.rs");

fn data_at(j: &mut JitMemory) -> u64 {
    let l = j.label();
    j.bind_label_with_page(Page(2), l);
    j.get_label_u64(l)
}
fn roomy(j: &mut JitMemory, n: usize) {
    let p = j.get_page();
    j.select_page(0);
    room(j, n);
    j.select_page(1);
    room(j, n);
    j.select_page(p);
    v::assume(data_at(j) + n as u64 <= v::region_base() + v::region_size());
}
fn target(slot: u64, after: u64) -> u64 {
    (slot + 4 + after).wrapping_add(rd32(slot) as u32 as i32 as i64 as u64)
}
fn w_c10_long() {
    // more labels than a half word counts
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 64);
    let a = j.label();
    let b = j.label();
    j.bind_label(a);
    let at = addr(&j);
    let mut i = 0;
    while i < 254 {
        j.label();
        i += 1;
    }
    let c = j.label();
    let d = j.label();
    let mut i = 0;
    while i < 65276 {
        j.label();
        i += 1;
    }
    let mut i = 0;
    while i < 8 {
        let e = j.label();
        v::oblige("C10", e != a && e != b && e != c && e != d, "a new label differs from the earlier ones");
        j.emitb(1);
        j.bind_label(e);
        v::eq("C10", j.get_label_u64(e), addr(&j), "the new label is where it was bound");
        v::eq("C10", j.get_label_u64(a), at, "an earlier label stays where it was bound");
        i += 1;
    }
    v::panics(true);
    j.get_label_address(b);
    v::never("C10", "the address of an unbound label is refused whatever other labels are bound");
}
fn w_c08_long() {
    // more references than a byte counts, to one label
    let mut j = JitMemory::new();
    let l = j.label();
    hv(&mut j);
    roomy(&mut j, 8192);
    let a = addr(&j);
    let mut i = 0;
    while i < 600 {
        monoasm! { &mut j,
            jmp l;
        }
        i += 1;
    }
    hv(&mut j);
    j.bind_label(l);
    let t = addr(&j);
    j.finalize();
    let mut i = 0;
    while i < 600 {
        v::eq("C08+C11", target(a + i * 5 + 1, 0), t, "each of many references to one label");
        i += 13;
    }
    v::eq("C08+C11", target(a + 255 * 5 + 1, 0), t, "each of many references to one label");
    v::eq("C08+C11", target(a + 256 * 5 + 1, 0), t, "each of many references to one label");
    v::eq("C08+C11", target(a + 599 * 5 + 1, 0), t, "each of many references to one label");
}
fn w_c08_long_labels() {
    // a reference to a label with a large number
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 256);
    let first = j.label();
    let mut i = 0;
    while i < 65535 {
        j.label();
        i += 1;
    }
    let l = j.label();
    let a = addr(&j);
    monoasm! { &mut j,
        jmp l;
        call first;
        movq rax, [rip + l];
    }
    j.bind_label(first);
    let f = addr(&j);
    monoasm! { &mut j,
        int3;
    l:
    }
    let t = addr(&j);
    let k = j.abs_address(l);
    j.finalize();
    v::eq("C08+C11", target(a + 1, 0), t, "jump to a label with a large number");
    v::eq("C08+C11", target(a + 6, 0), f, "call of a label with a small number");
    v::eq("C08+C11", target(a + 13, 0), t, "memory operand naming a label with a large number");
    v::eq("C09+C11", rd64(j.get_label_u64(k)), t, "absolute address of a label with a large number");
}
fn w_c11_long() {
    // a reference pending over many finalisations
    let mut j = JitMemory::new();
    let l = j.label();
    let m = j.label();
    hv(&mut j);
    roomy(&mut j, 65536);
    let a = addr(&j);
    monoasm! { &mut j,
        jmp l;
    }
    let k = j.abs_address(l);
    let mut i = 0;
    while i < 300 {
        j.emitb(0x90);
        j.finalize();
        i += 1;
    }
    let b = addr(&j);
    monoasm! { &mut j,
        call l;
    l:
    }
    let t = addr(&j);
    j.finalize();
    v::eq("C08+C11", target(a + 1, 0), t, "a reference pending over many finalisations is resolved");
    v::eq("C08+C11", target(b + 1, 0), t, "a reference made after many finalisations is resolved");
    v::eq("C09+C11", rd64(j.get_label_u64(k)), t, "an absolute address pending over many finalisations is resolved");
    let s = rd32(a + 1);
    v::mark();
    j.finalize();
    v::no_writes("C11", "resolved references are not touched again");
}
fn w_c11_counts() {
    // every number of queued items is placed once, whatever the number
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 262144);
    let mut n = 0;
    while n < 36 {
        let a = addr(&j);
        let d = data_at(&mut j);
        let mut ks = Vec::new();
        let mut i = 0;
        while i < n {
            ks.push((j.const_i32(i as i32 + 3), j.data_i32(i as i32 + 9)));
            i += 1;
        }
        j.finalize();
        let e = addr(&j);
        let f = data_at(&mut j);
        let a4 = (a + 3) & !3;
        let d4 = (d + 3) & !3;
        let mut i = 0;
        while i < n {
            let (k, m) = ks[i];
            v::eq("C11+C14", j.get_label_u64(k), a4 + 4 * i as u64, "constants follow one another in request order");
            v::eq("C11+C14", j.get_label_u64(m), d4 + 4 * i as u64, "data items follow one another in request order");
            v::eq("C11+C14", rd32(j.get_label_u64(k)), i as u64 + 3, "the constant");
            v::eq("C11+C14", rd32(j.get_label_u64(m)), i as u64 + 9, "the data item");
            i += 1;
        }
        v::mark();
        j.finalize();
        v::no_writes("C11+C14", "items are placed exactly once");
        v::eq("C11+C14", addr(&j), e, "and occupy no further space");
        v::eq("C11+C14", data_at(&mut j), f, "nor in the data area");
        n += 1;
    }
}
fn w_c10_long_final() {
    // many labels, bound and unbound, through a finalisation
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 64);
    let a = j.label();
    j.bind_label(a);
    let at = addr(&j);
    let u = j.label();
    let mut i = 0;
    while i < 5000 {
        j.label();
        i += 1;
    }
    let b = j.label();
    j.emitb(1);
    j.bind_label(b);
    let bt = addr(&j);
    j.finalize();
    v::eq("C10+C11", j.get_label_u64(a), at, "an early label stays where it was bound");
    v::eq("C10+C11", j.get_label_u64(b), bt, "a late label stays where it was bound");
    v::panics(true);
    j.get_label_address(u);
    v::never("C10", "the address of an unbound label is refused after finalisation too");
}
fn w_c16_long() {
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 65536);
    j.finalize();
    let n0 = j.code_block.len();
    let at = j.get_current() as u64;
    let e = v::effects();
    let mut i = 0;
    while i < 1100 {
        j.emitw(0x9090);
        j.finalize();
        i += 1;
    }
    v::eq("C18", v::effects(), e, "no number of finalisations changes the mapping");
    v::not_freed("C18", "the region stays allocated");
    v::eq("C16", j.code_block.len() as u64, n0 as u64 + 1100, "one block per finalisation");
    let mut i = 0;
    while i < 1100 {
        let b = &j.code_block[n0 + i];
        v::eq("C16", at_of(b.0), at + 2 * i as u64, "start");
        v::eq("C16", at_of(b.1), at + 2 * i as u64 + 2, "code end");
        v::eq("C16", at_of(b.2), at + 2 * i as u64 + 2, "end");
        i += 1;
    }
    v::eq("C16", j.as_slice().len() as u64, at + 2200, "the code view ends at the last code end");
}
fn at_of(p: Pos) -> u64 {
    (p - Pos::from(0)) as u64
}
fn w_c14_long() {
    // many items of one kind, each with its own value
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 65536);
    let a = addr(&j);
    let d = data_at(&mut j);
    let mut ks = Vec::new();
    let mut ds = Vec::new();
    let mut i = 0i64;
    while i < 300 {
        ks.push(j.const_i64(i * 3 - 7));
        ds.push(j.data_i32(i as i32 + 5));
        i += 1;
    }
    j.finalize();
    let k0 = j.get_label_u64(ks[0]);
    let d0 = j.get_label_u64(ds[0]);
    v::oblige("C14", k0 >= a && k0 < a + 16, "constants follow the code");
    v::oblige("C14", d0 >= d && d0 < d + 4, "data go to the data area");
    let mut i = 0;
    while i < 300 {
        let k = j.get_label_u64(ks[i]);
        v::eq("C14", k, k0 + 16 * i as u64, "in request order");
        v::eq("C14", rd64(k), (i as i64 * 3 - 7) as u64, "each constant with its own value");
        let e = j.get_label_u64(ds[i]);
        v::eq("C14", e, d0 + 4 * i as u64, "in request order");
        v::eq("C14", rd32(e), i as u64 + 5, "each item with its own value");
        i += 7;
    }
    let at = addr(&j);
    v::mark();
    j.finalize();
    v::no_writes("C11+C14", "items that were placed are not placed again");
    v::eq("C11+C14", addr(&j), at, "items that were placed take no further room");
    v::eq("C11+C14", j.get_label_u64(ks[0]), k0, "items stay where they were placed");
    v::eq("C11+C14", j.get_label_u64(ds[299]), d0 + 4 * 299, "items stay where they were placed");
}
fn w_c08_many_across() {
    // many references from one page to a label on the other, bound before or after them
    let mut j = JitMemory::new();
    let l = j.label();
    let m = j.label();
    hv(&mut j);
    roomy(&mut j, 4096);
    j.select_page(0);
    j.bind_label(l);
    let t = addr(&j);
    j.select_page(1);
    let a = addr(&j);
    let mut i = 0;
    while i < 40 {
        monoasm! { &mut j,
            jmp l;
            call m;
        }
        i += 1;
    }
    let k = j.abs_address(l);
    let n = j.abs_address(m);
    j.select_page(0);
    j.bind_label(m);
    let u = addr(&j);
    j.finalize();
    let mut i = 0;
    while i < 40 {
        v::eq("C08+C11", target(a + i * 10 + 1, 0), t, "each of many references to a label bound earlier on the other page");
        v::eq("C08+C11", target(a + i * 10 + 6, 0), u, "each of many references to a label bound later on the other page");
        i += 1;
    }
    v::eq("C09+C11", rd64(j.get_label_u64(k)), t, "absolute address of a label with many references");
    v::eq("C09+C11", rd64(j.get_label_u64(n)), u, "absolute address of a label with many references");
}
fn w_c14_long_block() {
    // a block longer than a half word counts
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 200000);
    let l = j.constant(65540);
    let m = j.data(4100);
    v::mark();
    j.finalize();
    v::eq("C14", v::nwrites(), 65540 + 4100, "exactly the number of bytes requested");
    let k = j.get_label_u64(l);
    let e = j.get_label_u64(m);
    v::eq("C14", addr(&j), k + 65540, "assembly continues after the block");
    v::eq("C14", data_at(&mut j), e + 4100, "the data area continues after the block");
    v::eq("C14", rd8(k + 65539), 0, "zero bytes");
    v::eq("C14", rd8(e + 4099), 0, "zero bytes");
}
fn w_c14_long_data() {
    // a data block longer than a half word counts
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 200000);
    let m = j.data(65541);
    let q = j.data_i64(9);
    v::mark();
    j.finalize();
    v::eq("C14", v::nwrites(), 65541 + 8, "exactly the number of bytes requested");
    let e = j.get_label_u64(m);
    let f = j.get_label_u64(q);
    v::oblige("C14", f >= e + 65541, "the next item follows the block");
    v::eq("C14", rd64(f), 9, "the next item's value");
    v::eq("C14", rd8(e + 65540), 0, "zero bytes");
}
fn w_c14_any_block() {
    // every small block size
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 256);
    let n = v::within("n", 0, 33) as usize;
    let l = j.constant(n);
    let m = j.data(n);
    let q = j.const_i32(7);
    v::mark();
    j.finalize();
    let k = j.get_label_u64(l);
    let e = j.get_label_u64(m);
    v::eq("C14", v::nwrites(), 2 * n as u64 + 4, "exactly the number of bytes requested");
    v::eq("C14", data_at(&mut j), e + n as u64, "the data area continues after the block");
    v::aligned("C14", k, 16, "aligned");
    v::aligned("C14", e, 16, "aligned");
    let f = j.get_label_u64(q);
    v::oblige("C14", f >= k + n as u64 && f < k + n as u64 + 4, "the next constant follows");
    let mut i = 0;
    while i < n as u64 {
        v::eq("C14", rd8(k + i), 0, "zero bytes");
        v::eq("C14", rd8(e + i), 0, "zero bytes");
        i += 1;
    }
}
fn w_c12_long() {
    // emission far beyond small counts
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 200000);
    let a = addr(&j);
    v::mark();
    let mut i = 0u64;
    while i < 66000 {
        j.emitb(i as u8);
        i += 1;
    }
    v::eq("C12", addr(&j), a + 66000, "the cursor advances by one byte each time");
    v::eq("C12", v::nwrites(), 66000, "nothing else is written");
    v::eq("C12", rd8(a + 65537), 1, "the byte emitted");
}
fn w_c15_long() {
    // pages are selected as asked after any number of rounds, also when nothing was emitted on them
    let mut j = JitMemory::new();
    let mut i = 0;
    while i < 300 {
        j.select_page(1);
        v::eq("C15", j.get_page() as u64, 1, "the second page is selected");
        v::eq("C15", j.get_current() as u64, 0, "the second page is still empty");
        j.select_page(0);
        v::eq("C15", j.get_page() as u64, 0, "the first page is selected");
        v::eq("C15", j.get_current() as u64, i as u64, "the first page's cursor is its own");
        j.emitb(1);
        j.finalize();
        i += 1;
    }
    j.select_page(1);
    let b = addr(&j);
    let mut i = 0;
    while i < 300 {
        j.select_page(1);
        j.emitb(i as u8);
        v::eq("C15", j.get_current() as u64, i as u64 + 1, "the second page's cursor advances");
        j.select_page(0);
        v::eq("C15", j.get_current() as u64, 300 + i as u64, "the first page's cursor advances");
        j.emitb(!i as u8);
        i += 1;
    }
    let a = addr(&j) - 300;
    let mut i = 0;
    while i < 300 {
        v::eq("C15", rd8(b + i as u64), i as u8 as u64, "the second page holds what was emitted on it");
        v::eq("C15", rd8(a + i as u64), !i as u8 as u64, "the first page holds what was emitted on it");
        i += 1;
    }
}
