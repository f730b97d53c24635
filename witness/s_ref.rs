#![allow(unused)]
//! State witnesses: label references, absolute addresses, labels, repeated finalisation, constants and data,
//! code extents, jump patching, protection.
extern crate monoasm;
extern crate monoasm_macro;
#[path = "/verif/witness/v.rs"]
mod v;
use monoasm::*;
use monoasm_macro::monoasm;
include!("/verif/witness/h.rs");

fn sx32(x: u64) -> u64 {
    x as u32 as i32 as i64 as u64
}
/// target of the rel32 whose displacement slot is at `slot`, with `tail` bytes between the slot's end and the next instruction
fn target(slot: u64, tail: u64) -> u64 {
    (slot + 4 + tail).wrapping_add(sx32(rd32(slot)))
}
fn roomy(j: &mut JitMemory, n: usize) {
    let p = j.get_page();
    j.select_page(0);
    room(j, n);
    j.select_page(1);
    room(j, n);
    j.select_page(p);
    v::assume(data_at(j) + n as u64 <= v::region_base() + v::region_size());
}
fn data_at(j: &mut JitMemory) -> u64 {
    let l = j.label();
    j.bind_label_with_page(Page(2), l);
    j.get_label_u64(l)
}

// ------------------------------------------------------------------ C08 label references
fn w_c08_bound_before() {
    let mut j = JitMemory::new();
    let l = j.label();
    hv(&mut j);
    j.bind_label(l);
    let at = addr(&j);
    hv(&mut j);
    roomy(&mut j, 64);
    let a = addr(&j);
    monoasm! { &mut j,
        jmp l;
        call l;
        jne l;
        lea rax, [rip + l];
        movb [rip + l], 1;
        movq [rip + l], 1;
        cmpw [rip + l], 1;
    }
    j.finalize();
    v::eq("C08+C11", target(a + 1, 0), at, "a jump to a label bound earlier");
    v::eq("C08+C11", target(a + 6, 0), at, "a call to a label bound earlier");
    v::eq("C08+C11", target(a + 12, 0), at, "a conditional jump to a label bound earlier");
    v::eq("C08+C11", target(a + 19, 0), at, "an address of a label bound earlier");
    v::eq("C08+C11", target(a + 25, 1), at, "a byte immediate follows the displacement");
    v::eq("C08+C11", target(a + 33, 4), at, "a double word immediate follows the displacement");
}
fn w_c08_bound_after() {
    let mut j = JitMemory::new();
    let l = j.label();
    hv(&mut j);
    roomy(&mut j, 64);
    let a = addr(&j);
    monoasm! { &mut j,
        jmp l;
        call l;
        jne l;
        lea rax, [rip + l];
        movb [rip + l], 1;
        movq [rip + l], 1;
    }
    hv(&mut j);
    j.bind_label(l);
    let at = addr(&j);
    j.finalize();
    v::eq("C08+C11", target(a + 1, 0), at, "a jump to a label bound later");
    v::eq("C08+C11", target(a + 6, 0), at, "a call to a label bound later");
    v::eq("C08+C11", target(a + 12, 0), at, "a conditional jump to a label bound later");
    v::eq("C08+C11", target(a + 19, 0), at, "an address of a label bound later");
    v::eq("C08+C11", target(a + 25, 1), at, "a byte immediate follows the displacement");
    v::eq("C08+C11", target(a + 33, 4), at, "a double word immediate follows the displacement");
}
fn w_c08_two_labels() {
    let mut j = JitMemory::new();
    let l = j.label();
    let unused = j.label();
    let m = j.label();
    hv(&mut j);
    j.bind_label(m);
    let am = addr(&j);
    hv(&mut j);
    roomy(&mut j, 64);
    let a = addr(&j);
    monoasm! { &mut j,
        jmp l;
        jmp m;
        jmp l;
        call m;
    }
    hv(&mut j);
    j.bind_label(l);
    let al = addr(&j);
    j.finalize();
    v::eq("C08+C11", target(a + 1, 0), al, "first reference to the first label");
    v::eq("C08+C11", target(a + 6, 0), am, "first reference to the second label");
    v::eq("C08+C11", target(a + 11, 0), al, "second reference to the first label");
    v::eq("C08+C11", target(a + 16, 0), am, "second reference to the second label");
}
fn w_c08_between_pages() {
    // references from each page to a label on each page
    let mut j = JitMemory::new();
    let l0 = j.label();
    let l1 = j.label();
    hv(&mut j);
    j.select_page(0);
    j.bind_label(l0);
    let t0 = addr(&j);
    j.select_page(1);
    j.bind_label(l1);
    let t1 = addr(&j);
    hv(&mut j);
    roomy(&mut j, 64);
    j.select_page(0);
    let a0 = addr(&j);
    monoasm! { &mut j,
        jmp l0;
        jmp l1;
    }
    j.select_page(1);
    let a1 = addr(&j);
    monoasm! { &mut j,
        call l0;
        call l1;
    }
    hv(&mut j);
    j.finalize();
    v::eq("C08+C11", target(a0 + 1, 0), t0, "first page to first page");
    v::eq("C08+C11", target(a0 + 6, 0), t1, "first page to second page");
    v::eq("C08+C11", target(a1 + 1, 0), t0, "second page to first page");
    v::eq("C08+C11", target(a1 + 6, 0), t1, "second page to second page");
}
fn w_c08_other_page_selected() {
    // which page is selected at finalisation does not matter
    let mut j = JitMemory::new();
    let l = j.label();
    hv(&mut j);
    roomy(&mut j, 64);
    j.select_page(1);
    let a = addr(&j);
    monoasm! { &mut j,
        jmp l;
    }
    j.select_page(0);
    j.bind_label(l);
    let t = addr(&j);
    let p = v::within("p", 0, 1) as usize;
    j.select_page(p);
    j.finalize();
    v::eq("C08+C11", target(a + 1, 0), t, "the reference leads to the label");
}
fn w_c08_constant() {
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 256);
    let c = j.const_i64(v::any("x"));
    let f = j.const_f64(1.25);
    let k = j.constant(3);
    let a = addr(&j);
    monoasm! { &mut j,
        movq rax, [rip + c];
        movsd xmm1, [rip + f];
        lea rbx, [rip + k];
    }
    j.finalize();
    let tc = j.get_label_u64(c);
    let tf = j.get_label_u64(f);
    let tk = j.get_label_u64(k);
    v::eq("C08+C11", target(a + 3, 0), tc, "a reference to an integer constant");
    v::eq("C08+C11", target(a + 7 + 4, 0), tf, "a reference to a floating-point constant");
    v::eq("C08+C11", target(a + 15 + 3, 0), tk, "a reference to a block of bytes");
}
fn w_c08_data() {
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 256);
    let c = j.data_i64(v::any("x"));
    let d = j.data_i32(v::any("y"));
    let k = j.data(3);
    let a = addr(&j);
    monoasm! { &mut j,
        movq rax, [rip + c];
        movl rbx, [rip + d];
        lea rbx, [rip + k];
    }
    j.finalize();
    let tc = j.get_label_u64(c);
    let td = j.get_label_u64(d);
    let tk = j.get_label_u64(k);
    v::eq("C08+C11", target(a + 3, 0), tc, "a reference to 64-bit data");
    v::eq("C08+C11", target(a + 7 + 2, 0), td, "a reference to 32-bit data");
    v::eq("C08+C11", target(a + 13 + 3, 0), tk, "a reference to a block of data");
}
fn w_c08_old_items() {
    // references made after the round that placed the constants and data they name
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 256);
    let c = j.const_i64(v::any("x"));
    let d = j.data_i32(v::any("y"));
    let k = j.data(3);
    j.finalize();
    let (tc, td, tk) = (j.get_label_u64(c), j.get_label_u64(d), j.get_label_u64(k));
    hv(&mut j);
    roomy(&mut j, 256);
    let a = addr(&j);
    monoasm! { &mut j,
        movq rax, [rip + c];
        movl rbx, [rip + d];
        movb [rip + k], 1;
    }
    let sc = j.abs_address(c);
    let sd = j.abs_address(d);
    j.finalize();
    v::eq("C08+C11", target(a + 3, 0), tc, "a reference to a constant of an earlier round");
    v::eq("C08+C11", target(a + 7 + 2, 0), td, "a reference to data of an earlier round");
    v::eq("C08+C11", target(a + 13 + 2, 1), tk, "a reference to a data block of an earlier round");
    v::eq("C09+C11", rd64(j.get_label_u64(sc)), tc, "the address of a constant of an earlier round");
    v::eq("C09+C11", rd64(j.get_label_u64(sd)), td, "the address of data of an earlier round");
}
fn w_c08_old_and_pending() {
    // references made before and after a round in which the label is bound on the other page
    let mut j = JitMemory::new();
    let l = j.label();
    hv(&mut j);
    roomy(&mut j, 256);
    let p = j.get_page();
    let a = addr(&j);
    monoasm! { &mut j,
        jmp l;
    }
    let s = j.abs_address(l);
    j.finalize();
    j.select_page(1 - p);
    j.bind_label(l);
    let at = addr(&j);
    j.finalize();
    let b = addr(&j);
    monoasm! { &mut j,
        call l;
    }
    j.select_page(p);
    let c = addr(&j);
    monoasm! { &mut j,
        movb [rip + l], 1;
    }
    let t = j.abs_address(l);
    j.finalize();
    v::eq("C08+C11", target(a + 1, 0), at, "the pending reference is resolved");
    v::eq("C08+C11", target(b + 1, 0), at, "a later reference on the label's page is resolved");
    v::eq("C08+C11", target(c + 2, 1), at, "a later reference on the other page is resolved");
    v::eq("C09+C11", rd64(j.get_label_u64(s)), at, "the pending address is stored");
    v::eq("C09+C11", rd64(j.get_label_u64(t)), at, "a later address is stored");
}
fn w_c08_self() {
    let mut j = JitMemory::new();
    let l = j.label();
    hv(&mut j);
    roomy(&mut j, 64);
    let a = addr(&j);
    monoasm! { &mut j,
        l:
        jmp l;
    }
    j.finalize();
    v::eq("C08", sx32(rd32(a + 1)), (-5i64) as u64, "a jump to itself");
}
fn w_c08_in_block() {
    let mut j = JitMemory::new();
    let l = j.label();
    let m = j.label();
    hv(&mut j);
    roomy(&mut j, 64);
    let a = addr(&j);
    monoasm! { &mut j,
        l:
        addq rax, 1;
        jeq m;
        jmp l;
        m:
        ret;
    }
    j.finalize();
    v::eq("C08+C11", target(a + 6, 0), a + 15, "a forward branch in a block");
    v::eq("C08+C11", target(a + 11, 0), a, "a backward branch in a block");
}
fn w_c08_reloc_api() {
    // a slot recorded by hand: displacement relative to slot + offset
    let mut j = JitMemory::new();
    let l = j.label();
    hv(&mut j);
    j.bind_label(l);
    let at = addr(&j);
    hv(&mut j);
    roomy(&mut j, 64);
    let a = addr(&j);
    let n: u8 = v::any("n");
    j.save_reloc(l, n);
    j.emitl(0);
    j.finalize();
    v::eq("C08", (a + n as u64).wrapping_add(sx32(rd32(a))), at, "a recorded slot leads to the label");
}
fn w_c08_jump_only_slot() {
    let mut j = JitMemory::new();
    let l = j.label();
    hv(&mut j);
    j.bind_label(l);
    hv(&mut j);
    roomy(&mut j, 64);
    let a = addr(&j);
    monoasm! { &mut j,
        jmp l;
    }
    v::eq("C08", rd8(a), 0xe9, "opcode before finalisation");
    v::mark();
    j.finalize();
    v::wrote_exactly("C08", a + 1, 4, "finalisation stores the four displacement bytes only");
}

fn w_c08_across_finalisations() {
    // bound only before a later finalisation, and referenced again afterwards
    let mut j = JitMemory::new();
    let l = j.label();
    let m = j.label();
    hv(&mut j);
    roomy(&mut j, 256);
    let a = addr(&j);
    monoasm! { &mut j,
        jmp l;
        call m;
        movw [rip + l], 1;
    }
    j.finalize();
    let b = addr(&j);
    monoasm! { &mut j,
        m:
        jne l;
    }
    j.finalize();
    j.finalize();
    let c = addr(&j);
    monoasm! { &mut j,
        l:
        jmp m;
        call l;
    }
    j.finalize();
    v::eq("C08+C11", target(a + 1, 0), c, "a jump made two finalisations before its label is bound");
    v::eq("C08+C11", target(a + 6, 0), b, "a call made one finalisation before its label is bound");
    v::eq("C08+C11", target(a + 13, 2), c, "a memory operand made two finalisations before its label is bound");
    v::eq("C08+C11", target(b + 2, 0), c, "a conditional jump made before its label is bound");
    v::eq("C08+C11", target(c + 1, 0), b, "a jump made after its label's finalisation");
    v::eq("C08+C11", target(c + 6, 0), c, "a call to a label of the same round");
}
fn w_c08_many_references() {
    let mut j = JitMemory::new();
    let l = j.label();
    hv(&mut j);
    roomy(&mut j, 4096);
    let a = addr(&j);
    let mut i = 0;
    while i < 70 {
        monoasm! { &mut j,
            jmp l;
        }
        i += 1;
    }
    hv(&mut j);
    j.bind_label(l);
    let t = addr(&j);
    j.finalize();
    let mut i = 0;
    while i < 70 {
        v::eq("C08+C11", target(a + i * 5 + 1, 0), t, "each of many references to one label");
        i += 1;
    }
}
fn w_c08_many_labels() {
    let mut j = JitMemory::new();
    let mut ls = vec![];
    let mut i = 0;
    while i < 40 {
        ls.push(j.label());
        i += 1;
    }
    hv(&mut j);
    roomy(&mut j, 4096);
    let a = addr(&j);
    let mut i = 0;
    while i < 40 {
        let l = ls[39 - i];
        monoasm! { &mut j,
            call l;
        }
        i += 1;
    }
    let t = addr(&j);
    let mut i = 0;
    while i < 40 {
        j.bind_label(ls[i]);
        j.emitb(0x90);
        i += 1;
    }
    j.finalize();
    let mut i = 0u64;
    while i < 40 {
        v::eq("C08+C11", target(a + i * 5 + 1, 0), t + (39 - i), "each label its own references");
        i += 1;
    }
}
fn w_c08_page_ends() {
    // from the first byte of the first page to the last of the second, and back
    let mut j = JitMemory::new();
    let (first, last) = (j.label(), j.label());
    hv(&mut j);
    j.select_page(0);
    v::assume(j.get_current() == 0);
    j.bind_label(first);
    let a = addr(&j);
    monoasm! { &mut j,
        jmp last;
    }
    j.select_page(1);
    v::assume(j.get_current() == v::page_size() - 5);
    let b = addr(&j);
    monoasm! { &mut j,
        last:
        jmp first;
    }
    j.finalize();
    v::eq("C08+C11", target(a + 1, 0), b, "the longest forward reference");
    v::eq("C08+C11", target(b + 1, 0), a, "the longest backward reference");
}
fn w_c08_handle_binding() {
    // labels bound through a page number, including the data page
    let mut j = JitMemory::new();
    let (l, d) = (j.label(), j.label());
    hv(&mut j);
    roomy(&mut j, 64);
    let p = j.get_page();
    let a = addr(&j);
    monoasm! { &mut j,
        call l;
        lea rax, [rip + d];
    }
    j.bind_label_with_page(Page(1 - p), l);
    j.bind_label_with_page(Page(2), d);
    let tl = j.get_label_u64(l);
    let td = j.get_label_u64(d);
    j.finalize();
    v::eq("C08+C11", target(a + 1, 0), tl, "a label bound on a named code page");
    v::eq("C08+C11", target(a + 8, 0), td, "a label bound in the data area");
    j.select_page(1 - p);
    v::eq("C08", tl, addr(&j), "the label is at that page's cursor");
}

// ------------------------------------------------------------------ C09 absolute addresses
fn w_c09_bound_before() {
    let mut j = JitMemory::new();
    let l = j.label();
    hv(&mut j);
    j.bind_label(l);
    let at = addr(&j);
    hv(&mut j);
    roomy(&mut j, 64);
    let s = j.abs_address(l);
    j.finalize();
    let slot = j.get_label_u64(s);
    v::aligned("C09+C14", slot, 8, "the slot is 8-byte aligned");
    v::eq("C09+C11", rd64(slot), at, "the slot holds the label's address");
}
fn w_c09_bound_after() {
    let mut j = JitMemory::new();
    let l = j.label();
    hv(&mut j);
    roomy(&mut j, 64);
    let s = j.abs_address(l);
    hv(&mut j);
    roomy(&mut j, 64);
    j.bind_label(l);
    let at = addr(&j);
    j.finalize();
    let slot = j.get_label_u64(s);
    v::aligned("C09+C14", slot, 8, "the slot is 8-byte aligned");
    v::eq("C09+C11", rd64(slot), at, "the slot holds the address of a label bound after the request");
    v::eq("C09", j.get_label_u64(l), at, "the label itself stays where it was bound");
}
fn w_c09_bound_between_finalisations() {
    let mut j = JitMemory::new();
    let l = j.label();
    hv(&mut j);
    roomy(&mut j, 64);
    let s = j.abs_address(l);
    j.finalize();
    let slot = j.get_label_u64(s);
    hv(&mut j);
    j.bind_label(l);
    let at = addr(&j);
    v::mark();
    j.finalize();
    v::wrote_exactly("C09", slot, 8, "the later finalisation fills the slot and nothing else");
    v::eq("C09+C11", rd64(slot), at, "the slot holds the address of a label bound before a later finalisation");
    let s2 = j.get_label_u64(s);
    v::eq("C09", s2, slot, "the slot's label stays");
}
fn w_c09_other_page() {
    let mut j = JitMemory::new();
    let l = j.label();
    hv(&mut j);
    roomy(&mut j, 64);
    let p = v::within("p", 0, 1) as usize;
    let q = v::within("q", 0, 1) as usize;
    j.select_page(p);
    let s = j.abs_address(l);
    j.select_page(q);
    j.bind_label(l);
    let at = addr(&j);
    j.finalize();
    let slot = j.get_label_u64(s);
    v::eq("C09+C11", rd64(slot), at, "requesting page and target page may be any");
}
fn w_c09_two() {
    let mut j = JitMemory::new();
    let l = j.label();
    let m = j.label();
    hv(&mut j);
    j.bind_label(l);
    let al = addr(&j);
    hv(&mut j);
    roomy(&mut j, 256);
    let s = j.abs_address(l);
    let c = j.const_i32(v::any("x"));
    let t = j.abs_address(m);
    let u = j.abs_address(l);
    j.emitb(0x90);
    j.bind_label(m);
    let am = addr(&j);
    j.finalize();
    let (s, t, u) = (j.get_label_u64(s), j.get_label_u64(t), j.get_label_u64(u));
    v::eq("C09+C11", rd64(s), al, "first slot");
    v::eq("C09+C11", rd64(t), am, "second slot");
    v::eq("C09+C11", rd64(u), al, "third slot, same target as the first");
    v::aligned("C09+C14", s, 8, "aligned");
    v::aligned("C09+C14", t, 8, "aligned");
    v::aligned("C09+C14", u, 8, "aligned");
    v::oblige("C09", s + 8 <= t && t + 8 <= u, "slots are distinct");
}
fn w_c09_of_constant() {
    // the target may be a constant's or data's label, or another slot's
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 256);
    let c = j.const_i64(v::any("x"));
    let d = j.data_i64(v::any("y"));
    let s = j.abs_address(c);
    let t = j.abs_address(d);
    let u = j.abs_address(s);
    j.finalize();
    let (c, d) = (j.get_label_u64(c), j.get_label_u64(d));
    let (s, t, u) = (j.get_label_u64(s), j.get_label_u64(t), j.get_label_u64(u));
    v::eq("C09+C11", rd64(s), c, "address of a constant");
    v::eq("C09+C11", rd64(t), d, "address of data");
    v::eq("C09+C11", rd64(u), s, "address of another slot");
}
fn w_c09_mixed_with_jump() {
    // relative and absolute references to one label
    let mut j = JitMemory::new();
    let l = j.label();
    hv(&mut j);
    roomy(&mut j, 64);
    let a = addr(&j);
    let s = j.abs_address(l);
    monoasm! { &mut j,
        jmp l;
        lea rax, [rip + s];
    }
    j.bind_label(l);
    let at = addr(&j);
    j.finalize();
    let slot = j.get_label_u64(s);
    v::eq("C09+C11", rd64(slot), at, "the slot holds the label's address");
    v::eq("C08+C09", target(a + 1, 0), at, "the jump leads to the label");
    v::eq("C08+C09", target(a + 8, 0), slot, "the slot's own label reports the slot");
}

// ------------------------------------------------------------------ C10 labels
fn w_c10_distinct() {
    let mut w = any();
    let a = w.j.label();
    let b = w.j.label();
    let c = w.j.const_i32(1);
    let d = w.j.data_i32(1);
    let e = w.j.abs_address(a);
    let f = w.j.const_align8();
    let g = w.j.constant(1);
    let h = w.j.data(1);
    let i = w.j.const_f64(1.0);
    let k = w.j.const_i64(1);
    let l = w.j.data_i64(1);
    roomy(&mut w.j, 512);
    w.j.finalize();
    let z = w.j.label();
    let all = [w.bound, w.scratch, w.pending, a, b, c, d, e, f, g, h, i, k, l, z];
    let mut x = 0;
    while x < all.len() {
        let mut y = 0;
        while y < all.len() {
            if x == y {
                v::oblige("C10", all[x] == all[y], "a label equals itself");
            } else {
                v::oblige("C10", all[x] != all[y], "labels created at different times differ");
                v::oblige("C10", all[x].to_usize() != all[y].to_usize(), "label numbers differ");
            }
            y += 1;
        }
        x += 1;
    }
}
fn w_c10_distinct_values() {
    // items with equal, or partly equal, values still have labels of their own
    let mut w = any();
    let n: i64 = v::any("n");
    let a = w.j.const_i64(n);
    let b = w.j.const_i64(n);
    let c = w.j.const_i64(1);
    let d = w.j.const_i64(0x1_0000_0001);
    let e = w.j.const_i64(1);
    let f = w.j.const_i32(1);
    let g = w.j.const_i32(1);
    let h = w.j.data_i32(1);
    let i = w.j.data_i32(1);
    let k = w.j.data_i64(1);
    let l = w.j.data_i64(1);
    let m = w.j.const_f64(1.5);
    let o = w.j.const_f64(1.5);
    let p = w.j.constant(4);
    let q = w.j.constant(4);
    let r = w.j.data(4);
    let s = w.j.data(4);
    let t = w.j.abs_address(w.bound);
    let u = w.j.abs_address(w.bound);
    let x = w.j.const_align8();
    let y = w.j.const_align8();
    let all = [a, b, c, d, e, f, g, h, i, k, l, m, o, p, q, r, s, t, u, x, y, w.bound, w.scratch, w.pending];
    let mut x = 0;
    while x < all.len() {
        let mut y = x + 1;
        while y < all.len() {
            v::oblige("C10+C14", all[x] != all[y], "labels created at different times differ");
            y += 1;
        }
        x += 1;
    }
}
fn w_c10_bound_again() {
    // a label that is bound again reports, and is referenced at, the new place
    let mut j = JitMemory::new();
    let l = j.label();
    let m = j.label();
    hv(&mut j);
    roomy(&mut j, 64);
    j.bind_label(m);
    let am = addr(&j);
    j.bind_label(l);
    j.finalize();
    hv(&mut j);
    roomy(&mut j, 64);
    let a = addr(&j);
    monoasm! { &mut j,
        jmp l;
        int3;
    l:
        leave;
    }
    v::eq("C10", j.get_label_u64(l), a + 6, "a label is where it was bound last");
    v::eq("C10", j.get_label_address(l).as_ptr() as u64, a + 6, "a label is where it was bound last");
    v::eq("C10", j.get_label_u64(m), am, "the other label stays where it was bound");
    let k = j.abs_address(l);
    j.finalize();
    v::eq("C08+C10", target(a + 1, 0), a + 6, "the jump leads to the place bound last");
    v::eq("C09+C10", rd64(j.get_label_u64(k)), a + 6, "the address of the place bound last");
}
fn w_c10_queries_agree() {
    let mut j = JitMemory::new();
    let l = j.label();
    hv(&mut j);
    let at = addr(&j);
    let base = at - j.get_current() as u64;
    j.bind_label(l);
    hv(&mut j);
    v::eq("C10", j.get_label_address(l).as_ptr() as u64, at, "get_label_address");
    v::eq("C10", j.get_label_addr::<u64, u64>(l) as usize as u64, at, "get_label_addr");
    v::eq("C10", j.get_label_addr2::<u64, u64, u64>(l) as usize as u64, at, "get_label_addr2");
    v::eq("C10", j.get_label_u64(l), at, "get_label_u64");
    j.finalize();
    v::eq("C10", j.get_label_address(l).as_ptr() as u64, at, "get_label_address after finalisation");
    v::eq("C10", j.get_label_addr::<u64, u64>(l) as usize as u64, at, "get_label_addr after finalisation");
    v::eq("C10", j.get_label_addr2::<u64, u64, u64>(l) as usize as u64, at, "get_label_addr2 after finalisation");
    v::eq("C10", j.get_label_u64(l), at, "get_label_u64 after finalisation");
}
fn w_c10_bind_is_local() {
    let mut j = JitMemory::new();
    let a = j.label();
    let b = j.label();
    let c = j.label();
    hv(&mut j);
    j.bind_label(a);
    let aa = addr(&j);
    hv(&mut j);
    j.bind_label(c);
    let ac = addr(&j);
    hv(&mut j);
    v::mark();
    j.bind_label(b);
    let ab = addr(&j);
    v::no_writes("C10", "binding stores nothing");
    v::eq("C10", j.get_label_u64(a), aa, "binding one label does not move another");
    v::eq("C10", j.get_label_u64(b), ab, "the label bound");
    v::eq("C10", j.get_label_u64(c), ac, "binding one label does not move another");
    let d = j.label();
    room(&j, 16);
    monoasm! { &mut j,
        jmp a;
    }
    v::eq("C10", j.get_label_u64(a), aa, "using a label does not move it");
    v::eq("C10", j.get_label_u64(b), ab, "creating a label does not move another");
    v::eq("C10", j.get_label_u64(c), ac, "creating a label does not move another");
}
fn w_c10_address_is_cursor() {
    let mut w = any();
    let l = w.j.label();
    w.j.bind_label(l);
    let a = w.j.get_label_u64(l);
    v::eq("C10", a, addr(&w.j), "the label's address is the cursor's address");
    let p = w.j.get_page() as u64;
    v::eq("C10", a, v::region_base() + p * v::page_size() as u64 + w.j.get_current() as u64, "the address is the page's start plus the cursor");
}
fn w_c10_macro_bind() {
    let mut w = any();
    let o = observe(&mut w);
    let l = w.j.label();
    v::mark();
    monoasm! { &mut w.j,
        l:
    }
    v::no_writes("C10", "binding stores nothing");
    v::eq("C10", w.j.get_label_u64(l), o.at, "a label in a block is bound at the cursor");
    frame("C10", &mut w, &o, 0);
}
fn w_c10_unbound_1() {
    let w = any();
    v::panics(true);
    let _ = w.j.get_label_address(w.pending);
    v::never("C10", "get_label_address of an unbound label");
}
fn w_c10_unbound_2() {
    let mut w = any();
    v::panics(true);
    let _ = w.j.get_label_addr::<u64, u64>(w.pending);
    v::never("C10", "get_label_addr of an unbound label");
}
fn w_c10_unbound_3() {
    let mut w = any();
    v::panics(true);
    let _ = w.j.get_label_addr2::<u64, u64, u64>(w.pending);
    v::never("C10", "get_label_addr2 of an unbound label");
}
fn w_c10_unbound_4() {
    let mut w = any();
    v::panics(true);
    let _ = w.j.get_label_u64(w.pending);
    v::never("C10", "get_label_u64 of an unbound label");
}
fn w_c10_unbound_after_finalize() {
    let mut w = any();
    roomy(&mut w.j, 64);
    w.j.finalize();
    v::panics(true);
    let _ = w.j.get_label_u64(w.pending);
    v::never("C10", "finalisation does not bind labels of its own accord");
}
fn w_c10_unbound_constant() {
    let mut j = JitMemory::new();
    hv(&mut j);
    let c = j.const_i64(1);
    v::panics(true);
    let _ = j.get_label_u64(c);
    v::never("C10", "a constant has no address before finalisation");
}

// ------------------------------------------------------------------ C11 repeated finalisation
fn w_c11_idle() {
    // finalising again with nothing to do changes no memory and no label
    let mut w = any();
    roomy(&mut w.j, 64);
    w.j.finalize();
    let o = observe(&mut w);
    v::mark();
    w.j.finalize();
    v::no_writes("C11", "nothing is left to resolve");
    frame("C11", &mut w, &o, 0);
}
fn w_c11_pending() {
    // a reference to an unbound label waits for a later finalisation
    let mut j = JitMemory::new();
    let l = j.label();
    hv(&mut j);
    roomy(&mut j, 64);
    let a = addr(&j);
    monoasm! { &mut j,
        jmp l;
    }
    v::mark();
    j.finalize();
    v::no_writes("C11", "a pending reference is left alone");
    hv(&mut j);
    v::mark();
    j.finalize();
    v::no_writes("C11", "a pending reference is left alone by every finalisation");
    hv(&mut j);
    j.bind_label(l);
    let at = addr(&j);
    v::mark();
    j.finalize();
    v::wrote_exactly("C11", a + 1, 4, "only the pending slot is stored to");
    v::eq("C08+C11", target(a + 1, 0), at, "the pending reference is resolved when its label is bound");
    hv(&mut j);
    v::mark();
    j.finalize();
    v::no_writes("C11", "a resolved reference is not touched again");
    v::eq("C08+C11", target(a + 1, 0), at, "a resolved reference stays");
}
fn w_c11_mixed() {
    // bound and pending references to different labels in one finalisation
    let mut j = JitMemory::new();
    let l = j.label();
    let m = j.label();
    let n = j.label();
    hv(&mut j);
    j.bind_label(m);
    let am = addr(&j);
    hv(&mut j);
    roomy(&mut j, 64);
    let a = addr(&j);
    monoasm! { &mut j,
        jmp l;
        jmp m;
        jmp n;
        jmp l;
    }
    v::mark();
    j.finalize();
    v::wrote_exactly("C11", a + 6, 4, "the bound reference is resolved, the pending ones are left alone");
    v::eq("C08+C11", target(a + 6, 0), am, "the bound reference");
    hv(&mut j);
    j.bind_label(l);
    let al = addr(&j);
    v::mark();
    j.finalize();
    v::eq("C11", v::nwrites(), 8, "two references become resolvable");
    v::eq("C08+C11", target(a + 1, 0), al, "first pending reference");
    v::eq("C08+C11", target(a + 16, 0), al, "second pending reference");
    v::eq("C08+C11", target(a + 6, 0), am, "the earlier one stays");
    hv(&mut j);
    j.bind_label(n);
    let an = addr(&j);
    v::mark();
    j.finalize();
    v::wrote_exactly("C11", a + 11, 4, "the last pending reference");
    v::eq("C08+C11", target(a + 11, 0), an, "the last pending reference");
}
fn w_c11_old_and_new() {
    // new references to a label resolved earlier
    let mut j = JitMemory::new();
    let l = j.label();
    hv(&mut j);
    roomy(&mut j, 64);
    let a = addr(&j);
    monoasm! { &mut j,
        jmp l;
        l:
    }
    let at = addr(&j);
    j.finalize();
    hv(&mut j);
    roomy(&mut j, 64);
    let b = addr(&j);
    monoasm! { &mut j,
        jmp l;
    }
    v::mark();
    j.finalize();
    v::wrote_exactly("C11", b + 1, 4, "only the new reference is stored to");
    v::eq("C08+C11", target(b + 1, 0), at, "new code may refer to old labels");
}
fn w_c11_constants_once() {
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 256);
    let c = j.const_i64(v::any("x"));
    let d = j.data_i32(v::any("y"));
    let k = j.constant(3);
    let q = j.const_align8();
    j.finalize();
    let (ac, ad, ak) = (j.get_label_u64(c), j.get_label_u64(d), j.get_label_u64(k));
    hv(&mut j);
    let p = j.get_page();
    let cur = j.get_current();
    v::mark();
    j.finalize();
    v::no_writes("C11+C14", "constants are placed exactly once");
    v::eq("C11+C14", j.get_current() as u64, cur as u64, "and occupy no further space");
    v::eq("C11+C14", j.get_label_u64(c), ac, "constants stay where they were placed");
    v::eq("C11+C14", j.get_label_u64(d), ad, "data stays where it was placed");
    v::eq("C11+C14", j.get_label_u64(k), ak, "blocks stay where they were placed");
}
fn w_c11_code_kept() {
    // bytes emitted before are not changed by later emission, constants and finalisation
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 512);
    let a = addr(&j);
    let x: u64 = v::any("x");
    j.emitq(x);
    j.const_i64(v::any("k"));
    v::mark();
    j.finalize();
    v::writes_in("C11+C14", a + 8, a + 8 + 64, "constants are placed after the code");
    let b = addr(&j);
    v::oblige("C11+C14", b >= a + 8, "assembly continues after the code");
    let y: u64 = v::any("y");
    j.emitq(y);
    let c = j.const_i32(v::any("k2"));
    v::mark();
    j.finalize();
    v::writes_in("C11+C14", b + 8, b + 8 + 64, "the second finalisation stores behind the second piece of code");
    v::eq("C11+C14", rd64(a), x, "the first piece is as emitted");
    v::eq("C11+C14", rd64(b), y, "the second piece is as emitted");
}
fn w_c11_abs_pending() {
    let mut j = JitMemory::new();
    let l = j.label();
    hv(&mut j);
    roomy(&mut j, 64);
    let s = j.abs_address(l);
    j.finalize();
    let slot = j.get_label_u64(s);
    v::mark();
    j.finalize();
    v::no_writes("C11", "a pending absolute reference is left alone");
    hv(&mut j);
    j.bind_label(l);
    let at = addr(&j);
    j.finalize();
    v::eq("C09+C11", rd64(slot), at, "a pending absolute reference is resolved later");
    hv(&mut j);
    v::mark();
    j.finalize();
    v::no_writes("C11", "and only once");
}
fn w_c11_labels_stay() {
    let mut w = any();
    roomy(&mut w.j, 64);
    let a = w.j.get_label_u64(w.bound);
    w.j.finalize();
    v::eq("C10+C11", w.j.get_label_u64(w.bound), a, "labels stay");
    hv(&mut w.j);
    roomy(&mut w.j, 64);
    w.j.finalize();
    v::eq("C10+C11", w.j.get_label_u64(w.bound), a, "labels stay over several finalisations");
    v::panics(true);
    let _ = w.j.get_label_u64(w.pending);
    v::never("C10+C11", "an unbound label stays unbound");
}
fn w_c11_both_pages() {
    let mut j = JitMemory::new();
    let l = j.label();
    let m = j.label();
    hv(&mut j);
    roomy(&mut j, 64);
    j.select_page(0);
    let a = addr(&j);
    monoasm! { &mut j,
        jmp l;
    }
    j.select_page(1);
    let b = addr(&j);
    monoasm! { &mut j,
        jmp m;
    }
    j.finalize();
    hv(&mut j);
    j.select_page(1);
    j.bind_label(l);
    let al = addr(&j);
    j.finalize();
    hv(&mut j);
    j.select_page(0);
    j.bind_label(m);
    let am = addr(&j);
    v::mark();
    j.finalize();
    v::wrote_exactly("C11", b + 1, 4, "only the second page's reference is left");
    v::eq("C08+C11", target(a + 1, 0), al, "pending across finalisations, first page");
    v::eq("C08+C11", target(b + 1, 0), am, "pending across finalisations, second page");
}

// ------------------------------------------------------------------ C14 constants and data
fn zeros(id: &str, a: u64, n: u64) {
    let mut i = 0;
    while i < n {
        v::eq(id, rd8(a + i), 0, "a block is filled with zero bytes");
        i += 1;
    }
}
fn w_c14_i64() {
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 64);
    let x: i64 = v::any("x");
    let a = addr(&j);
    let l = j.const_i64(x);
    v::eq("C14", addr(&j), a, "a request emits nothing by itself");
    v::mark();
    j.finalize();
    let k = j.get_label_u64(l);
    v::wrote_exactly("C14", k, 8, "exactly the constant is stored");
    v::eq("C14", rd64(k), x as u64, "the label reports the address of the value");
    v::aligned("C14", k, 16, "64-bit constants are 16-byte aligned");
    v::oblige("C14", k >= a && k < a + 16, "the constant follows the code directly");
    v::eq("C14", addr(&j), k + 8, "assembly continues after the constant");
}
fn w_c14_f64() {
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 64);
    let x: u64 = v::any("x");
    let a = addr(&j);
    let l = j.const_f64(f64::from_bits(x));
    v::mark();
    j.finalize();
    let k = j.get_label_u64(l);
    v::wrote_exactly("C14", k, 8, "exactly the constant is stored");
    v::eq("C14", rd64(k), x, "the IEEE-754 bits of the value");
    v::aligned("C14", k, 16, "64-bit constants are 16-byte aligned");
    v::oblige("C14", k >= a && k < a + 16, "the constant follows the code directly");
}
fn w_c14_f64_values() {
    // representative values of every class: the bits are stored as they are
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 1024);
    let xs: [u64; 22] = [
        0, 1 << 63, 1, (1 << 63) | 1, 0x000f_ffff_ffff_ffff, 0x0010_0000_0000_0000, 0x3ff0_0000_0000_0000, 0xbff0_0000_0000_0000,
        0x3ff0_0000_0000_0001, 0x3fb9_9999_9999_999a, 0x4009_21fb_5444_2d18, 0x7fef_ffff_ffff_ffff, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000,
        0x7ff8_0000_0000_0000, 0xfff8_0000_0000_0000, 0x7ff8_0000_0000_0001, 0x7ff0_0000_0000_0001, 0x41e0_0000_0000_0000, 0x4340_0000_0000_0001,
        0x43e0_0000_0000_0000, 0x3e70_0000_0000_0000,
    ];
    let mut ls = Vec::new();
    let mut i = 0;
    while i < xs.len() {
        ls.push(j.const_f64(f64::from_bits(xs[i])));
        i += 1;
    }
    j.finalize();
    let mut i = 0;
    while i < xs.len() {
        let k = j.get_label_u64(ls[i]);
        v::eq("C14", rd64(k), xs[i], "the IEEE-754 bits of the value");
        v::aligned("C14", k, 16, "64-bit constants are 16-byte aligned");
        i += 1;
    }
}
fn w_c14_int_values() {
    // representative integers
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 2048);
    let xs: [i64; 16] = [0, 1, -1, 127, 128, -128, -129, 255, 256, 32768, -32769, 0x7fff_ffff, 0x8000_0000, -0x8000_0001, i64::MAX, i64::MIN];
    let mut ls = Vec::new();
    let mut i = 0;
    while i < xs.len() {
        ls.push((j.const_i64(xs[i]), j.const_i32(xs[i] as i32), j.data_i64(xs[i]), j.data_i32(xs[i] as i32)));
        i += 1;
    }
    j.finalize();
    let mut i = 0;
    while i < xs.len() {
        let (a, b, c, d) = ls[i];
        let (a, b, c, d) = (j.get_label_u64(a), j.get_label_u64(b), j.get_label_u64(c), j.get_label_u64(d));
        v::eq("C14", rd64(a), xs[i] as u64, "64-bit constant");
        v::eq("C14", rd32(b), xs[i] as u32 as u64, "32-bit constant");
        v::eq("C14", rd64(c), xs[i] as u64, "64-bit data");
        v::eq("C14", rd32(d), xs[i] as u32 as u64, "32-bit data");
        i += 1;
    }
}
fn w_c14_i32() {
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 64);
    let x: i32 = v::any("x");
    let a = addr(&j);
    let l = j.const_i32(x);
    v::mark();
    j.finalize();
    let k = j.get_label_u64(l);
    v::wrote_exactly("C14", k, 4, "exactly the constant is stored");
    v::eq("C14", rd32(k), x as u32 as u64, "the value requested");
    v::aligned("C14", k, 4, "32-bit constants are 4-byte aligned");
    v::oblige("C14", k >= a && k < a + 4, "the constant follows the code directly");
    v::eq("C14", addr(&j), k + 4, "assembly continues after the constant");
}
fn w_c14_bytes() {
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 64);
    let a = addr(&j);
    let l = j.constant(11);
    v::mark();
    j.finalize();
    let k = j.get_label_u64(l);
    v::wrote_exactly("C14", k, 11, "exactly the number of bytes requested");
    zeros("C14", k, 11);
    v::aligned("C14", k, 16, "blocks are 16-byte aligned");
    v::oblige("C14", k >= a && k < a + 16, "the block follows the code directly");
    v::eq("C14", addr(&j), k + 11, "assembly continues after the block");
}
fn w_c14_bytes_big() {
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 1024);
    let l = j.constant(300);
    let m = j.data(261);
    v::mark();
    j.finalize();
    let k = j.get_label_u64(l);
    let d = j.get_label_u64(m);
    v::eq("C14", v::nwrites(), 561, "exactly the number of bytes requested");
    zeros("C14", k, 300);
    zeros("C14", d, 261);
}
fn w_c14_empty() {
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 64);
    let l = j.constant(0);
    let m = j.data(0);
    v::mark();
    j.finalize();
    v::no_writes("C14", "empty blocks store nothing");
    let (k, d) = (j.get_label_u64(l), j.get_label_u64(m));
    v::aligned("C14", k, 16, "aligned");
    v::aligned("C14", d, 16, "aligned");
}
fn w_c14_align_mark() {
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 64);
    let a = addr(&j);
    let l = j.const_align8();
    let b = j.constant(0);
    v::mark();
    j.finalize();
    v::no_writes("C14", "alignment marks store nothing");
    let k = j.get_label_u64(l);
    v::aligned("C14", k, 8, "alignment marks are 8-byte aligned");
    v::oblige("C14", k >= a && k < a + 8, "the nearest such place");
}
fn w_c14_data() {
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 64);
    let x: i64 = v::any("x");
    let d = data_at(&mut j);
    let a = addr(&j);
    let l = j.data_i64(x);
    v::mark();
    j.finalize();
    let k = j.get_label_u64(l);
    v::wrote_exactly("C14", k, 8, "exactly the value is stored");
    v::eq("C14", rd64(k), x as u64, "the value requested");
    v::aligned("C14", k, 16, "64-bit data is 16-byte aligned");
    v::oblige("C14", k >= d && k < d + 16, "placed at the data cursor");
    v::oblige("C14", k >= v::region_base() + 2 * v::page_size() as u64 && k + 8 <= v::region_base() + v::region_size(), "placed in the data area");
    v::eq("C14", data_at(&mut j), k + 8, "data continues after the value");
    v::eq("C14", addr(&j), a, "the code cursor does not move");
}
fn w_c14_data32() {
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 64);
    let x: i32 = v::any("x");
    let d = data_at(&mut j);
    let l = j.data_i32(x);
    v::mark();
    j.finalize();
    let k = j.get_label_u64(l);
    v::wrote_exactly("C14", k, 4, "exactly the value is stored");
    v::eq("C14", rd32(k), x as u32 as u64, "the value requested");
    v::aligned("C14", k, 4, "32-bit data is 4-byte aligned");
    v::oblige("C14", k >= d && k < d + 4, "placed at the data cursor");
    v::eq("C14", data_at(&mut j), k + 4, "data continues after the value");
}
fn w_c14_data_bytes() {
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 64);
    let d = data_at(&mut j);
    let l = j.data(7);
    v::mark();
    j.finalize();
    let k = j.get_label_u64(l);
    v::wrote_exactly("C14", k, 7, "exactly the number of bytes requested");
    zeros("C14", k, 7);
    v::aligned("C14", k, 16, "blocks are 16-byte aligned");
    v::oblige("C14", k >= d && k < d + 16, "placed at the data cursor");
}
fn w_c14_order() {
    // request order, no overlap, every value intact
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 256);
    let a: i32 = v::any("a");
    let b: i64 = v::any("b");
    let c: i32 = v::any("c");
    let d: u64 = v::any("d");
    let at = addr(&j);
    let la = j.const_i32(a);
    let lb = j.const_i64(b);
    let lc = j.const_i32(c);
    let lk = j.constant(5);
    let lm = j.const_align8();
    let ld = j.const_f64(f64::from_bits(d));
    j.finalize();
    let (la, lb, lc) = (j.get_label_u64(la), j.get_label_u64(lb), j.get_label_u64(lc));
    let (lk, lm, ld) = (j.get_label_u64(lk), j.get_label_u64(lm), j.get_label_u64(ld));
    v::oblige("C14", at <= la && la + 4 <= lb, "request order, first and second");
    v::oblige("C14", lb + 8 <= lc && lc + 4 <= lk, "request order, third and fourth");
    v::oblige("C14", lk + 5 <= lm && lm <= ld, "request order, fifth and sixth");
    v::eq("C14", rd32(la), a as u32 as u64, "first value");
    v::eq("C14", rd64(lb), b as u64, "second value");
    v::eq("C14", rd32(lc), c as u32 as u64, "third value");
    zeros("C14", lk, 5);
    v::eq("C14", rd64(ld), d, "sixth value");
    v::aligned("C14", la, 4, "alignment");
    v::aligned("C14", lb, 16, "alignment");
    v::aligned("C14", lc, 4, "alignment");
    v::aligned("C14", lk, 16, "alignment");
    v::aligned("C14", lm, 8, "alignment");
    v::aligned("C14", ld, 16, "alignment");
}
fn w_c14_equal_values() {
    // equal requests get places of their own
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 256);
    let a: i64 = v::any("a");
    let l = j.const_i64(a);
    let m = j.const_i64(a);
    let n = j.data_i64(a);
    let o = j.data_i64(a);
    v::mark();
    j.finalize();
    v::eq("C11+C14", v::nwrites(), 32, "each request is placed exactly once");
    let (l, m, n, o) = (j.get_label_u64(l), j.get_label_u64(m), j.get_label_u64(n), j.get_label_u64(o));
    v::oblige("C14", l + 8 <= m, "no overlap");
    v::oblige("C14", n + 8 <= o, "no overlap");
    v::eq("C14", rd64(l), a as u64, "value");
    v::eq("C14", rd64(m), a as u64, "value");
    v::eq("C14", rd64(n), a as u64, "value");
    v::eq("C14", rd64(o), a as u64, "value");
}
fn w_c14_data_order() {
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 256);
    let a: i32 = v::any("a");
    let b: i64 = v::any("b");
    let c: i32 = v::any("c");
    let at = data_at(&mut j);
    let la = j.data_i32(a);
    let lb = j.data_i64(b);
    let lc = j.data_i32(c);
    let lk = j.data(5);
    j.finalize();
    let (la, lb, lc, lk) = (j.get_label_u64(la), j.get_label_u64(lb), j.get_label_u64(lc), j.get_label_u64(lk));
    v::oblige("C14", at <= la && la + 4 <= lb, "request order, first and second");
    v::oblige("C14", lb + 8 <= lc && lc + 4 <= lk, "request order, third and fourth");
    v::eq("C14", rd32(la), a as u32 as u64, "first value");
    v::eq("C14", rd64(lb), b as u64, "second value");
    v::eq("C14", rd32(lc), c as u32 as u64, "third value");
    zeros("C14", lk, 5);
    v::aligned("C14", la, 4, "alignment");
    v::aligned("C14", lb, 16, "alignment");
    v::aligned("C14", lc, 4, "alignment");
    v::aligned("C14", lk, 16, "alignment");
}
fn w_c14_pages() {
    // a constant goes to the page current at the request, data to the data area from either page
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 256);
    let a: i64 = v::any("a");
    let b: i64 = v::any("b");
    let c: i64 = v::any("c");
    let d: i64 = v::any("d");
    j.select_page(0);
    let c0 = addr(&j);
    let la = j.const_i64(a);
    let lc = j.data_i64(c);
    j.select_page(1);
    let c1 = addr(&j);
    let lb = j.const_i64(b);
    let ld = j.data_i64(d);
    let p = v::within("p", 0, 1) as usize;
    j.select_page(p);
    let dd = data_at(&mut j);
    v::mark();
    j.finalize();
    v::eq("C14+C15", v::nwrites(), 32, "each item is placed exactly once");
    let (la, lb, lc, ld) = (j.get_label_u64(la), j.get_label_u64(lb), j.get_label_u64(lc), j.get_label_u64(ld));
    v::oblige("C14+C15", la >= c0 && la < c0 + 16, "constant of the first page");
    v::oblige("C14+C15", lb >= c1 && lb < c1 + 16, "constant of the second page");
    v::oblige("C14+C15", lc >= dd && lc < dd + 64, "data of the first page");
    v::oblige("C14+C15", ld >= dd && ld < dd + 64, "data of the second page");
    v::oblige("C14+C15", lc + 8 <= ld || ld + 8 <= lc, "data items do not overlap");
    v::eq("C14+C15", rd64(la), a as u64, "constant of the first page");
    v::eq("C14+C15", rd64(lb), b as u64, "constant of the second page");
    v::eq("C14+C15", rd64(lc), c as u64, "data of the first page");
    v::eq("C14+C15", rd64(ld), d as u64, "data of the second page");
}
fn w_c14_later_requests() {
    // further requests after a finalisation are placed behind the earlier ones
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 256);
    let a: i64 = v::any("a");
    let b: i32 = v::any("b");
    let c: i32 = v::any("c");
    let d: i64 = v::any("d");
    let la = j.const_i64(a);
    let lc = j.data_i32(c);
    j.finalize();
    j.emitb(0x90);
    let lb = j.const_i32(b);
    let ld = j.data_i64(d);
    v::mark();
    j.finalize();
    v::eq("C11+C14", v::nwrites(), 12, "earlier items are not placed again");
    let (la, lb, lc, ld) = (j.get_label_u64(la), j.get_label_u64(lb), j.get_label_u64(lc), j.get_label_u64(ld));
    v::oblige("C11+C14", la + 8 < lb, "constants do not overlap");
    v::oblige("C11+C14", lc + 4 <= ld, "data does not overlap");
    v::eq("C11+C14", rd64(la), a as u64, "earlier constant");
    v::eq("C11+C14", rd32(lb), b as u32 as u64, "later constant");
    v::eq("C11+C14", rd32(lc), c as u32 as u64, "earlier data");
    v::eq("C11+C14", rd64(ld), d as u64, "later data");
    v::aligned("C11+C14", lb, 4, "alignment");
    v::aligned("C11+C14", ld, 16, "alignment");
}
fn w_c14_after_code() {
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 64);
    let a = addr(&j);
    let x: i64 = v::any("x");
    let l = j.const_i64(x);
    j.emitq(v::any("y"));
    j.emitb(v::any("z"));
    j.finalize();
    let k = j.get_label_u64(l);
    v::oblige("C14", k >= a + 9, "constants are placed after code emitted after the request");
    v::eq("C14", rd64(k), x as u64, "the value requested");
}

// ------------------------------------------------------------------ C16 code extents
fn ext(p: &(Pos, Pos, Pos)) -> (u64, u64, u64) {
    ((p.0 - Pos::from(0)) as u64, (p.1 - Pos::from(0)) as u64, (p.2 - Pos::from(0)) as u64)
}
fn w_c16_first() {
    let mut j = JitMemory::new();
    let p = v::within("p", 0, 1) as usize;
    j.select_page(p);
    v::eq("C16", j.code_block.len() as u64, 0, "no block before the first finalisation");
    j.emitq(v::any("x"));
    j.emitb(1);
    j.const_i64(v::any("k"));
    j.finalize();
    v::eq("C16", j.code_block.len() as u64, 1, "one block per finalisation");
    let (s, c, e) = ext(&j.code_block[0]);
    v::eq("C16", s, 0, "the first block starts at the page's first byte");
    v::eq("C16", c, 9, "code end");
    v::eq("C16", e, 24, "end of the constants");
    v::eq("C16", j.as_slice().len() as u64, 9, "the code view ends at the code end");
    v::eq("C16", j.as_slice().as_ptr() as u64, v::region_base() + p as u64 * v::page_size() as u64, "the code view starts at the page's first byte");
    j.select_page(1 - p);
    v::eq("C16", j.code_block.len() as u64, 1, "one block per finalisation on the other page too");
    let (s, c, e) = ext(&j.code_block[0]);
    v::eq("C16", s, 0, "nothing on the other page");
    v::eq("C16", c, 0, "nothing on the other page");
    v::eq("C16", e, 0, "nothing on the other page");
    v::eq("C16", j.as_slice().len() as u64, 0, "no code on the other page");
}
fn w_c16_second() {
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 256);
    let n0 = j.code_block.len();
    j.emitq(v::any("x"));
    let c1 = j.get_current() as u64;
    j.const_i32(v::any("k"));
    j.finalize();
    let e1 = j.get_current() as u64;
    v::eq("C16", j.code_block.len() as u64, n0 as u64 + 1, "one block per finalisation");
    let b1 = ext(&j.code_block[n0]);
    v::eq("C16", b1.1, c1, "code end of the first block");
    v::eq("C16", b1.2, e1, "constant end of the first block");
    v::eq("C16", j.as_slice().len() as u64, c1, "code view after the first block");
    j.emitb(1);
    let c2 = j.get_current() as u64;
    j.const_i64(v::any("k2"));
    j.finalize();
    let e2 = j.get_current() as u64;
    v::eq("C16", j.code_block.len() as u64, n0 as u64 + 2, "one block per finalisation");
    let b1b = ext(&j.code_block[n0]);
    let b2 = ext(&j.code_block[n0 + 1]);
    v::eq("C16", b1b.0, b1.0, "an earlier block is not altered (start)");
    v::eq("C16", b1b.1, b1.1, "an earlier block is not altered (code end)");
    v::eq("C16", b1b.2, b1.2, "an earlier block is not altered (end)");
    v::eq("C16", b2.0, e1, "a block starts at the end of the previous one");
    v::eq("C16", b2.1, c2, "code end of the second block");
    v::eq("C16", b2.2, e2, "constant end of the second block");
    v::eq("C16", j.as_slice().len() as u64, c2, "code view after the second block");
    v::eq("C16", j.as_slice().as_ptr() as u64, addr(&j) - e2, "the code view starts at the page's first byte");
}
fn w_c16_other_page() {
    // every page gets its block whichever page is selected
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 256);
    j.finalize();
    j.select_page(0);
    let s0 = j.get_current() as u64;
    j.emitb(1);
    let c0 = j.get_current() as u64;
    j.select_page(1);
    let s1 = j.get_current() as u64;
    j.emitq(2);
    let c1 = j.get_current() as u64;
    j.const_i32(3);
    let p = v::within("p", 0, 1) as usize;
    j.select_page(p);
    j.finalize();
    j.select_page(0);
    let e0 = j.get_current() as u64;
    let b = ext(j.code_block.last().unwrap());
    v::eq("C15+C16", b.0, s0, "first page: start");
    v::eq("C15+C16", b.1, c0, "first page: code end");
    v::eq("C15+C16", b.2, e0, "first page: end");
    v::eq("C15+C16", j.as_slice().len() as u64, c0, "first page: code view");
    j.select_page(1);
    let e1 = j.get_current() as u64;
    let b = ext(j.code_block.last().unwrap());
    v::eq("C15+C16", b.0, s1, "second page: start");
    v::eq("C15+C16", b.1, c1, "second page: code end");
    v::eq("C15+C16", b.2, e1, "second page: end");
    v::eq("C15+C16", j.as_slice().len() as u64, c1, "second page: code view");
}
fn w_c16_data_page() {
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 256);
    let n0 = j[Page(2)].code_block.len();
    j.finalize();
    let s = data_at(&mut j);
    j.data_i64(v::any("x"));
    j.finalize();
    let e = data_at(&mut j);
    let base = v::region_base() + 2 * v::page_size() as u64;
    v::eq("C16", j[Page(2)].code_block.len() as u64, n0 as u64 + 2, "one block per finalisation on the data page");
    let b = ext(j[Page(2)].code_block.last().unwrap());
    v::eq("C16", base + b.0, s, "data page: start");
    v::eq("C16", base + b.1, s, "data page: nothing emitted directly");
    v::eq("C16", base + b.2, e, "data page: end");
}
fn w_c16_three() {
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 256);
    let n0 = j.code_block.len();
    j.emitb(1);
    j.finalize();
    j.emitw(1);
    j.finalize();
    let a = ext(&j.code_block[n0]);
    let b = ext(&j.code_block[n0 + 1]);
    j.emitl(1);
    j.finalize();
    let a2 = ext(&j.code_block[n0]);
    let b2 = ext(&j.code_block[n0 + 1]);
    let c2 = ext(&j.code_block[n0 + 2]);
    v::oblige("C16", a == a2 && b == b2, "earlier blocks are never altered");
    v::eq("C16", b2.0, a2.2, "blocks are adjacent");
    v::eq("C16", c2.0, b2.2, "blocks are adjacent");
    v::eq("C16", c2.1, c2.0 + 4, "code length");
    v::eq("C16", b2.1, b2.0 + 2, "code length");
}
fn w_c16_emit_keeps_view() {
    // emission after finalisation does not change the recorded extents
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 256);
    j.emitb(1);
    j.finalize();
    let n = j.as_slice().len();
    let k = j.code_block.len();
    let b = ext(j.code_block.last().unwrap());
    j.emitq(5);
    j.align16();
    j.const_i64(4);
    let l = j.label();
    j.bind_label(l);
    j.select_page(0);
    j.select_page(1);
    j.select_page(0);
    v::eq("C16", j.code_block.len() as u64, k as u64, "blocks are recorded by finalisation only");
}
fn w_c16_view_fixed() {
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 256);
    j.emitb(1);
    j.finalize();
    let n = j.as_slice().len();
    let b = ext(j.code_block.last().unwrap());
    j.emitq(5);
    j.align16();
    j.const_i64(4);
    v::eq("C16", j.as_slice().len() as u64, n as u64, "the code view ends at the last finalised code end");
    let b2 = ext(j.code_block.last().unwrap());
    v::oblige("C16", b == b2, "the last block is not altered by emission");
}

fn w_c16_idle() {
    // nothing new: an empty block after the constants of the last one
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 256);
    j.emitb(1);
    j.const_i64(3);
    j.finalize();
    let e = j.get_current() as u64;
    let n = j.code_block.len() as u64;
    j.finalize();
    v::eq("C16", j.code_block.len() as u64, n + 1, "one block per finalisation");
    let b = ext(j.code_block.last().unwrap());
    v::eq("C16", b.0, e, "an empty block starts at the end of the previous one");
    v::eq("C16", b.1, e, "an empty block's code ends where it starts");
    v::eq("C16", b.2, e, "an empty block ends where it starts");
    v::eq("C16", j.as_slice().len() as u64, e, "the code view ends at the last finalised code end");
    j.finalize();
    v::eq("C16", j.code_block.len() as u64, n + 2, "one block per finalisation");
    v::eq("C16", j.as_slice().len() as u64, e, "the code view ends at the last finalised code end");
}
fn w_c16_only_constants() {
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 256);
    j.emitw(1);
    j.finalize();
    let s = j.get_current() as u64;
    j.const_i32(3);
    j.finalize();
    let e = j.get_current() as u64;
    let b = ext(j.code_block.last().unwrap());
    v::eq("C16", b.0, s, "start");
    v::eq("C16", b.1, s, "no code");
    v::eq("C16", b.2, e, "end of the constants");
    v::eq("C16", j.as_slice().len() as u64, s, "the code view ends at the last finalised code end");
}
fn w_c16_fresh() {
    // finalising a new assembler
    let mut j = JitMemory::new();
    j.finalize();
    let p = v::within("p", 0, 1) as usize;
    j.select_page(p);
    v::eq("C16", j.code_block.len() as u64, 1, "one block per finalisation");
    let b = ext(&j.code_block[0]);
    v::oblige("C16", b == (0, 0, 0), "the first block is empty");
    v::eq("C16", j.as_slice().len() as u64, 0, "no code");
    j.emitl(1);
    v::eq("C16", j.as_slice().len() as u64, 0, "no code finalised yet");
    j.finalize();
    let b = ext(&j.code_block[1]);
    v::oblige("C16", b == (0, 4, 4), "the second block holds the code");
    v::eq("C16", j.as_slice().len() as u64, 4, "the code finalised");
}
fn w_c16_aligned() {
    // alignment before finalisation belongs to the code
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 256);
    j.finalize();
    let s = j.get_current() as u64;
    j.emitb(1);
    j.align16();
    let c = j.get_current() as u64;
    j.finalize();
    let b = ext(j.code_block.last().unwrap());
    v::eq("C16", b.0, s, "start");
    v::eq("C16", b.1, c, "code end");
    v::eq("C16", b.2, c, "end");
    v::eq("C16", j.as_slice().len() as u64, c, "the code view ends at the last finalised code end");
}
fn w_c16_view_bytes() {
    // the code view shows the code
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 256);
    let c = j.get_current();
    let x: u8 = v::any("x");
    let y: u8 = v::any("y");
    j.emitb(x);
    j.emitb(y);
    j.finalize();
    let s = j.as_slice();
    v::eq("C16", s.len() as u64, c as u64 + 2, "the code view ends at the last finalised code end");
    v::eq("C16", s.as_ptr() as u64, addr(&j) - j.get_current() as u64, "the code view starts at the page's first byte");
    v::eq("C16", s[c] as u64, x as u64, "the code");
    v::eq("C16", s[c + 1] as u64, y as u64, "the code");
}

// ------------------------------------------------------------------ C17 jump patching
fn w_c17_label() {
    let mut j = JitMemory::new();
    let l = j.label();
    let m = j.label();
    let old = j.label();
    hv(&mut j);
    j.bind_label(m);
    let am = addr(&j);
    hv(&mut j);
    roomy(&mut j, 5);
    let a = addr(&j);
    monoasm! { &mut j,
        old:
        l:
        jmp old;
    }
    hv(&mut j);
    roomy(&mut j, 5);
    j.finalize();
    let op = rd8(a);
    let s = v::snap(&j);
    v::mark();
    j.apply_jmp_patch(l, m);
    v::wrote_exactly("C17", a + 1, 4, "only the four displacement bytes are rewritten");
    v::eq("C17", target(a + 1, 0), am, "the jump leads to the new destination");
    v::eq("C17", rd8(a), op, "the opcode is unchanged");
    v::same_tables("C17", s, &j, "bookkeeping is unchanged");
    v::mark();
    j.finalize();
    v::no_writes("C17", "later finalisation does not undo the patch");
}
fn w_c17_address() {
    let mut j = JitMemory::new();
    let m = j.label();
    hv(&mut j);
    j.bind_label(m);
    let am = addr(&j);
    hv(&mut j);
    roomy(&mut j, 5);
    let a = addr(&j);
    let p = j.get_current_address();
    j.emitb(0xe8);
    j.emitl(v::any("old"));
    let s = v::snap(&j);
    v::mark();
    j.apply_jmp_patch_address(p, m);
    v::wrote_exactly("C17", a + 1, 4, "only the four displacement bytes are rewritten");
    v::eq("C17", target(a + 1, 0), am, "the call leads to the new destination");
    v::eq("C17", rd8(a), 0xe8, "the opcode is unchanged");
    v::same_tables("C17", s, &j, "bookkeeping is unchanged");
    v::eq("C17", addr(&j), a + 5, "the cursor stays");
}
fn w_c17_forward() {
    let mut j = JitMemory::new();
    let l = j.label();
    let m = j.label();
    hv(&mut j);
    roomy(&mut j, 5);
    j.bind_label(l);
    let a = addr(&j);
    j.emitb(0xe9);
    j.emitl(v::any("old"));
    hv(&mut j);
    j.bind_label(m);
    let am = addr(&j);
    let p = v::within("p", 0, 1) as usize;
    j.select_page(p);
    v::mark();
    j.apply_jmp_patch(l, m);
    v::wrote_exactly("C17", a + 1, 4, "only the four displacement bytes are rewritten");
    v::eq("C17", target(a + 1, 0), am, "any direction, any page selected");
}
fn w_c17_page_0_to_1() {
    let mut j = JitMemory::new();
    let l = j.label();
    let m = j.label();
    hv(&mut j);
    roomy(&mut j, 5);
    j.select_page(0);
    j.bind_label(l);
    let a = addr(&j);
    j.emitb(0xe9);
    j.emitl(0);
    j.select_page(1);
    j.bind_label(m);
    let am = addr(&j);
    v::mark();
    j.apply_jmp_patch(l, m);
    v::wrote_exactly("C17", a + 1, 4, "only the four displacement bytes are rewritten");
    v::eq("C17", target(a + 1, 0), am, "from the first page to the second");
}
fn w_c17_page_1_to_0() {
    let mut j = JitMemory::new();
    let l = j.label();
    let m = j.label();
    hv(&mut j);
    roomy(&mut j, 5);
    j.select_page(1);
    j.bind_label(l);
    let a = addr(&j);
    j.emitb(0xe9);
    j.emitl(0);
    j.select_page(0);
    j.bind_label(m);
    let am = addr(&j);
    v::mark();
    j.apply_jmp_patch(l, m);
    v::wrote_exactly("C17", a + 1, 4, "only the four displacement bytes are rewritten");
    v::eq("C17", target(a + 1, 0), am, "from the second page to the first");
}
fn w_c17_twice() {
    let mut j = JitMemory::new();
    let l = j.label();
    let m = j.label();
    let n = j.label();
    hv(&mut j);
    j.bind_label(m);
    let am = addr(&j);
    hv(&mut j);
    j.bind_label(n);
    let an = addr(&j);
    hv(&mut j);
    roomy(&mut j, 5);
    j.bind_label(l);
    let a = addr(&j);
    j.emitb(0xe9);
    j.emitl(0);
    j.apply_jmp_patch(l, m);
    v::eq("C17", target(a + 1, 0), am, "first patch");
    j.apply_jmp_patch(l, n);
    v::eq("C17", target(a + 1, 0), an, "second patch replaces the first");
    v::eq("C17", j.get_label_u64(l), a, "labels stay");
    v::eq("C17", j.get_label_u64(m), am, "labels stay");
    v::eq("C17", j.get_label_u64(n), an, "labels stay");
}
fn w_c17_self() {
    let mut j = JitMemory::new();
    let l = j.label();
    hv(&mut j);
    roomy(&mut j, 5);
    j.bind_label(l);
    let a = addr(&j);
    j.emitb(0xe9);
    j.emitl(0);
    j.apply_jmp_patch(l, l);
    v::eq("C17", target(a + 1, 0), a, "a jump to itself");
}
fn w_c17_unbound_dest() {
    let mut w = any();
    roomy(&mut w.j, 64);
    let p = w.j.get_current_address();
    w.j.emitb(0xe9);
    w.j.emitl(0);
    v::panics(true);
    w.j.apply_jmp_patch_address(p, w.pending);
    v::never("C17", "an unbound destination is refused");
}
fn w_c17_unbound_point() {
    let mut w = any();
    v::panics(true);
    w.j.apply_jmp_patch(w.pending, w.bound);
    v::never("C17", "an unbound patch point is refused");
}

// ------------------------------------------------------------------ C18 protection
fn w_c18_new() {
    let j = JitMemory::new();
    let b = v::region_base();
    let p = v::page_size() as u64;
    v::protected("C18", b, b + 2 * p, 7, "both code pages are readable, writable and executable");
    v::protected("C18", b + 2 * p, b + 3 * p, 3, "the data page is readable and writable but not executable");
    v::not_freed("C18", "the region stays allocated");
}
fn w_c18_default() {
    let j = JitMemory::default();
    let b = v::region_base();
    let p = v::page_size() as u64;
    v::protected("C18", b, b + 2 * p, 7, "both code pages are readable, writable and executable");
    v::protected("C18", b + 2 * p, b + 3 * p, 3, "the data page is readable and writable but not executable");
}
fn w_c18_covers_pages() {
    // the pages handed out are the ones protected
    let mut w = any();
    let o = observe(&mut w);
    let b = v::region_base();
    let p = v::page_size() as u64;
    v::eq("C18", o.at - o.cur as u64, b + o.page as u64 * p, "the selected page lies in the protected code range");
    v::eq("C18", o.other_at - o.other as u64, b + (1 - o.page) as u64 * p, "the other page lies in the protected code range");
    v::oblige("C18", o.data >= b + 2 * p && o.data <= b + 3 * p, "data lies in the data range");
}
fn w_c18_failure() {
    v::faults();
    v::panics(true);
    let j = JitMemory::new();
    v::if_failed_never("C18", "failure to obtain or protect the memory must panic");
}
fn w_c18_drop() {
    v::full_drop();
    {
        let mut j = JitMemory::new();
        let l = j.label();
        j.bind_label(l);
        j.emitb(0xc3);
        j.const_i64(1);
        j.finalize();
        j.const_i32(2);
        j.data_i32(2);
        let e = v::effects();
        v::note("effects", e);
    }
    v::not_freed("C18", "dropping the assembler does not free the code");
    let b = v::region_base();
    let p = v::page_size() as u64;
    v::protected("C18", b, b + 2 * p, 7, "the code stays executable after the assembler is dropped");
    v::protected("C18", b + 2 * p, b + 3 * p, 3, "the data stays accessible after the assembler is dropped");
}
fn c18_kept(b: u64) {
    let p = v::page_size() as u64;
    v::not_freed("C18", "dropping the assembler does not free the code");
    v::protected("C18", b, b + 2 * p, 7, "the code stays executable after the assembler is dropped");
    v::protected("C18", b + 2 * p, b + 3 * p, 3, "the data stays accessible after the assembler is dropped");
}
fn w_c18_drop_fresh() {
    v::full_drop();
    {
        let j = JitMemory::new();
    }
    c18_kept(v::region_base());
}
fn w_c18_drop_unfinished() {
    // code emitted, never finalised
    v::full_drop();
    {
        let mut j = JitMemory::new();
        let l = j.label();
        j.bind_label(l);
        monoasm! { &mut j,
            movq rax, 5;
            ret;
        }
        let f = j.get_label_addr::<u64, u64>(l);
        j.const_i32(1);
    }
    c18_kept(v::region_base());
}
fn w_c18_drop_any() {
    v::full_drop();
    {
        let w = any();
    }
    c18_kept(v::region_base());
}
fn w_c18_drop_any_finalised() {
    v::full_drop();
    {
        let mut w = any();
        roomy(&mut w.j, 512);
        w.j.data_i64(1);
        w.j.abs_address(w.pending);
        w.j.finalize();
        hv(&mut w.j);
        w.j.finalize();
    }
    c18_kept(v::region_base());
}
fn w_c18_drop_second() {
    // dropping one assembler leaves another alone
    v::full_drop();
    let mut j = JitMemory::new();
    let b = v::region_base();
    let p = v::page_size() as u64;
    {
        let k = JitMemory::new();
    }
    v::not_freed("C18", "dropping an assembler frees no code");
    v::protected("C18", b, b + p, 7, "the other assembler's code stays executable");
}
fn w_c18_moved() {
    // moving the assembler value does not move its memory
    let mut w = any();
    let o = observe(&mut w);
    let e = v::effects();
    let b = Box::new(w);
    let mut w = *b;
    let mut vs = vec![w.j];
    let j = vs.pop().unwrap();
    v::eq("C18", addr(&j), o.at, "the code stays in place");
    v::eq("C18", j.get_label_address(w.bound).as_ptr() as u64, o.bound, "labels stay in place");
    v::eq("C18", v::effects(), e, "no mapping changes");
    v::not_freed("C18", "the region stays allocated");
}
fn w_c18_drop_by_hand() {
    v::full_drop();
    let mut j = JitMemory::new();
    j.finalize();
    let e = v::effects();
    drop(j);
    v::eq("C18", v::effects(), e, "dropping the assembler changes no mapping");
    v::not_freed("C18", "dropping the assembler does not free the code");
}
fn w_c18_two() {
    // a second assembler does not disturb the first
    let j = JitMemory::new();
    let b = v::region_base();
    let p = v::page_size() as u64;
    let k = JitMemory::new();
    v::protected("C18", b, b + p, 7, "the first assembler's code stays executable");
    v::not_freed("C18", "the first assembler's code stays allocated");
}
fn w_c18_operations() {
    let mut w = any();
    roomy(&mut w.j, 1024);
    let e = v::effects();
    let o = observe(&mut w);
    let l = w.j.label();
    w.j.emitb(v::any("a"));
    w.j.emitw(v::any("b"));
    w.j.emitl(v::any("c"));
    w.j.emitq(v::any("d"));
    w.j.emit(&[1, 2, 3]);
    v::eq("C18", v::effects(), e, "emission changes no mapping");
    w.j.align4();
    w.j.align8();
    w.j.align16();
    v::eq("C18", v::effects(), e, "alignment changes no mapping");
    w.j.bind_label(l);
    let at = w.j.get_label_u64(l);
    monoasm! { &mut w.j,
        jmp l;
        addq rax, [rcx + rdx * 8 + 1000];
    }
    v::eq("C18", v::effects(), e, "assembling changes no mapping");
    w.j.const_i64(1);
    w.j.const_i32(1);
    w.j.const_f64(1.0);
    w.j.constant(3);
    w.j.const_align8();
    w.j.abs_address(l);
    w.j.data_i64(1);
    w.j.data_i32(1);
    w.j.data(3);
    w.j.select_page(1);
    w.j.select_page(0);
    v::eq("C18", v::effects(), e, "requests change no mapping");
    w.j.finalize();
    v::eq("C18", v::effects(), e, "finalisation changes no mapping");
    v::eq("C18", w.j.get_label_u64(l), at, "code stays in place");
    w.j.apply_jmp_patch(l, w.bound);
    v::eq("C18", v::effects(), e, "patching changes no mapping");
    let _ = w.j.get_label_addr::<u64, u64>(l);
    let _ = w.j.get_label_addr2::<u64, u64, u64>(l);
    let _ = w.j.get_label_address(l);
    let _ = w.j.get_current_address();
    let _ = w.j.as_slice();
    let _ = w.j.include(at as *mut u8);
    v::eq("C18", v::effects(), e, "queries change no mapping");
    v::not_freed("C18", "the region stays allocated");
    let b = v::region_base();
    let p = v::page_size() as u64;
    v::protected("C18", b, b + 2 * p, 7, "both code pages are still readable, writable and executable");
}
fn w_c18_refused_select() {
    let mut w = any();
    v::panics(true);
    v::calm("C18", "refusing a page changes no mapping");
    let e = v::effects();
    w.j.select_page(v::any("p"));
    v::eq("C18", v::effects(), e, "selecting a page changes no mapping");
}
fn w_c18_refused_emit() {
    let mut w = any();
    v::panics(true);
    v::calm("C18", "a full page changes no mapping");
    let e = v::effects();
    w.j.emitl(v::any("x"));
    v::eq("C18", v::effects(), e, "emission changes no mapping");
}
fn w_c18_refused_finalize() {
    let mut w = any();
    v::panics(true);
    v::calm("C18", "a full page changes no mapping");
    let e = v::effects();
    w.j.const_i64(v::any("x"));
    w.j.data_i64(v::any("y"));
    w.j.abs_address(w.bound);
    w.j.finalize();
    v::eq("C18", v::effects(), e, "finalisation changes no mapping");
}
fn w_c18_refused_query() {
    let mut w = any();
    v::panics(true);
    v::calm("C18", "refusing an unbound label changes no mapping");
    w.j.get_label_address(w.pending);
}
fn w_c18_refused_patch() {
    let mut w = any();
    v::panics(true);
    v::calm("C18", "refusing an unbound label changes no mapping");
    w.j.apply_jmp_patch(w.bound, w.pending);
}
fn w_c18_align_page() {
    let mut w = any();
    let e = v::effects();
    w.j.align_page();
    v::eq("C18", v::effects(), e, "page alignment changes no mapping");
}
