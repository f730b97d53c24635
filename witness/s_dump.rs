#![allow(unused)]
//! State witnesses: what the textual dump hands to the disassembler (C28).
extern crate monoasm;
extern crate monoasm_macro;
#[path = "/verif/witness/v.rs"]
mod v;
use monoasm::*;
use monoasm_macro::monoasm;

include!("/verif/witness/h.rs");

fn roomy(j: &mut JitMemory, n: usize) {
    let p = j.get_page();
    j.select_page(0);
    room(j, n);
    j.select_page(1);
    room(j, n);
    j.select_page(p);
    v::assume(data_at(j) + n as u64 <= v::region_base() + v::region_size());
}
fn data_at(j: &mut JitMemory) -> u64 {
    let l = j.label();
    j.bind_label_with_page(Page(2), l);
    j.get_label_u64(l)
}
fn dump(j: &JitMemory, lo: u64, hi: u64, what: &str) {
    let s = v::snap(j);
    v::mark();
    let r = j.dump_code();
    v::dump_ran("C28");
    v::eq("C28", v::dumped_len(), hi - lo, "the number of bytes dumped is the length of the block's code");
    v::eq("C28", v::dumped_at(), lo, what);
    v::no_writes("C28", "dumping writes nothing to the pages");
    v::same("C28", s, j, "dumping changes nothing");
}
fn w_c28_second_block() {
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 4096);
    j.finalize();
    let lo = addr(&j);
    monoasm! { &mut j,
        movq rax, rbx;
        ret;
    }
    let hi = addr(&j);
    j.finalize();
    dump(&j, lo, hi, "the dump starts where the last block starts");
}
fn w_c28_with_constants() {
    // the block's constants are not code, and neither is code not yet finalised
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 4096);
    j.const_i64(3);
    j.finalize();
    let lo = addr(&j);
    monoasm! { &mut j,
        addq rax, 5;
        ret;
    }
    j.const_i32(7);
    j.data_i64(9);
    j.constant(24);
    let hi = addr(&j);
    j.finalize();
    monoasm! { &mut j,
        int3;
        int3;
    }
    dump(&j, lo, hi, "the dump starts where the last block starts");
}
fn w_c28_pages() {
    // the page current at the time of the dump counts
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 4096);
    j.finalize();
    j.select_page(0);
    let lo0 = addr(&j);
    j.emitl(1);
    let hi0 = addr(&j);
    j.const_i64(3);
    j.select_page(1);
    let lo1 = addr(&j);
    j.emitq(1);
    j.emitb(1);
    let hi1 = addr(&j);
    j.finalize();
    if v::any::<u8>("which") == 0 {
        j.select_page(0);
        dump(&j, lo0, hi0, "page 0: the dump starts where its last block starts");
    } else {
        dump(&j, lo1, hi1, "page 1: the dump starts where its last block starts");
    }
}
fn w_c28_many_blocks() {
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 4096);
    j.finalize();
    j.emitl(1);
    j.const_i32(1);
    j.finalize();
    j.emitw(1);
    j.finalize();
    let lo = addr(&j);
    j.emitq(1);
    let hi = addr(&j);
    j.finalize();
    dump(&j, lo, hi, "the last of several blocks");
}
fn w_c28_empty() {
    // nothing was emitted into the last block: nothing is dumped
    let mut j = JitMemory::new();
    hv(&mut j);
    roomy(&mut j, 4096);
    j.emitb(0);
    j.finalize();
    j.finalize();
    let s = v::snap(&j);
    v::mark();
    let r = j.dump_code();
    v::dump_ran("C28");
    v::eq("C28", v::dumped_len(), 0, "an empty block has no bytes to dump");
    v::no_writes("C28", "dumping writes nothing to the pages");
    v::same("C28", s, &j, "dumping changes nothing");
}
