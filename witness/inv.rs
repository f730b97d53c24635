#![allow(unused)]
//! Inference of value ranges of the assembler's own integer fields: every public operation is applied to a
//! state whose fields hold any value allowed so far, until nothing new is reached.
extern crate monoasm;
extern crate monoasm_macro;
#[path = "/verif/witness/v.rs"]
mod v;
use monoasm::*;
use monoasm_macro::monoasm;

fn any_state() -> JitMemory {
    let mut jit = JitMemory::new();
    v::havoc(&mut jit);
    v::panics(true);
    jit
}
fn w_inv_0_new() {
    let jit = JitMemory::new();
    v::leaves(&jit);
}
fn w_inv_0_default() {
    let jit = JitMemory::default();
    v::leaves(&jit);
}
fn w_inv_emitb() { let mut j = any_state(); { j.emitb(v::any("b")); } v::leaves(&j); }
fn w_inv_emitw() { let mut j = any_state(); { j.emitw(v::any("w")); } v::leaves(&j); }
fn w_inv_emitl() { let mut j = any_state(); { j.emitl(v::any("l")); } v::leaves(&j); }
fn w_inv_emitq() { let mut j = any_state(); { j.emitq(v::any("q")); } v::leaves(&j); }
fn w_inv_emit() { let mut j = any_state(); { j.emit(&[v::any("a0"), v::any("a1"), v::any("a2")]); } v::leaves(&j); }
fn w_inv_align4() { let mut j = any_state(); { j.align4(); } v::leaves(&j); }
fn w_inv_align8() { let mut j = any_state(); { j.align8(); } v::leaves(&j); }
fn w_inv_align16() { let mut j = any_state(); { j.align16(); } v::leaves(&j); }
fn w_inv_align_page() { let mut j = any_state(); { j.align_page(); } v::leaves(&j); }
fn w_inv_p0_emitb() { let mut j = any_state(); { j[Page(0)].emitb(v::any("b")); } v::leaves(&j); }
fn w_inv_p1_emitb() { let mut j = any_state(); { j[Page(1)].emitb(v::any("b")); } v::leaves(&j); }
fn w_inv_p2_emitb() { let mut j = any_state(); { j[Page(2)].emitb(v::any("b")); } v::leaves(&j); }
fn w_inv_p2_align() { let mut j = any_state(); { j[Page(2)].align16(); } v::leaves(&j); }
fn w_inv_select() { let mut j = any_state(); { j.select_page(v::any("p")); } v::leaves(&j); }
fn w_inv_label() { let mut j = any_state(); { { let l = j.label(); j.bind_label(l); }; } v::leaves(&j); }
fn w_inv_bindp() { let mut j = any_state(); { { let l = j.label(); j.bind_label_with_page(Page(2), l); }; } v::leaves(&j); }
fn w_inv_save() { let mut j = any_state(); { { let l = j.label(); monoasm! { &mut j, jmp l; }; }; } v::leaves(&j); }
fn w_inv_fin() { let mut j = any_state(); { j.finalize(); } v::leaves(&j); }
fn w_inv_const() { let mut j = any_state(); { { j.const_f64(1.5); j.const_i64(7); j.const_i32(7); j.const_align8(); j.constant(3); }; } v::leaves(&j); }
fn w_inv_data() { let mut j = any_state(); { { j.data_i64(7); j.data_i32(7); j.data(3); }; } v::leaves(&j); }
fn w_inv_abs() { let mut j = any_state(); { { let l = j.label(); j.abs_address(l); }; } v::leaves(&j); }
fn w_inv_fin_c1() { let mut j = any_state(); { { j.const_i64(7); j.finalize(); }; } v::leaves(&j); }
fn w_inv_fin_c2() { let mut j = any_state(); { { j.const_i32(7); j.finalize(); }; } v::leaves(&j); }
fn w_inv_fin_c3() { let mut j = any_state(); { { j.constant(2); j.finalize(); }; } v::leaves(&j); }
fn w_inv_fin_c4() { let mut j = any_state(); { { j.const_align8(); j.finalize(); }; } v::leaves(&j); }
fn w_inv_fin_c5() { let mut j = any_state(); { { let l = j.label(); j.abs_address(l); j.finalize(); }; } v::leaves(&j); }
fn w_inv_fin_d1() { let mut j = any_state(); { { j.data_i64(7); j.finalize(); }; } v::leaves(&j); }
fn w_inv_fin_d2() { let mut j = any_state(); { { j.data_i32(7); j.finalize(); }; } v::leaves(&j); }
fn w_inv_fin_d3() { let mut j = any_state(); { { j.data(2); j.finalize(); }; } v::leaves(&j); }
fn w_inv_fin_l() { let mut j = any_state(); { { let l = j.label(); monoasm! { &mut j, jmp l; }; j.bind_label(l); j.finalize(); }; } v::leaves(&j); }
fn w_inv_patch() { let mut j = any_state(); { { let l = j.label(); let m = j.label(); j.bind_label(l); v::havoc(&mut j); j.bind_label(m); j.apply_jmp_patch(l, m); }; } v::leaves(&j); }
fn w_inv_inst() { let mut j = any_state(); { monoasm! { &mut j, movq rax, [rbx + rcx * 2 + 1000]; }; } v::leaves(&j); }
