#![allow(unused)]
//! State witnesses: emission, alignment, page independence, bounds, membership, addresses, queries.
extern crate monoasm;
extern crate monoasm_macro;
#[path = "/verif/witness/v.rs"]
mod v;
use monoasm::*;
use monoasm_macro::monoasm;

include!("/verif/witness/h.rs");

// ------------------------------------------------------------------ C12 raw emission
fn w_c12_emitb() {
    let mut w = any();
    room(&w.j, 1);
    let o = observe(&mut w);
    let x: u8 = v::any("x");
    let s = v::snap(&w.j);
    v::mark();
    w.j.emitb(x);
    v::wrote_exactly("C12", o.at, 1, "exactly one byte is stored at the cursor");
    v::eq("C12", rd8(o.at), x as u64, "the byte stored is the byte given");
    v::same_tables("C12", s, &w.j, "label and constant bookkeeping is unchanged");
    frame("C12", &mut w, &o, 1);
}
fn w_c12_emitw() {
    let mut w = any();
    room(&w.j, 2);
    let o = observe(&mut w);
    let x: u16 = v::any("x");
    let s = v::snap(&w.j);
    v::mark();
    w.j.emitw(x);
    v::wrote_exactly("C12", o.at, 2, "exactly two bytes are stored at the cursor");
    v::eq("C12", rd16(o.at), x as u64, "the word stored is the word given, little-endian");
    v::same_tables("C12", s, &w.j, "label and constant bookkeeping is unchanged");
    frame("C12", &mut w, &o, 2);
}
fn w_c12_emitl() {
    let mut w = any();
    room(&w.j, 4);
    let o = observe(&mut w);
    let x: u32 = v::any("x");
    let s = v::snap(&w.j);
    v::mark();
    w.j.emitl(x);
    v::wrote_exactly("C12", o.at, 4, "exactly four bytes are stored at the cursor");
    v::eq("C12", rd32(o.at), x as u64, "the double word stored is the one given, little-endian");
    v::same_tables("C12", s, &w.j, "label and constant bookkeeping is unchanged");
    frame("C12", &mut w, &o, 4);
}
fn w_c12_emitq() {
    let mut w = any();
    room(&w.j, 8);
    let o = observe(&mut w);
    let x: u64 = v::any("x");
    let s = v::snap(&w.j);
    v::mark();
    w.j.emitq(x);
    v::wrote_exactly("C12", o.at, 8, "exactly eight bytes are stored at the cursor");
    v::eq("C12", rd64(o.at), x, "the quad word stored is the one given, little-endian");
    v::same_tables("C12", s, &w.j, "label and constant bookkeeping is unchanged");
    frame("C12", &mut w, &o, 8);
}
fn w_c12_emit_slice() {
    let mut w = any();
    room(&w.j, 5);
    let o = observe(&mut w);
    let x: [u8; 5] = [v::any("a"), v::any("b"), v::any("c"), v::any("d"), v::any("e")];
    let s = v::snap(&w.j);
    v::mark();
    w.j.emit(&x);
    v::wrote_exactly("C12", o.at, 5, "exactly the slice's bytes are stored at the cursor");
    v::eq("C12", rd8(o.at), x[0] as u64, "byte 0 of the slice");
    v::eq("C12", rd8(o.at + 1), x[1] as u64, "byte 1 of the slice");
    v::eq("C12", rd8(o.at + 2), x[2] as u64, "byte 2 of the slice");
    v::eq("C12", rd8(o.at + 3), x[3] as u64, "byte 3 of the slice");
    v::eq("C12", rd8(o.at + 4), x[4] as u64, "byte 4 of the slice");
    v::same_tables("C12", s, &w.j, "label and constant bookkeeping is unchanged");
    frame("C12", &mut w, &o, 5);
}
fn slice_case<const N: usize>() {
    let mut w = any();
    room(&w.j, N);
    let o = observe(&mut w);
    let x: [u8; N] = v::any("x");
    let s = v::snap(&w.j);
    v::mark();
    w.j.emit(&x);
    v::wrote_exactly("C12", o.at, N as u64, "exactly the slice's bytes are stored at the cursor");
    let mut i = 0;
    while i < N {
        v::eq("C12", rd8(o.at + i as u64), x[i] as u64, "each byte of the slice in order");
        i += 1;
    }
    v::same_tables("C12", s, &w.j, "label and constant bookkeeping is unchanged");
    frame("C12", &mut w, &o, N);
}
fn w_c12_slice_1() {
    slice_case::<1>();
}
fn w_c12_slice_2() {
    slice_case::<2>();
}
fn w_c12_slice_3() {
    slice_case::<3>();
}
fn w_c12_slice_4() {
    slice_case::<4>();
}
fn w_c12_slice_6() {
    slice_case::<6>();
}
fn w_c12_slice_7() {
    slice_case::<7>();
}
fn w_c12_slice_8() {
    slice_case::<8>();
}
fn w_c12_slice_9() {
    slice_case::<9>();
}
fn w_c12_slice_11() {
    slice_case::<11>();
}
fn w_c12_slice_16() {
    slice_case::<16>();
}
fn w_c12_slice_17() {
    slice_case::<17>();
}
fn w_c12_slice_23() {
    slice_case::<23>();
}
fn w_c12_slice_32() {
    slice_case::<32>();
}
fn w_c12_slice_33() {
    slice_case::<33>();
}
fn w_c12_slice_47() {
    slice_case::<47>();
}
fn w_c12_slice_64() {
    slice_case::<64>();
}
fn w_c12_slice_65() {
    slice_case::<65>();
}
fn w_c12_slice_100() {
    slice_case::<100>();
}
fn w_c12_slice_127() {
    slice_case::<127>();
}
fn w_c12_slice_257() {
    slice_case::<257>();
}
fn w_c12_slice_middle() {
    // a part of a larger slice
    let mut w = any();
    room(&w.j, 32);
    let o = observe(&mut w);
    let x: [u8; 40] = v::any("x");
    v::mark();
    w.j.emit(&x[5..30]);
    w.j.emit(&x[..3]);
    v::wrote_exactly("C12", o.at, 28, "exactly the parts' bytes are stored");
    let mut i = 0;
    while i < 25 {
        v::eq("C12", rd8(o.at + i as u64), x[i + 5] as u64, "each byte of the first part");
        i += 1;
    }
    v::eq("C12", rd8(o.at + 25), x[0] as u64, "the second part follows the first");
    v::eq("C12", rd8(o.at + 26), x[1] as u64, "the second part follows the first");
    v::eq("C12", rd8(o.at + 27), x[2] as u64, "the second part follows the first");
    frame("C12", &mut w, &o, 28);
}
fn w_c12_emit_empty() {
    let mut w = any();
    let o = observe(&mut w);
    v::mark();
    w.j.emit(&[]);
    v::no_writes("C12", "an empty slice stores nothing");
    frame("C12", &mut w, &o, 0);
}
fn w_c12_sequence() {
    let mut w = any();
    room(&w.j, 15);
    let o = observe(&mut w);
    let a: u8 = v::any("a");
    let b: u16 = v::any("b");
    let c: u32 = v::any("c");
    let d: u64 = v::any("d");
    v::mark();
    w.j.emitw(b);
    w.j.emitq(d);
    w.j.emitb(a);
    w.j.emitl(c);
    v::wrote_exactly("C12", o.at, 15, "fifteen bytes in a row");
    v::eq("C12", rd16(o.at), b as u64, "word");
    v::eq("C12", rd64(o.at + 2), d, "quad word");
    v::eq("C12", rd8(o.at + 10), a as u64, "byte");
    v::eq("C12", rd32(o.at + 11), c as u64, "double word");
    frame("C12", &mut w, &o, 15);
}
fn w_c12_page_handle() {
    // emission through a page handle goes to that page
    let mut w = any();
    let p = w.j.get_page();
    w.j.select_page(1 - p);
    room(&w.j, 8);
    w.j.select_page(p);
    let o = observe(&mut w);
    let x: u64 = v::any("x");
    v::mark();
    w.j[Page(1 - p)].emitq(x);
    v::wrote_exactly("C12+C15", o.other_at, 8, "the bytes go to the page named");
    v::eq("C12+C15", rd64(o.other_at), x, "the value given");
    v::eq("C12+C15", w.j.get_current() as u64, o.cur as u64, "the current page's cursor is unchanged");
    w.j.select_page(1 - p);
    v::eq("C12+C15", w.j.get_current() as u64, (o.other + 8) as u64, "the named page's cursor advances");
}

fn w_c12_wide_through_handles() {
    // every width through a page handle, including the data page's
    let mut w = any();
    let p = w.j.get_page();
    w.j.select_page(1 - p);
    room(&w.j, 8);
    w.j.select_page(p);
    let o = observe(&mut w);
    v::assume(o.data + 16 <= v::region_base() + v::region_size());
    let a: u8 = v::any("a");
    let b: u16 = v::any("b");
    let c: u32 = v::any("c");
    let d: u64 = v::any("d");
    v::mark();
    w.j[Page(1 - p)].emitl(c);
    w.j[Page(1 - p)].emitw(b);
    w.j[Page(2)].emitq(d);
    w.j[Page(1 - p)].emitb(a);
    w.j[Page(2)].emitb(a);
    v::eq("C12+C15", rd32(o.other_at), c as u64, "double word on the page named");
    v::eq("C12+C15", rd16(o.other_at + 4), b as u64, "word on the page named");
    v::eq("C12+C15", rd8(o.other_at + 6), a as u64, "byte on the page named");
    v::eq("C12+C15", rd64(o.data), d, "quad word on the data page");
    v::eq("C12+C15", rd8(o.data + 8), a as u64, "byte on the data page");
    v::eq("C12+C15", v::nwrites(), 16, "nothing else is stored");
    v::eq("C12+C15", w.j.get_current() as u64, o.cur as u64, "the current page's cursor is unchanged");
    let d1 = data_cursor(&mut w);
    v::eq("C12+C15", d1, o.data + 9, "the data cursor advances by the bytes emitted");
}

// ------------------------------------------------------------------ C23 alignment
fn align_check(w: &mut W, o: &Obs, s: u64, unit: u64) {
    let c = w.j.get_current() as u64;
    v::no_writes("C23", "alignment stores nothing");
    v::aligned("C23", c, unit, "the cursor is a multiple of the unit");
    v::oblige("C23", c >= o.cur as u64, "the cursor does not move backwards");
    v::oblige("C23", c < o.cur as u64 + unit, "the cursor moves to the nearest multiple");
    v::same_tables("C23", s, &w.j, "bookkeeping is unchanged");
    frame("C23", w, o, (c - o.cur as u64) as usize);
}
fn w_c23_align4() {
    let mut w = any();
    let o = observe(&mut w);
    let s = v::snap(&w.j);
    v::mark();
    w.j.align4();
    align_check(&mut w, &o, s, 4);
}
fn w_c23_align8() {
    let mut w = any();
    let o = observe(&mut w);
    let s = v::snap(&w.j);
    v::mark();
    w.j.align8();
    align_check(&mut w, &o, s, 8);
}
fn w_c23_align16() {
    let mut w = any();
    let o = observe(&mut w);
    let s = v::snap(&w.j);
    v::mark();
    w.j.align16();
    align_check(&mut w, &o, s, 16);
}
fn w_c23_align_page() {
    let mut w = any();
    let o = observe(&mut w);
    let s = v::snap(&w.j);
    v::mark();
    w.j.align_page();
    align_check(&mut w, &o, s, 4096);
}

fn handle_align(unit: u64, f: fn(&mut MemPage)) {
    // alignment through the handle of the other page and of the data page
    let mut w = any();
    let o = observe(&mut w);
    let s = v::snap(&w.j);
    v::mark();
    f(&mut w.j[Page(1 - o.page)]);
    v::no_writes("C23", "alignment stores nothing");
    w.j.select_page(1 - o.page);
    let c = w.j.get_current() as u64;
    w.j.select_page(o.page);
    v::aligned("C23", c, unit, "the cursor of the page named is a multiple of the unit");
    v::oblige("C23", c >= o.other as u64, "it does not move backwards");
    v::oblige("C23", c < o.other as u64 + unit, "it moves to the nearest multiple");
    v::eq("C23", w.j.get_current() as u64, o.cur as u64, "the current page's cursor is unchanged");
    v::eq("C23", data_cursor(&mut w), o.data, "the data cursor is unchanged");
    v::same_tables("C23", s, &w.j, "bookkeeping is unchanged");
    f(&mut w.j[Page(2)]);
    let d = data_cursor(&mut w);
    v::aligned("C23", d, unit, "the data cursor is a multiple of the unit");
    v::oblige("C23", d >= o.data, "it does not move backwards");
    v::oblige("C23", d < o.data + unit, "it moves to the nearest multiple");
    v::eq("C23", w.j.get_current() as u64, o.cur as u64, "the current page's cursor is unchanged");
}
fn w_c23_handle4() {
    handle_align(4, MemPage::align4);
}
fn w_c23_handle8() {
    handle_align(8, MemPage::align8);
}
fn w_c23_handle16() {
    handle_align(16, MemPage::align16);
}
fn w_c23_handle_page() {
    handle_align(4096, MemPage::align_page);
}
fn w_c23_twice() {
    // aligning an aligned cursor changes nothing
    let mut w = any();
    w.j.align4();
    let a = w.j.get_current();
    w.j.align4();
    v::eq("C23", w.j.get_current() as u64, a as u64, "align4 is idempotent");
    w.j.align8();
    let a = w.j.get_current();
    w.j.align8();
    w.j.align4();
    v::eq("C23", w.j.get_current() as u64, a as u64, "align8 is idempotent and implies align4");
    w.j.align16();
    let a = w.j.get_current();
    w.j.align16();
    w.j.align8();
    v::eq("C23", w.j.get_current() as u64, a as u64, "align16 is idempotent and implies align8");
    w.j.align_page();
    let a = w.j.get_current();
    w.j.align_page();
    w.j.align16();
    v::eq("C23", w.j.get_current() as u64, a as u64, "align_page is idempotent and implies align16");
}

// ------------------------------------------------------------------ C15 page independence
fn w_c15_select_range() {
    let mut w = any();
    let p: usize = v::any("p");
    v::panics(true);
    w.j.select_page(p);
    v::oblige("C15", p < 2, "only the two code pages can be selected");
    v::eq("C15", w.j.get_page() as u64, p as u64, "the page selected is the page reported");
}
fn w_c15_select_accepts() {
    let mut w = any();
    let p = v::within("p", 0, 1) as usize;
    w.j.select_page(p);
    v::eq("C15", w.j.get_page() as u64, p as u64, "both code pages can be selected");
}
fn w_c15_select_frame() {
    let mut w = any();
    let o = observe(&mut w);
    let s = v::snap(&w.j);
    v::mark();
    w.j.select_page(1 - o.page);
    v::eq("C15", w.j.get_current() as u64, o.other as u64, "cursor queries follow the selected page");
    v::eq("C15", addr(&w.j), o.other_at, "address queries follow the selected page");
    v::same_tables("C15", s, &w.j, "bookkeeping is unchanged");
    w.j.select_page(o.page);
    v::no_writes("C15", "selecting a page stores nothing");
    frame("C15", &mut w, &o, 0);
}
fn w_c15_interleave() {
    let mut w = any();
    let p = w.j.get_page();
    room(&w.j, 32);
    w.j.select_page(1 - p);
    room(&w.j, 32);
    w.j.select_page(p);
    let o = observe(&mut w);
    let a: u32 = v::any("a");
    let b: u32 = v::any("b");
    let c: u32 = v::any("c");
    v::mark();
    w.j.emitl(a);
    w.j.select_page(1 - p);
    w.j.emitl(b);
    w.j.align8();
    w.j.select_page(p);
    v::eq("C12+C15", w.j.get_current() as u64, (o.cur + 4) as u64, "returning to a page finds its cursor where it was left");
    w.j.emitl(c);
    v::eq("C12+C15", rd32(o.at), a as u64, "first value on its page");
    v::eq("C12+C15", rd32(o.at + 4), c as u64, "second value directly after the first");
    v::eq("C12+C15", rd32(o.other_at), b as u64, "value on the other page");
    v::eq("C12+C15", v::nwrites(), 12, "nothing else is stored");
}
fn w_c15_labels_and_constants() {
    let mut j = JitMemory::new();
    let l0 = j.label();
    let l1 = j.label();
    hv(&mut j);
    j.select_page(0);
    room(&j, 4096);
    j.select_page(1);
    room(&j, 4096);
    j.select_page(0);
    let a0 = addr(&j);
    j.bind_label(l0);
    let k0 = j.const_i64(1);
    j.select_page(1);
    let a1 = addr(&j);
    j.bind_label(l1);
    let k1 = j.const_i64(2);
    j.select_page(0);
    v::eq("C10+C15", j.get_label_u64(l0), a0, "a label is bound on the page current at the time");
    v::eq("C10+C15", j.get_label_u64(l1), a1, "a label is bound on the page current at the time");
    j.finalize();
    let b0 = j.get_label_u64(k0);
    let b1 = j.get_label_u64(k1);
    v::oblige("C14+C15", b0 >= a0 && b0 < a0 + 64, "a constant is placed on the page current at its request");
    v::oblige("C14+C15", b1 >= a1 && b1 < a1 + 64, "a constant is placed on the page current at its request");
    v::eq("C10+C15", j.get_label_u64(l0), a0, "labels stay");
    v::eq("C10+C15", j.get_label_u64(l1), a1, "labels stay");
}
fn c15_request(f: fn(&mut JitMemory) -> DestLabel) {
    // requested on one page, finalised while the other is selected
    let mut j = JitMemory::new();
    let l = j.label();
    hv(&mut j);
    j.bind_label(l);
    let p = j.get_page();
    room(&j, 4096);
    let a0 = addr(&j);
    j.select_page(1 - p);
    room(&j, 4096);
    let a1 = addr(&j);
    j.select_page(p);
    let k0 = f(&mut j);
    j.select_page(1 - p);
    let k1 = f(&mut j);
    let k2 = f(&mut j);
    v::eq("C15", addr(&j), a1, "a request does not move the cursor");
    j.select_page(p);
    v::eq("C15", addr(&j), a0, "a request does not move the cursor");
    let k3 = f(&mut j);
    j.select_page(1 - p);
    j.finalize();
    let b = j.get_label_u64(k0);
    v::oblige("C14+C15", b >= a0 && b < a0 + 512, "the request goes to the page current at the time");
    let b = j.get_label_u64(k1);
    v::oblige("C14+C15", b >= a1 && b < a1 + 512, "the request goes to the page current at the time");
    let b = j.get_label_u64(k2);
    v::oblige("C14+C15", b >= a1 && b < a1 + 512, "the request goes to the page current at the time");
    let b = j.get_label_u64(k3);
    v::oblige("C14+C15", b >= a0 && b < a0 + 512, "the request goes to the page current at the time");
    v::eq("C15", j.get_page() as u64, (1 - p) as u64, "finalisation keeps the selected page");
}
fn w_c15_request_i32() {
    c15_request(|j| j.const_i32(7));
}
fn w_c15_request_i64() {
    c15_request(|j| j.const_i64(7));
}
fn w_c15_request_f64() {
    c15_request(|j| j.const_f64(7.5));
}
fn w_c15_request_bytes() {
    c15_request(|j| j.constant(5));
}
fn w_c15_request_align() {
    c15_request(|j| j.const_align8());
}
fn w_c15_request_abs() {
    c15_request(|j| {
        let l = j.label();
        j.bind_label(l);
        j.abs_address(l)
    });
}
fn w_c15_order_irrelevant() {
    // the same work, interleaved and page by page, gives the same bytes and addresses
    let mut j = JitMemory::new();
    let (l0, l1, m) = (j.label(), j.label(), j.label());
    hv(&mut j);
    j.select_page(0);
    room(&j, 4096);
    let a0 = addr(&j);
    j.select_page(1);
    room(&j, 4096);
    let a1 = addr(&j);
    let x: u32 = v::any("x");
    let y: u64 = v::any("y");
    v::mark();
    monoasm! { &mut j,
        jmp l1;
    }
    j.select_page(0);
    j.emitl(x);
    monoasm! { &mut j,
        jmp l0;
    }
    j.select_page(1);
    j.emitq(y);
    j.bind_label(l1);
    j.select_page(0);
    j.bind_label(l0);
    j.emitb(0xc3);
    j.select_page(1);
    j.emitb(0xcc);
    j.bind_label(m);
    j.finalize();
    v::eq("C12+C15", rd8(a1), 0xe9, "first on the second page");
    v::eq("C08+C15", rd32(a1 + 1), 8, "its jump skips the quad word only");
    v::eq("C12+C15", rd64(a1 + 5), y, "second on the second page");
    v::eq("C12+C15", rd8(a1 + 13), 0xcc, "third on the second page");
    v::eq("C15", j.get_label_u64(m), a1 + 14, "the label after it");
    v::eq("C12+C15", rd32(a0), x as u64, "first on the first page");
    v::eq("C12+C15", rd8(a0 + 4), 0xe9, "second on the first page");
    v::eq("C08+C15", rd32(a0 + 5), 0, "its jump leads to the next instruction");
    v::eq("C12+C15", rd8(a0 + 9), 0xc3, "third on the first page");
}
fn w_c15_bind_with_page() {
    let mut w = any();
    let o = observe(&mut w);
    let l = w.j.label();
    v::mark();
    w.j.bind_label_with_page(Page(1 - o.page), l);
    v::eq("C10+C15", w.j.get_label_u64(l), o.other_at, "binding on a named page uses that page's cursor");
    v::no_writes("C15", "binding stores nothing");
    frame("C15", &mut w, &o, 0);
}
fn w_c15_pages_disjoint() {
    // the cursors of the three pages can never designate the same storage
    let mut w = any();
    let o = observe(&mut w);
    let b0 = o.at - o.cur as u64;
    let b1 = o.other_at - o.other as u64;
    v::oblige("C15", b0 + v::page_size() as u64 <= b1 || b1 + v::page_size() as u64 <= b0, "the code pages do not overlap");
}
fn w_c15_jump_on_second_page() {
    let mut j = JitMemory::new();
    let l = j.label();
    hv(&mut j);
    j.select_page(0);
    room(&j, 64);
    let a0 = addr(&j);
    j.select_page(1);
    room(&j, 64);
    let a1 = addr(&j);
    v::mark();
    monoasm! { &mut j,
        jmp l;
    }
    j.select_page(0);
    j.emitb(0x90);
    j.select_page(1);
    j.bind_label(l);
    v::eq("C15", j.get_label_u64(l), a1 + 5, "emission on the other page does not move this page's cursor");
    j.finalize();
    v::eq("C15", rd8(a1), 0xe9, "jump opcode on its page");
    v::eq("C08+C15", rd32(a1 + 1), 0, "its displacement is not affected by the other page");
    v::eq("C15", rd8(a0), 0x90, "the byte on the other page");
}

// ------------------------------------------------------------------ C13 bounds
fn w_c13_emitb() {
    let mut w = any();
    let o = observe(&mut w);
    v::panics(true);
    let base = o.at - o.cur as u64;
    v::confine("C13", base, base + v::page_size() as u64, "nothing is stored elsewhere before the refusal");
    w.j.emitb(v::any("x"));
    v::writes_in("C13", base, base + v::page_size() as u64, "a byte is stored inside its page");
    v::oblige("C13", w.j.get_current() <= v::page_size(), "the cursor never passes the end of the page");
}
fn w_c13_emitw() {
    let mut w = any();
    let o = observe(&mut w);
    v::panics(true);
    let base = o.at - o.cur as u64;
    v::confine("C13", base, base + v::page_size() as u64, "nothing is stored elsewhere before the refusal");
    w.j.emitw(v::any("x"));
    v::writes_in("C13", base, base + v::page_size() as u64, "a word is stored inside its page");
    v::oblige("C13", w.j.get_current() <= v::page_size(), "the cursor never passes the end of the page");
}
fn w_c13_emitl() {
    let mut w = any();
    let o = observe(&mut w);
    v::panics(true);
    let base = o.at - o.cur as u64;
    v::confine("C13", base, base + v::page_size() as u64, "nothing is stored elsewhere before the refusal");
    w.j.emitl(v::any("x"));
    v::writes_in("C13", base, base + v::page_size() as u64, "a double word is stored inside its page");
    v::oblige("C13", w.j.get_current() <= v::page_size(), "the cursor never passes the end of the page");
}
fn w_c13_emitq() {
    let mut w = any();
    let o = observe(&mut w);
    v::panics(true);
    let base = o.at - o.cur as u64;
    v::confine("C13", base, base + v::page_size() as u64, "nothing is stored elsewhere before the refusal");
    w.j.emitq(v::any("x"));
    v::writes_in("C13", base, base + v::page_size() as u64, "a quad word is stored inside its page");
    v::oblige("C13", w.j.get_current() <= v::page_size(), "the cursor never passes the end of the page");
}
fn w_c13_emit_slice() {
    let mut w = any();
    let o = observe(&mut w);
    v::panics(true);
    let base = o.at - o.cur as u64;
    v::confine("C13", base, base + v::page_size() as u64, "nothing is stored elsewhere before the refusal");
    w.j.emit(&[v::any("a"), v::any("b"), v::any("c"), v::any("d"), v::any("e"), v::any("f")]);
    v::writes_in("C13", base, base + v::page_size() as u64, "a slice is stored inside its page");
    v::oblige("C13", w.j.get_current() <= v::page_size(), "the cursor never passes the end of the page");
}
fn w_c13_handles() {
    let mut w = any();
    w.j.select_page(0);
    let o = observe(&mut w);
    v::panics(true);
    let base0 = o.at - o.cur as u64;
    let base1 = o.other_at - o.other as u64;
    let n = v::page_size() as u64;
    v::confine("C13", base0, base0 + n, "nothing is stored elsewhere before the refusal");
    w.j[Page(0)].emitl(v::any("x"));
    v::writes_in("C13", base0, base0 + n, "page 0 handle stores on page 0");
    v::confine("C13", base1, base1 + n, "nothing is stored elsewhere before the refusal");
    w.j[Page(1)].emitl(v::any("y"));
    v::writes_in("C13", base1, base1 + n, "page 1 handle stores on page 1");
}
fn w_c13_data_handle() {
    let mut w = any();
    v::panics(true);
    let d0 = data_cursor(&mut w);
    v::confine("C13", d0, d0 + 8, "nothing is stored elsewhere before the refusal");
    w.j[Page(2)].emitq(v::any("x"));
    v::writes_in("C13", d0, d0 + 8, "data page handle stores at the data cursor");
    let d1 = data_cursor(&mut w);
    v::oblige("C13", d1 <= v::region_base() + v::region_size(), "the data cursor never passes the end of the allocation");
}
fn w_c13_no_other_page() {
    let mut w = any();
    let n: usize = v::any("n");
    v::panics(true);
    w.j[Page(n)].emitb(0);
    v::oblige("C13", n < 3, "there are exactly three pages");
}
fn w_c13_index_write() {
    let mut w = any();
    let o = observe(&mut w);
    v::panics(true);
    let base = o.at - o.cur as u64;
    let k: usize = v::any("k");
    v::confine("C13", base, base + v::page_size() as u64, "nothing is stored elsewhere before the refusal");
    w.j[Pos::from(k)] = v::any("x");
    v::writes_in("C13", base, base + v::page_size() as u64, "a direct store is inside its page");
    v::oblige("C13", k < v::page_size(), "positions outside the page are refused");
    v::eq("C13", w.j.get_current() as u64, o.cur as u64, "the cursor does not move");
}
fn w_c13_page_index_write() {
    let mut w = any();
    let o = observe(&mut w);
    v::panics(true);
    let base = o.other_at - o.other as u64;
    let k: usize = v::any("k");
    v::confine("C13", base, base + v::page_size() as u64, "nothing is stored elsewhere before the refusal");
    w.j[Page(1 - o.page)][Pos::from(k)] = v::any("x");
    v::writes_in("C13", base, base + v::page_size() as u64, "a direct store is inside its page");
    v::oblige("C13", k < v::page_size(), "positions outside the page are refused");
}
fn w_c13_index_read() {
    let mut w = any();
    let o = observe(&mut w);
    v::panics(true);
    let k: usize = v::any("k");
    let x = w.j[Pos::from(k)];
    v::oblige("C13", k < v::page_size(), "reads outside the page are refused");
}
fn w_c13_instruction() {
    let mut w = any();
    let o = observe(&mut w);
    v::panics(true);
    let base = o.at - o.cur as u64;
    let i: i64 = v::any("i");
    v::confine("C13", base, base + v::page_size() as u64, "nothing is stored elsewhere before the refusal");
    monoasm! { &mut w.j,
        movq [r12 + r13 * 8 + 1000], (i);
    }
    v::writes_in("C13", base, base + v::page_size() as u64, "an instruction is stored inside its page");
    v::oblige("C13", w.j.get_current() <= v::page_size(), "the cursor never passes the end of the page");
}
fn w_c13_jump() {
    let mut w = any();
    let o = observe(&mut w);
    v::panics(true);
    let base = o.at - o.cur as u64;
    let l = w.bound;
    v::confine("C13", base, base + v::page_size() as u64, "nothing is stored elsewhere before the refusal");
    monoasm! { &mut w.j,
        jne l;
        call l;
        lea rax, [rip + l];
    }
    v::writes_in("C13", base, base + v::page_size() as u64, "label references are stored inside their page");
    v::oblige("C13", w.j.get_current() <= v::page_size(), "the cursor never passes the end of the page");
}
fn w_c13_align_stays() {
    let mut w = any();
    w.j.align4();
    w.j.align8();
    w.j.align16();
    w.j.align_page();
    v::oblige("C13", w.j.get_current() <= v::page_size(), "alignment never passes the end of the page");
}
fn w_c13_finalize_slots() {
    // resolving references stores inside the page that holds the reference
    let mut j = JitMemory::new();
    let l = j.label();
    hv(&mut j);
    v::panics(true);
    let at = addr(&j);
    let base = at - j.get_current() as u64;
    monoasm! { &mut j,
        jmp l;
    }
    hv(&mut j);
    j.bind_label(l);
    v::confine("C13", at + 1, at + 5, "nothing is stored elsewhere before the refusal");
    j.finalize();
    v::writes_in("C13", at + 1, at + 5, "only the reference slot is stored to");
}
fn w_c13_bare_slot() {
    // a slot recorded by hand at the very end of a page is refused, not written across the end
    let mut j = JitMemory::new();
    let l = j.label();
    hv(&mut j);
    v::panics(true);
    let at = addr(&j);
    let base = at - j.get_current() as u64;
    j.save_reloc(l, 4);
    j.bind_label(l);
    v::confine("C13", base, base + v::page_size() as u64, "nothing is stored elsewhere before the refusal");
    j.finalize();
    v::writes_in("C13", base, base + v::page_size() as u64, "the slot is inside the page");
}
fn w_c13_constants() {
    let mut j = JitMemory::new();
    hv(&mut j);
    v::panics(true);
    let at = addr(&j);
    let base = at - j.get_current() as u64;
    j.const_i64(v::any("a"));
    j.const_i32(v::any("b"));
    j.const_f64(v::any("c"));
    j.constant(3);
    j.const_align8();
    v::confine("C13", at, base + v::page_size() as u64, "nothing is stored elsewhere before the refusal");
    j.finalize();
    v::writes_in("C13", at, base + v::page_size() as u64, "constants are stored between the code and the end of the page");
    v::oblige("C13", j.get_current() <= v::page_size(), "the cursor never passes the end of the page");
}
fn w_c13_abs() {
    let mut j = JitMemory::new();
    let l = j.label();
    hv(&mut j);
    v::panics(true);
    let at = addr(&j);
    let base = at - j.get_current() as u64;
    j.bind_label(l);
    j.abs_address(l);
    v::confine("C13", at, base + v::page_size() as u64, "nothing is stored elsewhere before the refusal");
    j.finalize();
    v::writes_in("C13", at, base + v::page_size() as u64, "an absolute address is stored between the code and the end of the page");
}
fn w_c13_data() {
    let mut w = any();
    v::panics(true);
    let d0 = data_cursor(&mut w);
    let mut j = w.j;
    v::mark();
    j.finalize();
    j.data_i64(v::any("a"));
    j.data_i32(v::any("b"));
    j.data(5);
    v::confine("C13", d0, v::region_base() + v::region_size(), "nothing is stored elsewhere before the refusal");
    j.finalize();
    v::writes_in("C13", d0, v::region_base() + v::region_size(), "data is stored between the data cursor and the end of the data page");
}

fn w_c13_const_block() {
    // a block that may reach past the end of the page although its first bytes do not
    let mut j = JitMemory::new();
    hv(&mut j);
    v::panics(true);
    let at = addr(&j);
    let base = at - j.get_current() as u64;
    j.constant(40);
    v::confine("C13", at, base + v::page_size() as u64, "nothing is stored elsewhere before the refusal");
    j.finalize();
    v::writes_in("C13", at, base + v::page_size() as u64, "a block is stored between the code and the end of the page");
    v::oblige("C13", j.get_current() <= v::page_size(), "the cursor never passes the end of the page");
}
fn w_c13_data_block() {
    let mut w = any();
    v::panics(true);
    let mut j = w.j;
    j.finalize();
    hv(&mut j);
    let l = j.label();
    j.bind_label_with_page(Page(2), l);
    let d0 = j.get_label_u64(l);
    j.data(40);
    v::mark();
    v::confine("C13", d0, v::region_base() + v::region_size(), "nothing is stored elsewhere before the refusal");
    j.finalize();
    v::writes_in("C13", d0, v::region_base() + v::region_size(), "a block is stored between the data cursor and the end of the data page");
    j.bind_label_with_page(Page(2), l);
    v::oblige("C13", j.get_label_u64(l) <= v::region_base() + v::region_size(), "the data cursor never passes the end of the allocation");
}
fn w_c13_long_slice() {
    let mut w = any();
    let o = observe(&mut w);
    v::panics(true);
    let base = o.at - o.cur as u64;
    let b = [v::any("x"); 20];
    v::confine("C13", base, base + v::page_size() as u64, "nothing is stored elsewhere before the refusal");
    w.j.emit(&b);
    v::writes_in("C13", base, base + v::page_size() as u64, "a slice is stored inside its page");
    v::oblige("C13", w.j.get_current() <= v::page_size(), "the cursor never passes the end of the page");
}
fn w_c13_items_in_turn() {
    // each item of a kind at the end of the page, after a block of any length
    let mut j = JitMemory::new();
    hv(&mut j);
    v::panics(true);
    let at = addr(&j);
    let base = at - j.get_current() as u64;
    j.const_i32(v::any("b"));
    j.const_i32(v::any("c"));
    j.const_align8();
    j.const_i32(v::any("d"));
    v::confine("C13", at, base + v::page_size() as u64, "nothing is stored elsewhere before the refusal");
    j.finalize();
    v::writes_in("C13", at, base + v::page_size() as u64, "constants are stored between the code and the end of the page");
    v::oblige("C13", j.get_current() <= v::page_size(), "the cursor never passes the end of the page");
}

// ------------------------------------------------------------------ C19 membership
fn w_c19_include() {
    let w = any();
    let j = w.j;
    let x: u64 = v::any("x");
    let lo = v::region_base();
    let hi = lo + 2 * v::page_size() as u64;
    if j.include(x as *mut u8) {
        v::oblige("C19", x >= lo, "an address reported as inside is not below the first code page");
        v::oblige("C19", x < hi, "an address reported as inside is not above the second code page");
    } else {
        v::oblige("C19", x < lo || x >= hi, "an address inside the code pages is reported as inside");
    }
}
fn w_c19_cursor() {
    let mut w = any();
    let o = observe(&mut w);
    room(&w.j, 1);
    v::oblige("C19", w.j.include(o.at as *mut u8), "the cursor of either page lies inside");
    v::oblige("C19", w.j.include((o.at - o.cur as u64) as *mut u8), "the first byte of either page lies inside");
    v::oblige("C19", w.j.include((o.at - o.cur as u64 + v::page_size() as u64 - 1) as *mut u8), "the last byte of either page lies inside");
}
fn w_c19_data_not_code() {
    let mut w = any();
    let d = data_cursor(&mut w);
    v::oblige("C19", !w.j.include(d as *mut u8), "data addresses are not code");
}

// ------------------------------------------------------------------ C24 code addresses
fn w_c24_roundtrip() {
    let x: u64 = v::any("x");
    v::assume(x != 0);
    let p = CodePtr::from(x as *mut u8);
    v::eq("C24", p.as_ptr() as u64, x, "a code address converts to and from a pointer unchanged");
}
fn w_c24_null() {
    v::panics(true);
    let x: u64 = v::any("x");
    let p = CodePtr::from(x as *mut u8);
    v::oblige("C24", x != 0, "null is refused");
}
fn w_c24_sub() {
    let x = v::within("x", 1, 0x7fff_ffff_ffff) as u64;
    let y = v::within("y", 1, 0x7fff_ffff_ffff) as u64;
    let d = CodePtr::from(x as *mut u8) - CodePtr::from(y as *mut u8);
    v::eq("C24", d as u64, x.wrapping_sub(y), "the difference is the signed byte distance");
}
fn w_c24_add() {
    let x = v::within("x", 1, 0x7fff_ffff_ffff) as u64;
    let n = v::within("n", 0, 0x7fff_ffff) as u64;
    let p = CodePtr::from(x as *mut u8) + n as usize;
    v::eq("C24", p.as_ptr() as u64, x + n, "adding advances by the byte count");
}
fn w_c24_add_any() {
    // any byte count that leads to an address
    let x: u64 = v::any("x");
    let n: u64 = v::any("n");
    v::assume(x != 0);
    v::assume(n <= 0x7fff_ffff_ffff_ffff);
    v::assume(x <= 0x7fff_ffff_ffff_ffff);
    let p = CodePtr::from(x as *mut u8) + n as usize;
    v::eq("C24", p.as_ptr() as u64, x + n, "adding advances by the byte count");
    v::assume(n <= 0x7fff_ffff_ffff_ffff - x);
    let q = CodePtr::from(x as *mut u8);
    v::eq("C24", (p - q) as u64, n, "and the difference is the byte count");
}
fn w_c24_order_near() {
    // addresses as the processor has them
    let x = v::within("x", 1, 0x7fff_ffff_ffff) as u64;
    let y = v::within("y", 1, 0x7fff_ffff_ffff) as u64;
    let p = CodePtr::from(x as *mut u8);
    let q = CodePtr::from(y as *mut u8);
    if x < y {
        v::oblige("C24", p < q, "order follows the addresses (<)");
        v::oblige("C24", !(p > q), "order follows the addresses (not >)");
        v::oblige("C24", p != q, "different addresses differ");
        v::oblige("C24", p.partial_cmp(&q) == Some(std::cmp::Ordering::Less), "order follows the addresses (less)");
    } else if x > y {
        v::oblige("C24", p > q, "order follows the addresses (>)");
        v::oblige("C24", !(p < q), "order follows the addresses (not <)");
        v::oblige("C24", !(p == q), "different addresses differ");
        v::oblige("C24", p.partial_cmp(&q) == Some(std::cmp::Ordering::Greater), "order follows the addresses (greater)");
    } else {
        v::oblige("C24", p == q, "equal addresses are equal");
        v::oblige("C24", p.partial_cmp(&q) == Some(std::cmp::Ordering::Equal), "order follows the addresses (equal)");
    }
}
fn w_c24_order_far() {
    // addresses 2^31, 2^32 and 2^33 apart
    let x = v::within("x", 1, 0x7000_0000_0000) as u64;
    let d = v::within("d", 0x7fff_fff0, 0x3_0000_0000) as u64;
    let p = CodePtr::from(x as *mut u8);
    let q = CodePtr::from((x + d) as *mut u8);
    v::oblige("C24", p < q, "order follows the addresses (<)");
    v::oblige("C24", q > p, "order follows the addresses (>)");
    v::oblige("C24", p != q, "different addresses differ");
    v::eq("C24", (q - p) as u64, d, "the difference is the signed byte distance");
    v::eq("C24", (p - q) as u64, 0u64.wrapping_sub(d), "the difference is the signed byte distance");
}
fn w_c24_order() {
    let x: u64 = v::any("x");
    let y: u64 = v::any("y");
    v::assume(x != 0);
    v::assume(y != 0);
    let p = CodePtr::from(x as *mut u8);
    let q = CodePtr::from(y as *mut u8);
    if x < y {
        v::oblige("C24", p < q, "order follows the addresses (<)");
        v::oblige("C24", !(p > q), "order follows the addresses (not >)");
        v::oblige("C24", !(p >= q), "order follows the addresses (not >=)");
        v::oblige("C24", p <= q, "order follows the addresses (<=)");
        v::oblige("C24", p != q, "different addresses differ");
    } else if x > y {
        v::oblige("C24", p > q, "order follows the addresses (>)");
        v::oblige("C24", !(p < q), "order follows the addresses (not <)");
        v::oblige("C24", p >= q, "order follows the addresses (>=)");
        v::oblige("C24", !(p <= q), "order follows the addresses (not <=)");
        v::oblige("C24", !(p == q), "different addresses differ");
    } else {
        v::oblige("C24", p == q, "equal addresses are equal");
        v::oblige("C24", !(p < q), "equal addresses are not less");
        v::oblige("C24", !(p > q), "equal addresses are not greater");
        v::oblige("C24", p <= q, "equal addresses are less or equal");
        v::oblige("C24", p >= q, "equal addresses are greater or equal");
    }
}
fn w_c24_from_assembler() {
    let mut w = any();
    let o = observe(&mut w);
    let l = w.j.label();
    w.j.bind_label(l);
    let a = w.j.get_current_address();
    let b = w.j.get_label_address(l);
    v::oblige("C24", a == b, "the same place has the same address");
    v::eq("C24", (a - b) as u64, 0, "distance to itself is zero");
    room(&w.j, 4);
    w.j.emitl(0);
    let c = w.j.get_current_address();
    v::eq("C24", (c - b) as u64, 4, "distance equals the bytes emitted");
    v::eq("C24", (b - c) as u64, (-4i64) as u64, "distance is signed");
    v::oblige("C24", b < c, "later code has a greater address");
    v::oblige("C24", b + 4 == c, "advancing by the bytes emitted");
}

// ------------------------------------------------------------------ C26 queries
/// an assembler with references, constants and data in every stage of their life
struct Rich {
    j: JitMemory,
    bound: DestLabel,
    pending: DestLabel,
    late: DestLabel,
    slot: DestLabel,
    queued: DestLabel,
}
fn both_room(j: &mut JitMemory, n: usize) {
    let p = j.get_page();
    j.select_page(0);
    room(j, n);
    j.select_page(1);
    room(j, n);
    j.select_page(p);
    let l = j.label();
    j.bind_label_with_page(Page(2), l);
    v::assume(j.get_label_u64(l) + n as u64 <= v::region_base() + v::region_size());
}
fn rich() -> Rich {
    let mut j = JitMemory::new();
    let (bound, pending, late) = (j.label(), j.label(), j.label());
    hv(&mut j);
    both_room(&mut j, 512);
    j.bind_label(bound);
    monoasm! { &mut j,
        jmp bound;
        jmp pending;
        call late;
    }
    let slot = j.abs_address(late);
    j.abs_address(pending);
    j.const_i64(7);
    j.data_i32(3);
    j.finalize();
    // resolved by the next finalisation only
    monoasm! { &mut j,
        call late;
        lea rax, [rip + bound];
    }
    j.bind_label(late);
    j.emitb(0x90);
    j.abs_address(bound);
    let queued = j.const_i32(1);
    j.data_i64(2);
    if v::any::<u8>("other") == 0 {
        let p = j.get_page();
        j.select_page(1 - p);
    }
    Rich { j, bound, pending, late, slot, queued }
}
fn asked(f: fn(&mut Rich), what: &str) {
    let mut r = rich();
    let s = v::snap(&r.j);
    v::mark();
    f(&mut r);
    v::same("C26", s, &r.j, what);
    v::no_writes("C26", what);
}
fn asked_twice(f: fn(&mut Rich) -> u64, what: &str) {
    let mut r = rich();
    let a = f(&mut r);
    let b = f(&mut r);
    v::eq("C26", a, b, what);
}
fn w_c26_get_current() {
    asked(|r| { let _ = r.j.get_current(); }, "get_current changes nothing");
}
fn w_c26_get_page() {
    asked(|r| { let _ = r.j.get_page(); }, "get_page changes nothing");
}
fn w_c26_get_current_address() {
    asked(|r| { let _ = r.j.get_current_address(); }, "get_current_address changes nothing");
}
fn w_c26_include() {
    asked(|r| { let _ = r.j.include(v::any::<u64>("x") as *mut u8); }, "include changes nothing");
}
fn w_c26_as_slice() {
    asked(|r| { let _ = r.j.as_slice(); }, "as_slice changes nothing");
}
fn w_c26_code_block() {
    asked(|r| { let _ = r.j.code_block.len(); }, "code_block changes nothing");
}
fn w_c26_to_usize() {
    asked(|r| { let _ = r.bound.to_usize(); }, "to_usize changes nothing");
}
fn w_c26_label_eq() {
    asked(|r| { let _ = r.bound == r.late; }, "label_eq changes nothing");
}
fn w_c26_get_label_address_bound() {
    asked(|r| { let _ = r.j.get_label_address(r.bound); }, "get_label_address_bound changes nothing");
}
fn w_c26_get_label_addr_bound() {
    asked(|r| { let _ = r.j.get_label_addr::<u64, u64>(r.bound); }, "get_label_addr_bound changes nothing");
}
fn w_c26_get_label_addr2_bound() {
    asked(|r| { let _ = r.j.get_label_addr2::<u64, u64, u64>(r.bound); }, "get_label_addr2_bound changes nothing");
}
fn w_c26_get_label_u64_bound() {
    asked(|r| { let _ = r.j.get_label_u64(r.bound); }, "get_label_u64_bound changes nothing");
}
fn w_c26_get_label_address_late() {
    asked(|r| { let _ = r.j.get_label_address(r.late); }, "get_label_address_late changes nothing");
}
fn w_c26_get_label_addr_late() {
    asked(|r| { let _ = r.j.get_label_addr::<u64, u64>(r.late); }, "get_label_addr_late changes nothing");
}
fn w_c26_get_label_addr2_late() {
    asked(|r| { let _ = r.j.get_label_addr2::<u64, u64, u64>(r.late); }, "get_label_addr2_late changes nothing");
}
fn w_c26_get_label_u64_late() {
    asked(|r| { let _ = r.j.get_label_u64(r.late); }, "get_label_u64_late changes nothing");
}
fn w_c26_get_label_address_slot() {
    asked(|r| { let _ = r.j.get_label_address(r.slot); }, "get_label_address_slot changes nothing");
}
fn w_c26_get_label_addr_slot() {
    asked(|r| { let _ = r.j.get_label_addr::<u64, u64>(r.slot); }, "get_label_addr_slot changes nothing");
}
fn w_c26_get_label_addr2_slot() {
    asked(|r| { let _ = r.j.get_label_addr2::<u64, u64, u64>(r.slot); }, "get_label_addr2_slot changes nothing");
}
fn w_c26_get_label_u64_slot() {
    asked(|r| { let _ = r.j.get_label_u64(r.slot); }, "get_label_u64_slot changes nothing");
}
fn w_c26_again_u64() {
    asked_twice(|r| r.j.get_label_u64(r.late), "asking again gives the same answer");
}
fn w_c26_again_address() {
    asked_twice(|r| r.j.get_label_address(r.late).as_ptr() as u64, "asking again gives the same answer");
}
fn w_c26_again_current() {
    asked_twice(|r| r.j.get_current_address().as_ptr() as u64, "asking again gives the same answer");
}
fn w_c26_again_slice() {
    asked_twice(|r| r.j.as_slice().len() as u64, "asking again gives the same answer");
}
fn w_c26_again_pos() {
    asked_twice(|r| r.j.get_current() as u64, "asking again gives the same answer");
}
fn w_c26_unbound_pending_address() {
    // refused, and nothing is written first
    let mut r = rich();
    v::panics(true);
    let s = v::snap(&r.j);
    v::confine("C26", 0, 0, "a refused query stores nothing");
    let _ = r.j.get_label_address(r.pending);
    v::same("C26", s, &r.j, "asking for an unbound label does not bind it");
    v::never("C26", "an unbound label has no address");
}
fn w_c26_unbound_pending_addr() {
    // refused, and nothing is written first
    let mut r = rich();
    v::panics(true);
    let s = v::snap(&r.j);
    v::confine("C26", 0, 0, "a refused query stores nothing");
    let _ = r.j.get_label_addr::<u64, u64>(r.pending);
    v::same("C26", s, &r.j, "asking for an unbound label does not bind it");
    v::never("C26", "an unbound label has no address");
}
fn w_c26_unbound_pending_addr2() {
    // refused, and nothing is written first
    let mut r = rich();
    v::panics(true);
    let s = v::snap(&r.j);
    v::confine("C26", 0, 0, "a refused query stores nothing");
    let _ = r.j.get_label_addr2::<u64, u64, u64>(r.pending);
    v::same("C26", s, &r.j, "asking for an unbound label does not bind it");
    v::never("C26", "an unbound label has no address");
}
fn w_c26_unbound_pending_u64() {
    // refused, and nothing is written first
    let mut r = rich();
    v::panics(true);
    let s = v::snap(&r.j);
    v::confine("C26", 0, 0, "a refused query stores nothing");
    let _ = r.j.get_label_u64(r.pending);
    v::same("C26", s, &r.j, "asking for an unbound label does not bind it");
    v::never("C26", "an unbound label has no address");
}
fn w_c26_unbound_queued_address() {
    // refused, and nothing is written first
    let mut r = rich();
    v::panics(true);
    let s = v::snap(&r.j);
    v::confine("C26", 0, 0, "a refused query stores nothing");
    let _ = r.j.get_label_address(r.queued);
    v::same("C26", s, &r.j, "asking for an unbound label does not bind it");
    v::never("C26", "an unbound label has no address");
}
fn w_c26_unbound_queued_addr() {
    // refused, and nothing is written first
    let mut r = rich();
    v::panics(true);
    let s = v::snap(&r.j);
    v::confine("C26", 0, 0, "a refused query stores nothing");
    let _ = r.j.get_label_addr::<u64, u64>(r.queued);
    v::same("C26", s, &r.j, "asking for an unbound label does not bind it");
    v::never("C26", "an unbound label has no address");
}
fn w_c26_unbound_queued_addr2() {
    // refused, and nothing is written first
    let mut r = rich();
    v::panics(true);
    let s = v::snap(&r.j);
    v::confine("C26", 0, 0, "a refused query stores nothing");
    let _ = r.j.get_label_addr2::<u64, u64, u64>(r.queued);
    v::same("C26", s, &r.j, "asking for an unbound label does not bind it");
    v::never("C26", "an unbound label has no address");
}
fn w_c26_unbound_queued_u64() {
    // refused, and nothing is written first
    let mut r = rich();
    v::panics(true);
    let s = v::snap(&r.j);
    v::confine("C26", 0, 0, "a refused query stores nothing");
    let _ = r.j.get_label_u64(r.queued);
    v::same("C26", s, &r.j, "asking for an unbound label does not bind it");
    v::never("C26", "an unbound label has no address");
}
fn w_c26_later_code() {
    // what is generated later is the same whether or not queries were made
    let mut r = rich();
    let _ = r.j.get_label_u64(r.late);
    let _ = r.j.get_label_address(r.late);
    let _ = r.j.get_label_addr::<u64, u64>(r.late);
    let _ = r.j.get_label_addr2::<u64, u64, u64>(r.late);
    let _ = r.j.get_label_u64(r.bound);
    let _ = r.j.as_slice();
    let _ = r.j.get_current_address();
    let at = r.j.get_label_u64(r.late);
    r.j.finalize();
    v::eq("C26", rd64(r.j.get_label_u64(r.slot)), at, "a slot resolved after the queries");
    v::eq("C26", r.j.get_label_u64(r.late), at, "a label after the queries");
    v::eq("C26", rd32(r.j.get_label_u64(r.queued)), 1, "a constant placed after the queries");
}
fn w_c26_index() {
    let w = any();
    v::panics(true);
    let s = v::snap(&w.j);
    let k: usize = v::any("k");
    v::mark();
    let _ = w.j[Pos::from(k)];
    let _ = w.j[Page(1)][Pos::from(k)];
    v::same("C26", s, &w.j, "reading a byte changes nothing");
}
fn w_c26_code_ptr() {
    let w = any();
    let s = v::snap(&w.j);
    room(&w.j, 64);
    v::mark();
    let a = w.j.get_current_address();
    let b = a + 5;
    let _ = b - a;
    let _ = a < b;
    let _ = a == b;
    let _ = a.as_ptr();
    v::same("C26", s, &w.j, "code address arithmetic changes nothing");
}
