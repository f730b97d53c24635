// helpers shared by the state witnesses
/// an assembler in an arbitrary state, with one label bound at an arbitrary place and one pending reference
struct W {
    j: JitMemory,
    bound: DestLabel,
    scratch: DestLabel,
    pending: DestLabel,
}
#[derive(Clone, Copy)]
struct Obs {
    page: usize,
    cur: usize,
    at: u64,
    other: usize,
    other_at: u64,
    data: u64,
    bound: u64,
}
/// any state in which the cursors are within their pages (the induction hypothesis; C13 is the induction step)
fn hv(j: &mut JitMemory) {
    let data = j.label();
    v::havoc(j);
    let p = j.get_page();
    v::assume(p < 2);
    j.bind_label_with_page(Page(2), data);
    v::assume(j.get_label_u64(data) <= v::region_base() + v::region_size());
    v::assume(j.get_current() <= v::page_size());
    j.select_page(1 - p);
    v::assume(j.get_current() <= v::page_size());
    j.select_page(p);
}
fn any() -> W {
    let mut j = JitMemory::new();
    let bound = j.label();
    let scratch = j.label();
    let pending = j.label();
    hv(&mut j);
    j.bind_label(bound);
    j.const_i32(7);
    room(&j, 16);
    monoasm! { &mut j,
        jmp pending;
    }
    hv(&mut j);
    W { j, bound, scratch, pending }
}
fn room(j: &JitMemory, n: usize) {
    v::assume(j.get_current() + n <= v::page_size());
}
fn rd8(a: u64) -> u64 {
    unsafe { (a as *const u8).read() as u64 }
}
fn rd16(a: u64) -> u64 {
    unsafe { (a as *const u16).read_unaligned() as u64 }
}
fn rd32(a: u64) -> u64 {
    unsafe { (a as *const u32).read_unaligned() as u64 }
}
fn rd64(a: u64) -> u64 {
    unsafe { (a as *const u64).read_unaligned() }
}
fn addr(j: &JitMemory) -> u64 {
    j.get_current_address().as_ptr() as u64
}
fn data_cursor(w: &mut W) -> u64 {
    w.j.bind_label_with_page(Page(2), w.scratch);
    w.j.get_label_u64(w.scratch)
}
fn observe(w: &mut W) -> Obs {
    let data = data_cursor(w);
    let page = w.j.get_page();
    let cur = w.j.get_current();
    let at = addr(&w.j);
    let bound = w.j.get_label_u64(w.bound);
    w.j.select_page(1 - page);
    let other = w.j.get_current();
    let other_at = addr(&w.j);
    w.j.select_page(page);
    Obs { page, cur, at, other, other_at, data, bound }
}
/// everything observable is as before, except that the cursor of the current page advanced by n
fn frame(id: &str, w: &mut W, o: &Obs, n: usize) {
    v::eq(id, w.j.get_page() as u64, o.page as u64, "the selected page is unchanged");
    v::eq(id, w.j.get_current() as u64, (o.cur + n) as u64, "the cursor advances by exactly the size");
    v::eq(id, addr(&w.j), o.at + n as u64, "the cursor address advances by exactly the size");
    v::eq(id, w.j.get_label_u64(w.bound), o.bound, "bound labels keep their address");
    w.j.select_page(1 - o.page);
    v::eq(id, w.j.get_current() as u64, o.other as u64, "the other page's cursor is unchanged");
    v::eq(id, addr(&w.j), o.other_at, "the other page's cursor address is unchanged");
    w.j.select_page(o.page);
    let d = data_cursor(w);
    v::eq(id, d, o.data, "the data cursor is unchanged");
}

