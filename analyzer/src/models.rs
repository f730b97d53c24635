//! Built-in semantics: compiler intrinsics, the allocator and page-protection boundary, the
//! formatting machinery (opaque) and the witness vocabulary `v::*`.
use std::collections::HashMap;
use crate::dom::*;
use crate::interp::*;
use crate::mem::*;
use crate::spec;
use rustc_hir::def_id::DefId;
use rustc_middle::mir;
use rustc_middle::ty::layout::TyAndLayout;
use rustc_middle::ty::{self, Instance, Ty};
use std::rc::Rc;

pub enum M<'tcx> {
    Value(Cells<'tcx>),
    Jumped,
    Unknown,
}

#[derive(Clone, Debug)]
pub struct Snap<'tcx> {
    pub root: Cells<'tcx>,
    pub heap: Vec<(u64, Cells<'tcx>)>,
    pub log: usize,
    pub eff: usize,
}

#[derive(Clone, Debug)]
pub struct Eff {
    pub kind: &'static str,
    pub addr: Option<Aff>,
    pub len: Option<i128>,
    pub prot: u128,
    pub site: Rc<str>,
}

/// what the program asks of the outside world
#[derive(Clone, Debug)]
pub enum Io {
    /// a temporary file is created
    File,
    /// bytes are appended to it: address and length
    Write(Option<Aff>, Aff),
    Cmd(String),
    Arg(String),
    Run(Rc<str>),
}
pub const TMP_PATH: &str = "/tmp/.verif-file";

/// the text of a string-like reference (str, OsStr, Path, String) in cells at an offset
fn text_at<'tcx>(cx: &mut Cx<'tcx, '_>, st: &mut State<'tcx>, cells: &Cells<'tcx>, off: u64) -> R<String> {
    let p = as_scalar(&st.env, &cells_read(&st.env, cells, off, 8), 8);
    let n = as_scalar(&st.env, &cells_read(&st.env, cells, off + 8, 8), 8);
    let (Sc::Ptr(id, o), Sc::Int(n)) = (p, n) else { return unsup("text argument") };
    let Some(n) = n.as_const(&st.env) else { return unsup("text argument") };
    let c = cx.read_base(st, &Base::Mem(id, o), n as u64)?;
    let mut s = String::new();
    for x in c {
        if let Sc::Int(v) = x.sc {
            let Some(k) = v.as_const(&st.env) else { return unsup("text argument") };
            for j in 0..x.size {
                s.push(((k >> (8 * j)) & 0xff) as u8 as char);
            }
        }
    }
    Ok(s)
}
fn is_text(t: Ty<'_>) -> bool {
    match t.kind() {
        ty::Ref(_, u, _) => match u.kind() {
            ty::Str => true,
            ty::Adt(d, _) => format!("{:?}", d).contains("OsStr") || format!("{:?}", d).contains("Path"),
            _ => false,
        },
        _ => false,
    }
}
fn fill<'tcx>(out: &mut Cells<'tcx>, env: &Env, off: u64, size: u64) {
    for i in 0..size {
        cells_write(env, out, off + i, 1, &[Cell { off: 0, size: 1, sc: Sc::Int(IntVal::c(8, 1)) }]);
    }
}
fn static_text<'tcx>(cx: &mut Cx<'tcx, '_>, st: &mut State<'tcx>, s: &str) -> R<Cells<'tcx>> {
    let id = cx.alloc(st, s.len() as u64, true);
    let cells: Cells<'tcx> = s.bytes().enumerate().map(|(i, b)| Cell { off: i as u64, size: 1, sc: Sc::Int(IntVal::c(8, b as u128)) }).collect();
    cx.write_base(st, &Base::Mem(id, 0), s.len() as u64, &cells)?;
    Ok(vec![Cell { off: 0, size: 8, sc: Sc::Ptr(id, 0) }, Cell { off: 8, size: 8, sc: Sc::Int(IntVal::c(64, s.len() as u128)) }])
}

/// files and processes: nothing is touched, what is asked for is recorded
fn outside<'tcx>(cx: &mut Cx<'tcx, '_>, st: &mut State<'tcx>, path: &str, args: &Args<'tcx>, dest: &Pl<'tcx>) -> R<Option<M<'tcx>>> {
    let name = last(path);
    let site = cx.site_short(st);
    let tmp = path.contains("NamedTempFile");
    if tmp && name == "new" && args.is_empty() {
        if st.io.iter().any(|x| matches!(x, Io::File)) {
            return unsup("more than one temporary file");
        }
        Rc::make_mut(&mut st.io).push(Io::File);
        let mut out: Cells<'tcx> = vec![];
        fill(&mut out, &st.env, 0, dest.lay.size.bytes());
        if let Some(t) = cx.tag_for(&dest.lay, rustc_abi::VariantIdx::from_usize(0))? {
            let c0 = Cell { off: 0, size: t.size, sc: t.sc };
            cells_write(&st.env, &mut out, t.off, t.size, &[c0]);
        }
        return Ok(Some(M::Value(out)));
    }
    if tmp && name == "path" {
        return Ok(Some(M::Value(static_text(cx, st, TMP_PATH)?)));
    }
    if tmp && (name == "write_all" || name == "flush") {
        if name == "write_all" {
            let p = as_scalar(&st.env, &cells_read(&st.env, &args[1].0, 0, 8), 8);
            let n = as_scalar(&st.env, &cells_read(&st.env, &args[1].0, 8, 8), 8);
            let Sc::Int(n) = n else { return unsup("length of what is written") };
            let Some(n) = n.exact(&st.env, false) else { return unsup("length of what is written") };
            let addr = match p {
                Sc::Int(v) => cx.addr_aff(st, &v).ok(),
                _ => None,
            };
            Rc::make_mut(&mut st.io).push(Io::Write(addr, n));
        }
        let c = result_cells(cx, st, &dest.lay, true)?;
        // io::Result<()>: Ok is the null representation
        let mut out: Cells<'tcx> = vec![];
        for i in 0..dest.lay.size.bytes() {
            cells_write(&st.env, &mut out, i, 1, &[Cell { off: 0, size: 1, sc: Sc::Int(IntVal::c(8, 0)) }]);
        }
        for x in c {
            let c0 = Cell { off: 0, size: x.size, sc: x.sc };
            cells_write(&st.env, &mut out, x.off, x.size, &[c0]);
        }
        return Ok(Some(M::Value(out)));
    }
    if name == "from_utf8" && args.len() == 1 && text_at(cx, st, &args[0].0, 0)?.is_ascii() {
        let vi = rustc_abi::VariantIdx::from_usize(0);
        let off = cx.variant(&dest.lay, vi).fields.offset(0).bytes();
        let mut out: Cells<'tcx> = vec![];
        cells_write(&st.env, &mut out, off, 16, &args[0].0);
        if let Some(t) = cx.tag_for(&dest.lay, vi)? {
            let c0 = Cell { off: 0, size: t.size, sc: t.sc };
            cells_write(&st.env, &mut out, t.off, t.size, &[c0]);
        }
        return Ok(Some(M::Value(out)));
    }
    if path.contains("process::Command") {
        match name {
            "new" => {
                if !is_text(args[0].1.ty) {
                    return unsup("program name");
                }
                let s = text_at(cx, st, &args[0].0, 0)?;
                Rc::make_mut(&mut st.io).push(Io::Cmd(s));
                let mut out: Cells<'tcx> = vec![];
                fill(&mut out, &st.env, 0, dest.lay.size.bytes());
                return Ok(Some(M::Value(out)));
            }
            "arg" => {
                if !is_text(args[1].1.ty) {
                    return unsup("argument of a command");
                }
                let s = text_at(cx, st, &args[1].0, 0)?;
                Rc::make_mut(&mut st.io).push(Io::Arg(s));
                return Ok(Some(M::Value(args[0].0.clone())));
            }
            "args" => {
                let ty::Array(t, _) = args[1].1.ty.kind() else { return unsup("arguments of a command") };
                if !is_text(*t) {
                    return unsup("arguments of a command");
                }
                let n = args[1].1.size.bytes() / 16;
                for i in 0..n {
                    let s = text_at(cx, st, &args[1].0, i * 16)?;
                    Rc::make_mut(&mut st.io).push(Io::Arg(s));
                }
                return Ok(Some(M::Value(args[0].0.clone())));
            }
            "output" => {
                Rc::make_mut(&mut st.io).push(Io::Run(site));
                // the outcome is not followed: an error stands for every outcome
                let mut out: Cells<'tcx> = vec![];
                let vi = rustc_abi::VariantIdx::from_usize(1);
                let vl = cx.variant(&dest.lay, vi);
                let off = vl.fields.offset(0).bytes();
                cells_write(&st.env, &mut out, off, 8, &[Cell { off: 0, size: 8, sc: Sc::Int(IntVal::c(64, 0x0000_0002_0000_0002)) }]);
                if let Some(t) = cx.tag_for(&dest.lay, vi)? {
                    let c0 = Cell { off: 0, size: t.size, sc: t.sc };
                    cells_write(&st.env, &mut out, t.off, t.size, &[c0]);
                }
                return Ok(Some(M::Value(out)));
            }
            _ => {}
        }
    }
    Ok(None)
}

fn int_vars(env: &Env, vs: &[&IntVal]) -> Vec<VarId> {
    let mut out = vec![];
    for v in vs {
        out.extend(v.vars(env).unwrap_or_default());
        if let Rep::Aff(a) = &v.r {
            out.extend(aff_vars(a));
        }
    }
    out
}

pub const BIG: u64 = 1 << 20;

fn last(path: &str) -> &str {
    let p = path.split('<').next().unwrap_or(path);
    let _ = p;
    path.rsplit("::").next().unwrap_or(path)
}

type Args<'tcx> = Vec<(Cells<'tcx>, TyAndLayout<'tcx>)>;

fn sc<'tcx>(st: &State<'tcx>, a: &Args<'tcx>, i: usize) -> Sc<'tcx> {
    let (c, l) = &a[i];
    as_scalar(&st.env, c, l.size.bytes())
}
fn thin<'tcx>(st: &State<'tcx>, a: &Args<'tcx>, i: usize) -> Sc<'tcx> {
    as_scalar(&st.env, &cells_read(&st.env, &a[i].0, 0, 8), 8)
}
fn int<'tcx>(st: &State<'tcx>, a: &Args<'tcx>, i: usize, what: &str) -> R<IntVal> {
    match sc(st, a, i) {
        Sc::Int(v) => Ok(v),
        x => unsup(format!("{}: argument {} is {:?}", what, i, x)),
    }
}
fn word<'tcx>(v: Sc<'tcx>) -> Cells<'tcx> {
    vec![Cell { off: 0, size: 8, sc: v }]
}
fn ival<'tcx>(v: IntVal) -> Cells<'tcx> {
    vec![Cell { off: 0, size: (v.w / 8) as u64, sc: Sc::Int(v) }]
}
fn bool_<'tcx>(v: bool) -> Cells<'tcx> {
    ival(IntVal::b(v))
}

pub fn opaque<'tcx>(lay: &TyAndLayout<'tcx>) -> Cells<'tcx> {
    let n = lay.size.bytes();
    if n == 0 {
        vec![]
    } else {
        vec![Cell { off: 0, size: n, sc: Sc::Opaque }]
    }
}

/// read a `&'static str` argument
fn strarg<'tcx>(cx: &mut Cx<'tcx, '_>, st: &mut State<'tcx>, a: &Args<'tcx>, i: usize) -> R<String> {
    let p = as_scalar(&st.env, &cells_read(&st.env, &a[i].0, 0, 8), 8);
    let n = as_scalar(&st.env, &cells_read(&st.env, &a[i].0, 8, 8), 8);
    let (Sc::Ptr(id, o), Sc::Int(n)) = (p, n) else { return unsup("string argument") };
    let n = n.as_const(&st.env).unwrap_or(0) as u64;
    let c = cx.read_base(st, &Base::Mem(id, o), n)?;
    let mut s = String::new();
    for x in c {
        if let Sc::Int(v) = x.sc {
            let k = v.as_const(&st.env).unwrap_or(b'?' as u128);
            for j in 0..x.size {
                s.push(((k >> (8 * j)) & 0xff) as u8 as char);
            }
        }
    }
    Ok(s)
}

fn new_region<'tcx>(st: &mut State<'tcx>, size: i128, align: i128, zeroed: bool) -> Sc<'tcx> {
    let n = st.regions.len();
    let hi = ((1i128 << 47) - size) / align;
    let v = input_var(&format!("BASE{}", n), ISet::range((1 << 20) / align.min(1 << 20) + 1, hi));
    st.regions.push(Region { var: v, align, size, zeroed });
    Sc::Int(IntVal::aff(64, Aff { k: 0, t: vec![(v, align)] }))
}

fn region_ptr<'tcx>(cx: &Cx<'tcx, '_>, st: &State<'tcx>, s: &Sc<'tcx>) -> Option<Aff> {
    if let Sc::Int(v) = s {
        let a = cx.addr_aff(st, v).ok()?;
        cx.region_of(st, &a)?;
        return Some(a);
    }
    None
}

fn eff<'tcx>(
    cx: &mut Cx<'tcx, '_>,
    st: &mut State<'tcx>,
    kind: &'static str,
    p: &Sc<'tcx>,
    len: Option<IntVal>,
    prot: u128,
) {
    let addr = match p {
        Sc::Int(v) => cx.addr_aff(st, v).ok(),
        _ => None,
    };
    let len = len.and_then(|l| l.as_const(&st.env)).map(|x| x as i128);
    let site = cx.site_short(st);
    Rc::make_mut(&mut st.effects).push(Eff { kind, addr, len, prot, site });
}

/// cells of `Result<(), E>` for Ok, or for Err with a field-less variant of E
fn result_cells<'tcx>(cx: &mut Cx<'tcx, '_>, st: &mut State<'tcx>, lay: &TyAndLayout<'tcx>, ok: bool) -> R<Cells<'tcx>> {
    let mut out: Cells<'tcx> = vec![];
    let vi = rustc_abi::VariantIdx::from_usize(if ok { 0 } else { 1 });
    if !ok {
        let vl = cx.variant(lay, vi);
        if vl.fields.count() > 0 {
            let off = vl.fields.offset(0).bytes();
            let fl = cx.field_layout(&vl, 0);
            if let ty::Adt(d, _) = fl.ty.kind() {
                if d.is_enum() {
                    for (i, v) in d.variants().iter_enumerated() {
                        if v.fields.is_empty() {
                            if let Some(t) = cx.tag_for(&fl, i)? {
                                let c0 = Cell { off: 0, size: t.size, sc: t.sc };
                                cells_write(&st.env, &mut out, off + t.off, t.size, &[c0]);
                            }
                            break;
                        }
                    }
                }
            }
        }
    }
    if let Some(t) = cx.tag_for(lay, vi)? {
        let c0 = Cell { off: 0, size: t.size, sc: t.sc };
        cells_write(&st.env, &mut out, t.off, t.size, &[c0]);
    }
    Ok(out)
}

fn choose<'tcx>(cx: &mut Cx<'tcx, '_>, st: &mut State<'tcx>) -> R<bool> {
    // a free choice: told apart from others of the statement by its number
    st.cur += 1;
    let e = st.env.clone();
    cx.outcomes(st, st.cur as u64, vec![(e.clone(), true), (e, false)])
}

pub fn model<'tcx>(
    cx: &mut Cx<'tcx, '_>,
    st: &mut State<'tcx>,
    path: &str,
    inst: Instance<'tcx>,
    args: &Args<'tcx>,
    dest: &Pl<'tcx>,
    target: Option<mir::BasicBlock>,
) -> R<M<'tcx>> {
    let d = inst.def_id();
    if let ty::InstanceKind::Shim(_) = inst.def {
        return Ok(M::Unknown);
    }
    if let Some(i) = cx.tcx.intrinsic(d) {
        return intrinsic(cx, st, i.name.as_str(), inst, args, dest, target);
    }
    let krate = cx.tcx.crate_name(d.krate);
    let name = last(path);
    if matches!(krate.as_str(), "std" | "tempfile") || krate.as_str() == "core" && name == "from_utf8" {
        if let Some(m) = outside(cx, st, path, args, dest)? {
            return Ok(m);
        }
    }
    match krate.as_str() {
        "core" | "alloc" | "std" => {}
        "region" => {
            if name == "protect" {
                let p = sc(st, args, 0);
                let n = int(st, args, 1, "protect")?;
                let prot = match sc(st, args, 2) {
                    Sc::Int(v) => match v.as_const(&st.env) {
                        Some(k) => k,
                        None => return unsup("protection value"),
                    },
                    _ => return unsup("protection value"),
                };
                // memory that was never obtained cannot be protected
                let ok = region_ptr(cx, st, &p).is_some() && if st.faults { choose(cx, st)? } else { true };
                if ok {
                    eff(cx, st, "protect", &p, Some(n), prot);
                } else {
                    st.failed = true;
                }
                let c = result_cells(cx, st, &dest.lay, ok)?;
                return Ok(M::Value(c));
            }
        }
        "libc" => match name {
            "mprotect" => {
                let p = sc(st, args, 0);
                let n = int(st, args, 1, "mprotect")?;
                let prot = int(st, args, 2, "mprotect")?.as_const(&st.env).unwrap_or(255);
                // memory that was never obtained cannot be protected
                let ok = region_ptr(cx, st, &p).is_some() && if st.faults { choose(cx, st)? } else { true };
                if ok {
                    eff(cx, st, "protect", &p, Some(n), prot);
                } else {
                    st.failed = true;
                }
                return Ok(M::Value(ival(IntVal::ci(32, if ok { 0 } else { -1 }))));
            }
            "mmap" => {
                let n = int(st, args, 1, "mmap")?;
                let prot = int(st, args, 2, "mmap")?.as_const(&st.env).unwrap_or(255);
                let Some(k) = n.as_const(&st.env) else { return unsup("mmap size") };
                let ok = if st.faults { choose(cx, st)? } else { true };
                if !ok {
                    st.failed = true;
                    return Ok(M::Value(ival(IntVal::ci(64, -1))));
                }
                let p = new_region(st, k as i128, 4096, true);
                eff(cx, st, "protect", &p, Some(n), prot);
                return Ok(M::Value(word(p)));
            }
            "munmap" | "free" | "madvise" => {
                let p = sc(st, args, 0);
                eff(cx, st, "free", &p, None, 0);
                return Ok(M::Value(opaque(&dest.lay)));
            }
            _ => {}
        },
        _ => {
            if let Some(f) = path.rsplit("::").nth(1) {
                if f == "v" {
                    return vocab(cx, st, name, inst, args, dest);
                }
            }
            return Ok(M::Unknown);
        }
    }
    match name {
        "__rust_alloc" | "__rust_alloc_zeroed" | "__rustc_alloc" => {
            let n = int(st, args, 0, "alloc")?;
            let al = match sc(st, args, 1) {
                Sc::Int(v) => v.as_const(&st.env).unwrap_or(1),
                _ => 1,
            };
            let Some(k) = n.as_const(&st.env) else { return unsup(format!("allocation of {} bytes", n.show(&st.env))) };
            let z = name.ends_with("zeroed");
            if k as u64 >= BIG {
                if st.faults && !choose(cx, st)? {
                    st.failed = true;
                    return Ok(M::Value(word(Sc::Int(IntVal::c(64, 0)))));
                }
                let p = new_region(st, k as i128, (al as i128).max(1), z);
                return Ok(M::Value(word(p)));
            }
            let id = cx.alloc(st, k as u64, true);
            if z {
                let mut cells = vec![];
                for i in 0..k as u64 {
                    cells.push(Cell { off: i, size: 1, sc: Sc::Int(IntVal::c(8, 0)) });
                }
                cx.write_base(st, &Base::Mem(id, 0), k as u64, &cells)?;
            }
            return Ok(M::Value(word(Sc::Ptr(id, 0))));
        }
        "__rust_dealloc" => {
            let p = thin(st, args, 0);
            match p {
                Sc::Ptr(id, _) => {
                    if let Some(Some(a)) = st.allocs.get(id as usize) {
                        if a.heap {
                            st.allocs[id as usize] = None;
                        }
                    }
                }
                p => eff(cx, st, "free", &p, None, 0),
            }
            return Ok(M::Value(vec![]));
        }
        "__rust_realloc" => {
            let p = thin(st, args, 0);
            let n = int(st, args, 3, "realloc")?;
            let Some(k) = n.as_const(&st.env) else { return unsup("realloc size") };
            let Sc::Ptr(id, 0) = p else {
                eff(cx, st, "free", &p, None, 0);
                return unsup("realloc of the code region");
            };
            let Some(Some(a)) = st.allocs.get(id as usize).cloned() else { return unsup("realloc") };
            let nid = cx.alloc(st, k as u64, true);
            let m = a.size.min(k as u64);
            let c = cells_read(&st.env, &a.cells, 0, m);
            cx.write_base(st, &Base::Mem(nid, 0), m, &c)?;
            st.allocs[id as usize] = None;
            return Ok(M::Value(word(Sc::Ptr(nid, 0))));
        }
        // hashing keys: any choice
        "hashmap_random_keys" => {
            return Ok(M::Value(vec![
                Cell { off: 0, size: 8, sc: Sc::Int(IntVal::c(64, 0)) },
                Cell { off: 8, size: 8, sc: Sc::Int(IntVal::c(64, 0)) },
            ]))
        }
        n if n.starts_with("__rust_no_alloc_shim") => return Ok(M::Value(vec![])),
        _ => {}
    }
    if (path.contains("::fmt::") || path.contains("std::io::") || path.contains("std::backtrace")) && target.is_some() {
        // formatting and printing do not affect the assembler; writing to memory is followed
        let memory = path.contains("Vec<u8") || path.contains("[u8]") || path.contains("ursor") || {
            let t = inst.args.types().next().map(|t| format!("{}", t)).unwrap_or_default();
            t.contains("Vec<u8") || t.contains("[u8]") || t.contains("ursor")
        };
        if !path.contains("Alignment") && !(path.contains("std::io::") && memory) {
            return Ok(M::Value(opaque(&dest.lay)));
        }
    }
    if target.is_some() && matches!(name, "catch_unwind" | "spawn") {
        return unsup(path.to_string());
    }
    Ok(M::Unknown)
}

fn copy<'tcx>(cx: &mut Cx<'tcx, '_>, st: &mut State<'tcx>, src: &Sc<'tcx>, dst: &Sc<'tcx>, n: u64) -> R<()> {
    if n == 0 {
        return Ok(());
    }
    let s = cx.base_of(src)?;
    let d = cx.base_of(dst)?;
    let c = cx.read_base(st, &s, n)?;
    cx.write_base(st, &d, n, &c)
}

fn intrinsic<'tcx>(
    cx: &mut Cx<'tcx, '_>,
    st: &mut State<'tcx>,
    name: &str,
    inst: Instance<'tcx>,
    args: &Args<'tcx>,
    dest: &Pl<'tcx>,
    target: Option<mir::BasicBlock>,
) -> R<M<'tcx>> {
    let t0 = || inst.args.types().next();
    let ds = dest.lay.size.bytes();
    let lay0 = |cx: &Cx<'tcx, '_>| -> R<TyAndLayout<'tcx>> {
        match inst.args.types().next() {
            Some(t) => cx.layout(t),
            None => unsup("intrinsic type"),
        }
    };
    let v = match name {
        "size_of" => ival(IntVal::c(64, lay0(cx)?.size.bytes() as u128)),
        "align_of" | "min_align_of" | "pref_align_of" => ival(IntVal::c(64, lay0(cx)?.align.abi.bytes() as u128)),
        "align_of_val" | "min_align_of_val" => ival(IntVal::c(64, lay0(cx)?.align.abi.bytes() as u128)),
        "size_of_val" => {
            let l = lay0(cx)?;
            if l.is_sized() {
                ival(IntVal::c(64, l.size.bytes() as u128))
            } else {
                let el = match l.ty.kind() {
                    ty::Slice(t) => cx.layout(*t)?.size.bytes(),
                    ty::Str => 1,
                    _ => return unsup("size_of_val"),
                };
                let m = as_scalar(&st.env, &cells_read(&st.env, &args[0].0, 8, 8), 8);
                let Sc::Int(m) = m else { return unsup("size_of_val") };
                ival(m.mul(&st.env, &IntVal::c(64, el as u128)))
            }
        }
        "needs_drop" => {
            let t = t0().unwrap();
            bool_(if st.full_drop { t.needs_drop(cx.tcx, cx.env) } else { cx.has_subject_drop(t, 0) })
        }
        "ub_checks" | "contract_checks" | "overflow_checks" | "is_val_statically_known" => bool_(false),
        "likely" | "unlikely" | "black_box" => args[0].0.clone(),
        "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "forget" => vec![],
        "assume" => {
            let c = int(st, args, 0, name)?;
            if !cx.decide(st, Cmp::Ne, false, &c, &IntVal::b(false))? {
                return Err(Stop::Kill);
            }
            vec![]
        }
        "type_id" | "type_name" | "caller_location" => opaque(&dest.lay),
        "transmute" | "transmute_unchecked" => args[0].0.clone(),
        "abort" | "breakpoint" => return Err(Stop::Panic(name.to_string())),
        "unreachable" => return Err(Stop::Kill),
        "copy_nonoverlapping" | "copy" | "volatile_copy_memory" => {
            let es = lay0(cx)?.size.bytes();
            let n = int(st, args, 2, name)?;
            let n = cx.decide_value(st, &n, "copy count")? as u64;
            let (s, d) = (sc(st, args, 0), sc(st, args, 1));
            copy(cx, st, &s, &d, n * es)?;
            vec![]
        }
        "write_bytes" => {
            let es = lay0(cx)?.size.bytes();
            let n = int(st, args, 2, name)?;
            let n = cx.decide_value(st, &n, "fill count")? as u64 * es;
            let b = int(st, args, 1, name)?;
            if n > 1 << 20 {
                return unsup("large fill");
            }
            let p = sc(st, args, 0);
            let base = cx.base_of(&p)?;
            let cells: Cells = (0..n).map(|i| Cell { off: i, size: 1, sc: Sc::Int(b.clone()) }).collect();
            cx.write_base(st, &base, n, &cells)?;
            vec![]
        }
        "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => {
            let p = sc(st, args, 0);
            let b = cx.base_of(&p)?;
            cx.read_base(st, &b, ds)?
        }
        "atomic_load" => {
            let p = sc(st, args, 0);
            let b = cx.base_of(&p)?;
            cx.read_base(st, &b, ds)?
        }
        "atomic_store" => {
            let p = sc(st, args, 0);
            let b = cx.base_of(&p)?;
            let n = args[1].1.size.bytes();
            cx.write_base(st, &b, n, &args[1].0)?;
            vec![]
        }
        "atomic_fence" | "atomic_singlethreadfence" => vec![],
        "atomic_xchg" | "atomic_xadd" | "atomic_xsub" | "atomic_and" | "atomic_or" | "atomic_xor" => {
            let p = sc(st, args, 0);
            let b = cx.base_of(&p)?;
            let n = args[1].1.size.bytes();
            let old = cx.read_base(st, &b, n)?;
            let a = as_scalar(&st.env, &old, n);
            let x = sc(st, args, 1);
            let op = match name {
                "atomic_xadd" => Some(mir::BinOp::Add),
                "atomic_xsub" => Some(mir::BinOp::Sub),
                "atomic_and" => Some(mir::BinOp::BitAnd),
                "atomic_or" => Some(mir::BinOp::BitOr),
                "atomic_xor" => Some(mir::BinOp::BitXor),
                _ => None,
            };
            let r = match op {
                Some(op) => cx.binop(st, op, &a, &x, args[1].1.ty)?,
                None => x,
            };
            cx.write_base(st, &b, n, &[Cell { off: 0, size: n, sc: r }])?;
            old
        }
        "atomic_umax" | "atomic_umin" | "atomic_max" | "atomic_min" => {
            let p = sc(st, args, 0);
            let b = cx.base_of(&p)?;
            let n = args[1].1.size.bytes();
            let old = cx.read_base(st, &b, n)?;
            let (Sc::Int(a), Sc::Int(x)) = (as_scalar(&st.env, &old, n), sc(st, args, 1)) else { return unsup(name) };
            let less = cx.decide(st, Cmp::Lt, !name.contains("_u"), &a, &x)?;
            if less == name.contains("max") {
                cx.write_base(st, &b, n, &args[1].0)?;
            }
            old
        }
        "atomic_cxchg" | "atomic_cxchgweak" => {
            let p = sc(st, args, 0);
            let b = cx.base_of(&p)?;
            let n = args[1].1.size.bytes();
            let old = cx.read_base(st, &b, n)?;
            let a = as_scalar(&st.env, &old, n);
            let x = sc(st, args, 1);
            let e = cx.binop(st, mir::BinOp::Eq, &a, &x, args[1].1.ty)?;
            let Sc::Int(e) = e else { return unsup("compare and exchange") };
            let same = match e.as_const(&st.env) {
                Some(k) => k,
                None => cx.decide_value(st, &e, name)?,
            };
            if same != 0 {
                cx.write_base(st, &b, n, &args[2].0)?;
            }
            let mut out = old;
            let off = dest.lay.fields.offset(1).bytes();
            out.push(Cell { off, size: 1, sc: Sc::Int(IntVal::c(8, same)) });
            out
        }
        "write_via_move" | "volatile_store" | "unaligned_volatile_store" => {
            let p = sc(st, args, 0);
            let b = cx.base_of(&p)?;
            let n = args[1].1.size.bytes();
            if n > 0 {
                cx.write_base(st, &b, n, &args[1].0)?;
            }
            vec![]
        }
        "offset" | "arith_offset" | "ptr_offset" => {
            let es = match args[0].1.ty.builtin_deref(true) {
                Some(t) => cx.layout(t)?.size.bytes(),
                None => return unsup("offset"),
            };
            let p = sc(st, args, 0);
            let i = int(st, args, 1, name)?;
            if es == 0 {
                args[0].0.clone()
            } else {
                let b = cx.base_of(&p)?;
                let nb = cx.offset_base(st, &b, &i, es)?;
                word(cx.ptr_of(&nb))
            }
        }
        "ptr_offset_from" | "ptr_offset_from_unsigned" => {
            let es = lay0(cx)?.size.bytes().max(1);
            match (sc(st, args, 0), sc(st, args, 1)) {
                (Sc::Ptr(a, i), Sc::Ptr(b, j)) if a == b => ival(IntVal::ci(64, ((i - j) / es as i64) as i128)),
                (Sc::Int(a), Sc::Int(b)) => {
                    let d = a.add(&st.env, &b, true);
                    if es == 1 {
                        ival(d)
                    } else {
                        ival(cx.arith(st, '/', false, &d, &IntVal::c(64, es as u128))?)
                    }
                }
                _ => return unsup("distance of unrelated pointers"),
            }
        }
        "ptr_mask" => {
            let (Sc::Int(a), Sc::Int(b)) = (sc(st, args, 0), sc(st, args, 1)) else { return unsup(name) };
            ival(a.bitop(&st.env, &b, '&'))
        }
        "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "unchecked_add" | "unchecked_sub" | "unchecked_mul" => {
            let op = if name.ends_with("add") {
                mir::BinOp::Add
            } else if name.ends_with("sub") {
                mir::BinOp::Sub
            } else {
                mir::BinOp::Mul
            };
            let (a, b) = (sc(st, args, 0), sc(st, args, 1));
            let r = cx.binop(st, op, &a, &b, args[0].1.ty)?;
            vec![Cell { off: 0, size: ds, sc: r }]
        }
        "unchecked_shl" | "unchecked_shr" | "unchecked_div" | "unchecked_rem" | "exact_div" => {
            let op = match name {
                "unchecked_shl" => mir::BinOp::Shl,
                "unchecked_shr" => mir::BinOp::Shr,
                "unchecked_rem" => mir::BinOp::Rem,
                _ => mir::BinOp::Div,
            };
            let (a, b) = (sc(st, args, 0), sc(st, args, 1));
            let r = cx.binop(st, op, &a, &b, args[0].1.ty)?;
            vec![Cell { off: 0, size: ds, sc: r }]
        }
        "disjoint_bitor" => {
            let (a, b) = (int(st, args, 0, name)?, int(st, args, 1, name)?);
            ival(a.bitop(&st.env, &b, '|'))
        }
        "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
            let ch = match name.as_bytes()[0] {
                b'a' => '+',
                b's' => '-',
                _ => '*',
            };
            let (a, b) = (sc(st, args, 0), sc(st, args, 1));
            cx.with_overflow(st, ch, args[0].1.ty, &a, &b)?
        }
        "saturating_add" | "saturating_sub" => {
            let ch = if name.ends_with("add") { '+' } else { '-' };
            let ty = args[0].1.ty;
            let (a, b) = (int(st, args, 0, name)?, int(st, args, 1, name)?);
            let signed = ty.is_signed();
            let ov = cx.overflows(st, ch, signed, &a, &b)?;
            if ov {
                if signed {
                    return unsup("signed saturation");
                }
                ival(if ch == '+' { IntVal::c(a.w, mask(a.w)) } else { IntVal::c(a.w, 0) })
            } else {
                ival(cx.arith(st, ch, signed, &a, &b)?)
            }
        }
        "rotate_left" | "rotate_right" => {
            let a = int(st, args, 0, name)?;
            let n = int(st, args, 1, name)?;
            let Some(n) = n.as_const(&st.env) else { return unsup(name) };
            let w = a.w;
            let n = (n as u32) % w;
            let n = if name == "rotate_left" { n } else { (w - n) % w };
            let b = a.bits(&st.env);
            let r = (0..w).map(|i| b[((i + w - n) % w) as usize]).collect();
            ival(IntVal::from_bits(&st.env, r))
        }
        "bswap" => {
            let a = int(st, args, 0, name)?;
            let b = a.bits(&st.env);
            let n = (a.w / 8) as usize;
            let mut r = vec![];
            for i in (0..n).rev() {
                r.extend_from_slice(&b[i * 8..i * 8 + 8]);
            }
            ival(IntVal::from_bits(&st.env, r))
        }
        "bitreverse" => {
            let a = int(st, args, 0, name)?;
            let b = a.bits(&st.env);
            ival(IntVal::from_bits(&st.env, b.into_iter().rev().collect()))
        }
        "ctpop" | "ctlz" | "cttz" | "ctlz_nonzero" | "cttz_nonzero" => {
            let a = int(st, args, 0, name)?;
            let w = a.w;
            let small = a.vars(&st.env).map_or(true, |v| v.len() == 1 && st.env.set_of(v[0]).size() <= 512)
                || a.exact(&st.env, false).map_or(false, |x| st.env.interval(&x).1 < 512);
            if a.as_const(&st.env).is_none() && !small {
                let op = match name {
                    "ctpop" => 'p',
                    "ctlz" | "ctlz_nonzero" => 'l',
                    _ => 't',
                };
                let r = term(&mut st.env, op, false, &a, &IntVal::c(w, 0));
                return Ok(M::Value(ival(r.resize(&st.env, false, (ds * 8) as u32))));
            }
            let k = match a.as_const(&st.env) {
                Some(k) => k,
                None => cx.decide_value(st, &a, name)?,
            };
            let r = match name {
                "ctpop" => k.count_ones(),
                "ctlz" | "ctlz_nonzero" => k.leading_zeros() - (128 - w),
                _ => {
                    if k == 0 {
                        w
                    } else {
                        k.trailing_zeros()
                    }
                }
            };
            ival(IntVal::c((ds * 8) as u32, r as u128))
        }
        "three_way_compare" => {
            let (a, b) = (sc(st, args, 0), sc(st, args, 1));
            let r = cx.binop(st, mir::BinOp::Cmp, &a, &b, args[0].1.ty)?;
            vec![Cell { off: 0, size: ds, sc: r }]
        }
        "raw_eq" | "compare_bytes" => {
            let n = if name == "raw_eq" {
                lay0(cx)?.size.bytes()
            } else {
                let n = int(st, args, 2, name)?;
                cx.decide_value(st, &n, name)? as u64
            };
            let (p, q) = (sc(st, args, 0), sc(st, args, 1));
            let mut res = 0i128;
            if n > 0 {
                let (p, q) = (cx.base_of(&p)?, cx.base_of(&q)?);
                for i in 0..n {
                    let (pb, qb) = (cx.base_add(st, &p, i as i64), cx.base_add(st, &q, i as i64));
                    let (Sc::Int(x), Sc::Int(y)) = (cx.read_scalar(st, &pb, 1)?, cx.read_scalar(st, &qb, 1)?) else {
                        return unsup(name);
                    };
                    if !cx.decide(st, Cmp::Eq, false, &x, &y)? {
                        res = if cx.decide(st, Cmp::Lt, false, &x, &y)? { -1 } else { 1 };
                        break;
                    }
                }
            }
            if name == "raw_eq" {
                bool_(res == 0)
            } else {
                ival(IntVal::ci(32, res))
            }
        }
        "discriminant_value" => {
            let p = sc(st, args, 0);
            let b = cx.base_of(&p)?;
            let lay = lay0(cx)?;
            let pl = Pl { base: b, meta: None, lay };
            let (_, dv) = cx.discriminant(st, &pl)?;
            ival(dv.resize(&st.env, false, (ds * 8) as u32))
        }
        "slice_get_unchecked" => {
            let p = thin(st, args, 0);
            let b = cx.base_of(&p)?;
            let i = int(st, args, 1, name)?;
            let es = match dest.lay.ty.builtin_deref(true) {
                Some(t) => cx.layout(t)?.size.bytes(),
                None => return unsup(name),
            };
            let nb = cx.offset_base(st, &b, &i, es)?;
            word(cx.ptr_of(&nb))
        }
        "select_unpredictable" => {
            let c = int(st, args, 0, name)?;
            if cx.decide(st, Cmp::Ne, false, &c, &IntVal::b(false))? {
                args[1].0.clone()
            } else {
                args[2].0.clone()
            }
        }
        "ptr_metadata" => cells_read(&st.env, &args[0].0, 8, ds),
        "aggregate_raw_ptr" => {
            let mut c = cells_read(&st.env, &args[0].0, 0, 8);
            if args[1].1.size.bytes() == 8 {
                for x in &args[1].0 {
                    c.push(Cell { off: 8 + x.off, size: x.size, sc: x.sc.clone() });
                }
            }
            c
        }
        "const_eval_select" => {
            let (tup, tl) = &args[0];
            let f = args[2].1.ty;
            let ty::FnDef(fd, ga) = *f.kind() else { return unsup(name) };
            let Some(ga) = ga.no_bound_vars() else { return unsup(name) };
            let i = Instance::expect_resolve(cx.tcx, cx.env, fd, ga, rustc_span::DUMMY_SP);
            let mut vals: Args<'tcx> = vec![];
            if let ty::Tuple(ts) = tl.ty.kind() {
                for (k, t) in ts.iter().enumerate() {
                    let fl = cx.layout(t)?;
                    let off = tl.fields.offset(k).bytes();
                    vals.push((cells_read(&st.env, tup, off, fl.size.bytes()), fl));
                }
            }
            cx.call_instance(st, i, vals, dest.clone(), target)?;
            return Ok(M::Jumped);
        }
        "box_new" => {
            let l = args[0].1;
            let id = cx.alloc(st, l.size.bytes(), true);
            if l.size.bytes() > 0 {
                cx.write_base(st, &Base::Mem(id, 0), l.size.bytes(), &args[0].0)?;
            }
            word(Sc::Ptr(id, 0))
        }
        "fabs" | "fabsf64" | "fabsf32" => match args[0].0.first().map(|c| &c.sc) {
            Some(Sc::Int(v)) => {
                let r = v.bitop(&st.env, &IntVal::c(v.w, (1u128 << (v.w - 1)) - 1), '&');
                vec![Cell { off: 0, size: v.w as u64 / 8, sc: Sc::Int(r) }]
            }
            _ => opaque(&dest.lay),
        },
        "float_to_int_unchecked" => opaque(&dest.lay),
        _ => return Ok(M::Unknown),
    };
    Ok(M::Value(v))
}

// ------------------------------------------------------------------ leaves of the subject's state
/// (path, offset, size, boolean?) of every integer leaf of types defined by the subject
pub fn leaves<'tcx>(cx: &mut Cx<'tcx, '_>, lay: &TyAndLayout<'tcx>, off: u64, path: &str, out: &mut Vec<(String, u64, u64, bool)>, depth: u32) -> R<()> {
    if depth > 12 {
        return Ok(());
    }
    match lay.ty.kind() {
        ty::Int(_) | ty::Uint(_) => out.push((path.to_string(), off, lay.size.bytes(), false)),
        ty::Bool => out.push((path.to_string(), off, 1, true)),
        ty::Adt(d, _) => {
            if !d.is_struct() || !cx.is_subject(d.did()) {
                return Ok(());
            }
            let names: Vec<String> = d.non_enum_variant().fields.iter().map(|f| f.name.to_string()).collect();
            for i in 0..lay.fields.count() {
                let fl = cx.field_layout(lay, i);
                let o = lay.fields.offset(i).bytes();
                let p = format!("{}.{}", path, names.get(i).cloned().unwrap_or_default());
                leaves(cx, &fl, off + o, &p, out, depth + 1)?;
            }
        }
        ty::Tuple(_) => {
            for i in 0..lay.fields.count() {
                let fl = cx.field_layout(lay, i);
                let o = lay.fields.offset(i).bytes();
                leaves(cx, &fl, off + o, &format!("{}.{}", path, i), out, depth + 1)?;
            }
        }
        ty::Array(t, _) => {
            let el = cx.layout(*t)?;
            let n = lay.fields.count();
            for i in 0..n.min(64) {
                leaves(cx, &el, off + i as u64 * el.size.bytes(), &format!("{}[{}]", path, i), out, depth + 1)?;
            }
        }
        _ => {}
    }
    Ok(())
}

fn has_base<'tcx>(cx: &Cx<'tcx, '_>, st: &State<'tcx>, v: &IntVal) -> bool {
    match v.to_aff(&st.env) {
        Some(a) => cx.region_of(st, &a).is_some(),
        None => false,
    }
}

fn pointee<'tcx>(cx: &mut Cx<'tcx, '_>, st: &State<'tcx>, args: &Args<'tcx>, i: usize) -> R<Pl<'tcx>> {
    let t = match args[i].1.ty.builtin_deref(true) {
        Some(t) => t,
        None => return unsup("reference argument"),
    };
    let lay = cx.layout(t)?;
    let p = thin(st, args, i);
    let base = cx.base_of(&p)?;
    Ok(Pl { base, meta: None, lay })
}

fn havoc<'tcx>(cx: &mut Cx<'tcx, '_>, st: &mut State<'tcx>, pl: &Pl<'tcx>) -> R<()> {
    let mut ls = vec![];
    let mut fresh: HashMap<String, VarId> = HashMap::new();
    leaves(cx, &pl.lay, 0, "", &mut ls, 0)?;
    for (p, off, size, _b) in ls {
        let b = cx.base_add(st, &pl.base, off as i64);
        let old = cx.read_scalar(st, &b, size)?;
        let Sc::Int(old) = old else { continue };
        if has_base(cx, st, &old) {
            continue;
        }
        let inv = cx.invariants.get(&p).cloned();
        let set = match inv {
            Some(s) => s,
            None => {
                // not covered by the inference: keep the value it has
                continue;
            }
        };
        if let Some(k) = set.as_single() {
            let c = Cell { off: 0, size, sc: Sc::Int(IntVal::ci((size * 8) as u32, k)) };
            cx.write_base(st, &b, size, &[c])?;
            continue;
        }
        let n = st.nhavoc;
        let v = input_var(&format!("{}'{}", p.trim_start_matches('.'), n), set);
        fresh.insert(p.clone(), v);
        let c = Cell { off: 0, size, sc: Sc::Int(IntVal::var((size * 8) as u32, v)) };
        cx.write_base(st, &b, size, &[c])?;
    }
    st.nhavoc += 1;
    for (a, b) in &cx.relations {
        if let (Some(x), Some(y)) = (fresh.get(a), fresh.get(b)) {
            if let Some(d) = Aff::var(*y).sub(&Aff::var(*x)) {
                Rc::make_mut(&mut st.env.rels).push(d);
            }
        }
    }
    Ok(())
}

fn snapshot<'tcx>(cx: &mut Cx<'tcx, '_>, st: &mut State<'tcx>, pl: &Pl<'tcx>) -> R<Snap<'tcx>> {
    let mut ids: Vec<AId> = vec![];
    let mut heap: Vec<(u64, Cells<'tcx>)> = vec![];
    let renum = |cells: &Cells<'tcx>, ids: &mut Vec<AId>| -> Cells<'tcx> {
        cells
            .iter()
            .map(|c| match &c.sc {
                Sc::Ptr(a, o) => {
                    let k = match ids.iter().position(|x| x == a) {
                        Some(k) => k,
                        None => {
                            ids.push(*a);
                            ids.len() - 1
                        }
                    };
                    Cell { off: c.off, size: c.size, sc: Sc::Ptr(k as AId, *o) }
                }
                _ => c.clone(),
            })
            .collect()
    };
    let root = cx.read_pl(st, pl)?;
    let root = renum(&root, &mut ids);
    let mut i = 0;
    while i < ids.len() {
        let a = st.allocs.get(ids[i] as usize).cloned().flatten();
        match a {
            Some(a) => {
                let cells = renum(&a.cells, &mut ids);
                heap.push((a.size, cells));
            }
            None => heap.push((0, vec![])),
        }
        i += 1;
        if i > 2000 {
            return unsup("snapshot size");
        }
    }
    Ok(Snap { root, heap, log: st.log.len(), eff: st.effects.len() })
}

fn cells_same<'tcx>(env: &Env, a: &Cells<'tcx>, b: &Cells<'tcx>) -> Option<(bool, String)> {
    // byte-wise comparison, tolerant of different cell boundaries
    let end = a.iter().chain(b.iter()).map(|c| c.off + c.size).max().unwrap_or(0);
    let mut bounds: Vec<u64> = vec![0, end];
    for c in a.iter().chain(b.iter()) {
        bounds.push(c.off);
        bounds.push(c.off + c.size);
    }
    bounds.sort();
    bounds.dedup();
    for w in bounds.windows(2) {
        let (o, s) = (w[0], w[1] - w[0]);
        let x = cells_read(env, a, o, s);
        let y = cells_read(env, b, o, s);
        match (x.len(), y.len()) {
            (0, 0) => continue,
            (1, 1) => match (&x[0].sc, &y[0].sc) {
                (Sc::Int(p), Sc::Int(q)) => {
                    if p == q {
                        continue;
                    }
                    match differs(env, p, q) {
                        Some(false) => {}
                        Some(true) => return Some((true, format!("byte {}: {} became {}", o, p.show(env), q.show(env)))),
                        None => return Some((false, format!("byte {}: {} became {}", o, p.show(env), q.show(env)))),
                    }
                }
                (p, q) if p == q => continue,
                (Sc::Opaque, Sc::Opaque) => continue,
                _ => return Some((true, format!("byte {} changed", o))),
            },
            _ => return Some((true, format!("byte {} changed", o))),
        }
    }
    None
}

fn same<'tcx>(env: &Env, a: &Snap<'tcx>, b: &Snap<'tcx>, with_root: bool) -> Option<(bool, String)> {
    if with_root {
        if let Some((d, m)) = cells_same(env, &a.root, &b.root) {
            return Some((d, format!("assembler state: {}", m)));
        }
    }
    if a.heap.len() != b.heap.len() {
        return Some((true, "bookkeeping tables changed".into()));
    }
    for (x, y) in a.heap.iter().zip(b.heap.iter()) {
        if let Some((d, m)) = cells_same(env, &x.1, &y.1) {
            return Some((d, format!("bookkeeping table: {}", m)));
        }
    }
    None
}

// ------------------------------------------------------------------ witness vocabulary
fn vocab<'tcx>(
    cx: &mut Cx<'tcx, '_>,
    st: &mut State<'tcx>,
    name: &str,
    _inst: Instance<'tcx>,
    args: &Args<'tcx>,
    dest: &Pl<'tcx>,
) -> R<M<'tcx>> {
    let ds = dest.lay.size.bytes();
    let dw = (ds * 8) as u32;
    let none = Ok(M::Value(vec![]));
    match name {
        "any" => {
            // any::<T>(name)
            let n = strarg(cx, st, args, 0)?;
            if dest.lay.ty.is_array() {
                // an array of bytes: every byte is an input of its own
                let cells = (0..dest.lay.size.bytes())
                    .map(|i| Cell { off: i, size: 1, sc: Sc::Int(IntVal::var(8, input_var(&format!("{}[{}]", n, i), ISet::range(0, 255)))) })
                    .collect::<Vec<_>>();
                return Ok(M::Value(cells));
            }
            let set = if dest.lay.ty.is_bool() {
                ISet::range(0, 1)
            } else if dest.lay.ty.is_signed() {
                ISet::range(-(1i128 << (dw - 1)), (1i128 << (dw - 1)) - 1)
            } else {
                ISet::range(0, (1i128 << dw) - 1)
            };
            let v = input_var(&n, set);
            Ok(M::Value(ival(IntVal::var(dw, v))))
        }
        "within" => {
            // within(name, lo, hi) -> i64
            let n = strarg(cx, st, args, 0)?;
            let lo = sext(int(st, args, 1, name)?.as_const(&st.env).unwrap(), 64);
            let hi = sext(int(st, args, 2, name)?.as_const(&st.env).unwrap(), 64);
            let v = input_var(&n, ISet::range(lo, hi));
            Ok(M::Value(ival(IntVal::var(dw, v))))
        }
        "reg" => {
            let n = strarg(cx, st, args, 0)?;
            let v = input_var(&n, ISet::range(0, 15));
            Ok(M::Value(ival(IntVal::var(64, v))))
        }
        "idx" => {
            let n = strarg(cx, st, args, 0)?;
            let v = input_var(&n, ISet(vec![(0, 3), (5, 15)]));
            Ok(M::Value(ival(IntVal::var(64, v))))
        }
        "page_size" => {
            if st.regions.is_empty() {
                return unsup("no code region has been allocated");
            }
            // asked for while there is one assembler only; later ones have pages of the same size
            let k = match st.page {
                Some(k) => k,
                None if st.regions.len() == 1 => st.regions[0].size / 3,
                None => st.regions.iter().map(|r| r.size).min().unwrap(),
            };
            st.page = Some(k);
            Ok(M::Value(ival(IntVal::ci(64, k))))
        }
        "region_base" => {
            if st.regions.is_empty() {
                return unsup("no code region has been allocated");
            }
            let b = st.regions[0].base();
            Ok(M::Value(ival(IntVal::aff(64, b))))
        }
        "disjoint" => {
            // distinct allocations do not overlap: one path for each order of the regions
            for i in 0..st.regions.len() {
                for j in 0..i {
                    let (a, b) = (st.regions[i].base(), st.regions[j].base());
                    let (na, nb) = (st.regions[i].size, st.regions[j].size);
                    let up = cx.decide(st, Cmp::Lt, false, &IntVal::aff(64, b.clone()), &IntVal::aff(64, a.clone()))?;
                    let f = if up { a.sub(&b).unwrap().plus(-nb) } else { b.sub(&a).unwrap().plus(-na) };
                    st.env = st.env.with_fact(f);
                }
            }
            none
        }
        "region_size" => {
            if st.regions.is_empty() {
                return unsup("no code region has been allocated");
            }
            Ok(M::Value(ival(IntVal::ci(64, st.regions[0].size))))
        }
        "mark" => {
            st.mark = st.log.len();
            st.cap = None;
            none
        }
        "may_refuse" => {
            // panics from here on are judged against the named expectation
            let id = strarg(cx, st, args, 0)?;
            st.spec = Some(id.into());
            none
        }
        "cap" => {
            emitted(cx, st, None)?;
            let (a, n) = captured(cx, st)?;
            st.cap = Some((a, n));
            none
        }
        "cap_range" => {
            // cap_range(lo, hi): the bytes in [lo, hi) are what inst / instl look at next
            let lo = int(st, args, 0, name)?;
            let hi = int(st, args, 1, name)?;
            let (Some(lo), Some(hi)) = (lo.to_aff(&st.env), hi.to_aff(&st.env)) else {
                return unsup("the range has no affine bounds");
            };
            let d = hi.sub(&lo).map(|d| st.env.simp(&d)).and_then(|d| d.as_const());
            match d {
                Some(n) if n >= 0 && n < 4096 => st.cap = Some((lo, n as u64)),
                _ => return unsup("the range has no constant length"),
            }
            none
        }
        "start" => {
            let (a, _) = captured(cx, st)?;
            Ok(M::Value(ival(IntVal::aff(64, a))))
        }
        "written" => {
            let (_, n) = captured(cx, st)?;
            Ok(M::Value(ival(IntVal::ci(64, n as i128))))
        }
        "inst" | "instl" => {
            let id = strarg(cx, st, args, 0)?;
            let lab = if name == "instl" { Some(int(st, args, 1, name)?) } else { None };
            let (a, n) = match st.cap.clone() {
                Some(x) => x,
                None => {
                    emitted(cx, st, Some(&id))?;
                    captured(cx, st)?
                }
            };
            if n == 0 {
                spec::malformed(cx, st, &id, "no bytes are emitted");
                return Err(Stop::Done);
            }
            let mut bytes = vec![];
            for i in 0..n {
                bytes.push(cx.read_jit_byte(st, &a.plus(i as i128))?);
            }
            spec::check(cx, st, &id, &a, &bytes, lab.as_ref());
            st.spec = None;
            none
        }
        "oblige" => {
            let id = strarg(cx, st, args, 0)?;
            let c = int(st, args, 1, name)?;
            cx.stats.obligations += 1;
            let ok = cx.decide(st, Cmp::Ne, false, &c, &IntVal::b(false))?;
            if !ok {
                let what = strarg(cx, st, args, 2)?;
                cx.finding(st, &id, "obligation", what);
                return none;
            }
            none
        }
        "eq" => {
            // eq(id, a, b, what): both u64
            let id = strarg(cx, st, args, 0)?;
            let (a, b) = (int(st, args, 1, name)?, int(st, args, 2, name)?);
            cx.stats.obligations += 1;
            let outs = compare(&st.env, Cmp::Eq, false, &a, &b);
            if outs.iter().any(|(_, r)| !*r) {
                let what = strarg(cx, st, args, 3)?;
                let d = format!("{}: got {}, expected {}", what, a.show(&st.env), b.show(&st.env));
                let vs = int_vars(&st.env, &[&a, &b]);
                cx.finding_if(st, &id, "obligation", d, &vs, &|g| Some(a.eval(g)? != b.eval(g)?));
                return none;
            }
            none
        }
        "aligned" => {
            // aligned(id, value, unit, what)
            let id = strarg(cx, st, args, 0)?;
            let a = int(st, args, 1, name)?;
            let k = int(st, args, 2, name)?.as_const(&st.env).unwrap();
            cx.stats.obligations += 1;
            let ok = match a.to_aff(&st.env) {
                Some(x) => is_multiple(&st.env, &x, k.trailing_zeros()),
                None => a.bits(&st.env).iter().take(k.trailing_zeros() as usize).all(|b| *b == Bit::Zero),
            };
            if !ok {
                let what = strarg(cx, st, args, 3)?;
                let vs = int_vars(&st.env, &[&a]);
                let d = format!("{}: {} is not a multiple of {}", what, a.show(&st.env), k);
                cx.finding_if(st, &id, "obligation", d, &vs, &|g| Some(a.eval(g)? % k != 0));
                return none;
            }
            none
        }
        "assume" => {
            let c = int(st, args, 0, name)?;
            if !cx.decide(st, Cmp::Ne, false, &c, &IntVal::b(false))? {
                return Err(Stop::Kill);
            }
            none
        }
        "never" => {
            let id = strarg(cx, st, args, 0)?;
            let what = strarg(cx, st, args, 1)?;
            cx.stats.obligations += 1;
            cx.finding(st, &id, "accepted", what);
            Err(Stop::Done)
        }
        "panics" => {
            // panics(true): from here a panic is an acceptable outcome
            let c = int(st, args, 0, name)?;
            st.panics_ok = c.as_const(&st.env) == Some(1);
            none
        }
        "tick" => {
            let k = int(st, args, 0, name)?.as_const(&st.env).unwrap() as u64;
            *st.ticks.entry(k).or_insert(0) += 1;
            none
        }
        "ticks" => {
            // ticks(id, k, what): operand k was evaluated exactly once
            let id = strarg(cx, st, args, 0)?;
            let k = int(st, args, 1, name)?.as_const(&st.env).unwrap() as u64;
            let n = st.ticks.get(&k).cloned().unwrap_or(0);
            cx.stats.obligations += 1;
            if n != 1 {
                let what = strarg(cx, st, args, 2)?;
                cx.finding(st, &id, "ticks", format!("{}: operand expression {} is evaluated {} times", what, k, n));
            }
            none
        }
        "havoc" => {
            let pl = pointee(cx, st, args, 0)?;
            havoc(cx, st, &pl)?;
            none
        }
        "leaves" => {
            let pl = pointee(cx, st, args, 0)?;
            let mut ls = vec![];
            leaves(cx, &pl.lay, 0, "", &mut ls, 0)?;
            if !cx.relations.is_empty() {
                let mut now: HashMap<String, Aff> = HashMap::new();
                for (p, off, size, _) in &ls {
                    let b = cx.base_add(st, &pl.base, *off as i64);
                    if let Sc::Int(v) = cx.read_scalar(st, &b, *size)? {
                        if let Some(a) = v.exact(&st.env, false) {
                            now.insert(p.clone(), a);
                        }
                    }
                }
                let env = st.env.clone();
                cx.relations.retain(|(a, b)| match (now.get(a), now.get(b)) {
                    (Some(x), Some(y)) => y.sub(x).map_or(false, |d| env.proves_nonneg(&env.simp(&d))),
                    _ => false,
                });
            }
            for (p, off, size, _) in ls {
                let b = cx.base_add(st, &pl.base, off as i64);
                let v = cx.read_scalar(st, &b, size)?;
                let Sc::Int(v) = v else { continue };
                if has_base(cx, st, &v) {
                    continue;
                }
                let set = match v.exact(&st.env, false) {
                    Some(a) => {
                        let (lo, hi) = st.env.interval(&a);
                        // keep gaps for plain variables
                        if a.k == 0 && a.t.len() == 1 && a.t[0].1 == 1 {
                            st.env.set_of(a.t[0].0)
                        } else {
                            // relational facts may bound the value by the page size
                            let mut hi = hi;
                            for r in &st.regions {
                                for t in [r.size / 3, r.size] {
                                    if t < hi && st.env.proves_nonneg(&a.scale(-1).unwrap().plus(t)) {
                                        hi = t;
                                        break;
                                    }
                                }
                            }
                            ISet::range(lo, hi)
                        }
                    }
                    None => ISet::range(0, (1i128 << (size * 8).min(64)) - 1),
                };
                let e = cx.leaf_out.entry(p).or_insert_with(|| ISet(vec![]));
                *e = e.union(&set);
            }
            none
        }
        "snap" => {
            let pl = pointee(cx, st, args, 0)?;
            let s = snapshot(cx, st, &pl)?;
            st.snaps.push(Rc::new(s));
            Ok(M::Value(ival(IntVal::c(64, st.snaps.len() as u128 - 1))))
        }
        "same" | "same_tables" => {
            let id = strarg(cx, st, args, 0)?;
            let k = int(st, args, 1, name)?.as_const(&st.env).unwrap() as usize;
            let pl = pointee(cx, st, args, 2)?;
            let what = strarg(cx, st, args, 3)?;
            let s = snapshot(cx, st, &pl)?;
            let old = st.snaps[k].clone();
            cx.stats.obligations += 1;
            if let Some((sure, m)) = same(&st.env, &old, &s, name == "same") {
                cx.finding(st, if sure { &id } else { "analysis" }, "state", format!("{}: {}", what, m));
                return none;
            }
            if name == "same" && (old.log != s.log || old.eff != s.eff) {
                let at = st.log.get(old.log).map(|w| w.site.to_string()).unwrap_or_default();
                cx.finding(st, &id, "state", format!("{}: memory was written {}", what, at));
                return none;
            }
            none
        }
        "writes_in" => {
            // writes_in(id, lo, hi, what): every byte written since mark() lies in [lo, hi)
            let id = strarg(cx, st, args, 0)?;
            let (lo, hi) = (int(st, args, 1, name)?, int(st, args, 2, name)?);
            let what = strarg(cx, st, args, 3)?;
            let (lo, hi) = (cx.addr_aff(st, &lo)?, cx.addr_aff(st, &hi)?);
            if !stores_within(cx, st, &id, &lo, &hi, &what) {
                return none;
            }
            none
        }
        "confine" => {
            // confine(id, lo, hi, what): mark(); a path that ends in a panic has stored in [lo, hi) only
            let id = strarg(cx, st, args, 0)?;
            let (lo, hi) = (int(st, args, 1, name)?, int(st, args, 2, name)?);
            let what = strarg(cx, st, args, 3)?;
            let (lo, hi) = (cx.addr_aff(st, &lo)?, cx.addr_aff(st, &hi)?);
            st.mark = st.log.len();
            st.confine = Some(Rc::new((id, lo, hi, what)));
            none
        }
        "calm" => {
            // calm(id, what): a path that ends in a panic from here on changes no mapping
            let id = strarg(cx, st, args, 0)?;
            let what = strarg(cx, st, args, 1)?;
            st.calm = Some(Rc::new((id, st.effects.len(), what)));
            none
        }
        "no_writes" => {
            let id = strarg(cx, st, args, 0)?;
            let what = strarg(cx, st, args, 1)?;
            cx.stats.obligations += 1;
            if st.log.len() > st.mark {
                let w = st.log[st.mark].clone();
                cx.finding(st, &id, "writes", format!("{}: {} writes at {}", what, w.site, show_aff(&w.addr)));
                return none;
            }
            none
        }
        "nwrites" => {
            // the number of different bytes written since mark(): storing one twice is not observable
            let seen: std::collections::HashSet<Aff> = st.log[st.mark..].iter().map(|w| st.env.simp(&w.addr)).collect();
            Ok(M::Value(ival(IntVal::c(64, seen.len() as u128))))
        }
        "wrote_exactly" => {
            // wrote_exactly(id, lo, n, what): the set of bytes written since mark() is [lo, lo+n)
            let id = strarg(cx, st, args, 0)?;
            let lo = int(st, args, 1, name)?;
            let n = int(st, args, 2, name)?.as_const(&st.env).unwrap() as i128;
            let what = strarg(cx, st, args, 3)?;
            let lo = cx.addr_aff(st, &lo)?;
            let ws: Vec<W> = st.log[st.mark..].to_vec();
            let mut seen = vec![false; n as usize];
            cx.stats.obligations += 1;
            for w in ws {
                let a = st.env.simp(&w.addr.sub(&lo).unwrap());
                match a.as_const() {
                    Some(k) if k >= 0 && k < n => seen[k as usize] = true,
                    _ => {
                        let d = format!("{}: {} writes at distance {} from the expected start", what, w.site, show_aff(&a));
                        cx.finding_if(st, &id, "writes", d, &aff_vars(&a), &|g| eval_aff(&a, g).map(|k| k < 0 || k >= n));
                        return none;
                    }
                }
            }
            if seen.iter().any(|x| !x) {
                cx.finding(st, &id, "writes", format!("{}: not all of the {} bytes are written", what, n));
                return none;
            }
            none
        }
        "faults" => {
            st.faults = true;
            none
        }
        "full_drop" => {
            st.full_drop = true;
            none
        }
        "if_failed_never" => {
            let id = strarg(cx, st, args, 0)?;
            let what = strarg(cx, st, args, 1)?;
            cx.stats.obligations += 1;
            if st.failed {
                cx.finding(st, &id, "accepted", what);
                return none;
            }
            none
        }
        "protected" => {
            // protected(id, lo, hi, prot, what): the last protection covering [lo,hi) is exactly prot
            let id = strarg(cx, st, args, 0)?;
            let (lo, hi) = (int(st, args, 1, name)?, int(st, args, 2, name)?);
            let prot = int(st, args, 3, name)?.as_const(&st.env).unwrap();
            let what = strarg(cx, st, args, 4)?;
            let (lo, hi) = (cx.addr_aff(st, &lo)?, cx.addr_aff(st, &hi)?);
            let effs = st.effects.clone();
            cx.stats.obligations += 1;
            let mut cur: Vec<(i128, i128, u128)> = vec![];
            let len = st.env.simp(&hi.sub(&lo).unwrap()).as_const();
            let Some(len) = len else { return unsup("protected range") };
            for e in effs.iter().filter(|e| e.kind == "protect") {
                let (Some(a), Some(n)) = (&e.addr, e.len) else {
                    cx.finding(st, &id, "protect", format!("{}: unknown protection range in {}", what, e.site));
                    return none;
                };
                let Some(o) = st.env.simp(&a.sub(&lo).unwrap()).as_const() else { continue };
                cur.push((o, o + n, e.prot));
            }
            // sweep over the breakpoints
            let mut pts = vec![0, len];
            for (a, b, _) in &cur {
                for x in [*a, *b] {
                    if x > 0 && x < len {
                        pts.push(x);
                    }
                }
            }
            pts.sort();
            pts.dedup();
            for w in pts.windows(2) {
                let p = cur.iter().rev().find(|(a, b, _)| *a <= w[0] && w[1] <= *b).map(|x| x.2);
                if p != Some(prot) {
                    let d = format!(
                        "{}: bytes {}..{} of the range have protection {:?}, expected {} (1=r 2=w 4=x)",
                        what, w[0], w[1], p, prot
                    );
                    cx.finding(st, &id, "protect", d);
                    return none;
                }
            }
            none
        }
        "dump_ran" => {
            // exactly one disassembler run over the temporary file as raw 64-bit code
            let id = strarg(cx, st, args, 0)?;
            cx.stats.obligations += 1;
            let io = st.io.clone();
            let runs = io.iter().filter(|x| matches!(x, Io::Run(_))).count();
            let args_: Vec<&str> = io.iter().filter_map(|x| if let Io::Arg(s) = x { Some(s.as_str()) } else { None }).collect();
            let cmds: Vec<&str> = io.iter().filter_map(|x| if let Io::Cmd(s) = x { Some(s.as_str()) } else { None }).collect();
            let late = io.iter().skip_while(|x| !matches!(x, Io::Run(_))).any(|x| matches!(x, Io::Write(..)));
            let all = args_.join(" ");
            let bad = if runs != 1 || cmds.len() != 1 {
                Some(format!("{} commands, {} runs", cmds.len(), runs))
            } else if !cmds[0].ends_with("objdump") {
                None
            } else if !args_.contains(&TMP_PATH) {
                Some(format!("the file is not among the arguments `{}`", all))
            } else if late {
                Some("bytes are written after the disassembler ran".to_string())
            } else if !all.contains("binary") || !(all.contains("-D") || all.contains("disassemble-all")) {
                Some(format!("the file is not read as raw code: `{}`", all))
            } else if !all.contains("x86-64") {
                Some(format!("the code is not read as 64-bit code: `{}`", all))
            } else {
                None
            };
            if !cmds.is_empty() && !cmds[0].ends_with("objdump") {
                return unsup(format!("disassembler {}", cmds[0]));
            }
            if let Some(b) = bad {
                cx.finding(st, &id, "dump", b);
                return Err(Stop::Done);
            }
            none
        }
        "dumped_at" | "dumped_len" => {
            let mut at: Option<Aff> = None;
            let mut len = Aff::cst(0);
            for x in st.io.clone().iter() {
                let Io::Write(a, n) = x else { continue };
                let n = st.env.simp(n);
                if n.as_const() == Some(0) {
                    continue;
                }
                let Some(a) = a else { return unsup("bytes that are not in the code region are dumped") };
                match &at {
                    None => at = Some(a.clone()),
                    Some(b) => {
                        let d = b.add(&len).and_then(|e| a.sub(&e)).map(|d| st.env.simp(&d));
                        if d.and_then(|d| d.as_const()) != Some(0) {
                            return unsup("the bytes dumped are not one run");
                        }
                    }
                }
                len = len.add(&n).unwrap();
            }
            let r = if name == "dumped_at" { at.unwrap_or(Aff::cst(0)) } else { len };
            Ok(M::Value(ival(IntVal::aff(64, r))))
        }
        "effects" => {
            // number of protection changes so far
            Ok(M::Value(ival(IntVal::c(64, st.effects.len() as u128))))
        }
        "not_freed" => {
            let id = strarg(cx, st, args, 0)?;
            let what = strarg(cx, st, args, 1)?;
            cx.stats.obligations += 1;
            let effs = st.effects.clone();
            for e in effs.iter() {
                if e.kind == "free" {
                    cx.finding(st, &id, "freed", format!("{}: {} releases the region", what, e.site));
                    return Err(Stop::Done);
                }
            }
            none
        }
        "note" => {
            let n = strarg(cx, st, args, 0)?;
            let v = int(st, args, 1, name)?;
            let s = format!("{} = {}", n, v.show(&st.env));
            if !cx.outputs.contains(&s) && cx.outputs.len() < 50 {
                cx.outputs.push(s);
            }
            none
        }
        _ => unsup(format!("unknown witness operation {}", name)),
    }
}

/// the bytes written since mark(): one contiguous run in any order
pub fn captured<'tcx>(cx: &mut Cx<'tcx, '_>, st: &mut State<'tcx>) -> R<(Aff, u64)> {
    let ws = &st.log[st.mark..];
    if ws.is_empty() {
        return unsup("nothing was written");
    }
    let a0 = ws[0].addr.clone();
    let mut offs: Vec<i128> = vec![];
    for w in ws {
        let d = st.env.simp(&w.addr.sub(&a0).unwrap());
        match d.as_const() {
            Some(k) => offs.push(k),
            None => return unsup(format!("writes are not contiguous (distance {})", show_aff(&d))),
        }
    }
    offs.sort();
    offs.dedup();
    let lo = offs[0];
    let n = offs.len();
    if offs[n - 1] - lo + 1 != n as i128 {
        return unsup("writes leave a gap");
    }
    let _ = cx;
    Ok((a0.plus(lo), n as u64))
}

/// an instruction that writes nothing, or leaves holes, is reported against its expectation
fn emitted<'tcx>(cx: &mut Cx<'tcx, '_>, st: &mut State<'tcx>, id: Option<&str>) -> R<()> {
    let Some(id) = id.map(|s| s.to_string()).or_else(|| st.spec.as_ref().map(|s| s.to_string())) else { return Ok(()) };
    let ws = &st.log[st.mark..];
    if ws.is_empty() {
        spec::malformed(cx, st, &id, "no bytes are emitted");
        return Err(Stop::Done);
    }
    let a0 = ws[0].addr.clone();
    let mut offs: Vec<i128> = vec![];
    for w in ws {
        match st.env.simp(&w.addr.sub(&a0).unwrap()).as_const() {
            Some(k) => offs.push(k),
            None => return Ok(()),
        }
    }
    offs.sort();
    offs.dedup();
    if offs[offs.len() - 1] - offs[0] + 1 != offs.len() as i128 {
        spec::malformed(cx, st, &id, "the bytes of the instruction are not contiguous");
        return Err(Stop::Done);
    }
    Ok(())
}

/// does every byte stored since mark() lie in [lo, hi)?
fn stores_within<'tcx>(cx: &mut Cx<'tcx, '_>, st: &mut State<'tcx>, id: &str, lo: &Aff, hi: &Aff, what: &str) -> bool {
    cx.stats.obligations += 1;
    let ws: Vec<W> = st.log[st.mark..].to_vec();
    for w in ws {
        let a = st.env.simp(&w.addr.sub(lo).unwrap());
        let b = st.env.simp(&hi.sub(&w.addr).unwrap().plus(-1));
        if !st.env.proves_nonneg(&a) || !st.env.proves_nonneg(&b) {
            let d = format!("{}: {} writes at {} outside the permitted range", what, w.site, show_aff(&w.addr));
            let mut vs = aff_vars(&a);
            vs.extend(aff_vars(&b));
            cx.finding_if(st, id, "writes", d, &vs, &|g| Some(eval_aff(&a, g)? < 0 || eval_aff(&b, g)? < 0));
            return false;
        }
    }
    true
}

pub fn path_end<'tcx>(_cx: &mut Cx<'tcx, '_>, _st: &mut State<'tcx>) {}

pub fn path_panic<'tcx>(cx: &mut Cx<'tcx, '_>, st: &mut State<'tcx>, msg: &str) {
    if let Some(id) = st.spec.clone() {
        spec::refused(cx, st, &id, msg);
        return;
    }
    if let Some(c) = st.confine.clone() {
        if !stores_within(cx, st, &c.0, &c.1, &c.2, &c.3) {
            return;
        }
    }
    if let Some(c) = st.calm.clone() {
        if st.effects.len() != c.1 {
            let e = &st.effects[c.1];
            let d = format!("{}: {:?} at {}", c.2, e.kind, e.site);
            cx.finding(st, &c.0, "effects", d);
            return;
        }
    }
    if !st.panics_ok {
        cx.finding(st, "panic", "panic", format!("unexpected panic: {}", msg));
    }
}

pub fn witness_end<'tcx>(cx: &mut Cx<'tcx, '_>) {
    let _ = cx;
}

/// least fixpoint (with widening to thresholds) of the value ranges of the assembler's own integer fields
pub fn infer_invariants<'tcx>(cx: &mut Cx<'tcx, '_>, fns: &[(String, DefId)]) {
    if fns.is_empty() {
        return;
    }
    cx.invariants.clear();
    let mut round = 0;
    let mut notes = vec![];
    loop {
        cx.leaf_out.clear();
        for (n, d) in fns {
            if round == 0 && !n.starts_with("w_inv_0") {
                continue;
            }
            run_witness(cx, n, *d);
            for f in &cx.findings {
                if f.kind == "unsupported" || f.kind == "limit" {
                    notes.push(format!("{}: {}: {} ({})", n, f.kind, f.detail, f.site));
                }
            }
        }
        let mut changed = false;
        let page = 1i128 << 28;
        let th = [0i128, 1, 2, 3, 7, 15, 255, 4095, page, 3 * page, u32::MAX as i128, i64::MAX as i128, u64::MAX as i128];
        for (k, s) in cx.leaf_out.clone() {
            let old = cx.invariants.get(&k).cloned().unwrap_or(ISet(vec![]));
            let mut u = old.union(&s);
            if u != old {
                changed = true;
                if round >= 2 {
                    let hi = th.iter().cloned().find(|t| *t >= u.hi()).unwrap_or(u.hi());
                    u = ISet::range(0.min(u.lo()), hi);
                } else if u.0.len() > 4 {
                    u = ISet::range(u.lo(), u.hi());
                }
                cx.invariants.insert(k, u);
            }
        }
        round += 1;
        if !changed && round > 1 {
            break;
        }
        if round > 25 {
            notes.push("invariant inference did not converge".into());
            break;
        }
    }
    // which of two fields of one page is never the larger: drop candidates until the rest is inductive
    let group = |p: &str| p.split('[').nth(1).map(|s| s.split(']').next().unwrap().to_string());
    let keys: Vec<String> = cx.invariants.iter().filter(|(_, s)| s.as_single().is_none()).map(|(k, _)| k.clone()).collect();
    let mut cand: Vec<(String, String)> = vec![];
    for a in &keys {
        for b in &keys {
            if a != b && group(a).is_some() && group(a) == group(b) {
                cand.push((a.clone(), b.clone()));
            }
        }
    }
    cand.sort();
    cx.relations = cand;
    while !cx.relations.is_empty() {
        let n = cx.relations.len();
        for (w, d) in fns {
            run_witness(cx, w, *d);
            if cx.findings.iter().any(|f| f.kind == "unsupported" || f.kind == "limit") {
                cx.relations.clear();
            }
        }
        if cx.relations.len() == n {
            break;
        }
    }
    notes.sort();
    notes.dedup();
    cx.inv_notes = notes;
    cx.inv_rounds = round;
}
#[allow(dead_code)]
fn _t(_: Ty<'_>) {}
