//! Abstract memory: allocations are maps from byte offsets to abstract scalars; the generated-code
//! region is an ordered log of byte writes keyed by affine addresses.
use crate::dom::*;
use rustc_middle::ty::{self, Instance, Ty};
use std::rc::Rc;

pub type AId = u32;

#[derive(Clone, PartialEq, Debug)]
pub enum Sc<'tcx> {
    Int(IntVal),
    Ptr(AId, i64),
    Fn(Instance<'tcx>),
    VT(Ty<'tcx>, &'tcx ty::List<ty::PolyExistentialPredicate<'tcx>>),
    Opaque,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Cell<'tcx> {
    pub off: u64,
    pub size: u64,
    pub sc: Sc<'tcx>,
}

pub type Cells<'tcx> = Vec<Cell<'tcx>>;

#[derive(Clone, Debug)]
pub struct Alloc<'tcx> {
    pub size: u64,
    pub cells: Cells<'tcx>,
    pub heap: bool,
}

fn sub_cell<'tcx>(env: &Env, c: &Cell<'tcx>, a: u64, b: u64) -> Sc<'tcx> {
    // bytes [a,b) relative to the cell
    if a == 0 && b == c.size {
        return c.sc.clone();
    }
    match &c.sc {
        Sc::Int(v) => {
            let s = if a == 0 { v.clone() } else { v.shr(env, (a * 8) as u32, false) };
            Sc::Int(s.resize(env, false, ((b - a) * 8) as u32))
        }
        _ => Sc::Opaque,
    }
}

pub fn cells_read<'tcx>(env: &Env, cells: &[Cell<'tcx>], off: u64, size: u64) -> Cells<'tcx> {
    let end = off + size;
    let mut out = vec![];
    let start = cells.partition_point(|c| c.off + c.size <= off);
    for c in &cells[start..] {
        if c.off >= end {
            break;
        }
        let a = off.max(c.off);
        let b = end.min(c.off + c.size);
        out.push(Cell { off: a - off, size: b - a, sc: sub_cell(env, c, a - c.off, b - c.off) });
    }
    out
}

pub fn cells_write<'tcx>(env: &Env, cells: &mut Cells<'tcx>, off: u64, size: u64, new: &[Cell<'tcx>]) {
    if size == 0 {
        return;
    }
    let end = off + size;
    let s = cells.partition_point(|c| c.off + c.size <= off);
    let mut e = s;
    while e < cells.len() && cells[e].off < end {
        e += 1;
    }
    let mut repl: Cells<'tcx> = vec![];
    if s < e && cells[s].off < off {
        let c = &cells[s];
        repl.push(Cell { off: c.off, size: off - c.off, sc: sub_cell(env, c, 0, off - c.off) });
    }
    for c in new {
        repl.push(Cell { off: c.off + off, size: c.size, sc: c.sc.clone() });
    }
    if s < e {
        let c = &cells[e - 1];
        if c.off + c.size > end {
            let a = end - c.off;
            repl.push(Cell { off: end, size: c.size - a, sc: sub_cell(env, c, a, c.size) });
        }
    }
    cells.splice(s..e, repl);
}

/// view a cell list as one scalar of `size` bytes
pub fn as_scalar<'tcx>(env: &Env, cells: &[Cell<'tcx>], size: u64) -> Sc<'tcx> {
    if cells.len() == 1 && cells[0].off == 0 && cells[0].size == size {
        return cells[0].sc.clone();
    }
    let mut pos = 0;
    let mut all_const = true;
    for c in cells {
        if c.off != pos {
            return Sc::Opaque;
        }
        pos += c.size;
        match &c.sc {
            Sc::Int(v) => {
                if !matches!(v.r, Rep::Const(_)) {
                    all_const = false;
                }
            }
            _ => return Sc::Opaque,
        }
    }
    if pos != size || cells.is_empty() {
        return Sc::Opaque;
    }
    if all_const && size <= 16 {
        let mut v = 0u128;
        for c in cells {
            if let Sc::Int(IntVal { r: Rep::Const(k), .. }) = &c.sc {
                v |= k << (8 * c.off);
            }
        }
        return Sc::Int(IntVal::c((size * 8) as u32, v));
    }
    let mut bits = vec![];
    for c in cells {
        if let Sc::Int(v) = &c.sc {
            bits.extend(v.bits(env));
        }
    }
    let v = IntVal::from_bits(env, bits);
    // prefer the affine view when there is one
    if let Rep::Bits(_) = v.r {
        if let Some(a) = v.to_aff(env) {
            return Sc::Int(IntVal::aff(v.w, a));
        }
    }
    Sc::Int(v)
}

#[derive(Clone, Debug)]
pub struct W {
    pub addr: Aff,
    pub val: IntVal,
    pub site: Rc<str>,
}

#[derive(Clone, Debug)]
pub struct Region {
    pub var: VarId,
    pub align: i128,
    pub size: i128,
    pub zeroed: bool,
}
impl Region {
    pub fn base(&self) -> Aff {
        Aff { k: 0, t: vec![(self.var, self.align)] }
    }
}
