//! Abstract interpreter over monomorphic MIR (trace partitioning at undecided branches).
use crate::dom::*;
use crate::mem::*;
use crate::models;
use crate::spec::Meta;
use rustc_abi::{FieldIdx, FieldsShape, Size, TagEncoding, VariantIdx, Variants};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{
    self, AggregateKind, BinOp, Body, CastKind, ConstValue, NonDivergingIntrinsic, Operand, Place, ProjectionElem,
    Rvalue, StatementKind, TerminatorKind, UnOp,
};
use rustc_middle::ty::adjustment::PointerCoercion;
use rustc_middle::ty::layout::{LayoutCx, TyAndLayout};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::HashMap;
use std::rc::Rc;

pub enum Stop {
    Fork(u64, Vec<(Env, bool)>),
    Panic(String),
    Unsup(String),
    Kill,
    Done,
}
pub type R<T> = Result<T, Stop>;
pub fn unsup<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Unsup(s.into()))
}

#[derive(Clone, Debug)]
pub enum Base {
    Mem(AId, i64),
    Addr(IntVal),
    None,
}
#[derive(Clone, Debug)]
pub struct Pl<'tcx> {
    pub base: Base,
    pub meta: Option<Sc<'tcx>>,
    pub lay: TyAndLayout<'tcx>,
}

#[derive(Clone)]
pub struct Frame<'tcx> {
    pub inst: Instance<'tcx>,
    pub body: Rc<Body<'tcx>>,
    pub bb: mir::BasicBlock,
    pub stmt: usize,
    pub locals: Vec<Option<AId>>,
    pub dest: Option<Pl<'tcx>>,
    pub target: Option<mir::BasicBlock>,
}

#[derive(Clone)]
pub struct State<'tcx> {
    pub allocs: Vec<Option<Rc<Alloc<'tcx>>>>,
    pub free: Vec<AId>,
    pub frames: Vec<Frame<'tcx>>,
    pub env: Env,
    pub log: Rc<Vec<W>>,
    pub mark: usize,
    pub regions: Vec<Region>,
    pub globals: Rc<HashMap<AllocId, AId>>,
    /// the environment when the current statement was first started (before it was partitioned)
    pub env0: Env,
    /// decisions already made in the statement being resumed
    pub replay: Vec<(u64, bool)>,
    pub cur: usize,
    pub steps: u64,
    pub panics_ok: bool,
    pub ticks: HashMap<u64, u64>,
    pub effects: Rc<Vec<models::Eff>>,
    pub io: Rc<Vec<models::Io>>,
    pub faults: bool,
    pub failed: bool,
    pub full_drop: bool,
    pub cap: Option<(Aff, u64)>,
    /// where stores may go even on paths that end in a panic
    pub confine: Option<Rc<(String, Aff, Aff, String)>>,
    /// the size of a page, once asked for
    pub page: Option<i128>,
    /// (id, number of mapping effects so far, what): a path that ends in a panic has made no further ones
    pub calm: Option<Rc<(String, usize, String)>>,
    pub spec: Option<Rc<str>>,
    pub nhavoc: u32,
    pub notes: Rc<Vec<String>>,
    pub nfork: u32,
    pub snaps: Vec<Rc<models::Snap<'tcx>>>,
    pub rfork: HashMap<(u32, usize), u32>,
}

#[derive(Clone, Debug)]
pub struct Finding {
    pub id: String,
    pub kind: String,
    pub detail: String,
    pub site: String,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub panics: u64,
    pub steps: u64,
    pub obligations: u64,
    pub writes: u64,
    pub decodes: u64,
}

pub struct Cx<'tcx, 'm> {
    pub tcx: TyCtxt<'tcx>,
    pub env: TypingEnv<'tcx>,
    pub bodies: HashMap<Instance<'tcx>, Rc<Body<'tcx>>>,
    pub paths: HashMap<DefId, Rc<str>>,
    pub meta: &'m HashMap<String, Meta>,
    pub witness: String,
    pub findings: Vec<Finding>,
    pub stats: Stats,
    pub funcs: std::collections::BTreeSet<String>,
    pub panic_sites: std::collections::BTreeMap<String, u64>,
    pub outputs: Vec<String>,
    pub accept: HashMap<String, Vec<Env>>,
    pub invariants: HashMap<String, ISet>,
    /// (a, b): field a never exceeds field b
    pub relations: Vec<(String, String)>,
    pub deadline: Option<std::time::Instant>,
    pub witness_s: u64,
    pub leaf_out: HashMap<String, ISet>,
    pub inv_notes: Vec<String>,
    pub inv_rounds: u32,
}

pub const STEP_LIMIT: u64 = 20_000_000;
pub const PATH_LIMIT: u64 = 60_000;

impl<'tcx, 'm> Cx<'tcx, 'm> {
    pub fn layout(&self, ty: Ty<'tcx>) -> R<TyAndLayout<'tcx>> {
        match self.tcx.layout_of(self.env.as_query_input(ty)) {
            Ok(l) => Ok(l),
            Err(e) => unsup(format!("layout of {:?}: {:?}", ty, e)),
        }
    }
    pub fn variant(&self, l: &TyAndLayout<'tcx>, v: VariantIdx) -> TyAndLayout<'tcx> {
        l.for_variant(&self.lcx(), v)
    }
    pub fn field_layout(&self, l: &TyAndLayout<'tcx>, i: usize) -> TyAndLayout<'tcx> {
        l.field(&self.lcx(), i)
    }
    fn lcx(&self) -> LayoutCx<'tcx> {
        LayoutCx::new(self.tcx, self.env)
    }
    pub fn path(&mut self, d: DefId) -> Rc<str> {
        if let Some(p) = self.paths.get(&d) {
            return p.clone();
        }
        let p: Rc<str> = rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d)).into();
        self.paths.insert(d, p.clone());
        p
    }
    pub fn body(&mut self, inst: Instance<'tcx>) -> R<Rc<Body<'tcx>>> {
        if let Some(b) = self.bodies.get(&inst) {
            return Ok(b.clone());
        }
        let b = self.tcx.instance_mir(inst.def);
        let b = inst.instantiate_mir_and_normalize_erasing_regions(
            self.tcx,
            self.env,
            ty::EarlyBinder::bind(self.tcx, b.clone()),
        );
        let b = Rc::new(b);
        self.bodies.insert(inst, b.clone());
        Ok(b)
    }

    // ------------------------------------------------------------ reporting
    pub fn loc(&self, span: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let span = span.source_callsite();
        let p = sm.lookup_char_pos(span.lo());
        let name = format!("{}", p.file.name.prefer_local_unconditionally());
        let name = name.rsplit("/repo/").next().unwrap_or(&name).to_string();
        format!("{}:{}", name, p.line)
    }
    pub fn frame_span(&self, f: &Frame<'tcx>) -> rustc_span::Span {
        let bb = &f.body.basic_blocks[f.bb];
        if f.stmt < bb.statements.len() {
            bb.statements[f.stmt].source_info.span
        } else {
            bb.terminator().source_info.span
        }
    }
    pub fn is_subject(&self, d: DefId) -> bool {
        self.tcx.crate_name(d.krate).as_str() == "monoasm"
    }
    /// call chain from the witness down to the innermost monoasm frame
    pub fn site(&mut self, st: &State<'tcx>) -> String {
        let mut parts = vec![];
        let mut last = String::new();
        for f in &st.frames {
            let d = f.inst.def_id();
            if self.is_subject(d) {
                parts.push(self.path(d).to_string());
                last = self.loc(self.frame_span(f));
            }
        }
        if parts.is_empty() {
            if let Some(f) = st.frames.first() {
                return format!("{} in witness {}", self.loc(self.frame_span(f)), self.witness);
            }
        }
        format!("{} at {}", parts.join(" > "), last)
    }
    pub fn show_cell(&self, st: &State<'tcx>) -> String {
        let mut v: Vec<(VarId, &ISet)> = st.env.sets.iter().map(|(a, b)| (*a, b)).collect();
        v.sort_by_key(|x| x.0);
        let mut s: Vec<String> = v
            .iter()
            .filter(|(v, _)| !matches!(var_kind(*v), VarKind::Fresh(_)))
            .map(|(v, s)| {
                let r: Vec<String> = s
                    .0
                    .iter()
                    .take(6)
                    .map(|(a, b)| if a == b { format!("{}", a) } else { format!("{}..{}", a, b) })
                    .collect();
                format!("{}∈{{{}}}", var_name(*v), r.join(","))
            })
            .collect();
        for f in st.env.facts.iter().take(6) {
            s.push(format!("{}>=0", show_aff(f)));
        }
        s.join(" ")
    }
    pub fn finding(&mut self, st: &State<'tcx>, id: &str, kind: &str, detail: String) {
        self.finding_if(st, id, kind, detail, &[], &|_| Some(true));
    }
    /// Report, provided some valuation inside the abstract state has the violating feature; otherwise the
    /// abstraction is too coarse here and the witness is undecided.
    pub fn finding_if(
        &mut self,
        st: &State<'tcx>,
        id: &str,
        kind: &str,
        detail: String,
        extra: &[VarId],
        feature: &dyn Fn(&dyn Fn(VarId) -> Option<i128>) -> Option<bool>,
    ) {
        if self.findings.len() > 200 {
            return;
        }
        let site = self.site(st);
        let cell = self.show_cell(st);
        let mut detail = if cell.is_empty() { detail } else { format!("{} [when {}]", detail, cell) };
        let (mut id, mut kind) = (id.to_string(), kind.to_string());
        if id != "analysis" {
            let m = member(&st.env, extra, feature);
            match m {
                Member::Yes(v) => {
                    let s: Vec<String> = v
                        .iter()
                        .filter(|(v, _)| !matches!(var_kind(*v), VarKind::Init(_)))
                        .map(|(v, x)| format!("{}={}", var_name(*v), x))
                        .collect();
                    if !s.is_empty() {
                        detail = format!("{} e.g. {}", detail, s.join(" "));
                    }
                }
                m => {
                    detail = format!("{} {}: not established either way ({})", id, detail, if m == Member::No { "no example" } else { "no valuation" });
                    id = "analysis".into();
                    kind = "coarse".into();
                }
            }
        }
        self.findings.push(Finding { id, kind, detail, site });
    }

    // ------------------------------------------------------------ decisions
    pub fn decide(&mut self, st: &mut State<'tcx>, op: Cmp, signed: bool, a: &IntVal, b: &IntVal) -> R<bool> {
        let outs = compare(&st.env, op, signed, a, b);
        self.outcomes(st, key_of(&(op as u8, signed, a, b)), outs)
    }
    pub fn outcomes(&mut self, st: &mut State<'tcx>, key: u64, outs: Vec<(Env, bool)>) -> R<bool> {
        match outs.len() {
            0 => Err(Stop::Kill),
            1 => {
                let (e, r) = outs.into_iter().next().unwrap();
                st.env = e;
                Ok(r)
            }
            _ => match st.replay.iter().find(|x| x.0 == key) {
                Some((_, r)) => Ok(*r),
                None => Err(Stop::Fork(key, outs)),
            },
        }
    }
    /// is the affine form >= 0?
    pub fn decide_nonneg(&mut self, st: &mut State<'tcx>, a: &Aff) -> R<bool> {
        let key = key_of(&("nonneg", a));
        let a = st.env.simp(a);
        let n = a.scale(-1).map(|x| x.plus(-1));
        let outs = if st.env.proves_nonneg(&a) {
            vec![(st.env.clone(), true)]
        } else if n.as_ref().map_or(false, |n| st.env.proves_nonneg(n)) {
            vec![(st.env.clone(), false)]
        } else if a.t.len() == 1 {
            let w = 126;
            let _ = w;
            let (v, c) = a.t[0];
            let s = st.env.set_of(v);
            let (t, f) = if c > 0 {
                let b = -(a.k.div_euclid(c));
                (s.inter(b, i128::MAX), s.inter(i128::MIN, b - 1))
            } else {
                let b = a.k.div_euclid(-c);
                (s.inter(i128::MIN, b), s.inter(b + 1, i128::MAX))
            };
            let mut o = vec![];
            if !t.is_empty() {
                o.push((st.env.with_set(v, t), true));
            }
            if !f.is_empty() {
                o.push((st.env.with_set(v, f), false));
            }
            o
        } else {
            let mut o = vec![(st.env.with_fact(a.clone()), true)];
            if let Some(n) = n {
                o.push((st.env.with_fact(n), false));
            }
            o
        };
        self.outcomes(st, key, outs)
    }
    /// partition on the value of a small integer
    pub fn decide_value(&mut self, st: &mut State<'tcx>, v: &IntVal, what: &str) -> R<u128> {
        if let Some(c) = v.as_const(&st.env) {
            return Ok(c);
        }
        let mut cands: Vec<u128> = vec![];
        let ex = v.exact(&st.env, false).map(|a| st.env.interval(&a));
        match v.vars(&st.env) {
            _ if matches!(v.r, Rep::Aff(_)) && ex.map_or(false, |(lo, hi)| hi - lo < 512) => {
                let (lo, hi) = ex.unwrap();
                cands.extend((lo..=hi).map(|x| x as u128));
            }
            Some(vs) if vs.len() == 1 => {
                let s = st.env.set_of(vs[0]);
                if s.size() > 512 {
                    return unsup(format!("{}: value {} not bounded", what, v.show(&st.env)));
                }
                for x in s.iter() {
                    let q = vs[0];
                    match v.eval(&|k| if k == q { Some(x) } else { None }) {
                        Some(y) => {
                            if !cands.contains(&y) {
                                cands.push(y)
                            }
                        }
                        None => return unsup(format!("{}: value {} not decidable", what, v.show(&st.env))),
                    }
                }
            }
            _ => return unsup(format!("{}: value {} not bounded", what, v.show(&st.env))),
        }
        cands.sort();
        for c in cands {
            let k = IntVal::c(v.w, c);
            if self.decide(st, Cmp::Eq, false, v, &k)? {
                return Ok(c);
            }
        }
        Err(Stop::Kill)
    }

    // ------------------------------------------------------------ memory
    pub fn alloc(&self, st: &mut State<'tcx>, size: u64, heap: bool) -> AId {
        let a = Rc::new(Alloc { size, cells: vec![], heap });
        if let Some(i) = st.free.pop() {
            st.allocs[i as usize] = Some(a);
            return i;
        }
        st.allocs.push(Some(a));
        (st.allocs.len() - 1) as AId
    }
    pub fn dealloc(&self, st: &mut State<'tcx>, id: AId) {
        st.allocs[id as usize] = None;
        // heap ids are not recycled so that dangling pointers stay detectable within a path
        st.free.push(id);
    }
    pub fn site_short(&mut self, st: &State<'tcx>) -> Rc<str> {
        for f in st.frames.iter().rev() {
            let d = f.inst.def_id();
            if self.is_subject(d) {
                let p = self.path(d);
                let l = self.loc(self.frame_span(f));
                return format!("{} ({})", p, l).into();
            }
        }
        "witness".into()
    }
    pub fn region_of(&self, st: &State<'tcx>, a: &Aff) -> Option<Region> {
        st.regions.iter().find(|r| a.t.iter().any(|(v, c)| *v == r.var && *c == r.align)).cloned()
    }
    fn check_region(&mut self, st: &mut State<'tcx>, a: &Aff, size: u64, what: &str) -> R<()> {
        let Some(r) = self.region_of(st, a) else {
            return unsup(format!("{} through an address outside every known region: {}", what, show_aff(a)));
        };
        let rel = st.env.simp(&a.sub(&r.base()).unwrap());
        let hi = rel.scale(-1).unwrap().plus(r.size - size as i128);
        self.stats.writes += 1;
        if !st.env.proves_nonneg(&rel) || !st.env.proves_nonneg(&hi) {
            let d = format!("{} at region offset {} is not inside the {}-byte allocation", what, show_aff(&rel), r.size);
            self.finding(st, "region", "region", d);
            return Err(Stop::Done);
        }
        Ok(())
    }
    /// The byte at an address of the code region. Where it is open whether a logged store hits the address, the
    /// state is partitioned on the order of the two addresses.
    pub fn read_jit_byte(&mut self, st: &mut State<'tcx>, a: &Aff) -> R<IntVal> {
        let log = st.log.clone();
        for w in log.iter().rev() {
            let Some(d) = a.sub(&w.addr) else { return Ok(IntVal::top(8)) };
            match d.as_const() {
                Some(0) => return Ok(w.val.clone()),
                Some(_) => continue,
                None => {
                    if self.decide_nonneg(st, &d.plus(-1))? || self.decide_nonneg(st, &d.scale(-1).unwrap().plus(-1))? {
                        continue;
                    }
                    return Ok(w.val.clone());
                }
            }
        }
        let a = st.env.simp(a);
        if let Some(r) = self.region_of(st, &a) {
            if r.zeroed {
                return Ok(IntVal::c(8, 0));
            }
        }
        let v = intern_var(VarKind::Init(Rc::new(a)), ISet::range(0, 255));
        Ok(IntVal::var(8, v))
    }
    pub fn addr_aff(&self, st: &State<'tcx>, a: &IntVal) -> R<Aff> {
        match a.exact_pieces(&st.env0, false).or_else(|| a.to_aff_pieces(&st.env0)) {
            Some(x) => Ok(x),
            None => unsup(format!("address {} not affine", a.show(&st.env))),
        }
    }
    pub fn read_base(&mut self, st: &mut State<'tcx>, base: &Base, size: u64) -> R<Cells<'tcx>> {
        if size == 0 {
            return Ok(vec![]);
        }
        match base {
            Base::Mem(id, off) => {
                let Some(Some(a)) = st.allocs.get(*id as usize) else { return unsup("read of dead memory") };
                if *off < 0 || *off as u64 + size > a.size {
                    return unsup(format!("read out of bounds ({}+{} of {})", off, size, a.size));
                }
                Ok(cells_read(&st.env, &a.cells, *off as u64, size))
            }
            Base::Addr(v) => {
                let a = self.addr_aff(st, v)?;
                self.check_region(st, &a, size, "read")?;
                let mut out = vec![];
                for i in 0..size {
                    let b = self.read_jit_byte(st, &a.plus(i as i128))?;
                    out.push(Cell { off: i, size: 1, sc: Sc::Int(b) });
                }
                Ok(out)
            }
            Base::None => unsup("read through no place"),
        }
    }
    pub fn write_base(&mut self, st: &mut State<'tcx>, base: &Base, size: u64, cells: &[Cell<'tcx>]) -> R<()> {
        if size == 0 {
            return Ok(());
        }
        match base {
            Base::Mem(id, off) => {
                let env = st.env.clone();
                let Some(Some(a)) = st.allocs.get_mut(*id as usize) else { return unsup("write to dead memory") };
                if *off < 0 || *off as u64 + size > a.size {
                    return unsup(format!("write out of bounds ({}+{} of {})", off, size, a.size));
                }
                let a = Rc::make_mut(a);
                cells_write(&env, &mut a.cells, *off as u64, size, cells);
                Ok(())
            }
            Base::Addr(v) => {
                let a = self.addr_aff(st, v)?;
                self.check_region(st, &a, size, "write")?;
                let site = self.site_short(st);
                let mut ws = vec![];
                for c in cells {
                    match &c.sc {
                        Sc::Int(v) => {
                            for i in 0..c.size {
                                let b = if c.size == 1 {
                                    v.clone()
                                } else {
                                    let s = if i == 0 { v.clone() } else { v.shr(&st.env, (8 * i) as u32, false) };
                                    s.resize(&st.env, false, 8)
                                };
                                ws.push(W { addr: st.env.simp(&a.plus((c.off + i) as i128)), val: b, site: site.clone() });
                            }
                        }
                        _ => {
                            for i in 0..c.size {
                                ws.push(W {
                                    addr: st.env.simp(&a.plus((c.off + i) as i128)),
                                    val: IntVal::top(8),
                                    site: site.clone(),
                                });
                            }
                        }
                    }
                }
                Rc::make_mut(&mut st.log).extend(ws);
                Ok(())
            }
            Base::None => unsup("write through no place"),
        }
    }
    pub fn base_of(&self, sc: &Sc<'tcx>) -> R<Base> {
        match sc {
            Sc::Ptr(a, o) => Ok(Base::Mem(*a, *o)),
            Sc::Int(v) => Ok(Base::Addr(v.clone())),
            Sc::Fn(_) | Sc::VT(..) => Ok(Base::None),
            Sc::Opaque => unsup("dereference of an opaque pointer"),
        }
    }
    pub fn base_add(&mut self, st: &mut State<'tcx>, b: &Base, off: i64) -> Base {
        if off == 0 {
            return b.clone();
        }
        match b {
            Base::Mem(a, o) => Base::Mem(*a, o + off),
            Base::Addr(v) => Base::Addr(v.add(&st.env, &IntVal::ci(64, off as i128), false)),
            Base::None => Base::None,
        }
    }
    pub fn ptr_of(&self, b: &Base) -> Sc<'tcx> {
        match b {
            Base::Mem(a, o) => Sc::Ptr(*a, *o),
            Base::Addr(v) => Sc::Int(v.clone()),
            Base::None => Sc::Opaque,
        }
    }
    pub fn import_global(&mut self, st: &mut State<'tcx>, id: AllocId) -> R<Sc<'tcx>> {
        if let Some(a) = st.globals.get(&id) {
            return Ok(Sc::Ptr(*a, 0));
        }
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Function { instance } => Ok(Sc::Fn(instance)),
            GlobalAlloc::VTable(ty, preds) => Ok(Sc::VT(ty, preds)),
            GlobalAlloc::Memory(m) => self.import_mem(st, id, m.inner()),
            GlobalAlloc::Static(d) => match self.tcx.eval_static_initializer(d) {
                Ok(m) => self.import_mem(st, id, m.inner()),
                Err(_) => unsup("static"),
            },
            GlobalAlloc::TypeId { .. } => Ok(Sc::Opaque),
        }
    }
    fn import_mem(&mut self, st: &mut State<'tcx>, id: AllocId, m: &mir::interpret::Allocation) -> R<Sc<'tcx>> {
        let size = m.size().bytes();
        let aid = self.alloc(st, size, false);
        Rc::make_mut(&mut st.globals).insert(id, aid);
        let bytes = m.inspect_with_uninit_and_ptr_outside_interpreter(0..size as usize).to_vec();
        let ptrs: Vec<(u64, AllocId)> = m.provenance().ptrs().iter().map(|(o, p)| (o.bytes(), p.alloc_id())).collect();
        let mut cells: Cells<'tcx> = vec![];
        let mut i = 0u64;
        let mut pi = 0;
        while i < size {
            if pi < ptrs.len() && ptrs[pi].0 == i {
                let mut o = 0u64;
                for k in 0..8 {
                    o |= (bytes[(i + k) as usize] as u64) << (8 * k);
                }
                let sc = match self.import_global(st, ptrs[pi].1)? {
                    Sc::Ptr(a, b) => Sc::Ptr(a, b + o as i64),
                    x => x,
                };
                cells.push(Cell { off: i, size: 8, sc });
                i += 8;
                pi += 1;
            } else {
                cells.push(Cell { off: i, size: 1, sc: Sc::Int(IntVal::c(8, bytes[i as usize] as u128)) });
                i += 1;
            }
        }
        st.allocs[aid as usize] = Some(Rc::new(Alloc { size, cells, heap: false }));
        Ok(Sc::Ptr(aid, 0))
    }

    // ------------------------------------------------------------ places
    fn local_base(&mut self, st: &mut State<'tcx>, l: mir::Local) -> R<Pl<'tcx>> {
        let f = st.frames.last().unwrap();
        let lay = self.layout(f.body.local_decls[l].ty)?;
        let id = match f.locals[l.as_usize()] {
            Some(i) => i,
            None => {
                let i = self.alloc(st, lay.size.bytes(), false);
                st.frames.last_mut().unwrap().locals[l.as_usize()] = Some(i);
                i
            }
        };
        Ok(Pl { base: Base::Mem(id, 0), meta: None, lay })
    }
    pub fn read_scalar(&mut self, st: &mut State<'tcx>, b: &Base, size: u64) -> R<Sc<'tcx>> {
        let c = self.read_base(st, b, size)?;
        Ok(as_scalar(&st.env, &c, size))
    }
    pub fn deref(&mut self, st: &mut State<'tcx>, p: &Pl<'tcx>) -> R<Pl<'tcx>> {
        let Some(inner) = p.lay.ty.builtin_deref(true) else { return unsup(format!("deref of {:?}", p.lay.ty)) };
        let sc = self.read_scalar(st, &p.base, 8)?;
        let base = self.base_of(&sc)?;
        let meta = if p.lay.size.bytes() == 16 {
            let b8 = self.base_add(st, &p.base, 8);
            Some(self.read_scalar(st, &b8, 8)?)
        } else {
            None
        };
        Ok(Pl { base, meta, lay: self.layout(inner)? })
    }
    pub fn field(&mut self, st: &mut State<'tcx>, p: &Pl<'tcx>, i: usize) -> R<Pl<'tcx>> {
        let fl = p.lay.field(&self.lcx(), i);
        let off = p.lay.fields.offset(i).bytes();
        let base = self.base_add(st, &p.base, off as i64);
        let meta = if fl.is_unsized() { p.meta.clone() } else { None };
        Ok(Pl { base, meta, lay: fl })
    }
    pub fn index(&mut self, st: &mut State<'tcx>, p: &Pl<'tcx>, i: &IntVal) -> R<Pl<'tcx>> {
        let el = match p.lay.ty.kind() {
            ty::Array(t, _) | ty::Slice(t) => self.layout(*t)?,
            ty::Str => self.layout(self.tcx.types.u8)?,
            _ => return unsup(format!("index of {:?}", p.lay.ty)),
        };
        let base = self.offset_base(st, &p.base, i, el.size.bytes())?;
        Ok(Pl { base, meta: None, lay: el })
    }
    pub fn offset_base(&mut self, st: &mut State<'tcx>, b: &Base, i: &IntVal, size: u64) -> R<Base> {
        match b {
            Base::Mem(a, o) => {
                let k = self.decide_value(st, i, "index")?;
                let k = sext(k, i.w) as i64;
                Ok(Base::Mem(*a, o + k * size as i64))
            }
            Base::Addr(v) => {
                let d = i.resize(&st.env, true, 64).mul(&st.env, &IntVal::c(64, size as u128));
                Ok(Base::Addr(v.add(&st.env, &d, false)))
            }
            Base::None => unsup("offset of no place"),
        }
    }
    pub fn place_len(&mut self, st: &mut State<'tcx>, p: &Pl<'tcx>) -> R<IntVal> {
        match p.lay.ty.kind() {
            ty::Array(..) => {
                if let FieldsShape::Array { count, .. } = p.lay.fields {
                    Ok(IntVal::c(64, count as u128))
                } else {
                    unsup("array shape")
                }
            }
            _ => match &p.meta {
                Some(Sc::Int(v)) => Ok(v.clone()),
                _ => {
                    let _ = st;
                    unsup("length of place")
                }
            },
        }
    }
    pub fn place(&mut self, st: &mut State<'tcx>, pl: &Place<'tcx>) -> R<Pl<'tcx>> {
        let mut p = self.local_base(st, pl.local)?;
        for e in pl.projection.iter() {
            p = match e {
                ProjectionElem::Deref => self.deref(st, &p)?,
                ProjectionElem::Field(f, _) => self.field(st, &p, f.as_usize())?,
                ProjectionElem::Index(l) => {
                    let lb = self.local_base(st, l)?;
                    let i = self.read_scalar(st, &lb.base, 8)?;
                    let Sc::Int(i) = i else { return unsup("index value") };
                    self.index(st, &p, &i)?
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let i = if from_end {
                        let n = self.place_len(st, &p)?;
                        n.add(&st.env, &IntVal::c(64, offset as u128), true)
                    } else {
                        IntVal::c(64, offset as u128)
                    };
                    self.index(st, &p, &i)?
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let n = self.place_len(st, &p)?;
                    let b = self.index(st, &p, &IntVal::c(64, from as u128))?;
                    let len = if from_end {
                        n.add(&st.env, &IntVal::c(64, (from + to) as u128), true)
                    } else {
                        IntVal::c(64, (to - from) as u128)
                    };
                    match p.lay.ty.kind() {
                        ty::Array(t, _) => {
                            let Some(k) = len.as_const(&st.env) else { return unsup("subslice") };
                            let ty = Ty::new_array(self.tcx, *t, k as u64);
                            Pl { base: b.base, meta: None, lay: self.layout(ty)? }
                        }
                        _ => Pl { base: b.base, meta: Some(Sc::Int(len)), lay: p.lay },
                    }
                }
                ProjectionElem::Downcast(_, v) => {
                    let lay = p.lay.for_variant(&self.lcx(), v);
                    Pl { base: p.base, meta: p.meta, lay }
                }
                ProjectionElem::OpaqueCast(t) | ProjectionElem::UnwrapUnsafeBinder(t) => {
                    Pl { base: p.base, meta: p.meta, lay: self.layout(t)? }
                }
                #[allow(unreachable_patterns)]
                _ => return unsup(format!("projection {:?}", e)),
            };
        }
        Ok(p)
    }
    pub fn read_pl(&mut self, st: &mut State<'tcx>, p: &Pl<'tcx>) -> R<Cells<'tcx>> {
        self.read_base(st, &p.base, p.lay.size.bytes())
    }
    pub fn write_pl(&mut self, st: &mut State<'tcx>, p: &Pl<'tcx>, c: &[Cell<'tcx>]) -> R<()> {
        self.write_base(st, &p.base, p.lay.size.bytes(), c)
    }
    pub fn ptr_cells(&self, p: &Pl<'tcx>) -> Cells<'tcx> {
        let mut v = vec![Cell { off: 0, size: 8, sc: self.ptr_of(&p.base) }];
        if let Some(m) = &p.meta {
            v.push(Cell { off: 8, size: 8, sc: m.clone() });
        }
        v
    }

    // ------------------------------------------------------------ operands
    pub fn const_val(&mut self, st: &mut State<'tcx>, v: ConstValue, ty: Ty<'tcx>) -> R<Cells<'tcx>> {
        let lay = self.layout(ty)?;
        let size = lay.size.bytes();
        Ok(match v {
            ConstValue::ZeroSized => vec![],
            ConstValue::Scalar(s) => {
                let sc = match s {
                    Scalar::Int(i) => Sc::Int(IntVal::c((size * 8) as u32, i.to_bits(lay.size))),
                    Scalar::Ptr(p, _) => {
                        let (prov, off) = p.prov_and_relative_offset();
                        match self.import_global(st, prov.alloc_id())? {
                            Sc::Ptr(a, b) => Sc::Ptr(a, b + off.bytes() as i64),
                            x => x,
                        }
                    }
                };
                vec![Cell { off: 0, size, sc }]
            }
            ConstValue::Slice { alloc_id, meta } => {
                let sc = self.import_global(st, alloc_id)?;
                vec![Cell { off: 0, size: 8, sc }, Cell { off: 8, size: 8, sc: Sc::Int(IntVal::c(64, meta as u128)) }]
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let sc = self.import_global(st, alloc_id)?;
                let b = self.base_of(&sc)?;
                let b = self.base_add(st, &b, offset.bytes() as i64);
                self.read_base(st, &b, size)?
            }
        })
    }
    pub fn operand(&mut self, st: &mut State<'tcx>, o: &Operand<'tcx>) -> R<(Cells<'tcx>, Ty<'tcx>)> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let pl = self.place(st, p)?;
                let c = self.read_pl(st, &pl)?;
                Ok((c, pl.lay.ty))
            }
            Operand::Constant(c) => {
                let ty = c.const_.ty();
                let v = match c.const_.eval(self.tcx, self.env, c.span) {
                    Ok(v) => v,
                    Err(_) => return unsup(format!("constant {:?}", c.const_)),
                };
                Ok((self.const_val(st, v, ty)?, ty))
            }
            Operand::RuntimeChecks(_) => {
                Ok((vec![Cell { off: 0, size: 1, sc: Sc::Int(IntVal::c(8, 0)) }], self.tcx.types.bool))
            }
        }
    }
    pub fn operand_sc(&mut self, st: &mut State<'tcx>, o: &Operand<'tcx>) -> R<(Sc<'tcx>, Ty<'tcx>)> {
        let (c, ty) = self.operand(st, o)?;
        let size = self.layout(ty)?.size.bytes();
        Ok((as_scalar(&st.env, &c, size), ty))
    }
    pub fn one(&self, size: u64, sc: Sc<'tcx>) -> Cells<'tcx> {
        if size == 0 {
            vec![]
        } else {
            vec![Cell { off: 0, size, sc }]
        }
    }

    // ------------------------------------------------------------ operators
    pub fn is_signed(ty: Ty<'tcx>) -> bool {
        ty.is_signed()
    }
    pub fn sc_cmp(&mut self, st: &mut State<'tcx>, op: Cmp, signed: bool, a: &Sc<'tcx>, b: &Sc<'tcx>) -> R<bool> {
        match (a, b) {
            (Sc::Int(x), Sc::Int(y)) => self.decide(st, op, signed, x, y),
            (Sc::Ptr(p, i), Sc::Ptr(q, j)) if p == q => {
                Ok(match op {
                    Cmp::Eq => i == j,
                    Cmp::Ne => i != j,
                    Cmp::Lt => i < j,
                    Cmp::Le => i <= j,
                    Cmp::Gt => i > j,
                    Cmp::Ge => i >= j,
                })
            }
            (Sc::Opaque, _) | (_, Sc::Opaque) => unsup("comparison of an unknown value"),
            _ => match op {
                Cmp::Eq => Ok(a == b),
                Cmp::Ne => Ok(a != b),
                _ => unsup(format!("ordering of unrelated pointers {:?} {:?}", a, b)),
            },
        }
    }
    /// IEEE-754 order of two bit patterns (None: unordered)
    fn float_cmp(&mut self, st: &mut State<'tcx>, x: &IntVal, y: &IntVal) -> R<Option<i8>> {
        let w = x.w;
        let (inf, sign) = match w {
            64 => (0x7ff0_0000_0000_0000u128, 1u128 << 63),
            32 => (0x7f80_0000u128, 1u128 << 31),
            _ => return unsup("comparison of floats of this width"),
        };
        let mut neg = [false; 2];
        let mut zero = [false; 2];
        for (k, v) in [x, y].into_iter().enumerate() {
            neg[k] = self.decide(st, Cmp::Ge, false, v, &IntVal::c(w, sign))?;
            let b = if neg[k] { sign } else { 0 };
            if self.decide(st, Cmp::Gt, false, v, &IntVal::c(w, b | inf))? {
                return Ok(None);
            }
            zero[k] = self.decide(st, Cmp::Eq, false, v, &IntVal::c(w, b))?;
        }
        if zero[0] && zero[1] {
            return Ok(Some(0));
        }
        if neg[0] != neg[1] {
            return Ok(Some(if neg[0] { -1 } else { 1 }));
        }
        if self.decide(st, Cmp::Eq, false, x, y)? {
            return Ok(Some(0));
        }
        let lt = self.decide(st, Cmp::Lt, false, x, y)?;
        Ok(Some(if lt != neg[0] { -1 } else { 1 }))
    }
    fn need_int(&self, s: &Sc<'tcx>, what: &str) -> R<IntVal> {
        match s {
            Sc::Int(v) => Ok(v.clone()),
            _ => unsup(format!("{}: not an integer: {:?}", what, s)),
        }
    }
    pub fn arith(&mut self, st: &mut State<'tcx>, op: char, signed: bool, a: &IntVal, b: &IntVal) -> R<IntVal> {
        let r = self.arith0(st, op, signed, a, b)?;
        if let Rep::Top = r.r {
            if op == '%' && !signed && b.as_const(&st.env).map_or(false, |y| y > 0) {
                // x % y = x - y * (x / y)
                let q = term(&mut st.env, '/', false, a, b);
                let q = self.arith(st, '*', false, &q, b)?;
                return self.arith(st, '-', false, a, &q);
            }
            return Ok(term(&mut st.env, op, signed, a, b));
        }
        Ok(r)
    }
    fn arith0(&mut self, st: &mut State<'tcx>, op: char, signed: bool, a: &IntVal, b: &IntVal) -> R<IntVal> {
        let env = &st.env;
        Ok(match op {
            '+' => a.add(env, b, false),
            '-' => a.add(env, b, true),
            '*' => a.mul(env, b),
            '/' | '%' => {
                if let (Some(x), Some(y)) = (a.as_const(env), b.as_const(env)) {
                    if y == 0 {
                        return Err(Stop::Panic("division by zero".into()));
                    }
                    if signed {
                        let (x, y) = (sext(x, a.w), sext(y, a.w));
                        IntVal::ci(a.w, if op == '/' { x.wrapping_div(y) } else { x.wrapping_rem(y) })
                    } else {
                        IntVal::c(a.w, if op == '/' { x / y } else { x % y })
                    }
                } else if let Some(y) = b.as_const(env) {
                    let nonneg = !signed || a.exact(env, true).map_or(false, |x| env.interval(&x).0 >= 0);
                    if y.is_power_of_two() && nonneg {
                        let k = y.trailing_zeros();
                        if op == '/' {
                            a.shr(env, k, false)
                        } else {
                            a.bitop(env, &IntVal::c(a.w, y - 1), '&')
                        }
                    } else {
                        IntVal::top(a.w)
                    }
                } else {
                    IntVal::top(a.w)
                }
            }
            '&' | '|' | '^' => a.bitop(env, b, op),
            _ => return unsup("operator"),
        })
    }
    /// does the mathematical result of `a op b` leave the range of the type?
    pub fn overflows(&mut self, st: &mut State<'tcx>, op: char, signed: bool, a: &IntVal, b: &IntVal) -> R<bool> {
        let w = a.w;
        let (ea, eb) = (a.exact_pieces(&st.env, signed), b.exact_pieces(&st.env, signed));
        let r = match (ea, eb) {
            (Some(x), Some(y)) => match op {
                '+' => x.add(&y),
                '-' => x.sub(&y),
                _ => {
                    if let Some(k) = y.as_const() {
                        x.scale(k)
                    } else if let Some(k) = x.as_const() {
                        y.scale(k)
                    } else {
                        None
                    }
                }
            },
            _ => None,
        };
        let Some(r) = r else {
            return unsup(format!("overflow of {} {} {}", a.show(&st.env), op, b.show(&st.env)));
        };
        if w >= 120 {
            let (lo, hi) = st.env.interval(&r);
            if lo > -(1i128 << 118) && hi < (1i128 << 118) && (signed || lo >= 0) {
                return Ok(false);
            }
            if signed {
                return unsup("overflow of a 128-bit value");
            }
        }
        let (min, max) = if signed {
            (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1)
        } else if w >= 126 {
            (0, i128::MAX >> 1)
        } else {
            (0, (1i128 << w) - 1)
        };
        if w < 126 {
            let hi = r.scale(-1).unwrap().plus(max);
            if !self.decide_nonneg(st, &hi)? {
                return Ok(true);
            }
        }
        let lo = r.plus(-min);
        if !self.decide_nonneg(st, &lo)? {
            return Ok(true);
        }
        Ok(false)
    }
    pub fn binop(
        &mut self,
        st: &mut State<'tcx>,
        op: BinOp,
        a: &Sc<'tcx>,
        b: &Sc<'tcx>,
        ty: Ty<'tcx>,
    ) -> R<Sc<'tcx>> {
        use BinOp::*;
        let signed = Self::is_signed(ty);
        let bool_ = |v: bool| Sc::Int(IntVal::b(v));
        if ty.is_floating_point() {
            let (Sc::Int(x), Sc::Int(y)) = (a, b) else { return Ok(Sc::Opaque) };
            return match op {
                Eq | Ne | Lt | Le | Gt | Ge => {
                    let o = self.float_cmp(st, x, y)?;
                    Ok(bool_(match op {
                        Eq => o == Some(0),
                        Ne => o != Some(0),
                        Lt => o == Some(-1),
                        Le => matches!(o, Some(-1 | 0)),
                        Gt => o == Some(1),
                        _ => matches!(o, Some(1 | 0)),
                    }))
                }
                _ => match (x.as_const(&st.env), y.as_const(&st.env)) {
                    (Some(p), Some(q)) => Ok(float_op(op, x.w, p, q).map_or(Sc::Opaque, |r| Sc::Int(IntVal::c(x.w, r)))),
                    _ => Ok(Sc::Opaque),
                },
            };
        }
        match op {
            Eq | Ne | Lt | Le | Gt | Ge => {
                let c = match op {
                    Eq => crate::dom::Cmp::Eq,
                    Ne => crate::dom::Cmp::Ne,
                    Lt => crate::dom::Cmp::Lt,
                    Le => crate::dom::Cmp::Le,
                    Gt => crate::dom::Cmp::Gt,
                    _ => crate::dom::Cmp::Ge,
                };
                return Ok(bool_(self.sc_cmp(st, c, signed, a, b)?));
            }
            Cmp => {
                let r = if self.sc_cmp(st, crate::dom::Cmp::Lt, signed, a, b)? {
                    -1
                } else if self.sc_cmp(st, crate::dom::Cmp::Eq, signed, a, b)? {
                    0
                } else {
                    1
                };
                return Ok(Sc::Int(IntVal::ci(8, r)));
            }
            Offset => {
                let el = match ty.builtin_deref(true) {
                    Some(t) => self.layout(t)?.size.bytes(),
                    None => return unsup("offset type"),
                };
                let base = self.base_of(a)?;
                let i = self.need_int(b, "offset")?;
                let nb = self.offset_base(st, &base, &i, el)?;
                return Ok(self.ptr_of(&nb));
            }
            _ => {}
        }
        // pointers seen as integers
        match (op, a, b) {
            (Sub | SubUnchecked, Sc::Ptr(p, i), Sc::Ptr(q, j)) if p == q => {
                return Ok(Sc::Int(IntVal::ci(64, (*i - *j) as i128)))
            }
            (Add | AddUnchecked, Sc::Ptr(p, i), Sc::Int(v)) | (Add | AddUnchecked, Sc::Int(v), Sc::Ptr(p, i)) => {
                let k = self.decide_value(st, v, "pointer offset")?;
                return Ok(Sc::Ptr(*p, i + sext(k, 64) as i64));
            }
            (Sub | SubUnchecked, Sc::Ptr(p, i), Sc::Int(v)) => {
                let k = self.decide_value(st, v, "pointer offset")?;
                return Ok(Sc::Ptr(*p, i - sext(k, 64) as i64));
            }
            (BitAnd, Sc::Ptr(_, i), Sc::Int(v)) | (BitAnd, Sc::Int(v), Sc::Ptr(_, i)) => {
                if let Some(m) = v.as_const(&st.env) {
                    if m < 16 {
                        return Ok(Sc::Int(IntVal::c(64, (*i as u128) & m)));
                    }
                }
                return Ok(Sc::Opaque);
            }
            (Rem, Sc::Ptr(_, i), Sc::Int(v)) => {
                if let Some(m) = v.as_const(&st.env) {
                    if m <= 16 && m.is_power_of_two() {
                        return Ok(Sc::Int(IntVal::c(64, (*i as u128) & (m - 1))));
                    }
                }
                return Ok(Sc::Opaque);
            }
            (_, Sc::Opaque, _) | (_, _, Sc::Opaque) => return Ok(Sc::Opaque),
            _ => {}
        }
        let x = self.need_int(a, "operand")?;
        let y = self.need_int(b, "operand")?;
        let r = match op {
            Add | AddUnchecked => self.arith(st, '+', signed, &x, &y)?,
            Sub | SubUnchecked => self.arith(st, '-', signed, &x, &y)?,
            Mul | MulUnchecked => self.arith(st, '*', signed, &x, &y)?,
            Div => self.arith(st, '/', signed, &x, &y)?,
            Rem => self.arith(st, '%', signed, &x, &y)?,
            BitXor => self.arith(st, '^', signed, &x, &y)?,
            BitAnd => self.arith(st, '&', signed, &x, &y)?,
            BitOr => self.arith(st, '|', signed, &x, &y)?,
            Shl | ShlUnchecked | Shr | ShrUnchecked => {
                let n = match y.as_const(&st.env) {
                    Some(n) => n,
                    None => self.decide_value(st, &y, "shift amount")?,
                };
                let n = (n & (x.w as u128 - 1)) as u32;
                match op {
                    Shl | ShlUnchecked => x.shl(&st.env, n),
                    _ => x.shr(&st.env, n, signed),
                }
            }
            _ => return unsup(format!("binary operator {:?}", op)),
        };
        Ok(Sc::Int(r))
    }

    // ------------------------------------------------------------ enums
    pub fn discriminant(&mut self, st: &mut State<'tcx>, p: &Pl<'tcx>) -> R<(VariantIdx, IntVal)> {
        let ty = p.lay.ty;
        let dty = ty.discriminant_ty(self.tcx);
        let dw = self.layout(dty)?.size.bits() as u32;
        match &p.lay.variants {
            Variants::Empty => unsup("uninhabited discriminant"),
            Variants::Single { index } => {
                let d = match ty.discriminant_for_variant(self.tcx, *index) {
                    Some(d) => d.val,
                    None => 0,
                };
                Ok((*index, IntVal::c(dw, d)))
            }
            Variants::Multiple { tag, tag_encoding, tag_field, variants } => {
                let off = p.lay.fields.offset(tag_field.as_usize()).bytes();
                let tsize = tag.size(&self.tcx).bytes();
                let tb = self.base_add(st, &p.base, off as i64);
                let t = self.read_scalar(st, &tb, tsize)?;
                match tag_encoding {
                    TagEncoding::Direct => {
                        let Sc::Int(t) = t else { return unsup("discriminant of an unknown value") };
                        let v = self.decide_value(st, &t, "discriminant")?;
                        let sv = if Self::is_signed(dty) { sext(v, t.w) as u128 } else { v };
                        let n = variants.len();
                        for i in 0..n {
                            let vi = VariantIdx::from_usize(i);
                            if let Some(d) = ty.discriminant_for_variant(self.tcx, vi) {
                                if d.val & mask(dw) == sv & mask(dw) {
                                    return Ok((vi, IntVal::c(dw, d.val)));
                                }
                            }
                        }
                        unsup("invalid discriminant")
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        let mut res = *untagged_variant;
                        match t {
                            Sc::Int(t) => {
                                let w = t.w;
                                let lo = niche_variants.start.as_usize();
                                let hi = niche_variants.last.as_usize();
                                for i in lo..=hi {
                                    let k = niche_start.wrapping_add((i - lo) as u128);
                                    if self.decide(st, Cmp::Eq, false, &t, &IntVal::c(w, k))? {
                                        res = VariantIdx::from_usize(i);
                                        break;
                                    }
                                }
                            }
                            Sc::Ptr(..) | Sc::Fn(_) | Sc::VT(..) => {}
                            Sc::Opaque => return unsup("discriminant of an unknown value"),
                        }
                        let d = ty.discriminant_for_variant(self.tcx, res).map(|d| d.val).unwrap_or(res.as_usize() as u128);
                        Ok((res, IntVal::c(dw, d)))
                    }
                }
            }
        }
    }
    /// cells to write for the tag of variant v: (offset, size, scalar)
    pub fn tag_for(&mut self, lay: &TyAndLayout<'tcx>, v: VariantIdx) -> R<Option<Cell<'tcx>>> {
        match &lay.variants {
            Variants::Empty | Variants::Single { .. } => Ok(None),
            Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                let off = lay.fields.offset(tag_field.as_usize()).bytes();
                let size = tag.size(&self.tcx).bytes();
                let w = (size * 8) as u32;
                match tag_encoding {
                    TagEncoding::Direct => {
                        let d = lay.ty.discriminant_for_variant(self.tcx, v).unwrap().val;
                        Ok(Some(Cell { off, size, sc: Sc::Int(IntVal::c(w, d)) }))
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        if v == *untagged_variant {
                            return Ok(None);
                        }
                        let k = niche_start.wrapping_add((v.as_usize() - niche_variants.start.as_usize()) as u128);
                        Ok(Some(Cell { off, size, sc: Sc::Int(IntVal::c(w, k)) }))
                    }
                }
            }
        }
    }

    // ------------------------------------------------------------ rvalues
    fn rvalue(&mut self, st: &mut State<'tcx>, rv: &Rvalue<'tcx>, dlay: &TyAndLayout<'tcx>) -> R<Cells<'tcx>> {
        let dsize = dlay.size.bytes();
        Ok(match rv {
            Rvalue::Use(o, ..) => self.operand(st, o)?.0,
            Rvalue::Repeat(o, _) => {
                let (c, ty) = self.operand(st, o)?;
                let es = self.layout(ty)?.size.bytes();
                let n = if es == 0 { 0 } else { dsize / es };
                if n > 1 << 16 {
                    return unsup("large array");
                }
                let mut out = vec![];
                for i in 0..n {
                    for x in &c {
                        out.push(Cell { off: x.off + i * es, size: x.size, sc: x.sc.clone() });
                    }
                }
                out
            }
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) => {
                let pl = self.place(st, p)?;
                let mut c = self.ptr_cells(&pl);
                if dsize == 8 {
                    c.truncate(1);
                }
                c
            }
            Rvalue::CopyForDeref(p) => {
                let pl = self.place(st, p)?;
                self.read_pl(st, &pl)?
            }
            Rvalue::Reborrow(_, _, p) => {
                let pl = self.place(st, p)?;
                self.read_pl(st, &pl)?
            }
            Rvalue::Discriminant(p) => {
                let pl = self.place(st, p)?;
                let (_, d) = self.discriminant(st, &pl)?;
                self.one(dsize, Sc::Int(d.resize(&st.env, false, (dsize * 8) as u32)))
            }
            Rvalue::BinaryOp(op, ops) => {
                let (a, ta) = self.operand_sc(st, &ops.0)?;
                let (b, _tb) = self.operand_sc(st, &ops.1)?;
                if let BinOp::AddWithOverflow | BinOp::SubWithOverflow | BinOp::MulWithOverflow = op {
                    let ch = match op {
                        BinOp::AddWithOverflow => '+',
                        BinOp::SubWithOverflow => '-',
                        _ => '*',
                    };
                    return self.with_overflow(st, ch, ta, &a, &b);
                }
                // thin view of wide pointers
                if ta.is_any_ptr() && self.layout(ta)?.size.bytes() == 16 {
                    let (ca, _) = self.operand(st, &ops.0)?;
                    let (cb, _) = self.operand(st, &ops.1)?;
                    let a0 = as_scalar(&st.env, &cells_read(&st.env, &ca, 0, 8), 8);
                    let b0 = as_scalar(&st.env, &cells_read(&st.env, &cb, 0, 8), 8);
                    let a1 = as_scalar(&st.env, &cells_read(&st.env, &ca, 8, 8), 8);
                    let b1 = as_scalar(&st.env, &cells_read(&st.env, &cb, 8, 8), 8);
                    let e = self.sc_cmp(st, Cmp::Eq, false, &a0, &b0)? && self.sc_cmp(st, Cmp::Eq, false, &a1, &b1)?;
                    return match op {
                        BinOp::Eq => Ok(self.one(1, Sc::Int(IntVal::b(e)))),
                        BinOp::Ne => Ok(self.one(1, Sc::Int(IntVal::b(!e)))),
                        _ => unsup("wide pointer comparison"),
                    };
                }
                let r = self.binop(st, *op, &a, &b, ta)?;
                self.one(dsize, r)
            }
            Rvalue::UnaryOp(op, o) => match op {
                UnOp::PtrMetadata => {
                    let (c, _) = self.operand(st, o)?;
                    if dsize == 0 {
                        vec![]
                    } else {
                        cells_read(&st.env, &c, 8, 8)
                    }
                }
                _ => {
                    let (a, ty) = self.operand_sc(st, o)?;
                    if let Sc::Opaque = a {
                        return Ok(self.one(dsize, Sc::Opaque));
                    }
                    if let UnOp::Neg = op {
                        if ty.is_floating_point() {
                            let x = self.need_int(&a, "neg")?;
                            let w = x.w;
                            let r = x.bitop(&st.env, &IntVal::c(w, 1u128 << (w - 1)), '^');
                            return Ok(self.one(dsize, Sc::Int(r)));
                        }
                    }
                    let x = self.need_int(&a, "unary")?;
                    let r = match op {
                        UnOp::Not => {
                            if ty.is_bool() {
                                x.bitop(&st.env, &IntVal::c(8, 1), '^')
                            } else {
                                x.not(&st.env)
                            }
                        }
                        _ => IntVal::c(x.w, 0).add(&st.env, &x, true),
                    };
                    self.one(dsize, Sc::Int(r))
                }
            },
            Rvalue::Aggregate(kind, ops) => self.aggregate(st, kind, ops, dlay)?,
            Rvalue::Cast(kind, o, ty) => self.cast(st, *kind, o, *ty)?,
            Rvalue::ThreadLocalRef(d) => {
                let id = self.tcx.reserve_and_set_static_alloc(*d);
                let p = self.import_global(st, id)?;
                self.one(8, p)
            }
            _ => return unsup(format!("rvalue {:?}", rv)),
        })
    }
    pub fn with_overflow(
        &mut self,
        st: &mut State<'tcx>,
        ch: char,
        ty: Ty<'tcx>,
        a: &Sc<'tcx>,
        b: &Sc<'tcx>,
    ) -> R<Cells<'tcx>> {
        let signed = Self::is_signed(ty);
        let size = self.layout(ty)?.size.bytes();
        if let (Sc::Ptr(p, i), Sc::Int(v)) = (a, b) {
            let k = sext(self.decide_value(st, v, "pointer offset")?, 64) as i64;
            let r = if ch == '+' { i + k } else { i - k };
            return Ok(vec![
                Cell { off: 0, size, sc: Sc::Ptr(*p, r) },
                Cell { off: size, size: 1, sc: Sc::Int(IntVal::b(false)) },
            ]);
        }
        if let (Sc::Ptr(p, i), Sc::Ptr(q, j)) = (a, b) {
            if p == q && ch == '-' {
                return Ok(vec![
                    Cell { off: 0, size, sc: Sc::Int(IntVal::ci(64, (*i - *j) as i128)) },
                    Cell { off: size, size: 1, sc: Sc::Int(IntVal::b(i < j)) },
                ]);
            }
        }
        let x = self.need_int(a, "checked arithmetic")?;
        let y = self.need_int(b, "checked arithmetic")?;
        let ov = self.overflows(st, ch, signed, &x, &y)?;
        let r = self.arith(st, ch, signed, &x, &y)?;
        Ok(vec![
            Cell { off: 0, size, sc: Sc::Int(r) },
            Cell { off: size, size: 1, sc: Sc::Int(IntVal::b(ov)) },
        ])
    }
    fn aggregate(
        &mut self,
        st: &mut State<'tcx>,
        kind: &AggregateKind<'tcx>,
        ops: &rustc_index_vec::IndexVec<FieldIdx, Operand<'tcx>>,
        dlay: &TyAndLayout<'tcx>,
    ) -> R<Cells<'tcx>> {
        let mut out: Cells<'tcx> = vec![];
        match kind {
            AggregateKind::RawPtr(..) => {
                let mut off = 0;
                for o in ops.iter() {
                    let (c, t) = self.operand(st, o)?;
                    let s = self.layout(t)?.size.bytes();
                    for x in c {
                        out.push(Cell { off: x.off + off, size: x.size, sc: x.sc });
                    }
                    off += s;
                }
                return Ok(out);
            }
            AggregateKind::Array(_) => {
                for (i, o) in ops.iter().enumerate() {
                    let (c, t) = self.operand(st, o)?;
                    let s = self.layout(t)?.size.bytes();
                    for x in c {
                        out.push(Cell { off: x.off + i as u64 * s, size: x.size, sc: x.sc });
                    }
                }
                return Ok(out);
            }
            _ => {}
        }
        let (lay, active) = match kind {
            AggregateKind::Adt(_, v, _, _, af) => {
                let l = if dlay.ty.is_enum() { dlay.for_variant(&self.lcx(), *v) } else { *dlay };
                (l, *af)
            }
            _ => (*dlay, None),
        };
        let mut tmp: Cells<'tcx> = vec![];
        for (i, o) in ops.iter_enumerated() {
            let idx = active.map(|a| a.as_usize()).unwrap_or(i.as_usize());
            let (c, t) = self.operand(st, o)?;
            let s = self.layout(t)?.size.bytes();
            let off = lay.fields.offset(idx).bytes();
            cells_write(&st.env, &mut tmp, off, s, &c);
        }
        if let AggregateKind::Adt(_, v, ..) = kind {
            if dlay.ty.is_enum() {
                if let Some(t) = self.tag_for(dlay, *v)? {
                    let c0 = Cell { off: 0, size: t.size, sc: t.sc };
                    cells_write(&st.env, &mut tmp, t.off, t.size, &[c0]);
                }
            }
        }
        out.extend(tmp);
        Ok(out)
    }
    fn cast(&mut self, st: &mut State<'tcx>, kind: CastKind, o: &Operand<'tcx>, to: Ty<'tcx>) -> R<Cells<'tcx>> {
        let tl = self.layout(to)?;
        let ts = tl.size.bytes();
        match kind {
            CastKind::IntToInt => {
                let (a, ty) = self.operand_sc(st, o)?;
                match a {
                    Sc::Int(v) => {
                        let r = v.resize(&st.env, Self::is_signed(ty), (ts * 8) as u32);
                        Ok(self.one(ts, Sc::Int(r)))
                    }
                    Sc::Ptr(..) if ts == 8 => Ok(self.one(ts, a)),
                    Sc::Ptr(..) if ts == 16 => Ok(self.one(ts, Sc::Opaque)),
                    _ => Ok(self.one(ts, Sc::Opaque)),
                }
            }
            CastKind::Transmute | CastKind::Subtype | CastKind::BoxDerefTransmute => Ok(self.operand(st, o)?.0),
            CastKind::PointerExposeProvenance
            | CastKind::PointerWithExposedProvenance
            | CastKind::PtrToPtr
            | CastKind::FnPtrToPtr => {
                let (c, _) = self.operand(st, o)?;
                Ok(cells_read(&st.env, &c, 0, ts))
            }
            CastKind::PointerCoercion(pc, _) => match pc {
                PointerCoercion::MutToConstPointer
                | PointerCoercion::ArrayToPointer
                | PointerCoercion::UnsafeFnPointer => {
                    let (c, _) = self.operand(st, o)?;
                    Ok(cells_read(&st.env, &c, 0, ts))
                }
                PointerCoercion::ReifyFnPointer(_) => {
                    let ty = self.op_ty(st, o)?;
                    match *ty.kind() {
                        ty::FnDef(d, args) => {
                            match Instance::resolve_for_fn_ptr(self.tcx, self.env, d, args.no_bound_vars().unwrap()) {
                                Some(i) => Ok(self.one(8, Sc::Fn(i))),
                                None => unsup("fn pointer"),
                            }
                        }
                        _ => unsup("reify"),
                    }
                }
                PointerCoercion::ClosureFnPointer(_) => {
                    let ty = self.op_ty(st, o)?;
                    match *ty.kind() {
                        ty::Closure(d, args) => {
                            let i = Instance::resolve_closure(self.tcx, d, args, ty::ClosureKind::FnOnce);
                            Ok(self.one(8, Sc::Fn(i)))
                        }
                        _ => unsup("closure pointer"),
                    }
                }
                PointerCoercion::Unsize => {
                    let (c, from) = self.operand(st, o)?;
                    self.unsize(st, c, from, to)
                }
            },
            CastKind::IntToFloat | CastKind::FloatToInt | CastKind::FloatToFloat => {
                let (a, from) = self.operand_sc(st, o)?;
                let c = match &a {
                    Sc::Int(v) => v.as_const(&st.env).map(|c| (c, v.w)),
                    _ => None,
                };
                let tw = (ts * 8) as u32;
                let r = c.and_then(|(c, w)| match kind {
                    CastKind::IntToFloat => {
                        let s = Self::is_signed(from);
                        match tw {
                            64 => Some(if s { (sext(c, w) as f64).to_bits() } else { (c as f64).to_bits() } as u128),
                            32 => Some(if s { (sext(c, w) as f32).to_bits() } else { (c as f32).to_bits() } as u128),
                            _ => None,
                        }
                    }
                    CastKind::FloatToFloat => match (w, tw) {
                        (64, 32) => Some((f64::from_bits(c as u64) as f32).to_bits() as u128),
                        (32, 64) => Some((f32::from_bits(c as u32) as f64).to_bits() as u128),
                        (64, 64) | (32, 32) => Some(c),
                        _ => None,
                    },
                    _ => {
                        let f = match w {
                            64 => f64::from_bits(c as u64),
                            32 => f32::from_bits(c as u32) as f64,
                            _ => return None,
                        };
                        Some(match (tw, Self::is_signed(to)) {
                            (8, true) => f as i8 as u8 as u128,
                            (8, false) => f as u8 as u128,
                            (16, true) => f as i16 as u16 as u128,
                            (16, false) => f as u16 as u128,
                            (32, true) => f as i32 as u32 as u128,
                            (32, false) => f as u32 as u128,
                            (64, true) => f as i64 as u64 as u128,
                            (64, false) => f as u64 as u128,
                            (128, true) => f as i128 as u128,
                            _ => f as u128,
                        })
                    }
                });
                Ok(self.one(ts, r.map_or(Sc::Opaque, |r| Sc::Int(IntVal::c(tw, r)))))
            }
        }
    }
    fn op_ty(&mut self, st: &State<'tcx>, o: &Operand<'tcx>) -> R<Ty<'tcx>> {
        let f = st.frames.last().unwrap();
        Ok(o.ty(&f.body.local_decls, self.tcx))
    }
    fn unsize(&mut self, st: &mut State<'tcx>, c: Cells<'tcx>, from: Ty<'tcx>, to: Ty<'tcx>) -> R<Cells<'tcx>> {
        // find the pointee types
        fn inner<'tcx>(cx: &Cx<'tcx, '_>, t: Ty<'tcx>, depth: u32) -> Option<Ty<'tcx>> {
            if depth > 6 {
                return None;
            }
            if let ty::Adt(d, args) = t.kind() {
                if t.is_box() {
                    return Some(args.type_at(0));
                }
                if !d.is_struct() {
                    return None;
                }
                for f in d.non_enum_variant().fields.iter() {
                    let ft = f.ty(cx.tcx, args);
                    let ft = cx.tcx.normalize_erasing_regions(cx.env, ft);
                    if let Some(x) = inner(cx, ft, depth + 1) {
                        return Some(x);
                    }
                }
                return None;
            }
            t.builtin_deref(true)
        }
        let (Some(a), Some(b)) = (inner(self, from, 0), inner(self, to, 0)) else { return unsup("unsize") };
        let (sa, sb) = self.tcx.struct_lockstep_tails_for_codegen(a, b, self.env);
        let mut out = cells_read(&st.env, &c, 0, 8);
        let meta = match (sa.kind(), sb.kind()) {
            (ty::Array(..), ty::Slice(_)) => {
                let l = self.layout(sa)?;
                if let FieldsShape::Array { count, .. } = l.fields {
                    Sc::Int(IntVal::c(64, count as u128))
                } else {
                    return unsup("unsize array");
                }
            }
            (ty::Dynamic(..), ty::Dynamic(..)) => as_scalar(&st.env, &cells_read(&st.env, &c, 8, 8), 8),
            (_, ty::Dynamic(preds, ..)) => Sc::VT(sa, preds),
            _ => return unsup("unsize kind"),
        };
        out.push(Cell { off: 8, size: 8, sc: meta });
        Ok(out)
    }

    // ------------------------------------------------------------ frames & calls
    pub fn push_frame(
        &mut self,
        st: &mut State<'tcx>,
        inst: Instance<'tcx>,
        args: Vec<(Cells<'tcx>, TyAndLayout<'tcx>)>,
        dest: Option<Pl<'tcx>>,
        target: Option<mir::BasicBlock>,
    ) -> R<()> {
        if st.frames.len() > 120 {
            return unsup("call depth");
        }
        let body = self.body(inst)?;
        let p = self.path(inst.def_id());
        if self.is_subject(inst.def_id()) {
            self.funcs.insert(p.to_string());
        }
        let n = body.local_decls.len();
        let fr = Frame { inst, body: body.clone(), bb: mir::START_BLOCK, stmt: 0, locals: vec![None; n], dest, target };
        st.frames.push(fr);
        let mut vals = args;
        if let Some(spread) = body.spread_arg {
            let k = spread.as_usize() - 1;
            let rest = vals.split_off(k);
            let lay = self.layout(body.local_decls[spread].ty)?;
            let mut cells = vec![];
            for (i, (c, l)) in rest.into_iter().enumerate() {
                let off = lay.fields.offset(i).bytes();
                cells_write(&st.env, &mut cells, off, l.size.bytes(), &c);
            }
            vals.push((cells, lay));
        }
        if vals.len() != body.arg_count {
            return unsup(format!("argument count of {} ({} vs {})", p, vals.len(), body.arg_count));
        }
        for (i, (c, _)) in vals.into_iter().enumerate() {
            let l = mir::Local::from_usize(i + 1);
            let pl = self.local_base(st, l)?;
            self.write_pl(st, &pl, &c)?;
        }
        Ok(())
    }
    fn pop_frame(&mut self, st: &mut State<'tcx>) -> R<()> {
        let f = st.frames.last().unwrap();
        let ret = f.locals[0];
        let lay = self.layout(f.body.local_decls[mir::RETURN_PLACE].ty)?;
        let c = match ret {
            Some(r) => self.read_base(st, &Base::Mem(r, 0), lay.size.bytes())?,
            None => vec![],
        };
        let f = st.frames.pop().unwrap();
        for l in f.locals.iter().flatten() {
            st.allocs[*l as usize] = None;
            st.free.push(*l);
        }
        if st.frames.is_empty() {
            return Err(Stop::Done);
        }
        if let Some(d) = &f.dest {
            self.write_pl(st, d, &c)?;
        }
        match f.target {
            Some(t) => {
                let fr = st.frames.last_mut().unwrap();
                fr.bb = t;
                fr.stmt = 0;
                Ok(())
            }
            None => Err(Stop::Panic("diverging call returned".into())),
        }
    }
    pub fn goto(&self, st: &mut State<'tcx>, t: mir::BasicBlock) {
        let f = st.frames.last_mut().unwrap();
        f.bb = t;
        f.stmt = 0;
    }
    pub fn has_subject_drop(&self, ty: Ty<'tcx>, depth: u32) -> bool {
        if depth > 8 {
            return false;
        }
        if !ty.needs_drop(self.tcx, self.env) {
            return false;
        }
        match ty.kind() {
            ty::Adt(d, args) => {
                let std = |k: rustc_span::def_id::CrateNum| matches!(self.tcx.crate_name(k).as_str(), "core" | "alloc" | "std");
                // destructors of the standard library's containers only give memory back
                // files and processes: outside the analysed program
                let k = self.tcx.crate_name(d.did().krate);
                if k.as_str() == "tempfile" || k.as_str() == "std" && !self.tcx.item_name(d.did()).as_str().contains("Guard") {
                    return false;
                }
                let only_frees = std(d.did().krate) && {
                    let n = self.tcx.item_name(d.did());
                    matches!(
                        n.as_str(),
                        "Vec" | "RawVec" | "RawVecInner" | "Box" | "String" | "CString" | "VecDeque" | "LinkedList" | "BTreeMap" | "BTreeSet" | "IntoIter"
                    )
                };
                if self.tcx.adt_destructor(d.did()).is_some() && !only_frees {
                    return true;
                }
                for a in args.types() {
                    if self.has_subject_drop(a, depth + 1) {
                        return true;
                    }
                }
                if only_frees {
                    return false;
                }
                for f in d.all_fields() {
                    let ft = self.tcx.normalize_erasing_regions(self.env, f.ty(self.tcx, args));
                    if self.has_subject_drop(ft, depth + 1) {
                        return true;
                    }
                }
                false
            }
            ty::Array(t, _) | ty::Slice(t) => self.has_subject_drop(*t, depth + 1),
            ty::Tuple(ts) => ts.iter().any(|t| self.has_subject_drop(t, depth + 1)),
            ty::Closure(_, a) => a.as_closure().upvar_tys().iter().any(|t| self.has_subject_drop(t, depth + 1)),
            _ => false,
        }
    }

    pub fn call_instance(
        &mut self,
        st: &mut State<'tcx>,
        inst: Instance<'tcx>,
        mut args: Vec<(Cells<'tcx>, TyAndLayout<'tcx>)>,
        dest: Pl<'tcx>,
        target: Option<mir::BasicBlock>,
    ) -> R<()> {
        let d = inst.def_id();
        let path = self.path(d);
        // built-in semantics
        let snap = st.clone();
        match models::model(self, st, &path, inst, &args, &dest, target) {
            Ok(models::M::Value(c)) => {
                self.write_pl(st, &dest, &c)?;
                return match target {
                    Some(t) => {
                        self.goto(st, t);
                        Ok(())
                    }
                    None => Err(Stop::Panic(path.to_string())),
                };
            }
            Ok(models::M::Jumped) => return Ok(()),
            Ok(models::M::Unknown) => {}
            Err(Stop::Fork(k, o)) => {
                let (replay, cur) = (std::mem::take(&mut st.replay), st.cur);
                *st = snap;
                st.replay = replay;
                st.cur = cur;
                return Err(Stop::Fork(k, o));
            }
            Err(e) => return Err(e),
        }
        if target.is_none() {
            return Err(Stop::Panic(path.to_string()));
        }
        match inst.def {
            InstanceKind::Virtual(_, idx) => {
                let (c, l) = &args[0];
                let vt = as_scalar(&st.env, &cells_read(&st.env, c, 8, 8), 8);
                let Sc::VT(ty, preds) = vt else { return unsup("virtual call") };
                let principal = preds.principal();
                let Some(tr) = principal else { return unsup("virtual call") };
                let tr = self.tcx.instantiate_bound_regions_with_erased(tr.with_self_ty(self.tcx, ty));
                let tr = self.tcx.erase_and_anonymize_regions(tr);
                let entries = self.tcx.vtable_entries(tr);
                let Some(ty::VtblEntry::Method(mi)) = entries.get(idx) else { return unsup("vtable entry") };
                let _ = l;
                let thin = cells_read(&st.env, c, 0, 8);
                let pt = Ty::new_mut_ptr(self.tcx, ty);
                args[0] = (thin, self.layout(pt)?);
                return self.push_frame(st, *mi, args, Some(dest), target);
            }
            InstanceKind::Item(d) => {
                if !self.tcx.is_mir_available(d) && self.tcx.is_constructor(d) {
                    let v = match dest.lay.ty.kind() {
                        ty::Adt(a, _) if a.is_enum() => a.variant_index_with_ctor_id(d),
                        ty::Adt(..) => rustc_abi::FIRST_VARIANT,
                        _ => return unsup(format!("no MIR for {}", path)),
                    };
                    let dl = dest.lay;
                    let lay = if dl.ty.is_enum() { dl.for_variant(&self.lcx(), v) } else { dl };
                    let mut tmp: Cells<'tcx> = vec![];
                    for (i, (c, l)) in args.iter().enumerate() {
                        cells_write(&st.env, &mut tmp, lay.fields.offset(i).bytes(), l.size.bytes(), c);
                    }
                    if dl.ty.is_enum() {
                        if let Some(t) = self.tag_for(&dl, v)? {
                            let c0 = Cell { off: 0, size: t.size, sc: t.sc };
                            cells_write(&st.env, &mut tmp, t.off, t.size, &[c0]);
                        }
                    }
                    self.write_pl(st, &dest, &tmp)?;
                    self.goto(st, target.unwrap());
                    return Ok(());
                }
                if !self.tcx.is_mir_available(d) {
                    return unsup(format!("no MIR for {}", path));
                }
            }
            InstanceKind::Intrinsic(d) => {
                let i = self.tcx.intrinsic(d).unwrap();
                if i.must_be_overridden {
                    return unsup(format!("intrinsic {}", path));
                }
                let inst2 = Instance::new_raw(d, inst.args);
                return self.push_frame(st, inst2, args, Some(dest), target);
            }
            InstanceKind::LlvmIntrinsic(_) => return unsup(format!("intrinsic {}", path)),
            InstanceKind::Shim(_) => {}
        }
        self.push_frame(st, inst, args, Some(dest), target)
    }

    fn terminator(&mut self, st: &mut State<'tcx>) -> R<()> {
        let f = st.frames.last().unwrap();
        let body = f.body.clone();
        let term = body.basic_blocks[f.bb].terminator();
        match &term.kind {
            TerminatorKind::Goto { target, .. } => {
                self.goto(st, *target);
                Ok(())
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let (v, _) = self.operand_sc(st, discr)?;
                let v = match v {
                    Sc::Int(v) => v,
                    Sc::Ptr(..) | Sc::Fn(_) => {
                        // a pointer never equals the small constants it is switched on
                        self.goto(st, targets.otherwise());
                        return Ok(());
                    }
                    _ => return unsup("branch on an unknown value"),
                };
                for (k, t) in targets.iter() {
                    let c = IntVal::c(v.w, k);
                    if self.decide(st, Cmp::Eq, false, &v, &c)? {
                        self.goto(st, t);
                        return Ok(());
                    }
                }
                self.goto(st, targets.otherwise());
                Ok(())
            }
            TerminatorKind::Return => self.pop_frame(st),
            TerminatorKind::Unreachable => Err(Stop::Kill),
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let (v, _) = self.operand_sc(st, cond)?;
                let Sc::Int(v) = v else { return unsup("assert on an unknown value") };
                let ok = self.decide(st, Cmp::Eq, false, &v, &IntVal::b(*expected))?;
                if ok {
                    self.goto(st, *target);
                    Ok(())
                } else {
                    let m = format!("{:?}", msg);
                    let m = m.split('(').next().unwrap_or("").chars().take(40).collect::<String>();
                    Err(Stop::Panic(format!("assert {}", m)))
                }
            }
            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                self.goto(st, *real_target);
                Ok(())
            }
            TerminatorKind::Drop { place, target, .. } => {
                let p = self.place(st, place)?;
                if !st.full_drop && !self.has_subject_drop(p.lay.ty, 0) {
                    self.goto(st, *target);
                    return Ok(());
                }
                let inst = Instance::resolve_drop_glue(self.tcx, p.lay.ty);
                let c = self.ptr_cells(&p);
                let pt = self.layout(Ty::new_mut_ptr(self.tcx, p.lay.ty))?;
                let unit = self.layout(self.tcx.types.unit)?;
                let dest = Pl { base: Base::None, meta: None, lay: unit };
                if let InstanceKind::Shim(ty::ShimKind::DropGlue(_, None)) = inst.def {
                    self.goto(st, *target);
                    return Ok(());
                }
                self.push_frame(st, inst, vec![(c, pt)], Some(dest), Some(*target))
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = self.op_ty(st, func)?;
                let mut vals = vec![];
                for a in args.iter() {
                    let (c, t) = self.operand(st, &a.node)?;
                    vals.push((c, self.layout(t)?));
                }
                let (inst, abi_rust_call) = match *fty.kind() {
                    ty::FnDef(d, ga) => {
                        let ga = ga.no_bound_vars().unwrap();
                        let i = Instance::expect_resolve(self.tcx, self.env, d, ga, term.source_info.span);
                        let sig = fty.fn_sig(self.tcx);
                        (i, sig.abi() == rustc_abi::ExternAbi::RustCall)
                    }
                    ty::FnPtr(..) => {
                        let (s, _) = self.operand_sc(st, func)?;
                        match s {
                            Sc::Fn(i) => {
                                if self.tcx.is_closure_like(i.def_id()) || matches!(i.def, InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. })) {
                                    // a closure turned into a function pointer: its (empty) environment is not passed
                                    let b = self.body(i)?;
                                    let l = self.layout(b.local_decls[mir::Local::from_usize(1)].ty)?;
                                    vals.insert(0, (vec![], l));
                                }
                                (i, fty.fn_sig(self.tcx).abi() == rustc_abi::ExternAbi::RustCall)
                            }
                            _ => return unsup("call through an unknown function pointer"),
                        }
                    }
                    _ => return unsup(format!("call of {:?}", fty)),
                };
                if abi_rust_call && !matches!(inst.def, InstanceKind::Virtual(..)) {
                    // untuple the last argument
                    if let Some((c, l)) = vals.pop() {
                        if let ty::Tuple(ts) = l.ty.kind() {
                            for (i, t) in ts.iter().enumerate() {
                                let fl = self.layout(t)?;
                                let off = l.fields.offset(i).bytes();
                                vals.push((cells_read(&st.env, &c, off, fl.size.bytes()), fl));
                            }
                        } else {
                            vals.push((c, l));
                        }
                    }
                } else if abi_rust_call {
                    if let Some((c, l)) = vals.pop() {
                        if let ty::Tuple(ts) = l.ty.kind() {
                            for (i, t) in ts.iter().enumerate() {
                                let fl = self.layout(t)?;
                                let off = l.fields.offset(i).bytes();
                                vals.push((cells_read(&st.env, &c, off, fl.size.bytes()), fl));
                            }
                        }
                    }
                }
                let dest = self.place(st, destination)?;
                self.call_instance(st, inst, vals, dest, *target)
            }
            TerminatorKind::InlineAsm { .. } => unsup("inline assembly"),
            k => unsup(format!("terminator {:?}", k)),
        }
    }

    fn step(&mut self, st: &mut State<'tcx>) -> R<()> {
        let f = st.frames.last().unwrap();
        let body = f.body.clone();
        let bb = &body.basic_blocks[f.bb];
        if f.stmt >= bb.statements.len() {
            return self.terminator(st);
        }
        let s = &bb.statements[f.stmt];
        match &s.kind {
            StatementKind::Assign(b) => {
                let (p, rv) = &**b;
                let pl = self.place(st, p)?;
                let c = self.rvalue(st, rv, &pl.lay)?;
                self.write_pl(st, &pl, &c)?;
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let pl = self.place(st, place)?;
                if let Some(t) = self.tag_for(&pl.lay, *variant_index)? {
                    let b = self.base_add(st, &pl.base, t.off as i64);
                    self.write_base(st, &b, t.size, &[Cell { off: 0, size: t.size, sc: t.sc }])?;
                }
            }
            StatementKind::StorageLive(l) | StatementKind::StorageDead(l) => {
                let i = l.as_usize();
                if let Some(a) = st.frames.last_mut().unwrap().locals[i].take() {
                    st.allocs[a as usize] = None;
                    st.free.push(a);
                }
            }
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::Assume(_) => {}
                NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                    let (s, sty) = self.operand_sc(st, &c.src)?;
                    let (d, _) = self.operand_sc(st, &c.dst)?;
                    let (n, _) = self.operand_sc(st, &c.count)?;
                    let es = self.layout(sty.builtin_deref(true).unwrap())?.size.bytes();
                    let Sc::Int(n) = n else { return unsup("copy count") };
                    let n = self.decide_value(st, &n, "copy count")? as u64;
                    let sb = self.base_of(&s)?;
                    let db = self.base_of(&d)?;
                    let cells = self.read_base(st, &sb, n * es)?;
                    self.write_base(st, &db, n * es, &cells)?;
                }
            },
            _ => {}
        }
        st.frames.last_mut().unwrap().stmt += 1;
        Ok(())
    }

    // ------------------------------------------------------------ driver
    pub fn run(&mut self, init: State<'tcx>) {
        let mut work = vec![init];
        let mut npaths = 0u64;
        let t0 = std::time::Instant::now();
        while let Some(mut st) = work.pop() {
            loop {
                if self.stats.steps % 64 == 0 && (t0.elapsed().as_secs() >= self.witness_s || self.deadline.map_or(false, |d| std::time::Instant::now() > d)) {
                    self.finding(&st, "analysis", "limit", "time limit exceeded".into());
                    return;
                }
                if st.cur == 0 {
                    st.replay.clear();
                    st.env0 = st.env.clone();
                }
                st.cur = 0;
                if st.env.dead {
                    break;
                }
                let r = self.step(&mut st);
                self.stats.steps += 1;
                st.steps += 1;
                match r {
                    Ok(()) => {
                        st.replay.clear();
                        st.cur = 0;
                        if st.steps > STEP_LIMIT {
                            self.finding(&st, "analysis", "limit", "step limit exceeded".into());
                            npaths += 1;
                            break;
                        }
                    }
                    Err(Stop::Fork(key, outs)) => {
                        if let Some(f) = st.frames.last() {
                            // a loop that keeps forking is not bounded by the inputs: stop
                            let key = (f.bb.as_u32(), st.frames.len());
                            let c = st.rfork.entry(key).or_insert(0);
                            *c += 1;
                            if *c > 400 {
                                self.finding(&st, "analysis", "limit", "loop with an unbounded trip count".into());
                                npaths += 1;
                                break;
                            }
                        }
                        let replay = st.replay.clone();
                        for (e, o) in outs.into_iter().rev() {
                            let mut n = st.clone();
                            n.env = e;
                            n.replay = replay.clone();
                            n.replay.push((key, o));
                            n.cur = 1; // keep the recorded decisions
                            n.nfork += 1;
                            work.push(n);
                        }
                        break;
                    }
                    Err(Stop::Done) => {
                        npaths += 1;
                        self.stats.paths += 1;
                        if st.frames.is_empty() {
                            models::path_end(self, &mut st);
                        }
                        break;
                    }
                    Err(Stop::Kill) => break,
                    Err(Stop::Panic(m)) => {
                        npaths += 1;
                        self.stats.paths += 1;
                        self.stats.panics += 1;
                        let site = self.site(&st);
                        *self.panic_sites.entry(format!("{} in {}", m, site)).or_insert(0) += 1;
                        models::path_panic(self, &mut st, &m);
                        break;
                    }
                    Err(Stop::Unsup(m)) => {
                        npaths += 1;
                        self.finding(&st, "analysis", "unsupported", m);
                        break;
                    }
                }
            }
            if npaths > PATH_LIMIT || work.len() > 20_000 {
                self.findings.push(Finding {
                    id: "analysis".into(),
                    kind: "limit".into(),
                    detail: "path limit exceeded".into(),
                    site: self.witness.clone(),
                });
                break;
            }
            if self.findings.len() > 100 {
                break;
            }
        }
    }
}

mod rustc_index_vec {
    extern crate rustc_index;
    pub use self::rustc_index::IndexVec;
}

pub fn new_state<'tcx>() -> State<'tcx> {
    State {
        allocs: vec![],
        free: vec![],
        frames: vec![],
        env: Env::default(),
        log: Rc::new(vec![]),
        mark: 0,
        regions: vec![],
        globals: Rc::new(HashMap::new()),
        env0: Env::default(),
        replay: vec![],
        cur: 0,
        steps: 0,
        panics_ok: false,
        ticks: HashMap::new(),
        effects: Rc::new(vec![]),
        io: Rc::new(vec![]),
        faults: false,
        failed: false,
        full_drop: false,
        cap: None,
        confine: None,
        calm: None,
        page: None,
        spec: None,
        nhavoc: 0,
        notes: Rc::new(vec![]),
        nfork: 0,
        snaps: vec![],
        rfork: HashMap::new(),
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn analyse_crate<'tcx>(tcx: TyCtxt<'tcx>, meta: &HashMap<String, Meta>, only: Option<&str>, inv_in: Option<&str>, inv_out: Option<&str>, limits: (u64, u64)) -> Vec<String> {
    let mut out = vec![];
    let mut fns: Vec<(String, DefId)> = vec![];
    for ld in tcx.hir_body_owners() {
        let d = ld.to_def_id();
        if tcx.def_kind(d) == DefKind::Fn {
            let name = tcx.item_name(d).to_string();
            if name.starts_with("w_") {
                fns.push((name, d));
            }
        }
    }
    fns.sort_by(|a, b| a.0.cmp(&b.0));
    let mut cx = Cx {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        bodies: HashMap::new(),
        paths: HashMap::new(),
        meta,
        witness: String::new(),
        findings: vec![],
        stats: Stats::default(),
        funcs: Default::default(),
        panic_sites: Default::default(),
        outputs: vec![],
        accept: HashMap::new(),
        invariants: HashMap::new(),
        relations: vec![],
        deadline: None,
        witness_s: u64::MAX,
        leaf_out: HashMap::new(),
        inv_notes: vec![],
        inv_rounds: 0,
    };
    cx.witness_s = limits.0;
    cx.deadline = std::time::Instant::now().checked_add(std::time::Duration::from_secs(limits.1));
    // invariant inference first (witnesses named w_inv_*)
    let inv: Vec<(String, DefId)> = fns.iter().filter(|(n, _)| n.starts_with("w_inv_")).cloned().collect();
    match inv_in {
        Some(p) => {
            for l in std::fs::read_to_string(p).expect("invariant file").lines() {
                let f: Vec<&str> = l.split('\t').collect();
                if f[0] == "<=" {
                    cx.relations.push((f[1].to_string(), f[2].to_string()));
                    continue;
                }
                let s = f[1].split(';').map(|r| r.split_once(',').unwrap()).map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())).collect();
                cx.invariants.insert(f[0].to_string(), ISet(s));
            }
        }
        None => models::infer_invariants(&mut cx, &inv),
    }
    if let Some(p) = inv_out {
        let mut v: Vec<String> = cx
            .invariants
            .iter()
            .map(|(k, s)| format!("{}\t{}", k, s.0.iter().map(|(a, b)| format!("{},{}", a, b)).collect::<Vec<_>>().join(";")))
            .collect();
        v.sort();
        v.extend(cx.relations.iter().map(|(a, b)| format!("<=\t{}\t{}", a, b)));
        std::fs::write(p, v.join("\n") + "\n").expect("cannot write invariants");
    }
    {
        let nn: Vec<String> = cx.inv_notes.iter().map(|s| js(s)).collect();
        out.push(format!("{{\"inference_rounds\":{},\"inference_notes\":[{}]}}", cx.inv_rounds, nn.join(",")));
        let mut v: Vec<String> =
            cx.invariants.iter().map(|(k, s)| format!("{}:[[{},{}]]", js(k), s.lo(), s.hi())).collect();
        v.sort();
        out.push(format!("{{\"invariants\":{{{}}}}}", v.join(",")));
    }
    for (name, d) in &fns {
        if name.starts_with("w_inv_") {
            continue;
        }
        if let Some(o) = only {
            if o != name {
                continue;
            }
        }
        let t0 = std::time::Instant::now();
        run_witness(&mut cx, name, *d);
        let fs: Vec<String> = cx
            .findings
            .iter()
            .map(|f| {
                format!(
                    "{{\"id\":{},\"kind\":{},\"detail\":{},\"site\":{}}}",
                    js(&f.id),
                    js(&f.kind),
                    js(&f.detail),
                    js(&f.site)
                )
            })
            .collect();
        let ps: Vec<String> = cx.panic_sites.iter().map(|(k, n)| format!("[{},{}]", js(k), n)).collect();
        let os: Vec<String> = cx.outputs.iter().map(|s| js(s)).collect();
        let s = &cx.stats;
        out.push(format!(
            "{{\"witness\":{},\"paths\":{},\"panics\":{},\"steps\":{},\"obligations\":{},\"writes\":{},\"decodes\":{},\"ms\":{},\"findings\":[{}],\"panic_sites\":[{}],\"outputs\":[{}]}}",
            js(name), s.paths, s.panics, s.steps, s.obligations, s.writes, s.decodes,
            t0.elapsed().as_millis(), fs.join(","), ps.join(","), os.join(",")
        ));
    }
    let fl: Vec<String> = cx.funcs.iter().map(|f| js(f)).collect();
    out.push(format!("{{\"functions\":[{}]}}", fl.join(",")));
    out
}

pub fn run_witness<'tcx>(cx: &mut Cx<'tcx, '_>, name: &str, d: DefId) {
    reset_vars();
    cx.witness = name.to_string();
    cx.findings.clear();
    cx.stats = Stats::default();
    cx.panic_sites.clear();
    cx.outputs.clear();
    cx.accept.clear();
    let inst = Instance::mono(cx.tcx, d);
    let mut st = new_state();
    if let Err(_) = cx.push_frame(&mut st, inst, vec![], None, None) {
        cx.findings.push(Finding {
            id: "analysis".into(),
            kind: "unsupported".into(),
            detail: "cannot enter witness".into(),
            site: name.into(),
        });
        return;
    }
    cx.run(st);
    models::witness_end(cx);
}

/// names of the local variables of every witness (and of the closures in it), macro-introduced ones included
pub fn local_names<'tcx>(tcx: TyCtxt<'tcx>) -> Vec<String> {
    let mut m: std::collections::BTreeMap<String, std::collections::BTreeSet<String>> = Default::default();
    for ld in tcx.hir_body_owners() {
        let d = ld.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::Closure) {
            continue;
        }
        let root = tcx.typeck_root_def_id(d);
        if tcx.def_kind(root) != DefKind::Fn {
            continue;
        }
        let name = tcx.item_name(root).to_string();
        if !name.starts_with("w_") {
            continue;
        }
        let body = tcx.optimized_mir(d);
        let e = m.entry(name).or_default();
        for v in &body.var_debug_info {
            e.insert(v.name.to_string());
        }
    }
    m.iter()
        .map(|(k, v)| format!("{{\"witness\":{},\"locals\":[{}]}}", js(k), v.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")))
        .collect()
}

pub fn _unused(_: Size) {}

fn float_op(op: BinOp, w: u32, p: u128, q: u128) -> Option<u128> {
    macro_rules! go {
        ($t:ty, $b:ty) => {{
            let (x, y) = (<$t>::from_bits(p as $b), <$t>::from_bits(q as $b));
            let r = match op {
                BinOp::Add => x + y,
                BinOp::Sub => x - y,
                BinOp::Mul => x * y,
                BinOp::Div => x / y,
                BinOp::Rem => x % y,
                _ => return None,
            };
            // the payload of a computed NaN is not specified
            if r.is_nan() {
                return None;
            }
            Some(r.to_bits() as u128)
        }};
    }
    match w {
        64 => go!(f64, u64),
        32 => go!(f32, u32),
        _ => None,
    }
}
