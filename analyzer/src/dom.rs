//! Abstract domain: a reduced product of
//!   * bit vectors whose bits are 0, 1, "bit k of input v" or unknown (known-bits with provenance),
//!   * affine forms over inputs (mod 2^w),
//!   * value sets (finite unions of intervals) for the inputs.
//! No terms, no path formulas, no solver: every transfer function and every decision below is a
//! closed-form computation on these three components.

use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type VarId = u32;

// ---------------------------------------------------------------- value sets
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct ISet(pub Vec<(i128, i128)>);

impl ISet {
    pub fn range(lo: i128, hi: i128) -> ISet {
        if lo > hi {
            ISet(vec![])
        } else {
            ISet(vec![(lo, hi)])
        }
    }
    pub fn single(v: i128) -> ISet {
        ISet(vec![(v, v)])
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn lo(&self) -> i128 {
        self.0.first().map(|x| x.0).unwrap_or(0)
    }
    pub fn hi(&self) -> i128 {
        self.0.last().map(|x| x.1).unwrap_or(-1)
    }
    pub fn as_single(&self) -> Option<i128> {
        if self.0.len() == 1 && self.0[0].0 == self.0[0].1 {
            Some(self.0[0].0)
        } else {
            None
        }
    }
    pub fn size(&self) -> u128 {
        let mut n: u128 = 0;
        for (a, b) in &self.0 {
            n = n.saturating_add((b - a) as u128 + 1);
        }
        n
    }
    pub fn contains(&self, v: i128) -> bool {
        self.0.iter().any(|(a, b)| *a <= v && v <= *b)
    }
    pub fn iter(&self) -> impl Iterator<Item = i128> + '_ {
        self.0.iter().flat_map(|(a, b)| *a..=*b)
    }
    pub fn from_sorted(vals: &[i128]) -> ISet {
        let mut out: Vec<(i128, i128)> = vec![];
        for &v in vals {
            if let Some(l) = out.last_mut() {
                if l.1 + 1 == v {
                    l.1 = v;
                    continue;
                }
            }
            out.push((v, v));
        }
        ISet(out)
    }
    pub fn inter(&self, lo: i128, hi: i128) -> ISet {
        let mut out = vec![];
        for (a, b) in &self.0 {
            let x = (*a).max(lo);
            let y = (*b).min(hi);
            if x <= y {
                out.push((x, y));
            }
        }
        ISet(out)
    }
    pub fn inter_set(&self, o: &ISet) -> ISet {
        let mut out = vec![];
        for (a, b) in &o.0 {
            out.extend(self.inter(*a, *b).0);
        }
        ISet(out)
    }
    pub fn minus_point(&self, v: i128) -> ISet {
        let mut out = vec![];
        for (a, b) in &self.0 {
            if v < *a || v > *b {
                out.push((*a, *b));
            } else {
                if *a < v {
                    out.push((*a, v - 1));
                }
                if v < *b {
                    out.push((v + 1, *b));
                }
            }
        }
        ISet(out)
    }
    pub fn union(&self, o: &ISet) -> ISet {
        let mut v: Vec<(i128, i128)> = self.0.iter().chain(o.0.iter()).cloned().collect();
        v.sort();
        let mut out: Vec<(i128, i128)> = vec![];
        for (a, b) in v {
            if let Some(l) = out.last_mut() {
                if a <= l.1.saturating_add(1) {
                    l.1 = l.1.max(b);
                    continue;
                }
            }
            out.push((a, b));
        }
        ISet(out)
    }
    pub fn subset_of(&self, o: &ISet) -> bool {
        self.inter_set(o).size() == self.size()
    }
}

// ---------------------------------------------------------------- affine forms
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Aff {
    pub k: i128,
    pub t: Vec<(VarId, i128)>,
}

impl Aff {
    pub fn cst(k: i128) -> Aff {
        Aff { k, t: vec![] }
    }
    pub fn var(v: VarId) -> Aff {
        Aff { k: 0, t: vec![(v, 1)] }
    }
    pub fn add_scaled(&self, o: &Aff, c: i128) -> Option<Aff> {
        let mut t: Vec<(VarId, i128)> = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) {
                t.push(self.t[i]);
                i += 1;
            } else if i >= self.t.len() || o.t[j].0 < self.t[i].0 {
                t.push((o.t[j].0, o.t[j].1.checked_mul(c)?));
                j += 1;
            } else {
                let s = self.t[i].1.checked_add(o.t[j].1.checked_mul(c)?)?;
                if s != 0 {
                    t.push((self.t[i].0, s));
                }
                i += 1;
                j += 1;
            }
        }
        Some(Aff { k: self.k.checked_add(o.k.checked_mul(c)?)?, t })
    }
    pub fn add(&self, o: &Aff) -> Option<Aff> {
        self.add_scaled(o, 1)
    }
    pub fn sub(&self, o: &Aff) -> Option<Aff> {
        self.add_scaled(o, -1)
    }
    pub fn scale(&self, c: i128) -> Option<Aff> {
        Aff::cst(0).add_scaled(self, c)
    }
    pub fn plus(&self, k: i128) -> Aff {
        Aff { k: self.k + k, t: self.t.clone() }
    }
    pub fn as_const(&self) -> Option<i128> {
        if self.t.is_empty() {
            Some(self.k)
        } else {
            None
        }
    }
}

// ---------------------------------------------------------------- variables
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum VarKind {
    Input(Rc<str>),
    /// value of an affine form, named so that its bits can be tracked
    Def(Rc<Aff>),
    /// low k bits of v
    Low(VarId, u32),
    /// v >> k (floor)
    Shr(VarId, u32),
    /// initial content of the code region at an address
    Init(Rc<Aff>),
    /// result of an operation the domain has no form for
    Term(char, bool, Rc<(IntVal, IntVal)>),
    Fresh(u64),
}

#[derive(Default)]
pub struct VarTab {
    pub kinds: Vec<VarKind>,
    pub base: Vec<ISet>,
    map: HashMap<VarKind, VarId>,
    fresh: u64,
}

thread_local! {
    pub static VARS: RefCell<VarTab> = RefCell::new(VarTab::default());
}

pub fn reset_vars() {
    CANON.with(|c| c.borrow_mut().clear());
    MCANON.with(|c| c.borrow_mut().clear());
    VARS.with(|v| *v.borrow_mut() = VarTab::default());
    BITS.with(|v| *v.borrow_mut() = BitTab::default());
}

pub fn intern_var(k: VarKind, base: ISet) -> VarId {
    VARS.with(|v| {
        let mut v = v.borrow_mut();
        if let Some(id) = v.map.get(&k) {
            return *id;
        }
        let id = v.kinds.len() as VarId;
        v.kinds.push(k.clone());
        v.base.push(base);
        v.map.insert(k, id);
        id
    })
}
pub fn fresh_var(base: ISet) -> VarId {
    let n = VARS.with(|v| {
        let mut v = v.borrow_mut();
        v.fresh += 1;
        v.fresh
    });
    intern_var(VarKind::Fresh(n), base)
}
pub fn input_var(name: &str, base: ISet) -> VarId {
    intern_var(VarKind::Input(name.into()), base)
}
pub fn var_kind(v: VarId) -> VarKind {
    VARS.with(|t| t.borrow().kinds[v as usize].clone())
}
pub fn var_base(v: VarId) -> ISet {
    VARS.with(|t| t.borrow().base[v as usize].clone())
}
pub fn var_name(v: VarId) -> String {
    match var_kind(v) {
        VarKind::Input(s) => s.to_string(),
        VarKind::Def(a) => format!("({})", show_aff(&a)),
        VarKind::Low(x, k) => format!("low{}({})", k, var_name(x)),
        VarKind::Shr(x, k) => format!("({}>>{})", var_name(x), k),
        VarKind::Init(a) => format!("mem0[{}]", show_aff(&a)),
        VarKind::Fresh(n) => format!("?{}", n),
        VarKind::Term(op, _, ab) => {
            let e = Env::default();
            format!("({} {} {})", ab.0.show(&e), op, ab.1.show(&e))
        }
    }
}
pub fn show_aff(a: &Aff) -> String {
    let mut s = String::new();
    for (v, c) in &a.t {
        if !s.is_empty() {
            s.push_str(" + ");
        }
        if *c == 1 {
            s.push_str(&var_name(*v));
        } else {
            s.push_str(&format!("{}*{}", c, var_name(*v)));
        }
    }
    if a.k != 0 || s.is_empty() {
        if !s.is_empty() {
            s.push_str(" + ");
        }
        s.push_str(&format!("{}", a.k));
    }
    s
}

// ---------------------------------------------------------------- environment
#[derive(Clone, Default)]
pub struct Env {
    pub sets: Rc<HashMap<VarId, ISet>>,
    /// affine forms known to be >= 0
    pub facts: Rc<Vec<Aff>>,
    /// the Low(x, k) whose values are restricted, x without a constant term
    pub lows: Rc<Vec<VarId>>,
    /// relations between the fields of an arbitrary state: affine forms known to be >= 0
    pub rels: Rc<Vec<Aff>>,
    /// the Low(x, k) whose values are restricted, for the bits of x: (x, k, Low(x, k))
    pub cuts: Rc<Vec<(VarId, u32, VarId)>>,
    /// branches taken whose condition the domain cannot express
    pub preds: Rc<Vec<(Cmp, bool, IntVal, IntVal, bool)>>,
    /// some value set is empty: no valuation is in this state
    pub dead: bool,
}

impl Env {
    /// what the restricted low bits of congruent values leave of a Low(x, k)
    fn low_set(&self, v: VarId, mut s: ISet) -> ISet {
        let VarKind::Low(_, k @ 0..=12) = var_kind(v) else { return s };
        if s.size() <= 1 {
            return s;
        }
        let m = 1i128 << k;
        let (d0, c) = low_canon(v);
        if s.size() <= 4096 {
            // low bits that are the same for every valuation
            for kk in [8u32, 4, 3, 2, 1] {
                if kk < k {
                    if let Some(r) = residue(&def_aff(d0), kk) {
                        let mm = 1i128 << kk;
                        let vs: Vec<i128> = s.iter().filter(|x| (x - c - r).rem_euclid(mm) == 0).collect();
                        s = ISet::from_sorted(&vs);
                        break;
                    }
                }
            }
        }
        for w in self.lows.iter() {
            let VarKind::Low(d, n) = var_kind(*w) else { continue };
            if d != d0 && (n == k || mod_canon(d, n.min(k)) != mod_canon(d0, n.min(k))) {
                continue;
            }
            let Some(ws) = self.sets.get(w) else { continue };
            if n > k && ws.size() > 4096 {
                continue;
            }
            // values congruent modulo the smaller power only are compared there
            let img: Option<Vec<bool>> = if n > k {
                let mut ok = vec![false; m as usize];
                ws.iter().for_each(|x| ok[(x & (m - 1)) as usize] = true);
                Some(ok)
            } else {
                None
            };
            if s.size() <= 4096 {
                let vs: Vec<i128> = s
                    .iter()
                    .filter(|x| {
                        let y = (x - c).rem_euclid(m);
                        match &img {
                            Some(ok) => ok[y as usize],
                            None => ws.contains(y & ((1i128 << n) - 1)),
                        }
                    })
                    .collect();
                s = ISet::from_sorted(&vs);
            }
        }
        s
    }
    pub fn set_of(&self, v: VarId) -> ISet {
        if !self.lows.is_empty() && matches!(var_kind(v), VarKind::Low(..)) {
            let s = self.set_of0(v);
            return self.low_set(v, s);
        }
        self.set_of0(v)
    }
    fn set_of0(&self, v: VarId) -> ISet {
        if let Some(s) = self.sets.get(&v) {
            return s.clone();
        }
        match var_kind(v) {
            VarKind::Def(a) => {
                let (lo, hi) = self.interval(&a);
                ISet::range(lo, hi)
            }
            VarKind::Low(x, k) => {
                let s = self.set_of(x);
                let m = 1i128 << k;
                if s.size() <= 4096 {
                    let mut vs: Vec<i128> = s.iter().map(|x| x & (m - 1)).collect();
                    vs.sort();
                    vs.dedup();
                    return ISet::from_sorted(&vs);
                }
                if !s.is_empty() && s.lo() >> k == s.hi() >> k {
                    return ISet::range(s.lo() & (m - 1), s.hi() & (m - 1));
                }
                var_base(v)
            }
            VarKind::Shr(x, k) => {
                let s = self.set_of(x);
                ISet::range(s.lo() >> k, s.hi() >> k)
            }
            _ => var_base(v),
        }
    }
    pub fn with_set(&self, v: VarId, s: ISet) -> Env {
        let mut e = self.clone();
        e.dead |= s.is_empty();
        if let VarKind::Def(a) = var_kind(v) {
            if let [(x, c @ (1 | -1))] = a.t[..] {
                // x = c * (v - k)
                let mut iv: Vec<(i128, i128)> = s.0.iter().map(|(l, h)| if c == 1 { (l - a.k, h - a.k) } else { (a.k - h, a.k - l) }).collect();
                iv.sort();
                let xs = e.set_of(x).inter_set(&ISet(iv));
                e = e.with_set(x, xs);
            }
        }
        if let VarKind::Low(x, k) = var_kind(v) {
            if !e.cuts.iter().any(|c| c.2 == v) {
                Rc::make_mut(&mut e.cuts).push((x, k, v));
            }
        }
        if let VarKind::Low(_, k @ 0..=12) = var_kind(v) {
            let (d0, c) = low_canon(v);
            let u = low_var(d0, k);
            if !e.lows.contains(&u) {
                Rc::make_mut(&mut e.lows).push(u);
            }
            if u != v {
                let m = 1i128 << k;
                let old = e.set_of(u);
                let mut vs: Vec<i128> = s.iter().map(|x| (x - c).rem_euclid(m)).filter(|x| old.contains(*x)).collect();
                vs.sort();
                e.dead |= vs.is_empty();
                Rc::make_mut(&mut e.sets).insert(u, ISet::from_sorted(&vs));
            }
        }
        Rc::make_mut(&mut e.sets).insert(v, s);
        e
    }
    pub fn with_fact(&self, mut a: Aff) -> Env {
        let mut e = self.clone();
        // tighten by the residue: X >= 0 and X = r (mod m) give X >= r
        if a.t.iter().any(|(v, _)| matches!(var_kind(*v), VarKind::Low(..))) {
            for k in [12u32, 4, 3, 2] {
                if let Some(r) = residue(&a, k) {
                    a.k -= r;
                    break;
                }
            }
        }
        // of facts over the same terms the one with the smallest constant implies the others
        if let Some(i) = e.facts.iter().position(|f| f.t == a.t) {
            if a.k < e.facts[i].k {
                Rc::make_mut(&mut e.facts)[i] = a;
            }
        } else {
            Rc::make_mut(&mut e.facts).push(a);
        }
        e
    }
    /// substitute inputs that are pinned to one value
    pub fn simp(&self, a: &Aff) -> Aff {
        let mut out = a.clone();
        let mut changed = false;
        for (v, _) in &a.t {
            if self.set_of(*v).as_single().is_some() {
                changed = true;
            }
        }
        if changed {
            out = Aff::cst(a.k);
            for (v, c) in &a.t {
                if let Some(x) = self.set_of(*v).as_single() {
                    out.k += x * c;
                } else {
                    out.t.push((*v, *c));
                }
            }
        }
        // Low(D,k) where D < 2^k is D itself
        for (v, c) in out.t.clone() {
            if let VarKind::Low(d, k) = var_kind(v) {
                let s = self.set_of(d);
                if !s.is_empty() && s.lo() >= 0 && s.hi() < (1i128 << k) {
                    let da = def_aff(d);
                    let without = out.add_scaled(&Aff::var(v), -c);
                    if let Some(w) = without {
                        if let Some(r) = w.add_scaled(&da, c) {
                            return self.simp(&r);
                        }
                    }
                }
            }
        }
        out
    }
    pub fn interval(&self, a: &Aff) -> (i128, i128) {
        let (mut lo, mut hi) = (a.k, a.k);
        for (v, c) in &a.t {
            let s = self.set_of(*v);
            let (x, y) = (s.lo().saturating_mul(*c), s.hi().saturating_mul(*c));
            lo = lo.saturating_add(x.min(y));
            hi = hi.saturating_add(x.max(y));
        }
        // X - Low(X,k) (+ rest): floor to a multiple of 2^k
        let mut low = false;
        for (v, c) in &a.t {
            if let VarKind::Low(d, k) = var_kind(*v) {
                low = true;
                if *c != 1 && *c != -1 {
                    continue;
                }
                let da = def_aff(d);
                let m = 1i128 << k;
                if let Some(rest) = da.add_scaled(&Aff::var(*v), -1).and_then(|g| a.add_scaled(&g, *c)) {
                    if rest.t.iter().all(|(w, _)| w != v) && rest.t.len() + 1 <= a.t.len() {
                        let (dl, dh) = self.interval(&da);
                        let (rl, rh) = self.interval(&rest);
                        let ls = self.set_of(*v);
                        if ls.is_empty() {
                            continue;
                        }
                        let fl = div_ceil(dl.saturating_sub(ls.hi()), m) * m;
                        let fh = dh.saturating_sub(ls.lo()).div_euclid(m) * m;
                        if *c == -1 {
                            lo = lo.max(fl + rl);
                            hi = hi.min(fh + rh);
                        } else {
                            lo = lo.max(rl - fh);
                            hi = hi.min(rh - fl);
                        }
                    }
                }
            }
        }
        if low || !self.lows.is_empty() {
            for k in [12u32, 4, 3, 2] {
                if let Some(r) = residue_in(self, a, k) {
                    let m = 1i128 << k;
                    lo += (r - lo).rem_euclid(m);
                    hi -= (hi - r).rem_euclid(m);
                    break;
                }
            }
        }
        (lo, hi)
    }
    pub fn proves_nonneg(&self, a: &Aff) -> bool {
        if self.interval(a).0 >= 0 {
            return true;
        }
        for f in self.facts.iter() {
            if let Some(d) = a.sub(f) {
                if self.interval(&d).0 >= 0 {
                    return true;
                }
            }
        }
        for (i, f) in self.facts.iter().enumerate() {
            for g in self.facts.iter().skip(i) {
                if let Some(d) = a.sub(f).and_then(|d| d.sub(g)) {
                    if self.interval(&d).0 >= 0 {
                        return true;
                    }
                }
            }
        }
        for r in self.rels.iter() {
            if !r.t.iter().all(|(v, _)| a.t.iter().any(|(w, _)| v == w)) {
                continue;
            }
            if let Some(d) = a.sub(r) {
                if self.interval(&d).0 >= 0 {
                    return true;
                }
                for f in self.facts.iter().chain(self.rels.iter()) {
                    if d.sub(f).map_or(false, |x| self.interval(&x).0 >= 0) {
                        return true;
                    }
                }
            }
        }
        false
    }
    /// canonical form of "bit k of v"
    pub fn bit(&self, v: VarId, k: u32) -> Bit {
        let s = self.set_of(v);
        if s.is_empty() {
            return Bit::Zero;
        }
        if let Some(x) = s.as_single() {
            return if (x >> k.min(127)) & 1 == 1 { Bit::One } else { Bit::Zero };
        }
        let (lo, hi) = (s.lo(), s.hi());
        // constant bit?
        if k < 127 {
            if (lo >> k) == (hi >> k) {
                return if (lo >> k) & 1 == 1 { Bit::One } else { Bit::Zero };
            }
        }
        if s.size() <= 256 {
            let mut it = s.iter();
            let f = (it.next().unwrap() >> k.min(127)) & 1;
            if it.all(|x| (x >> k.min(127)) & 1 == f) {
                return if f == 1 { Bit::One } else { Bit::Zero };
            }
        }
        match var_kind(v) {
            VarKind::Low(d, n) => {
                if k >= n {
                    return Bit::Zero;
                }
                return self.bit(d, k);
            }
            VarKind::Shr(d, n) => return self.bit(d, k + n),
            VarKind::Def(a) => {
                // x - (x mod 2^n): the low n bits cleared
                for (l, c) in a.t.iter() {
                    if *c != -1 {
                        continue;
                    }
                    if let VarKind::Low(d, n) = var_kind(*l) {
                        let rest = Aff { k: a.k, t: a.t.iter().filter(|x| x.0 != *l).cloned().collect() };
                        if def_var(&rest) == d {
                            return if k < n { Bit::Zero } else { self.bit(d, k) };
                        }
                    }
                }
            }
            _ => {}
        }
        for (x, n, l) in self.cuts.iter() {
            if *x == v && k < *n {
                let ls = &self.sets[l];
                if !ls.is_empty() && ls.lo() >> k == ls.hi() >> k {
                    return if (ls.lo() >> k) & 1 == 1 { Bit::One } else { Bit::Zero };
                }
            }
        }
        // sign bits: for s within [-2^m, 2^m) all bits >= m are equal
        let mut m = 0;
        while m < 126 && !(lo >= -(1i128 << m) && hi < (1i128 << m)) {
            m += 1;
        }
        Bit::In(v, k.min(m) as u8)
    }
    pub fn norm_bit(&self, b: Bit) -> Bit {
        match b {
            Bit::In(v, k) => self.bit(v, k as u32),
            Bit::NotIn(v, k) => bit_not(self.bit(v, k as u32)),
            Bit::E(e) => {
                let (op, x, y) = bit_node(e);
                bit_op(op, self.norm_bit(x), self.norm_bit(y))
            }
            b => b,
        }
    }
}

/// names a decision
pub fn key_of<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish() | 1 << 63
}
pub fn def_aff(v: VarId) -> Aff {
    match var_kind(v) {
        VarKind::Def(a) => (*a).clone(),
        _ => Aff::var(v),
    }
}
/// the variable standing for the value of an affine form
pub fn def_var(a: &Aff) -> VarId {
    if a.k == 0 && a.t.len() == 1 && a.t[0].1 == 1 {
        return a.t[0].0;
    }
    intern_var(VarKind::Def(Rc::new(a.clone())), ISet(vec![]))
}
/// the low k bits of the value named v
fn low_aff(v: VarId, k: u32) -> Aff {
    let a = def_aff(v);
    if let Some(r) = residue(&a, k) {
        return Aff::cst(r);
    }
    if a.t.iter().any(|(x, _)| matches!(var_kind(*x), VarKind::Low(_, n) if n >= k)) {
        return Aff::var(low_var(def_var(&congr(&a, k)), k));
    }
    Aff::var(low_var(v, k))
}
/// an affine form congruent to a modulo 2^k, with Low(x, n >= k) replaced by x and coefficients reduced
pub fn congr(a: &Aff, k: u32) -> Aff {
    let m = 1i128 << k;
    let mut cur = a.clone();
    for _ in 0..64 {
        let pick = cur.t.iter().find_map(|(v, c)| match var_kind(*v) {
            VarKind::Low(d, n) if n >= k => Some((*v, *c, d)),
            VarKind::Def(_) => Some((*v, *c, *v)),
            _ => None,
        });
        match pick {
            Some((v, c, d)) => match cur.add_scaled(&Aff::var(v), -c).and_then(|x| x.add_scaled(&def_aff(d), c)) {
                Some(x) => cur = x,
                None => break,
            },
            None => break,
        }
    }
    Aff { k: cur.k.rem_euclid(m), t: cur.t.iter().map(|(v, c)| (*v, c.rem_euclid(m))).filter(|x| x.1 != 0).collect() }
}
/// the value of a modulo 2^k, when it is the same for every valuation
pub fn residue(a: &Aff, k: u32) -> Option<i128> {
    congr(a, k).as_const()
}
/// Low(x, k) = (Low(x0, k) + c) mod 2^k, x0 without a constant term
fn low_canon(v: VarId) -> (VarId, i128) {
    if let Some(r) = CANON.with(|c| c.borrow().get(&v).cloned()) {
        return r;
    }
    let VarKind::Low(d, k) = var_kind(v) else { return (v, 0) };
    let mut a = congr(&def_aff(d), k);
    let c = a.k;
    a.k = 0;
    let r = (def_var(&a), c);
    CANON.with(|m| m.borrow_mut().insert(v, r));
    r
}
fn mod_canon(d: VarId, k: u32) -> VarId {
    if let Some(r) = MCANON.with(|c| c.borrow().get(&(d, k)).cloned()) {
        return r;
    }
    let r = def_var(&congr(&def_aff(d), k));
    MCANON.with(|m| m.borrow_mut().insert((d, k), r));
    r
}
thread_local! {
    static MCANON: std::cell::RefCell<HashMap<(VarId, u32), VarId>> = Default::default();
    static CANON: std::cell::RefCell<HashMap<VarId, (VarId, i128)>> = Default::default();
}
/// the value of a modulo 2^k, using the low bits the state pins (elimination modulo 2^k)
pub fn residue_in(env: &Env, a: &Aff, k: u32) -> Option<i128> {
    let m = 1i128 << k;
    let mut c = congr(a, k);
    if c.t.is_empty() || env.lows.is_empty() {
        return c.as_const();
    }
    let fold = |x: Aff| Aff { k: x.k.rem_euclid(m), t: x.t.iter().map(|(v, c)| (*v, c.rem_euclid(m))).filter(|x| x.1 != 0).collect() };
    let inv = |x: i128| {
        let mut y = 1i128;
        for _ in 0..6 {
            y = (y * (2 - x * y)).rem_euclid(m);
        }
        y
    };
    let mut rows: Vec<(VarId, Aff)> = vec![];
    for v in env.lows.iter() {
        let VarKind::Low(d, n) = var_kind(*v) else { continue };
        if n < k {
            continue;
        }
        let Some(r) = env.sets.get(v).and_then(|s| s.as_single()) else { continue };
        let mut p = congr(&def_aff(d).plus(-r), k);
        for (x, row) in &rows {
            if let Some((_, q)) = p.t.iter().find(|t| t.0 == *x).cloned() {
                p = fold(p.add_scaled(row, -q)?);
            }
        }
        if let Some((x, q)) = p.t.iter().find(|t| t.1 & 1 == 1).cloned() {
            rows.push((x, fold(p.scale(inv(q))?)));
        }
    }
    for (x, row) in &rows {
        if let Some((_, q)) = c.t.iter().find(|t| t.0 == *x).cloned() {
            c = fold(c.add_scaled(row, -q)?);
        }
    }
    c.as_const()
}
fn low_var(v: VarId, k: u32) -> VarId {
    intern_var(VarKind::Low(v, k), ISet::range(0, (1i128 << k) - 1))
}
fn shr_var(v: VarId, k: u32) -> VarId {
    intern_var(VarKind::Shr(v, k), ISet(vec![]))
}

// ---------------------------------------------------------------- abstract integers
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Bit {
    Zero,
    One,
    In(VarId, u8),
    NotIn(VarId, u8),
    /// a boolean combination of other bits (see `BITS`)
    E(u32),
    Top,
}

/// combinations of bits: '&', '|', '^' (a negated bit is '^' with One)
#[derive(Default)]
pub struct BitTab {
    nodes: Vec<(char, Bit, Bit, u8)>,
    map: HashMap<(char, Bit, Bit), u32>,
}
thread_local! {
    static BITS: RefCell<BitTab> = RefCell::new(BitTab::default());
}
fn bit_node(e: u32) -> (char, Bit, Bit) {
    BITS.with(|t| {
        let n = &t.borrow().nodes[e as usize];
        (n.0, n.1, n.2)
    })
}
pub fn bit_not(b: Bit) -> Bit {
    match b {
        Bit::Zero => Bit::One,
        Bit::One => Bit::Zero,
        Bit::In(v, k) => Bit::NotIn(v, k),
        Bit::NotIn(v, k) => Bit::In(v, k),
        Bit::Top => Bit::Top,
        Bit::E(e) => match bit_node(e) {
            ('^', Bit::One, x) => x,
            _ => bit_expr('^', Bit::One, b),
        },
    }
}
fn bit_expr(op: char, x: Bit, y: Bit) -> Bit {
    BITS.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(e) = t.map.get(&(op, x, y)) {
            return Bit::E(*e);
        }
        let dep = |b: Bit| if let Bit::E(e) = b { t.nodes[e as usize].3 } else { 0 };
        let d = 1 + dep(x).max(dep(y));
        if d > 12 {
            return Bit::Top;
        }
        let e = t.nodes.len() as u32;
        t.nodes.push((op, x, y, d));
        t.map.insert((op, x, y), e);
        Bit::E(e)
    })
}
pub fn bit_op(op: char, x: Bit, y: Bit) -> Bit {
    match op {
        '&' => match (x, y) {
            (Bit::Zero, _) | (_, Bit::Zero) => Bit::Zero,
            (Bit::One, z) | (z, Bit::One) => z,
            (Bit::Top, _) | (_, Bit::Top) => Bit::Top,
            (p, q) if p == q => p,
            (p, q) if p == bit_not(q) => Bit::Zero,
            _ => bit_expr(op, x, y),
        },
        '|' => match (x, y) {
            (Bit::One, _) | (_, Bit::One) => Bit::One,
            (Bit::Zero, z) | (z, Bit::Zero) => z,
            (Bit::Top, _) | (_, Bit::Top) => Bit::Top,
            (p, q) if p == q => p,
            (p, q) if p == bit_not(q) => Bit::One,
            _ => bit_expr(op, x, y),
        },
        _ => match (x, y) {
            (Bit::Top, _) | (_, Bit::Top) => Bit::Top,
            (Bit::Zero, z) | (z, Bit::Zero) => z,
            (Bit::One, z) | (z, Bit::One) => bit_not(z),
            (p, q) if p == q => Bit::Zero,
            (p, q) if p == bit_not(q) => Bit::One,
            _ => bit_expr(op, x, y),
        },
    }
}
/// an input bit the combination depends on
fn bit_atom(b: Bit) -> Option<(VarId, u8)> {
    match b {
        Bit::In(v, k) | Bit::NotIn(v, k) => Some((v, k)),
        Bit::E(e) => {
            let (_, x, y) = bit_node(e);
            bit_atom(x).or_else(|| bit_atom(y))
        }
        _ => None,
    }
}
fn bit_vars(b: Bit, out: &mut Vec<VarId>) {
    match b {
        Bit::In(v, _) | Bit::NotIn(v, _) => {
            if !out.contains(&v) {
                out.push(v)
            }
        }
        Bit::E(e) => {
            let (_, x, y) = bit_node(e);
            bit_vars(x, out);
            bit_vars(y, out);
        }
        _ => {}
    }
}
fn bit_eval(b: Bit, asg: &dyn Fn(VarId) -> Option<i128>) -> Option<i128> {
    Some(match b {
        Bit::Zero => 0,
        Bit::One => 1,
        Bit::In(q, k) => (eval_var(q, asg)? >> k.min(127)) & 1,
        Bit::NotIn(q, k) => 1 - ((eval_var(q, asg)? >> k.min(127)) & 1),
        Bit::Top => return None,
        Bit::E(e) => {
            let (op, x, y) = bit_node(e);
            let (x, y) = (bit_eval(x, asg)?, bit_eval(y, asg)?);
            match op {
                '&' => x & y,
                '|' => x | y,
                _ => x ^ y,
            }
        }
    })
}
fn bit_show(b: Bit) -> String {
    match b {
        Bit::Zero => "0".to_string(),
        Bit::One => "1".to_string(),
        Bit::In(v, k) => format!("{}.{} ", var_name(v), k),
        Bit::NotIn(v, k) => format!("!{}.{} ", var_name(v), k),
        Bit::Top => "?".to_string(),
        Bit::E(e) => {
            let (op, x, y) = bit_node(e);
            format!("({}{}{})", bit_show(x), op, bit_show(y))
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Rep {
    Const(u128),
    Bits(Rc<Vec<Bit>>),
    Aff(Rc<Aff>),
    Top,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct IntVal {
    pub w: u32,
    pub r: Rep,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Cmp {
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
}

impl IntVal {
    pub fn c(w: u32, v: u128) -> IntVal {
        IntVal { w, r: Rep::Const(v & mask(w)) }
    }
    pub fn ci(w: u32, v: i128) -> IntVal {
        IntVal::c(w, v as u128)
    }
    pub fn b(v: bool) -> IntVal {
        IntVal::c(8, v as u128)
    }
    pub fn top(w: u32) -> IntVal {
        IntVal { w, r: Rep::Top }
    }
    pub fn aff(w: u32, a: Aff) -> IntVal {
        if let Some(k) = a.as_const() {
            return IntVal::ci(w, k);
        }
        IntVal { w, r: Rep::Aff(Rc::new(a)) }
    }
    pub fn var(w: u32, v: VarId) -> IntVal {
        IntVal::aff(w, Aff::var(v))
    }
    pub fn as_const(&self, env: &Env) -> Option<u128> {
        match &self.r {
            Rep::Const(c) => Some(*c),
            Rep::Top => None,
            Rep::Aff(a) => env.simp(a).as_const().map(|k| (k as u128) & mask(self.w)),
            Rep::Bits(b) => {
                let mut v = 0u128;
                for (i, b) in b.iter().enumerate() {
                    match env.norm_bit(*b) {
                        Bit::Zero => {}
                        Bit::One => v |= 1 << i,
                        _ => return None,
                    }
                }
                Some(v)
            }
        }
    }
    pub fn bits(&self, env: &Env) -> Vec<Bit> {
        match &self.r {
            Rep::Const(c) => (0..self.w).map(|i| if (c >> i) & 1 == 1 { Bit::One } else { Bit::Zero }).collect(),
            Rep::Bits(b) => b.iter().map(|b| env.norm_bit(*b)).collect(),
            Rep::Aff(a) => {
                let a = env.simp(a);
                if let Some(k) = a.as_const() {
                    return IntVal::ci(self.w, k).bits(env);
                }
                let v = def_var(&a);
                (0..self.w).map(|i| env.bit(v, i)).collect()
            }
            Rep::Top => vec![Bit::Top; self.w as usize],
        }
    }
    pub fn from_bits(env: &Env, b: Vec<Bit>) -> IntVal {
        let w = b.len() as u32;
        let r = IntVal { w, r: Rep::Bits(Rc::new(b)) };
        if let Some(c) = r.as_const(env) {
            return IntVal::c(w, c);
        }
        r
    }
    /// affine form congruent to the value mod 2^w
    pub fn to_aff(&self, env: &Env) -> Option<Aff> {
        match &self.r {
            Rep::Const(c) => Some(Aff::cst(*c as i128)),
            Rep::Aff(a) => Some(env.simp(a)),
            Rep::Top => None,
            Rep::Bits(_) => {
                let b = self.bits(env);
                if b.iter().any(|x| matches!(x, Bit::Top | Bit::E(_))) {
                    return None;
                }
                if let Some(c) = self.as_const(env) {
                    return Some(Aff::cst(c as i128));
                }
                // find a single source variable
                let mut v = None;
                for x in &b {
                    match x {
                        Bit::In(y, _) => match v {
                            None => v = Some(*y),
                            Some(z) if z == *y => {}
                            _ => return None,
                        },
                        Bit::NotIn(..) => return None,
                        _ => {}
                    }
                }
                let v = v?;
                let w = self.w as usize;
                let same = |i: usize, k: i64| k >= 0 && b[i] == env.bit(v, k as u32);
                // value == v mod 2^w
                if (0..w).all(|i| same(i, i as i64)) {
                    return Some(def_aff(v));
                }
                // low n bits, zeros above
                for n in 1..w {
                    if (0..n).all(|i| same(i, i as i64)) && (n..w).all(|i| b[i] == Bit::Zero) {
                        let s = env.set_of(v);
                        if s.lo() >= 0 && s.hi() < (1i128 << n) {
                            return Some(def_aff(v));
                        }
                        return Some(low_aff(v, n as u32));
                    }
                }
                // zeros in the low k bits
                for k in 1..w {
                    if (0..k).all(|i| b[i] == Bit::Zero) && (k..w).all(|i| same(i, i as i64)) {
                        return def_aff(v).sub(&low_aff(v, k as u32));
                    }
                }
                // v shifted right by k (zeros or sign above)
                for k in 1..128usize {
                    if (0..w).all(|i| same(i, (i + k) as i64)) {
                        return Some(Aff::var(shr_var(v, k as u32)));
                    }
                }
                for k in 1..w {
                    if (0..w - k).all(|i| same(i, (i + k) as i64)) && (w - k..w).all(|i| b[i] == Bit::Zero) {
                        let s = env.set_of(v);
                        if s.lo() >= 0 && s.hi() < (1i128 << w.min(126)) {
                            return Some(Aff::var(shr_var(v, k as u32)));
                        }
                    }
                }
                // v shifted left by k
                for k in 1..w {
                    if (0..k).all(|i| b[i] == Bit::Zero) && (k..w).all(|i| same(i, (i - k) as i64)) {
                        return def_aff(v).scale(1i128 << k);
                    }
                }
                None
            }
        }
    }
    /// like to_aff, and also for bits assembled from several contiguous pieces of inputs (value modulo 2^w)
    pub fn to_aff_pieces(&self, env: &Env) -> Option<Aff> {
        if let Some(a) = self.to_aff(env) {
            return Some(a);
        }
        let Rep::Bits(_) = self.r else { return None };
        let b = self.bits(env);
        let w = b.len();
        let mut out = Aff::cst(0);
        let (mut i, mut pieces) = (0, 0);
        while i < w {
            match b[i] {
                Bit::Zero => i += 1,
                Bit::One => {
                    out.k = out.k.checked_add(1i128.checked_shl(i as u32)?)?;
                    i += 1;
                }
                Bit::In(v, k) => {
                    let k = k as usize;
                    let mut n = 1;
                    while i + n < w && b[i + n] == env.bit(v, (k + n) as u32) && matches!(b[i + n], Bit::In(x, _) if x == v) {
                        n += 1;
                    }
                    pieces += 1;
                    if pieces > 6 {
                        return None;
                    }
                    let whole = i + n == w;
                    let term = if i >= k {
                        let top = if whole { def_aff(v) } else { low_aff(v, (k + n) as u32) };
                        let low = if k == 0 { Aff::cst(0) } else { low_aff(v, k as u32) };
                        top.sub(&low)?.scale(1i128.checked_shl((i - k) as u32)?)?
                    } else {
                        let x = shr_var(v, k as u32);
                        (if whole { Aff::var(x) } else { low_aff(x, n as u32) }).scale(1i128.checked_shl(i as u32)?)?
                    };
                    out = out.add(&term)?;
                    i += n;
                }
                _ => return None,
            }
        }
        Some(env.simp(&out))
    }
    /// the value is made of the low n bits of a wider input, sign-extended (n < w) or all of them (n = w)
    fn low_bits_of(&self, env: &Env) -> Option<(VarId, u32)> {
        if self.w > 64 || self.as_const(env).is_some() {
            return None;
        }
        match &self.r {
            Rep::Aff(f) => {
                let f = env.simp(f);
                if let [(v, 1)] = f.t[..] {
                    if f.k == 0 && matches!(var_kind(v), VarKind::Low(..)) {
                        return None;
                    }
                }
                Some((def_var(&f), self.w))
            }
            Rep::Bits(_) => {
                let b = self.bits(env);
                let v = b.iter().find_map(|x| if let Bit::In(v, 0) = x { Some(*v) } else { None })?;
                let mut n = 0;
                while n < b.len() && b[n] == env.bit(v, n as u32) {
                    n += 1;
                }
                if n > 1 && b[n..].iter().all(|x| *x == b[n - 1]) {
                    Some((v, n as u32))
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    /// exact mathematical value under the signed/unsigned reading, if the domain can tell
    pub fn exact(&self, env: &Env, signed: bool) -> Option<Aff> {
        if let Some(c) = self.as_const(env) {
            return Some(Aff::cst(if signed { sext(c, self.w) } else { c as i128 }));
        }
        let a0 = self.to_aff(env)?;
        self.exact_from(env, signed, a0)
    }
    pub fn exact_pieces(&self, env: &Env, signed: bool) -> Option<Aff> {
        self.exact(env, signed).or_else(|| self.exact_from(env, signed, self.to_aff_pieces(env)?))
    }
    fn exact_from(&self, env: &Env, signed: bool, a0: Aff) -> Option<Aff> {
        let w = self.w.min(120);
        let m = 1i128 << w;
        for sh in [0, -m, m] {
            let a = a0.plus(sh);
            let (lo, hi) = env.interval(&a);
            let (least, most) = if signed { (-(m / 2), m / 2 - 1) } else { (0, m - 1) };
            // where a fact rules out wrapping on one side, it may on the other
            let above = lo >= least || env.proves_nonneg(&a.plus(-least));
            if above && (hi <= most || a.t.len() > 1 && a.scale(-1).map_or(false, |n| env.proves_nonneg(&n.plus(most)))) {
                return Some(a);
            }
        }
        None
    }
    pub fn resize(&self, env: &Env, signed: bool, to: u32) -> IntVal {
        if let Some(c) = self.as_const(env) {
            return IntVal::c(to, if signed { sext(c, self.w) as u128 } else { c });
        }
        if to <= self.w {
            match &self.r {
                Rep::Aff(a) => {
                    return IntVal { w: to, r: Rep::Aff(a.clone()) };
                }
                Rep::Top => return IntVal::top(to),
                _ => {}
            }
            let b = self.bits(env);
            return IntVal::from_bits(env, b[..to as usize].to_vec());
        }
        if let Some(a) = self.exact(env, signed) {
            return IntVal::aff(to, a);
        }
        if let Rep::Top = self.r {
            let mut b = vec![Bit::Top; self.w as usize];
            b.resize(to as usize, if signed { Bit::Top } else { Bit::Zero });
            return IntVal::from_bits(env, b);
        }
        let mut b = self.bits(env);
        let f = if signed { *b.last().unwrap() } else { Bit::Zero };
        b.resize(to as usize, f);
        IntVal::from_bits(env, b)
    }
    pub fn add(&self, env: &Env, o: &IntVal, neg: bool) -> IntVal {
        if let (Some(a), Some(b)) = (self.to_aff(env), o.to_aff(env)) {
            if let Some(r) = a.add_scaled(&b, if neg { -1 } else { 1 }) {
                return IntVal::aff(self.w, env.simp(&r));
            }
        }
        // disjoint bits: addition is union
        if !neg {
            let (a, b) = (self.bits(env), o.bits(env));
            if a.iter().zip(b.iter()).all(|(x, y)| *x == Bit::Zero || *y == Bit::Zero) {
                let r = a.iter().zip(b.iter()).map(|(x, y)| if *x == Bit::Zero { *y } else { *x }).collect();
                return IntVal::from_bits(env, r);
            }
        }
        if let (Some(a), Some(b)) = (self.to_aff_pieces(env), o.to_aff_pieces(env)) {
            if let Some(r) = a.add_scaled(&b, if neg { -1 } else { 1 }) {
                return IntVal::aff(self.w, env.simp(&r));
            }
        }
        IntVal::top(self.w)
    }
    pub fn mul(&self, env: &Env, o: &IntVal) -> IntVal {
        let (a, b) = (self.to_aff_pieces(env), o.to_aff_pieces(env));
        if let (Some(a), Some(b)) = (a, b) {
            let r = if let Some(k) = o.as_const(env) {
                // small constants only, negative as signed
                a.scale(sext(k, self.w))
            } else if let Some(k) = self.as_const(env) {
                b.scale(sext(k, self.w))
            } else {
                None
            };
            if let Some(r) = r {
                // collapse 2^k * Shr(D,k) to D - Low(D,k)
                let mut out = Aff::cst(r.k);
                for (v, c) in &r.t {
                    let mut term = Aff { k: 0, t: vec![(*v, *c)] };
                    if let VarKind::Shr(d, k) = var_kind(*v) {
                        if *c == 1i128 << k {
                            if let Some(x) = def_aff(d).sub(&low_aff(d, k)) {
                                term = x;
                            }
                        }
                    }
                    match out.add(&term) {
                        Some(x) => out = x,
                        None => return IntVal::top(self.w),
                    }
                }
                return IntVal::aff(self.w, env.simp(&out));
            }
        }
        IntVal::top(self.w)
    }
    pub fn not(&self, env: &Env) -> IntVal {
        let b = self
            .bits(env)
            .into_iter()
            .map(bit_not)
            .collect();
        IntVal::from_bits(env, b)
    }
    pub fn bitop(&self, env: &Env, o: &IntVal, op: char) -> IntVal {
        if op == '|' {
            // setting the low bits: clear them, then add the mask
            for (x, m) in [(self, o), (o, self)] {
                if let (Some(k), Rep::Aff(_)) = (m.as_const(env), &x.r) {
                    if k > 0 && k < u64::MAX as u128 && (k & (k + 1)) == 0 && x.as_const(env).is_none() {
                        let c = x.bitop(env, &IntVal::c(x.w, !k & mask(x.w)), '&');
                        if let Rep::Aff(_) = c.r {
                            return c.add(env, m, false);
                        }
                    }
                }
            }
        }
        let (a, b) = (self.bits(env), o.bits(env));
        let r: Vec<Bit> = a.iter().zip(b.iter()).map(|(x, y)| bit_op(op, *x, *y)).collect();
        IntVal::from_bits(env, r)
    }
    pub fn shl(&self, env: &Env, n: u32) -> IntVal {
        if n >= self.w {
            return IntVal::c(self.w, 0);
        }
        if let Rep::Aff(a) = &self.r {
            if let Some(r) = a.scale(1i128 << n) {
                let x = IntVal::aff(self.w, r).mul(env, &IntVal::c(self.w, 1));
                let wraps = x.exact(env, false).or_else(|| x.exact(env, true)).is_none();
                if !wraps || self.bits(env).contains(&Bit::Top) {
                    return x;
                }
            }
        }
        let b = self.bits(env);
        let mut r = vec![Bit::Zero; n as usize];
        r.extend_from_slice(&b[..(self.w - n) as usize]);
        IntVal::from_bits(env, r)
    }
    pub fn shr(&self, env: &Env, n: u32, signed: bool) -> IntVal {
        if let Some(a) = self.exact(env, signed) {
            if a.as_const().is_none() {
                let m = 1i128 << n;
                if a.k % m == 0 && a.t.iter().all(|(_, c)| c % m == 0) {
                    return IntVal::aff(
                        self.w,
                        Aff { k: a.k / m, t: a.t.iter().map(|(v, c)| (*v, c / m)).collect() },
                    );
                }
            }
        }
        let b = self.bits(env);
        let fill = if signed { *b.last().unwrap() } else { Bit::Zero };
        let mut r = b[(n.min(self.w)) as usize..].to_vec();
        r.resize(self.w as usize, fill);
        IntVal::from_bits(env, r)
    }
    /// the value with its combinations of bits rewritten under the environment
    pub fn settled(&self, env: &Env) -> IntVal {
        match &self.r {
            Rep::Bits(b) if b.iter().any(|x| matches!(x, Bit::E(_))) => IntVal::from_bits(env, self.bits(env)),
            _ => self.clone(),
        }
    }
    /// an input bit on which a combination among the bits of the value depends
    pub fn open_bit(&self, env: &Env) -> Option<(VarId, u8)> {
        let Rep::Bits(b) = &self.r else { return None };
        if !b.iter().any(|x| matches!(x, Bit::E(_))) {
            return None;
        }
        self.bits(env).into_iter().find(|x| matches!(x, Bit::E(_))).and_then(bit_atom)
    }
    pub fn vars(&self, env: &Env) -> Option<Vec<VarId>> {
        let mut out = vec![];
        for b in self.bits(env) {
            match b {
                Bit::In(v, _) | Bit::NotIn(v, _) => {
                    if !out.contains(&v) {
                        out.push(v)
                    }
                }
                Bit::E(_) => bit_vars(b, &mut out),
                Bit::Top => return None,
                _ => {}
            }
        }
        Some(out)
    }
    /// evaluate under an assignment of input variables
    pub fn eval(&self, asg: &dyn Fn(VarId) -> Option<i128>) -> Option<u128> {
        match &self.r {
            Rep::Const(c) => Some(*c),
            Rep::Top => None,
            Rep::Bits(b) => {
                let mut v = 0u128;
                for (i, b) in b.iter().enumerate() {
                    let x = bit_eval(*b, asg)?;
                    v |= (x as u128) << i;
                }
                Some(v)
            }
            Rep::Aff(a) => Some((eval_aff(a, asg)? as u128) & mask(self.w)),
        }
    }
    pub fn show(&self, env: &Env) -> String {
        if let Some(c) = self.as_const(env) {
            return format!("{:#x}", c);
        }
        match &self.r {
            Rep::Aff(a) => show_aff(&env.simp(a)),
            Rep::Top => "?".into(),
            _ => {
                if let Some(a) = self.to_aff(env) {
                    return show_aff(&a);
                }
                let b = self.bits(env);
                let mut s = String::from("<");
                for x in b.iter().rev() {
                    s.push_str(&bit_show(*x));
                }
                s.push('>');
                s
            }
        }
    }
}

pub fn eval_var(v: VarId, asg: &dyn Fn(VarId) -> Option<i128>) -> Option<i128> {
    if let Some(x) = asg(v) {
        return Some(x);
    }
    match var_kind(v) {
        VarKind::Def(a) => eval_aff(&a, asg),
        VarKind::Low(x, k) => Some(eval_var(x, asg)? & ((1i128 << k) - 1)),
        VarKind::Shr(x, k) => Some(eval_var(x, asg)? >> k),
        VarKind::Term(op, signed, ab) => {
            let (a, b) = (&ab.0, &ab.1);
            let rd = |x: &IntVal| -> Option<i128> {
                let v = x.eval(asg)?;
                Some(if signed { sext(v, x.w) } else { v as i128 })
            };
            let (x, y) = (rd(a)?, rd(b)?);
            let r = match op {
                '+' => x.wrapping_add(y),
                '-' => x.wrapping_sub(y),
                '*' => x.wrapping_mul(y),
                '/' => x.checked_div(y)?,
                '%' => x.checked_rem(y)?,
                // bit counts of the first operand
                'p' => x.count_ones() as i128,
                'l' => (x as u128).leading_zeros() as i128 - (128 - a.w as i128),
                't' => (x as u128).trailing_zeros().min(a.w) as i128,
                _ => return None,
            };
            let r = (r as u128) & mask(a.w);
            Some(if signed { sext(r, a.w) } else { r as i128 })
        }
        _ => None,
    }
}
/// the inputs a value is written over
fn raw_vars(x: &IntVal, out: &mut Vec<VarId>) {
    match &x.r {
        Rep::Aff(a) => out.extend(a.t.iter().map(|t| t.0)),
        Rep::Bits(b) => b.iter().for_each(|b| bit_vars(*b, out)),
        _ => {}
    }
}
/// a named result for an operation the domain has no form for
pub fn term(env: &mut Env, op: char, signed: bool, a: &IntVal, b: &IntVal) -> IntVal {
    let top = |x: &IntVal| match &x.r {
        Rep::Top => true,
        Rep::Bits(b) => b.contains(&Bit::Top),
        _ => false,
    };
    if top(a) || top(b) || a.w > 64 || b.w != a.w {
        return IntVal::top(a.w);
    }
    let m = 1i128 << a.w;
    let base = if signed { ISet::range(-(m / 2), m / 2 - 1) } else { ISet::range(0, m - 1) };
    let v = intern_var(VarKind::Term(op, signed, Rc::new((a.clone(), b.clone()))), base.clone());
    if let 'p' | 'l' | 't' = op {
        let s = env.set_of(v).inter(0, a.w as i128);
        *env = env.with_set(v, s);
    }
    if let (Some(y @ 1..=0xffff_ffff), '/', false) = (b.as_const(env), op, signed) {
        let y = y as i128;
        let x = a.exact(env, false);
        let hi = x.as_ref().map_or(m - 1, |x| env.interval(x).1).min(m - 1);
        let s = env.set_of(v).inter(0, hi / y);
        *env = env.with_set(v, s);
        // y*q <= x < y*q + y
        if let Some(r) = x.and_then(|x| x.add_scaled(&Aff::var(v), -y)) {
            if !env.proves_nonneg(&r) {
                *env = env.with_fact(r.clone()).with_fact(r.scale(-1).unwrap().plus(y - 1));
            }
        }
    }
    IntVal::var(a.w, v)
}
pub fn eval_aff(a: &Aff, asg: &dyn Fn(VarId) -> Option<i128>) -> Option<i128> {
    let mut s = a.k;
    for (v, c) in &a.t {
        s = s.wrapping_add(eval_var(*v, asg)?.wrapping_mul(*c));
    }
    Some(s)
}

fn test(op: Cmp, d: std::cmp::Ordering) -> bool {
    use std::cmp::Ordering::*;
    match op {
        Cmp::Eq => d == Equal,
        Cmp::Ne => d != Equal,
        Cmp::Lt => d == Less,
        Cmp::Le => d != Greater,
        Cmp::Gt => d == Greater,
        Cmp::Ge => d != Less,
    }
}

/// Abstract comparison: the feasible outcomes, each with its refined environment.
/// the environment partitioned on one bit of a variable
pub fn split_bit(env: &Env, v: VarId, k: u8) -> Option<Vec<Env>> {
    let s = env.set_of(v);
    let mut out = vec![];
    if s.size() <= 4096 {
        for want in [0, 1] {
            let t: Vec<i128> = s.iter().filter(|x| (x >> k.min(127)) & 1 == want).collect();
            if !t.is_empty() {
                out.push(env.with_set(v, ISet::from_sorted(&t)));
            }
        }
    } else {
        let x = IntVal { w: 8, r: Rep::Bits(Rc::new([Bit::In(v, k)].into_iter().chain([Bit::Zero; 7]).collect())) };
        out.extend(compare(env, Cmp::Eq, false, &x, &IntVal::c(8, 0)).into_iter().map(|x| x.0));
    }
    let known = |e: &Env| matches!(e.bit(v, k as u32), Bit::Zero | Bit::One);
    if out.iter().all(known) {
        Some(out)
    } else {
        None
    }
}
/// Two words whose bits differ only in that one has the high bits of an input where the other repeats one lower bit of
/// it (a sign extension), or has a constant: they are equal exactly for the returned ranges of the input.
fn high_bits_agree(env: &Env, a: &IntVal, b: &IntVal) -> Option<(VarId, Vec<(i128, i128)>)> {
    let (x, y) = (a.bits(env), b.bits(env));
    // the bits of the input that have to agree, and the constant they have to agree with
    let mut classes: Vec<(Vec<u8>, Option<bool>)> = vec![];
    let mut var = None;
    for (p, q) in x.iter().zip(y.iter()) {
        if p == q && *p != Bit::Top {
            continue;
        }
        let (v, ks, c) = match (*p, *q) {
            (Bit::In(v, k), Bit::In(u, j)) if u == v => (v, vec![k, j], None),
            (Bit::In(v, k), Bit::Zero) | (Bit::Zero, Bit::In(v, k)) => (v, vec![k], Some(false)),
            (Bit::In(v, k), Bit::One) | (Bit::One, Bit::In(v, k)) => (v, vec![k], Some(true)),
            _ => return None,
        };
        if *var.get_or_insert(v) != v {
            return None;
        }
        let mut new = (ks, c);
        classes.retain(|o| {
            let joins = o.0.iter().any(|k| new.0.contains(k)) || (o.1.is_some() && o.1 == new.1);
            if joins {
                new.0.extend(o.0.iter());
                new.1 = match (new.1, o.1) {
                    (Some(a), Some(b)) if a != b => return true,
                    (a, b) => a.or(b),
                };
            }
            !joins
        });
        classes.push(new);
    }
    let v = var?;
    if classes.len() != 1 {
        return None;
    }
    let (mut ks, c) = classes.pop().unwrap();
    ks.sort();
    ks.dedup();
    let (m, top) = (ks[0] as u32, *ks.last().unwrap() as u32);
    if (top - m) as usize + 1 != ks.len() {
        return None;
    }
    let s = env.set_of(v);
    if s.is_empty() || top > 100 {
        return None;
    }
    let one = 1i128;
    let signed = s.lo() >= -(one << top) && s.hi() < one << top;
    let unsigned = s.lo() >= 0 && s.hi() < one << (top + 1);
    let negative = s.hi() < 0 && s.lo() >= -(one << (top + 1));
    // the values whose bits m.. are all 0, and those whose bits m.. are all 1
    let (zeros, ones) = if signed {
        ((0, (one << m) - 1), (-(one << m), -1))
    } else if unsigned {
        ((0, (one << m) - 1), ((one << (top + 1)) - (one << m), (one << (top + 1)) - 1))
    } else if negative {
        ((-(one << (top + 1)), -(one << (top + 1)) + (one << m) - 1), (-(one << m), -1))
    } else {
        return None;
    };
    Some((v, match c {
        Some(false) => vec![zeros],
        Some(true) => vec![ones],
        None => vec![zeros, ones],
    }))
}
pub fn compare(env: &Env, op: Cmp, signed: bool, a: &IntVal, b: &IntVal) -> Vec<(Env, bool)> {
    debug_assert_eq!(a.w, b.w);
    let rd = |v: u128| -> i128 {
        if signed {
            sext(v, a.w)
        } else {
            v as i128
        }
    };
    if let (Some(x), Some(y)) = (a.as_const(env), b.as_const(env)) {
        return vec![(env.clone(), test(op, rd(x).cmp(&rd(y))))];
    }
    // combinations of bits: partition on a bit they are made of
    if let Some((v, k)) = a.open_bit(env).or_else(|| b.open_bit(env)) {
        if let Some(es) = split_bit(env, v, k) {
            return es.iter().flat_map(|e| compare(e, op, signed, a, b)).collect();
        }
    }
    let (na, nb) = (a.settled(env), b.settled(env));
    let (a, b) = (&na, &nb);
    // finite enumeration over small inputs
    if let (Some(va), Some(vb)) = (a.vars(env), b.vars(env)) {
        let mut vs = va;
        for v in vb {
            if !vs.contains(&v) {
                vs.push(v)
            }
        }
        if !vs.is_empty() && vs.iter().all(|v| env.set_of(*v).size() <= 300) {
            let root: Vec<VarId> = vs.clone();
            if root.len() == 1 {
                let v = root[0];
                let (mut t, mut f) = (vec![], vec![]);
                let mut ok = true;
                for x in env.set_of(v).iter() {
                    let asg = |q: VarId| if q == v { Some(x) } else { None };
                    match (a.eval(&asg), b.eval(&asg)) {
                        (Some(p), Some(q)) => {
                            if test(op, rd(p).cmp(&rd(q))) {
                                t.push(x)
                            } else {
                                f.push(x)
                            }
                        }
                        _ => {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok {
                    let mut out = vec![];
                    if !t.is_empty() {
                        out.push((env.with_set(v, ISet::from_sorted(&t)), true));
                    }
                    if !f.is_empty() {
                        out.push((env.with_set(v, ISet::from_sorted(&f)), false));
                    }
                    return out;
                }
            } else {
                // partition on the smallest input, then decide
                let v = *root.iter().min_by_key(|v| env.set_of(**v).size()).unwrap();
                if env.set_of(v).size() > 1 {
                    let mut out = vec![];
                    for x in env.set_of(v).iter() {
                        let e = env.with_set(v, ISet::single(x));
                        out.extend(compare(&e, op, signed, a, b));
                    }
                    return out;
                }
            }
        }
    }
    // a complemented bit equals a constant when the bit equals its complement
    if matches!(op, Cmp::Eq | Cmp::Ne) {
        for (x, y) in [(a, b), (b, a)] {
            if let (Rep::Bits(_), Some(c)) = (&x.r, y.as_const(env)) {
                let bs = x.bits(env);
                if bs.iter().any(|b| matches!(b, Bit::NotIn(..))) {
                    let c = bs.iter().enumerate().fold(c, |c, (i, b)| if let Bit::NotIn(..) = b { c ^ 1 << i } else { c });
                    let bs = bs.into_iter().map(|b| if let Bit::NotIn(v, k) = b { Bit::In(v, k) } else { b }).collect();
                    return compare(env, op, signed, &IntVal::from_bits(env, bs), &IntVal::c(x.w, c));
                }
            }
        }
    }
    if matches!(op, Cmp::Eq | Cmp::Ne) && (matches!(a.r, Rep::Bits(_)) || matches!(b.r, Rep::Bits(_))) {
        if let Some((v, t)) = high_bits_agree(env, a, b) {
            let s = env.set_of(v);
            let mut f = s.clone();
            let mut te = ISet(vec![]);
            for (lo, hi) in t {
                te = te.union(&s.inter(lo, hi));
                f = f.inter(i128::MIN, lo - 1).union(&f.inter(hi + 1, i128::MAX));
            }
            let mut out = vec![];
            if !te.is_empty() {
                out.push((env.with_set(v, te), op == Cmp::Eq));
            }
            if !f.is_empty() {
                out.push((env.with_set(v, f), op == Cmp::Ne));
            }
            return out;
        }
    }
    // affine difference
    let sg = if signed { [true, false] } else { [false, true] };
    let mut views = None;
    if let (Some(x), Some(y)) = (a.exact_pieces(env, signed), b.exact_pieces(env, signed)) {
        views = Some((x, y));
    } else if matches!(op, Cmp::Eq | Cmp::Ne) {
        // equality may use either reading
        if let (Some(x), Some(y)) = (a.exact_pieces(env, sg[1]), b.exact_pieces(env, sg[1])) {
            views = Some((x, y));
        }
    }
    if views.is_none() && matches!(op, Cmp::Eq | Cmp::Ne) {
        // congruence: identical affine forms mod 2^w are equal
        if let (Some(x), Some(y)) = (a.to_aff_pieces(env), b.to_aff_pieces(env)) {
            if let Some(d) = x.sub(&y) {
                if let Some(k) = env.simp(&d).as_const() {
                    let eq = (k as u128) & mask(a.w) == 0;
                    return vec![(env.clone(), eq == (op == Cmp::Eq))];
                }
            }
        }
    }
    if let Some((x, y)) = views {
        if let Some(d) = x.sub(&y) {
            let d = env.simp(&d);
            let (lo, hi) = env.interval(&d);
            let always = |t: bool| vec![(env.clone(), t)];
            match op {
                Cmp::Eq | Cmp::Ne => {
                    if lo == 0 && hi == 0 {
                        return always(op == Cmp::Eq);
                    }
                    if env.proves_nonneg(&d) && d.scale(-1).map_or(false, |n| env.proves_nonneg(&n)) {
                        return always(op == Cmp::Eq);
                    }
                    if lo > 0 || hi < 0 || env.proves_nonneg(&d.plus(-1)) || d.scale(-1).map_or(false, |n| env.proves_nonneg(&n.plus(-1))) {
                        return always(op == Cmp::Ne);
                    }
                    // divisibility: coefficients all multiple of m but constant not
                    if let Some(g) = d.t.iter().map(|t| t.1.abs()).reduce(gcd) {
                        if g > 1 && d.k % g != 0 {
                            return always(op == Cmp::Ne);
                        }
                    }
                }
                _ => {}
            }
            // d <op> 0
            let (ge, strict, neg) = match op {
                Cmp::Ge => (d.clone(), 0, false),
                Cmp::Gt => (d.clone(), 1, false),
                Cmp::Le => (d.scale(-1).unwrap(), 0, false),
                Cmp::Lt => (d.scale(-1).unwrap(), 1, false),
                _ => (d.clone(), 0, true),
            };
            if !neg {
                let q = ge.plus(-strict); // true iff q >= 0
                let nq = q.scale(-1).unwrap().plus(-1); // false iff nq >= 0
                if env.proves_nonneg(&q) {
                    return always(true);
                }
                if env.proves_nonneg(&nq) {
                    return always(false);
                }
                if q.t.len() == 1 {
                    let (v, c) = q.t[0];
                    // c*v + k >= 0
                    let s = env.set_of(v);
                    let (ts, fs) = if c > 0 {
                        let b = div_ceil(-q.k, c);
                        (s.inter(b, i128::MAX), s.inter(i128::MIN, b - 1))
                    } else {
                        let b = div_floor(q.k, -c);
                        (s.inter(i128::MIN, b), s.inter(b + 1, i128::MAX))
                    };
                    let mut out = vec![];
                    if !ts.is_empty() {
                        out.push((env.with_set(v, ts), true));
                    }
                    if !fs.is_empty() {
                        out.push((env.with_set(v, fs), false));
                    }
                    return out;
                }
                return vec![(env.with_fact(q), true), (env.with_fact(nq), false)];
            } else {
                if d.t.len() == 1 {
                    let (v, c) = d.t[0];
                    let s = env.set_of(v);
                    let mut out = vec![];
                    if d.k % c == 0 && s.contains(-d.k / c) {
                        out.push((env.with_set(v, ISet::single(-d.k / c)), op == Cmp::Eq));
                        let r = s.minus_point(-d.k / c);
                        if !r.is_empty() {
                            out.push((env.with_set(v, r), op == Cmp::Ne));
                        }
                    } else {
                        out.push((env.clone(), op == Cmp::Ne));
                    }
                    return out;
                }
                let e = env.with_fact(d.clone()).with_fact(d.scale(-1).unwrap());
                let mut ne = env.clone();
                if !ne.preds.iter().any(|p| p.0 == Cmp::Eq && p.2 == *a && p.3 == *b) {
                    Rc::make_mut(&mut ne.preds).push((Cmp::Eq, false, a.clone(), b.clone(), false));
                }
                return vec![(e, op == Cmp::Eq), (ne, op == Cmp::Ne)];
            }
        }
    }
    // a sum that may wrap around: partition where it does
    for x in [a, b] {
        let Rep::Aff(f) = &x.r else { continue };
        let f = env.simp(f);
        let m = 1i128 << x.w;
        let base = if signed { -(m / 2) } else { 0 };
        if f.t.len() > 1 && x.w <= 64 {
            let (lo, hi) = env.interval(&f);
            let (t0, t1) = ((lo.max(-(1 << 66)) - base).div_euclid(m), (hi.min(1 << 66) - base).div_euclid(m));
            if lo <= -(1 << 66) || hi >= 1 << 66 || t0 == t1 || t1 - t0 > 2 {
                continue;
            }
            let mut out = vec![];
            for t in t0..=t1 {
                let p = f.plus(-(t * m + base));
                let q = f.scale(-1).unwrap().plus((t + 1) * m - 1 + base);
                let never = |z: &Aff| z.scale(-1).map_or(false, |n| env.proves_nonneg(&n.plus(-1)));
                if never(&p) || never(&q) {
                    continue;
                }
                let mut e = env.clone();
                for z in [p, q] {
                    if !e.proves_nonneg(&z) {
                        e = e.with_fact(z);
                    }
                }
                if x.exact(&e, signed).is_some() {
                    out.extend(compare(&e, op, signed, a, b));
                } else {
                    out.extend(opaque(&e, op, signed, a, b));
                }
            }
            return out;
        }
        let [(v, c @ (1 | -1))] = f.t[..] else { continue };
        let turn = |y: i128| (c * y + f.k - base).div_euclid(m);
        let s = env.set_of(v);
        if s.is_empty() || x.w > 64 || s.lo() < -(1 << 66) || s.hi() > 1 << 66 {
            continue;
        }
        let (t0, t1) = (turn(s.lo()).min(turn(s.hi())), turn(s.lo()).max(turn(s.hi())));
        if t0 == t1 || t1 - t0 > 3 {
            continue;
        }
        let mut out = vec![];
        for t in t0..=t1 {
            // c*v + k - base in [t*m, (t+1)*m)
            let (p, q) = (t * m + base - f.k, (t + 1) * m - 1 + base - f.k);
            let part = if c == 1 { s.inter(p, q) } else { s.inter(-q, -p) };
            if !part.is_empty() {
                out.extend(compare(&env.with_set(v, part), op, signed, a, b));
            }
        }
        return out;
    }
    // truncated or sign-extended low bits of a wider value: their own value, on each side of the sign
    for (x, first) in [(a, true), (b, false)] {
        if x.exact_pieces(env, signed).is_some() {
            continue;
        }
        let Some((v, n)) = x.low_bits_of(env) else { continue };
        let l = low_var(v, n);
        let (s, h) = (env.set_of(l), 1i128 << (n - 1));
        let mut out = vec![];
        let halves = [(0, h - 1, 0), (h, 2 * h - 1, 2 * h)];
        for (lo, hi, off) in halves {
            let part = s.inter(lo, hi);
            if part.is_empty() {
                continue;
            }
            let e = env.with_set(l, part);
            let y = IntVal::aff(x.w, Aff::var(l).plus(-off));
            if e.dead {
                continue;
            }
            if y.exact(&e, signed).is_none() {
                out.extend(opaque(&e, op, signed, a, b));
                continue;
            }
            out.extend(if first { compare(&e, op, signed, &y, b) } else { compare(&e, op, signed, a, &y) });
        }
        return out;
    }
    opaque(env, op, signed, a, b)
}
/// both outcomes of a comparison the domain cannot express
fn opaque(env: &Env, op: Cmp, signed: bool, a: &IntVal, b: &IntVal) -> Vec<(Env, bool)> {
    for p in env.preds.iter() {
        if p.0 == op && p.1 == signed && p.2 == *a && p.3 == *b {
            return vec![(env.clone(), p.4)];
        }
    }
    [true, false]
        .into_iter()
        .map(|t| {
            let mut e = env.clone();
            Rc::make_mut(&mut e.preds).push((op, signed, a.clone(), b.clone(), t));
            (e, t)
        })
        .collect()
}

pub fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
fn div_floor(a: i128, b: i128) -> i128 {
    a.div_euclid(b)
}
fn div_ceil(a: i128, b: i128) -> i128 {
    -((-a).div_euclid(b))
}

/// is the affine form a multiple of 2^k for every valuation?
pub fn is_multiple(env: &Env, a: &Aff, k: u32) -> bool {
    residue_in(env, a, k) == Some(0) || residue_in(env, &env.simp(a), k) == Some(0)
}

// ---------------------------------------------------------------- concretisation
/// Outcome of looking for a member of the abstract state with a given feature.
#[derive(Clone, PartialEq, Debug, Hash)]
pub enum Member {
    /// a valuation inside the abstract state that has the feature
    Yes(Vec<(VarId, i128)>),
    /// valuations inside the state were found, none with the feature
    No,
    /// no valuation was found
    None,
}

fn roots_of(v: VarId, out: &mut Vec<VarId>) {
    match var_kind(v) {
        VarKind::Def(a) => a.t.iter().for_each(|(x, _)| roots_of(*x, out)),
        VarKind::Low(x, _) | VarKind::Shr(x, _) => roots_of(x, out),
        VarKind::Term(_, _, ab) => {
            let mut vs = vec![];
            raw_vars(&ab.0, &mut vs);
            raw_vars(&ab.1, &mut vs);
            vs.into_iter().for_each(|x| roots_of(x, out));
        }
        _ => {
            if !out.contains(&v) {
                out.push(v)
            }
        }
    }
}

/// Look for a valuation of the inputs inside the abstract state for which `feature` holds.
/// Inputs are fixed one after another to boundary values of what the value sets and the affine facts leave.
pub fn member(env: &Env, extra: &[VarId], feature: &dyn Fn(&dyn Fn(VarId) -> Option<i128>) -> Option<bool>) -> Member {
    let mut roots = vec![];
    let mut keys: Vec<VarId> = env.sets.keys().cloned().collect();
    keys.sort();
    for v in keys.iter().chain(extra.iter()) {
        roots_of(*v, &mut roots);
    }
    for f in env.facts.iter() {
        for (v, _) in &f.t {
            roots_of(*v, &mut roots);
        }
    }
    for p in env.preds.iter() {
        let mut vs = vec![];
        raw_vars(&p.2, &mut vs);
        raw_vars(&p.3, &mut vs);
        vs.into_iter().for_each(|v| roots_of(v, &mut roots));
    }
    // values the conditions compare with
    let mut hints: Vec<i128> = vec![];
    for p in env.preds.iter() {
        for x in [&p.2, &p.3] {
            if let Some(c) = x.as_const(env) {
                hints.extend([c as i128, sext(c, x.w)]);
            }
        }
    }
    // relations reach further inputs only through inputs that matter already
    let mut rels: Vec<&Aff> = vec![];
    loop {
        let more: Vec<&Aff> =
            env.rels.iter().filter(|r| r.t.iter().any(|(v, _)| roots.contains(v)) && !rels.iter().any(|x| std::ptr::eq(*x, *r))).collect();
        if more.is_empty() {
            break;
        }
        for f in &more {
            for (v, _) in &f.t {
                roots_of(*v, &mut roots);
            }
        }
        rels.extend(more);
    }
    let mut seed = 0x9e3779b97f4a7c15u64;
    let mut rnd = move || {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        seed
    };
    let mut inside = 0;
    for t in 0..600u64 {
        let mut order = roots.clone();
        if t > 0 {
            for i in (1..order.len()).rev() {
                order.swap(i, (rnd() % (i as u64 + 1)) as usize);
            }
        }
        let mut e = env.clone();
        let mut ok = true;
        for v in order {
            let s = e.set_of(v);
            if s.is_empty() {
                ok = false;
                break;
            }
            let (mut lo, mut hi) = (s.lo(), s.hi());
            for f in env.facts.iter().chain(rels.iter().cloned()) {
                if let Some((_, c)) = f.t.iter().find(|x| x.0 == v) {
                    let mut rest = f.clone();
                    rest.t.retain(|x| x.0 != v);
                    let (_, rh) = e.interval(&rest);
                    if *c > 0 {
                        lo = lo.max(div_ceil(rh.saturating_neg(), *c));
                    } else {
                        hi = hi.min(div_floor(rh, -c));
                    }
                }
            }
            let s = s.inter(lo, hi);
            if s.is_empty() {
                ok = false;
                break;
            }
            let part = s.0[(rnd() % s.0.len() as u64) as usize];
            let span = part.1 - part.0;
            let mut x = match rnd() % if hints.is_empty() { 8 } else { 10 } {
                8 | 9 => (hints[(rnd() % hints.len() as u64) as usize] + (rnd() % 3) as i128 - 1).clamp(part.0, part.1),
                0 | 1 => part.0,
                2 => part.1,
                3 => part.0 + ((rnd() % 40) as i128).min(span),
                4 => part.1 - ((rnd() % 40) as i128).min(span),
                5 => (1i128 << (rnd() % 64)).clamp(part.0, part.1),
                6 => ((rnd() % 300) as i128 - 150).clamp(part.0, part.1),
                _ => part.0 + ((rnd() as i128) << 32 | rnd() as u32 as i128).rem_euclid(span.saturating_add(1)),
            };
            // give the restricted low bits one of their values
            for (d, n, l) in env.cuts.iter() {
                let c = if *d == v {
                    0
                } else {
                    match var_kind(*d) {
                        VarKind::Def(a) if a.t.len() == 1 && a.t[0] == (v, 1) => a.k,
                        _ => continue,
                    }
                };
                let ls = &env.sets[l];
                let m = 1i128 << n;
                if ls.is_empty() || ls.contains((x + c).rem_euclid(m)) {
                    continue;
                }
                let pt = ls.0[(rnd() % ls.0.len() as u64) as usize];
                let y = [pt.0, pt.1, pt.0 + (rnd() as i128 % (pt.1 - pt.0 + 1))][(rnd() % 3) as usize];
                let z = x + (y - c - x).rem_euclid(m);
                x = [z, z - m, z + m].into_iter().find(|z| s.contains(*z)).unwrap_or(x);
            }
            Rc::make_mut(&mut e.sets).insert(v, ISet::single(x));
        }
        if !ok {
            continue;
        }
        let rs: HashMap<VarId, i128> = roots.iter().map(|v| (*v, e.set_of(*v).lo())).collect();
        let asg = |v: VarId| rs.get(&v).cloned();
        let fits = keys.iter().all(|v| eval_var(*v, &asg).map_or(true, |x| env.sets[v].contains(x)))
            && env.facts.iter().chain(rels.iter().cloned()).all(|f| eval_aff(f, &asg).map_or(true, |x| x >= 0))
            && env.preds.iter().all(|(op, signed, a, b, t)| match (a.eval(&asg), b.eval(&asg)) {
                (Some(p), Some(q)) if *signed => test(*op, sext(p, a.w).cmp(&sext(q, b.w))) == *t,
                (Some(p), Some(q)) => test(*op, p.cmp(&q)) == *t,
                _ => false,
            });
        if !fits {
            continue;
        }
        inside += 1;
        if feature(&asg) == Some(true) {
            return Member::Yes(roots.iter().map(|v| (*v, rs[v])).collect());
        }
    }
    if inside > 0 {
        Member::No
    } else {
        Member::None
    }
}

pub fn aff_vars(a: &Aff) -> Vec<VarId> {
    a.t.iter().map(|x| x.0).collect()
}

/// Some(false): equal for every valuation; Some(true): a valuation makes them differ; None: cannot tell
pub fn differs(env: &Env, a: &IntVal, b: &IntVal) -> Option<bool> {
    let r = compare(env, Cmp::Eq, false, a, b);
    if r.is_empty() || r.iter().all(|x| x.1) {
        return Some(false);
    }
    let (Some(mut va), Some(vb)) = (a.vars(env), b.vars(env)) else { return None };
    va.extend(vb);
    for x in [a, b] {
        if let Rep::Aff(f) = &x.r {
            va.extend(aff_vars(f));
        }
    }
    match member(env, &va, &|asg| Some(a.eval(asg)? != b.eval(asg)?)) {
        Member::Yes(_) => Some(true),
        _ => None,
    }
}
