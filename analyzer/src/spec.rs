//! Expected instructions (one line per witness instruction) and their comparison with decoded bytes.
use crate::dom::*;
use crate::interp::*;
use crate::x86::{self, Op};
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub enum V {
    Var(String),
    Num(i128),
}
#[derive(Clone, Debug)]
pub enum Disp {
    Val(V, i128), // value, sign
    Label,
}
#[derive(Clone, Debug)]
pub enum Ex {
    G(V, u16),
    X(V),
    M { base: Option<V>, rip: bool, index: Option<V>, scale: u8, disp: Disp },
    I(V),
    U(V),
    Rel(V),
    Label,
    Cl,
}
#[derive(Clone, Debug)]
pub struct Meta {
    pub op: String,
    pub cond: Option<u8>,
    pub w: u16,
    pub sw: u16,
    pub ops: Vec<Ex>,
    pub accept: Vec<(String, i128, i128)>,
    pub text: String,
}

fn val(s: &str) -> V {
    match s.parse::<i128>() {
        Ok(n) => V::Num(n),
        Err(_) => V::Var(s.to_string()),
    }
}

/// id \t op \t cond \t w \t sw \t operands separated by ' ' \t accept(name:lo:hi separated by ' ') \t text
pub fn load_meta(path: &str) -> HashMap<String, Meta> {
    let mut m = HashMap::new();
    let s = std::fs::read_to_string(path).expect("meta file");
    for l in s.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        if f.len() < 8 {
            continue;
        }
        let mut ops = vec![];
        for o in f[5].split(' ').filter(|x| !x.is_empty()) {
            let p: Vec<&str> = o.split(':').collect();
            ops.push(match p[0] {
                "g" => Ex::G(val(p[1]), p[2].parse().unwrap()),
                "x" => Ex::X(val(p[1])),
                "m" => Ex::M {
                    base: if p[1] == "-" || p[1] == "rip" { None } else { Some(val(p[1])) },
                    rip: p[1] == "rip",
                    index: if p[2] == "-" { None } else { Some(val(p[2])) },
                    scale: p[3].parse().unwrap(),
                    disp: match p[4] {
                        "L" => Disp::Label,
                        x => match x.strip_prefix('~') {
                            Some(y) => Disp::Val(val(y), -1),
                            None => Disp::Val(val(x), 1),
                        },
                    },
                },
                "i" => Ex::I(val(p[1])),
                "u" => Ex::U(val(p[1])),
                "rel" => Ex::Rel(val(p[1])),
                "l" => Ex::Label,
                "cl" => Ex::Cl,
                x => panic!("operand {}", x),
            });
        }
        let mut accept = vec![];
        for a in f[6].split(' ').filter(|x| !x.is_empty() && *x != "-") {
            let p: Vec<&str> = a.split(':').collect();
            accept.push((p[0].to_string(), p[1].parse().unwrap(), p[2].parse().unwrap()));
        }
        m.insert(
            f[0].to_string(),
            Meta {
                op: f[1].into(),
                cond: f[2].parse().ok(),
                w: f[3].parse().unwrap(),
                sw: f[4].parse().unwrap(),
                ops,
                accept,
                text: f[7].into(),
            },
        );
    }
    m
}

fn root_vars(env: &Env, v: VarId, out: &mut Vec<VarId>) {
    match var_kind(v) {
        VarKind::Def(a) => {
            for (x, _) in &a.t {
                root_vars(env, *x, out);
            }
        }
        VarKind::Low(x, _) | VarKind::Shr(x, _) => root_vars(env, x, out),
        _ => {
            if !out.contains(&v) {
                out.push(v);
            }
        }
    }
}

pub fn known_input(name: &str) -> VarId {
    input_var(name, ISet::range(0, 15))
}

fn num(env: &Env, v: &V) -> Option<i128> {
    match v {
        V::Num(n) => Some(*n),
        V::Var(s) => env.set_of(known_input(s)).as_single(),
    }
}
fn vval(v: &V, w: u32) -> IntVal {
    match v {
        V::Num(n) => IntVal::ci(w, *n),
        V::Var(s) => IntVal::var(w, known_input(s)),
    }
}

/// what was emitted is no instruction at all
pub fn malformed<'tcx>(cx: &mut Cx<'tcx, '_>, st: &State<'tcx>, id: &str, what: &str) {
    let Some(m) = cx.meta.get(id).cloned() else {
        cx.finding(st, "analysis", "unsupported", format!("no expectation {}", id));
        return;
    };
    cx.stats.obligations += 1;
    for a in all_aspects(&m) {
        cx.finding(st, a, "malformed", format!("{} for `{}`", what, m.text));
    }
}

pub fn all_aspects(m: &Meta) -> Vec<&'static str> {
    let mut v = vec!["C03"];
    if m.w > 0 {
        v.push("C04");
    }
    if m.cond.is_some() {
        v.push("C06");
    }
    for o in &m.ops {
        let a = match o {
            Ex::G(..) | Ex::X(_) | Ex::Cl => "C01",
            Ex::M { disp, .. } => {
                if let Disp::Label = disp {
                    v.push("C08");
                }
                "C02"
            }
            Ex::I(_) | Ex::U(_) | Ex::Rel(_) => "C05",
            Ex::Label => "C08",
        };
        v.push(a);
    }
    v.sort();
    v.dedup();
    v
}

/// results for value fields whose bytes do not depend on the register operands being enumerated
struct Memo {
    fixed: Vec<bool>,
    small: Vec<VarId>,
    seen: std::cell::RefCell<HashMap<(u8, usize, usize, bool), Option<(bool, String)>>>,
}
impl Memo {
    fn field(&self, kind: u8, p: usize, n: usize, sx: bool, want: Option<&V>, f: impl FnOnce() -> Option<(bool, String)>) -> Option<(bool, String)> {
        let dep = match want {
            Some(V::Var(s)) => self.small.contains(&known_input(s)),
            _ => false,
        };
        if dep || !self.fixed[p..p + n].iter().all(|x| *x) {
            return f();
        }
        if let Some(r) = self.seen.borrow().get(&(kind, p, n, sx)) {
            return r.clone();
        }
        let r = f();
        self.seen.borrow_mut().insert((kind, p, n, sx), r.clone());
        r
    }
}

/// operation and element width of a packed arithmetic instruction
fn element(op: &str) -> Option<(&str, u32)> {
    let (stem, suf) = op.split_at_checked(op.len().checked_sub(2)?)?;
    let n = match suf {
        "pd" => 64,
        "ps" => 32,
        _ => return None,
    };
    matches!(stem, "sqrt" | "round" | "add" | "sub" | "mul" | "div" | "min" | "max").then_some((stem, n))
}

/// compare the decoded instruction with the expectation under `env`; (property, detail) per mismatch
fn diff(m: &Meta, ins: &x86::Insn, bytes: &[IntVal], env: &Env, addr: &Aff, lab: Option<&IntVal>, total: usize, memo: &Memo) -> Vec<(&'static str, String)> {
    let mut out: Vec<(&'static str, String)> = vec![];
    let shown = x86::show(ins);
    if ins.len != total {
        for a in all_aspects(m) {
            out.push((a, format!("{} bytes are emitted but the instruction `{}` ends after {}", total, shown, ins.len)));
        }
        return out;
    }
    // an exchange of the accumulator with itself is the one-byte no-op
    if m.op == "xchg" && ins.op == "nop" {
        let all0 = m.ops.iter().all(|o| match o {
            Ex::G(v, 64) => num(env, v) == Some(0),
            _ => false,
        });
        if all0 {
            return out;
        }
    }
    if ins.op != m.op {
        out.push(("C03", format!("assembles to `{}`", shown)));
        // packed operations of the same kind differ in the width of their elements
        if let (Some(a), Some(b)) = (element(&ins.op), element(&m.op)) {
            if a.0 == b.0 && a.1 != b.1 && ins.w == m.w {
                out.push(("C04", format!("operates on {}-bit elements, expected {}: `{}`", a.1, b.1, shown)));
            }
        }
    }
    if ins.cond != m.cond {
        out.push(("C06", format!("assembles to condition of `{}`", shown)));
        out.push(("C03", format!("assembles to condition of `{}`", shown)));
    }
    let mut zext_mov = false;
    if ins.w != m.w || ins.sw != m.sw {
        // mov r32, imm32 clears the upper half: same effect as mov r64 with a non-negative immediate
        if m.op == "mov" && ins.op == "mov" && m.w == 64 && ins.w == 32 && ins.ops.len() == 2 {
            if let (Op::G(..), Op::I(..)) = (&ins.ops[0], &ins.ops[1]) {
                zext_mov = true;
            }
        }
        if !zext_mov {
            out.push(("C04", format!("operates on {} bits (source {}), expected {} (source {}): `{}`", ins.w, ins.sw, m.w, m.sw, shown)));
            out.push(("C03", format!("operates on {} bits (source {}), expected {} (source {}): `{}`", ins.w, ins.sw, m.w, m.sw, shown)));
        }
    }
    if ins.ops.len() != m.ops.len() {
        for a in all_aspects(m) {
            out.push((a, format!("`{}` has {} operands, expected {}", shown, ins.ops.len(), m.ops.len())));
        }
        return out;
    }
    let cmp_ops = |ops: &[Op]| -> Vec<(&'static str, String)> {
        let mut o2 = vec![];
        for (e, o) in m.ops.iter().zip(ops.iter()) {
            operand(m, e, o, &shown, bytes, env, addr, lab, total, zext_mov, memo, &mut o2);
        }
        o2
    };
    let a = cmp_ops(&ins.ops);
    if a.is_empty() {
        return out;
    }
    if ins.ops.len() == 2 {
        let mut sw = ins.ops.clone();
        sw.swap(0, 1);
        let b = cmp_ops(&sw);
        if b.is_empty() {
            if matches!(ins.op.as_str(), "test" | "xchg") {
                return out; // commutative
            }
            let d = format!("source and destination are exchanged: `{}`", shown);
            out.push(("C03", d.clone()));
            for (p, _) in a {
                out.push((p, d.clone()));
            }
            return out;
        }
    }
    out.extend(a);
    out
}


/// None: equal for every valuation; Some((sure, description)) otherwise
fn unequal(env: &Env, a: &IntVal, b: &IntVal, d: impl FnOnce() -> String) -> Option<(bool, String)> {
    match differs(env, a, b) {
        Some(false) => None,
        Some(true) => Some((true, d())),
        None => Some((false, d())),
    }
}

fn bytes_val(env: &Env, bytes: &[IntVal], p: usize, n: usize) -> IntVal {
    let mut bits = vec![];
    for b in &bytes[p..p + n] {
        bits.extend(b.bits(env));
    }
    let v = IntVal::from_bits(env, bits);
    if let Rep::Bits(_) = v.r {
        if let Some(a) = v.to_aff(env) {
            return IntVal::aff(v.w, a);
        }
    }
    v
}

#[allow(clippy::too_many_arguments)]
fn operand(
    m: &Meta,
    e: &Ex,
    o: &Op,
    shown: &str,
    bytes: &[IntVal],
    env: &Env,
    addr: &Aff,
    lab: Option<&IntVal>,
    total: usize,
    zext: bool,
    memo: &Memo,
    out: &mut Vec<(&'static str, String)>,
) {
    match (e, o) {
        (Ex::G(v, w), Op::G(n, ow, high)) => {
            let k = num(env, v);
            if k != Some(*n as i128) || *high {
                out.push(("C01", format!("register {:?} is encoded as {} in `{}`", k, x86::gname(*n, *ow, *high), shown)));
                if *high {
                    out.push(("C04", format!("byte register {:?} is encoded as {}", k, x86::gname(*n, *ow, *high))));
                }
            } else if w != ow && !zext {
                out.push(("C04", format!("register operand of {} bits is encoded with {} bits in `{}`", w, ow, shown)));
            }
        }
        (Ex::X(v), Op::X(n)) => {
            let k = num(env, v);
            if k != Some(*n as i128) {
                out.push(("C01", format!("register xmm{:?} is encoded as xmm{} in `{}`", k, n, shown)));
            }
        }
        (Ex::Cl, Op::Cl) => {}
        (Ex::M { base, rip, index, scale, disp }, Op::M(mm)) => {
            let mut want: HashMap<i128, i128> = HashMap::new();
            if let Some(b) = base {
                *want.entry(num(env, b).unwrap_or(-1)).or_insert(0) += 1;
            }
            if let Some(i) = index {
                *want.entry(num(env, i).unwrap_or(-1)).or_insert(0) += *scale as i128;
            }
            let mut got: HashMap<i128, i128> = HashMap::new();
            if let Some(b) = mm.base {
                *got.entry(b as i128).or_insert(0) += 1;
            }
            if let Some(i) = mm.index {
                *got.entry(i as i128).or_insert(0) += mm.scale as i128;
            }
            if want != got || *rip != mm.rip {
                let mut w: Vec<_> = want.into_iter().collect();
                w.sort();
                let d = format!("memory operand with registers x factors {:?}{} is encoded as `{}`", w, if *rip { " + rip" } else { "" }, shown);
                out.push(("C02", d.clone()));
                return;
            }
            let want = if let Disp::Val(v, _) = disp { Some(v) } else { None };
            let check = || -> Option<(bool, String)> {
                let dv = if mm.dlen == 0 {
                    IntVal::c(64, 0)
                } else {
                    bytes_val(env, bytes, mm.dpos, mm.dlen).resize(env, true, 64)
                };
                match disp {
                    Disp::Val(v, s) => {
                        let x = match v {
                            V::Num(n) => IntVal::ci(64, *n * *s),
                            V::Var(name) => {
                                let a = Aff { k: 0, t: vec![(known_input(name), *s)] };
                                IntVal::aff(64, a)
                            }
                        };
                        unequal(env, &dv, &x, || format!("displacement {} is encoded as {} in `{}`", x.show(env), dv.show(env), shown))
                    }
                    Disp::Label => label(env, addr, total, &dv, lab),
                }
            };
            let p = if matches!(disp, Disp::Label) { "C08" } else { "C02" };
            if let Some((sure, d)) = memo.field(0, mm.dpos.min(total), mm.dlen, true, want, check) {
                out.push((if sure { p } else { "analysis" }, d));
            }
        }
        (Ex::I(v), Op::I(p, n)) => {
            let r = memo.field(1, *p, *n, !zext, Some(v), || {
                let x = bytes_val(env, bytes, *p, *n).resize(env, !zext, 64);
                let want = vval(v, 64);
                unequal(env, &x, &want, || format!("immediate {} is encoded as {} in `{}`", want.show(env), x.show(env), shown))
            });
            if let Some((sure, d)) = r {
                out.push((if sure { "C05" } else { "analysis" }, d));
            }
        }
        (Ex::I(v), Op::One) => {
            let want = vval(v, 64);
            if let Some((sure, d)) = unequal(env, &IntVal::c(64, 1), &want, || format!("immediate {} is encoded as 1 in `{}`", want.show(env), shown)) {
                out.push((if sure { "C05" } else { "analysis" }, d));
            }
        }
        (Ex::U(v), Op::I(p, n)) => {
            let x = bytes_val(env, bytes, *p, *n).resize(env, false, 64);
            let want = vval(v, 64);
            if let Some((sure, d)) = unequal(env, &x, &want, || format!("immediate {} is encoded as {} in `{}`", want.show(env), x.show(env), shown)) {
                out.push((if sure { "C05" } else { "analysis" }, d));
            }
        }
        (Ex::Rel(v), Op::Rel(p, n)) => {
            let x = bytes_val(env, bytes, *p, *n).resize(env, true, 64);
            let want = vval(v, 64);
            if let Some((sure, d)) = unequal(env, &x, &want, || format!("displacement {} is encoded as {} in `{}`", want.show(env), x.show(env), shown)) {
                out.push((if sure { "C05" } else { "analysis" }, d));
            }
        }
        (Ex::Label, Op::Rel(p, n)) => {
            let r = memo.field(2, *p, *n, true, None, || {
                let x = bytes_val(env, bytes, *p, *n).resize(env, true, 64);
                label(env, addr, total, &x, lab)
            });
            if let Some((sure, d)) = r {
                out.push((if sure { "C08" } else { "analysis" }, d));
            }
        }
        _ => {
            let a = match e {
                Ex::G(..) | Ex::X(_) | Ex::Cl => "C01",
                Ex::M { .. } => "C02",
                Ex::I(_) | Ex::U(_) | Ex::Rel(_) => "C05",
                Ex::Label => "C08",
            };
            let d = format!("operand {:?} of `{}` is encoded as {} in `{}`", e, m.text, x86::show_op(o), shown);
            out.push((a, d.clone()));
            out.push(("C03", d));
        }
    }
}

fn label(env: &Env, addr: &Aff, total: usize, disp: &IntVal, lab: Option<&IntVal>) -> Option<(bool, String)> {
    let l = lab?;
    let next = IntVal::aff(64, addr.plus(total as i128));
    let tgt = next.add(env, disp, false);
    unequal(env, &tgt, l, || format!("reference leads to {} instead of {}", tgt.show(env), l.show(env)))
}

pub fn check<'tcx>(cx: &mut Cx<'tcx, '_>, st: &mut State<'tcx>, id: &str, addr: &Aff, bytes: &[IntVal], lab: Option<&IntVal>) {
    let Some(m) = cx.meta.get(id).cloned() else {
        cx.finding(st, "analysis", "unsupported", format!("no expectation for {}", id));
        return;
    };
    let mut roots = vec![];
    for b in bytes {
        if let Some(vs) = b.vars(&st.env) {
            for v in vs {
                root_vars(&st.env, v, &mut roots);
            }
        }
    }
    // register inputs of the expectation
    for o in &m.ops {
        let mut add = |v: &V| {
            if let V::Var(s) = v {
                let k = known_input(s);
                if !roots.contains(&k) {
                    roots.push(k);
                }
            }
        };
        match o {
            Ex::G(v, _) | Ex::X(v) => add(v),
            Ex::M { base, index, .. } => {
                if let Some(b) = base {
                    add(b);
                }
                if let Some(i) = index {
                    add(i);
                }
            }
            _ => {}
        }
    }
    let small: Vec<VarId> = roots.into_iter().filter(|v| (2..=64).contains(&st.env.set_of(*v).size())).collect();
    let mut seen: Vec<&'static str> = vec![];
    let choices: Vec<Vec<i128>> = small.iter().map(|v| st.env.set_of(*v).iter().collect()).collect();
    // bytes that do not depend on an enumerated variable
    let fixed: Vec<bool> = bytes
        .iter()
        .map(|b| {
            let mut r = vec![];
            match b.vars(&st.env) {
                Some(vs) => {
                    for v in vs {
                        root_vars(&st.env, v, &mut r);
                    }
                    !r.iter().any(|v| small.contains(v))
                }
                None => false,
            }
        })
        .collect();
    let base: Vec<Option<u8>> = bytes.iter().map(|b| b.as_const(&st.env).map(|x| x as u8)).collect();
    let memo = Memo { fixed: fixed.clone(), small: small.clone(), seen: Default::default() };
    let mut env = st.env.clone();
    let mut pick = vec![0usize; small.len()];
    if choices.iter().any(|c| c.is_empty()) {
        return;
    }
    'all: loop {
        for (k, v) in small.iter().enumerate() {
            std::rc::Rc::make_mut(&mut env.sets).insert(*v, ISet::single(choices[k][pick[k]]));
        }
        cx.stats.decodes += 1;
        let bs: Vec<Option<u8>> = (0..bytes.len()).map(|i| if fixed[i] { base[i] } else { bytes[i].as_const(&env).map(|x| x as u8) }).collect();
        let ds = match x86::decode(&bs) {
            Ok(i) => diff(&m, &i, bytes, &env, addr, lab, bytes.len(), &memo),
            Err(e) => {
                let hex: Vec<String> = bs.iter().map(|b| b.map_or("??".into(), |x| format!("{:02x}", x))).collect();
                // a byte whose value the domain lost says nothing
                let lost = bytes.iter().any(|b| b.bits(&env).iter().any(|x| matches!(x, Bit::Top | Bit::E(_))));
                let who = if lost { vec!["analysis"] } else { all_aspects(&m) };
                who.into_iter().map(|a| (a, format!("emits {}: {}", hex.join(" "), e))).collect()
            }
        };
        for (a, dsc) in ds {
            if seen.contains(&a) {
                continue;
            }
            seen.push(a);
            let old = std::mem::replace(&mut st.env, env.clone());
            cx.finding(st, a, "encoding", format!("`{}`: {}", m.text, dsc));
            st.env = old;
        }
        let mut k = 0;
        loop {
            if k == small.len() {
                break 'all;
            }
            pick[k] += 1;
            if pick[k] < choices[k].len() {
                break;
            }
            pick[k] = 0;
            k += 1;
        }
    }
}

pub fn refused<'tcx>(cx: &mut Cx<'tcx, '_>, st: &mut State<'tcx>, id: &str, msg: &str) {
    let Some(m) = cx.meta.get(id).cloned() else {
        cx.finding(st, "analysis", "unsupported", format!("no expectation for {}", id));
        return;
    };
    for (n, lo, hi) in &m.accept {
        if st.env.set_of(known_input(n)).inter(*lo, *hi).is_empty() {
            return; // a value the instruction cannot represent
        }
    }
    // which operand does the refusal depend on?
    let mut props: Vec<&'static str> = vec![];
    let narrowed = |v: &V| -> bool {
        if let V::Var(s) = v {
            let k = known_input(s);
            st.env.set_of(k).size() < var_base(k).size()
        } else {
            false
        }
    };
    for o in &m.ops {
        match o {
            Ex::G(v, _) | Ex::X(v) if narrowed(v) => props.push("C01"),
            Ex::I(v) | Ex::U(v) | Ex::Rel(v) if narrowed(v) => props.push("C05"),
            Ex::M { base, index, disp, .. } => {
                let d = if let Disp::Val(v, _) = disp { narrowed(v) } else { false };
                if d || base.as_ref().map_or(false, narrowed) || index.as_ref().map_or(false, narrowed) {
                    props.push("C02");
                }
            }
            _ => {}
        }
    }
    props.push("C03");
    props.sort();
    props.dedup();
    for p in props {
        cx.finding(st, p, "refused", format!("`{}` is refused with a panic ({})", m.text, msg));
    }
}
