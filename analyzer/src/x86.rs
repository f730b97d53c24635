//! Independent x86-64 instruction decoder for the subset the assembler can name (plus neighbours, so
//! that a wrong opcode is recognised as what it is). Written from the architecture manual; it shares
//! nothing with the code under analysis.

#[derive(Clone, Debug, PartialEq)]
pub struct Mem {
    pub base: Option<u8>,
    pub rip: bool,
    pub index: Option<u8>,
    pub scale: u8,
    pub dpos: usize,
    pub dlen: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    /// general register: number, width in bits, legacy high byte (ah, ch, dh, bh)
    G(u8, u16, bool),
    X(u8),
    M(Mem),
    /// immediate at position, length in bytes
    I(usize, usize),
    /// pc-relative displacement
    Rel(usize, usize),
    One,
    Cl,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Insn {
    pub op: String,
    pub cond: Option<u8>,
    /// operand width
    pub w: u16,
    /// width of the source (widening moves, conversions) or 0
    pub sw: u16,
    pub ops: Vec<Op>,
    pub len: usize,
}

struct D<'a> {
    b: &'a [Option<u8>],
    p: usize,
    rex: Option<u8>,
    opsize: bool,
    rep: Option<u8>,
    used_rep: bool,
    used_66: bool,
}

type Rs<T> = Result<T, String>;

const ALU: [&str; 8] = ["add", "or", "adc", "sbb", "and", "sub", "xor", "cmp"];
const SHIFT: [&str; 8] = ["rol", "ror", "rcl", "rcr", "shl", "shr", "shl", "sar"];

impl<'a> D<'a> {
    fn u8(&mut self, what: &str) -> Rs<u8> {
        match self.b.get(self.p) {
            Some(Some(x)) => {
                self.p += 1;
                Ok(*x)
            }
            Some(None) => Err(format!("{} byte at offset {} depends on an operand value", what, self.p)),
            None => Err(format!("truncated instruction (missing {} byte)", what)),
        }
    }
    fn skip(&mut self, n: usize) -> Rs<usize> {
        let p = self.p;
        if p + n > self.b.len() {
            return Err("truncated instruction (missing operand bytes)".into());
        }
        self.p += n;
        Ok(p)
    }
    fn rexbit(&self, k: u8) -> u8 {
        self.rex.map_or(0, |r| (r >> k) & 1)
    }
    fn w(&self) -> u16 {
        if self.rexbit(3) == 1 {
            64
        } else if self.opsize {
            16
        } else {
            32
        }
    }
    fn g(&self, n: u8, w: u16) -> Op {
        let high = w == 8 && self.rex.is_none() && (4..8).contains(&n);
        Op::G(n, w, high)
    }
    /// returns (reg field extended, r/m operand as general register of width w or memory)
    fn modrm(&mut self, w: u16, xmm_rm: bool) -> Rs<(u8, Op)> {
        let m = self.u8("ModRM")?;
        let md = m >> 6;
        let reg = ((m >> 3) & 7) | (self.rexbit(2) << 3);
        let rm = m & 7;
        if md == 3 {
            let n = rm | (self.rexbit(0) << 3);
            let o = if xmm_rm { Op::X(n) } else { self.g(n, w) };
            return Ok((reg, o));
        }
        let mut mem = Mem { base: None, rip: false, index: None, scale: 1, dpos: 0, dlen: 0 };
        if rm == 4 {
            let s = self.u8("SIB")?;
            let idx = ((s >> 3) & 7) | (self.rexbit(1) << 3);
            if idx != 4 {
                mem.index = Some(idx);
                mem.scale = 1 << (s >> 6);
            }
            if (s & 7) == 5 && md == 0 {
                mem.dlen = 4;
            } else {
                mem.base = Some((s & 7) | (self.rexbit(0) << 3));
            }
        } else if rm == 5 && md == 0 {
            mem.rip = true;
            mem.dlen = 4;
        } else {
            mem.base = Some(rm | (self.rexbit(0) << 3));
        }
        match md {
            1 => mem.dlen = 1,
            2 => mem.dlen = 4,
            _ => {}
        }
        mem.dpos = self.skip(mem.dlen)?;
        Ok((reg, Op::M(mem)))
    }
    fn imm(&mut self, n: usize) -> Rs<Op> {
        let p = self.skip(n)?;
        Ok(Op::I(p, n))
    }
    fn immz(&mut self) -> Rs<Op> {
        let n = if self.w() == 16 { 2 } else { 4 };
        self.imm(n)
    }
}

fn ins(op: &str, w: u16, ops: Vec<Op>) -> Insn {
    Insn { op: op.into(), cond: None, w, sw: 0, ops, len: 0 }
}

pub fn decode(b: &[Option<u8>]) -> Rs<Insn> {
    let mut d = D { b, p: 0, rex: None, opsize: false, rep: None, used_rep: false, used_66: false };
    let op;
    loop {
        let x = d.u8("opcode")?;
        match x {
            0x66 => {
                if d.rex.is_some() {
                    return Err("REX prefix before a legacy prefix has no effect".into());
                }
                d.opsize = true
            }
            0xf2 | 0xf3 => {
                if d.rex.is_some() {
                    return Err("REX prefix before a legacy prefix has no effect".into());
                }
                d.rep = Some(x)
            }
            0x26 | 0x2e | 0x36 | 0x3e | 0x64 | 0x65 | 0x67 | 0xf0 => return Err(format!("stray prefix {:#04x}", x)),
            0x40..=0x4f => {
                if d.rex.is_some() {
                    return Err("two REX prefixes".into());
                }
                d.rex = Some(x);
            }
            _ => {
                op = x;
                break;
            }
        }
    }
    let w = d.w();
    let mut r = match op {
        0x00..=0x3f if op & 7 < 6 => {
            let name = ALU[(op >> 3) as usize];
            match op & 7 {
                0 => {
                    let (g, e) = d.modrm(8, false)?;
                    let g = d.g(g, 8);
                    ins(name, 8, vec![e, g])
                }
                1 => {
                    let (g, e) = d.modrm(w, false)?;
                    let g = d.g(g, w);
                    ins(name, w, vec![e, g])
                }
                2 => {
                    let (g, e) = d.modrm(8, false)?;
                    let g = d.g(g, 8);
                    ins(name, 8, vec![g, e])
                }
                3 => {
                    let (g, e) = d.modrm(w, false)?;
                    let g = d.g(g, w);
                    ins(name, w, vec![g, e])
                }
                4 => {
                    let i = d.imm(1)?;
                    ins(name, 8, vec![Op::G(0, 8, false), i])
                }
                _ => {
                    let i = d.immz()?;
                    ins(name, w, vec![Op::G(0, w, false), i])
                }
            }
        }
        0x50..=0x57 => {
            let n = (op & 7) | (d.rexbit(0) << 3);
            let w = if d.opsize && d.rexbit(3) == 0 { 16 } else { 64 };
            ins("push", w, vec![Op::G(n, w, false)])
        }
        0x58..=0x5f => {
            let n = (op & 7) | (d.rexbit(0) << 3);
            let w = if d.opsize && d.rexbit(3) == 0 { 16 } else { 64 };
            ins("pop", w, vec![Op::G(n, w, false)])
        }
        0x63 => {
            let (g, e) = d.modrm(32, false)?;
            let g = d.g(g, w);
            let mut i = ins("movsx", w, vec![g, e]);
            i.sw = 32;
            i
        }
        0x68 => {
            let i = d.immz()?;
            ins("push", 64, vec![i])
        }
        0x6a => {
            let i = d.imm(1)?;
            ins("push", 64, vec![i])
        }
        0x69 | 0x6b => {
            let (g, e) = d.modrm(w, false)?;
            let i = if op == 0x6b { d.imm(1)? } else { d.immz()? };
            let g = d.g(g, w);
            ins("imul", w, vec![g, e, i])
        }
        0x70..=0x7f => {
            let p = d.skip(1)?;
            let mut i = ins("j", 64, vec![Op::Rel(p, 1)]);
            i.cond = Some(op & 15);
            i
        }
        0x80 | 0x81 | 0x83 => {
            let ww = if op == 0x80 { 8 } else { w };
            let (g, e) = d.modrm(ww, false)?;
            let i = if op == 0x81 { d.immz()? } else { d.imm(1)? };
            ins(ALU[(g & 7) as usize], ww, vec![e, i])
        }
        0x84 | 0x85 | 0x86 | 0x87 => {
            let ww = if op & 1 == 0 { 8 } else { w };
            let (g, e) = d.modrm(ww, false)?;
            let g = d.g(g, ww);
            ins(if op < 0x86 { "test" } else { "xchg" }, ww, vec![e, g])
        }
        0x88 | 0x89 | 0x8a | 0x8b => {
            let ww = if op & 1 == 0 { 8 } else { w };
            let (g, e) = d.modrm(ww, false)?;
            let g = d.g(g, ww);
            if op < 0x8a {
                ins("mov", ww, vec![e, g])
            } else {
                ins("mov", ww, vec![g, e])
            }
        }
        0x8d => {
            let (g, e) = d.modrm(w, false)?;
            if !matches!(e, Op::M(_)) {
                return Err("lea with a register source".into());
            }
            let g = d.g(g, w);
            ins("lea", w, vec![g, e])
        }
        0x8f => {
            let (g, e) = d.modrm(64, false)?;
            if g & 7 != 0 {
                return Err("undefined opcode 8f".into());
            }
            ins("pop", if d.opsize && d.rexbit(3) == 0 { 16 } else { 64 }, vec![e])
        }
        0x90 if d.rexbit(0) == 0 => {
            if d.rep == Some(0xf3) {
                d.used_rep = true;
                ins("pause", 0, vec![])
            } else {
                d.used_66 = true;
                ins("nop", 0, vec![])
            }
        }
        0x90..=0x97 => {
            let n = (op & 7) | (d.rexbit(0) << 3);
            ins("xchg", w, vec![Op::G(n, w, false), Op::G(0, w, false)])
        }
        0x98 => ins("cwd_a", w, vec![]),
        0x99 => ins("cdq", w, vec![]),
        0xa8 => {
            let i = d.imm(1)?;
            ins("test", 8, vec![Op::G(0, 8, false), i])
        }
        0xa9 => {
            let i = d.immz()?;
            ins("test", w, vec![Op::G(0, w, false), i])
        }
        0xb0..=0xb7 => {
            let n = (op & 7) | (d.rexbit(0) << 3);
            let i = d.imm(1)?;
            let g = d.g(n, 8);
            ins("mov", 8, vec![g, i])
        }
        0xb8..=0xbf => {
            let n = (op & 7) | (d.rexbit(0) << 3);
            let i = d.imm((w / 8) as usize)?;
            ins("mov", w, vec![Op::G(n, w, false), i])
        }
        0xc0 | 0xc1 | 0xd0 | 0xd1 | 0xd2 | 0xd3 => {
            let ww = if op & 1 == 0 { 8 } else { w };
            let (g, e) = d.modrm(ww, false)?;
            let c = match op {
                0xc0 | 0xc1 => d.imm(1)?,
                0xd0 | 0xd1 => Op::One,
                _ => Op::Cl,
            };
            ins(SHIFT[(g & 7) as usize], ww, vec![e, c])
        }
        0xc3 => ins("ret", 64, vec![]),
        0xc6 | 0xc7 => {
            let ww = if op == 0xc6 { 8 } else { w };
            let (g, e) = d.modrm(ww, false)?;
            if g & 7 != 0 {
                return Err("undefined opcode c6/c7".into());
            }
            let i = if op == 0xc6 { d.imm(1)? } else { d.immz()? };
            ins("mov", ww, vec![e, i])
        }
        0xc9 => ins("leave", 64, vec![]),
        0xcc => ins("int3", 0, vec![]),
        0xe8 | 0xe9 => {
            let p = d.skip(4)?;
            ins(if op == 0xe8 { "call" } else { "jmp" }, 64, vec![Op::Rel(p, 4)])
        }
        0xeb => {
            let p = d.skip(1)?;
            ins("jmp", 64, vec![Op::Rel(p, 1)])
        }
        0xf6 | 0xf7 => {
            let ww = if op == 0xf6 { 8 } else { w };
            let (g, e) = d.modrm(ww, false)?;
            match g & 7 {
                0 | 1 => {
                    let i = if op == 0xf6 { d.imm(1)? } else { d.immz()? };
                    ins("test", ww, vec![e, i])
                }
                k => ins(["", "", "not", "neg", "mul", "imul", "div", "idiv"][k as usize], ww, vec![e]),
            }
        }
        0xfe | 0xff => {
            let save = d.p;
            let m = d.u8("ModRM")?;
            d.p = save;
            let dg = (m >> 3) & 7;
            let ww = if op == 0xfe {
                8
            } else if dg >= 2 {
                if d.opsize {
                    16
                } else {
                    64
                }
            } else {
                w
            };
            let (_, e) = d.modrm(ww, false)?;
            let name = match (op, dg) {
                (_, 0) => "inc",
                (_, 1) => "dec",
                (0xff, 2) => "call",
                (0xff, 4) => "jmp",
                (0xff, 6) => "push",
                _ => return Err("undefined opcode ff".into()),
            };
            ins(name, ww, vec![e])
        }
        0x0f => {
            let o2 = d.u8("opcode")?;
            two(&mut d, o2)?
        }
        _ => return Err(format!("opcode {:#04x} is not an instruction the assembler names", op)),
    };
    if d.rep.is_some() && !d.used_rep {
        return Err(format!("stray prefix {:#04x}", d.rep.unwrap()));
    }
    let sized = matches!(r.w, 16 | 32 | 64);
    if d.opsize && !d.used_66 && !(sized && r.w == 16) {
        return Err("operand-size prefix has no effect here".into());
    }
    r.len = d.p;
    Ok(r)
}

fn two(d: &mut D, o: u8) -> Rs<Insn> {
    let w = d.w();
    // mandatory prefix of the SSE encodings
    let pfx = |d: &D| -> u8 { d.rep.unwrap_or(if d.opsize { 0x66 } else { 0 }) };
    Ok(match o {
        0x05 => ins("syscall", 0, vec![]),
        0x0b => ins("ud2", 0, vec![]),
        0x10 | 0x11 | 0x28 | 0x29 | 0x51 | 0x54 | 0x55 | 0x56 | 0x57 | 0x58 | 0x59 | 0x5c | 0x5d | 0x5e | 0x5f | 0x2e
        | 0x2f => {
            let p = pfx(d);
            if d.rep.is_some() && d.opsize {
                return Err("conflicting prefixes".into());
            }
            d.used_rep = true;
            d.used_66 = true;
            let (g, e) = d.modrm(0, true)?;
            let stem = match o {
                0x10 | 0x11 => "mov",
                0x28 | 0x29 => "mova",
                0x51 => "sqrt",
                0x54 => "and",
                0x55 => "andn",
                0x56 => "or",
                0x57 => "xor",
                0x58 => "add",
                0x59 => "mul",
                0x5c => "sub",
                0x5d => "min",
                0x5e => "div",
                0x5f => "max",
                0x2e => "ucomi",
                _ => "comi",
            };
            let suf = match (o, p) {
                (0x2e | 0x2f, 0x66) => "sd",
                (0x2e | 0x2f, 0) => "ss",
                (0x2e | 0x2f, _) => return Err("undefined comis".into()),
                (_, 0xf2) => "sd",
                (_, 0xf3) => "ss",
                (_, 0x66) => "pd",
                _ => "ps",
            };
            if matches!(o, 0x54..=0x57) && p >= 0xf2 {
                return Err("undefined bitwise op".into());
            }
            let wd = match suf {
                "sd" => 64,
                "ss" => 32,
                _ => 128,
            };
            let ops = if o == 0x11 || o == 0x29 { vec![e, Op::X(g)] } else { vec![Op::X(g), e] };
            ins(&format!("{}{}", stem, suf), wd, ops)
        }
        0x2a | 0x2c | 0x2d => {
            let p = pfx(d);
            if p < 0xf2 || d.opsize {
                return Err("undefined conversion".into());
            }
            d.used_rep = true;
            let fw = if p == 0xf2 { 64 } else { 32 };
            let iw = if d.rexbit(3) == 1 { 64 } else { 32 };
            let fs = if p == 0xf2 { "sd" } else { "ss" };
            if o == 0x2a {
                let (g, e) = d.modrm(iw, false)?;
                let mut i = ins(&format!("cvtsi2{}", fs), fw, vec![Op::X(g), e]);
                i.sw = iw;
                i
            } else {
                let (g, e) = d.modrm(0, true)?;
                let g = d.g(g, iw);
                let mut i = ins(&format!("cvt{}{}2si", if o == 0x2c { "t" } else { "" }, fs), iw, vec![g, e]);
                i.sw = fw;
                i
            }
        }
        0x6e | 0x7e | 0xd6 => {
            let p = pfx(d);
            let qw = if d.rexbit(3) == 1 { 64 } else { 32 };
            match (o, p) {
                (0x6e, 0x66) => {
                    d.used_66 = true;
                    let (g, e) = d.modrm(qw, false)?;
                    ins("movq", qw, vec![Op::X(g), e])
                }
                (0x7e, 0x66) => {
                    d.used_66 = true;
                    let (g, e) = d.modrm(qw, false)?;
                    ins("movq", qw, vec![e, Op::X(g)])
                }
                (0x7e, 0xf3) if !d.opsize => {
                    d.used_rep = true;
                    let (g, e) = d.modrm(64, true)?;
                    ins("movq", 64, vec![Op::X(g), e])
                }
                (0xd6, 0x66) => {
                    d.used_66 = true;
                    let (g, e) = d.modrm(64, true)?;
                    ins("movq", 64, vec![e, Op::X(g)])
                }
                _ => return Err("undefined movd/movq".into()),
            }
        }
        0x3a => {
            let o3 = d.u8("opcode")?;
            if !d.opsize || d.rep.is_some() {
                return Err("undefined 0f 3a".into());
            }
            d.used_66 = true;
            let name = match o3 {
                0x08 => "roundps",
                0x09 => "roundpd",
                0x0a => "roundss",
                0x0b => "roundsd",
                _ => return Err("unknown 0f 3a opcode".into()),
            };
            let (g, e) = d.modrm(0, true)?;
            let i = d.imm(1)?;
            ins(name, if o3 < 0x0a { 128 } else { 64 }, vec![Op::X(g), e, i])
        }
        0x40..=0x4f => {
            let (g, e) = d.modrm(w, false)?;
            let g = d.g(g, w);
            let mut i = ins("cmov", w, vec![g, e]);
            i.cond = Some(o & 15);
            i
        }
        0x80..=0x8f => {
            let p = d.skip(4)?;
            let mut i = ins("j", 64, vec![Op::Rel(p, 4)]);
            i.cond = Some(o & 15);
            i
        }
        0x90..=0x9f => {
            let (_, e) = d.modrm(8, false)?;
            let mut i = ins("set", 8, vec![e]);
            i.cond = Some(o & 15);
            i
        }
        0xaf => {
            let (g, e) = d.modrm(w, false)?;
            let g = d.g(g, w);
            ins("imul", w, vec![g, e])
        }
        0xb6 | 0xb7 | 0xbe | 0xbf => {
            let sw = if o & 1 == 0 { 8 } else { 16 };
            let (g, e) = d.modrm(sw, false)?;
            let g = d.g(g, w);
            let mut i = ins(if o < 0xb8 { "movzx" } else { "movsx" }, w, vec![g, e]);
            i.sw = sw;
            i
        }
        0xb8 | 0xbc | 0xbd => {
            let f3 = d.rep == Some(0xf3);
            if d.rep == Some(0xf2) {
                return Err("stray prefix 0xf2".into());
            }
            if o == 0xb8 && !f3 {
                return Err("undefined opcode 0f b8".into());
            }
            d.used_rep = true;
            let (g, e) = d.modrm(w, false)?;
            let g = d.g(g, w);
            let name = match (o, f3) {
                (0xb8, _) => "popcnt",
                (0xbc, true) => "tzcnt",
                (0xbc, false) => "bsf",
                (_, true) => "lzcnt",
                _ => "bsr",
            };
            ins(name, w, vec![g, e])
        }
        _ => return Err(format!("opcode 0f {:02x} is not an instruction the assembler names", o)),
    })
}

// ---------------------------------------------------------------- development-time cross validation
const G64: [&str; 16] = [
    "rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15",
];
const G32: [&str; 16] = [
    "eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi", "r8d", "r9d", "r10d", "r11d", "r12d", "r13d", "r14d",
    "r15d",
];
const G16: [&str; 16] = [
    "ax", "cx", "dx", "bx", "sp", "bp", "si", "di", "r8w", "r9w", "r10w", "r11w", "r12w", "r13w", "r14w", "r15w",
];
const G8: [&str; 16] = [
    "al", "cl", "dl", "bl", "spl", "bpl", "sil", "dil", "r8b", "r9b", "r10b", "r11b", "r12b", "r13b", "r14b", "r15b",
];
const CC: [&str; 16] = ["o", "no", "b", "ae", "e", "ne", "be", "a", "s", "ns", "p", "np", "l", "ge", "le", "g"];

pub fn gname(n: u8, w: u16, high: bool) -> String {
    if high {
        return ["ah", "ch", "dh", "bh"][(n - 4) as usize].into();
    }
    match w {
        8 => G8[n as usize],
        16 => G16[n as usize],
        32 => G32[n as usize],
        _ => G64[n as usize],
    }
    .into()
}

fn le(b: &[Option<u8>], p: usize, n: usize) -> i64 {
    let mut v = 0u64;
    for i in 0..n {
        v |= (b[p + i].unwrap_or(0) as u64) << (8 * i);
    }
    let s = 64 - 8 * n as u32;
    if n == 0 {
        0
    } else {
        ((v << s) as i64) >> s
    }
}

pub fn show_mem(m: &Mem) -> String {
    let mut s = vec![];
    if m.rip {
        s.push("rip".to_string());
    }
    if let Some(b) = m.base {
        s.push(G64[b as usize].into());
    }
    if let Some(i) = m.index {
        s.push(format!("{}*{}", G64[i as usize], m.scale));
    }
    if m.dlen > 0 {
        s.push(format!("disp{}", m.dlen * 8));
    }
    format!("[{}]", s.join("+"))
}
pub fn show_op(o: &Op) -> String {
    match o {
        Op::G(n, w, h) => gname(*n, *w, *h),
        Op::X(n) => format!("xmm{}", n),
        Op::M(m) => show_mem(m),
        Op::I(_, n) => format!("imm{}", n * 8),
        Op::Rel(_, n) => format!("rel{}", n * 8),
        Op::One => "1".into(),
        Op::Cl => "cl".into(),
    }
}
pub fn show(i: &Insn) -> String {
    let c = i.cond.map(|c| CC[c as usize]).unwrap_or("");
    let o: Vec<String> = i.ops.iter().map(show_op).collect();
    format!("{}{}/{} {}", i.op, c, i.w, o.join(", "))
}

/// file: one hex string per line; prints a normalised rendering per line
pub fn selftest(path: &str) {
    let s = std::fs::read_to_string(path).unwrap();
    for l in s.lines() {
        let b: Vec<Option<u8>> =
            (0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).ok()).collect();
        match decode(&b) {
            Err(e) => println!("ERR {}", e),
            Ok(i) => {
                let c = i.cond.map(|c| CC[c as usize]).unwrap_or("");
                let ops: Vec<String> = i
                    .ops
                    .iter()
                    .map(|o| match o {
                        Op::G(n, w, h) => gname(*n, *w, *h),
                        Op::X(n) => format!("xmm{}", n),
                        Op::M(m) => {
                            let mut t = vec![];
                            if m.rip {
                                t.push("rip".to_string());
                            }
                            if let Some(b) = m.base {
                                t.push(G64[b as usize].into());
                            }
                            if let Some(x) = m.index {
                                t.push(format!("{}*{}", G64[x as usize], m.scale));
                            }
                            let dv = le(&b, m.dpos, m.dlen);
                            format!("[{}]{:x}", t.join("+"), dv)
                        }
                        Op::I(p, n) => format!("i{:x}", le(&b, *p, *n)),
                        Op::Rel(p, n) => format!("rel{:x}", le(&b, *p, *n)),
                        Op::One => "i1".into(),
                        Op::Cl => "cl".into(),
                    })
                    .collect();
                println!("{} {}{} {} {} {}", i.len, i.op, c, i.w, i.sw, ops.join(","));
            }
        }
    }
}
