"""Generators of the witnesses about whole blocks (C22) and data directives (C25)."""
import struct
import engine as E

HEAD = '''#![allow(unused)]
extern crate monoasm;
extern crate monoasm_macro;
#[path = "/verif/witness/v.rs"]
mod v;
use monoasm::*;
use monoasm_macro::monoasm;
include!("/verif/witness/h.rs");
fn same_bytes(a: u64, b: u64, n: u64, what: &str) {
    let mut i = 0;
    while i < n {
        v::eq("C22", rd8(a + i), rd8(b + i), what);
        i += 1;
    }
}
'''


def head():
    return HEAD.replace('/verif/witness', E.WIT)


POOL = ['movq rax, rbx', 'movq rbx, rax', 'movq rax, rax', 'movq rax, 5', 'movq rax, (i)', 'movq R(r), 7', 'movq [rax + (d)], rbx', 'movq rbx, [rax + (d)]', 'movq rax, qword 1',
        'movl rax, rbx', 'movw rax, 9', 'movb rax, 9', 'movzxb rax, rbx', 'addq rax, 0', 'addq rax, 8', 'subq rax, 8', 'addl rax, [rip + t0]', 'addb [rip + t0], 3', 'cmpq rax, 10',
        'xorq rax, rax', 'xchgq rax, rbx', 'xchgq R(r), rbx', 'negq rax', 'imul rax, rbx', 'idiv rbx', 'cqo', 'cdq', 'lea rax, [rbx + rcx * 4 + 8]', 'shlq rax, 1', 'shlq rax, 3', 'shrl rax, cl',
        'testq rax, rax', 'testb rax, 1', 'seteq rax', 'cmoveqq rax, rbx', 'movsd xmm0, xmm1', 'addsd xmm0, [rax]', 'roundpd xmm0, xmm1, 1', 'cvttsd2siq rax, xmm0', 'pushq rax', 'popq rax',
        'pushq r12', 'jmp t0', 'jne t0', 'call t0', 'call rax', 'call (i)', 'ret', 'leave', 'int3', 'syscall', 'popcntq rax, rbx', 'dq 1', 'dq 2.5', 'jmp rax', 'jmp [rax]']


def euler(n):
    """a closed walk over every ordered pair of range(n), loops included"""
    nxt = [0] * n
    stack, out = [0], []
    while stack:
        v = stack[-1]
        if nxt[v] < n:
            nxt[v] += 1
            stack.append(nxt[v] - 1)
        else:
            out.append(stack.pop())
    return out[::-1]


def block_witness(nm, seq):
    k = len(seq)
    need = 'i' if any('(i)' in s for s in seq) else ''
    b = ['fn %s() { // %s' % (nm, '; '.join(seq)[:120]), 'let mut w = any();', 'room(&w.j, 8192);']
    b += ['let i: i64 = v::within("i", -5, 5);', 'let d: i32 = 24;', 'let r: u64 = 3;', 'let t0 = w.j.label();']
    b += ['let m%d = w.j.label();' % x for x in range(k + 1)]
    b += ['let o = observe(&mut w);', 'v::mark();']
    b.append('monoasm! { &mut w.j, m0: %s }' % ' '.join('%s; m%d:' % (s, x + 1) for x, s in enumerate(seq)))
    b += ['let n = addr(&w.j) - o.at;', 'v::wrote_exactly("C22", o.at, n, "a block writes its statements and nothing else");', 'frame("C22", &mut w, &o, n as usize);']
    b += ['let p1 = addr(&w.j);', 'monoasm! { &mut w.j, %s }' % ' '.join(s + ';' for s in seq), 'let p2 = addr(&w.j);']
    b.append('let q0 = p2;')
    for x, s in enumerate(seq):
        b.append('monoasm! { &mut w.j, %s; }' % s)
        b.append('let q%d = addr(&w.j);' % (x + 1))
    b += ['v::eq("C22", n, q%d - p2, "a block is as long as its statements assembled one by one");' % k,
          'v::eq("C22", p2 - p1, n, "labels between the statements add no code");',
          'same_bytes(o.at, p2, n, "a block assembles to the same bytes as its statements one by one");',
          'same_bytes(p1, p2, n, "an unlabelled block assembles to the same bytes as its statements one by one");']
    for x in range(k + 1):
        b.append('v::eq("C22", w.j.get_label_u64(m%d), o.at + (q%d - p2), "label %d is bound between its neighbours");' % (x, x, x))
    b.append('}')
    return dict(name=nm, src='\n'.join(b), meta=None, text='; '.join(seq), seq=seq)


def blocks(level):
    walk = euler(len(POOL))
    out = []
    size = 24
    for c, at in enumerate(range(0, len(walk) - 1, size - 1)):
        seq = [POOL[x] for x in walk[at:at + size]]
        out.append(block_witness('w_b%04d' % c, seq))
    # every statement alone, and long blocks
    for c, s in enumerate(POOL):
        out.append(block_witness('w_s%04d' % c, [s]))
    for c in range(2 if level == 'quick' else 8):
        seq = [POOL[(c * 17 + x * (5 + 2 * c)) % len(POOL)] for x in range(60)]
        out.append(block_witness('w_l%04d' % c, seq))
    out.append(dict(name='w_empty', meta=None, text='empty block', src='''fn w_empty() {
let mut w = any();
let s = v::snap(&w.j);
v::mark();
monoasm! { &mut w.j, }
v::no_writes("C22", "an empty block writes nothing");
v::same("C22", s, &w.j, "an empty block changes nothing");
}'''))
    out.append(dict(name='w_labels', meta=None, text='labels only', src='''fn w_labels() {
let mut w = any();
let a = w.j.label();
let b = w.j.label();
let o = observe(&mut w);
v::mark();
monoasm! { &mut w.j, a: b: }
v::no_writes("C22", "a block of labels writes nothing");
frame("C22", &mut w, &o, 0);
v::eq("C22", w.j.get_label_u64(a), o.at, "the label is bound at the cursor");
v::eq("C22", w.j.get_label_u64(b), o.at, "the label is bound at the cursor");
}'''))
    out.append(dict(name='w_nested', meta=None, text='blocks in a loop', src='''fn w_nested() {
let mut w = any();
room(&w.j, 4096);
let o = observe(&mut w);
let mut k = 0u64;
while k < 5 {
monoasm! { &mut w.j, movq rax, (k); pushq R(k); }
k += 1;
}
let n = addr(&w.j) - o.at;
let p = addr(&w.j);
monoasm! { &mut w.j, movq rax, (0); pushq R(0); movq rax, (1); pushq R(1); movq rax, (2); pushq R(2); movq rax, (3); pushq R(3); movq rax, (4); pushq R(4); }
v::eq("C22", addr(&w.j) - p, n, "a loop of blocks is as long as the unrolled block");
same_bytes(o.at, p, n, "a loop of blocks assembles to the unrolled block");
}'''))
    return out


# ---------------------------------------------------------------- data directives
INTS = [('0', 0), ('1', 1), ('127', 127), ('128', 128), ('255', 255), ('256', 256), ('65535', 65535), ('65536', 65536), ('2147483647', 2**31 - 1), ('2147483648', 2**31),
        ('4294967295', 2**32 - 1), ('4294967296', 2**32), ('1099511627776', 2**40), ('9223372036854775807', 2**63 - 1), ('-1', -1), ('-128', -128), ('-129', -129), ('-2147483648', -2**31),
        ('-2147483649', -2**31 - 1), ('-4294967296', -2**32), ('-9223372036854775808', -2**63), ('0xff', 255), ('0x0123456789abcdef', 0x0123456789abcdef), ('0x7fff_ffff_ffff_ffff', 2**63 - 1), ('0b1011', 11), ('0o17', 15),
        ('1_000_000', 1000000), ('5i64', 5), ('5u64', 5), ('5u8', 5), ('81985529216486895', 81985529216486895), ('9007199254740993', 9007199254740993)]
FLOATS = ['0.0', '1.0', '2.5', '0.1', '0.2', '3.141592653589793', '1e308', '1.7976931348623157e308', '5e-324', '2.2250738585072014e-308', '1e-400', '1e22', '1e23', '123456789012345678.0', '4.9e-324', '1.5e3',
          '2.', '1e3', '16777217.0', '9007199254740993.0', '3.4028235677973366e38', '0.30000000000000004', '-1.5', '-0.0', '-1e3', '1_000.5', '3f64', '2.5f64', '7f64', '100.0', '1.0e10']
# a literal that has no 64-bit value is refused
REFUSED = ['18446744073709551616', '0x1_0000_0000_0000_0000', '-9223372036854775809', '340282366920938463463374607431768211456']


def data(level):
    out = []
    ks = [(t, v & (2**64 - 1)) for t, v in INTS]
    ks += [(t, struct.unpack('<Q', struct.pack('<d', float(t.replace('_', '').replace('f64', ''))))[0]) for t in FLOATS]
    if level != 'quick':
        x = 88172645463325252
        for k in range(400):
            x ^= (x << 13) & (2**64 - 1)
            x ^= x >> 7
            x ^= (x << 17) & (2**64 - 1)
            n = (x >> (k % 63)) & (2**63 - 1)
            ks.append((str(n), n))
            f = struct.unpack('<d', struct.pack('<Q', x & (2**63 - 1)))[0]
            if f == f and f not in (float('inf'),):
                ks.append((repr(f) if '.' in repr(f) or 'e' in repr(f) else repr(f) + '.0', x & (2**63 - 1)))
    for c, (t, v) in enumerate(ks):
        nm = 'w_d%04d' % c
        src = '''fn %s() { // dq %s
let mut w = any();
room(&w.j, 64);
let o = observe(&mut w);
let s = v::snap(&w.j);
v::mark();
monoasm! { &mut w.j, dq %s; }
v::wrote_exactly("C25", o.at, 8, "dq stores exactly eight bytes at the cursor");
v::eq("C25", rd64(o.at), %d, "dq %s stores the literal's value");
v::same_tables("C25", s, &w.j, "label and constant bookkeeping is unchanged");
frame("C25", &mut w, &o, 8);
}''' % (nm, t, t, v, t)
        out.append(dict(name=nm, src=src, meta=None, text='dq ' + t, must=False))
    for c, t in enumerate(REFUSED):
        nm = 'w_x%04d' % c
        out.append(dict(name=nm, meta=None, text='dq ' + t, must=True, src='''fn %s() {
let mut w = any();
room(&w.j, 64);
v::panics(true);
monoasm! { &mut w.j, dq %s; }
v::never("C25", "dq %s is accepted although it has no 64-bit value");
}''' % (nm, t, t)))
    # inside a block
    nm = 'w_dseq'
    lits = ks[::3]
    b = ['fn %s() {' % nm, 'let mut w = any();', 'room(&w.j, 65536);', 'let o = observe(&mut w);', 'v::mark();', 'monoasm! { &mut w.j, %s }' % ' '.join('dq %s;' % t for t, _ in lits)]
    b.append('v::wrote_exactly("C25", o.at, %d, "each dq stores eight bytes");' % (8 * len(lits)))
    for c, (t, v) in enumerate(lits):
        b.append('v::eq("C25", rd64(o.at + %d), %d, "dq %s stores the literal\'s value in sequence");' % (8 * c, v, t))
    b += ['frame("C25", &mut w, &o, %d);' % (8 * len(lits)), '}']
    out.append(dict(name=nm, src='\n'.join(b), meta=None, text='dq sequence', must=False))
    return out
