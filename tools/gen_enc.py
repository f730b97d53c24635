"""Generator of the encoding witnesses: one small client function per mnemonic x operand shape."""
from spec_isa import forms
NAMES = ['rax', 'rcx', 'rdx', 'rbx', 'rsp', 'rbp', 'rsi', 'rdi'] + ['r%d' % i for i in range(8, 16)]

HEAD = '''#![allow(unused)]
extern crate monoasm;
extern crate monoasm_macro;
#[path = "%s/v.rs"]
mod v;
use monoasm::*;
use monoasm_macro::monoasm;
fn fresh(page: usize) -> JitMemory {
    let mut jit = JitMemory::new();
    any(&mut jit, page);
    jit
}
/// any state with this page selected and room in it
fn any(jit: &mut JitMemory, page: usize) {
    v::havoc(jit);
    jit.select_page(page);
    v::assume(jit.get_current() + 4096 <= v::page_size());
}
/// room in all areas, then finalised
fn fin(jit: &mut JitMemory) {
    let p = jit.get_page();
    jit.select_page(1 - p);
    v::assume(jit.get_current() + 4096 <= v::page_size());
    jit.select_page(p);
    let l = jit.label();
    jit.bind_label_with_page(Page(2), l);
    v::assume(jit.get_label_u64(l) + 4096 <= v::region_base() + v::region_size());
    jit.finalize();
}
fn done(j: &JitMemory, at: CodePtr) {
    v::eq("C03", v::start(), at.as_ptr() as u64, "the instruction starts at the cursor");
    v::eq("C03", j.get_current_address().as_ptr() as u64, v::start() + v::written(), "the cursor is left right after the instruction");
}
'''


class Ctx:
    """operands of one witness instruction"""

    def __init__(self):
        self.lets, self.accept, self.label = [], [], False

    def reg(self, name, idx=False):
        self.lets.append('let %s = v::%s("%s");' % (name, 'idx' if idx else 'reg', name))
        return name


# memory shapes with run-time registers; (suffix, builder) -> (text, meta)
def mem_shapes():
    def b0(c):
        c.reg('b')
        return '[R(b)]', 'm:b:-:1:0'

    def b1(c):
        c.reg('b')
        c.lets.append('let d: i32 = v::any("d");')
        return '[R(b) + (d)]', 'm:b:-:1:d'

    def b2(c):
        c.reg('b')
        c.lets.append('let d = v::within("d", -2147483647, 2147483647) as i32;')
        return '[R(b) - (d)]', 'm:b:-:1:~d'

    def b3(c):
        c.reg('b'), c.reg('x', True)
        return '[R(b) + R(x)]', 'm:b:x:1:0'

    def sc(k):
        def f(c):
            c.reg('b'), c.reg('x', True)
            c.lets.append('let d: i32 = v::any("d");')
            return '[R(b) + R(x) * %d + (d)]' % k, 'm:b:x:%d:d' % k
        return f

    def sc0(k):
        def f(c):
            c.reg('b'), c.reg('x', True)
            return '[R(b) + R(x) * %d]' % k, 'm:b:x:%d:0' % k
        return f

    def scn(k):
        def f(c):
            c.reg('b'), c.reg('x', True)
            c.lets.append('let d = v::within("d", -2147483647, 2147483647) as i32;')
            return '[R(b) + R(x)%s - (d)]' % (' * %d' % k if k else ''), 'm:b:x:%d:~d' % (k or 1)
        return f

    def ripn(c):
        c.lets.append('let d = v::within("d", -2147483647, 2147483647) as i32;')
        return '[rip - (d)]', 'm:rip:-:1:~d'

    def xd(c):
        c.reg('b'), c.reg('x', True)
        c.lets.append('let d: i32 = v::any("d");')
        return '[R(b) + R(x) + (d)]', 'm:b:x:1:d'

    def rip(c):
        c.lets.append('let d: i32 = v::any("d");')
        return '[rip + (d)]', 'm:rip:-:1:d'

    def rip0(c):
        return '[rip]', 'm:rip:-:1:0'

    def ripl(c):
        c.label = True
        return '[rip + l]', 'm:rip:-:1:L'
    core = [('b', b0), ('bd', b1), ('bx4d', sc(4)), ('ripl', ripl)]
    rest = [('bnd', b2), ('bx', b3), ('bxd', xd), ('bx1d', sc(1)), ('bx2d', sc(2)), ('bx8d', sc(8)), ('bx2nd', scn(2)), ('bxnd', scn(0)), ('bx1nd', scn(1)), ('bx4nd', scn(4)), ('bx8nd', scn(8)), ('ripnd', ripn), ('bx1', sc0(1)), ('bx2', sc0(2)),
            ('bx4', sc0(4)), ('bx8', sc0(8)), ('rip', rip), ('rip0', rip0)]
    return core, rest


# literal memory operands
def lit_mems():
    out = []
    for i, n in enumerate(NAMES):
        out.append(('[%s]' % n, 'm:%d:-:1:0' % i))
        d = [8, 127, 128, 1000][i % 4]
        out.append(('[%s + %d]' % (n, d), 'm:%d:-:1:%d' % (i, d)))
        out.append(('[%s - %d]' % (n, d + i % 2), 'm:%d:-:1:%d' % (i, -(d + i % 2))))
        if i != 4:
            j = (i * 7 + 5) % 16
            out.append(('[%s + %s]' % (NAMES[j], n), 'm:%d:%d:1:0' % (j, i)))
            k = [2, 4, 8, 1][i % 4]
            out.append(('[%s + %s * %d]' % (NAMES[j], n, k), 'm:%d:%d:%d:0' % (j, i, k)))
            out.append(('[%s + %s * %d - 5]' % (NAMES[j], n, [1, 2, 4, 8][i % 4]), 'm:%d:%d:%d:-5' % (j, i, [1, 2, 4, 8][i % 4])))
    for t, d in (('+ 0', 0), ('+ 1', 1), ('+ 127', 127), ('+ 128', 128), ('+ 255', 255), ('+ 256', 256), ('+ 0x7f', 127), ('+ 0x80', 128),
                 ('+ 2147483647', 2147483647), ('- 0', 0), ('- 1', -1), ('- 127', -127), ('- 128', -128), ('- 129', -129),
                 ('- 2147483647', -2147483647), ('+ (-128)', -128), ('+ (-129)', -129), ('- (127)', -127), ('- (-128)', 128), ('+ (1 + 2)', 3), ('- (1 + 2)', -3), ('- (3 - 8)', 5)):
        out.append(('[rax %s]' % t, 'm:0:-:1:%d' % d))
        out.append(('[rbp %s]' % t, 'm:5:-:1:%d' % d))
        out.append(('[r12 + rdi * 4 %s]' % t, 'm:12:7:4:%d' % d))
        out.append(('[rip %s]' % t, 'm:rip:-:1:%d' % d))
    return out


def witness(n, f, ops, c, text=None, extra=''):
    """ops: list of (text, meta)"""
    t = f['mn'] + (' ' + ', '.join(o[0] for o in ops) if ops else '')
    acc = ' '.join('%s:%d:%d' % a for a in c.accept) or '-'
    meta = '\t'.join([n, f['op'], '-' if f['cond'] is None else str(f['cond']), str(f['w']), str(f['sw']),
                      ' '.join(o[1] for o in ops), acc, t])
    page = int(n[3:]) % 2
    body = ['fn %s() { // %s' % (n, t), 'let mut jit = fresh(%d);' % page] + c.lets
    # where the label is: bound later on the same page, earlier, on the other page, or an item of the constant or data area
    if c.label:
        body += {'const': ['let l = jit.const_i64(5);'], 'data': ['let l = jit.data_i64(5);']}.get(extra, ['let l = jit.label();'])
    if c.label and extra == 'before':
        body += ['jit.bind_label(l);', 'any(&mut jit, %d);' % page]
    if c.label and extra == 'other-before':
        body += ['any(&mut jit, %d);' % (1 - page), 'jit.bind_label(l);', 'any(&mut jit, %d);' % page]
    body += ['let at = jit.get_current_address();', 'v::mark();', 'v::may_refuse("%s");' % n]
    body.append('monoasm! { &mut jit, %s; }' % t)
    if c.label:
        body += ['v::cap();', 'done(&jit, at);']
        body += {'': ['any(&mut jit, %d);' % page, 'jit.bind_label(l);'],
                 'other': ['any(&mut jit, %d);' % (1 - page), 'jit.bind_label(l);'],
                 'here': ['jit.bind_label(l);'],
                 'twice': ['jit.finalize();', 'any(&mut jit, %d);' % page, 'jit.bind_label(l);']}.get(extra, [])
        body += ['fin(&mut jit);'] + (['any(&mut jit, 0);', 'fin(&mut jit);'] if extra == 'twice' else [])
        body += ['let a = jit.get_label_u64(l);', 'v::instl("%s", a);' % n]
    else:
        body += ['v::inst("%s");' % n, 'done(&jit, at);']
    body.append('}')
    return '\n'.join(body), meta


def build(level='quick'):
    """returns list of (name, family, source, meta, mnemonic text)"""
    core, rest = mem_shapes()
    lits = lit_mems()
    out = []
    cnt = [0]

    def emit(f, mk, where='', optional=False):
        """mk(ctx) -> list of (text, meta)"""
        c = Ctx()
        ops = mk(c)
        cnt[0] += 1
        n = 'w_e%05d' % cnt[0]
        src, meta = witness(n, f, ops, c, extra=where)
        out.append(dict(name=n, fam=f['fam'], mn=f['mn'], src=src, meta=meta, text=meta.split('\t')[-1], label=c.label, ctx=c, ops=ops, form=f, where=where, optional=optional))
        if c.label and not where:
            # the same label operands with the label elsewhere (C08)
            for w in ('before', 'other-before', 'other', 'here', 'twice', 'const', 'data'):
                emit(f, mk, w)
    fs = forms()
    full_done = set()
    for fi, f in enumerate(fs):
        def simple(c, k, i, f=f):
            if k[0] == 'r' and k[1:].isdigit():
                v = 'r' if i == 0 else 's'
                c.reg(v)
                return 'R(%s)' % v, 'g:%s:%s' % (v, k[1:])
            if k == 'x':
                v = 'p' if i == 0 else 'q'
                c.lets.append('let %s = v::reg("%s");' % (v, v))
                return 'xmm(%s)' % v, 'x:%s' % v
            if k == 'i':
                c.lets.append('let i: i64 = v::any("i");')
                c.accept.append(('i',) + f['imm'])
                return '(i)', 'i:i'
            if k == 'q':
                c.lets.append('let i: i64 = v::any("i");')
                c.accept.append(('i',) + f['imm'])
                return 'qword (i)', 'i:i'
            if k == 'rel':
                c.lets.append('let i: i64 = v::any("i");')
                c.accept.append(('i',) + f['imm'])
                return '(i)', 'rel:i'
            if k == 'u8':
                c.lets.append('let i: u8 = v::any("i");')
                return '(i)', 'u:i'
            if k == 'cl':
                return 'cl', 'cl'
            if k == 'l':
                c.label = True
                return 'l', 'l'
            if k == 'n64':
                return 'rax', 'g:0:64'
            raise KeyError(k)

        def named(k, i, j, f=f):
            """literal spelling number j"""
            if k[0] in 'rn' and k[1:].isdigit():
                m = (j + 0) % 16 if i == 0 else (j * 5 + 3) % 16
                return NAMES[m], 'g:%d:%s' % (m, k[1:])
            if k == 'x':
                m = (j + 0) % 16 if i == 0 else (j * 5 + 3) % 16
                return 'xmm%d' % m, 'x:%d' % m
            if k in 'iq':
                lo, hi = f['imm']
                v = [1, 0, 10, 127, -1, 128, -128, lo, hi, 255, -129, 2, 64, 63, 31, 32][j % 16]
                if not lo <= v <= hi:
                    v = 3 + j % 100
                t = str(v) if v >= 0 else '(%d)' % v
                return ('qword ' if k == 'q' else '') + t, 'i:%d' % v
            if k == 'u8':
                return str(j), 'u:%d' % j
            if k == 'cl':
                return ('rcx' if j % 2 else 'cl'), 'cl'
            return None
        ops = f['ops']
        if 'm' in ops:
            # conditions share one table: give the full shape set to one member of each family
            key = (f['fam'], f['w'], f['sw'], tuple(ops)) if f['cond'] is not None else (f['mn'], tuple(ops))
            shapes = list(core)
            if key not in full_done:
                shapes += rest
                full_done.add(key)
            elif f['cond'] is not None:
                shapes = core[:2]
            for sn, sh in shapes:
                emit(f, lambda c, sh=sh: [sh(c) if k == 'm' else simple(c, k, i) for i, k in enumerate(ops)])
            # literal memory operands, spread over the forms
            n = len(lits) if f['mn'] in ('movq', 'lea', 'addb') else 6
            for j in range(n):
                lm = lits[(fi * 11 + j * (1 if n > 6 else 29)) % len(lits)]
                emit(f, lambda c, lm=lm, j=j: [lm if k == 'm' else (named(k, i, j) or simple(c, k, i)) for i, k in enumerate(ops)])
        else:
            emit(f, lambda c: [simple(c, k, i) for i, k in enumerate(ops)])
            if any(k[0] in 'rnx' and k != 'rel' for k in ops):
                nn = 16 if f['cond'] is None else 4
                for j in range(nn):
                    jj = j if nn == 16 else (fi * 4 + j) % 16
                    emit(f, lambda c, j=jj: [named(k, i, j) or simple(c, k, i) for i, k in enumerate(ops)])
                if len(ops) >= 2 and f['cond'] is None and not any(k in ('i', 'q', 'u8', 'cl') for k in ops):
                    # mixed named / run-time registers
                    for j in (0, 4, 5, 13):
                        emit(f, lambda c, j=j: [named(k, i, j) if i == 0 else simple(c, k, i) for i, k in enumerate(ops)])
                        emit(f, lambda c, j=j: [named(k, i, j) if i == 1 else simple(c, k, i) for i, k in enumerate(ops)])
    # operand expressions of other types and with operators of their own
    typed = [('u8', 0, 255), ('i8', -128, 127), ('u16', 0, 65535), ('i16', -32768, 32767), ('u32', 0, 2**32 - 1), ('i32', -2**31, 2**31 - 1)]
    wide = [('u64', 0, 2**64 - 1), ('usize', 0, 2**64 - 1), ('isize', -2**63, 2**63 - 1)]
    mns = {'movq', 'movl', 'movw', 'movb', 'addq', 'addl', 'addw', 'addb', 'cmpq', 'xorl', 'testq', 'testb', 'shlq', 'sarl', 'call'}
    consts = ['let a: i64 = 4294967296;', 'let q: i64 = 4294967360;', 'let n: u8 = 4;', 'let m: i32 = -3;']
    exprs = [('q - a', 64), ('a / (a / 5)', 5), ('q % a', 64), ('n + 3', 7), ('m * 2', -6), ('-m', 3), ('!m', 2), ('n << 3', 32), ('n as i64 + 1', 5), ('{ let z = 9; z + 1 }', 10), ('if n > 3 { 6 } else { 7 }', 6),
             ('(n)', 4), ('n - 4', 0), ('(q - a) as i8', 64), ('m as i64 & 0x7f', 125), ('1 | 2', 3), ('2 + 3 * 4', 14), ('[5, 6][1]', 6), ('i32::from(n)', 4), ('std::mem::size_of::<u32>() as i32', 4), ('b\'a\' as i32', 97), ('0x10', 16)]
    for f in fs:
        ops = f['ops']
        if f['mn'] in mns and ('i' in ops or 'rel' in ops) and not ('m' in ops and f['mn'] not in ('movq', 'addl', 'addb')):
            for ty, lo, hi in typed + (wide if f['mn'] == 'movq' and ops[0] == 'r64' else []):
                def mk(c, ty=ty):
                    r = []
                    for i, k in enumerate(ops):
                        if k in ('i', 'rel'):
                            c.lets.append('let i: %s = v::any("i");' % ty)
                            c.accept.append(('i',) + ((-2**63, 2**64 - 1) if f['mn'] == 'movq' and ops[0] == 'r64' else f['imm']))
                            r.append(('(i)', ('rel:i' if k == 'rel' else 'i:i')))
                        elif k == 'm':
                            r.append(('[rdi + 8]', 'm:7:-:1:8'))
                        else:
                            c.reg('r')
                            r.append(('R(r)', 'g:r:%s' % k[1:]))
                    return r
                emit(f, mk)
            for t, v in exprs:
                def mk(c, t=t, v=v):
                    c.lets += consts
                    return [('(%s)' % t, ('rel:%d' if k == 'rel' else 'i:%d') % v) if k in ('i', 'rel') else ('[rdi + (%s)]' % t, 'm:7:-:1:%d' % v) if k == 'm' else ('rdi', 'g:7:%s' % k[1:]) for i, k in enumerate(ops)]
                emit(f, mk)
        if 'm' in ops and f['mn'] in ('movq', 'lea', 'movsd', 'addb', 'seteq', 'pushq', 'jmp'):
            for t, v in exprs:
                for sh, me in (('[rdi + (%s)]', 'm:7:-:1:%d'), ('[rdi - (%s)]', 'm:7:-:1:-%d'), ('[r13 + rsi * 4 + (%s)]', 'm:13:6:4:%d'), ('[rip + (%s)]', 'm:rip:-:1:%d'), ('[rsp - (%s)]', 'm:4:-:1:-%d')):
                    def mk(c, t=t, v=v, sh=sh, me=me):
                        c.lets += consts
                        return [(sh % t, (me % v).replace('--', '')) if k == 'm' else (named_any(k, i)) for i, k in enumerate(ops)]
                    if any(k in ('i', 'q') for k in ops):
                        continue
                    emit(f, mk)
            for ty, lo, hi in typed[:4] + typed[5:]:
                for sh, me in (('[R(b) + (d)]', 'm:b:-:1:d'), ('[rsp + rcx * 2 + (d)]', 'm:4:1:2:d')):
                    def mk(c, ty=ty, sh=sh, me=me):
                        if 'R(b)' in sh:
                            c.reg('b')
                        c.lets.append('let d: %s = v::any("d");' % ty)
                        return [(sh, me) if k == 'm' else (named_any(k, i)) for i, k in enumerate(ops)]
                    if any(k in ('i', 'q') for k in ops):
                        continue
                    emit(f, mk)
    # register names in other cases: optional, but when accepted they name the same register
    for f in fs:
        if f['mn'] in ('movq', 'addb', 'lea', 'xchgl', 'pushq', 'seteq', 'call', 'shll') and not any(k in ('q', 'l', 'u8', 'x') for k in f['ops']):
            for j in range(16):
                for case in (str.upper, str.capitalize):
                    def mk(c, j=j, case=case, f=f):
                        r = []
                        for i, k in enumerate(f['ops']):
                            m = (j + 5 * i) % 16
                            if k[0] in 'rn' and k[1:].isdigit():
                                r.append((case(NAMES[m]), 'g:%d:%s' % (m, k[1:])))
                            elif k == 'm':
                                x = (m + 3) % 16 if (m + 3) % 16 != 4 else 7
                                r.append(('[%s + %s * 4 + 8]' % (case(NAMES[m]), case(NAMES[x])), 'm:%d:%d:4:8' % (m, x)))
                            elif k == 'cl':
                                r.append((case('cl' if j % 2 else 'rcx'), 'cl'))
                            elif k == 'rel':
                                r.append(('(7)', 'rel:7'))
                            else:
                                r.append(('7', 'i:7'))
                        return r
                    emit(f, mk, optional=True)
    # a byte immediate given by a wider expression: refused by its type, or when it does not fit
    for f in fs:
        if 'u8' in f['ops']:
            for ty in ('u16', 'u32', 'u64', 'usize'):
                for j in (0, 1):
                    def mk(c, ty=ty, f=f, j=j):
                        c.lets.append('let i: %s = v::any("i");' % ty)
                        return [('(i)' if j == 0 else '(i + 0)', 'u:i') if k == 'u8' else ('[rdi + 8]', 'm:7:-:1:8') if k == 'm' else named_any(k, i) for i, k in enumerate(f['ops'])]
                    emit(f, mk, optional=True)
    # register numbers by expression
    for t, v in (('a + 12', 15), ('a * 4', 12), ('a as u64', 3), ('{ a }', 3), ('a | 8', 11), ('15 - a', 12), ('(a)', 3), ('u64::from(3u8)', 3), ('if a == 3 { 9 } else { 1 }', 9)):
        for f in fs:
            if f['mn'] in ('movq', 'addb', 'imul', 'pushq', 'seteq', 'movsd', 'cvtsi2sdq', 'xchgl', 'shll', 'testq') and not any(k in ('q', 'cl', 'l', 'u8') for k in f['ops']):
                def mk(c, t=t, v=v, f=f):
                    c.lets.append('let a: u64 = 3;')
                    r = []
                    for i, k in enumerate(f['ops']):
                        if k[0] == 'r':
                            r.append(('R(%s)' % t, 'g:%d:%s' % (v, k[1:])))
                        elif k == 'x':
                            r.append(('xmm(%s)' % t, 'x:%d' % v))
                        elif k == 'm':
                            r.append(('[R(%s) + R(%s) * 2 + 8]' % (t, t), 'm:%d:%d:2:8' % (v, v)))
                        else:
                            r.append(('7', 'i:7'))
                    return r
                emit(f, mk)
    return out


def named_any(k, i):
    if k[0] in 'rn' and k[1:].isdigit():
        return ('rdx', 'g:2:%s' % k[1:]) if i == 0 else ('r9', 'g:9:%s' % k[1:])
    if k == 'x':
        return 'xmm%d' % (3 + i), 'x:%d' % (3 + i)
    raise KeyError(k)


if __name__ == '__main__':
    o = build()
    print(len(o))
    from collections import Counter
    print(Counter(x['fam'] for x in o))
