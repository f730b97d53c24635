"""Generator of the refusal witnesses (C07).

kind 'must'  : there is no x86-64 instruction as written; the compiler rejects it or every path panics
kind 'right' : an encoding exists although the assembler does not document the form; refused, or assembled as written
kind 'twin'  : an accepted neighbour; keeps the refusals from being vacuous
"""
from spec_isa import forms, CC
import gen_enc
from gen_enc import NAMES

HEAD = gen_enc.HEAD


def fn(name, text, lets=(), label=False, kind='must'):
    b = ['fn %s() { // %s' % (name, text), 'let mut jit = fresh(0);'] + list(lets)
    if label:
        b.append('let l = jit.label();')
    b += ['v::mark();', 'v::panics(true);', 'monoasm! { &mut jit, %s; }' % text, 'v::panics(false);']
    if kind == 'must':
        b.append('v::never("C07", "`%s` is assembled although it cannot be encoded as written");' % text.replace('"', "'"))
    elif kind == 'right':
        b.append('v::inst("%s");' % name)
    else:
        b.append('v::eq("C07", v::written(), v::written(), "accepted");')
    b.append('}')
    return '\n'.join(b)


ANY = 'let %s: u64 = v::any("%s");'


def out_of_file(v, lo=16):
    return [ANY % (v, v), 'v::assume(%s >= %d);' % (v, lo)]


def build(level='quick'):
    out = []
    seen = set()

    def add(kind, text, lets=(), label=False, meta=None):
        if (kind, text) in seen:
            return
        seen.add((kind, text))
        n = 'w_%s%05d' % ({'must': 'n', 'right': 'o', 'twin': 't'}[kind], len(out) + 1)
        m = None
        if kind == 'right':
            op, cond, w, sw, ops = meta
            m = '\t'.join([n, op, '-' if cond is None else str(cond), str(w), str(sw), ops, '-', text])
        out.append(dict(name=n, kind=kind, src=fn(n, text, lets, label, kind), meta=m, text=text))

    fs = forms()
    one_cond = set()
    for fi, f in enumerate(fs):
        if f['cond'] is not None:
            key = (f['fam'], f['w'], tuple(f['ops']))
            if key in one_cond and level == 'quick':
                continue
            one_cond.add(key)
        ops = f['ops']

        def plain(k, i, f=f):
            if k[0] in 'rn' and k[1:].isdigit():
                return 'rbx' if i == 0 else 'rsi'
            if k == 'x':
                return 'xmm%d' % (1 + i)
            return {'i': '5', 'q': 'qword 5', 'rel': '(5)', 'u8': '1', 'cl': 'cl', 'l': 'l', 'm': '[rdi + 8]'}[k]

        def text(sub):
            return f['mn'] + (' ' + ', '.join(sub.get(i, plain(k, i)) for i, k in enumerate(ops)) if ops else '')
        lab = 'l' in ops
        add('twin', text({}), label=lab)
        for i, k in enumerate(ops):
            if k[0] == 'r' and k[1:].isdigit():
                add('must', text({i: 'R(r)'}), out_of_file('r'), lab)
                add('must', text({i: 'rip'}), (), lab)
                for j, k2 in enumerate(ops):
                    if j != i and k2[0] == 'r' and k2[1:].isdigit():
                        add('must', text({i: 'R(r)', j: 'R(s)'}), out_of_file('r') + [gen_enc_reg('s')], lab)
                    if j != i and k2 == 'm':
                        add('must', text({i: 'R(r)', j: '[R(b)]'}), out_of_file('r') + [gen_enc_reg('b')], lab)
                        add('must', text({i: 'rip', j: '[rip + l]'}), (), True)
                    if j != i and k2 in 'iq':
                        add('must', text({i: 'R(r)', j: ('qword ' if k2 == 'q' else '') + '(x)'}), out_of_file('r') + ['let x: i64 = v::any("x");'], lab)
            if k == 'n64':
                add('must', text({i: 'rip'}), (), lab)
            if k == 'x':
                add('must', text({i: 'xmm(r)'}), out_of_file('r'), lab)
                for t in ('xmm16', 'xmm31', 'xmm255', 'xmm256', 'xmmx', 'xmm', 'ymm1', 'rax'):
                    if not (t == 'rax' and f['mn'] == 'movq'):
                        add('must', text({i: t}), (), lab)
            if k[0] == 'r' and k[1:].isdigit() and f['mn'] != 'movq':
                add('must', text({i: 'xmm3'}), (), lab)
            if k[0] == 'r' and k[1:].isdigit():
                add('must', text({i: 'r16'}), (), lab)
                add('must', text({i: 'rxx'}), (), lab)
            if k == 'm':
                add('must', text({i: '[R(b)]'}), out_of_file('b', 17), lab)
                add('must', text({i: '[R(b) + 8]'}), out_of_file('b', 17), lab)
                add('must', text({i: '[rax + R(x) * 4]'}), out_of_file('x'), lab)
                add('must', text({i: '[rax + R(x) * 4 + 8]'}), ['let x: u64 = 4;'], lab)
                add('must', text({i: '[R(b) + R(x)]'}), [gen_enc_reg('b'), 'let x: u64 = 4;'], lab)
                add('must', text({i: '[rdi + rsp * 2]'}), (), lab)
                add('must', text({i: '[rdi + rip]'}), (), lab)
                add('must', text({i: '[rip + R(x) * 2]'}), ['let x = v::idx("x");'], lab)
                add('must', text({i: '[rip + rdi * 8 + 16]'}), (), lab)
                add('must', text({i: '[rip + rdi]'}), (), lab)
                add('must', text({i: '[rip - l]'}), (), True)
                add('must', text({i: '[rdi + rsi * 3]'}), (), lab)
                # a label is an address: it can be reached from the instruction pointer only
                add('must', text({i: '[rip + rdi * 8 + l]'}), (), True)
                add('must', text({i: '[rip + R(x) + l]'}), ['let x = v::idx("x");'], True)
                add('must', text({i: '[R(b) + l]'}), [gen_enc_reg('b')], True)
                add('must', text({i: '[rdi + R(x) * 4 + l]'}), ['let x = v::idx("x");'], True)
                if f['mn'] in ('movq', 'lea', 'addl', 'movsd', 'seteq', 'shlq', 'pushq', 'call') or level != 'quick':
                    for s in (0, 5, 6, 7, 9, 16, 32, 64, 256, 257, 258, 260, 264):
                        add('must', text({i: '[rdi + rsi * %d]' % s}), (), lab)
                        add('must', text({i: '[r12 + R(x) * %d + (d)]' % s}), ['let x = v::idx("x");', 'let d: i32 = v::any("d");'], lab)
                    for t in ('[rdi + rsi + rdx]', '[rdi - rsi]', '[rdi + rsi * rdx]', '[rdi * 2]', '[rdi + 8 rsi]', '[xmm0]', '[rdi + xmm1]', '[rdi + 4294967296]',
                              '[rdi + 2147483648]', '[rdi - 2147483649]', '[rdi + rsi * 2 + 2147483648]', '[rip + 2147483648]', '[rdi rsi]', '[]', '[rdi +]', '[rdi + 1.5]', '[rdi + "a"]',
                              '[rdi + rsi * -1]', '[rdi + rsi * 1.0]', '[rdi, 8]', '[rdi + undefined_name]', '[R() + 8]', '[R(1, 2)]', '[rdi + l l]', '[rdi + rsi * 2 + rdx]'):
                        add('must', text({i: t}), (), True)
                    if len(ops) == 2 and 'u8' not in ops:
                        for t, m in (('[rdi + 8 + 16]', 'm:7:-:1:24'), ('[rdi + rsi * 4 + 8 + 16]', 'm:7:6:4:24'), ('[rdi + 8 - 4]', 'm:7:-:1:4'),
                                     ('[rdi + 8 + rsi]', 'm:7:6:1:8'), ('[rdi + rsi * (4)]', 'm:7:6:4:0'), ('[rdi + -8]', 'm:7:-:1:-8'), ('[rdi - -8]', 'm:7:-:1:8'),
                                     ('[rdi + 4 * rsi]', 'm:7:6:4:0')):
                            mm = []
                            for a, kk in enumerate(ops):
                                if a == i:
                                    mm.append(m)
                                elif kk[0] == 'r':
                                    mm.append('g:%d:%s' % (3 if a == 0 else 6, kk[1:]))
                                elif kk == 'x':
                                    mm.append('x:%d' % (1 + a))
                                elif kk in 'iq':
                                    mm.append('i:5')
                                elif kk == 'cl':
                                    mm.append('cl')
                            add('right', text({i: t}), (), lab, (f['op'], f['cond'], f['w'], f['sw'], ' '.join(mm)))
        # memory to memory, immediate destination, surplus and missing operands
        if len(ops) == 2 and ops[1] not in ('u8',):
            add('must', f['mn'] + ' [rdi], [rsi]', (), True)
            add('must', f['mn'] + ' [rdi + 8], [rip + l]', (), True)
            add('must', f['mn'] + ' 5, ' + plain(ops[1], 1), (), True)
            add('must', f['mn'] + ' (x), rax', ['let x: i64 = v::any("x");'], True)
            add('must', f['mn'] + ' 5, 5', (), True)
            add('must', f['mn'] + ' ' + plain(ops[0], 0), (), True)
            add('must', f['mn'] + ' %s, %s, rbx' % (plain(ops[0], 0), plain(ops[1], 1)), (), True)
            add('must', f['mn'] + ' %s %s' % (plain(ops[0], 0), plain(ops[1], 1)), (), True)
        if len(ops) == 0:
            add('must', f['mn'] + ' rax', (), True) if f['mn'] != 'ret' else None
        if len(ops) == 1:
            add('must', f['mn'], (), True)
            add('must', f['mn'] + ' ' + plain(ops[0], 0) + ', rdx', (), True)
        # shift counts
        if 'cl' in ops:
            for i, k in enumerate(ops):
                if k == 'cl':
                    add('must', text({i: 'R(c)'}), ['let c = v::reg("c");', 'v::assume(c != 1);'], lab)
                    for nme in NAMES:
                        if nme != 'rcx':
                            add('must', text({i: nme}), (), lab)
                    add('must', text({i: '[rdi]'}), (), lab)
                    add('must', text({i: 'xmm1'}), (), lab)
    # single-operand destinations that must be writable / register classes
    for mn in ('negq', 'popq', 'seteq', 'idiv', 'div', 'idivl', 'divl', 'setb'):
        add('must', mn + ' 5')
        add('must', mn + ' (x)', ['let x: i64 = v::any("x");'])
        add('must', mn + ' xmm1')
    add('must', 'lea rax, rbx'), add('must', 'lea [rax], rbx'), add('must', 'lea rax, 5'), add('must', 'lea xmm1, [rax]')
    for d in ('addsd', 'subsd', 'mulsd', 'divsd', 'minsd', 'maxsd', 'sqrtsd', 'ucomisd', 'xorps', 'andpd', 'xorpd', 'sqrtpd'):
        add('must', d + ' [rax], xmm1'), add('must', d + ' xmm1, 5'), add('must', d + ' rax, rbx')
    for d in ('roundpd [rax], xmm1, 1', 'roundpd xmm1, xmm2', 'roundpd xmm1, xmm2, rax', 'roundpd xmm1, xmm2, xmm3', 'roundpd xmm1, xmm2, [rax]', 'roundpd xmm1, xmm2, 256',
              'roundpd xmm1, xmm2, 1000', 'movsd [rax], [rbx]', 'movsd xmm1, 5', 'movsd [rax], 5', 'movsd [rax], rbx', 'movsd rax, rbx',
              'cvtsi2sdq [rax], rbx', 'cvtsi2sdq xmm1, 5', 'cvtsi2sdq xmm1, xmm2', 'cvttsd2siq [rax], xmm1', 'cvttsd2siq rax, rbx', 'cvttsd2siq xmm1, xmm2',
              'cvttsd2siq rax, 5', 'movq xmm1, 5', 'movq xmm1, (5)', 'movq xmm1, qword 5', 'movq [rax], [rbx]', 'movq 5, rax', 'movq qword 5, rax',
              'movl xmm1, rax', 'movl rax, xmm1', 'movzxb [rax], rbx', 'movzxb rax, 5', 'movsxl [rax], rbx', 'movsxl rax, 5', 'movsxw rax, 5', 'movzxw [rax], rbx',
              'cmoveqq [rax], rbx', 'cmoveqq rax, 5', 'cmoveql [rax], rbx', 'cmoveqw rax, 5', 'xchgq rax, 5', 'xchgl 5, rax', 'xchgq [rax], [rbx]', 'xchgl [rax], [rbx]',
              'xchgw [rax], [rbx]', 'xchgb [rax], [rbx]', 'xchgq xmm0, xmm1', 'imul [rax], rbx', 'imul 5, rbx', 'imul [rax], [rbx]', 'imul [rax], 5', 'popcntq [rax], rbx',
              'lzcntl rax, 5', 'tzcntq xmm1, xmm2', 'jne rax', 'jne [rax]', 'jne 5', 'jne (5.0)', 'je undefined_name', 'jmp undefined_name', 'call undefined_name', 'jmp xmm1',
              'jmp rip', 'call rip', 'jmp', 'call', 'ret rax', 'ret [rax]', 'ret l', 'pushq xmm1', 'dq', 'dq rax', 'dq "a"', 'dq \'a\'', 'dq l', 'dq 1, 2', 'dq 18446744073709551616',
              'dq true', 'movq rax, 1.5', 'addq rax, 1.5', 'movq rax, "a"', 'addb rax, \'a\'', 'movq rax, qword', 'movq rax, qword rbx', 'movq rax, dword 5', 'addq rax, qword 5',
              'call (l)', 'movq rax, (l)', 'addq rax, (l)', 'movq rax, 18446744073709551616', 'syscall rax', 'leave rax', 'int3 3', 'cqo rax', 'R(1)', 'rax', ''):
        add('must', d, (), True)
    # registers of other widths and kinds, written where a 64-bit one is meant
    legacy = [a + b + c for a in ('e', '') for b in 'abcd' for c in 'x'] + [a + b for a in ('e', '') for b in ('sp', 'bp', 'si', 'di', 'ip', 'flags')]
    legacy += [b + c for b in 'abd' for c in 'lh'] + ['ch', 'spl', 'bpl', 'sil', 'dil', 'rflags', 'rop', 'rex', 'riz', 'r', 'r00', 'r01', 'r08', 'r1', 'r7', 'r17', 'r100', 'rcl', 'x0', 'xmm0', 'mm0', 'st0', 'cr0', 'dr7', 'fs', 'gs', 'cs', 'ds', 'k1', 'bnd0', 'tr1', 'rip8']
    legacy += ['r%d%s' % (n, s) for n in (8, 9, 10, 12, 13, 15) for s in 'dwbl']
    for n in legacy:
        for t in ('addq %s, rbx', 'cmpq rbx, %s', 'lea rbx, [%s + 8]', 'lea rbx, [rdi + %s * 4]', 'pushq %s', 'movzxb rbx, %s', 'shlq rbx, %s', 'movl %s, 5', 'jmp %s', 'call %s'):
            add('must', t % n, (), False)
        if n != 'xmm0':
            add('must', 'movq %s, rbx' % n)
            add('must', 'addsd %s, xmm1' % n)
            add('must', 'movsd xmm1, %s' % n)
    # names that mean nothing
    for m in ('foo', 'movx', 'movqq', 'addx', 'addqq', 'xaddz', 'shlx8', 'shl8', 'testx', 'idivx', 'divz', 'movsxz', 'leaq8', 'cvtsi2sdz', 'roundqd', 'adds', 'addsdq', 'cmov', 'cmovq', 'cmovl', 'cmovw', 'setq8', 'set',
              'jx', 'MOVQ', 'Addq', 'mov_q', 'nopz', 'retq8'):
        add('must', m + ' rax, rbx', (), True)
        add('must', m + ' rax', (), True)
        add('must', m + ' l', (), True)
    for c in ('x', 'ee', 'neq', 'eqq', 'zz', 'nne', 'gl', 'lte', 'gte', 'u', 'nu', 'hi', 'lo', 'cc', 'cs', 'mi', 'pl', 'nnz', 'nlt', 'ngt', 'neg', 'aa', 'nb8', 'nle8', 'E', 'Eq'):
        add('must', 'set%s rax' % c)
        add('must', 'j%s l' % c, (), True)
        for s in 'qlw':
            add('must', 'cmov%s%s rax, rbx' % (c, s))
    for c in ('eq', 'e', 'ne', 'lt', 'ae', 'o'):
        for s in ('', 'x', 'd', 'qq', 'ql'):
            cs = c + s
            if cs and cs[-1] in 'qlw' and cs[:-1] in CC:
                continue
            add('must', 'cmov%s%s rax, rbx' % (c, s))
        add('must', 'cmov%sb rax, rbx' % c)
    # forms outside the documented set that do have an encoding: refused, or assembled as written
    right = [
        ('jl l', None), ('jg l', None),
        ('imul rax, 5', None),
        ('call R(r)', ('call', None, 64, 0, 'g:r:64')), ('jmp R(r)', ('jmp', None, 64, 0, 'g:r:64')),
        ('jmp (i)', ('jmp', None, 64, 0, 'rel:i')),
        ('testq rbx, [rdi]', ('test', None, 64, 0, 'm:7:-:1:0 g:3:64')), ('testb rbx, [rdi]', ('test', None, 8, 0, 'm:7:-:1:0 g:3:8')),
        ('testl rbx, rsi', ('test', None, 32, 0, 'g:3:32 g:6:32')), ('testw rbx, rsi', ('test', None, 16, 0, 'g:3:16 g:6:16')),
        ('movzxl rbx, rsi', ('mov', None, 32, 0, 'g:3:32 g:6:32')),
        ('notq rbx', ('not', None, 64, 0, 'g:3:64')), ('negl rbx', ('neg', None, 32, 0, 'g:3:32')), ('incq rbx', ('inc', None, 64, 0, 'g:3:64')),
        ('xchgq rbx, [rdi]', ('xchg', None, 64, 0, 'm:7:-:1:0 g:3:64')),
        ('addq rbx, -5', ('add', None, 64, 0, 'g:3:64 i:-5')), ('movq rbx, -5', ('mov', None, 64, 0, 'g:3:64 i:-5')),
        ('movl rbx, -5', ('mov', None, 32, 0, 'g:3:32 i:-5')), ('addb rbx, -5', ('add', None, 8, 0, 'g:3:8 i:-5')),
        ('movq rbx, qword -5', ('mov', None, 64, 0, 'g:3:64 i:-5')),
        ('testq rbx, -5', ('test', None, 64, 0, 'g:3:64 i:-5')), ('cmpw rbx, -5', ('cmp', None, 16, 0, 'g:3:16 i:-5')),
        ('movq RAX, rbx', ('mov', None, 64, 0, 'g:0:64 g:3:64')), ('addq [R12 + Rdi * 4], rbx', ('add', None, 64, 0, 'm:12:7:4:0 g:3:64')),
        ('addq cl, rbx', ('add', None, 64, 0, 'g:1:64 g:3:64')),
        ('roundpd xmm1, xmm2, (i)', ('roundpd', None, 128, 0, 'x:1 x:2 u:i')),
        ('shlq rbx, 64', ('shl', None, 64, 0, 'g:3:64 i:64')),
    ]
    for t, m in right:
        lets = []
        if 'R(r)' in t:
            lets = ['let r = v::reg("r");']
        if '(i)' in t:
            lets = ['let i: i64 = v::any("i");']
        if m is None:
            continue
        add('right', t, lets, ' l' in t, m)
    return out


def gen_enc_reg(v):
    return 'let %s = v::reg("%s");' % (v, v)


if __name__ == '__main__':
    o = build()
    from collections import Counter
    print(len(o), Counter(x['kind'] for x in o))
