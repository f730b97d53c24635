"""Independent statement of what each accepted monoasm instruction means (from README.md and the x86-64 ISA).

forms(): list of (mnemonic, op, cond, w, sw, [operand kinds], imm range or None)
operand kinds: r8 r16 r32 r64 (general register of that width), m (memory), i (sign-extended immediate),
x (xmm), cl, l (label), u8 (raw byte immediate), q (imm with the `qword` marker), rel (call displacement)
"""
I8 = (-128, 127)
I16 = (-32768, 32767)
I32 = (-2147483648, 2147483647)
I64 = (-9223372036854775808, 9223372036854775807)
W = {'q': 64, 'l': 32, 'w': 16, 'b': 8}
IMM = {'q': I32, 'l': I32, 'w': I16, 'b': I8}

# condition suffix -> x86 condition code (Intel SDM, Appendix B)
CC = {'o': 0, 'no': 1, 'b': 2, 'c': 2, 'nae': 2, 'ae': 3, 'nc': 3, 'e': 4, 'eq': 4, 'z': 4, 'ne': 5, 'nz': 5,
      'be': 6, 'na': 6, 'a': 7, 'nbe': 7, 's': 8, 'ns': 9, 'p': 10, 'pe': 10, 'np': 11, 'po': 11,
      'l': 12, 'lt': 12, 'nge': 12, 'ge': 13, 'nl': 13, 'le': 14, 'ng': 14, 'g': 15, 'gt': 15, 'nle': 15}
# the jump family has no plain jl / jg
JCC = {k: v for k, v in CC.items() if k not in ('l', 'g')}


def forms():
    out = []

    def add(mn, op, w, ops, imm=None, sw=0, cond=None, fam=None):
        out.append(dict(mn=mn, op=op, cond=cond, w=w, sw=sw, ops=ops, imm=imm, fam=fam or op))
    for op in ('add', 'or', 'adc', 'sbb', 'and', 'sub', 'xor', 'cmp'):
        for s in 'qlwb':
            w = W[s]
            r = 'r%d' % w
            for ops in ([r, r], ['m', r], [r, 'm'], [r, 'i'], ['m', 'i']):
                add(op + s, op, w, ops, IMM[s] if 'i' in ops else None, fam='alu' + s)
    add('movq', 'mov', 64, ['r64', 'r64'])
    add('movq', 'mov', 64, ['m', 'r64'])
    add('movq', 'mov', 64, ['r64', 'm'])
    add('movq', 'mov', 64, ['r64', 'i'], I64)
    add('movq', 'mov', 64, ['r64', 'q'], I64)
    add('movq', 'mov', 64, ['m', 'i'], I32)
    add('movq', 'movq', 64, ['x', 'r64'], fam='mov')
    add('movq', 'movq', 64, ['r64', 'x'], fam='mov')
    add('movq', 'movq', 64, ['x', 'm'], fam='mov')
    add('movq', 'movq', 64, ['m', 'x'], fam='mov')
    add('movq', 'movq', 64, ['x', 'x'], fam='mov')
    for s in 'lwb':
        r = 'r%d' % W[s]
        for ops in ([r, r], ['m', r], [r, 'm'], [r, 'i'], ['m', 'i']):
            add('mov' + s, 'mov', W[s], ops, IMM[s] if 'i' in ops else None, fam='mov' + s)
    for mn, op, sw in (('movsxl', 'movsx', 32), ('movzxw', 'movzx', 16), ('movsxw', 'movsx', 16),
                       ('movzxb', 'movzx', 8), ('movsxb', 'movsx', 8)):
        add(mn, op, 64, ['r64', 'r%d' % sw], sw=sw, fam='movx')
        add(mn, op, 64, ['r64', 'm'], sw=sw, fam='movx')
    for s in 'qlwb':
        r = 'r%d' % W[s]
        for ops in ([r, r], ['m', r], [r, 'm']):
            add('xchg' + s, 'xchg', W[s], ops)
    for s, im in (('q', I32), ('b', I8)):
        r = 'r%d' % W[s]
        for ops in ([r, r], ['m', r], [r, 'i'], ['m', 'i']):
            add('test' + s, 'test', W[s], ops, im if 'i' in ops else None, fam='test')
    for mn, op in (('rol', 'rol'), ('ror', 'ror'), ('shl', 'shl'), ('sal', 'shl'), ('shr', 'shr'), ('sar', 'sar')):
        for s in 'ql':
            r = 'r%d' % W[s]
            for ops in ([r, 'i'], ['m', 'i'], [r, 'cl'], ['m', 'cl']):
                add(mn + s, op, W[s], ops, I8 if 'i' in ops else None, fam='shift' + s)
    for c, k in CC.items():
        add('set' + c, 'set', 8, ['r8'], cond=k)
        add('set' + c, 'set', 8, ['m'], cond=k)
        for s in 'qlw':
            r = 'r%d' % W[s]
            add('cmov' + c + s, 'cmov', W[s], [r, r], cond=k)
            add('cmov' + c + s, 'cmov', W[s], [r, 'm'], cond=k)
    for c, k in JCC.items():
        add('j' + c, 'j', 64, ['l'], cond=k)
    add('cqo', 'cdq', 64, [], fam='misc')
    add('cdq', 'cdq', 32, [], fam='misc')
    add('int3', 'int3', 0, [], fam='misc')
    add('ret', 'ret', 64, [], fam='misc')
    add('leave', 'leave', 64, [], fam='misc')
    add('syscall', 'syscall', 0, [], fam='misc')
    for o in (['r64'], ['m']):
        add('negq', 'neg', 64, o, fam='misc')
        for mn in ('idiv', 'idivq'):
            add(mn, 'idiv', 64, o, fam='misc')
        for mn in ('div', 'divq'):
            add(mn, 'div', 64, o, fam='misc')
        add('pushq', 'push', 64, o, fam='misc')
        add('popq', 'pop', 64, o, fam='misc')
    for o in (['r32'], ['m']):
        add('idivl', 'idiv', 32, o, fam='misc')
        add('divl', 'div', 32, o, fam='misc')
    add('imul', 'imul', 64, ['r64', 'r64'], fam='misc')
    add('imul', 'imul', 64, ['r64', 'm'], fam='misc')
    add('lea', 'lea', 64, ['r64', 'm'], fam='misc')
    for s in 'ql':
        for op in ('lzcnt', 'tzcnt', 'popcnt'):
            add(op + s, op, W[s], ['r%d' % W[s], 'r%d' % W[s]], fam='misc')
            add(op + s, op, W[s], ['r%d' % W[s], 'm'], fam='misc')
    for o in (['x', 'x'], ['x', 'm'], ['m', 'x']):
        add('movsd', 'movsd', 64, o, fam='fp')
    for o in (['x', 'x'], ['x', 'm']):
        for mn in ('addsd', 'subsd', 'mulsd', 'divsd', 'minsd', 'maxsd', 'sqrtsd', 'ucomisd'):
            add(mn, mn, 64, o, fam='fp')
        for mn in ('xorps', 'andpd', 'xorpd', 'sqrtpd'):
            add(mn, mn, 128, o, fam='fp')
        add('roundpd', 'roundpd', 128, o + ['u8'], fam='fp')
    for o in (['x', 'r64'], ['x', 'm']):
        add('cvtsi2sdq', 'cvtsi2sd', 64, o, sw=64, fam='fp')
    for o in (['r64', 'x'], ['r64', 'm']):
        add('cvttsd2siq', 'cvttsd2si', 64, o, sw=64, fam='fp')
    add('call', 'call', 64, ['n64'], fam='br')
    add('call', 'call', 64, ['m'], fam='br')
    add('call', 'call', 64, ['l'], fam='br')
    add('call', 'call', 64, ['rel'], I32, fam='br')
    add('jmp', 'jmp', 64, ['n64'], fam='br')
    add('jmp', 'jmp', 64, ['m'], fam='br')
    add('jmp', 'jmp', 64, ['l'], fam='br')
    return out
