"""Generators of the witnesses about the macro itself: evaluation count (C20) and hygiene (C21)."""
import re
import gen_enc

HEAD = gen_enc.HEAD
VAR = re.compile(r'(?<![\w.])(R|xmm|)\(([a-z])\)')


def base_items(level):
    """encoding witnesses whose operands are run-time expressions; conditions share their expansion, so one per family in the quick tier"""
    out, seen = [], {}
    for x in gen_enc.build(level):
        if x['where'] or x['optional']:
            continue
        vs = [m.group(2) for o in x['ops'] for m in VAR.finditer(o[0])]
        if not vs and not x['label']:
            continue
        f = x['form']
        if f['cond'] is not None and level == 'quick':
            k = (f['fam'], f['w'], re.sub(r'^\S+', '', x['text']))
            if k in seen:
                continue
            seen[k] = 1
        x['vars'] = vs
        out.append(x)
    return out


# ---------------------------------------------------------------- exactly once
ONCE_HEAD = HEAD + '''
fn t<T>(k: u64, x: T) -> T { v::tick(k); x }
/// an expression that gives something else when it is evaluated again
fn again<T: Copy>(k: u64, x: &mut T, name: &str) -> T {
    v::tick(k);
    let y = *x;
    *x = v::any(name);
    y
}
'''


def once(level):
    out = []
    for x in base_items(level):
        n = [0]

        def sub(m):
            n[0] += 1
            return '%s(again(%d, &mut %s, "%s2"))' % (m.group(1), n[0], m.group(2), m.group(2))
        text = x['form']['mn'] + ' ' + ', '.join(VAR.sub(sub, o[0]) for o in x['ops'])
        nm = x['name'].replace('w_e', 'w_q')
        b = ['fn %s() {' % nm, 'let mut jit = fresh(0);'] + [re.sub('^let ', 'let mut ', l) for l in x['ctx'].lets]
        if x['label']:
            b.append('let l = jit.label();')
        b += ['v::panics(true);', 'monoasm! { t(0, &mut jit), %s; }' % text]
        b += ['v::ticks("C20", %d, "`%s`");' % (k, text.replace('"', "'")) for k in range(n[0] + 1)]
        b.append('}')
        out.append(dict(name=nm, src='\n'.join(b), meta=None, text=text, n=n[0] + 1, plain=x))
    # shifts by a run-time count register, which has to be cl: the forms with other registers are refused
    for j, x in enumerate([x for x in base_items(level) if len(x['ops']) == 2 and x['ops'][1][0] == 'cl']):
        n = [0]
        text = x['form']['mn'] + ' ' + VAR.sub(sub, x['ops'][0][0]) + ', R(again(%d, &mut cnt, "cnt2"))' % (n[0] + 1)
        nm = 'w_qc%03d' % j
        b = ['fn %s() {' % nm, 'let mut jit = fresh(0);'] + [re.sub('^let ', 'let mut ', l) for l in x['ctx'].lets]
        b += ['let mut cnt: u64 = v::any("cnt");'] + (['let l = jit.label();'] if x['label'] else [])
        b += ['v::panics(true);', 'monoasm! { t(0, &mut jit), %s; }' % text]
        b += ['v::ticks("C20", %d, "`%s`");' % (k, text.replace('"', "'")) for k in range(n[0] + 2)]
        b.append('}')
        out.append(dict(name=nm, src='\n'.join(b), meta=None, text=text, n=n[0] + 2))
    # the assembler expression of a block of several statements
    for j, body in enumerate(('', 'l:', 'dq 1; dq 2.5;', 'ret; int3; leave;', 'jmp l; l: call l; jne l;', 'movq rax, (t(1, 5)); addq rbx, (t(2, 6)); movq [rax + (t(3, 8))], R(t(4, 7));',
                              'movq R(t(1, 3)), (t(2, 5)); movq R(t(3, 4)), (t(4, 6)); l: dq 7; xchgq R(t(5, 1)), R(t(6, 0));')):
        n = len(re.findall(r't\(', body))
        nm = 'w_qb%02d' % j
        b = ['fn %s() {' % nm, 'let mut jit = fresh(0);', 'let l = jit.label();', 'v::panics(true);', 'monoasm! { t(0, &mut jit), %s }' % body]
        b += ['v::ticks("C20", %d, "block `%s`");' % (k, body) for k in range(n + 1)]
        b.append('}')
        out.append(dict(name=nm, src='\n'.join(b), meta=None, text=body, n=n + 1))
    return out


# ---------------------------------------------------------------- hygiene
def hyg_one(x, nm, old, new, before=None):
    """witness x with the user variable `old` spelled `new`; optionally after another instruction in the same block"""
    names = {v: 'user_' + v for v in x['vars']}
    names.update(jit='user_jit', l='user_l')
    if old is not None:
        names[old] = new
    jit, lab = names['jit'], names['l']

    def ren_let(l):
        m = re.match(r'let (\w+)(.*)$', l)
        return 'let %s%s' % (names.get(m.group(1), m.group(1)), m.group(2))

    def ren_op(o):
        o = VAR.sub(lambda m: '%s(%s)' % (m.group(1), names[m.group(2)]), o)
        return lab if o == 'l' else o.replace('[rip + l]', '[rip + %s]' % lab)
    text = x['form']['mn'] + ' ' + ', '.join(ren_op(o[0]) for o in x['ops'])
    b = ['fn %s() { // %s' % (nm, text), 'let mut %s = fresh(0);' % jit] + [ren_let(l) for l in x['ctx'].lets]
    b.append('let %s = %s.label();' % (lab, jit))
    if before:
        b += ['let user_mid = %s.label();' % jit, 'let user_other = %s.label();' % jit]
    b += ['v::mark();', 'v::may_refuse("%s");' % nm]
    if before:
        b.append('monoasm! { &mut %s, %s; user_mid: %s; }' % (jit, before, text))
        b.append('v::cap_range(%s.get_label_u64(user_mid), %s.get_current_address().as_ptr() as u64);' % (jit, jit))
    else:
        b.append('monoasm! { &mut %s, %s; }' % (jit, text))
    if x['label']:
        b += [] if before else ['v::cap();']
        b += ['v::havoc(&mut %s);' % jit, 'v::assume(%s.get_current() + 4096 <= v::page_size());' % jit,
              '%s.bind_label(%s);' % (jit, lab), '%s.finalize();' % jit, 'let user_a = %s.get_label_u64(%s);' % (jit, lab), 'v::instl("%s", user_a);' % nm]
    else:
        b.append('v::inst("%s");' % nm)
    b.append('}')
    meta = x['meta'].split('\t')
    meta[0], meta[-1] = nm, (before + '; ' if before else '') + text
    return dict(name=nm, src='\n'.join(b), meta='\t'.join(meta), text=meta[-1])


def reps(level):
    """one witness per mnemonic and operand form"""
    out, seen = [], {}
    for x in base_items(level):
        f = x['form']
        if {re.match(r'let (?:mut )?(\w+)', l).group(1) for l in x['ctx'].lets} - set(x['vars']):
            continue        # operands written as larger expressions over further locals of the witness itself
        shape = tuple('m' if o[0].startswith('[') else re.sub(r'\w$', '', o[0]) for o in x['ops'])
        k = (f['mn'], shape, x['label'])
        n = seen[k] = seen.get(k, 0) + 1
        # memory operands: the shape with base, index and displacement is the richest
        rich = any('*' in o[0] for o in x['ops']) or 'm' not in shape or x['label']
        if not rich or seen.get((k, 'got')):
            continue
        seen[(k, 'got')] = 1
        out.append(x)
    return out


def hyg_plain(level):
    """the witnesses as the macro's author would hope they are called: harvest the names from these"""
    return [dict(hyg_one(x, x['name'].replace('w_e', 'w_y'), None, None), plain=x) for x in reps(level)]


def hyg(level, locals_of):
    """locals_of: witness name -> local names of its compiled body"""
    out, n = [], [0]

    def emit(x, old, new, before=None):
        n[0] += 1
        out.append(hyg_one(x, 'w_h%05d' % n[0], old, new, before))
    items = [x for x in reps(level) if x['name'].replace('w_e', 'w_y') in locals_of]
    own = {re.match(r'let (?:mut )?(\w+)', l).group(1) for x in items for l in x['ctx'].lets} - {v for x in items for v in x['vars']}
    assert not own, own
    every = set()
    intro = {}
    for x in items:
        got = {v for v in locals_of.get(x['name'].replace('w_e', 'w_y'), ()) if not v.startswith('user_') and re.match(r'^[a-z_]\w*$', v) and v != 'self'}
        intro[x['name']] = got
        every |= got
    for x in items:
        names = sorted(intro[x['name']] | ({'jit', 'imm'} if level == 'quick' else every | {'dest', 'disp', 'label', 'rm', 'x'}))
        for new in names:
            for old in sorted(set(x['vars'])) + (['l'] if x['label'] else []) + ['jit']:
                emit(x, old, new)
    # names introduced by one instruction must not reach the next one of the block
    def find(mn, k):
        return [x for x in items if x['form']['mn'] == mn and len(x['vars']) >= k][:1]
    second = find('movq', 2) + find('addq', 2) + [x for x in items if x['form']['mn'] == 'jmp' and x['label']][:1]
    done = set()
    for x in items:
        names = intro[x['name']] | {'jit'}
        key = (frozenset(names), x['form']['fam'], tuple(x['form']['ops']))
        if level == 'quick' and key in done:
            continue
        done.add(key)
        # the first instruction with constants in place of its expressions
        first = x['form']['mn'] + ' ' + ', '.join(
            'user_other' if o[0] == 'l' else VAR.sub(lambda m: '%s(%s)' % (m.group(1), '3' if m.group(1) else '5'), o[0]).replace('[rip + l]', '[rip + user_other]') for o in x['ops'])
        for new in sorted(names):
            for y in second:
                for old in sorted(set(y['vars'])) + (['l'] if y['label'] else []):
                    emit(y, old, new, first)
    return out, sorted(every)
