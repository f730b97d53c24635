"""Which witness programs decide which property, and how analysis records become findings."""
import os, re
import engine as E
import gen_enc
import gen_neg
import gen_macro
import gen_block

ASSUMPTIONS = [
    'rustc\'s MIR construction, type checking and macro expansion are correct; the MIR analysed is that of cargo\'s dev and release profiles (overflow checks and debug assertions on and off)',
    'the analyser\'s transfer functions for MIR statements and the modelled intrinsics (allocation, page protection, formatting) are correct',
    'the system allocator returns memory of the requested size and alignment below 2^47 that nothing else writes',
    'clients use the public API in safe Rust (raw pointers handed out by the API are not used to alter the assembler)',
]

RULE = {
    'enc': 'abstract interpretation of the MIR of each client instruction: the emitted byte template, for every value of its operands, '
           'is decoded by an independent x86-64 decoder and must denote the instruction written',
    'state': 'abstract interpretation of the MIR of client call sequences from an arbitrary reachable assembler state: each stated equality, '
             'containment or frame condition must hold on every abstract path',
    'neg': 'programs that must be refused: rejected by the compiler, or every abstract path ends in a panic; each has an accepted twin',
    'once': 'effect count along every abstract path: each embedded expression is evaluated exactly once',
    'hyg': 'every local name of an expansion (from the compiled MIR) is given to user variables in each operand position; the meaning must not change',
}


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.findings, self.undecided = [], []
        self.witnesses = self.paths = self.obl = self.decodes = self.writes = self.panics = self.steps = 0
        self.functions, self.kinds, self.samples, self.expected = set(), {}, [], []
        self.decided = self.rejected = 0

    def floor(self, what, got, least):
        self.expected.append((what, got, least))

    def decided_floor(self, what, got):
        if got < 1:
            self.undecided.append(('floor', 'no %s witness could be decided' % what))

    def floors(self):
        for w, g, l in self.expected:
            if g < l:
                self.findings.append(dict(where='floor', kind='vacuous', detail='only %d %s were analysed, at least %d are expected' % (g, w, l), site=''))

    def add(self, kind, name, rec, text, own=True, alias=()):
        """rec: analysis record of one witness"""
        self.witnesses += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        self.paths += rec['paths']
        self.obl += rec['obligations']
        self.decodes += rec['decodes']
        self.writes += rec['writes']
        self.panics += rec['panics']
        self.steps += rec['steps']
        if len(self.samples) < 12 or (self.witnesses % 997 == 0 and len(self.samples) < 24):
            self.samples.append('%s: %s (%d paths)' % (name, text, rec['paths']))
        und = False
        for f in rec['findings']:
            if f['id'] == 'analysis':
                if not und:
                    self.undecided.append((name, '%s: %s at %s' % (text, f['detail'], f['site'])))
                und = True
            elif self.prop in f['id'].split('+') or (alias and f['id'] in alias) or (own and f['id'] in ('panic', 'region')):
                self.findings.append(dict(where='%s `%s`' % (name, text), kind=f['kind'], detail=f['detail'], site=f['site']))
        if not und:
            self.decided += 1

    def coverage(self):
        rules = [RULE[k] for k in self.kinds]
        return dict(
            explanation='Static analysis of the monomorphic MIR of /repo as reached from the witness programs. Rule: ' + ' / '.join(rules),
            witness_programs=self.witnesses, witness_kinds=self.kinds, abstract_paths=self.paths, refusing_paths=self.panics,
            obligations=self.obl + self.decodes, discharged=self.obl + self.decodes - len(self.findings),
            instruction_decodes=self.decodes, rejected_by_compiler=self.rejected, stores_checked=self.writes, mir_steps=self.steps,
            undecided_witnesses=len(self.undecided), functions_analysed=len(self.functions),
            functions=sorted(self.functions)[:80], samples=self.samples[:24],
            floors=['%s: %d (>= %d)' % x for x in self.expected])


def note_functions(report, hdr):
    for h in hdr:
        for f in h.get('functions', []):
            if 'monoasm' in f or 'jit_memory' in f:
                report.functions.add(f)


# ---------------------------------------------------------------- encoding witnesses
def enc_props(x):
    if x['where']:
        return {'C08'}
    m = x['meta'].split('\t')
    p = {'C03'}
    if m[3] != '0':
        p.add('C04')
    if m[2] != '-':
        p.add('C06')
    for o in m[5].split():
        k = o.split(':')[0]
        if k in ('g', 'x', 'cl'):
            p.add('C01')
        elif k == 'm':
            p.add('C02')
            if o.endswith(':L'):
                p.add('C08')
        elif k in ('i', 'u', 'rel'):
            p.add('C05')
        elif k == 'l':
            p.add('C08')
    return p


ENC_FLOOR = {}


def run_enc(prop, e, rep):
    items = [x for x in gen_enc.build(rep.tier) if prop in enc_props(x)]
    res, rej, hdr = E.analyse_sharded(e, 'enc', gen_enc.HEAD % E.WIT, items)
    note_functions(rep, hdr)
    texts = {x['name']: x for x in items}
    for n, x in texts.items():
        if n in res:
            # an instruction with a wrong register, address, width, immediate or condition is not the one written
            rep.add('enc', n, res[n], x['text'], own=False, alias=('C01', 'C02', 'C04', 'C05', 'C06') if prop == 'C03' else ())
        elif n in rej:
            if x['optional']:
                rep.rejected += 1
            elif x['where']:
                rep.undecided.append((n, 'not accepted: ' + rej[n][:300]))
            elif prop in ('C01', 'C02', 'C03', 'C05'):
                rep.findings.append(dict(where='%s `%s`' % (n, x['text']), kind='refused', detail='a supported form is refused: ' + rej[n][:400], site=''))
        else:
            rep.undecided.append((n, 'no result'))
    rep.floor('encoding witnesses', len([n for n in texts if n in res or n in rej]), len(items))
    rep.decided_floor('encoding', rep.decided)


# ---------------------------------------------------------------- hand-written state witnesses
def state_files():
    return sorted(f for f in os.listdir(E.WIT) if f.startswith('s_') and f.endswith('.rs'))


def owner(name):
    m = re.match(r'w_(c\d\d)_', name)
    return m.group(1).upper() if m else None


IDS = re.compile(r'"(C\d\d(?:\+C\d\d)*)"')


def tags(head, items):
    """properties that have obligations in each witness, directly or in the helpers it calls"""
    helpers = {}
    cur = None
    for l in head.split('\n'):
        m = re.match(r'fn (\w+)', l)
        if m:
            cur = m.group(1)
            helpers[cur] = ''
        if cur:
            helpers[cur] += l + '\n'
        if l == '}':
            cur = None
    out = {}
    for x in items:
        seen, todo, ids = set(), [x['src']], {owner(x['name'])}
        while todo:
            t = todo.pop()
            for g in IDS.findall(t):
                ids.update(g.split('+'))
            for w in set(re.findall(r'\b\w+\b', t)) & set(helpers) - seen:
                seen.add(w)
                todo.append(helpers[w])
        out[x['name']] = ids
    return out


def run_state(prop, e, rep):
    n = 0
    d0 = rep.decided
    for f in state_files():
        head, items = E.split_file(os.path.join(E.WIT, f))
        tag = tags(head, items)
        sel = [x for x in items if prop in tag[x['name']]]
        if not sel:
            continue
        sel.sort(key=lambda x: x['name'])
        res, rej, hdr = E.analyse_sharded(e, f[:-3], head, sel, per=1 if f == 's_long.rs' else 3)
        note_functions(rep, hdr)
        for x in sel:
            nm = x['name']
            if nm in res:
                n += 1
                rep.add('state', nm, res[nm], nm)
            elif nm in rej and 'save_reloc' in x['src']:
                rep.undecided.append((nm, 'the plumbing it uses has changed: ' + rej[nm][:200]))
            elif nm in rej:
                rep.findings.append(dict(where=nm, kind='interface', detail='the operation is no longer available as documented: ' + rej[nm][:400], site=''))
    rep.floor('state witnesses', n, 1)
    rep.decided_floor('state', rep.decided - d0)


# ---------------------------------------------------------------- programs that must be refused
def run_neg(prop, e, rep):
    items = gen_neg.build(rep.tier)
    res, rej, hdr = E.analyse_sharded(e, 'neg', gen_neg.HEAD % E.WIT, items, shards=64)
    note_functions(rep, hdr)
    refused = accepted = 0
    for x in items:
        n = x['name']
        if n in rej:
            if x['kind'] == 'must':
                refused += 1
                rep.rejected += 1
                if len(rep.samples) < 6:
                    rep.samples.append('%s: rejected by the compiler: %s' % (x['text'], rej[n][:80]))
            continue
        if n not in res:
            rep.undecided.append((n, 'no result'))
            continue
        r = res[n]
        if x['kind'] == 'twin':
            accepted += r['paths'] > 0
            rep.witnesses += 1
            continue
        for f in r['findings']:
            if f['id'] not in ('analysis', prop):
                f['id'] = prop
        rep.add('neg', n, r, x['text'], own=False)
        refused += 1
    rep.floor('refusal witnesses', refused, 1000)
    rep.floor('accepted twins', accepted, 100)


# ---------------------------------------------------------------- the macro: evaluation count and hygiene
def run_once(prop, e, rep):
    items = gen_macro.once(rep.tier)
    res, rej, hdr = E.analyse_sharded(e, 'once', gen_macro.ONCE_HEAD % E.WIT, items)
    note_functions(rep, hdr)
    # a form the assembler refuses altogether says nothing about evaluation
    gone = [x['plain'] for x in items if x['name'] in rej and 'plain' in x]
    prej = E.analyse_sharded(e, 'onceplain', gen_macro.HEAD % E.WIT, gone, extra=('--names',))[1] if gone else {}
    items = [x for x in items if not ('plain' in x and x['plain']['name'] in prej)]
    for x in items:
        n = x['name']
        if n in res:
            rep.add('once', n, res[n], x['text'])
        elif n in rej:
            rep.findings.append(dict(where='%s `%s`' % (n, x['text']), kind='refused', detail='an expression cannot be embedded once: ' + rej[n][:400], site=''))
        else:
            rep.undecided.append((n, 'no result'))
    rep.floor('embedding witnesses', rep.witnesses, 1000)
    rep.decided_floor('embedding', rep.decided)


def run_hyg(prop, e, rep):
    plain = gen_macro.hyg_plain(rep.tier)
    head = gen_macro.HEAD % E.WIT
    loc, prej, _ = E.analyse_sharded(e, 'hygnames', head, plain, extra=('--names',))
    # refused with names of the user's choosing: is it the instruction, or the names?
    gone = {x['plain']['name']: x for x in plain if x['name'] in prej}
    if gone:
        loc2, _, _ = E.analyse_sharded(e, 'hyggone', head, [x['plain'] for x in gone.values()], extra=('--names',))
        for n, x in gone.items():
            if n in loc2:
                rep.findings.append(dict(where='%s `%s`' % (x['name'], x['text']), kind='captured', detail='compiles only with certain variable names: ' + prej[x['name']][:400], site=''))
    items, names = gen_macro.hyg(rep.tier, {k: v['locals'] for k, v in loc.items()})
    res, rej, hdr = E.analyse_sharded(e, 'hyg', head, items)
    note_functions(rep, hdr)
    rep.samples.append('names introduced by the expansions: ' + ' '.join(names))
    for x in items:
        n = x['name']
        if n in res:
            for f in res[n]['findings']:
                if f['id'] != 'analysis':
                    f['id'] = prop
            rep.add('hyg', n, res[n], x['text'], own=False)
        elif n in rej:
            rep.findings.append(dict(where='%s `%s`' % (n, x['text']), kind='captured', detail='does not compile with this choice of names: ' + rej[n][:400], site=''))
        else:
            rep.undecided.append((n, 'no result'))
    rep.floor('naming witnesses', rep.witnesses, 500)
    rep.decided_floor('naming', rep.decided)


# ---------------------------------------------------------------- blocks and data directives
def run_block(prop, e, rep):
    items = gen_block.blocks(rep.tier) if prop == 'C22' else gen_block.data(rep.tier)
    res, rej, hdr = E.analyse_sharded(e, 'blk', gen_block.head(), items, shards=32)
    note_functions(rep, hdr)
    lone = {x['seq'][0] for x in items if len(x.get('seq', ())) == 1 and x['name'] in rej}
    for x in items:
        n = x['name']
        if n in res:
            rep.add('state', n, res[n], x['text'][:160])
        elif n in rej:
            if x.get('must'):
                rep.rejected += 1
            elif prop == 'C25':
                rep.findings.append(dict(where='%s `%s`' % (n, x['text'][:160]), kind='refused', detail='does not compile: ' + rej[n][:400], site=''))
            elif set(x.get('seq', ['?'])) & lone:
                rep.undecided.append((n, 'a statement of the block is refused: ' + rej[n][:200]))
            else:
                rep.findings.append(dict(where='%s `%s`' % (n, x['text'][:160]), kind='refused', detail='every statement is accepted alone, but not the block: ' + rej[n][:400], site=''))
        else:
            rep.undecided.append((n, 'no result'))
    rep.floor('block witnesses', rep.witnesses, 1)
    rep.decided_floor('block', rep.decided)


KIND_OF = {'run_enc': 'enc', 'run_state': 'state', 'run_neg': 'neg', 'run_once': 'once', 'run_hyg': 'hyg', 'run_block': 'state'}

PLAN = {
    **{'C%02d' % k: [run_enc] for k in (1, 2, 3, 4, 5, 6)}, 'C07': [run_neg], 'C08': [run_enc, run_state],
    'C20': [run_once], 'C21': [run_hyg], 'C22': [run_block], 'C25': [run_block],
    **{'C%02d' % k: [run_state] for k in (9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 23, 24, 26, 28, 31)},
}


def run(prop, e, rep):
    for f in PLAN[prop]:
        f(prop, e, rep)
