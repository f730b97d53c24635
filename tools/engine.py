"""Build the analyser, type-check /repo's crates with their MIR kept, and run masm-static over witness crates."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
WIT = os.path.join(ROOT, 'witness')
# the code is judged as cargo builds it in both of its profiles: arithmetic that traps in one wraps in the other
PROFILES = {'release': 'off', 'dev': 'on'}


def flags(profile):
    v = PROFILES[profile]
    return ['-Zalways-encode-mir', '-Zmir-opt-level=0', '-C', 'overflow-checks=' + v, '-C', 'debug-assertions=' + v]


WORKERS = max(2, min(8, os.cpu_count() or 4))


# time limits: what is not decided by then is reported undecided
WITNESS_S = 120
TOTAL_S = 600


class Broken(Exception):
    """the analysis could not be set up"""


def sh(cmd, cwd=None, env=None, timeout=800):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        r = sh(['rustc', '+nightly', '--print', 'sysroot'])
        _sysroot = r.stdout.strip()
        if not _sysroot:
            raise Broken('no nightly toolchain: ' + r.stderr[-500:])
    return _sysroot


def lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build_analyser():
    r = sh(['cargo', '+nightly', 'build', '--offline', '-q'], cwd=os.path.join(ROOT, 'analyzer'),
           env={'CARGO_TARGET_DIR': os.path.join(ROOT, 'analyzer', 'target'), 'RUSTFLAGS': ''})
    b = os.path.join(ROOT, 'analyzer', 'target', 'debug', 'masm-static')
    if r.returncode != 0 or not os.path.exists(b):
        raise Broken('the analyser does not build: ' + r.stderr[-2000:])
    return b


def repo_files():
    out = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in ('.git', 'target'))
        for f in sorted(fs):
            if f.endswith(('.rs', '.toml', '.lock', '.md')):
                out.append(os.path.join(d, f))
    return out


def repo_hash():
    h = hashlib.sha256()
    for p in repo_files():
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:16]


class Env:
    pass


def setup(profile='release', deadline=None):
    """returns the environment every analysis of this run uses; always compiled from /repo's current tree"""
    e = Env()
    e.flags = flags(profile)
    e.analyser = build_analyser()
    e.hash = repo_hash()
    base = os.path.join(BUILD, 'deps-%s-%s' % (e.hash, profile))
    for old in glob.glob(os.path.join(BUILD, 'deps-*')):
        if not old.startswith(os.path.join(BUILD, 'deps-%s-' % e.hash)):
            shutil.rmtree(old, ignore_errors=True)
    t = time.time()
    r = sh(['cargo', '+nightly', 'build', '--offline', '-p', 'monoasm', '-p', 'monoasm_macro', '--lib', '--target-dir', base,
            '--message-format=json'], cwd=REPO, env={'RUSTFLAGS': ' '.join(e.flags)})
    if r.returncode != 0:
        raise Broken('the repository does not build: ' + r.stderr[-3000:])
    e.monoasm = e.macro = None
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('reason') != 'compiler-artifact':
            continue
        nm = m['target']['name']
        for f in m.get('filenames', []):
            if nm == 'monoasm' and f.endswith('.rmeta'):
                e.monoasm = f
            if nm == 'monoasm_macro' and f.endswith('.so'):
                e.macro = f
    if not e.monoasm or not e.macro:
        raise Broken('the library artefacts were not found')
    e.L = []
    ds = {os.path.dirname(e.monoasm)}
    ds.update(glob.glob(os.path.join(base, 'debug', 'build', '*', '*', 'out')))
    ds.update(glob.glob(os.path.join(base, 'debug', 'deps')))
    for d in sorted(ds):
        e.L += ['-L', 'dependency=' + d]
    e.run = os.path.join(BUILD, 'run')
    shutil.rmtree(e.run, ignore_errors=True)
    os.makedirs(e.run)
    e.build_s = time.time() - t
    e.inv = None
    e.deadline = deadline or t + TOTAL_S
    return e


def rustc_args(e, src, d):
    return ['--crate-name', 'w', '--crate-type', 'lib', '--edition', '2021', src] + e.L + [
        '--extern', 'monoasm=' + e.monoasm, '--extern', 'monoasm_macro=' + e.macro] + e.flags + [
        '-Awarnings', '--out-dir', d, '--sysroot', sysroot(), '--error-format=json']


FN = re.compile(r'^(?:pub )?fn (w_\w+)')


def errors_by_witness(stderr, src_text):
    """map compiler errors to the witness function they lie in: {name: message}, [unplaced messages]"""
    lines = src_text.split('\n')
    owner, cur = [], None
    for l in lines:
        m = FN.match(l)
        if m:
            cur = m.group(1)
        owner.append(cur)
        if l == '}':
            cur = None
    bad, loose = {}, []
    for l in stderr.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('level') != 'error' or m.get('message', '').startswith(('aborting due', 'could not compile')):
            continue
        names = set()

        def walk(sp):
            if sp.get('file_name', '').endswith('lib.rs'):
                k = sp['line_start'] - 1
                if 0 <= k < len(owner) and owner[k]:
                    names.add(owner[k])
            if sp.get('expansion'):
                walk(sp['expansion']['span'])
        for sp in m.get('spans', []):
            walk(sp)
        for ch in m.get('children', []):
            for sp in ch.get('spans', []):
                walk(sp)
        msg = m['message'] + ''.join('; ' + c['message'] for c in m.get('children', [])[:1])
        if names:
            for n in names:
                bad.setdefault(n, msg)
        else:
            loose.append(msg)
    return bad, loose


def analyse(e, name, head, items, extra=(), env=None, timeout=850):
    """items: list of dict(name, src, meta). Returns (results by witness, compile errors by witness, header records)."""
    d = os.path.join(e.run, name)
    os.makedirs(d, exist_ok=True)
    rejected = {}
    items = list(items)
    for _ in range(12):
        src = head + '\n'.join(x['src'] for x in items) + '\n'
        with open(os.path.join(d, 'lib.rs'), 'w') as f:
            f.write(src)
        with open(os.path.join(d, 'meta.tsv'), 'w') as f:
            f.write('\n'.join(x['meta'] for x in items if x.get('meta')) + '\n')
        out = os.path.join(d, 'out.jsonl')
        if os.path.exists(out):
            os.unlink(out)
        cmd = [e.analyser, '--out', out, '--meta', os.path.join(d, 'meta.tsv')]
        if e.inv:
            cmd += ['--inv-in', e.inv]
        left = max(5, int(e.deadline - time.time()))
        cmd += ['--witness-s', str(WITNESS_S), '--total-s', str(left)]
        cmd += list(extra) + ['--'] + rustc_args(e, os.path.join(d, 'lib.rs'), d)
        r = sh(cmd, env={'LD_LIBRARY_PATH': sysroot() + '/lib'}, timeout=timeout)
        if r.returncode == 0 and os.path.exists(out):
            recs = [json.loads(l) for l in open(out)]
            return {x['witness']: x for x in recs if 'witness' in x}, rejected, [x for x in recs if 'witness' not in x]
        bad, loose = errors_by_witness(r.stderr, src)
        if not bad:
            raise Broken('witness crate %s: %s' % (name, (' | '.join(loose) or r.stderr[-1500:])))
        rejected.update(bad)
        items = [x for x in items if x['name'] not in bad]
        if not items:
            return {}, rejected, []
    raise Broken('witness crate %s does not settle' % name)


def analyse_sharded(e, name, head, items, shards=24, extra=(), per=20):
    n = max(1, min(shards, (len(items) + per - 1) // per))

    def job(k):
        return analyse(e, '%s%d' % (name, k), head, items[k::n], extra)
    res, rej, hdr = {}, {}, []
    with ThreadPoolExecutor(WORKERS) as ex:
        for a, b, c in ex.map(job, range(n)):
            res.update(a)
            rej.update(b)
            hdr += c
    return res, rej, hdr


def split_file(path):
    """split a witness source file into (head, items): every top-level `fn w_*` is an item"""
    text = open(path).read()
    head, items, cur = [], [], None
    for l in text.split('\n'):
        m = FN.match(l)
        if m:
            cur = dict(name=m.group(1), src=l, meta=None)
            if l.rstrip().endswith('}'):
                items.append(cur)
                cur = None
            continue
        if cur is not None:
            cur['src'] += '\n' + l
            if l == '}':
                items.append(cur)
                cur = None
        else:
            head.append(l)
    return '\n'.join(head).replace('/verif/witness', WIT) + '\n', items


def invariants(e):
    """value ranges of the assembler's own fields, inferred from the current source"""
    d = os.path.join(e.run, 'inv')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(e.run, 'inv.tsv')
    text = open(os.path.join(WIT, 'inv.rs')).read().replace('/verif/witness', WIT)
    dropped = []
    for _ in range(8):
        with open(os.path.join(d, 'lib.rs'), 'w') as f:
            f.write(text)
        cmd = [e.analyser, '--out', os.path.join(d, 'out.jsonl'), '--inv-out', out, '--witness-s', '20', '--total-s', '150', '--'] + rustc_args(e, os.path.join(d, 'lib.rs'), d)
        r = sh(cmd, env={'LD_LIBRARY_PATH': sysroot() + '/lib'})
        if r.returncode == 0:
            break
        bad, loose = errors_by_witness(r.stderr, text)
        if not bad:
            raise Broken('invariant inference: ' + (' | '.join(loose) or r.stderr)[-1500:])
        dropped += ['%s is not available: %s' % (n, m[:200]) for n, m in bad.items()]
        text = '\n'.join(l for l in text.split('\n') if not any(l.startswith('fn %s(' % n) for n in bad))
    else:
        raise Broken('invariant inference does not settle')
    recs = [json.loads(l) for l in open(os.path.join(d, 'out.jsonl'))]
    notes = dropped + [n for x in recs for n in x.get('inference_notes', [])]
    e.inv = out
    e.inv_records = recs
    e.inv_notes = notes
    return recs, notes
