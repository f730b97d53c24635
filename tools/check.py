#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property on /repo's current tree by static analysis.

Exit 0: no violation found. Exit 1: a line `VIOLATION property=<id> replay=<path>`.
"""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine as E
import suites

EVID = os.path.join(E.ROOT, 'evidence')
KNOWN = os.path.join(E.ROOT, 'KNOWN_FINDINGS.txt')


def known_keys():
    keys = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith('known: '):
                f = dict(x.split('=', 1) for x in l[7:].strip().split('\t') if '=' in x)
                keys[(f['property'], f['key'])] = f.get('what', '')
    return keys


def main():
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    report = suites.Report(prop, tier, seed)
    lk = E.lock()
    try:
        for k, profile in enumerate(E.PROFILES):
            # the first profile may use two thirds of the time; the second what is left
            e = E.setup(profile, t0 + E.TOTAL_S * (2 + k) / 3)
            report.profile = profile
            n = len(report.findings)
            E.invariants(e)
            if e.inv_notes:
                report.undecided.append(('invariant inference', '; '.join(e.inv_notes[:5])))
            suites.run(prop, e, report)
            for f in report.findings[n:]:
                f['detail'] = '(%s build) %s' % (profile, f['detail'])
            if len(report.findings) > n:
                break
    except E.Broken as x:
        report.findings.append(dict(where='setup', kind='broken', detail='nothing could be decided: %s' % x, site=''))
    except Exception:
        print('ERROR: the analysis failed: ' + traceback.format_exc()[-1500:])
        sys.exit(2)
    finally:
        lk.close()
    report.floors()
    keys = known_keys()
    new, old = [], []
    for f in report.findings:
        k = (prop, '%s|%s' % (f['where'], f['kind']))
        (old if k in keys else new).append((f, keys.get(k)))
    for f, what in old:
        print('KNOWN-FINDING: property=%s %s' % (prop, what or f['detail']))
    cov = report.coverage()
    ev = dict(property=prop, tier=tier, seed=seed, level='other', coverage=cov, assumptions=suites.ASSUMPTIONS,
              wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for w, d in report.undecided[:20]:
        print('UNDECIDED: %s: %s' % (w, d))
    print('%s: %d witness programs, %d paths, %d obligations, %d undecided, %d findings, %.1f s' % (
        prop, cov['witness_programs'], cov['abstract_paths'], cov['obligations'], len(report.undecided), len(new), time.time() - t0))
    if new:
        rp = os.path.join(EVID, 'replay-%s.json' % prop)
        with open(rp, 'w') as f:
            json.dump(dict(property=prop, command='python3 tools/check.py %s' % prop, findings=[x[0] for x in new[:200]]), f, indent=1)
        shown = set()
        for f, _ in new:
            k = (f['where'], f['site'])
            if k in shown or len(shown) >= 12:
                continue
            shown.add(k)
            print('  %s: [%s] %s%s' % (f['where'], f['kind'], f['detail'][:600], ('\n      at ' + f['site'][:600]) if f.get('site') else ''))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    main()
