#!/usr/bin/env python3
"""check.py <PROPERTY> [--thorough] [-v]: decide one property on the current source under /repo.

exit 0  nothing refuted        exit 1  VIOLATION line(s)        exit 2  an anchor of the property vanished"""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(60000)
import threading
threading.stack_size(512 * 1024 * 1024)


def known():
    out = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: '):
                d = line[len('known: '):].split(' ', 2)
                pid = d[0].split('=', 1)[1]
                key = d[1].split('=', 1)[1]
                out.setdefault(pid, {})[key] = d[2] if len(d) > 2 else ''
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    pid = args[0]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    verbose = '-v' in sys.argv
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    from sa import run
    mod, cases, res = run.run_property(pid, tier)
    missing = [r['missing'] for r in res if r['missing']]
    n = {'ok': 0, 'bad': 0, 'undecided': 0}
    ids, bads, und = {}, {}, {}
    funcs, paths = set(), 0
    for c, r in zip(cases, res):
        funcs.update(r['functions'])
        paths += r['paths']
        if r['error']:
            und.setdefault('%s/scenario' % c.name, r['error'])
            n['undecided'] += 1
        for id, v, d, tr, loc in r['obls']:
            n[v] += 1
            k = '%s/%s' % (c.name, id)
            ids.setdefault(k, set()).add(v)
            if v == 'bad':
                bads.setdefault(k, (c, d, tr, loc))
            elif v == 'undecided':
                und.setdefault(k, d)
    kn = known().get(pid, {})
    viol = dict((k, b) for k, b in bads.items() if k not in kn)
    for k in sorted(bads):
        if k in kn:
            print('KNOWN-FINDING: property=%s %s %s' % (pid, k, kn[k]))
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, pid + '.violation.json')
    if viol:
        with open(replay, 'w') as f:
            json.dump([{'property': pid, 'rule': k, 'finding': d, 'call_path': tr, 'location': loc,
                        'scenario': getattr(c, 'fn', None) if not callable(getattr(c, 'fn', None)) else c.name,
                        'parameters': [repr(a) for a in getattr(c, 'args', ())],
                        'configuration': repr(getattr(c, 'config', {})),
                        'client': getattr(c, 'src', '')} for k, (c, d, tr, loc) in sorted(viol.items())], f, indent=1)
    elif os.path.exists(replay):
        os.remove(replay)
    decided = sum(1 for v in ids.values() if 'ok' in v and 'undecided' not in v and 'bad' not in v)
    cov = {
        'explanation': getattr(mod, 'COVERAGE', '').strip() or mod.__doc__.strip(),
        'rule': (mod.__doc__ or '').strip(),
        'scenarios': len(cases),
        'paths_analysed': paths,
        'obligation_instances': {'held': n['ok'], 'refuted': n['bad'], 'undecided': n['undecided']},
        'obligations': len(ids), 'discharged': decided, 'obligations_with_undecided_paths': len(und), 'obligations_refuted': len(bads),
        'undecided': dict((k, str(v)[:300]) for k, v in list(und.items())[:40]),
        'functions_analysed': sorted(funcs),
        'functions_analysed_count': len(funcs),
        'scenario_names': sorted(set(c.name for c in cases))[:400],
    }
    out = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
           'wall_s': round(time.time() - t0, 3)}
    if viol:
        out['violations'] = len(viol)
    with open(os.path.join(ev, pid + '.json'), 'w') as f:
        json.dump(out, f, indent=1)
    print('%s %s: %d scenarios, %d paths, %d obligations (%d instances held, %d refuted, %d undecided), %d functions, %.1f s' % (
        pid, tier, len(cases), paths, len(ids), n['ok'], n['bad'], n['undecided'], len(funcs), time.time() - t0))
    if verbose:
        for k, d in sorted(und.items()):
            print('  undecided %s: %s' % (k, str(d)[:600]))
        for c, r in zip(cases, res):
            if r['wall'] > 5:
                print('  %6.1f s %4d paths %s' % (r['wall'], r['paths'], c.name))
    for k, (c, d, tr, loc) in sorted(viol.items()):
        print('  %s: %s' % (k, d[:600]))
        if tr:
            print('    call path: %s' % ' > '.join(tr[-12:]))
    if missing:
        for m in sorted(set(missing)):
            print('ANCHOR MISSING: %s' % m)
    if viol:
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    if missing:
        return 2
    return 0


if __name__ == '__main__':
    rc = []

    def body():
        try:
            rc.append(main())
        except SystemExit as e:
            rc.append(e.code)
        except BaseException:
            import traceback
            traceback.print_exc()
            rc.append(2)
    t = threading.Thread(target=body)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)
