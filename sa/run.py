"""Runs the scenarios of one property and turns the path verdicts into a three-valued result."""
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

from . import interp as _interp
from .lab import Lab, Obl, AnchorMissing, short
from . import wit
from .terms import K, FALSE, TRUE


class Timeout(Exception):
    pass


class Case(object):
    """one scenario: an abstract client function run with one choice of constant parameters and configuration"""

    def __init__(self, name, src, fn, args=(), tier='quick', max_paths=600, limit=150, expect_raise=False, **config):
        self.name, self.src, self.fn, self.args = name, src, fn, tuple(args)
        self.tier, self.max_paths, self.limit, self.config = tier, max_paths, limit, config
        self.expect_raise = expect_raise


class StaticCase(object):
    """one syntactic/dataflow rule: fn(report) with report.ok(id) / report.bad(id, where, why) / report.undecided(id, why)"""

    def __init__(self, name, fn, tier='quick', limit=300):
        self.name, self.fn, self.tier, self.limit = name, fn, tier, limit


class Report(object):
    def __init__(self):
        self.obls, self.functions = [], set()

    def ok(self, id):
        self.obls.append(Obl(id, 'ok'))

    def bad(self, id, where, why):
        self.obls.append(Obl(id, 'bad', '%s: %s' % (where, why)))

    def undecided(self, id, why):
        self.obls.append(Obl(id, 'undecided', why))


def _alarm(sig, frm):
    raise Timeout()


def run_case(case):
    t0 = time.time()
    out = {'name': case.name, 'paths': 0, 'obls': [], 'functions': [], 'error': None, 'missing': None}
    if time.time() > _DEADLINE - 2:
        out['error'] = 'not analysed: the time budget of the run is used up'
        out['wall'] = 0.0
        return out
    L = None
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(max(1, min(case.limit, _DEADLINE - time.time()))))
    try:
        if isinstance(case, StaticCase):
            r = Report()
            case.fn(r)
            for o in r.obls:
                out['obls'].append((o.id, o.verdict, o.detail, '', ''))
            out['functions'] = sorted(r.functions)
        else:
            L = Lab(case.src, max_paths=case.max_paths, seed=int(os.environ.get('VERIF_SEED', '1')), **case.config)
            ps = L.run(case.fn, *case.args)
            out['paths'] = len(ps)
            for p in ps:
                path_obls(L, case, p, out['obls'])
            out['functions'] = sorted(f for f in L.e.functions_seen if f.startswith('infi'))
    except Timeout:
        out['error'] = 'time limit of %d s' % case.limit
        try:
            # the paths completed so far still count
            signal.alarm(max(10, case.limit // 4))
            ps = list(L.e.partial_paths) if L is not None and not out['paths'] else []
            out['paths'] = len(ps)
            for p in ps:
                path_obls(L, case, p, out['obls'])
        except Timeout:
            pass
    except AnchorMissing as x:
        out['missing'] = str(x)
    except RecursionError:
        out['error'] = 'recursion limit of the analyser'
    except MemoryError:
        out['error'] = 'memory'
    except Exception as x:
        out['error'] = 'analyser: %s: %s' % (type(x).__name__, x) + (
            '\n' + traceback.format_exc()[-1500:] if os.environ.get('SA_DEBUG') else '')
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    out['wall'] = time.time() - t0
    return out


def fmt_trace(tr):
    fs = []
    for k in tr:
        m, q, l = k
        fs.append('%s:%s' % (m.replace('infi.instruct.', '').replace('infi.instruct', '__init__'), q))
    return fs


def path_obls(L, case, p, out):
    undecided = bool(p.notes) or p.kind == 'unmodelled'
    why = '; '.join(str(n) for n in p.notes[:2]) or p.note or ''
    tr = list(p.extra.get('trace') or ())
    for o in p.extra.get('obl') or ():
        if o.verdict == 'bad' and p.notes:
            out.append((o.id, 'undecided', 'path with abstraction notes (%s): %s' % (why, o.detail), '', ''))
        else:
            out.append((o.id, o.verdict, o.detail, fmt_trace(o.trace), str(o.loc)))
    if p.kind == 'unmodelled':
        out.append(('modelled', 'undecided', p.note or '', '', ''))
    elif p.kind == 'raise' and not case.expect_raise:
        d = L.e.describe_exc(p.value) if not hasattr(p.value, 'addr') else ' with %s' % getattr(p.final.h(p.value).cls, 'name', '?')
        if p.notes:
            out.append(('no-unexpected-error', 'undecided', why, '', ''))
            return
        r = wit.search(L.e, p.facts, FALSE, TRUE)
        if r[0] == 'bad':
            inputs = dict((str(k), v) for k, v in r[1].vals.items() if hasattr(k, 'name'))
            out.append(('no-unexpected-error', 'bad', 'an operation that must succeed ends%s at %s; e.g. for %s' % (
                d, p.loc, ', '.join('%s=%r' % (k[3:], v) for k, v in sorted(inputs.items())) or 'any input'), fmt_trace(tr), str(p.loc)))
        else:
            out.append(('no-unexpected-error', 'undecided', 'error path%s: %s' % (d, r[1]), '', ''))
    elif p.kind == 'return' and not case.expect_raise:
        out.append(('no-unexpected-error', 'ok', '', '', ''))


def rule(pid):
    return importlib.import_module('sa.rules.' + pid)


def run_property(pid, tier, jobs=None):
    mod = rule(pid)
    cases = [c for c in mod.cases() if tier == 'thorough' or c.tier == 'quick']
    jobs = jobs or min(8, os.cpu_count() or 1)
    global _CASES, _DEADLINE
    _CASES = cases
    budget = float(os.environ.get('SA_BUDGET') or (BUDGET if tier == 'quick' else 4 * 3600))
    _DEADLINE = time.time() + budget
    ctx = multiprocessing.get_context('fork')
    res = [None] * len(cases)
    with ctx.Pool(jobs) as pool:
        it = pool.imap_unordered(_run_idx, range(len(cases)), chunksize=1)
        try:
            for _ in range(len(cases)):
                i, r = it.next(timeout=max(1.0, _DEADLINE + 45 - time.time()))
                res[i] = r
        except multiprocessing.TimeoutError:
            pool.terminate()
    for i, c in enumerate(cases):
        if res[i] is None:
            res[i] = {'name': c.name, 'paths': 0, 'obls': [], 'functions': [], 'error': 'not analysed: the time budget of the run is used up',
                      'missing': None, 'wall': 0.0}
    return mod, cases, res


BUDGET = 660      # seconds for one quick run
_CASES = []
_DEADLINE = float('inf')


def _run_idx(i):
    return i, run_case(_CASES[i])
