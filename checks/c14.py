"""C14: work sharing and interleavings of the compiled approaches under a deterministic OpenMP runtime."""
import itertools
import json
import os
import subprocess
import sys

import numpy as np

from lib import sched
from lib.sched import scen

ID = 'C14'
LEVEL = 'model_checking'
TECHNIQUE = ('stateless model checking of the real compiled code: thread teams run as coroutines under a controlled scheduler, every '
             'memory access of every virtual thread between barriers is recorded (compiler instrumentation), partial-order argument: '
             'without conflicting accesses all interleavings of a team are one trace; team sizes and thread orders enumerated')
NOTE = ('every team size from one to one thread per work item (up to 64), teams smaller than requested, all thread orders for up to '
        'four threads (identity, reversal and rotations above), changes of the thread count between solves; footprints are per byte; '
        'accesses outside the instrumented extension modules (NumPy, LAPACK: never inside a region) are not seen')
RULE = ('state = footprint (reads/writes per byte and thread) of one region phase; transition = segment of one virtual thread up to a '
        'barrier; trace = complete solve history under one (team sizes, orders) plan; every trace must be free of conflicts and '
        'give the single-thread kernel, density matrix and currents')
ASSUMPTIONS = ['several threads may store the same constant in the same location if none reads it in that phase (idempotent flag)',
               'sums over per-thread copies may be rounded differently: results compared to 1e-9 of the largest element',
               'the runtime stand-in is validated by running the same solves under the real libgomp']

_tree = None


def cases(tier):
    global _tree
    _tree = sched.build()
    q = tier == 'quick'
    out = []

    def add(m, kern, **kw):
        out.append(dict(m=m, kern=kern, kw=kw))
    for kern in ('Pauli', 'Lindblad', 'Redfield', '1vN'):
        for m in ('L1x3', 'D2', 'D2a', 'D2d', 'D2x3', 'T3'):
            add(m, kern)
        add('D2', kern, symq=False)
        add('D2a', kern, mfreeq=True)
        add('T3', kern, indexing='Lin')
        add('S4s', kern, indexing='ssq')
        add('A2', kern, indexing='sz')
        add('S4', kern)
        add('D2p', kern)
        add('D2p2', kern)
        add('T3p', kern)
        if not q:
            add('F4', kern)
            add('S4s', kern, indexing='sz')
            add('T3', kern, symq=False)
            add('D2p', kern, mfreeq=True)
    for m in ('L1', 'L1x3', 'D2', 'D2r', 'T3r') + (() if q else ('T3', 'S4r')):
        for off in (True, False):
            add(m, 'RTD', attr=dict(off_diag_corrections=off))
    add('D2', '2vN')
    return out


def cost(case):
    return {'L': 1, 'D': 3, 'A': 5, 'T': 20, 'S': 100, 'F': 60}[case['m'][0]]*(10 if case['kern'] == 'RTD' else 1)


def plans(n, tier, small):
    """(thread count, team limit, order) per solve."""
    out = [[(1, 64, [])]]
    for t in range(2, 5):
        for p in itertools.permutations(range(t)):
            out.append([(t, 64, list(p))])
    big = [5, 6, 7, 8, 11, 16, 23, 32, 48, 64] if not small else [8, 64]
    for t in sorted(set(x for x in big+[n] if 4 < x <= 64)):
        e = list(range(t))
        out += [[(t, 64, e)], [(t, 64, e[::-1])], [(t, 64, e[t//3:]+e[:t//3])]]
    for t in (2, 3, 4, 8):
        for lim in range(1, t):
            out.append([(t, lim, list(range(t))[::-1])])
    # histories: the number of threads changes between solves
    for a, b in itertools.product((1, 2, 3, 8), repeat=2):
        out.append([(a, 64, []), (b, 64, [1, 0])])
    for a, b, c in itertools.product((1, 3, 4), repeat=3):
        out.append([(a, 64, []), (b, 64, [2, 0, 1]), (c, 64, [1, 2, 0, 3])])
        if a != c:
            out.append([(a, 64, []), (b, 64, [2, 0, 1]), (c, 64, [1, 2, 0, 3]), (b, 2, [1, 0])])
    return out


def worker(case, ps, real=None):
    global _tree
    if _tree is None:
        _tree = sched.build()
    tree, lib = _tree
    root = os.environ['VERIF_TREE'] if real else tree
    env = dict(os.environ, PYTHONPATH=root + os.pathsep + os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
               VERIF_TREE_TS=root, VERIF_VSCHED='' if real else lib)
    if real:
        env['OMP_NUM_THREADS'] = str(real)
        env['OMP_DYNAMIC'] = 'false'
    r = subprocess.run([sys.executable, '-B', '-m', 'lib.sched.worker'], input=json.dumps(dict(case=case, plans=ps)),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, timeout=600)
    if r.returncode:
        raise RuntimeError('worker failed (%d): %s' % (r.returncode, r.stderr[-1500:]))
    return json.loads(r.stdout)


def arr(o):
    return {k: (np.array([float(x) for x in v]) if isinstance(v, list) else v) for k, v in o.items()}


def run(case, R):
    small = case['m'][0] in 'SF' or case['kern'] == 'RTD' and case['m'][0] == 'T'
    # one thread per element of the kernel
    n0 = 4**{'L': 1, 'D': 2, 'A': 2, 'T': 3, 'S': 4, 'F': 4}[case['m'][0]]
    ps = plans(min(64, n0), None, small)
    if small and case['m'][0] in 'SF':
        ps = [p for i, p in enumerate(ps) if len(p) == 1 or i % 9 == 0]
    res = worker(case, ps)
    base = {}
    for p, r in zip(ps, res):
        if len(p) not in base and all(x[0] == 1 for x in p):
            base[len(p)] = arr(r['obs'])
    need = sorted({len(p) for p in ps} - set(base))
    for k in need:
        base[k] = arr(worker(case, [[(1, 64, [])]*k])[0]['obs'])
    kern = case['kern']
    for p, r in zip(ps, res):
        reg, seg, acc, words, shared, benign, conf, digest = r['stats']
        R.trace()
        R.step(seg)
        R.state([case['m'], kern, case['kw'], digest])
        R.count('accesses_recorded', acc)
        R.count('idempotent_writes', benign)
        R.ev()
        R.check(conf == 0, '%s:conflict' % kern, lambda: 'plan %s: %d conflicting words: %s' % (p, conf, ' | '.join(r['msgs'])[:900]))
        R.count('parallel_regions', reg)
        same(R, arr(r['obs']), base[len(p)], '%s:result' % kern, 'plan %s' % p)
    # the stand-in against the real runtime
    for t in (1, 4):
        real = arr(worker(case, [[(1, 64, [])]], real=t)[0]['obs'])
        same(R, real, base[1], '%s:real runtime' % kern, 'libgomp with %d threads' % t)
    R.outcome(np.round(np.nan_to_num(base[1]['cur']), 9).tolist())


def same(R, a, b, key, what):
    R.check(a['ok'] == b['ok'], key, lambda: '%s: success %s, one thread %s' % (what, a['ok'], b['ok']))
    for f in ('kern', 'phi0', 'cur'):
        x, y = a[f], b[f]
        ok = x.shape == y.shape and np.array_equal(np.isnan(x), np.isnan(y))
        if ok:
            x, y = np.nan_to_num(x), np.nan_to_num(y)
            s = np.max(np.abs(y)) if y.size else 0
            ok = bool(np.all(np.abs(x-y) <= 1e-9*s + 1e-300))
        R.check(ok, key + ':' + f, lambda: '%s: %s differs from one thread' % (what, f))
