"""C05: first-order approaches against dense master equations."""
import itertools
import json

import numpy as np

from lib import grid
from lib import models as M
from lib.ref import master

ID = 'C05'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of a bounded model space on the real code against an independent dense-matrix reference'
NOTE = ('every combination of the listed hoppings, detunings, interactions, coupling patterns, biases, bands, integral types and '
        'kept-state sets for 1-3 levels (selected 4), 1-3 leads, in all eight first-order implementations; the reference '
        'is derived from the published equations and shares no code; parameter values outside the alphabet are not covered')
RULE = ('evaluation = one solve of one approach on one model compared with the reference density matrix, first-order '
        'amplitudes and currents; distinct = different (model, integral type, kept states, approach) with a unique '
        'stationary state')
ASSUMPTIONS = ['integral type 0 is evaluated by qmeq to 1e-6; compared to 1e-5',
               'models whose stationary state is not unique (rank test of the reference) are skipped and counted']


def cases(tier):
    q = tier == 'quick'
    out = []
    for m in M.BASE:
        for it in (0, 1, 2, 3):
            if M.BASE[m]['n'] == 4 and (q and it != 2):
                continue
            out.append(dict(m=m, it=it))
    for m in M.WIDE:
        for it in (0, 1, 2, 3):
            out.append(dict(m=m, it=it))
    for m in grid.one():
        for it in (0, 1, 2, 3):
            out.append(dict(m=m, it=it))
    for m in grid.two():
        for it in (0, 1, 2, 3):
            out.append(dict(m=m, it=it))
    for m in grid.two3():
        for it in (0, 1, 2, 3):
            out.append(dict(m=m, it=it))
    for m in grid.three(2 if q else 1):
        for it in (1, 2) if q else (0, 1, 2, 3):
            out.append(dict(m=m, it=it))
    # cold, hot, weakly coupled and far from equilibrium
    for kind in grid.ELECTRONS:
        for i, m in enumerate(grid.one()+grid.two()[:: 3 if q else 1]+grid.two3()[:: 3 if q else 1]):
            for it in (0, 1, 2, 3) if not q or m['n'] < 2 else (i % 4,):
                out.append(dict(m=grid.extreme(m, kind), it=it))
    for m in grid.single():
        if 'nb' not in m:
            for it in (0, 1, 2, 3):
                out.append(dict(m=m, it=it))
    for m in grid.narrow(q):
        for it in (1, 2) if q else (0, 1, 2, 3):
            out.append(dict(m=m, it=it))
    # levels exactly at an edge of a band (numbers without rounding errors; the principal values diverge)
    for D0, U, it in itertools.product(([-4., 0.5], [0.5, 8.], [-4., 4.], [-4., 1.5], [1.5, 6.]), (0, 1.0), (0, 1, 2, 3)):
        out.append(dict(m=dict(n=2, h={'0,0': 0.5, '1,1': -0.25}, U={'0,1,1,0': U} if U else {}, nl=2, t={'0,0': 0.25, '1,0': 0.125, '1,1': 0.25},
                               mu=[0.25, -0.25], T=[0.5, 0.5], D=[D0, [-4., 4.]]), it=it,
                        kerns=['Pauli', 'pyPauli', 'Lindblad', 'pyLindblad']))
    # every set of kept states and every set of kept coherences
    for m in ('L1', 'D2', 'D2a', 'D2d') + (() if q else ('T3',)):
        n = 2**M.BASE[m]['n']
        for keep in range(1, 2**n):
            for it in (0, 2):
                out.append(dict(m=m, it=it, keep=[i for i in range(n) if keep >> i & 1]))
    T3 = 'T3'
    for mask in range(2**6):
        out.append(dict(m=T3, it=1, coh=mask))
    if q:
        for keep in itertools.combinations(range(8), 2):
            out.append(dict(m=T3, it=2, keep=[i for i in range(8) if i not in keep]))
    return out


def cost(case):
    m = M.model(case['m'])
    return 4**m['n']*m['nl']*(3 if case['it'] == 0 else 1)


def run(case, R):
    it = case['it']
    keep = case.get('keep')
    last = None
    for kern in case.get('kerns', M.FIRST):
        b = M.build(case['m'], kern, itype=it)
        if keep is not None:
            b.si.set_statesdm([[i for i in lst if i in keep] for lst in b.si.chargelst])
        coh = None
        if 'coh' in case:
            pairs = [p for lst in b.si.chargelst for p in itertools.combinations(lst, 2)]
            b.si.remove_coherences([p for i, p in enumerate(pairs) if case['coh'] >> i & 1])
            coh = [p for i, p in enumerate(pairs) if not case['coh'] >> i & 1]
        M.solve(b)
        compare(R, b, kern, keep, coh, it, case)


_cache = {}


def compare(R, b, kern, keep, coh, it, case, tol=None):
    kind = master.KIND[kern.replace('py', '')]
    key = (kind, M.arr(b.Ea).tobytes(), M.arr(b.Tba).tobytes(), str(keep), str(coh), it, M.arr(b.mulst).tobytes(),
           M.arr(b.tlst).tobytes(), M.arr(b.dlst).tobytes(), M.arr(b.baths.Vbbp).tobytes() if hasattr(b, 'baths') else 0,
           json.dumps(case, sort_keys=True))
    if key not in _cache:
        if len(_cache) > 16:
            _cache.clear()
        p = master.from_builder(b, kept=keep, coh=coh)
        with np.errstate(all='ignore'):
            _cache[key] = (p,) + p.solve(kind)
    p, rho, cur, ecur = _cache[key]
    if p.gap < 1e-8 or p.residual > 1e-8:
        R.count('no_unique_stationary_state')
        return None
    R.ev()
    R.nt([case, kern])
    if not R.check(bool(b.success), kern + ':success', 'reported failure'):
        return None
    rt = tol or (1e-5 if it == 0 else 1e-8)
    rt *= max(1.0, 1e-2/p.gap)
    d = M.density(b)
    if keep is not None:
        k = np.zeros(len(d))
        k[keep] = 1
        d = d*np.outer(k, k)
    R.check(M.close(d, rho, rt, 1e-12), kern + ':density', lambda: M.diff(d, rho))
    s = max(np.abs(cur).max(), 1e-5)
    heat = ecur - cur*np.array(b.mulst)
    # currents are compared with the tunnelling rate as the scale
    g = 2*np.pi*max(np.abs(p.T).max()**2, 1e-12)
    R.check(M.close(b.current, cur, rt, rt*g), kern + ':current', lambda: M.diff(b.current, cur))
    R.check(M.close(b.energy_current, ecur, rt, rt*g), kern + ':energy current', lambda: M.diff(b.energy_current, ecur))
    R.check(M.close(b.heat_current, heat, rt, 2*rt*g), kern + ':heat current', lambda: M.diff(b.heat_current, heat))
    R.outcome(np.round(cur, 10).tolist())
    if kind in ('Redfield', 'vN1'):
        ch = p.ch
        for l in range(p.nl):
            for c in range(p.n):
                for a in range(p.n):
                    if p.up[c, a] and p.k[c] and p.k[a]:
                        v = b.get_phi1(l, c, a)
                        w = p.phi1[l][c, a]
                        R.check(abs(v-w) <= rt*np.abs(p.T).max()*4 + 1e-13, kern + ':phi1',
                                lambda: 'lead %d (%d,%d): %s, expected %s' % (l, c, a, v, w))
    return p
