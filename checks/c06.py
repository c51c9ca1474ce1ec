"""C06: normalisation, conservation laws and positivity."""
import itertools

import numpy as np

from lib import grid
from lib import models as M

ID = 'C06'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of a bounded model, option and history space; invariants monitored on every solved state'
NOTE = ('every model of the alphabet (1-4 levels, 1-4 leads, with and without phonons) times approach, integral type, indexing, '
        'kept states, symq and short edit histories; the invariants are evaluated on every stationary state reported as success')
RULE = ('evaluation = one solved state of one approach on which the invariants are evaluated; distinct = different (model, '
        'options, history step, approach)')
ASSUMPTIONS = ['2vN conserves charge to the accuracy of its energy grid (1e-6)']

HIST = [('change', dict(mulst={0: 0.12})), ('add', dict(hsingle={(0, 0): 0.07})),
        ('change', dict(tleads={(0, 0): 0.05+0.03j})), ('remove_states', 1.1), ('use_all_states', None),
        ('remove_coherences', 0.3)]


def cases(tier):
    q = tier == 'quick'
    out = []
    for m in M.BASE:
        for it in (0, 1, 2, 3):
            for ix in ('charge', 'Lin'):
                if M.BASE[m]['n'] == 4 and (q and (it != 1 or m == 'F4') or ix == 'Lin'):
                    continue
                out.append(dict(m=m, it=it, ix=ix))
    for m, ix in (('A2', 'sz'), ('S4', 'sz'), ('S4', 'ssq'), ('A2s', 'sz'), ('A2s', 'ssq'), ('S4s', 'ssq')):
        for it in (0, 1, 2) if m[0] == 'A' else (1,):
            out.append(dict(m=m, it=it, ix=ix))
    for m in grid.one() + grid.two():
        for it in (0, 1, 2, 3):
            out.append(dict(m=m, it=it))
    for m in grid.two3() + grid.three(2 if q else 1):
        for it in (1, 2):
            out.append(dict(m=m, it=it))
    for m in ('L1', 'D2', 'D2a', 'D2x3', 'T3', 'D2p', 'D2p2'):
        for r in range(1, 3 if q else 4):
            for h in itertools.permutations(range(len(HIST)), r):
                out.append(dict(m=m, it=1, h=list(h)))
    for m in M.PH:
        for it, ip in itertools.product((0, 1, 2), (0, 2)):
            out.append(dict(m=m, it=it, ip=ip))
    for kind in grid.EXTREME:
        for i, m in enumerate(list(M.PH) if 'bath' in kind else grid.one()+grid.two()[:: 5 if q else 2]+grid.two3()[:: 5 if q else 2]+list(M.PH)):
            m = grid.extreme(m, kind)
            out.append(dict(m=m, it=i % 4, **(dict(ip=2*(i % 2)) if m.get('nb') else {})))
            if not m.get('nb') and i % 3 == 0:
                out.append(dict(k='RTD', m=grid.real(m), off=bool(i % 2)))
    # every set of kept states of two levels
    for m in ('D2', 'D2a'):
        for keep in range(1, 16):
            out.append(dict(m=m, it=1, keep=[i for i in range(4) if keep >> i & 1]))
    for keep in range(1, 256, 3 if q else 1):
        out.append(dict(m='T3', it=1, keep=[i for i in range(8) if keep >> i & 1]))
    for i, m in enumerate(grid.two()):
        if i % (2 if q else 1) == 0:
            for off in (True, False):
                out.append(dict(k='RTD', m=grid.real(m), off=off))
            out.append(dict(k='RTD', m=m, off=True))
    for m in ('L1', 'L1x3', 'D2', 'D2a', 'D2d', 'D2x3', 'A2', 'T3'):
        for off in (True, False):
            out.append(dict(k='RTD', m=m, off=off))
            out.append(dict(k='RTD', m=grid.real(m), off=off))
        if m in ('L1', 'D2', 'D2a') or not q:
            for r in range(1, 3):
                for h in itertools.permutations(range(len(HIST)), r):
                    out.append(dict(k='RTD', m=grid.real(m), off=True, h=list(h)))
    for m in grid.three(16 if q else 4):
        out.append(dict(k='RTD', m=grid.real(m), off=True))
    for m in grid.one():
        if m['nl'] > 1 or not q:
            out.append(dict(k='RTD', m=grid.real(m), off=True))
            out.append(dict(k='2vN', m=m, n=2))
    for i, m in enumerate(grid.two()):
        # every level takes part in transport
        if '0,1' in m['h'] or {k[2] for k in m['t']} == {'0', '1'}:
            if i % (3 if q else 1) == 0:
                out.append(dict(k='2vN', m=m, n=i % 3 + 1))
    for m in ('L1', 'L1x3', 'D2', 'D2a', 'D2d', 'D2x3', 'T3'):
        for n in (1, 2, 4):
            out.append(dict(k='2vN', m=m, n=n if m != 'T3' else 1))
    return out


def cost(case):
    m = M.model(case['m'])
    k = case.get('k', '')
    return 5**m['n']*m['nl']*{'': 1, 'RTD': 6, '2vN': 20*case.get('n', 0)+1}[k]*(3 if case.get('it') == 0 else 1)


def run(case, R):
    k = case.get('k')
    kerns = M.FIRST if k is None else [k] if k == '2vN' else ['RTD'] + (['pyRTD'] if M.model(case['m'])['n'] < 2 else [])
    if k is None and ('h' in case or M.model(case['m'])['n'] > 2):
        kerns = M.COMP
    for kern in kerns:
        for symq in ((True, False) if k is None and 'h' not in case else (True,)):
            kw = {}
            if k != '2vN':
                kw.update(itype=case.get('it', 1), symq=symq)
            if 'ip' in case:
                kw['itype_ph'] = case['ip']
            if 'ix' in case:
                kw['indexing'] = case['ix']
            if isinstance(case['m'], str) and case['m'] in M.SPIN:
                kw['symmetry'] = 'spin'
            b = M.build(case['m'], kern, **kw)
            b.make_kern_copy = True
            if 'off' in case:
                b.off_diag_corrections = case['off']
            if 'keep' in case:
                b.si.set_statesdm([[i for i in lst if i in case['keep']] for lst in b.si.chargelst])
            skw = dict(niter=case['n']) if k == '2vN' else {}
            M.solve(b, **skw)
            check(R, b, kern, case, symq, 0)
            for i, o in enumerate(case.get('h', ())):
                op, arg = HIST[o]
                if op == 'use_all_states':
                    b.use_all_states()
                elif isinstance(arg, dict):
                    getattr(b, op)(**arg)
                else:
                    getattr(b, op)(arg)
                M.solve(b, **skw)
                b.make_kern_copy = True
                check(R, b, kern, case, symq, i+1)


def check(R, b, kern, case, symq, i):
    kind = kern.replace('py', '')
    m = M.model(case['m'])
    n = M.npop(b)
    if not b.success:
        R.count('reported_failure_'+kern)
        return
    phi0 = M.arr(b.phi0)
    K = None
    if kind != '2vN':
        K = M.arr(b.kern)
        row = 0 if symq else len(K)-1
        L = np.delete(K, row, 0)
        # a model without a unique stationary state: the reported answer is not determined
        A = K.copy()
        A[row] = 0
        A[row, :n] = 1
        sv = np.linalg.svd(A, compute_uv=False)
        if sv[-1] < 1e-9*sv[0]:
            R.count('no_unique_stationary_state_'+kern)
            return
    R.ev()
    R.nt([case, kern, symq, i])
    p = phi0[:n].real
    # members of a spin multiplet share one entry
    tr = p.sum() if case.get('ix') != 'ssq' else np.trace(M.density(b)).real
    R.check(abs(tr-1) < 1e-9, kern+':trace', lambda: 'populations sum to %r' % tr)
    if K is not None:
        s = np.abs(L).max() if L.size else 0
        r = np.abs(L @ phi0.real if np.isrealobj(phi0) else L @ phi0)
        # the normalisation condition has elements of one: its rounding errors do not scale with the kernel
        R.check(len(r) == 0 or r.max() <= max(1e-10*s, 2e-15)*max(1, np.abs(phi0).max()), kern+':stationary',
                lambda: 'kernel times state is %.2e of %.2e' % (r.max(), s))
        if not symq:
            c = np.abs((K[-1][:n, None]*K[:n]).sum(axis=0))
            R.check(c.max() <= 1e-10*max(s, 1e-300), kern+':probability', lambda: 'population rows of the kernel sum to %.2e' % c.max())
    cur, ecur, heat = M.arr(b.current), M.arr(b.energy_current), M.arr(b.heat_current)
    T = max(np.abs(b.Tba).max(), 1e-6)
    g = 2*np.pi*T**2
    sc = max(np.abs(cur).max(), g*1e-2)
    ctol = 1e-9 if kind != '2vN' else 2e-6
    # near-singular kernels amplify round-off
    if K is not None:
        ctol *= max(1.0, 1e-4*sv[0]/sv[-1])
    mu = M.arr(b.mulst)
    inb = all(cur[l] == 0 or np.isfinite(cur[l]) for l in range(len(cur)))
    R.check(inb, kern+':finite', lambda: str(cur))
    if case.get('it') == 0 or kind != 'RTD' or True:
        R.check(abs(cur.sum()) <= ctol*sc, kern+':charge', lambda: 'currents %s sum to %.3e' % (cur, cur.sum()))
    if not (kind == 'RTD' and np.isnan(ecur).all()):
        R.check(M.close(heat, ecur-mu*cur, 1e-12, 1e-15), kern+':heat', lambda: M.diff(heat, ecur-mu*cur))
        if kind == 'Pauli' and not hasattr(b, 'baths') or kind == 'RTD' and case.get('off') is False:
            es = max(np.abs(ecur).max(), sc*max(1e-2, np.abs(M.arr(b.Ea).real).max()))
            R.check(abs(ecur.sum()) <= max(ctol, 1e-9)*es, kern+':energy', lambda: 'energy currents %s sum to %.3e' % (ecur, ecur.sum()))
    if kind in ('Pauli', 'Lindblad'):
        eps = 1e-12+(0 if K is None else 1e-15*sv[0]/sv[-1])     # rounding errors grow with the condition of the kernel
        R.check(p.min() >= -eps, kern+':negative', lambda: 'population %r' % p.min())
        if kind == 'Lindblad':
            w = np.linalg.eigvalsh(M.density(b)) if 'keep' not in case and 'h' not in case else np.zeros(1)
            R.check(w.min() >= -1e-10-100*eps, kern+':positive', lambda: 'eigenvalue %r' % w.min())
    R.outcome([kind, np.round(cur, 10).tolist()])
