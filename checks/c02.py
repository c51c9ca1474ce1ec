"""C02: compiled approaches against their pure-Python counterparts."""
import itertools

import numpy as np

from lib import grid
from lib import models as M

ID = 'C02'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of a bounded model, option and history space; compiled and Python implementations compared on every element'
NOTE = ('all models of the alphabet (1-4 levels, 1-4 leads, with and without phonons) times integral type, indexing, symq, kept '
        'states and short solve/edit histories; kernels, density matrices, first-order amplitudes and currents compared '
        'elementwise; Python RTD and 2vN on up to 3 levels')
RULE = ('evaluation = one state of a history at which a compiled approach and its Python counterpart are compared; distinct = '
        'different (model, options, history, approach)')
ASSUMPTIONS = ['integrals of type 0 agree to the 1e-6 accuracy asked of the quadrature',
               '2vN iterations agree to 1e-7 (fft round-off)']

PAIRS = ['Pauli', 'Lindblad', 'Redfield', '1vN']
TIGHT, QUADTOL = 1e-9, 1e-5

# histories: lists of operations on a solved builder
HIST = {
    'ss': [('solve', {})],
    'mu': [('change', dict(mulst={0: 0.12})), ('solve', {})],
    'he': [('add', dict(hsingle={(0, 0): 0.07})), ('change', dict(tleads={(0, 0): 0.05+0.03j})), ('solve', {})],
    'rm': [('remove_states', 0.9), ('solve', {})],
    'rc': [('remove_coherences', 0.4), ('solve', {})],
    'fk': [('remove_fock_states', [[0]]), ('solve', {})],
    'ua': [('remove_states', 0.9), ('solve', {}), ('use_all_states', None), ('solve', {})],
    'st': [('change', dict(mulst={0: 0.12})), ('solve', dict(masterq=False, currentq=False)), ('solve', dict(qdq=False))],
}


def cases(tier):
    q = tier == 'quick'
    out = []
    for m in M.BASE:
        for it in (0, 1, 2, 3):
            for ix in ('charge', 'Lin'):
                if M.BASE[m]['n'] == 4 and (q and (it != 2 or m == 'F4')) or m == 'S4' and ix == 'Lin':
                    continue
                out.append(dict(m=m, it=it, ix=ix))
    for kind in grid.EXTREME:
        for i, m in enumerate(list(M.PH) if 'bath' in kind else grid.one()+grid.two()[:: 9 if q else 3]+grid.two3()[:: 9 if q else 3]+list(M.PH)):
            m = grid.extreme(m, kind)
            out.append(dict(m=m, it=i % 4, **(dict(ip=2*(i % 2), J=None) if m.get('nb') else {})))
    for i, m in enumerate(grid.single()):
        out.append(dict(m=m, it=i % 4, **(dict(ip=2, J=None) if m.get('nb') else {})))
        if 'nb' not in m:
            out.append(dict(k='RTD', m=grid.real(m), it=1, off=True))
            # degenerate levels at one lead have a dark state, uncoupled levels keep their occupation
            if m['h'].get('0,0') != m['h'].get('1,1') and len(m['t']) == m['n']:
                out.append(dict(k='2vN', m=m, it=1, n=2))
    for m in grid.narrow(q):
        out.append(dict(m=m, it=2))
        out.append(dict(m=m, it=1))
    for m in M.WIDE:
        for it in (0, 1, 2, 3):
            out.append(dict(m=m, it=it))
    for m in M.WIDEPH:
        for it, ip in itertools.product((1, 2), (0, 2)):
            out.append(dict(m=m, it=it, ip=ip, J=None))
            out.append(dict(m=m, it=it, ip=ip, J=[0.6, 3.0]))
    for m in grid.one():
        for it in (0, 1, 2, 3):
            out.append(dict(m=m, it=it))
    for m in grid.two():
        for it in ((0, 1, 2, 3)):
            out.append(dict(m=m, it=it))
    for m in grid.two3() + grid.three(2 if q else 1):
        for it in (1, 2) if q else (0, 1, 2, 3):
            out.append(dict(m=m, it=it))
    for m in ('A2', 'S4') if q else ('A2', 'S4', 'A2s', 'S4s'):
        for ix in ('sz', 'ssq'):
            for it in (1, 2):
                out.append(dict(m=m, it=it, ix=ix))
    for m in ('L1', 'D2', 'D2a', 'D2x3', 'T3'):
        for h in HIST:
            for it in (1, 2):
                for symq in (True, False):
                    out.append(dict(m=m, it=it, h=h, symq=symq))
    for m in ('L1', 'D2', 'D2a', 'D2d', 'A2', 'D2x3', 'T3'):
        for it in (0, 1, 2, 3):
            out.append(dict(m=m, it=it, symq=False))
    for m in ('D2a', 'T3'):
        for mf in (1,):
            out.append(dict(m=m, it=1, mf=mf))
        for norm in (0, 1, 2):
            for sm in ('lsqr', 'solve'):
                for symq in (True, False):
                    out.append(dict(m=m, it=1, norm=norm, sm=sm, symq=symq))
    # states kept
    for keep in range(1, 16):
        out.append(dict(m='D2a', it=1, keep=[i for i in range(4) if keep >> i & 1]))
    for mask in range(2**6):
        out.append(dict(m='T3', it=1, coh=mask))
    # phonons
    for m in M.PH:
        for it, ip in itertools.product((1, 2), (0, 2)):
            for J in (None, [1.0, 1.0], [0.6, 3.0]):
                for h in (None, 'mu', 'he', 'rc', 'ua', 'st'):
                    out.append(dict(m=m, it=it, ip=ip, J=J, h=h))
    for h01 in (0, [0.1, 0.15]):
        for pat in range(1, 16):
            for ip in (0, 2):
                m = dict(M.model('D2'), nb=1, Tph=[0.45], Dph=[[0.003, 9.]])
                m['h'] = {'0,0': 0.15, '1,1': -0.3}
                if h01:
                    m['h']['0,1'] = h01
                amp = {'0,0,0': 0.05, '0,1,1': -0.04, '0,0,1': [0.06, 0.03], '0,1,0': [-0.02, 0.05]}
                m['v'] = {k: amp[k] for i, k in enumerate(amp) if pat >> i & 1}
                out.append(dict(m=m, it=2, ip=ip))
    # RTD
    for m in ('L1', 'L1x3', 'D2', 'D2a', 'D2x3', 'A2') + (() if q else ('T3',)):
        for off in (True, False):
            for h in (None, 'mu', 'he', 'rc', 'ua') if m in ('L1', 'D2', 'D2a') else (None,):
                out.append(dict(k='RTD', m=m, it=1, off=off, h=h))
    for i, m in enumerate(grid.two()):
        if i % (6 if q else 1) == 0:
            out.append(dict(k='RTD', m=m, it=1, off=True))
            out.append(dict(k='RTD', m=grid.real(m), it=1, off=True))
            out.append(dict(k='RTD', m=grid.real(m), it=1, off=False))
    for m in grid.two3()[::3 if q else 1]:
        out.append(dict(k='RTD', m=grid.real(m), it=1, off=True))
    out.append(dict(k='RTD', m=grid.real('T3'), it=1, off=False))
    # which of the leads share a temperature decides how the integrals are evaluated
    for m in (grid.real('L1x3'), grid.real('D2x3'), 'D2x3'):
        for T in itertools.product((.5, .3), repeat=3):
            out.append(dict(k='RTD', m=dict(M.model(m), T=list(T)), it=1, off=True))
    # temperatures which differ by less than rounding tolerances usually allow
    for m in ('L1', 'D2', 'D2x3'):
        for e in (1e-6, 8e-6, 1.2e-5, 1e-4):
            m = grid.real(m)
            out.append(dict(k='RTD', m=dict(m, T=[.5*(1+e*(l == 1)) for l in range(m['nl'])]), it=1, off=True))
    # 2vN
    for m in ('L1', 'L1x3', 'D2', 'D2a', 'D2d', 'D2x3', 'T3'):
        for n in (1, 2, 3):
            if m == 'T3' and n > 1 and q:
                continue
            out.append(dict(k='2vN', m=m, n=n))
            if m in ('D2a', 'D2'):
                for h in ('mu', 'he', 'rc', 'rm', 'ua'):
                    out.append(dict(k='2vN', m=m, n=n, h=h))
    # grids of any size, bands centred away from zero, many leads
    for m in ('L1', 'D2a', 'L1x6'):
        for kp in (5, 8, 17, 33, 50, 100):
            out.append(dict(k='2vN', m=m, n=2, kp=kp))
    out.append(dict(k='2vN', m='D2x5', n=1, kp=33))
    for i, m in enumerate(grid.two()):
        # every level takes part in transport (unique stationary state)
        if i % (5 if q else 2) == 0 and ('0,1' in m['h'] or {k[2] for k in m['t']} == {'0', '1'}):
            out.append(dict(k='2vN', m=m, n=2))
    return out


def cost(case):
    m = M.model(case['m'])
    k = case.get('k', '')
    return 5**m['n']*m['nl']*{'': 1, 'RTD': 30, '2vN': 60*case.get('n', 0)+1}[k]*(3 if case.get('it') == 0 else 1)


def make(case, kern):
    m = M.model(case['m'])
    kw = dict(itype=case.get('it', 2))
    if case.get('J'):
        m['J'] = [case['J']]*m['nb']
    if 'ip' in case:
        kw['itype_ph'] = case['ip']
    if 'ix' in case:
        kw['indexing'] = case['ix']
    if m['n'] > 1 and isinstance(case['m'], str) and case['m'] in M.SPIN:
        kw['symmetry'] = 'spin'
    if 'symq' in case:
        kw['symq'] = case['symq']
    if 'norm' in case:
        kw.update(norm_row=case['norm'], solmethod=case['sm'])
    if 'mf' in case:
        kw['mfreeq'] = case['mf']
    if case.get('k') == '2vN':
        kw = dict(kpnt=case.get('kp', 64))
    b = M.build(m, kern, **kw)
    b.make_kern_copy = True
    if 'off' in case:
        b.off_diag_corrections = case['off']
    if 'keep' in case:
        b.si.set_statesdm([[i for i in lst if i in case['keep']] for lst in b.si.chargelst])
    if 'coh' in case:
        pairs = [p for lst in b.si.chargelst for p in itertools.combinations(lst, 2)]
        b.si.remove_coherences([p for i, p in enumerate(pairs) if case['coh'] >> i & 1])
    return b


def step(b, case, op, arg):
    if op == 'solve':
        kw = dict(arg)
        if case.get('k') == '2vN':
            kw['niter'] = case['n']
        b.solve(**kw)
    elif op == 'use_all_states':
        b.use_all_states()
    elif op == 'remove_fock_states':
        b.remove_fock_states(arg[0])
    elif isinstance(arg, dict):
        getattr(b, op)(**arg)
    else:
        getattr(b, op)(arg)


def observe(b, case):
    s = dict(phi0=M.arr(b.phi0), cur=M.arr(b.current), ecur=M.arr(b.energy_current), heat=M.arr(b.heat_current),
             Ea=M.arr(b.Ea), ok=np.array([float(bool(b.success))]))
    if case.get('k') != '2vN' and not case.get('mf') and b.kern is not None:
        # the row that holds the normalisation condition is restored by one implementation only
        k = M.arr(b.kern)
        s['sv'] = k
        s['kern'] = np.delete(k, case.get('norm', 0) if case.get('symq', True) else len(k)-1, 0)
    if case.get('k') != 'RTD' and b.phi1 is not None:
        s['phi1'] = M.arr(b.phi1)
    return s


def run(case, R):
    kerns = [case['k']] if 'k' in case else PAIRS
    tol = QUADTOL if case.get('it') == 0 or case.get('ip') == 0 else 1e-7 if case.get('k') == '2vN' else 1e-4 if case.get('mf') else TIGHT
    for kern in kerns:
        bs = [make(case, k) for k in (kern, 'py'+kern)]
        ops = [('solve', {})] + (HIST[case['h']] if case.get('h') else [])
        for i, (op, arg) in enumerate(ops):
            for b in bs:
                step(b, case, op, arg)
            if op != 'solve' or arg.get('masterq') is False:
                continue
            a, c = [observe(b, case) for b in bs]
            # the same linear system: differences are amplified by its condition
            f = 1.0
            k = c.pop('sv', None)
            if k is not None and np.isfinite(k).all():
                row = case.get('norm', 0) if case.get('symq', True) else len(k)-1
                n = M.npop(bs[1])
                k[row] = 0
                k[row, :n] = 1
                sv = np.linalg.svd(k, compute_uv=False)
                if sv[-1] < 1e-8*sv[0]:
                    R.count('singular')
                    f = None
                else:
                    f = max(1.0, 1e-3*sv[0]/sv[-1])
            R.ev()
            R.nt([case, kern, i])
            for k in c:
                if k not in a:
                    R.fail(kern+':'+k, 'missing')
                    continue
                if f is None and k not in ('kern', 'Ea'):
                    continue
                if k in ('ecur', 'heat') and np.isnan(c[k]).all() and np.isnan(a[k]).all():
                    continue
                t = tol if k in ('kern', 'Ea') else tol*f
                R.check(M.close(a[k], c[k], t, 1e-12 if k != 'kern' else 1e-14), kern+':'+k,
                        lambda: 'compiled differs from Python after step %d: %s' % (i, M.diff(a[k], c[k])))
            R.outcome(np.round(c['cur'], 10).tolist())
