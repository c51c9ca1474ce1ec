"""C10: histories of solver options."""
import itertools

import numpy as np

from lib import grid
from lib import models as M

ID = 'C10'
LEVEL = 'model_checking'
TECHNIQUE = 'explicit enumeration of all histories of option changes, edits and solves of the real builders against the result of a fresh default solve'
NOTE = ('every sequence of option changes, restrictions of the states and coherences, a parameter edit and solves up to the depth bound on models with 2-8 states, every '
        'combination of options at construction, and models without a unique stationary state; all approaches; longer histories and '
        'other solver names are not covered')
RULE = ('state = (option vector, options at the last solve, edited or not); transition = one option change, edit or solve on the real '
        'builder; every sequence up to the depth is followed by a solve and compared with a fresh builder with default options')
ASSUMPTIONS = ['matrix-free solutions are accurate to the stopping criterion of the scipy solver (2e-3)']

OPS = ['s', 'symF', 'symT', 'n1', 'n2', 'n0', 'solS', 'solL', 'mfT', 'mfF', 'iA', 'iB', 'kc', 'mu']
# histories which change the number of unknowns (no starting vector of the user)
RES = ['s', 'mfT', 'mfF', 'rc', 'rs', 'us', 'symF', 'n1']
RESD = {'rc': lambda b: b.remove_coherences(0.3), 'rs': lambda b: b.remove_states(1.0), 'us': lambda b: b.use_all_states()}
DIRECT = ['s', 'symF', 'symT', 'n1', 'n0', 'solS', 'solL', 'kc', 'mu']


def cases(tier):
    q = tier == 'quick'
    out = []
    first = M.FIRST
    for m in ('D2a', 'T3') if q else ('L1', 'D2', 'D2a', 'D2x3', 'T3'):
        for kern in first:
            if m == 'T3' and kern in M.PY:
                continue
            depth = 3 if q else (4 if m in ('D2a', 'L1') else 3)
            for r in range(1, depth+1):
                if q and r == 3 and (kern in M.PY[1:] or m == 'T3' and kern != 'Redfield'):
                    continue
                if r == 1:
                    out += [dict(m=m, a=kern, h=[o]) for o in OPS]
                else:
                    # one case per first operation(s); the rest is enumerated inside
                    out += [dict(m=m, a=kern, h=list(p), more=min(2, r-1)) for p in itertools.product(OPS, repeat=max(1, r-2))
                            if r > 2 or True]
    for m in ('D2p', 'D2p2'):
        for kern in first:
            out += [dict(m=m, a=kern, h=[o], more=1) for o in OPS]
    for m in ('D2', 'D2a', 'D2x3', 'T3', 'D2p') if not q else ('D2a', 'D2x3', 'D2p'):
        for kern in first:
            for o in RES:
                out.append(dict(m=m, a=kern, h=[o], more=2 if q else 3, ops='res'))
    for kern, m in (('RTD', 'L1'), ('RTD', 'D2'), ('pyRTD', 'L1'), ('2vN', 'L1'), ('py2vN', 'L1'), ('2vN', 'D2')):
        for o in DIRECT:
            out.append(dict(m=m, a=kern, h=[o], more=2 if kern == 'RTD' or not q else 1, ops='direct'))
    # at construction
    for m in ('L1', 'D2', 'D2a', 'D2d', 'D2x3', 'A2', 'T3', 'D2p', 'D2p2', 'T3p'):
        for kern in first + ['RTD', '2vN']:
            if kern == 'RTD' and 'p' in m:
                continue
            if m in ('T3',) and kern in ('2vN', 'RTD') or 'p' in m and kern == '2vN':
                continue
            out.append(dict(m=m, a=kern, k='init'))
    # weak couplings: the rates are many orders of magnitude smaller than the other energies
    for m in ('L1', 'D2', 'D2a', 'D2x3', 'D2p'):
        for kern in first + ['RTD']:
            for x in ('weak', 'weaker') + (() if kern == 'RTD' else ('colder', 'hot')):
                if kern == 'RTD' and m not in ('L1', 'D2'):
                    continue
                out.append(dict(m=m, a=kern, k='init', x=x))
    for kern in first + ['RTD']:
        for h01 in (0,):
            for pat in ('none', 'one', 'dark'):
                out.append(dict(a=kern, k='singular', pat=pat))
    return out


def cost(case):
    if case.get('k') == 'singular':
        return 20
    m = M.model(case['m'])
    return 4**m['n']*len(RES if case.get('ops') == 'res' else OPS)**case.get('more', 0)*(1 if case['a'] in M.COMP else 4)


MU = 0.13
_ref = {}


def make(case, **kw):
    kern = case['a']
    a = dict(itype=1)
    if kern in M.VN2:
        a = dict(kpnt=32)
    if 'p' in str(case.get('m')):
        a['itype_ph'] = 2
    a.update(kw)
    m = case['m']
    return M.build(grid.extreme(m, case['x']) if 'x' in case else m, kern, **a)


def reference(case, edited, res=()):
    k = (case['m'], case.get('x'), case['a'], edited, tuple(res))
    if k not in _ref:
        b = make(case)
        if case.get('ops') == 'res':
            b.solve(masterq=False)
        for o in res:
            RESD[o](b)
        if edited:
            b.change(mulst={0: MU})
        M.solve(b)
        _ref[k] = (M.density(b), M.currents(b))
    return _ref[k]


def init(b, which):
    n = M.npop(b)
    x = np.zeros(n if b.kerntype in M.NO_COH else int(b.si.ndm0r))
    if which == 'iA':
        x[n-1] = 1
    else:
        x[:n] = 1.0/n
        x[n:] = 0.01
    return x


def apply(b, o):
    if o == 's':
        M.solve(b)
    elif o in ('symF', 'symT'):
        b.symq = o == 'symT'
    elif o[0] == 'n':
        b.norm_row = int(o[1])
    elif o in ('solS', 'solL'):
        b.solmethod = {'S': 'solve', 'L': 'lsqr'}[o[-1]]
    elif o in ('mfT', 'mfF'):
        b.mfreeq = o == 'mfT'
    elif o[0] == 'i':
        b.phi0_init = init(b, o)
    elif o == 'kc':
        b.make_kern_copy = True
    elif o == 'mu':
        b.change(mulst={0: MU})
    else:
        RESD[o](b)


def final(R, case, b, edited, tag, mf, solved=False, res=()):
    if not solved:
        M.solve(b)
    kern = case['a']
    rho, cur = reference(case, edited, res)
    R.ev()
    if not R.check(bool(b.success), '%s:%s:success' % (kern, tag), lambda: 'solve reported failure'):
        return
    tol = 3e-3 if mf else 1e-7
    R.check(abs(M.arr(b.phi0)[:M.npop(b)].real.sum()-1) < (1e-3 if mf else 1e-9), '%s:%s:trace' % (kern, tag), 'not normalised')
    d, c = M.density(b), M.currents(b)
    R.check(M.close(d, rho, tol, 1e-11), '%s:%s:density' % (kern, tag), lambda: M.diff(d, rho))
    for i, nm in enumerate(('current', 'energy current', 'heat current')):
        if np.isnan(cur[i]).all() and np.isnan(c[i]).all():
            continue
        g = 2*np.pi*np.abs(b.Tba).max()**2
        R.check(M.close(c[i], cur[i], tol, tol*g), '%s:%s:%s' % (kern, tag, nm), lambda: M.diff(c[i], cur[i]))
    R.outcome(np.round(cur[0], 8).tolist())


def run(case, R):
    k = case.get('k')
    if k == 'init':
        construct(case, R)
        return
    if k == 'singular':
        singular(case, R)
        return
    ops = {'direct': DIRECT, 'res': RES}.get(case.get('ops'), OPS)
    for rest in itertools.product(ops, repeat=case.get('more', 0)):
        h = list(case['h'])+list(rest)
        b = make(case)
        R.trace()
        edited, res = False, []
        if ops is RES:
            b.solve(masterq=False)
        opt = dict(sym=True, n=0, sol=None, mf=False, i=None, kc=False)
        last = None
        for o in h:
            apply(b, o)
            R.step()
            if o == 's':
                last = dict(opt)
                final(R, case, b, edited, 'history', opt['mf'], solved=True, res=res)
            elif o == 'mu':
                edited = True
            elif o in RESD:
                res.append(o)
            elif o[:3] == 'sym':
                opt['sym'] = o[3] == 'T'
            elif o[0] == 'n':
                opt['n'] = o
            elif o[:3] == 'sol':
                opt['sol'] = o
            elif o[:2] == 'mf':
                opt['mf'] = o == 'mfT'
            elif o == 'kc':
                opt['kc'] = True
            else:
                opt['i'] = o
            R.state([case['m'], case['a'], sorted(opt.items(), key=str), str(last), edited, res])
        final(R, case, b, edited, 'history', opt['mf'], res=res)


def construct(case, R):
    kern = case['a']
    b0 = make(case)
    n = M.npop(b0)
    for symq, row, sol in itertools.product((True, False), range(min(n, 8)), (None, 'solve', 'lsqr', 'lsmr')):
        b = make(case, symq=symq, norm_row=row, solmethod=sol)
        R.state([case, symq, row, sol])
        R.step()
        final(R, case, b, False, 'construction', False)
    if kern in M.FIRST and 'x' not in case:
        for row, sol, i in itertools.product((0, n-1), (None, 'krylov'), (None, 'iA', 'iB')):
            b = make(case, mfreeq=True, norm_row=row, solmethod=sol, phi0_init=None if i is None else init(b0, i))
            R.state([case, 'mf', row, sol, i])
            R.step()
            final(R, case, b, False, 'construction/mfree', True)


def singular(case, R):
    """no unique stationary state: what is reported as success must be normalised and stationary."""
    m = M.model('D2')
    m['h'] = {'0,0': 0.15, '1,1': -0.3}
    m['U'] = {}
    m['t'] = {'none': {}, 'one': {'0,0': 0.1, '1,0': 0.05}, 'dark': {'0,0': 0.1, '0,1': 0.1, '1,0': 0.05, '1,1': 0.05}}[case['pat']]
    if case['pat'] == 'dark':
        m['h'] = {'0,0': 0.1, '1,1': 0.1}
    kern = case['a']
    good = dict(m, t={'0,0': 0.11, '0,1': 0.03, '1,1': 0.09})
    for symq, row, sol in itertools.product((True, False), (0, 1), (None, 'solve', 'lsqr')):
        b = M.build(m, kern, itype=1, symq=symq, norm_row=row, solmethod=sol)
        b.make_kern_copy = True
        with np.errstate(all='ignore'):
            M.solve(b)
        R.trace()
        R.step()
        R.state([case, symq, row, sol])
        if b.success:
            n = M.npop(b)
            x = M.arr(b.phi0)
            K = M.arr(b.kern)
            r = row if symq else len(K)-1
            s = max(np.abs(np.delete(K, r, 0)).max(), 1e-12)
            # round-off in a singular system may be amplified, but not hidden
            z = max(1.0, np.abs(x).max()) if np.isfinite(x).all() else 1.0
            R.check(bool(np.isfinite(x).all()) and abs(x[:n].real.sum()-1) < 1e-6*z, kern+':singular:trace',
                    lambda: 'success with populations %s' % x[:n])
            if np.isfinite(x).all():
                v = np.abs(np.delete(K, r, 0) @ x)
                R.check(v.max() <= 1e-6*s*z, kern+':singular:stationary', lambda: 'success, but kernel times state is %.2e of %.2e' % (v.max(), s))
        else:
            R.count('failure_reported')
        # the failure is not sticky
        b.change(tleads={(0, 0): 0.11, (0, 1): 0.03, (1, 0): 0, (1, 1): 0.09}, hsingle={(0, 0): 0.15, (1, 1): -0.3})
        M.solve(b)
        f = M.solve(M.build(dict(good, h={'0,0': 0.15, '1,1': -0.3}), kern, itype=1))
        R.check(bool(b.success), kern+':after failure:success', 'solvable model after a singular one reported as failure')
        R.check(M.close(M.density(b), M.density(f), 1e-8, 1e-11), kern+':after failure:density', lambda: M.diff(M.density(b), M.density(f)))
        R.check(M.close(b.current, f.current, 1e-7, 1e-12), kern+':after failure:current', lambda: M.diff(b.current, f.current))
        R.ev()
