"""C07: equilibrium and the second law."""
import itertools

import numpy as np

from lib import grid
from lib import models as M

ID = 'C07'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of a bounded model and bias space; equilibrium and entropy invariants monitored on every solved state'
NOTE = ('every model of the alphabet at three equilibrium points (currents, populations; for approaches with coherences the '
        'deviation must scale away with the coupling as the order of the approach demands), and a product of biases and '
        'temperatures for the entropy production')
RULE = ('evaluation = one solve of one approach at one operating point; distinct = different (model, operating point, approach)')
ASSUMPTIONS = ['approaches with coherences are thermodynamically consistent to leading order in the coupling: deviations relative '
               'to the tunnelling rate must fall at least as its first power (RTD: squared; nondegenerate models, equal symmetric bands)']

EQ = [(0.1, 0.4), (-0.35, 0.7), (0.8, 0.3)]
# Pauli only (its thermal state does not need weak coupling): cold, very cold, hot, far above and below the levels
EQX = [(0.1, 0.05), (0.0, 0.01), (0.2, 30.), (6., 0.4), (-20., 1.)]
MUX = [(0, 0, 0), (0.3, -0.3, 0.1), (6., -6., 2.)]
TX = [(.02, .02, .02), (.02, 2., .4), (30., .3, .5), (1e-3, 1e-3, .1)]
MUS = [(0, 0, 0), (0.3, -0.3, 0.1), (1e-3, -1e-3, 0), (-0.6, 0.2, 0.2), (2., -2., 0.5)]
TS = [(.4, .4, .4), (.2, .8, .4), (.4, .43, .4), (1.0, .3, .5)]
PERM = [(0, 1, 2), (1, 0, 2), (2, 1, 0)]


def models(q):
    out = list(M.BASE) + list(M.PH)
    # level spacings above and below the phonon bands
    out += [dict(M.model(m), Dph=[b]*M.model(m)['nb']) for m in M.PH for b in ([0.01, 0.3], [0.02, 0.7], [0.5, 1.0])]
    out += [m for m in grid.one() if m['nl'] > 1][::3]
    two = grid.two()
    # bias and temperature are set below
    seen = set()
    for m in two:
        k = str([m['h'], m['U'], m['t'], m['D']])
        if k not in seen:
            seen.add(k)
            out.append(m)
    out += grid.two3() + grid.three(4 if q else 1)
    out += grid.single()
    return out


def cases(tier):
    q = tier == 'quick'
    out = []
    for m in models(q):
        n = M.model(m)['n']
        if n == 4 and q and m == 'F4':
            continue
        for e in range(len(EQ)):
            for it in (0, 1, 2, 3) if n < 3 else (1,) if n == 4 else (1, 2):
                out.append(dict(k='eq', m=m, e=e, it=it))
            if n < 4 and 'nb' not in M.model(m):
                out.append(dict(k='rtd', m=m, e=e))
        if n < 4:
            for i in range(len(MUS)):
                out.append(dict(k='2nd', m=m, mu=i))
        if n == 1:
            for e in range(len(EQ)):
                out.append(dict(k='2vN', m=m, e=e))
    for m in models(q):
        n = M.model(m)['n']
        if n < 4:
            for e in range(len(EQX)):
                out.append(dict(k='eq', m=m, e=len(EQ)+e, it=1 if n > 1 else e % 4))
            for i in range(len(MUX)):
                out.append(dict(k='2nd', m=m, mu=len(MUS)+i))
    for m, ix in (('S4', 'ssq'), ('S4', 'sz'), ('A2s', 'ssq'), ('S4s', 'sz'), ('S4s', 'ssq')):
        for e in range(len(EQ)):
            out.append(dict(k='eq', m=m, e=e, it=1, ix=ix))
    return out


def cost(case):
    m = M.model(case['m'])
    return 5**m['n']*m['nl']*{'eq': 2, 'rtd': 4, '2nd': 4, '2vN': 40}[case['k']]


def scaled(m, lam, mu, T, Tph=None):
    m = M.model(m)
    nl = m['nl'] if not len(m['mu']) < m['nl'] else len(m['mu'])
    m['mu'] = [mu]*nl if np.isscalar(mu) else (list(mu)*2)[:nl]
    m['T'] = [T]*nl if np.isscalar(T) else (list(T)*2)[:nl]
    if 'Tph' in m:
        m['Tph'] = [T if Tph is None else Tph]*m['nb']
        m['v'] = {k: M.jv(M.cv(v)*lam) for k, v in m['v'].items()}
    m['t'] = {k: M.jv(M.cv(v)*lam) for k, v in m['t'].items()}
    return m


def do(R, case, m, kern, **kw):
    if 'ix' in case:
        kw['indexing'] = case['ix']
    if isinstance(case['m'], str) and case['m'] in M.SPIN:
        kw['symmetry'] = 'spin'
    if 'nb' in m:
        kw['itype_ph'] = 2
    b = M.build(m, kern, **kw)
    b.make_kern_copy = True
    M.solve(b)
    R.ev()
    return b


def run(case, R):
    k = case['k']
    if k == '2nd':
        second(case, R)
        return
    mu, T = (EQ+EQX)[case['e']]
    if k == '2vN':
        m = scaled(case['m'], 1, mu, T)
        m['D'] = [[-8., 8.]]*m['nl']
        for n in (1, 2, 4, 8):
            b = M.build(m, '2vN', kpnt=512)
            b.solve(niter=n)
            R.ev()
            R.nt([case, n])
            g = 2*np.pi*np.abs(b.Tba).max()**2
            R.check(np.abs(b.current).max() <= 1e-9*g, '2vN:current', lambda: '%d iterations: %s' % (n, b.current))
            if n == 8:
                # the tail of the energy integral converges with the iteration and the grid
                for nm in ('energy_current', 'heat_current'):
                    x = getattr(b, nm)
                    R.check(np.abs(x).max() <= 1e-3*g, '2vN:'+nm, lambda: '%d iterations: %s (rate %.3g)' % (n, x, g))
        return
    kerns = ['RTD'] if k == 'rtd' else M.COMP + (['pyPauli', 'pyLindblad', 'pyRedfield', 'py1vN'] if M.model(case['m'])['n'] < 3 else [])
    if case['e'] >= len(EQ):
        kerns = [x for x in kerns if x.endswith('Pauli')]
    for kern in kerns:
        kind = kern.replace('py', '')
        rel, dev = [], []
        bad = False
        for lam in (0.1, 0.05) if kind != 'Pauli' else (1,):
            m = scaled(case['m'], lam, mu, T)
            if k == 'rtd':
                m = grid.real(m)
                m['D'] = [[-15., 15.]]*m['nl']
            b = do(R, case, m, kern, itype=case.get('it', 1))
            if not b.success or M.kern_gap(b) < 1e-10:
                R.count('no_unique_stationary_state')
                bad = True
                break
            R.nt([case, kern, lam])
            E, ch = M.arr(b.Ea).real, M.charges(b)
            if k == 'rtd' and any(ch[i] == ch[j] and abs(E[i]-E[j]) < 0.05 for i in range(len(E)) for j in range(i)):
                # RTD treats coherences perturbatively
                R.count('rtd_degenerate_skipped')
                bad = True
                break
            g = 2*np.pi*np.abs(b.Tba).max()**2
            rel.append(np.array([np.abs(b.current).max(), np.abs(b.energy_current).max(), np.abs(b.heat_current).max()])/g)
            w = np.exp(-(E-mu*ch-min(E-mu*ch))/T)
            dev.append(np.abs(M.density(b)-np.diag(w/w.sum())).max())
            D = np.array(m['D'])
            dE = [E[i]-E[j] for i in range(len(E)) for j in range(len(E)) if ch[i] == ch[j]+1]
            inband = case.get('it') in (1, 3) or k == 'rtd' or (D[:, 0].max() < min(dE) and D[:, 1].min() > max(dE))
        if bad:
            continue
        R.outcome([kind, np.round(E, 9).tolist(), mu, T])
        if kind == 'Pauli':
            R.check(rel[0].max() <= 1e-11, kern+':current', lambda: 'currents at equilibrium %s (relative to the rate)' % rel[0])
            if inband:
                R.check(dev[0] <= 1e-9, kern+':grand canonical', lambda: 'deviation %.3g' % dev[0])
            continue
        # relative deviation falls as the rate (ratio 1/4 for half the amplitudes), RTD currents as its square
        f, floor = (0.12, 1e-9) if kind == 'RTD' else (0.32, 1e-6 if case.get('it') == 0 else 1e-8)
        for i, nm in enumerate(('current', 'energy current', 'heat current')):
            R.check(rel[1][i] <= f*rel[0][i]+floor, kern+':'+nm,
                    lambda: 'relative to the rate %.3g at amplitude factor 0.1, %.3g at 0.05' % (rel[0][i], rel[1][i]))
        if inband:
            R.check(dev[1] <= 0.32*dev[0]+1e-9, kern+':grand canonical', lambda: 'deviation %.3g -> %.3g' % (dev[0], dev[1]))


def second(case, R):
    x = case['mu'] >= len(MUS)
    mus = (MUS+MUX)[case['mu']]
    for T, p in itertools.product(TX if x else TS, PERM[:2] if M.model(case['m'])['nl'] < 3 else PERM):
        T = [T[i] for i in p]
        for Tph in (0.35, 0.9) if 'nb' in M.model(case['m']) else (None,):
            for kern, lam in (('Pauli', 1), ('Lindblad', 0.05))[:1 if x else 2]:
                m = scaled(case['m'], lam, mus, T, Tph)
                b = do(R, case, m, kern, itype=1)
                if not b.success or M.kern_gap(b) < 1e-10:
                    R.count('no_unique_stationary_state')
                    continue
                R.nt([case, T, Tph, kern])
                s = -np.sum(b.heat_current/b.tlst)
                if Tph:
                    if kern == 'Lindblad':
                        continue
                    s += b.energy_current.sum()/Tph
                g = 2*np.pi*np.abs(b.Tba).max()**2
                R.check(s >= -(1e-12 if kern == 'Pauli' else 3e-7)*g, kern+':entropy',
                        lambda: 'entropy production %.4g relative to the rate at mu=%s T=%s Tph=%s' % (s/g, mus, T, Tph))
                R.outcome([kern, round(float(s), 12)])
