"""C21: the fourth-order (RTD) results against independent exact references, over an alphabet of models and couplings."""
import itertools

import numpy as np

from lib import grid, models as M
from lib.ref import order4 as O

ID = 'C21'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of a bounded alphabet of models, geometric coupling series and options; the second-order '
             'coefficients of the real builders are compared with independent references (Landauer formula, imaginary-time '
             'perturbation theory, golden rule with T-matrix amplitudes, iterated von Neumann approach)')
NOTE = ('one to three levels, one to three leads, unequal temperatures, complex amplitudes, with and without interactions; '
        'coefficients extrapolated from couplings in ratio two; common wide band for all leads; near-degenerate eigenstates '
        '(coherences beyond perturbation theory) are outside')
RULE = 'state = (model, coupling, options); transition = one solve of the real builder or one evaluation of a reference'
ASSUMPTIONS = ['eigenstates of equal charge are separated by more than 0.05; all leads share one wide symmetric band']
BAND = 30000.


def prep(m, D=BAND):
    m = M.model(m)
    s = max(abs(M.cv(v)) for v in m['t'].values())
    m['t'] = {k: M.jv(M.cv(v)/s) for k, v in m['t'].items()}
    m['D'] = [[-D, D]]*m['nl']
    return m


def scaled(m, lam):
    m = M.model(m)
    m['t'] = {k: M.jv(M.cv(v)*lam) for k, v in m['t'].items()}
    return m


def ok(m):
    """no near-degenerate states of equal charge; unique stationary state."""
    E, Q, T = O.many(M.model(m))
    for q in set(Q):
        e = np.sort(E[Q == q])
        if len(e) > 1 and np.min(np.diff(e)) < 0.05:
            return False
    A = np.sum(np.abs(T)**2, axis=0)
    A = A+A.T > 1e-9
    seen, todo = {0}, [0]
    while todo:
        i = todo.pop()
        for j in np.where(A[i])[0]:
            if j not in seen:
                seen.add(int(j))
                todo.append(int(j))
    return len(seen) == len(E)


def incoherent(m):
    """no two states of equal charge share a neighbour: no coherence is ever driven."""
    E, Q, T = O.many(M.model(m))
    A = np.sum(np.abs(T), axis=0)
    A = A+A.T > 1e-9
    for i in range(len(E)):
        for j in range(i):
            if Q[i] == Q[j] and np.any(A[i] & A[j]):
                return False
    return True


def isreal(m):
    return all(abs(M.cv(v).imag) == 0 for f in ('h', 't') for v in M.model(m)[f].values())


def solve(m, kern, **kw):
    b = M.build(m, kern, **kw)
    M.solve(b)
    return b


def base(q):
    out = []
    seen = set()
    for m in grid.one()[::3]+grid.two()[::2]+[grid.real(x) for x in grid.two()[1::2]]+grid.two3()[::2]+[
            grid.real(x) for x in grid.two3()[::2]]+grid.three(3)+[grid.real(x) for x in grid.three(5)]:
        m = prep(m)
        k = repr(sorted(m.items(), key=repr))
        if k not in seen and ok(m):
            seen.add(k)
            out.append(m)
    return out


COT2 = dict(n=2, U={'0,1,1,0': 2.4}, nl=2)


def blockade(q):
    out = []
    T2 = [{'0,0': 1., '1,0': .7, '0,1': .5, '1,1': .6}, {'0,0': 1., '1,0': .7, '0,1': -.5, '1,1': .6},
          {'0,0': 1., '1,0': .7, '0,1': [.3, .4], '1,1': .6}, {'0,0': 1., '1,0': .4, '0,1': .3}]
    for h, t, (mu, T) in itertools.product(
            ({'0,0': -1.2, '1,1': -.8}, {'0,0': -1.2, '1,1': -1.05, '0,1': .1}, {'0,0': -1.3, '1,1': -1.1, '0,1': [.1, .12]}), T2,
            (([.1, -.1], [.03, .04]), ([.25, -.25], [.03, .04]), ([-.3, .1], [.05, .03]), ([0., 0.], [.05, .02]))):
        out.append((dict(n=2, h=h, U={'0,1,1,0': 2.4}, nl=2, t=t, mu=mu, T=T), 1))
    t3 = {'0,0': 1., '1,0': .7, '0,1': .5, '1,1': .6, '0,2': .4, '1,2': -.8}
    for h in ({'0,0': -1.2, '1,1': -1.05, '2,2': -.9, '0,1': .1}, {'0,0': -1.2, '1,1': -1.0, '2,2': -1.3, '0,1': .1, '1,2': .05}):
        for mu, T in (([.1, -.1], [.03, .04]), ([.25, -.25], [.03, .04])):
            out.append((dict(n=3, h=h, U={'0,1,1,0': 2.4, '1,2,2,1': 2.0, '0,2,2,0': 2.2}, nl=2, t=t3, mu=mu, T=T), 1))
            h2 = {k: v-2.2 if k[0] == k[2] else v for k, v in h.items()}
            out.append((dict(n=3, h=h2, U={'0,1,1,0': 2.4, '1,2,2,1': 2.0, '0,2,2,0': 2.2}, nl=2, t=t3, mu=mu, T=T), 2))
    for mu in ([.2, -.2, .05], [0., .1, .3]):
        out.append((dict(n=2, h={'0,0': -1.2, '1,1': -1.0, '0,1': .05}, U={'0,1,1,0': 2.3}, nl=3,
                         t={'0,0': 1., '1,0': .7, '2,1': .5, '1,1': .6, '2,0': -.3}, mu=mu, T=[.03, .05, .04]), 1))
    # which of the leads share a temperature decides how the integrals are evaluated
    for T in ([.05, .05, .03], [.05, .03, .05], [.03, .05, .05], [.04, .04, .04]):
        for z in (-.3, [.2, -.25]):
            out.append((dict(n=2, h={'0,0': -1.2, '1,1': -1.0, '0,1': .05}, U={'0,1,1,0': 2.3}, nl=3,
                             t={'0,0': 1., '1,0': .7, '2,1': .5, '1,1': .6, '2,0': z}, mu=[.2, -.2, .05], T=T), 1))
    # empty and full dots, and a single level far from resonance
    for e, q0 in ((1.2, 0), (-1.2, 1)):
        out.append((dict(n=1, h={'0,0': e}, U={}, nl=2, t={'0,0': 1., '1,0': .6}, mu=[.2, -.1], T=[.04, .06]), q0))
    out.append((dict(n=2, h={'0,0': 1.2, '1,1': 1.0, '0,1': .05}, U={'0,1,1,0': 1.}, nl=2, t=T2[1], mu=[.2, -.1], T=[.04, .05]), 0))
    out.append((dict(n=2, h={'0,0': -2.2, '1,1': -2.0, '0,1': .05}, U={'0,1,1,0': 1.}, nl=2, t=T2[2], mu=[.2, -.1], T=[.04, .05]), 2))
    return out


def gap(m, q):
    """smallest excitation energy out of the charge sector in units of the largest temperature."""
    E, Q, T = O.many(M.model(m))
    S = [E[i] for i in range(len(E)) if Q[i] == q]
    out = [e-max(S)-max(m['mu']) for e in E[Q == q+1]]+[min(m['mu'])-(max(S)-e) for e in E[Q == q-1]]
    return min(out)/max(m['T'])


def cases(tier):
    q = tier == 'quick'
    out = []
    ms = base(q)
    st = 3 if q else 1
    free = []
    for i, m in enumerate(ms):
        m0 = dict(m, U={})
        if ok(m0) and m0 not in free and m['nl'] > 1:
            free.append(m0)
    for i, m in enumerate(free[::st]):
        out.append(dict(k='flat', m=m, kern='pyRTD' if i % 7 == 6 else 'RTD'))
    # which of the leads share a temperature decides how the integrals are evaluated
    tri = [m for m in free if m['nl'] == 3]
    rl, cx = [m for m in tri if isreal(m)], [m for m in tri if not isreal(m)]
    tri = rl[:1]+rl[-1:]+cx[:1]+cx[-1:] if q else rl+cx
    for i, m in enumerate(tri):
        for T in ([.5, .5, .3], [.5, .3, .5], [.3, .5, .5], [.4, .4, .4]):
            out.append(dict(k='flat', m=dict(m, T=T), kern='pyRTD' if i == 1 and m['n'] < 2 else 'RTD'))
    for i, m in enumerate(ms[::st]):
        for mu, T in ((.2, .5), (-.6, .35)):
            e = dict(m, mu=[mu]*m['nl'], T=[T]*m['nl'])
            if ok(e):
                out.append(dict(k='eq', m=e, kern='pyRTD' if i % 7 == 6 else 'RTD'))
    for i, (m, s) in enumerate(blockade(q)):
        m = dict(m, T=[t*0.7 for t in m['T']])
        if gap(m, s) < 20:
            continue
        m = dict(prep(dict(m, D=[[-1, 1]]*m['nl'])), D=[[-BAND, BAND]]*m['nl'])
        out.append(dict(k='cot', m=m, q=s, kern='pyRTD' if i % 9 == 8 else 'RTD'))
    for i, m in enumerate(ms[::5 if q else 1]):
        out.append(dict(k='order', m=m, kern='pyRTD' if i % 7 == 6 else 'RTD'))
    # one lead much colder than the other: the number of poles has to suffice for the cold one
    for h01, U, T in itertools.product((0.1, 0.), (1.2, 0.), ([2., .1], [.1, 2.], [.1, .1])):
        m = prep(dict(n=2, h={'0,0': .3, '1,1': -.2, '0,1': h01}, U={'0,1,1,0': U} if U else {}, nl=2,
                      t={'0,0': 1., '1,0': .7, '0,1': .5, '1,1': .8}, mu=[.5, 0.], T=T, D=[[-1, 1]]*2))
        out.append(dict(k='order', m=m, kern='RTD'))
    for m in ms[::st]:
        if incoherent(m):
            for kern in ('RTD',) if q else ('RTD', 'pyRTD'):
                out.append(dict(k='offdiag', m=m, kern=kern))
    A = dict(n=2, h={'0,0': 0.2, '1,1': -0.1}, U={'0,1,1,0': 1.3}, nl=4, t={'0,0': 1., '1,0': [.6, .3], '2,1': .9, '3,1': .7},
             mu=[.4, -.3, .4, -.3], T=[.5]*4, D=[[-13., 13.]]*4)
    vn = [A]
    if not q:
        vn += [dict(A, h={'0,0': -.4, '1,1': -.6}), dict(A, U={'0,1,1,0': .6}, mu=[.5, .1, -.2, .3], T=[.6, .5, .55, .5]),
               dict(A, h={'0,0': .2, '1,1': -.3}, nl=2, mu=[.4, -.3], T=[.5, .6], D=[[-13., 13.]]*2, t={'0,0': 1., '1,0': .6, '0,1': .7})]
    for m in vn:
        out.append(dict(k='vn', m=m))
    return out


def cost(case):
    n = case['m']['n']
    c = {'flat': 1, 'eq': 1, 'cot': 1, 'order': 3, 'offdiag': 1, 'vn': 300}[case['k']]
    return c*8**n*case['m']['nl']*(40 if case.get('kern') == 'pyRTD' else 1)


def run(case, R):
    globals()['run_'+case['k']](case, R)


def extra(c1, c2):
    """limit of c(lam) = c + O(lam^2) from lam and lam/2."""
    return (4*c2-c1)/3


LAM = (0.008, 0.004)


def coeff(case, R, m, kern, lam, what='cur'):
    s = scaled(m, lam)
    b, p = solve(s, kern), solve(s, 'Pauli')
    R.step(2)
    R.state((M.jv(lam), repr(sorted(m.items(), key=repr)), kern))
    d = [(np.real(b.current)-np.real(p.current))/lam**4, (np.real(b.energy_current)-np.real(p.energy_current))/lam**4]
    return b, p, d


def run_flat(case, R):
    m, kern = case['m'], case['kern']
    got, want = [], []
    for lam in LAM:
        b, p, d = coeff(case, R, m, kern, lam)
        e, ee = O.flat(scaled(m, lam))
        got.append(d)
        want.append([(e-np.real(p.current))/lam**4, (ee-np.real(p.energy_current))/lam**4])
        R.ev()
    for k, name in ((0, 'current'), (1, 'energy current')):
        g, w = extra(got[0][k], got[1][k]), extra(want[0][k], want[1][k])
        if k == 1 and not isreal(m):
            continue
        sc = np.max(np.abs(w))+1e-2
        bend = np.max(np.abs(want[0][k]-want[1][k]))
        R.check(bool(np.max(np.abs(g-w)) < 3e-3*sc+0.1*bend+2e-3), '%s of free levels' % name,
                lambda: '%s: fourth-order coefficient %s, exact %s' % (kern, g, w))
        if sc > 0.1:
            R.nt(('flat', name, repr(np.round(w, 6))))
        R.outcome(('flat', name, repr(np.round(g, 3))))
    R.trace()


def run_eq(case, R):
    m, kern = case['m'], case['kern']
    E, Q, T = O.many(m)
    p0, p1 = O.thermal(m)
    got = []
    for lam in LAM:
        b = solve(scaled(m, lam), kern)
        R.step()
        R.state(('eq', repr(sorted(m.items(), key=repr)), lam, kern))
        got.append((populations(b, E, Q)-p0)/lam**2)
    g = extra(*got)
    sc = np.max(np.abs(p1))+1e-3
    bend = np.max(np.abs(got[0]-got[1]))
    R.check(bool(np.max(np.abs(g-p1)) < 2e-3*sc+min(0.1*bend, 0.05*sc)), 'thermal populations',
            lambda: '%s: second-order coefficient %s, reference %s' % (kern, g, p1))
    if sc > 1e-2:
        R.nt(('eq', repr(np.round(p1, 6))))
    R.outcome(('eq', repr(np.round(g, 3))))
    R.trace()


def populations(b, E, Q):
    """populations in the order of (charge, energy) of the reference."""
    si = b.si
    en, out = np.array(b.Ea), np.zeros(len(E))
    for a in range(len(E)):
        q = [c for c in range(len(si.chargelst)) if a in si.chargelst[c]]
        cand = [j for j in range(len(E)) if Q[j] == q[0] and abs(E[j]-en[a]) < 1e-9]
        out[cand[0]] = np.real(b.phi0[b.si.get_ind_dm0(a, a, q[0])])
    return out


def run_cot(case, R):
    m, kern = case['m'], case['kern']
    S, p, c, ec = O.cotunnel(m, case['q'])
    E, Q, T = O.many(m)
    cur, en, pop = [], [], []
    for lam in LAM:
        b = solve(scaled(m, lam), kern)
        R.step()
        R.state(('cot', repr(sorted(m.items(), key=repr)), lam, kern))
        cur.append(np.real(b.current)/lam**4)
        en.append(np.real(b.energy_current)/lam**4)
        pop.append(populations(b, E, Q)[S])
    for name, v, w, use in (('current', cur, c, True), ('energy current', en, ec, isreal(m)), ('populations', pop, p, len(S) > 1)):
        if not use:
            continue
        g = extra(*v)
        sc = np.max(np.abs(w))
        bend = np.max(np.abs(v[0]-v[1]))
        tol = 3e-3*sc+min(0.25*bend, 0.05*max(sc, np.max(np.abs(c))))+1e-5
        R.check(bool(np.max(np.abs(g-w)) < tol), 'cotunneling %s' % name, lambda: '%s: %s, golden rule %s' % (kern, g, w))
        if sc > 1e-3:
            R.nt(('cot', name, repr(np.round(w, 8))))
        R.outcome(('cot', name, repr(np.round(g, 4))))
    R.trace()


def run_order(case, R):
    """Pauli limit with a correction of relative order lam^2, zero sum order by order, no dependence on the bandwidth."""
    m, kern = case['m'], case['kern']
    c = {}
    for lam in (0.04, 0.02, 0.01):
        b, p, d = coeff(case, R, m, kern, lam)
        c[lam] = d
        sc = np.max(np.abs(d[0]))+1e-2
        R.check(abs(np.sum(d[0])) < 1e-6*sc+1e-7, 'conservation by order', lambda: '%s lam=%g: %s' % (kern, lam, d[0]))
        q = np.real(b.phi0[:b.si.npauli])-np.real(p.phi0[:p.si.npauli])
        R.check(abs(np.sum(q)) < 1e-10, 'probability by order', lambda: '%s lam=%g: %s' % (kern, lam, q))
        c[('p', lam)] = q/lam**2
    for k in (0, 1):
        if k == 1 and not isreal(m):
            continue
        a, b_ = np.max(np.abs(c[.04][k]-c[.02][k])), np.max(np.abs(c[.02][k]-c[.01][k]))
        sc = np.max(np.abs(c[.01][k]))+1e-2
        R.check(b_ <= 0.35*a+1e-3*sc, 'Pauli limit', lambda: '%s: coefficients %s' % (kern, [c[l][k] for l in (.04, .02, .01)]))
    a, b_ = np.max(np.abs(c['p', .04]-c['p', .02])), np.max(np.abs(c['p', .02]-c['p', .01]))
    R.check(b_ <= 0.35*a+1e-4, 'Pauli limit of populations', lambda: '%s: coefficients %s' % (kern, [c['p', l] for l in (.04, .02, .01)]))
    if kern == 'RTD':
        w = prep(m, 3000.)
        b, p, d = coeff(case, R, w, kern, .02)
        for k in (0, 1):
            if k == 1 and not isreal(m):
                continue
            sc = np.max(np.abs(c[.02][k]))+1e-2
            R.check(np.max(np.abs(d[k]-c[.02][k])) < 1e-2*sc+1e-2, 'bandwidth', lambda: 'D=%g: %s, D=3000: %s' % (BAND, c[.02][k], d[k]))
    if np.max(np.abs(c[.01][0])) > 0.05:
        R.nt(('order', repr(np.round(c[.01][0], 6))))
    R.outcome(repr(np.round(c[.01][0], 3)))
    R.trace()


def run_offdiag(case, R):
    m, kern = scaled(case['m'], 0.1), case['kern']
    on, off = solve(m, kern), M.build(m, kern)
    off.off_diag_corrections = False
    M.solve(off)
    R.step(2)
    R.state(('off', repr(sorted(m.items(), key=repr)), kern))
    for f in ('current', 'energy_current', 'phi0'):
        x, y = np.array(getattr(on, f)), np.array(getattr(off, f))
        x, y = (x[:on.si.npauli], y[:off.si.npauli]) if f == 'phi0' else (x, y)
        sc = np.nanmax(np.abs(x))
        R.check(bool(np.all(np.isnan(x) == np.isnan(y)) and (np.isnan(sc) or np.nanmax(np.abs(x-y)) < 1e-9*sc+1e-15)), 'off-diagonal option',
                lambda: '%s %s: %s with, %s without' % (kern, f, x, y))
    R.nt(('off', repr(np.round(on.current, 9))))
    R.trace()


def run_vn(case, R):
    m = case['m']
    c = {}
    for lam in (0.1, 0.1/np.sqrt(2)):
        s = scaled(m, lam)
        p = solve(s, 'Pauli')
        r = solve(s, 'RTD')
        v = M.build(s, '2vN', kpnt=2048)
        M.solve(v, niter=5)
        R.step(3)
        R.state(('vn', repr(sorted(m.items(), key=repr)), lam))
        for n, b in (('r', r), ('v', v)):
            c[n, lam > .08] = (np.real(b.current)-np.real(p.current))/lam**4
    g = {n: 2*c[n, False]-c[n, True] for n in 'rv'}
    sc = np.max(np.abs(g['v']))
    R.check(np.max(np.abs(g['r']-g['v'])) < 0.1*sc+0.03, 'second von Neumann', lambda: 'RTD %s, 2vN %s' % (g['r'], g['v']))
    R.nt(('vn', repr(np.round(g['v'], 3))))
    R.trace()
