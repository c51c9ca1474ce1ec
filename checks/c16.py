"""C16: iteration histories of the 2vN approach and the exact non-interacting limit."""
import itertools

import numpy as np

from lib import models as M
from lib.ref import exact

ID = 'C16'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit enumeration of all splits of n iterations into consecutive solves (with all stage combinations on resuming) and of '
             'all solve/resume/edit histories of the real builders, every recorded iteration compared with the undivided run; the fixed '
             'point is compared with the exact transmission result on an enumerated family of non-interacting models')
NOTE = ('all compositions of up to 5 (thorough: 7) iterations for the compiled and the Python approach, histories of length 3 (thorough: '
        '4); non-interacting levels without coherences converge to the exact currents to 1e-4 at 1024-2048 grid points; with '
        'coherences the deviation of 0.1-2 % is a recorded finding')
RULE = ('state = (iterations done, last solve restarted or resumed, edits); transition = one solve() or edit; after every solve the '
        'number of iterations, the list of recorded iterations, the callbacks and the currents are compared')
ASSUMPTIONS = ['resuming after a change of parameters is unspecified until the next restart', 'levels further than 4 T from the band edges']


def compositions(n):
    if n == 0:
        yield []
    for i in range(1, n+1):
        for c in compositions(n-i):
            yield [i]+c


def cases(tier):
    q = tier == 'quick'
    out = []
    for m in ('L1', 'D2', 'D2a', 'L1x3', 'A2') if q else ('L1', 'L1x3', 'D2', 'D2a', 'D2d', 'D2x3', 'A2', 'T3'):
        for n in range(1, (5 if m != 'T3' else 3)+(0 if q else 2)):
            out.append(dict(k='split', m=m, kern='2vN', n=n))
        for n in (2, 3):
            if m not in ('T3', 'A2', 'D2x3'):
                out.append(dict(k='split', m=m, kern='py2vN', n=n))
    for m, kern in (('L1', '2vN'), ('D2a', '2vN'), ('L1x6', '2vN'), ('L1', 'py2vN')):
        for kp in (7, 16, 33, 50):
            out.append(dict(k='split', m=m, kern=kern, n=3, kpnt=kp))
    for m in ('D2', 'D2a'):
        for a in OPS:
            out.append(dict(k='hist', m=m, kern='2vN', pre=[a], d=2 if q else 3))
    for a in ('s1', 'r1', 'mu', 'rs'):
        out.append(dict(k='hist', m='D2', kern='py2vN', pre=[a], d=1 if q else 2))
    # exact transmission
    es = (0.35, -0.2, 0.0, 1.1)
    bias = [([0.25, -0.4], [0.5, 0.5]), ([0.1, 0.1], [0.7, 0.4]), ([-0.6, 0.5], [0.4, 0.6])]
    for e in es:
        for mu, T in bias:
            for t in ((0.11, [0.06, 0.05]), (0.2, 0.02), (0.05, [0.0, 0.16])):
                for D in ([-12., 12.], [-9., 14.]):
                    out.append(dict(k='exact', m=dict(n=1, h={'0,0': e}, U={}, nl=2, t={'0,0': t[0], '1,0': t[1]}, mu=mu, T=T, D=[D]*2)))
    out.append(dict(k='exact', m='L1x3'))
    for e1, e2 in itertools.product((0.2, -0.5, 0.9), (-0.3, 0.2)):
        for mu, T in ([0.4, -0.3, 0.2, -0.5], [0.4, 0.5, 0.45, 0.6]), ([0.1, 0.2, -0.6, 0.6], [0.7, 0.5, 0.5, 0.5]):
            out.append(dict(k='exact', m=dict(n=2, h={'0,0': e1, '1,1': e2}, U={}, nl=4, mu=mu, T=T, D=[[-13., 13.]]*4,
                                              t={'0,0': .1, '1,0': [.06, .03], '2,1': .12, '3,1': .07})))
            out.append(dict(k='exact', m=dict(n=2, h={'0,0': e1, '1,1': e2}, U={}, nl=3, mu=mu[:3], T=T[:3], D=[[-13., 13.]]*3,
                                              t={'0,0': .1, '1,0': [.06, .03], '2,1': .12})))
    # leads given with different bands: the approach announces that it uses the common envelope for all of them
    for D in ([[-9., 12.], [-12., 10.]], [[-12., 10.], [-9., 12.]], [[-12., 12.], [-7., 7.]], [[-7., 7.], [-12., 12.]]):
        for e in es[:2]:
            out.append(dict(k='exact', m=dict(n=1, h={'0,0': e}, U={}, nl=2, t={'0,0': .11, '1,0': [.06, .05]}, mu=[.25, -.4], T=[.5, .5], D=D)))
    # with coherences (recorded finding)
    out.append(dict(k='exact', m='D2U0', kern='2vN', coh=1))
    out.append(dict(k='exact', m='D2aU0', kern='2vN', coh=1))
    return out


def cost(case):
    if case['k'] == 'split':
        return 2**case['n']*case['n']*(10 if case['kern'] == 'py2vN' else 2)
    if case['k'] == 'hist':
        return 80*(5 if case['kern'] == 'py2vN' else 1)
    return 20


def make(case):
    return M.build(case['m'], case['kern'], kpnt=case.get('kpnt', 32))


def obs(x):
    return [M.arr(x.phi0), M.arr(x.phi1), M.arr(x.current), M.arr(x.energy_current), M.arr(x.heat_current)]


OPS = ['s1', 's2', 'm', 'r1', 'mu', 'h', 'tl', 'D', 'kp', 'rs', 'ua', 'k']
EDITS = ('mu', 'h', 'tl', 'D', 'kp', 'rs', 'ua', 'k')
NAMES = ['phi0', 'phi1', 'current', 'energy_current', 'heat_current']


def same(R, got, want, key, msg, rt=1e-10):
    for nm, a, b in zip(NAMES, got, want):
        R.check(M.close(a, b, rt, 1e-15), key+':'+nm, lambda: '%s: %s' % (msg, M.diff(a, b)))


def split(case, R):
    kern, n = case['kern'], case['n']
    full = []
    for i in range(1, n+1):
        b = make(case)
        b.solve(niter=i)
        full.append(obs(b))
    stages = [dict(), dict(qdq=False), dict(rotateq=False), dict(qdq=False, rotateq=False)]
    for c in compositions(n):
        for st in itertools.product(stages if len(c) < 4 else stages[:2], repeat=len(c)-1):
            b = make(case)
            calls = []
            done = 0

            def cb(x):
                calls.append((int(x.niter), len(x.iters), M.arr(x.current)))
            for j, k in enumerate(c):
                b.solve(niter=k, func_iter=cb, restartq=(j == 0), **(st[j-1] if j else {}))
                done += k
                R.step()
                R.state([case['m'], kern, done, j > 0, c[:j+1]])
                msg = 'split %s with %s after %d' % (c, st, done)
                R.check(b.niter == done-1 and len(b.iters) == done, kern+':count',
                        lambda: '%s: niter %s, %d recorded' % (msg, b.niter, len(b.iters)))
                same(R, obs(b), full[done-1], kern+':resumed', msg)
            R.trace()
            R.ev()
            R.check([x[:2] for x in calls] in ([(i, i+1) for i in range(n)],), kern+':callbacks',
                    lambda: 'split %s: callbacks saw (niter, recorded) %s' % (c, [x[:2] for x in calls]))
            for i in range(min(n, len(b.iters))):
                same(R, obs(b.iters[i]), full[i], kern+':recorded', 'split %s: iteration %d' % (c, i))
                if i < len(calls):
                    R.check(M.close(calls[i][2], full[i][2], 1e-10, 1e-15), kern+':callback current',
                            lambda: M.diff(calls[i][2], full[i][2]))
                R.check(int(b.iters[i].niter) == i, kern+':recorded niter', lambda: 'entry %d has niter %s' % (i, b.iters[i].niter))
    R.outcome(np.round(full[-1][2], 9).tolist())


def apply(b, o):
    if o[0] == 's':
        b.solve(niter=int(o[1]))
    elif o == 'r1':
        b.solve(niter=1, restartq=False)
    elif o == 'm':
        # starts anew without iterating
        b.solve(masterq=False)
    elif o == 'mu':
        b.change(mulst={0: 0.12})
    elif o == 'h':
        b.change(hsingle={(0, 0): 0.03})
    elif o == 'tl':
        b.change(tleads={(0, 0): 0.07})
    elif o == 'D':
        # the width of the band is kept
        b.add(dlst={i: (1.5, 1.5) for i in range(b.nleads)})
    elif o == 'kp':
        b.kpnt = 37
    elif o == 'rs':
        b.remove_states(0.7)
    elif o == 'ua':
        b.use_all_states()
    elif o == 'k':
        # through another approach and back
        k = b.kerntype
        b.kerntype = 'Pauli'
        b.solve()
        b.kerntype = k


_ref = {}


def hist(case, R):
    kern = case['kern']
    for tail in itertools.product(OPS, repeat=case['d']):
        h = case['pre']+list(tail)
        # resuming needs arrays of the present state space
        ok = True
        fresh = False
        for o in h:
            if o == 'r1' and not fresh:
                ok = False
            if o[0] == 's' or o == 'm':
                fresh = True
            elif o in ('rs', 'ua', 'k', 'D', 'kp'):
                fresh = False
        if not ok:
            continue
        b = make(case)
        b.solve(niter=1)
        for o in h:
            apply(b, o)
            R.step()
            R.state([case['m'], kern, h[:h.index(o)+1]])
        # only a solve which starts anew may be followed by one that continues
        last = max([i for i, o in enumerate(h) if o == 'm'], default=-1)
        cont = last >= 0 and all(o == 'r1' for o in h[last+1:])
        done = len(h)-last-1 if cont else 0
        b.solve(niter=2, restartq=not cont)
        R.trace()
        edits = [o for o in h if o in EDITS]
        key = str((case['m'], kern, h))
        # the same edits on a new builder that is solved before each energy-based restriction with the energies then known
        key = str((case['m'], kern, done, edits, [h[:i].count('s1')+h[:i].count('s2')+h[:i].count('k') > 0 and 'h' in h[:i] for i, o in enumerate(h) if o == 'rs']))
        known, hh = True, False
        for o in h:
            if o == 'h':
                known = False
            elif o[0] in 'smk' and o != 'mu' or o == 'r1':
                known = True
            elif o == 'rs' and not known:
                hh = True
        if hh:
            R.count('energies_unknown_skipped')
            continue
        if key not in _ref:
            c = make(case)
            if 'rs' in edits:
                c.solve(niter=1)
            for o in edits:
                if o == 'rs':
                    c.solve(niter=1)
                if o != 'k':
                    apply(c, o)
            c.solve(niter=2+done)
            _ref[key] = [np.abs(x) for x in obs(c)[:1]]+obs(c)[2:]
        R.ev()
        got = [np.abs(x) for x in obs(b)[:1]]+obs(b)[2:]
        for nm, a, w in zip(['phi0', 'current', 'energy_current', 'heat_current'], got, _ref[key]):
            R.check(M.close(a, w, 1e-8, 1e-13), kern+':restart:'+nm, lambda: '%s: %s' % (h, M.diff(a, w)))
        R.check(b.niter == 1+done and len(b.iters) == 2+done, kern+':restart count', lambda: '%s: niter %s, %d recorded' % (h, b.niter, len(b.iters)))


def exactm(m):
    if isinstance(m, str) and m.endswith('U0'):
        x = M.model(m[:-2])
        x['U'] = {}
        d = [min(v[0] for v in x['D']), max(v[1] for v in x['D'])]
        x['D'] = [d]*x['nl']
        return x
    return M.model(m)


def exact_case(case, R):
    m = exactm(case['m'])
    cur = exact.exact(dict(m, D=[[min(v[0] for v in m['D']), max(v[1] for v in m['D'])]]*m['nl']))
    kern = '2vN'
    kp = 2048 if m['n'] == 1 else 1024
    for n in (1, 3) if not case.get('coh') else (9,):
        b = M.build(m, kern, kpnt=kp)
        b.solve(niter=n)
        R.ev()
        R.nt([case, n])
        g = sum(abs(M.cv(v))**2 for v in m['t'].values())*2*np.pi
        key = 'exact:%s' % ('coherent' if case.get('coh') else kern)
        if case.get('coh') and not np.all(np.abs(b.current-cur) <= 0.015*np.abs(cur).max()):
            key += ' far'
        R.check(np.all(np.abs(b.current-cur) <= (2e-5*g if m['n'] == 1 or case.get('coh') else 5e-5*g)), key,
                lambda: '%d iterations: %s, exact %s' % (n, np.round(b.current, 9).tolist(), np.round(cur, 9).tolist()))
        R.outcome(np.round(b.current, 8).tolist())


def run(case, R):
    dict(split=split, hist=hist, exact=exact_case)[case['k']](case, R)
