"""C08: indexing schemes, the spin-symmetry shorthand and state order."""
import itertools

import numpy as np

from lib import grid
from lib import models as M

ID = 'C08'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of a bounded model space; every allowed representation of one model solved and compared'
NOTE = ('every model of a product of hoppings, interactions, couplings, biases (one to four orbitals with spin, one to three '
        'levels without) in every allowed indexing, with the spin-symmetric shorthand and with explicit spins, in all approaches')
RULE = ('evaluation = one representation of one model solved by one approach and compared with the reference representation; '
        'distinct = different (model, representation, approach)')
ASSUMPTIONS = ['Pauli populations of accidentally degenerate states depend on the basis and are not compared (interacting, '
               'non-degenerate orbitals are)', 'quantities are compared per group of states with equal charge and energy']


def spin_models(q):
    out = []
    for e, U, (mu, T), t, D in itertools.product(
            (0.1, -0.6), (0, 1.3), (([0.4, -0.3], [0.4, 0.5]), ([-0.2, 0.3], [0.3, 0.8])),
            ({'0,0': 0.1, '1,0': [0.06, 0.03]}, {'0,0': [0.02, 0.09]}), ([[-13., 13.]]*2, [[-0.9, 9.], [-9., 0.8]])):
        out.append(dict(n=2, nl=4, h={'0,0': e}, U={'0,0,0,0': U} if U else {}, t=t, mu=mu, T=T, D=D))
    amp = {(0, 0): 0.11, (0, 1): [0.03, 0.07], (1, 0): [0.05, -0.02], (1, 1): 0.09}
    for h01, U, p0, p1, b in itertools.product((0, 0.2, [0.15, 0.1]), range(4), ({0}, {0, 1}), ({1}, {0, 1}), grid.BIAS2[:2]):
        h = {'0,0': 0.15, '1,1': -0.3}
        if h01:
            h['0,1'] = h01
        u = [{}, {'0,0,0,0': 1.5, '1,1,1,1': 1.3}, {'0,0,0,0': 1.5, '1,1,1,1': 1.3, '0,1,1,0': 0.6}, {'0,1,1,0': 0.9}][U]
        t = {'0,%d' % i: amp[(0, i)] for i in p0}
        t.update({'1,%d' % i: amp[(1, i)] for i in p1})
        out.append(dict(n=4, nl=4, h=h, U=u, t=t, mu=b[0], T=b[1], D=[[-13., 13.], [-11., 12.]]))
    return out


def explicit(m):
    """both spins written out; orbital interactions (i,j,j,i) become sums over spins."""
    m = M.model(m)
    n, l = m['n']//2, m['nl']//2
    e = dict(m, h={}, t={}, U={}, mu=m['mu']*2, T=m['T']*2, D=m['D']*2)
    for k, v in m['h'].items():
        i, j = M.kt(k)
        e['h'][M.tk((i, j))] = v
        e['h'][M.tk((i+n, j+n))] = v
    for k, v in m['t'].items():
        a, i = M.kt(k)
        e['t'][M.tk((a, i))] = v
        e['t'][M.tk((a+l, i+n))] = v
    for k, v in m['U'].items():
        i, j = M.kt(k)[:2]
        for s, r in itertools.product((0, n), repeat=2):
            a, b = sorted((i+s, j+r))
            if a == b or i == j and (s, r) != (0, n):
                continue
            e['U'][M.tk((a, b, b, a))] = v
    if 'v' in m:
        e['v'] = {}
        for k, v in m['v'].items():
            b, i, j = M.kt(k)
            e['v'][M.tk((b, i, j))] = v
            e['v'][M.tk((b, i+n, j+n))] = v
    return e


def cases(tier):
    q = tier == 'quick'
    out = []
    sm = spin_models(q)
    for i, m in enumerate(sm):
        for it in ((0, 1, 2) if m['n'] == 2 else (1, 2)):
            if m['n'] == 4 and q and (i+it) % 2:
                continue
            out.append(dict(k='spin', m=m, it=it))
        if m['n'] == 2 or (not q and i % 4 == 0):
            out.append(dict(k='rtd', m=m))
            out.append(dict(k='2vN', m=m))
    # three orbitals: quartets
    for i, (h01, U, b) in enumerate(itertools.product((0.2, [0.15, 0.1]), ({'0,0,0,0': 1.5, '1,1,1,1': 1.3, '2,2,2,2': 1.2, '0,1,1,0': 0.6,
                                                                         '1,2,2,1': .4, '0,2,2,0': .3},
                                                                        {'0,0,0,0': 1.5, '1,1,1,1': 1.3, '2,2,2,2': 1.9}), grid.BIAS2[:2])):
        out.append(dict(k='spin', it=2 if i % 2 else 1,
                        m=dict(n=6, nl=4, h={'0,0': -.55, '1,1': -.7, '2,2': -.4, '0,1': h01, '1,2': .12}, U=U, mu=b[0], T=b[1], D=[[-13., 13.]]*2,
                               t={'0,0': .11, '1,2': [.05, -.02], '1,1': .04})))
    # four orbitals: quintets
    for i, (h01, U, b) in enumerate(itertools.product((0.2, [0.15, 0.1]), ({'0,0,0,0': 1.5, '1,1,1,1': 1.3, '2,2,2,2': 1.2, '3,3,3,3': 1.7, '0,1,1,0': 0.6,
                                                                         '1,2,2,1': .4, '0,2,2,0': .3, '2,3,3,2': .45},
                                                                        {'0,0,0,0': 1.5, '1,1,1,1': 1.3, '2,2,2,2': 1.9, '3,3,3,3': 1.7}), grid.BIAS2[:2])):
        out.append(dict(k='spin', it=2 if i % 2 else 1,
                        m=dict(n=8, nl=4, h={'0,0': -.55, '1,1': -.7, '2,2': -.4, '3,3': -.6, '0,1': h01, '1,2': .12, '2,3': .09}, U=U, mu=b[0], T=b[1],
                               D=[[-13., 13.]]*2, t={'0,0': .11, '1,2': [.05, -.02], '1,1': .04, '0,3': .06})))
    ph = [{'0,0,0': 0.05}, {'0,0,0': 0.05, '0,0,1': [0.06, 0.03]}, {'0,0,1': [0.06, 0.03], '0,1,1': -0.04}]
    for i, m in enumerate([m for m in sm if m['n'] == 4][::6 if q else 1]):
        out.append(dict(k='spin', m=dict(m, nb=1, v=ph[i % 3], Tph=[0.45], Dph=[[0.003, 9.]]), it=2))
    for m in [m for m in sm if m['n'] == 2]:
        out.append(dict(k='spin', m=dict(m, nb=1, v=ph[0], Tph=[0.45], Dph=[[0.003, 9.]]), it=2))
    # no symmetry: every indexing that is allowed
    for m in ('L1', 'L1x3', 'D2', 'D2a', 'D2d', 'D2x3', 'T3', 'D2p', 'T3p') + (() if q else ('F4',)):
        for it in (0, 1, 2, 3):
            out.append(dict(k='plain', m=m, it=it, ix=['Lin', 'charge']))
    for i, m in enumerate(grid.two()):
        if i % (3 if q else 1) == 0:
            out.append(dict(k='plain', m=m, it=2, ix=['Lin', 'charge']))
    zs = []
    for e, b, U, t, D in itertools.product(((0.2, -0.1), (-0.5, 0.3)), ((0.4, -0.3, 0.4, -0.3), (0.1, 0.2, -0.4, 0.5)), (0, 1.3),
                                           ({'0,0': 0.1, '1,0': [0.06, 0.03], '2,1': 0.12, '3,1': 0.07}, {'0,0': 0.1, '2,1': [0.05, 0.05]}),
                                           (13., 0.7)):
        zs.append(dict(n=2, h={'0,0': e[0], '1,1': e[1]}, U={'0,1,1,0': U} if U else {}, nl=4, t=t,
                       mu=list(b), T=[.4, .5, .45, .3], D=[[-D, D]]*4))
    # Zeeman-split double dot
    z4 = M.model('S4')
    z4['h'].update({'0,0': 0.22, '2,2': -0.03, '1,1': -0.1, '3,3': -0.37})
    zs.append(z4)
    for m in zs:
        for it in (0, 1, 2, 3) if m['n'] == 2 else (1, 2):
            out.append(dict(k='plain', m=m, it=it, ix=['Lin', 'charge', 'sz']))
    for m in ('L1', 'D2', 'D2a', 'D2x3', 'L1x3'):
        out.append(dict(k='plain', m=m, a='RTD', ix=['Lin', 'charge', 'sz']))
        out.append(dict(k='plain', m=m, a='2vN', ix=['Lin', 'charge']))
    return out


def cost(case):
    m = M.model(case['m'])
    return 6**min(m['n'], 5)*m['nl']*(20 if m['n'] >= 6 else 1)


def observe(b):
    E, ch, d = M.arr(b.Ea).real, M.charges(b), M.density(b)
    o = sorted(zip(ch, np.round(E, 6), E, np.diag(d).real))
    keys = sorted(set((c, e) for c, e, _, _ in o))
    # neighbouring groups split by rounding are joined
    grp = []
    for c, e in keys:
        if grp and grp[-1][0] == c and e-grp[-1][1] < 5e-6:
            grp[-1][2].append(e)
        else:
            grp.append([c, e, [e]])
    pop = [sum(p for c2, e2, _, p in o if c2 == c and e2 in es) for c, _, es in grp]
    coh = np.sqrt(np.sum(np.abs(d-np.diag(np.diag(d)))**2))
    return dict(Ea=np.sort(E), ch=np.array([c for c, _, _ in grp]), pop=np.array(pop), cur=M.arr(b.current), ecur=M.arr(b.energy_current),
                heat=M.arr(b.heat_current), coh=coh)


def compare(R, tag, a, b, tol=1e-8, atol=0.0):
    for k in b:
        if k in ('ecur', 'heat') and np.isnan(b[k]).all() and np.isnan(a[k]).all():
            continue
        R.check(M.close(a[k], b[k], 1e-9 if k in ('Ea', 'ch') else tol, max(atol, 1e-11 if k == 'coh' else 1e-12)), tag+':'+k, lambda: M.diff(a[k], b[k]))


def run(case, R):
    m = M.model(case['m'])
    k = case['k']
    if k == 'plain':
        kerns = M.FIRST if 'a' not in case else [case['a']]
        if m['n'] > 2:
            kerns = [x for x in kerns if x in M.COMP + ['pyLindblad', 'pyRedfield']]
        for kern in kerns:
            ref = None
            for ix in case['ix']:
                kw = dict(itype=case.get('it', 1), indexing=ix)
                if kern == '2vN':
                    kw = dict(indexing=ix)
                b = M.solve(M.build(m, kern, **kw))
                if ref is None and not b.success:
                    R.count('reported_failure')
                    break
                R.ev()
                R.nt([case, ix, kern])
                o = observe(b)
                if ref is None:
                    ref = o
                else:
                    compare(R, '%s:%s vs %s' % (kern, ix, case['ix'][0]), o, ref, 1e-5 if case.get('it') == 0 else 1e-7)
                b.sort_eigenstates(srt=[1, 0])
                M.solve(b)
                compare(R, kern+':after sorting', observe(b), o, 1e-9)
                R.outcome(np.round(o['cur'], 10).tolist())
        return
    e = explicit(m)
    if k == 'rtd' or k == '2vN':
        # symmetric shorthand with charge indexing
        for kern in ('RTD', 'pyRTD') if k == 'rtd' and m['n'] < 4 else ('RTD',) if k == 'rtd' else ('2vN', 'py2vN'):
            rs = []
            for mm, kw in ((e, {}), (m, dict(symmetry='spin', indexing='charge'))):
                b = M.build(mm, kern, **kw)
                M.solve(b, **(dict(niter=1) if k == '2vN' else {}))
                R.ev()
                R.nt([case, kern, sorted(kw)])
                if not b.success:
                    R.count('reported_failure')
                    return
                rs.append(observe(b))
            compare(R, kern+':shorthand', rs[1], rs[0], 1e-7)
        return
    kw = dict(itype=case['it'])
    if 'nb' in m:
        kw['itype_ph'] = 2
    reps = [('sz', e, dict(indexing='sz')), ('charge', e, dict(indexing='charge')), ('ssq', e, dict(indexing='ssq')),
            ('sym/default', m, dict(symmetry='spin')), ('sym/sz', m, dict(symmetry='spin', indexing='sz')),
            ('sym/charge', m, dict(symmetry='spin', indexing='charge'))]
    if m['n'] == 2:
        reps += [('Lin', e, dict(indexing='Lin')), ('sym/ssq', m, dict(symmetry='spin', indexing='ssq')),
                 ('sym/Lin', m, dict(symmetry='spin', indexing='Lin'))]
    # eigenstates that agree in charge, spin projection and energy without being fixed by symmetry
    b = M.solve(M.build(e, 'Pauli', indexing='sz'))
    E = M.arr(b.Ea).real
    accidental = any(abs(E[i]-E[j]) < 1e-6 for c in b.si.szlst for z in c for i in z for j in z if i < j)
    for kern in M.FIRST if m['n'] == 2 else M.COMP + ['pyLindblad'] if m['n'] == 4 else M.COMP if m['n'] == 6 else ['Pauli']:
        kind = kern.replace('py', '')
        if kind == 'Pauli' and accidental:
            continue
        ref = None
        for name, mm, ik in reps:
            if kern in M.PY and m['n'] == 4 and name not in ('sz', 'ssq', 'sym/default'):
                continue
            if m['n'] == 6 and kern != 'Pauli' and name not in ('sz', 'ssq', 'sym/default'):
                continue
            b = M.build(mm, kern, **kw, **ik)
            b.make_kern_copy = True
            M.solve(b)
            if ref is None and (not b.success or M.kern_gap(b) < 1e-9):
                R.count('no_unique_stationary_state')
                break
            R.ev()
            R.nt([case, name, kern])
            o = observe(b)
            if accidental:
                o.pop('coh')
            if ref is None:
                ref = o
            else:
                compare(R, '%s:%s vs sz' % (kern, name), o, ref, 1e-5 if case['it'] == 0 else 1e-7)
            R.outcome(np.round(o['cur'], 10).tolist())
