"""C03: many-body Hamiltonian, eigenstates and coupling operators against Jordan-Wigner operators."""
import itertools

import numpy as np

from lib import models as M
from lib.ref import fock

ID = 'C03'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of operator positions, orders, options and indexings against Jordan-Wigner matrices'
CASE_TIMEOUT = 600
NOTE = ('every hopping, Coulomb, lead and phonon index tuple up to 3 levels (tuples with distinct effect up to 4; thorough 5), '
        'every pair of hoppings, all elements at once in dots of up to 8 (thorough: 10) levels, every indexing and option, generic complex values; oracle is an independent Jordan-Wigner '
        'construction; values other than the alphabet are not enumerated (the operators are linear in them)')
RULE = ('evaluation = one model built and diagonalised by the real code with all its operators compared; distinct = '
        'different (levels, indexing, options, set of non-zero elements, removed states)')
ASSUMPTIONS = ['hsingle[(i,j)] multiplies d_j^+ d_i, tleads[(l,i)] d_i^+, velph[(b,i,j)] d_i^+ d_j',
               'operators are linear in their amplitudes, so that generic values represent all values']

EPS = [0.31, -0.27, 0.12, 0.53, -0.44]


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
        for ind in ('charge', 'Lin'):
            out.append(dict(kind='hop', n=n, ind=ind, herm=1))
            if n < 5:
                out.append(dict(kind='hop', n=n, ind=ind, herm=0))
            for l in range(n):
                out.append(dict(kind='lead', n=n, ind=ind, l=l))
            for j in range(n):
                out.append(dict(kind='bath', n=n, ind=ind, j=j))
            if n > 1:
                for a, b in itertools.product(range(n), repeat=2):
                    if n > 3 and (a > b and q or n == 5 and ind == 'Lin'):
                        continue
                    for hc, mn in itertools.product((0, 1), repeat=2):
                        out.append(dict(kind='coul', n=n, ind=ind, a=a, b=b, hc=hc, mn=mn))
    for n in (2, 4) if q else (2, 4, 6):
        for ind in ('sz', 'charge', 'Lin'):
            out.append(dict(kind='szhop', n=n, ind=ind))
            for a, b in itertools.product(range(n), repeat=2) if n < 6 else []:
                out.append(dict(kind='szcoul', n=n, ind=ind, a=a, b=b))
            for l in range(4):
                out.append(dict(kind='szlead', n=n, ind=ind, l=l))
    for no in (1, 2) if q else (1, 2, 3):
        for ind in ('ssq', 'sz', 'charge', 'Lin'):
            for f in range(4):
                out.append(dict(kind='ssq', n=2*no, ind=ind, form=f))
    for n in (2, 3):
        for ind in ('charge', 'Lin'):
            out.append(dict(kind='fock', n=n, ind=ind))
    for n in (5, 6, 7, 8) if q else (5, 6, 7, 8, 9, 10):
        for ind in ('charge', 'Lin'):
            if n < 9:
                out.append(dict(kind='wide', n=n, ind=ind))
            out.append(dict(kind='wide', n=n, ind=ind, dens=1))
        if n % 2 == 0:
            if n < 9:
                out.append(dict(kind='wide', n=n, ind='sz'))
            out.append(dict(kind='wide', n=n, ind='sz', dens=1))
            for ind in ('ssq', 'sz', 'charge') if n < 10 else ():
                out.append(dict(kind='wide', n=n, ind=ind, spin=1))
    for n in (2, 4, 6, 8) if q else (2, 4, 6, 8, 10):
        for ind in ('sz', 'ssq'):
            out.append(dict(kind='spinop', n=n, ind=ind))
    for m in M.BASE:
        if m != 'L1x3':
            out.append(dict(kind='base', model=m))
    for m in M.PH:
        out.append(dict(kind='base', model=m))
    for u in (2.0**-72, 2.0**40):
        out += [dict(c, u=u) for c in out if 'u' not in c and (c['kind'] == 'base' or c.get('n', 9) < 4 or
                                                               not q and c['kind'] != 'wide' and c['n'] < 5)]
    return out


def cost(case):
    if case['kind'] == 'wide':
        return 2**case['n']
    return case.get('n', 3) + (3 if case['kind'] in ('ssq', 'hop', 'szhop') else 0)


def pmtr(b):
    """columns: eigenstates; rows: Fock states, both by qmeq's state index."""
    si, v = b.si, b.qd.vecslst
    P = np.zeros((si.nmany, si.nmany), dtype=complex)
    if si.indexing == 'sz':
        for c, bysz in enumerate(si.szlst):
            for z, lst in enumerate(bysz):
                if lst:
                    P[np.ix_(lst, lst)] = v[c][z]
    elif si.indexing == 'ssq':
        for c, bysz in enumerate(si.ssqlst):
            for z, byss in enumerate(bysz):
                rows = si.szlst[c][z]
                for s, cols in enumerate(byss):
                    if cols:
                        P[np.ix_(rows, cols)] = v[c][z][s]
    else:
        for c, lst in enumerate(si.chargelst):
            if lst:
                P[np.ix_(lst, lst)] = v[c]
    return P


_unit = [1.0]


def verify(R, tag, kw, H, T=None, V=None, removed=None, spin=False, hermitian=True, n=None, diag=True, chk_hamlst=True):
    import qmeq
    cls = qmeq.BuilderElPh if V is not None else qmeq.Builder
    u = _unit[0]
    if u != 1:
        # the same model in another unit of energy (a power of four, so nothing but the exponents changes)
        kw = dict(kw)
        for f, x in (('hsingle', u), ('coulomb', u), ('tleads', u**.5), ('velph', u**.5)):
            if f in kw:
                kw[f] = {k: v*x for k, v in kw[f].items()}
    b = cls(**kw)
    if removed is not None:
        b.remove_fock_states(list(removed))
    si = b.si
    n = kw['nsingle']
    full = fock.basis(n)
    idx = [full.index(tuple(int(x) for x in si.get_state(i))) for i in range(si.nmany)]
    if not R.check(len(set(idx)) == len(idx), tag + ':basis', 'repeated Fock state'):
        return
    sub = np.ix_(idx, idx)
    H = H[sub]
    R.ev()
    if si.indexing in ('charge', 'Lin') and chk_hamlst:
        # charge blocks of the many-body Hamiltonian itself
        for c, lst in enumerate(si.chargelst):
            if lst:
                got = np.asarray(b.qd.hamlst[c])/u
                R.check(M.close(got, H[np.ix_(lst, lst)], 1e-12, 1e-13), tag + ':hamiltonian',
                        lambda: 'charge %d: ' % c + M.diff(got, H[np.ix_(lst, lst)]))
    if T is not None:
        T = T[:, idx][:, :, idx]
    if V is not None:
        V = V[:, idx][:, :, idx]
    if not hermitian:
        return
    b.solve(masterq=False)
    P = pmtr(b)
    E = np.asarray(b.Ea).real/u
    one = np.eye(len(idx))
    R.check(M.close(P.conj().T @ P, one, 1e-10), tag + ':orthonormal')
    R.check(M.close(H @ P, P * E, 1e-10, 1e-11), tag + ':eigen', lambda: M.diff(H @ P, P * E))
    if diag:
        # ascending energies within each block
        for lst in si.chargelst if si.indexing in ('charge', 'Lin') else []:
            R.check(np.all(np.diff(E[lst]) > -1e-10), tag + ':order', str(E[lst]))
    if T is not None:
        for l in range(len(T)):
            w = P.conj().T @ T[l] @ P
            R.check(M.close(b.Tba[l]/u**.5, w, 1e-10, 1e-11), tag + ':Tba', lambda: 'lead %d: ' % l + M.diff(b.Tba[l]/u**.5, w))
    if V is not None:
        for l in range(len(V)):
            w = P.conj().T @ V[l] @ P
            R.check(M.close(b.baths.Vbbp[l]/u**.5, w, 1e-10, 1e-11), tag + ':Vbbp',
                    lambda: 'bath %d: ' % l + M.diff(b.baths.Vbbp[l]/u**.5, w))
    if spin:
        S2 = fock.s2(n)[sub]
        for c, bysz in enumerate(si.ssqlst):
            for z, byss in enumerate(bysz):
                for s, cols in enumerate(byss):
                    # lists start at the smallest total spin allowed by (charge, sz)
                    for j in cols:
                        v = S2 @ P[:, j]
                        sz = sum(full[idx[k]][i]*(1 if i < n//2 else -1) * abs(P[k, j])**2
                                 for k in range(len(idx)) for i in range(n))/2
                        lo = abs(sz)
                        S = lo + s
                        R.check(M.close(v, S*(S+1)*P[:, j], 1e-9, 1e-9), tag + ':total spin',
                                lambda: 'state %d charge %d sz %.2f listed S=%.2f' % (j, c, sz, S))
    return b


def base_kw(n, ind, h, t=None, U=None, **kw):
    nl = kw.pop('nl', 0)
    a = dict(nsingle=n, hsingle=h, coulomb=U or {}, nleads=nl, tleads=t or {}, mulst=[0.0]*nl or {}, tlst=[1.0]*nl or {},
             dband=[10.0]*nl or {}, kerntype='Pauli', indexing=ind)
    a.update(kw)
    return a


def spinop(n, ind, R):
    """The spin operators and eigenstates of total spin of every sector (in halves: S-, S+ doubled, S^2 four times)."""
    from qmeq import qdot
    from qmeq.indexing import StateIndexingDM
    si = StateIndexingDM(n, ind)
    d, h = fock.ann(n), n//2
    Sp = sum(d[i].T @ d[i+h] for i in range(h))
    S2 = fock.s2(n)
    full = fock.basis(n)
    pos = lambda c, sz: [full.index(tuple(int(x) for x in si.get_state(i))) for i in si.get_lst(c, sz)]
    low = qdot.ssquare_all_szlow(si)
    for c in range(n+1):
        top = min(c, n-c)
        for sz in range(-top, top+1, 2):
            R.ev()
            R.nt(['spinop', n, ind, c, sz])
            here = pos(c, sz)
            tag = 'spin n=%d charge %d sz %d' % (n, c, sz)
            for nm, f, to, op in (('S-', qdot.operator_sm, sz-2, Sp.T), ('S+', qdot.operator_sp, sz+2, Sp)):
                got = f(c, sz, si)
                if abs(to) > top:
                    R.check(np.all(np.asarray(got) == 0), 'spinop:edge', lambda: '%s: %s %s' % (tag, nm, got))
                else:
                    R.check(M.close(got, 2*op[np.ix_(pos(c, to), here)], 1e-12, 1e-12), 'spinop:'+nm, lambda: tag)
            s2 = S2[np.ix_(here, here)]
            R.check(M.close(qdot.operator_ssquare(c, sz, si), 4*s2, 1e-12, 1e-12), 'spinop:S2', lambda: tag)
            vecs = [qdot.ssquare_eigenstates(c, sz, si)]+([low[c]] if sz == -(c % 2) else [])
            for v in vecs:
                S = abs(sz)/2.
                R.check(M.close(np.hstack(v).conj().T @ np.hstack(v), np.eye(len(here)), 1e-9, 1e-9), 'spinop:complete', lambda: tag)
                for x in v:
                    R.check(M.close(s2 @ x, S*(S+1)*x, 1e-9, 1e-9), 'spinop:eigenstates', lambda: '%s S=%s' % (tag, S))
                    S += 1


def run(case, R):
    _unit[0] = case.get('u', 1.0)
    try:
        run1(case, R)
    finally:
        _unit[0] = 1.0


def run1(case, R):
    kind = case['kind']
    n, ind = case.get('n'), case.get('ind')
    if kind == 'hop':
        herm = bool(case['herm'])
        pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
        sets = [()] + [(p,) for p in pairs]
        if herm:
            sets += [(p, r) for p, r in itertools.combinations(pairs, 2)]
        for s in sets:
            h = {(i, i): EPS[i] for i in range(n)}
            for k, p in enumerate(s):
                v = [0.2+0.11j, -0.07+0.23j][k]
                h[p] = v
                if not herm:
                    h[(p[1], p[0])] = np.conj(v)
            R.nt(['hop', n, ind, herm, s])
            t = {(0, i): 0.1*(i+1)+0.03j for i in range(n)}
            T = fock.t_lead(n, 1, t)
            ref = fock.h_hop(n, h, herm)
            if herm or True:
                verify(R, 'hop%s' % (s,), base_kw(n, ind, h, t, nl=1, herm_hs=herm), ref, T)
            if not herm and s:
                # only one orientation given: a non-Hermitian input stays as it is
                h2 = {k: v for k, v in h.items() if k != (s[0][1], s[0][0])}
                verify(R, 'hop1%s' % (s,), base_kw(n, ind, h2, herm_hs=False), fock.h_hop(n, h2, False), hermitian=False)
    elif kind == 'coul':
        a, c = case['a'], case['b']
        hc, mn = bool(case['hc']), bool(case['mn'])
        h = {(i, i): EPS[i] for i in range(n)}
        for k, l in itertools.product(range(n), repeat=2):
            if mn and a > c:
                continue
            U = {(a, c, k, l): 0.7+0.4j if (a, c) != (l, k) else 0.7}
            R.nt(['coul', n, ind, a, c, k, l, hc, mn])
            ref = fock.h_hop(n, h) + fock.h_coul(n, U, hc, mn)
            her = np.allclose(ref, ref.conj().T)
            verify(R, 'coul%s' % ((a, c, k, l),), base_kw(n, ind, h, U=U, herm_c=hc, m_less_n=mn), ref, hermitian=her)
            if not hc and not her:
                U[(l, k, c, a)] = np.conj(U[(a, c, k, l)])
                ref = fock.h_hop(n, h) + fock.h_coul(n, U, hc, mn)
                verify(R, 'coulh%s' % ((a, c, k, l),), base_kw(n, ind, h, U=U, herm_c=hc, m_less_n=mn), ref)
    elif kind == 'lead':
        h = {(i, i): EPS[i] for i in range(n)}
        h.update({(i, i+1): 0.13+0.05j*i for i in range(n-1)})
        H = fock.h_hop(n, h)
        for i in range(n):
            for j in range(n):
                t = {(0, case['l']): 0.3-0.2j, (1, i): 0.1+0.4j, (2, j): 0.2j}
                R.nt(['lead', n, ind, case['l'], i, j])
                verify(R, 'lead', base_kw(n, ind, h, t, nl=3), H, fock.t_lead(n, 3, t))
    elif kind == 'bath':
        h = {(i, i): EPS[i] for i in range(n)}
        h.update({(i, i+1): 0.13+0.05j*i for i in range(n-1)})
        H = fock.h_hop(n, h)
        t = {(0, 0): 0.1}
        for i in range(n):
            for k in range(n):
                v = {(0, i, case['j']): 0.3-0.2j, (1, k, k): 0.15, (1, case['j'], k): 0.1+0.4j}
                R.nt(['bath', n, ind, case['j'], i, k])
                kw = base_kw(n, ind, h, t, nl=1, nbaths=2, velph=v, tlst_ph=[1., 1.], dband_ph=[[0.01, 10.]]*2)
                verify(R, 'bath', kw, H, fock.t_lead(n, 1, t), fock.v_bath(n, 2, v))
    elif kind == 'spinop':
        spinop(n, ind, R)
    elif kind == 'szhop':
        o = n//2
        pairs = [(i+s, j+s) for s in (0, o) for i in range(o) for j in range(o) if i != j]
        for s in [()] + [(p,) for p in pairs] + list(itertools.combinations(pairs, 2)):
            h = {(i, i): EPS[i % 5]+0.01*i for i in range(n)}
            for k, p in enumerate(s):
                h[p] = [0.2+0.11j, -0.07+0.23j][k]
            R.nt(['szhop', n, ind, s])
            t = {(0, 0): 0.1, (1, o-1): 0.2j, (2, o): 0.1+0.1j, (3, n-1): 0.3}
            v = {(0, 0, 0): 0.1, (0, n-1, n-1): 0.2}
            if o > 1:
                v.update({(0, 0, 1): 0.1+0.2j, (0, o+1, o): 0.3j})
            U = {(0, n-1, n-1, 0): 0.8, (0, o, o, 0): 0.6}
            kw = base_kw(n, ind, h, t, U, nl=4, nbaths=1, velph=v, tlst_ph=[1.], dband_ph=[[0.01, 10.]])
            verify(R, 'szhop%s' % (s,), kw, fock.h_hop(n, h) + fock.h_coul(n, U), fock.t_lead(n, 4, t),
                   fock.v_bath(n, 1, v))
    elif kind == 'szcoul':
        o = n//2
        a, c = case['a'], case['b']
        sp = lambda x: 0 if x < o else 1
        h = {(i, i): EPS[i]+0.01*i for i in range(n)}
        for k, l in itertools.product(range(n), repeat=2):
            if sorted((sp(a), sp(c))) != sorted((sp(k), sp(l))):
                continue
            U = {(a, c, k, l): 0.7+0.4j if (a, c) != (l, k) else 0.7}
            if (a, c) != (l, k):
                U[(l, k, c, a)] = np.conj(U[(a, c, k, l)])
            ref = fock.h_hop(n, h) + fock.h_coul(n, U)
            her = np.allclose(ref, ref.conj().T)
            R.nt(['szcoul', n, ind, a, c, k, l])
            verify(R, 'szcoul%s' % ((a, c, k, l),), base_kw(n, ind, h, U=U, m_less_n=False), ref, hermitian=her)
    elif kind == 'szlead':
        o = n//2
        h = {(i, i): EPS[i % 5]+0.01*i for i in range(n)}
        h.update({(i+s, i+1+s): 0.13+0.05j for i in range(o-1) for s in (0, o)})
        H = fock.h_hop(n, h)
        l = case['l']
        for i in range(o):
            for j in range(o):
                t = {(l, i+(o if l > 1 else 0)): 0.3-0.2j, ((l+2) % 4, j+(0 if l > 1 else o)): 0.1j}
                R.nt(['szlead', n, ind, l, i, j])
                verify(R, 'szlead', base_kw(n, ind, h, t, nl=4), H, fock.t_lead(n, 4, t))
    elif kind == 'ssq':
        no, f = n//2, case['form']
        tens = {}
        orbits = set()
        for m in itertools.product(range(no), repeat=4):
            a, b, k, l = m
            orbits.add(frozenset([m, (b, a, l, k), (l, k, b, a), (k, l, a, b)]))
        orbits = sorted(sorted(x) for x in orbits)
        hops = [(i, j) for i in range(no) for j in range(no) if i != j]
        sel = [(x,) for x in orbits] + (list(itertools.combinations(orbits, 2)) if no < 3 else [])
        for os_ in [()] + sel:
            W = {}
            for q, orb in enumerate(os_):
                # a tensor with the two symmetries of a Coulomb interaction
                val = (0.9, 0.5)[q]
                a, b, k, l = orb[0]
                for m in orb:
                    W[m] = val
                if (l, k, b, a) not in ((a, b, k, l), (b, a, l, k)):
                    z = val*np.exp(0.7j)
                    W[(a, b, k, l)] = W[(b, a, l, k)] = z
                    W[(l, k, b, a)] = W[(k, l, a, b)] = np.conj(z)
            U = {}
            for m in itertools.product(range(no), repeat=4):
                if m not in W:
                    continue
                a, b, k, l = m
                if f == 0:
                    U[m] = W[m]/2
                elif f == 1:
                    if (l, k, b, a) not in U:
                        U[m] = W[m]/2
                elif f == 2:
                    if a <= b:
                        U[m] = W[m]
                else:
                    if a <= b and (l, k, b, a) not in U:
                        U[m] = W[m]
            for hp in [None] + hops[:2]:
                h = {(i, i): EPS[i] for i in range(no)}
                if hp:
                    h[hp] = 0.2+0.11j
                t = {(0, 0): 0.1+0.2j, (1, no-1): 0.2}
                v = {(0, 0, 0): 0.1, (0, no-1, 0): 0.2+0.1j}
                h2, t2, v2 = fock.spin_double(dict(n=n, nl=4, h=h, t=t, v=v))
                W2 = {}
                for (a, b, k, l), z in W.items():
                    for s1, s2 in itertools.product((0, no), repeat=2):
                        W2[(a+s1, b+s2, k+s2, l+s1)] = z
                H = fock.h_hop(n, h2) + fock.coul_from_tensor(n, W2)
                R.nt(['ssq', n, ind, f, os_, hp])
                kw = base_kw(n, ind, h, t, U, nl=4, symmetry='spin', herm_c=f in (1, 3), m_less_n=f in (2, 3),
                             nbaths=1, velph=v, tlst_ph=[1.], dband_ph=[[0.01, 10.]])
                kw.update(mulst=[0., 0.], tlst=[1., 1.], dband=[10., 10.])
                verify(R, 'ssq', kw, H, fock.t_lead(n, 4, t2), fock.v_bath(n, 1, v2), spin=ind == 'ssq')
    elif kind == 'fock':
        h = {(i, j): 0.1*(i+1)*(j+2) + 0.03j*(j-i) for i in range(n) for j in range(i, n)}
        U = {(0, 1, 1, 0): 0.8}
        t = {(0, i): 0.1*(i+1)+0.05j for i in range(n)}
        v = {(0, i, j): 0.1*(i+1)-0.02j*j for i in range(n) for j in range(n)}
        H = fock.h_hop(n, h) + fock.h_coul(n, U)
        for r in range(0, 2**n-1):
            for rem in itertools.combinations(range(2**n), r):
                R.nt(['fock', n, ind, rem])
                kw = base_kw(n, ind, h, t, U, nl=1, nbaths=1, velph=v, tlst_ph=[1.], dband_ph=[[0.01, 10.]])
                b = verify(R, 'fock%s' % (rem,), kw, H, fock.t_lead(n, 1, t), fock.v_bath(n, 1, v), removed=rem)
    elif kind == 'wide':
        wide(case, R)
    elif kind == 'base':
        m = M.model(case['model'])
        n = m['n']
        h, U, t, v = M.dct(m['h']), M.dct(m['U']), M.dct(m['t']), M.dct(m.get('v', {}))
        for ind in ('charge', 'Lin'):
            kw = M.args(case['model'])
            kw.update(kerntype='Pauli', indexing=ind)
            R.nt(['base', case['model'], ind])
            verify(R, case['model'], kw, fock.h_hop(n, h) + fock.h_coul(n, U), fock.t_lead(n, m['nl'], t),
                   fock.v_bath(n, m['nb'], v) if v else None)


def gen(*k):
    """A generic complex number for each index tuple; no two sums of few of them coincide."""
    x = sum((3.7+i)**0.5*(1.3+j) for i, j in zip(range(1, 9), k))
    return complex(np.cos(7.1*x), np.sin(5.3*x+0.4))


def wide(case, R):
    """All elements of all operators at once, in dots of many levels."""
    n, ind = case['n'], case['ind']
    o = n//2
    dens, spin = case.get('dens'), case.get('spin')
    same = (lambda i, j: (i < o) == (j < o)) if ind == 'sz' else (lambda i, j: True)
    if spin:
        W = {}
        for a, c in itertools.product(range(o), repeat=2):
            W[(a, c, c, a)] = 1.1+0.3*abs(gen(min(a, c), max(a, c)))
            if a != c:
                W[(a, c, a, c)] = 0.2+0.1*abs(gen(max(a, c), min(a, c)))
        h = {(i, j): 0.3*gen(i, j) if i != j else 0.2*gen(i, i).real for i in range(o) for j in range(i, o)}
        t = {(l, i): 0.1*gen(l, i, 1) for l in range(2) for i in range(o)}
        v = {(0, i, j): 0.1*gen(i, j, 2, 1) for i in range(o) for j in range(o)}
        h2, t2, v2 = fock.spin_double(dict(n=n, nl=4, h=h, t=t, v=v))
        W2 = {}
        for (a, c, k, l), z in W.items():
            for s1, s2 in itertools.product((0, o), repeat=2):
                W2[(a+s1, c+s2, k+s2, l+s1)] = z
        H = fock.h_hop(n, h2) + fock.coul_from_tensor(n, W2)
        U = {k: z/2 for k, z in W.items()}
        kw = base_kw(n, ind, h, t, U, nl=4, symmetry='spin', herm_c=False, m_less_n=False, nbaths=1, velph=v, tlst_ph=[1.], dband_ph=[[0.01, 10.]])
        kw.update(mulst=[0., 0.], tlst=[1., 1.], dband=[10., 10.])
        R.nt(['wide', n, ind, 'spin'])
        verify(R, 'widespin', kw, H, fock.t_lead(n, 4, t2), fock.v_bath(n, 1, v2), spin=ind == 'ssq')
        return
    h = {(i, j): 0.3*gen(i, j) if i != j else 0.2*gen(i, i).real for i in range(n) for j in range(i, n) if same(i, j)}
    U = {}
    for m in itertools.product(range(n), repeat=4):
        a, c, k, l = m
        if not (a < c and k > l) or (a, c) > (l, k):
            continue
        if dens and (a, c) != (l, k):
            continue
        if ind == 'sz' and sorted((a < o, c < o)) != sorted((k < o, l < o)):
            continue
        U[m] = 0.2*gen(a, c, k, l) if (a, c) != (l, k) else 0.5+0.1*gen(a, c).real
    if ind == 'sz':
        t = {(l, i): 0.1*gen(l, i, 1) for l in range(4) for i in range(n) if (i < o) == (l < 2)}
    else:
        t = {(l, i): 0.1*gen(l, i, 1) for l in range(4) for i in range(n)}
    v = {(b, i, j): 0.1*gen(b, i, j, 1) for b in range(2) for i in range(n) for j in range(n) if same(i, j)}
    R.nt(['wide', n, ind, dens])
    kw = base_kw(n, ind, h, t, U, nl=4, herm_c=True, nbaths=2, velph=v, tlst_ph=[1.]*2, dband_ph=[[0.01, 10.]]*2)
    verify(R, 'wide', kw, fock.h_hop(n, h) + fock.h_coul(n, U, True), fock.t_lead(n, 4, t), fock.v_bath(n, 2, v))
