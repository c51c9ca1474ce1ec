"""C24: histories of diagonalising single symmetry sectors and of changes of basis."""
import itertools

import numpy as np

from lib import models as M
from lib.ref import fock, master

ID = 'C24'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit enumeration of all histories of sector diagonalisations, edits and basis changes of the real quantum dot, lead and '
             'bath objects against an independent transition system holding, per sector, the Hamiltonian it was last diagonalised with')
NOTE = ('all sequences of length 3 (thorough: 4) over sector diagonalisation, full diagonalisation, setting of energies, edits and '
        'rotation with either procedure or none, for all four indexings, with and without removed Fock states and phonons, from a '
        'constructed dot in every (small dots) or in all rotated orders of the sectors; longer histories are not covered')
RULE = ('state = (version of the Hamiltonian of each sector, present Hamiltonian, versions in the energies, versions and procedure of the '
        'amplitudes); transition = one public method call on qd, leads, baths')
ASSUMPTIONS = ['sectors are named with the labels of the indexing: charge; charge and sz; charge, sz and ssq',
               'the amplitudes are rotated when every sector has been diagonalised', "models conserve spin for 'sz', and total spin for 'ssq'"]

X = {
    # one orbital and two orbitals with total-spin symmetry, couplings that conserve spin, one and two baths
    'A2u': dict(n=2, h={'0,0': 0.1, '1,1': 0.1}, U={'0,1,1,0': 1.3}, nl=4, t={'0,0': 0.1, '1,0': [0.06, 0.03], '2,1': 0.12, '3,1': [0.05, -0.07]},
                mu=[0.4, -0.3, 0.3, -0.2], T=[0.4, 0.5, 0.45, 0.55], D=[[-13., 13.]]*4, nb=1, v={'0,0,0': 0.05, '0,1,1': 0.05}, Tph=[0.45], Dph=[[0.01, 11.]]),
    'S4u': dict(M.BASE['S4'], t={'0,0': 0.1, '0,1': [0.02, 0.05], '1,1': [0.07, 0.03], '2,2': 0.1, '3,3': [0.07, 0.03], '3,2': [0.03, -0.01]}, nb=2,
                v={'0,0,0': 0.05, '0,2,2': 0.05, '0,0,1': [0.02, 0.03], '0,2,3': [0.02, 0.03], '1,1,0': [0.01, 0.04], '1,3,2': [0.01, 0.04]},
                Tph=[0.45, 0.3], Dph=[[0.01, 11.], [0.02, 9.]]),
}
X['A2q'] = dict(X['A2u'], t={'0,0': 0.1, '1,0': [0.06, 0.03], '2,1': 0.1, '3,1': [0.06, 0.03]}, mu=[0.4, -0.3]*2, T=[0.4, 0.5]*2)
X['S4q'] = dict(X['S4u'], t={'0,0': 0.1, '0,1': [0.02, 0.05], '1,1': [0.07, 0.03], '2,2': 0.1, '2,3': [0.02, 0.05], '3,3': [0.07, 0.03]})
EDIT = {   # two values each, applied alternately with change(); spin-symmetric
    'h': {'A2u': [{(0, 0): 0.3, (1, 1): 0.3}, {(0, 0): -0.2, (1, 1): -0.2}],
          'S4u': [{(0, 0): 0.3, (2, 2): 0.3, (0, 1): 0.1-0.2j, (2, 3): 0.1-0.2j}, {(0, 0): -0.2, (2, 2): -0.2, (0, 1): 0.3, (2, 3): 0.3}],
          'A2': [{(0, 0): 0.3, (1, 1): -0.4}, {(0, 0): -0.6, (1, 1): 0.7}],
          'S4': [{(0, 0): 0.3, (3, 3): 0.2, (0, 1): 0.1-0.2j}, {(0, 0): -0.2, (3, 3): 0.25, (2, 3): 0.3}],
          'A2q': [{(0, 0): 0.3, (1, 1): 0.3}, {(0, 0): -0.2, (1, 1): -0.2}],
          'S4q': [{(0, 0): 0.3, (2, 2): 0.3, (0, 1): 0.1-0.2j, (2, 3): 0.1-0.2j}, {(0, 0): -0.2, (2, 2): -0.2, (0, 1): 0.3, (2, 3): 0.3}],
          None: [{(0, 0): 0.31, (0, 1): 0.1-0.2j}, {(0, 0): -0.25, (0, 1): 0.3+0.05j}]},
    'U': {'A2u': [{(0, 1, 1, 0): 0.9}, {(0, 1, 1, 0): 1.6}], 'S4u': [{(0, 2, 2, 0): 1.1}, {(1, 3, 3, 1): 0.4}],
          'S4q': [{(0, 2, 2, 0): 1.1}, {(1, 3, 3, 1): 0.4}],
          None: [{(0, 1, 1, 0): 0.8}, {(0, 1, 1, 0): 1.7}]},
    't': {'A2q': [{(0, 0): 0.03+0.06j, (2, 1): 0.03+0.06j}, {(0, 0): 0.12, (1, 0): 0.05j, (2, 1): 0.12, (3, 1): 0.05j}],
          'S4q': [{(0, 0): 0.03+0.06j, (2, 2): 0.03+0.06j}, {(0, 0): 0.12, (1, 0): 0.05j, (2, 2): 0.12, (3, 2): 0.05j}],
          'S4': [{(0, 0): 0.03+0.06j, (3, 3): 0.09}, {(0, 0): 0.12, (3, 2): 0.05j}],
          'S4u': [{(0, 0): 0.03+0.06j, (3, 3): 0.09}, {(0, 0): 0.12, (3, 2): 0.05j}],
          'A2': [{(0, 0): 0.03+0.06j, (3, 1): 0.09}, {(0, 0): 0.12, (2, 1): 0.05j}],
          'A2u': [{(0, 0): 0.03+0.06j, (3, 1): 0.09}, {(0, 0): 0.12, (2, 1): 0.05j}],
          None: [{(0, 0): 0.03+0.06j, (1, 1): 0.09}, {(0, 0): 0.12, (1, 0): 0.05j}]},
    'v': {'A2q': [{(0, 0, 0): 0.09, (0, 1, 1): 0.09}, {(0, 0, 0): 0.01+0.03j, (0, 1, 1): 0.01+0.03j}],
          'S4q': [{(0, 0, 0): 0.09, (0, 2, 2): 0.09}, {(0, 0, 1): 0.01+0.03j, (0, 2, 3): 0.01+0.03j}],
          'S4u': [{(0, 0, 0): 0.09, (0, 2, 2): 0.02j}, {(0, 0, 1): 0.01+0.03j, (0, 3, 3): 0.02}],
          None: [{(0, 0, 0): 0.09, (0, 1, 1): 0.02j}, {(0, 0, 0): 0.01+0.03j, (0, 1, 1): 0.07}]},
}


def szrange(c, n):
    k = min(c, n-c)
    return list(range(-k, k+1, 2))


def sectors(n, ix):
    out = []
    for c in range(n+1):
        if ix in ('charge', 'Lin'):
            out.append((c,))
            continue
        for sz in szrange(c, n):
            if ix == 'sz':
                out.append((c, sz))
            else:
                out += [(c, sz, s) for s in range(abs(sz), min(c, n-c)+1, 2)]
    return out


def cases(tier):
    q = tier == 'quick'
    out = []
    cfg = [('A2u', 'sz', []), ('A2q', 'ssq', []), ('A2u', 'charge', []), ('A2u', 'Lin', []), ('A2', 'sz', [3]), ('A2', 'sz', [1]),
           ('D2p', 'charge', []), ('D2p', 'Lin', []), ('D2p2', 'charge', [1]), ('T3p', 'charge', []), ('T3p', 'Lin', [5]),
           ('S4u', 'sz', []), ('S4q', 'ssq', []), ('S4', 'sz', [15, 6]), ('S4u', 'sz', [3, 12, 8]), ('S4u', 'charge', [9]), ('L1', 'charge', []),
           ('F4', 'charge', []), ('T3', 'Lin', [])]
    for m, ix, rf in cfg:
        n = (X.get(m) or M.MODELS[m])['n']
        for ham in (0, 1) if ix == 'ssq' else (0,):
            out.append(dict(kind='order', m=m, ix=ix, rf=rf, ham=ham))
            ops = ['D', 'E', 'h', 'U', 'R', 'L', '0', 't', 'M']
            mm = X.get(m) or M.MODELS[m]
            if 'nb' in mm:
                ops.append('v')
            if n == 1:
                ops.remove('U')
            sec = sectors(n, ix)
            sec = ['d%d' % i for i in (range(len(sec)) if len(sec) < 5 else [1, 2, len(sec)//2])]
            d = 3 if q else 4
            for a in ops+sec:
                for b in (ops+sec if d > 3 else ['']):
                    out.append(dict(kind='hist', m=m, ix=ix, rf=rf, ham=ham, pre=[a]+([b] if b else []), d=d-1-bool(b), ops=ops+sec))
    return out


def cost(case):
    n = (X.get(case['m']) or M.MODELS[case['m']])['n']
    return 600 if case['kind'] == 'order' else len(case['ops'])**case['d']*4**n/4


class Sys(object):
    def __init__(self, case):
        self.m = M.model(X.get(case['m']) or case['m'])
        self.name, self.ix = case['m'], case['ix']
        n = self.n = self.m['n']
        kw = dict(indexing=case['ix'], kerntype='Pauli')
        import qmeq
        self.b = (qmeq.BuilderElPh if 'nb' in self.m else qmeq.Builder)(**dict(M.args(self.m), **kw))
        if case['rf']:
            self.b.remove_fock_states(list(case['rf']))
        if case.get('ham'):
            # the Hamiltonians of all sz sectors are stored
            b = self.b
            b.qd = qmeq.QuantumDot(b.qd.hsingle, b.qd.coulomb, b.si, mtype=complex, ham_ssq_q=True)
        b = self.b
        self.h, self.U = M.dct(self.m['h']), M.dct(self.m['U'])
        self.t, self.v = M.dct(self.m['t']), M.dct(self.m.get('v', {}))
        self.k = {}
        self.sec = sectors(n, self.ix)
        rem = set(case['rf'])
        # own Fock labels: position of every state in the full basis
        self.pos = []
        for i in range(int(b.si.nmany)):
            st = [int(x) for x in b.si.get_state(i)]
            self.pos.append(sum(x << (n-1-j) for j, x in enumerate(st)))
        self.kept = len(self.pos) == 2**n-len(rem) and not set(self.pos) & rem and len(set(self.pos)) == len(self.pos)
        self.dH = {}            # sector -> (version, Hamiltonian)
        self.E = None           # versions in qd.Ea
        self.T = None           # (procedure, versions, t version, v version)
        self.build()

    def build(self):
        p = np.ix_(self.pos, self.pos)
        H = fock.h_hop(self.n, self.h) + fock.h_coul(self.n, self.U)
        self.H = H[p]
        nl, nb = self.m['nl'], self.m.get('nb', 0)
        self.T0 = np.array([x[p] for x in fock.t_lead(self.n, nl, self.t)])
        self.V0 = np.array([x[p] for x in fock.v_bath(self.n, nb, self.v)]) if nb else None
        self.ver = str((sorted(self.h.items()), sorted(self.U.items())))

    def states(self, s):
        """positions of the sector (without total spin) in the order of the states"""
        n, h = self.n, self.n//2
        out = []
        for i, x in enumerate(self.pos):
            st = [(x >> (n-1-j)) & 1 for j in range(n)]
            if sum(st) == s[0] and (len(s) == 1 or sum(st[:h])-sum(st[h:]) == s[1]):
                out.append(i)
        return out

    def edit(self, o):
        i = self.k.get(o, 0)
        self.k[o] = 1-i
        e = EDIT[o].get(self.name, EDIT[o][None])[i]
        if self.n == 1:
            e = {x: y for x, y in e.items() if not any(z > 0 for z in x[1 if o == 't' else 0:])}
        b = self.b
        if o == 'h':
            b.qd.change(hsingle=dict(e))
            self.h.update(e)
        elif o == 'U':
            b.qd.change(coulomb=dict(e))
            self.U.update(e)
        elif o == 't':
            b.leads.change(tleads=dict(e))
            self.t.update(e)
        else:
            b.baths.change(velph=dict(e))
            self.v.update(e)
        self.build()


def run(case, R):
    if case['kind'] == 'order':
        s = Sys(case)
        k = len(s.sec)
        perms = itertools.permutations(range(k)) if k < 6 else [tuple(np.roll(range(k), i)) for i in range(k)]+[tuple(range(k))[::-1]]
        for p in perms:
            if case['ix'] in ('charge', 'Lin') or k >= 6:
                edits = [None] + [('h', j) for j in (0, k//2, k-1)]
            else:
                edits = [None] + [('h', j) for j in range(k)]
            for e in edits:
                h = []
                for j, i in enumerate(p):
                    h.append('d%d' % i)
                    if e and j == e[1]:
                        h.append(e[0])
                hist(case, h+['E', 'R', 'L', '0', 'M'], R, Sys(case))
        return
    # a history is checked after its last operation and, for the first history with that beginning, before
    for tail in itertools.product(case['ops'], repeat=case['d']):
        k = len(tail)
        while k and tail[k-1] == case['ops'][0]:
            k -= 1
        hist(case, ['D']+case['pre']+list(tail), R, Sys(case), 1+len(case['pre'])+k-1 if k else 0)


def hist(case, ops, R, s, first=0):
    """first: checks are made after operations from this one on (before, other histories make them)."""
    b = s.b
    tag = '%s:%s' % (s.ix, s.name)
    R.check(s.kept, 'states:'+tag, lambda: 'states of the dot are not the kept Fock states: %s' % s.pos)
    if not s.kept:
        return
    R.trace()
    for i, o in enumerate(ops):
        R.step()
        c = {'m': case['m'], 'ix': s.ix, 'rf': case['rf'], 'history': ops[:i+1]}
        if o in EDIT:
            s.edit(o)
        elif o == 'D':
            b.qd.diagonalise()
            for x in s.sec:
                s.dH[x] = (s.ver, s.H)
            s.E = {x: s.dH[x] for x in s.sec}
        elif o[0] == 'd':
            x = s.sec[int(o[1:])]
            r = b.qd.diagonalise_charge(*x)
            s.dH[x] = (s.ver, s.H)
            if i >= first:
                sector(s, x, r, R, c)
        elif o == 'E':
            b.qd.set_Ea()
            s.E = {x: s.dH[x] for x in s.sec}
        elif o in 'RL':
            ix = None if o == 'R' else 'Lin'
            b.leads.rotate(b.qd.vecslst, ix)
            if s.V0 is not None:
                b.baths.rotate(b.qd.vecslst, ix)
            s.T = ('P', {x: s.dH[x] for x in s.sec}, s.T0, s.V0, full(s))
            if i >= first:
                amplitudes(s, R, c)
        elif o == '0':
            b.leads.use_Tba0()
            if s.V0 is not None:
                b.baths.use_Vbbp0()
            s.T = ('0', None, s.T0, s.V0, None)
            if i >= first:
                amplitudes(s, R, c)
        elif o == 'M':
            if s.T is not None and s.E is not None:
                solved(s, R, c, i >= first)
        R.state([case['m'], s.ix, case['rf'], s.ver, sorted((x, v[0]) for x, v in s.dH.items()),
                 sorted((x, v[0]) for x, v in s.E.items()) if s.E else None, s.T and s.T[0], str(s.t), str(s.v)])
    # what is there at the end
    c = {'m': case['m'], 'ix': s.ix, 'rf': case['rf'], 'history': ops}
    for x in s.sec:
        sector(s, x, None, R, c)
    energies(s, R, c)
    if s.T is not None:
        amplitudes(s, R, c)
    R.outcome([len(s.dH), np.round(M.arr(b.Ea), 9).tolist()])


def block(s, x):
    """vectors and values of one sector as stored by the dot"""
    q = s.b.qd
    if len(x) == 1:
        return q.valslst[x[0]], q.vecslst[x[0]]
    i = szrange(x[0], s.n).index(x[1])
    if len(x) == 2:
        return q.valslst[x[0]][i], q.vecslst[x[0]][i]
    k = list(range(abs(x[1]), min(x[0], s.n-x[0])+1, 2)).index(x[2])
    return q.valslst[x[0]][i][k], q.vecslst[x[0]][i][k]


def sector(s, x, r, R, c):
    """Vectors of the sector: orthonormal eigenvectors of the Hamiltonian of its last diagonalisation."""
    st = s.states(x)
    if x not in s.dH or not st:
        return
    R.ev()
    H = s.dH[x][1][np.ix_(st, st)]
    val, vec = (np.asarray(z) for z in block(s, x))
    tag = s.ix+':'+s.name
    if r is not None:
        R.check(np.array_equal(r[0], val) and np.array_equal(r[1], vec), 'returned:'+tag, lambda: '%s: returned values are not the stored ones' % c)
    if len(x) == 3:
        S2 = fock.s2(s.n)[np.ix_([s.pos[i] for i in st], [s.pos[i] for i in st])]
        want = x[2]/2*(x[2]/2+1)
        w = np.linalg.eigvalsh(H+100*(S2-want*np.eye(len(st))) @ (S2-want*np.eye(len(st))))
        k = int(round(np.sum(np.abs(np.linalg.eigvalsh(S2)-want) < 1e-6)))
        w = np.sort(w)[:k]
        R.check(vec.shape == (len(st), k) and M.close(S2 @ vec, want*vec, 1e-9, 1e-10), 'total spin:'+tag, lambda: '%s %s' % (c, x))
    else:
        w = np.linalg.eigvalsh(H)
        k = len(st)
    if not R.check(val.shape == (k,) and vec.shape == (len(st), k), 'shape:'+tag, lambda: '%s %s: %s %s' % (c, x, val.shape, vec.shape)):
        return
    R.check(M.close(np.sort(val), w, 1e-10, 1e-11), 'sector energies:'+tag, lambda: '%s %s: %s' % (c, x, M.diff(np.sort(val), w)))
    R.check(M.close(vec.conj().T @ vec, np.eye(k), 0, 1e-10) and M.close(H @ vec, vec*val, 1e-10, 1e-10), 'sector vectors:'+tag,
            lambda: '%s %s: %s' % (c, x, M.diff(H @ vec, vec*val)))


def columns(s):
    """index of the eigenstates of every sector, by the lists of the indexing"""
    si = s.b.si
    return {x: list(si.get_lst(*x)) for x in s.sec}


def full(s):
    P = np.zeros((len(s.pos), len(s.pos)), dtype=complex)
    for x, cols in columns(s).items():
        st = s.states(x)
        if st:
            P[np.ix_(st, cols)] = block(s, x)[1]
    return P


def energies(s, R, c):
    if s.E is None:
        return
    tag = s.ix+':'+s.name
    E = M.arr(s.b.Ea)
    cols = columns(s)
    got = sorted(i for v in cols.values() for i in v)
    R.check(got == list(range(len(s.pos))), 'state lists:'+tag, lambda: '%s: %s' % (c, cols))
    for x, i in cols.items():
        st = s.states(x)
        if len(x) == 3 or not st:
            continue
        w = np.linalg.eigvalsh(s.E[x][1][np.ix_(st, st)])
        R.check(M.close(np.sort(E[i]), w, 1e-10, 1e-11), 'energies:'+tag, lambda: '%s %s: %s' % (c, x, M.diff(np.sort(E[i]), w)))


def amplitudes(s, R, c):
    how, _, T0, V0, P = s.T
    tag = s.ix+':'+s.name
    R.ev()
    f = (lambda A: np.array([P.conj().T @ a @ P for a in A])) if how == 'P' else (lambda A: A)
    T = f(T0)
    R.check(M.close(s.b.leads.Tba, T, 1e-11, 1e-12), 'tunnelling amplitudes:'+tag, lambda: '%s: %s' % (c, M.diff(s.b.leads.Tba, T)))
    if V0 is not None:
        V = f(V0)
        W = M.arr(s.b.baths.Vbbp)
        # the diagonal in charge is what the equations use
        R.check(M.close(W, V, 1e-11, 1e-12), 'phonon amplitudes:'+tag, lambda: '%s: %s' % (c, M.diff(W, V)))


def solved(s, R, c, judge=True):
    """One solve without diagonalising and rotating: the rate equation of present energies and amplitudes."""
    b, m = s.b, s.m
    if b.appr.qd is not b.qd:
        return
    if s.ix == 'ssq' and (s.T[0] == '0' or any(len(set(v[0] for v in w.values())) > 1 for w in (s.T[1], s.E))):
        return              # the multiplets have to be eigenstates of the total spin of one Hamiltonian
    tag = s.ix+':'+s.name
    with np.errstate(all='ignore'):
        b.solve(qdq=False, rotateq=False)
    if not judge:
        return
    how, _, T0, V0, P = s.T
    f = (lambda A: np.array([P.conj().T @ a @ P for a in A])) if how == 'P' else (lambda A: A)
    kw = {}
    if V0 is not None:
        kw = dict(V=f(V0), temp_ph=list(m['Tph']), band_ph=m['Dph'], J=[lambda x: 1.0]*m['nb'], eps=1e-6, itype_ph=0)
    E = M.arr(b.Ea)
    ch = M.charges(b)
    key = str((E.tobytes(), f(T0).tobytes(), kw.get('V', E).tobytes(), s.name, s.ix))
    if key not in _memo:
        if len(_memo) > 3000:
            _memo.clear()
        p = master.Problem(E, ch, f(T0), m['mu'], m['T'], m['D'], itype=1, **kw)
        with np.errstate(all='ignore'):
            _memo[key] = (p,)+p.solve('Pauli')
    p, rho, c1, c2 = _memo[key]
    if p.gap < 1e-8 or p.residual > 1e-8:
        R.count('no_unique_stationary_state')
        return
    R.ev()
    d = np.real(np.diag(M.density(b)))
    rt = 1e-7*max(1.0, 1e-2/p.gap)
    g = 2*np.pi*max(np.abs(p.T).max()**2, 1e-12)
    R.check(M.close(d, np.real(np.diag(rho)), rt, 1e-11), 'solve density:'+tag, lambda: '%s: %s' % (c, M.diff(d, np.diag(rho))))
    R.check(M.close(b.current, c1, rt, rt*g), 'solve current:'+tag, lambda: '%s: %s' % (c, M.diff(b.current, c1)))
    R.check(M.close(b.energy_current, c2, rt, rt*g), 'solve energy current:'+tag, lambda: '%s: %s' % (c, M.diff(b.energy_current, c2)))


_memo = {}
