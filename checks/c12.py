"""C12: histories of restrictions, edits and solves against an independently tracked state space."""
import itertools

import numpy as np

from lib import models as M
from lib.ref import fock, master
from lib.snap import snap, compare

ID = 'C12'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit enumeration of all restriction/edit/solve histories of the real builders up to a depth; every reached state is '
             'compared with an independent transition system (removed Fock states, kept eigenstates, kept coherences) and with the '
             'dense master equation restricted to it')
NOTE = ('all sequences up to length 3 (thorough: 4) of remove_states, remove_coherences (several energies each), remove_fock_states '
        '(several lists), use_all_states, edits and solves, in every approach; first-order results are compared with an independent '
        'reference, RTD and 2vN with a new builder given the same restriction; longer histories are not covered')
RULE = ('state = (removed Fock states, kept eigenstates, kept coherences, edits, energies known); transition = one operation on the '
        'real builder; after every sequence the system is solved and its states, energies, amplitudes, density matrix and currents '
        'are compared')
ASSUMPTIONS = ['restrictions by energy are made when the energies are known (a solve since the last change of the Hamiltonian)',
               'use_all_states keeps Fock states removed', 'models without degenerate levels']

# operations per model: energies chosen between the level spacings
OPS = {
    'D2': ['rs:0.3', 'rs:0.7', 'rs:5', 'rc:0.2', 'rc:5', 'rf:0', 'rf:3', 'rf:1', 'rf:0,2', 'ua', 's', 'h', 'tl', 'mu'],
    'D2a': ['rs:0.04', 'rs:0.5', 'rs:5', 'rc:0.02', 'rc:1', 'rf:0', 'rf:3', 'rf:2', 'ua', 's', 'h', 'mu'],
    'T3': ['rs:0.5', 'rs:1.1', 'rc:0.25', 'rc:0.45', 'rc:0.6', 'rf:0', 'rf:7', 'rf:3,5', 'ua', 's', 'h', 'tl'],
    'A2': ['rs:0.25', 'rs:0.6', 'rc:0.1', 'rf:0', 'rf:3', 'ua', 's', 'h', 'mu'],
    'A2s': ['rs:0.25', 'rs:1.6', 'rc:0.1', 'rf:3', 'ua', 's', 'mu'],
    'F4': ['rs:0.5', 'rs:1.2', 'rc:0.25', 'rf:15', 'rf:3,5', 'ua', 's', 'h'],
    'D2p': ['rs:0.3', 'rs:0.7', 'rc:0.2', 'rf:0', 'rf:3', 'ua', 's', 'h', 'v'],
    'D2p2': ['rs:0.04', 'rs:0.5', 'rc:0.02', 'rf:3', 'ua', 's', 'h', 'v'],
    'T3p': ['rs:0.5', 'rs:1.1', 'rc:0.45', 'rf:3,5', 'ua', 's', 'v'],
}
OPS['D2r'] = OPS['D2']


def seqs(ops, n):
    """all sequences of up to n operations that contain a restriction; a solve is not repeated."""
    for r in range(1, n+1):
        for p in itertools.product(ops, repeat=r):
            if any(o[0] in 'ru' for o in p) and not any(a == b == 's' for a, b in zip(p, p[1:])) and p[-1] != 's':
                yield list(p)


def cases(tier):
    q = tier == 'quick'
    out = []

    def add(m, kern, depth, ops=None, **kw):
        ss = list(seqs(ops or OPS[m], depth))
        for i in range(0, len(ss), 150):
            out.append(dict(m=m, kern=kern, hs=ss[i:i+150], **kw))
    d = 3 if q else 4
    add('D2', 'Pauli', 3)
    for k in M.COMP:
        add('D2', k, 3, None if k in ('1vN', 'Redfield') or not q else OPS['D2'][:1]+OPS['D2'][3:9]+['ua', 's', 'h'])
        add('D2a', k, 3, None if not q else OPS['D2a'][:2]+OPS['D2a'][3:8]+['ua', 's', 'h'])
        add('T3', k, 2, ix='Lin' if k == 'Pauli' else 'charge')
        add('T3', k, 3, ['rs:0.5', 'rs:1.1', 'rc:0.45', 'rf:3,5', 'ua', 's', 'h'] if q else None)
        add('A2', k, 3 if k == '1vN' or not q else 2, ix='sz')
        add('A2s', k, 3 if k == '1vN' or not q else 2, ix='sz')
        add('A2s', k, 3, ['rs:0.25', 'rs:1.6', 'rc:0.1', 'ua', 's', 'mu'], ix='ssq')
        add('D2', k, 2, ix='Lin')
        add('D2p', k, 2 if q else 3)
        add('D2p2', k, 2)
        add('T3p', k, 2)
        add('F4', k, 2)
        if not q:
            add('D2', k, 4, ['rs:0.3', 'rs:0.7', 'rc:0.2', 'rf:3', 'rf:0', 'ua', 's', 'h'])
            add('T3', k, 4, ['rs:1.1', 'rc:0.45', 'rf:3,5', 'rf:7', 'ua', 's'])
            add('A2', k, 4, ['rs:0.6', 'rc:0.1', 'rf:3', 'ua', 's', 'h'], ix='sz')
            add('T3', k, 4, ['rs:1.1', 'rc:0.45', 'rf:3,5', 'rf:7', 'ua', 's'], ix='Lin')
    for k in M.PY:
        add('D2', k, 2)
        add('T3', k, 2, ['rs:0.5', 'rs:1.1', 'rc:0.45', 'rf:3,5', 'ua', 's'])
        if not q:
            add('D2a', k, 3, ['rs:0.04', 'rs:0.5', 'rc:0.02', 'rf:3', 'ua', 's', 'h'])
    # a selection of states without the ground state
    for k in M.COMP + M.PY:
        add('D2', k, 3 if k in M.COMP else 2, ['ug', 'rs:0.3', 'rs:0.7', 'rc:0.2', 'rf:3', 'ua', 's', 'h'])
        if k in M.COMP or not q:
            add('D2a', k, 2, ['ug', 'rs:0.04', 'rs:0.5', 'rc:0.02', 'ua', 's', 'h'])
            add('T3', k, 2, ['ug', 'rs:0.5', 'rs:1.1', 'rc:0.45', 'rf:3,5', 'ua', 's'], ix='Lin' if k == 'Pauli' else 'charge')
            add('A2', k, 2, ['ug', 'rs:0.25', 'rs:0.6', 'rc:0.1', 'ua', 's', 'mu'], ix='sz')
            add('D2p', k, 2, ['ug', 'rs:0.3', 'rs:0.7', 'rc:0.2', 'ua', 's', 'v'])
    add('D2r', 'RTD', 2, ['ug', 'rs:0.3', 'rs:0.7', 'ua', 's', 'h'])
    add('D2', '2vN', 2, ['ug', 'rs:0.7', 'rc:0.2', 'ua', 's'])
    add('D2r', 'RTD', 3, ['rs:0.3', 'rs:0.7', 'rc:0.2', 'rf:3', 'rf:0', 'ua', 's', 'h'])
    add('D2r', 'pyRTD', 2, ['rs:0.7', 'rc:0.2', 'rf:3', 'ua', 's', 'h'])
    add('D2a', '2vN', 2)
    add('D2', '2vN', 3, ['rs:0.7', 'rc:0.2', 'rf:3', 'ua', 's', 'h'])
    add('D2', 'py2vN', 2, ['rs:0.7', 'rc:0.2', 'rf:3', 'ua', 's'] if q else None)
    if not q:
        add('T3', 'RTD', 2)
        add('D2r', 'RTD', 4, ['rs:0.7', 'rc:0.2', 'rf:3', 'ua', 's'])
        add('T3', '2vN', 2, ['rs:1.1', 'rc:0.45', 'rf:3,5', 'ua', 's'])
        add('D2a', '2vN', 3, ['rs:0.5', 'rc:0.02', 'rf:3', 'ua', 's', 'h'])
    return out


def cost(case):
    k = case['kern']
    return len(case['hs'])*(8 if 'py' in k or '2vN' in k else 2 if case['m'][:2] in ('T3', 'F4') else 1)


def model(m):
    if m == 'D2r':
        x = M.model('D2')
        return x
    return M.model(m)


def make(case):
    kw = {}
    k = case['kern']
    if k not in M.RTD:
        kw['itype'] = 1
    if k in M.VN2:
        kw['kpnt'] = 24
    if case.get('ix', 'charge') != 'charge':
        kw['indexing'] = case['ix']
    if case['m'] in M.SPIN:
        kw['symmetry'] = 'spin'
    return M.build(model(case['m']), k, **kw)


def solve(b, **kw):
    if b.kerntype in M.VN2:
        kw.setdefault('niter', 1)
    b.solve(**kw)


CH = {'h': ('hsingle', (0, 0), 0.037), 'tl': ('tleads', (1, 1), 0.06), 'v': ('velph', (0, 0, 0), 0.09)}


def apply(b, o):
    f, _, x = o.partition(':')
    if f == 'rs':
        b.remove_states(float(x))
    elif f == 'rc':
        b.remove_coherences(float(x))
    elif f == 'rf':
        b.remove_fock_states([int(i) for i in x.split(',')])
    elif f == 'ug':
        g = int(np.argmin(b.Ea))
        for si in (b.si, b.si_elph) if hasattr(b, 'si_elph') else (b.si,):
            si.set_statesdm([[i for i in lst if i != g] for lst in b.si.chargelst])
    elif f == 'ua':
        b.use_all_states()
    elif f == 's':
        solve(b)
    elif f == 'mu':
        b.change(mulst={0: 0.12})
    else:
        n, k, v = CH[f]
        b.change(**{n: {k: v}})


class Ref(object):
    """The transition system: parameters, removed Fock states, kept eigenstates and coherences.

    Eigenstates are numbered by charge, then (spin projection,) energy."""

    def __init__(self, case):
        m = model(case['m'])
        if case['m'] in M.SPIN:
            from checks.c08 import explicit
            m = explicit(m)
        self.m, self.ix = m, case.get('ix', 'charge')
        self.removed = set()
        self.known = True
        self.E = None
        self.kept = self.coh = None
        self.diag()
        self.all()

    def all(self):
        n = len(self.E)
        self.kept = set(range(n))
        self.coh = {(i, j) for i in range(n) for j in range(i+1, n)}

    _memo = {}

    def diag(self):
        key = str((self.m, sorted(self.removed), self.ix))
        if key in self._memo:
            self.E, self.ch, self.T, self.V = self._memo[key]
            return
        m = self.m
        n = m['n']
        rem = [i for i in range(2**n) if i not in self.removed]
        sel = np.ix_(rem, rem)
        H = (fock.h_hop(n, M.dct(m['h'])) + fock.h_coul(n, M.dct(m['U'])))[sel]
        N = np.rint(np.diag(fock.number(n))).astype(int)[rem]
        d = fock.ann(n)
        S = np.rint(np.diag(sum((1 if 2*i < n else -1)*d[i].T @ d[i] for i in range(n)))).astype(int)[rem]
        if self.ix not in ('sz', 'ssq'):
            S = 0*S
        E, ch, vec = [], [], []
        for c, s in sorted(set(zip(N.tolist(), S.tolist()))):
            idx = [i for i in range(len(rem)) if N[i] == c and S[i] == s]
            w, v = np.linalg.eigh(H[np.ix_(idx, idx)])
            for k in range(len(idx)):
                x = np.zeros(len(rem), dtype=complex)
                x[idx] = v[:, k]
                E.append(w[k])
                ch.append(c)
                vec.append(x)
        U = np.array(vec).T.reshape(len(rem), len(vec))
        T = np.array([U.conj().T @ t[sel] @ U for t in fock.t_lead(n, m['nl'], M.dct(m['t']))])
        V = None
        if 'v' in m:
            V = np.array([U.conj().T @ v[sel] @ U for v in fock.v_bath(n, m['nb'], M.dct(m['v']))])
        self.E, self.ch, self.T, self.V = self._memo[key] = np.array(E), ch, T, V

    def apply(self, o):
        """False if the operation is outside the stated domain."""
        f, _, x = o.partition(':')
        if f in ('rs', 'rc', 'ug') and not self.known:
            return False
        if f == 'rs':
            lim = self.E.min()+float(x)
            self.all()
            self.kept = {i for i in self.kept if self.E[i] < lim}
        elif f == 'rc':
            self.coh = {(i, j) for i, j in self.coh if abs(self.E[i]-self.E[j]) <= float(x)}
        elif f == 'rf':
            self.removed |= {int(i) for i in x.split(',')}
            self.diag()
            self.all()
            self.known = False
        elif f == 'ug':
            self.all()
            self.kept.discard(int(np.argmin(self.E)))
        elif f == 'ua':
            self.all()
        elif f == 's':
            self.known = True
        elif f == 'mu':
            self.m['mu'][0] = 0.12
            if self.ix in ('sz', 'ssq') and self.m['n'] == 2 and 'A2s' == self.spin:
                self.m['mu'][2] = 0.12
        else:
            n, k, v = CH[f]
            self.m[{'hsingle': 'h', 'tleads': 't', 'velph': 'v'}[n]][M.tk(k)] = v
            self.diag()
            if f == 'h':
                self.known = False
        return True

    spin = None


_memo = {}


def reference(r, case):
    kind = master.KIND[case['kern'].replace('py', '')]
    kept = sorted(r.kept)
    coh = sorted((i, j) for i, j in r.coh if r.ch[i] == r.ch[j])
    m = r.m
    key = str((kind, m, r.ix, sorted(r.removed), kept, coh))
    if key not in _memo:
        if len(_memo) > 3000:
            _memo.clear()
        kw = {}
        if r.V is not None:
            nb = m['nb']
            kw = dict(V=r.V, temp_ph=m['Tph'], band_ph=m['Dph'], J=[lambda x: 1.0]*nb, eps=1e-6, itype_ph=0)
        p = master.Problem(r.E, r.ch, r.T, m['mu'], m['T'], m['D'], kept=kept, coh=coh, itype=1, **kw)
        if r.ix in ('sz', 'ssq'):
            pass
        with np.errstate(all='ignore'):
            _memo[key] = (p,) + p.solve(kind)
    return _memo[key]


def run(case, R):
    for h in case['hs']:
        one(case, h, R)


def one(case, h, R):
    r = Ref(case)
    r.spin = case['m']
    # domain first
    known = True
    for o in h:
        if o[:2] in ('rs', 'rc', 'ug') and not known:
            R.count('energies_unknown_skipped')
            return
        if o[:2] == 'rf' or o == 'h':
            known = False
        elif o == 's':
            known = True
    if all(o[:2] in ('rf', 's', 'mu', 'ua') for o in h) is False and case.get('ix') == 'ssq' and any(o[:2] == 'rf' for o in h):
        return
    b = make(case)
    solve(b)
    R.trace()
    for o in h:
        apply(b, o)
        r.apply(o)
        R.step()
        R.state([case['m'], case['kern'], case.get('ix'), sorted(r.removed), sorted(r.kept), sorted(r.coh), str(r.m), r.known])
    if len(r.E) == 0 or not r.kept:
        return
    solve(b)
    R.step()
    tag = case['kern']+':'
    R.ev()
    # match the states of the builder with those of the reference: by charge (and spin), then energy
    n = len(r.E)
    if not R.check(len(b.Ea) == n, tag+'states', lambda: '%d states, expected %d' % (len(b.Ea), n)):
        return
    bc = M.charges(b)
    E = M.arr(b.Ea).real
    if case['m'] == 'A2s':
        # spin degenerate: compare sorted energies, currents, total populations
        weak = True
        perm = sorted(range(n), key=lambda i: (bc[i], round(E[i], 7)))
        rp = sorted(range(n), key=lambda i: (r.ch[i], round(r.E[i], 7)))
    else:
        weak = False
        perm = sorted(range(n), key=lambda i: (bc[i], E[i]))
        rp = sorted(range(n), key=lambda i: (r.ch[i], r.E[i]))
    R.check([bc[i] for i in perm] == [r.ch[i] for i in rp], tag+'charges', 'charges of the remaining states differ')
    R.check(M.close(E[perm], r.E[rp], 1e-10, 1e-11), tag+'energies', lambda: M.diff(E[perm], r.E[rp]))
    if not weak:
        Tb = np.abs(M.arr(b.Tba))[:, perm][:, :, perm]
        Tr = np.abs(r.T)[:, rp][:, :, rp]
        R.check(M.close(Tb, Tr, 1e-9, 1e-11), tag+'amplitudes', lambda: M.diff(Tb, Tr))
        inv = {i: k for k, i in enumerate(perm)}
        keptb = sorted(inv[i] for lst in b.si.statesdm for i in lst)
        keptr = sorted(rp.index(i) for i in r.kept)
        if case.get('ix') not in ('ssq',):
            R.check(keptb == keptr, tag+'kept', lambda: 'kept states (by charge, energy) %s, expected %s' % (keptb, keptr))
    if case['kern'] in M.FIRST:
        p, rho, cur, ecur = reference(r, case)
        if p.gap < 1e-8 or p.residual > 1e-8:
            R.count('no_unique_stationary_state')
            return
        R.nt([case['m'], case['kern'], case.get('ix'), sorted(r.removed), sorted(r.kept), sorted(r.coh)])
        if not R.check(bool(b.success), tag+'success', 'reported failure'):
            return
        rt = 1e-7*max(1.0, 1e-2/p.gap)
        g = 2*np.pi*max(np.abs(p.T).max()**2, 1e-12)
        R.check(M.close(b.current, cur, rt, rt*g), tag+'current', lambda: M.diff(b.current, cur))
        R.check(M.close(b.energy_current, ecur, rt, rt*g), tag+'energy current', lambda: M.diff(b.energy_current, ecur))
        d = M.density(b)
        if not weak:
            ks = np.zeros(n)
            ks[[perm[k] for k in keptr]] = 1
            d = (d*np.outer(ks, ks))[perm][:, perm]
            rr = rho[rp][:, rp]
            R.check(M.close(np.abs(d), np.abs(rr), rt, 1e-11), tag+'density', lambda: M.diff(np.abs(d), np.abs(rr)))
        R.outcome(np.round(cur, 9).tolist())
    else:
        # a new builder given the restriction at once
        w = fresh(case, r, perm if not weak else None, rp)
        if w is None:
            return
        R.nt([case['m'], case['kern'], sorted(r.removed), sorted(r.kept), sorted(r.coh)])
        compare(R, snap(b), w, tag[:-1])


_fresh = {}


def fresh(case, r, perm, rp):
    key = str((case['m'], case['kern'], r.m, sorted(r.removed), sorted(r.kept), sorted(r.coh)))
    if key not in _fresh:
        if len(_fresh) > 3000:
            _fresh.clear()
        b = make(dict(case, m=case['m']))
        # the parameters
        m = r.m
        b.change(hsingle={k: v for k, v in M.dct(m['h']).items()}, tleads=M.dct(m['t']),
                 mulst={i: v for i, v in enumerate(m['mu'])})
        if r.removed:
            b.remove_fock_states(sorted(r.removed))
        solve(b)
        bc = M.charges(b)
        E = M.arr(b.Ea).real
        pm = sorted(range(len(E)), key=lambda i: (bc[i], E[i]))
        mp = {i: pm[k] for k, i in enumerate(rp)}
        kept = {mp[i] for i in r.kept}
        b.si.set_statesdm([[i for i in lst if i in kept] for lst in b.si.chargelst])
        coh = {frozenset((mp[i], mp[j])) for i, j in r.coh}
        drop = [p for lst in b.si.statesdm for p in itertools.combinations(lst, 2) if frozenset(p) not in coh]
        if drop:
            b.si.remove_coherences(drop)
        solve(b)
        _fresh[key] = snap(b) if b.success else None
    return _fresh[key]
