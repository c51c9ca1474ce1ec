"""C22: histories of staged solves."""
import itertools

import numpy as np

from lib import models as M
from lib.ref import master
from checks.c12 import Ref

ID = 'C22'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit enumeration of all histories of solve stages and edits of the real builders against an independent transition '
             'system (parameters, diagonalised Hamiltonian, rotated amplitudes) decided by the dense master equation after every stage')
NOTE = ('all sequences up to length 4 (thorough: 5) of the stage combinations of solve() and edits of levels, tunnelling, leads and '
        'phonon couplings, compared after every master-equation stage, for all approaches; an exactly repeated solve must reproduce '
        'the result to 1e-12; longer histories are not covered')
RULE = ('state = (parameters of the last diagonalisation, of the last rotation, current lead parameters, stages of the last operation); '
        'transition = one edit or one solve() call with one combination of stages')
ASSUMPTIONS = ['the first operation diagonalises and rotates', 'currents after a stage with currentq=False are unspecified',
               'RTD and 2vN are compared with a new builder and only when Hamiltonian and amplitudes are of the same parameters']

# solve(): qdq, rotateq, masterq, currentq
ST = {'F': (1, 1, 1, 1), 'Q': (1, 1, 0, 1), 'q': (1, 0, 0, 1), 'M': (0, 1, 1, 1), 'm': (0, 0, 1, 0), 'Fm': (1, 1, 1, 0),
      'qM': (1, 0, 1, 1), '0': (0, 0, 0, 1), 'N': (0, 0, 1, 1), 'R': (0, 1, 0, 0)}
ED = ['h', 'tl', 'mu', 'T']
CH = {'h': ('hsingle', 'h', (0, 0), (0.037, 0.15)), 'tl': ('tleads', 't', (1, 1), (0.06, 0.085)),
      'v': ('velph', 'v', (0, 0, 0), (0.09, 0.04)), 'mu': ('mulst', 'mu', 0, (0.12, 0.3)), 'T': ('tlst', 'T', 1, (0.37, 0.5)),
      'Tp': ('tlst_ph', 'Tph', 0, (0.6, 0.4))}


def cases(tier):
    q = tier == 'quick'
    out = []

    def add(m, kern, depth, ops, first=('F', 'Q', 'Fm'), **kw):
        for f in first:
            for s in ops:
                if depth <= 2:
                    out.append(dict(m=m, kern=kern, pre=[f], d=depth-1, ops=ops, **kw))
                    break
                out.append(dict(m=m, kern=kern, pre=[f, s], d=depth-2, ops=ops, **kw))
    al = list(ST)+ED
    for k in M.COMP:
        add('D2', k, 4, al)
        add('D2p', k, 4 if not q else 3, ['F', 'Q', 'q', 'M', 'm', 'h', 'tl', 'v', 'Tp', 'mu'])
        add('T3', k, 3, al)
        add('D2a', k, 3, al, ix='Lin')
        add('A2', k, 3, al, ix='sz')
        if not q:
            add('D2', k, 5, ['F', 'Q', 'q', 'M', 'm', 'qM', 'h', 'tl', 'mu', '0'])
            add('D2a', k, 4, al)
            add('D2p2', k, 4, ['F', 'Q', 'q', 'M', 'm', 'h', 'tl', 'v', 'Tp', 'mu'])
            add('T3', k, 4, ['F', 'Q', 'q', 'M', 'm', 'h', 'tl', 'mu'])
    for k in M.PY:
        add('D2', k, 3, al)
        add('D2p', k, 3, ['F', 'Q', 'q', 'M', 'h', 'tl', 'v', 'mu'])
        if not q:
            add('D2', k, 4, ['F', 'Q', 'q', 'M', 'm', 'h', 'tl', 'mu'])
    add('D2', 'RTD', 4, ['F', 'Q', 'M', 'm', 'h', 'tl', 'mu', 'T'], first=('F', 'Q'))
    add('D2', 'pyRTD', 3, ['F', 'Q', 'M', 'h', 'mu'], first=('F', 'Q'))
    add('D2a', '2vN', 3 if q else 4, ['F', 'Q', 'M', 'h', 'tl', 'mu', 'T'], first=('F', 'Q'))
    add('D2', 'py2vN', 3, ['F', 'Q', 'M', 'h', 'mu'], first=('F',))
    return out


def cost(case):
    k = case['kern']
    return len(case['ops'])**case['d']*(20 if 'py' in k or '2vN' in k else 3 if k == 'RTD' else 1)


def make(case):
    from checks import c12
    return c12.make(case)


class Sys(object):
    """Hamiltonian of the last diagonalisation, amplitudes of the last rotation, present lead parameters."""

    def __init__(self, case):
        self.now = Ref(case)
        self.q = self.rot = None
        self.n = {}

    def edit(self, o, b):
        arg, f, k, vals = CH[o]
        if o == 'tl':
            k = (0, 0)          # present in every model
        i = self.n.get(o, 0)
        self.n[o] = 1-i
        v = vals[i]
        b.change(**{arg: {k: v}})
        if isinstance(k, tuple):
            self.now.m[f][M.tk(k)] = v
            self.now.diag()
        else:
            self.now.m[f][k] = v

    def stage(self, s):
        if s[0]:
            self.q = (self.now.E, self.now.ch, str((self.now.m['h'],)))
            if s[1]:
                self.rot = (self.now.T, self.now.V, str((self.now.m['h'], self.now.m['t'])))

    def key(self):
        m = self.now.m
        return str((self.q[2], self.rot[2], m['mu'], m['T'], m.get('Tph'), m.get('v') if self.rot[1] is None else self.rot[1].tobytes()))


_memo = {}


def reference(s, case):
    kind = master.KIND[case['kern'].replace('py', '')]
    key = case['m']+str(case.get('ix'))+kind+s.key()
    if key not in _memo:
        if len(_memo) > 4000:
            _memo.clear()
        m = s.now.m
        kw = {}
        if s.rot[1] is not None:
            kw = dict(V=s.rot[1], temp_ph=list(m['Tph']), band_ph=m['Dph'], J=[lambda x: 1.0]*m['nb'], eps=1e-6, itype_ph=0)
        p = master.Problem(s.q[0], s.q[1], s.rot[0], list(m['mu']), list(m['T']), m['D'], itype=1, **kw)
        with np.errstate(all='ignore'):
            _memo[key] = (p,) + p.solve(kind)
    return _memo[key]


_fresh = {}


def fresh(s, case):
    key = case['m']+case['kern']+s.key()
    if key not in _fresh:
        if len(_fresh) > 4000:
            _fresh.clear()
        b = make(case)
        m = s.now.m
        b.change(hsingle=M.dct(m['h']), tleads=M.dct(m['t']), mulst=dict(enumerate(m['mu'])), tlst=dict(enumerate(m['T'])))
        b.solve(**(dict(niter=1) if case['kern'] in M.VN2 else {}))
        _fresh[key] = (M.density(b), M.currents(b))
    return _fresh[key]


def run(case, R):
    for tail in itertools.product(case['ops'], repeat=case['d']):
        one(case, case['pre']+list(tail), R)


def one(case, h, R):
    b = make(case)
    s = Sys(case)
    kern = case['kern']
    R.trace()
    prev = None
    for i, o in enumerate(h):
        R.step()
        if o in ED + ['v', 'Tp']:
            s.edit(o, b)
            prev = None
            R.state([case['m'], kern, case.get('ix'), s.key() if s.q else '', str(s.now.m)])
            continue
        st = ST[o]
        kw = dict(niter=1) if kern in M.VN2 else {}
        b.solve(qdq=bool(st[0]), rotateq=bool(st[1]), masterq=bool(st[2]), currentq=bool(st[3]), **kw)
        s.stage(st)
        R.state([case['m'], kern, case.get('ix'), s.key(), str(s.now.m), st[2:]])
        tag = '%s:' % kern
        n = len(s.q[0])
        bc = M.charges(b)
        E = M.arr(b.Ea).real
        perm = sorted(range(n), key=lambda i: (bc[i], E[i]))
        rp = sorted(range(n), key=lambda i: (s.q[1][i], s.q[0][i]))
        R.check(M.close(E[perm], s.q[0][rp], 1e-10, 1e-11), tag+'energies', lambda: '%s at %d: %s' % (h, i, M.diff(E[perm], s.q[0][rp])))
        if not st[2]:
            continue
        R.ev()
        cur = M.currents(b)
        d = M.density(b)
        if kern in M.FIRST:
            p, rho, c1, c2 = reference(s, case)
            if p.gap < 1e-8 or p.residual > 1e-8:
                R.count('no_unique_stationary_state')
                prev = None
                continue
            rt = 1e-7*max(1.0, 1e-2/p.gap)
            g = 2*np.pi*max(np.abs(p.T).max()**2, 1e-12)
            ok = R.check(bool(b.success), tag+'success', lambda: '%s at %d: failed' % (h, i))
            dd, rr = np.abs(d)[perm][:, perm], np.abs(rho)[rp][:, rp]
            R.check(M.close(dd, rr, rt, 1e-11), tag+'density', lambda: '%s at %d: %s' % (h, i, M.diff(dd, rr)))
            if st[3]:
                R.check(M.close(cur[0], c1, rt, rt*g), tag+'current', lambda: '%s at %d: %s' % (h, i, M.diff(cur[0], c1)))
                R.check(M.close(cur[1], c2, rt, rt*g), tag+'energy current', lambda: '%s at %d: %s' % (h, i, M.diff(cur[1], c2)))
                hc = c2-c1*np.array(s.now.m['mu'])
                R.check(M.close(cur[2], hc, rt, 2*rt*g), tag+'heat current', lambda: '%s at %d: %s' % (h, i, M.diff(cur[2], hc)))
        elif str((s.now.m['h'],)) == s.q[2] and str((s.now.m['h'], s.now.m['t'])) == s.rot[2]:
            rho, c = fresh(s, case)
            R.check(M.close(np.abs(d), np.abs(rho), 1e-7, 1e-11), tag+'density', lambda: '%s at %d: %s' % (h, i, M.diff(np.abs(d), np.abs(rho))))
            if st[3] or kern in M.VN2:
                for k in range(3):
                    if not (k and kern in M.RTD and np.isnan(c[k]).all() and np.isnan(cur[k]).all()):
                        R.check(M.close(cur[k], c[k], 1e-7, 1e-12), tag+'current', lambda: '%s at %d: %s' % (h, i, M.diff(cur[k], c[k])))
        # the same stages again without changes
        if prev is not None and prev[0] == s.key() and st[3]:
            R.count('exact_repetitions')
            R.check(M.close(np.nan_to_num(cur), np.nan_to_num(prev[1]), 1e-12, 1e-18) and M.close(d, prev[2], 1e-12, 1e-15),
                    tag+'repeat', lambda: '%s at %d: %s' % (h, i, M.diff(cur, prev[1])))
        prev = (s.key(), cur, d) if st[3] else None
        R.outcome(np.round(np.nan_to_num(cur[0]), 9).tolist())
