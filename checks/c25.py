"""C25: approaches defined by the user."""
import contextlib
import io
import itertools

import numpy as np

from lib import models as M

ID = 'C25'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of superoperator elements, options, restrictions and switching histories for user-defined Approach classes '
             'run by the real builders, against dense superoperators')
NOTE = ('every single element between two density-matrix elements (both quadratures) placed by a user approach; complete Lindblad generators in '
        'every combination of indexing, restriction, solution method, symq, norm_row; every history of length 3 (thorough: 4) of switching between '
        'user and built-in approaches, restrictions and edits; the generators are fixed generic ones')
RULE = ('evaluation = one solve or one kernel of a user-defined approach compared with the dense superoperator; distinct = different (model, '
        'indexing, restriction, element or options or history)')
ASSUMPTIONS = ['a user approach derives from qmeq.approach.aprclass.Approach or ApproachElPh and adds, per included unique element, the terms of '
               'the equation i d rho_bb\' = (E_b-E_b\') rho_bb\' + sum fct rho_aa\' through its kernel handler']

_cls = {}


def user(kind):
    """Approach classes as a user would write them."""
    if kind in _cls:
        return _cls[kind]
    from qmeq.approach.aprclass import Approach, ApproachElPh

    def pairs(si, kh):
        for c in range(si.ncharge):
            for a, ap in itertools.product(si.statesdm[c], repeat=2):
                if kh.is_included(a, ap, c):
                    yield c, a, ap

    class Base(object):
        terms = None            # set per case: function (states, charges, appr) -> fct(b, bp, a, ap)

        def generate_fct(self):
            self.calls = getattr(self, 'calls', 0)+1
            self.fct = type(self).terms(self)

        def generate_coupling_terms(self, b, bp, bcharge):
            kh = self.kernel_handler
            for c, a, ap in pairs(self.si, kh):
                f = self.fct(b, bp, a, ap)
                if f != 0:
                    kh.set_matrix_element(f, b, bp, bcharge, a, ap, c)

        def generate_current(self):
            kh = self.kernel_handler
            kh.set_phi0(self.phi0)
            for l in range(self.si.nleads):
                r = 0.0
                for c, a, ap in pairs(self.si, kh):
                    r += (np.cos(l+a+2*ap)*kh.get_phi0_element(a, ap, c)).real
                self.current[l] = r
                self.energy_current[l] = 2*r
                self.heat_current[l] = self.energy_current[l]-self.current[l]*self.leads.mulst[l]

    class Mine(Base, Approach):
        kerntype = 'mine'

    class MineElPh(Base, ApproachElPh):
        kerntype = 'mine'

    class MinePauli(Approach):
        kerntype = 'mine Pauli'
        terms = None

        def generate_norm_vec(self):
            self.norm_vec[:self.si.npauli] = [sum(1 for c in range(self.si.ncharge) for b in self.si.statesdm[c]
                                                  if self.si.get_ind_dm0(b, b, c) == i) for i in range(self.si.npauli)]

        def get_kern_size(self):
            return self.si.npauli

        def generate_fct(self):
            self.rate = type(self).terms(self)

        def generate_kern(self):
            si, kh = self.si, self.kernel_handler
            for c in range(si.ncharge):
                for b in si.statesdm[c]:
                    bb = si.get_ind_dm0(b, b, c)
                    for c2 in range(si.ncharge):
                        for a in si.statesdm[c2]:
                            if a != b:
                                kh.set_matrix_element_pauli(-self.rate(a, b), self.rate(b, a), bb, si.get_ind_dm0(a, a, c2))

        def generate_current(self):
            for l in range(self.si.nleads):
                self.current[l] = sum(np.cos(l+b)*self.phi0[self.si.get_ind_dm0(b, b, c)] for c in range(self.si.ncharge) for b in self.si.statesdm[c])
                self.energy_current[l] = 2*self.current[l]
                self.heat_current[l] = self.energy_current[l]-self.current[l]*self.leads.mulst[l]

    _cls.update(full=Mine, elph=MineElPh, pauli=MinePauli)
    return _cls[kind]


def jumps(n, ch, scale=0.3):
    """Generic jump operators that change the charge by one or not at all (entries by formula, no symmetry)."""
    c = np.array(ch)
    i, j = np.meshgrid(np.arange(n), np.arange(n), indexing='ij')
    A = np.cos(1+3*i+5*j)+1j*np.sin(2+i*j+i)
    B = np.sin(2+2*i+j)+1j*np.cos(i+4*j)
    return [scale*A*(c[:, None] == c[None, :]+1), scale*B*(c[:, None] == c[None, :]-1), 0.5*scale*(A+B)*(c[:, None] == c[None, :])]


def dissipator(Ls, rho):
    r = 0
    for L in Ls:
        G = L.conj().T @ L
        r = r + L @ rho @ L.conj().T-0.5*(G @ rho+rho @ G)
    return r


def elements(Ls, P):
    """fct(b, bp, a, ap) of i d rho = ... for the dissipator on the kept states."""
    Ls = [P @ L @ P for L in Ls]
    G = sum(L.conj().T @ L for L in Ls)

    def f(b, bp, a, ap):
        s = sum(L[b, a]*np.conj(L[bp, ap]) for L in Ls)
        if bp == ap:
            s = s-0.5*G[b, a]
        if b == a:
            s = s-0.5*G[ap, bp]
        return 1j*s
    return f


def cases(tier):
    q = tier == 'quick'
    out = []
    for m, ix in [('L1', 'charge'), ('D2a', 'charge'), ('D2a', 'Lin'), ('T3', 'charge'), ('T3', 'Lin'), ('A2', 'sz'), ('D2p', 'charge'), ('T3p', 'Lin'),
                  ('S4', 'sz')] + ([('F4', 'charge')] if not q else []):
        big = m in ('S4', 'F4')
        for rs in RESTR.get(m, [[]]) if not big or not q else [[], ['f15']]:
            out.append(dict(k='solve', m=m, ix=ix, rs=rs, rows=1 if big else 4))
            if not big:
                for pauli in (0, 1):
                    out.append(dict(k='pauli', m=m, ix=ix, rs=rs, mf=pauli))
            if not big and (m != 'T3' and m != 'T3p' or not q or not rs):
                out.append(dict(k='elem', m=m, ix=ix, rs=rs, mf=0))
                out.append(dict(k='elem', m=m, ix=ix, rs=rs, mf=1))
    for m in ('A2', 'S4'):
        for ix in ('ssq', 'sz', 'charge'):
            for rs in ([], ['s0.9'], ['s0.35']):
                out.append(dict(k='shared', m=m, ix=ix, rs=rs))
    for m in ('D2a', 'T3', 'D2p', 'A2', 'L1'):
        for k in M.FIRST+([] if m == 'D2p' else M.VN2+M.RTD):
            for name in (None, 'ApproachPauli' if k != 'Pauli' else 'Approach1vN', 'Approach'+k[0].upper()+k[1:]):
                out.append(dict(k='sub', m=m, kern=k, name=name))
    for m in ('D2a', 'D2p', 'L1'):
        for o in OPS:
            out.append(dict(k='hist', m=m, first=o, depth=3 if q else 4))
    return out


RESTR = {'D2a': [[], ['s0.3'], ['c0.01'], ['f3'], ['f2'], ['f0', 'c0.01']],
         'T3': [[], ['s0.9'], ['c0.4'], ['f7'], ['f2', 's1.0']], 'A2': [[], ['f3'], ['s0.25']], 'D2p': [[], ['f3'], ['c0.01']],
         'T3p': [[], ['f7', 'c0.4']], 'S4': [[], ['f15'], ['f9', 'f6'], ['s0.8']], 'F4': [[], ['f15'], ['s0.8'], ['c0.3']]}
OPS = ['u', 'p', 'b:Redfield', 'b:pyPauli', 'b:2vN', 's', 'c0.01', 'f2', 'h', 'ua']


def cost(case):
    return {'solve': 4, 'shared': 4, 'elem': 20, 'pauli': 1, 'sub': 6, 'hist': 30}[case['k']]*(30 if case['m'] == 'S4' else 3 if case['m'][0] == 'T' else 1)


def kind(m):
    return 'elph' if 'nb' in M.model(m) else 'full'


def build(case, cls, **kw):
    if 'ix' in case:
        kw['indexing'] = case['ix']
    b = M.build(case['m'], cls, **kw)
    return b


def restrict(b, rs):
    for r in rs:
        if r[0] == 'f':
            b.remove_fock_states([int(r[1:])])
    if any(r[0] != 'f' for r in rs):
        b.solve(masterq=False)
        for r in rs:
            if r[0] == 's':
                b.remove_states(float(r[1:]))
            elif r[0] == 'c':
                b.remove_coherences(float(r[1:]))


def system(b):
    """States, energies, kept pairs of the dot as a dense description."""
    si = b.si
    ch = list(M.charges(b))
    n = len(ch)
    kept = np.zeros(n, dtype=bool)
    for c in range(si.ncharge):
        kept[[int(x) for x in si.statesdm[c]]] = True
    E = M.arr(b.Ea).real
    return n, ch, kept, E


def coherent(b, rs, n, ch, kept, E, ix):
    """Which elements are part of the density matrix: same charge (and spin projection), kept, close in energy."""
    c = np.array(ch)
    m = (c[:, None] == c[None, :]) & kept[:, None] & kept[None, :]
    for r in rs:
        if r[0] == 'c':
            m &= np.abs(E[:, None]-E[None, :]) < float(r[1:])
    if ix == 'sz':
        sz = spin(b)
        m &= sz[:, None] == sz[None, :]
    m |= np.diag(kept)
    return m


def spin(b):
    n = int(b.si.nsingle)
    sz = np.zeros(int(b.si.nmany), dtype=int)
    for i in range(len(sz)):
        st = [int(x) for x in b.si.get_state(i)]
        sz[i] = sum(st[:n//2])-sum(st[n//2:])
    return sz


def hbasis(mask):
    n = len(mask)
    for i in range(n):
        for j in range(i, n):
            if mask[i, j]:
                for v in (1, 1j) if i != j else (1,):
                    r = np.zeros((n, n), dtype=complex)
                    r[i, j] = v
                    r[j, i] = np.conj(v)
                    yield r


def pack(b, mask, ch, rho):
    """rho as the vector of the builder."""
    si = b.si
    v = np.zeros(int(si.ndm0r))
    n = len(mask)
    for i in range(n):
        for j in range(n):
            if mask[i, j]:
                k = int(si.get_ind_dm0(i, j, int(ch[i])))
                if i == j:
                    v[k] = rho[i, i].real
                elif si.get_ind_dm0(i, j, int(ch[i]), maptype=3):
                    v[k] = rho[i, j].real
                    v[int(si.ndm0)+k-int(si.npauli)] = rho[i, j].imag
    return v


def stationary(E, mask, Ls, P):
    Ls = [P @ L @ P for L in Ls]
    B = list(hbasis(mask))
    H = np.diag(E).astype(complex)

    def co(r):
        return np.array([x for y in B for x in [np.sum(np.conj(y)*r).real/np.sum(np.abs(y)**2)]])
    A = np.array([co((-1j*(H @ r-r @ H)+dissipator(Ls, r))*mask) for r in B]).T
    t = np.array([np.trace(r).real for r in B])
    sv = np.linalg.svd(A)[1]
    gap = sv[-2]/sv[0] if len(sv) > 1 else 1.0
    x = np.linalg.lstsq(np.vstack([A, t]), np.concatenate([np.zeros(len(A)), [1.0]]), rcond=None)[0]
    return sum(a*r for a, r in zip(x, B)), gap


def scaled(b):
    """the generator depends on the present parameters of the model"""
    return 0.2+abs(float(np.real(M.arr(b.Ea)[-1])))*0.05+float(np.abs(M.arr(b.Tba)[0]).max())


def expect(b, rs, ix):
    n, ch, kept, E = system(b)
    mask = coherent(b, rs, n, ch, kept, E, ix)
    Ls = jumps(n, ch, scaled(b))
    rho, gap = stationary(E, mask, Ls, np.diag(kept.astype(float)))
    w = np.array([[[np.cos(l+a+2*ap) for ap in range(n)] for a in range(n)] for l in range(int(b.si.nleads))])
    cur = np.array([np.sum((x*rho*mask).real) for x in w])
    return rho, cur, gap, mask


def set_terms(b_or_cls):
    def terms(appr):
        si = appr.si
        n = int(si.nmany)
        ch = np.zeros(n, dtype=int)
        for c, lst in enumerate(si.chargelst):
            for i in lst:
                ch[i] = c
        kept = np.zeros(n)
        for c in range(si.ncharge):
            kept[[int(x) for x in si.statesdm[c]]] = 1
        sc = 0.2+abs(float(appr.qd.Ea[-1].real))*0.05+float(np.abs(appr.leads.Tba[0]).max())
        return elements(jumps(n, ch, sc), np.diag(kept))
    b_or_cls.terms = terms


def compare(b, rs, ix, R, tag, what, tol=1e-8):
    R.ev()
    rho, cur, gap, mask = expect(b, rs, ix)
    if gap < 1e-7:
        R.count('no_unique_stationary_state')
        return
    tol = max(tol, 1e-13/gap)
    R.check(bool(b.success), 'success:'+tag, lambda: what)
    d = M.density(b)
    R.check(M.close(d, rho, tol, tol), 'density:'+tag, lambda: '%s: %s' % (what, M.diff(d, rho)))
    R.check(M.close(b.current, cur, tol, 3*tol), 'current:'+tag, lambda: '%s: %s' % (what, M.diff(b.current, cur)))
    hc = 2*cur-cur*np.array(b.leads.mulst)
    R.check(M.close(b.heat_current, hc, tol, 6*tol) and M.close(b.energy_current, 2*cur, tol, 6*tol), 'heat current:'+tag,
            lambda: '%s: %s' % (what, M.diff(b.heat_current, hc)))
    R.outcome(np.round(cur, 6).tolist())


def run(case, R):
    with contextlib.redirect_stdout(io.StringIO()):
        globals()['run_'+case['k']](case, R)


def run_solve(case, R):
    cls = user(kind(case['m']))
    set_terms(cls)
    for symq, sol, mf in [(True, None, False), (True, 'solve', False), (True, 'lsqr', False), (False, None, False), (False, 'lsqr', False),
                          (True, None, True), (True, 'krylov', True)]:
        for row in range(case['rows']) if symq and not mf else (0,):
            b = build(case, cls, symq=symq, solmethod=sol, mfreeq=mf, norm_row=0, itype=1)
            restrict(b, case['rs'])
            if row >= int(b.si.npauli):
                continue
            b.norm_row = row
            b.solve()
            what = str([case, symq, sol, mf, row])
            R.nt([case, symq, sol, mf, row])
            R.step()
            R.check(b.kerntype == 'mine' and type(b.appr) is cls, 'class', what)
            if mf and not b.success:
                R.count('matrix_free_not_converged')
                continue
            compare(b, case['rs'], case['ix'], R, 'matrix-free' if mf else 'kernel', what, 5e-3 if mf else 1e-8)
            if not mf:
                # solving again gives the same
                d = M.density(b)
                b.solve(qdq=False, rotateq=False)
                R.check(M.close(M.density(b), d, 1e-13, 1e-14), 'again', lambda: '%s: %s' % (what, M.diff(M.density(b), d)))


def run_pauli(case, R):
    """Rates between all states; also the matrix-free form."""
    cls = user('pauli')
    if 'nb' in M.model(case['m']):
        return

    def rate(b, a):
        return 0.1+0.05*np.cos(3*b+a)

    cls.terms = lambda appr: rate
    b = build(case, cls, mfreeq=bool(case['mf']), itype=1)
    restrict(b, [r for r in case['rs'] if r[0] != 'c'])
    b.solve()
    n, ch, kept, E = system(b)
    st = [i for i in range(n) if kept[i]]
    W = np.array([[rate(i, j) if i != j else 0 for j in st] for i in st])
    W = W-np.diag(W.sum(0))
    x = np.linalg.lstsq(np.vstack([W, np.ones(len(st))]), np.concatenate([np.zeros(len(st)), [1.]]), rcond=None)[0]
    p = np.zeros(n)
    p[st] = x
    tol = 5e-3 if case['mf'] else 1e-9
    R.ev()
    R.nt(case)
    if case['mf'] and not b.success:
        R.count('matrix_free_not_converged')
        return
    d = np.real(np.diag(M.density(b)))
    R.check(M.close(d, p, tol, tol), 'rates:density', lambda: '%s: %s' % (case, M.diff(d, p)))
    cur = [sum(np.cos(l+i)*p[i] for i in st) for l in range(int(b.si.nleads))]
    R.check(M.close(b.current, cur, tol, 5*tol), 'rates:current', lambda: '%s: %s' % (case, M.diff(b.current, cur)))


def run_shared(case, R):
    """Rates that depend only on the energies and charges: states of one multiplet share a population."""
    from qmeq.approach.aprclass import Approach

    class Mult(Approach):
        kerntype = 'mine shared'

        def generate_coupling_terms(self, b, bp, bcharge):
            si, kh = self.si, self.kernel_handler
            if b != bp:
                kh.set_matrix_element(-0.3j, b, bp, bcharge, b, bp, bcharge)
                return
            for c in range(si.ncharge):
                for a in si.statesdm[c]:
                    kh.set_matrix_element(1j*rate(self.qd.Ea, b, a), b, b, bcharge, a, a, c)
                    kh.set_matrix_element(-1j*rate(self.qd.Ea, a, b), b, b, bcharge, b, b, bcharge)

        def generate_current(self):
            kh = self.kernel_handler
            kh.set_phi0(self.phi0)
            for l in range(self.si.nleads):
                self.current[l] = sum(np.cos(l+2*self.qd.Ea[a].real)*kh.get_phi0_element(a, a, c).real for c in range(self.si.ncharge) for a in self.si.statesdm[c])

    def rate(E, b, a):
        return 0.1+0.05*np.cos(3*round(E[b].real, 9)+2*round(E[a].real, 9))

    for symq, sol, mf in [(True, None, False), (True, 'lsqr', False), (False, None, False), (True, None, True)]:
        for row in range(3) if symq and not mf else (0,):
            b = build(case, Mult, symq=symq, solmethod=sol, mfreeq=mf, norm_row=0, itype=1)
            restrict(b, case['rs'])
            if row >= int(b.si.npauli):
                continue
            b.norm_row = row
            b.solve()
            what = str([case, symq, sol, mf, row])
            R.ev()
            R.nt(what)
            if mf and not b.success:
                R.count('matrix_free_not_converged')
                continue
            n, ch, kept, E = system(b)
            st = [i for i in range(n) if kept[i]]
            W = np.array([[rate(E, i, j) if i != j else 0 for j in st] for i in st])
            W = W-np.diag(W.sum(0))
            x = np.linalg.lstsq(np.vstack([W, np.ones(len(st))]), np.concatenate([np.zeros(len(st)), [1.]]), rcond=None)[0]
            p = np.zeros(n)
            p[st] = x
            tol = 5e-3 if mf else 1e-9
            d = np.array([np.real(b.get_phi0(i, i)) for i in range(n)])
            R.check(M.close(d, p, tol, tol), 'shared:density', lambda: '%s: %s' % (what, M.diff(d, p)))
            cur = [sum(np.cos(l+2*E[i])*p[i] for i in st) for l in range(int(b.si.nleads))]
            R.check(M.close(b.current, cur, tol, 5*tol), 'shared:current', lambda: '%s: %s' % (what, M.diff(b.current, cur)))


def run_elem(case, R):
    """One element at a time: the kernel (or its matrix-free action) is the dense superoperator."""
    cls = user(kind(case['m']))
    set_terms(cls)
    b = build(case, cls, symq=True, mfreeq=bool(case['mf']), itype=1)
    restrict(b, case['rs'])
    b.solve()
    n, ch, kept, E = system(b)
    mask = coherent(b, case['rs'], n, ch, kept, E, case['ix'])
    B = list(hbasis(mask))
    X = np.array([pack(b, mask, ch, r) for r in B]).T
    H = np.diag(E)
    pairs = [(i, j) for i in range(n) for j in range(n) if mask[i, j]]
    R.check(int(b.si.ndm0r) == len(B), 'size', lambda: '%s: %d elements, %d expected' % (case, b.si.ndm0r, len(B)))
    if int(b.si.ndm0r) != len(B):
        return
    for (i, j), (k, l) in itertools.product(pairs, repeat=2):
        for v in (0.7, 0.4j):
            # the element and its conjugate, so that a Hermitian matrix stays Hermitian
            el = {}
            el[(i, j, k, l)] = v
            el[(j, i, l, k)] = el.get((j, i, l, k), 0)-np.conj(v)
            f = lambda *x: el.get(x, 0)
            cls.terms = lambda appr: f
            want = []
            for r in B:
                d = -1j*(H @ r-r @ H)
                for (a, ap, c, cp), w in el.items():
                    d[a, ap] += -1j*w*r[c, cp]
                want.append(pack(b, mask, ch, d*mask))
            want = np.array(want).T
            R.ev()
            R.nt([case['m'], case['ix'], case['rs'], i, j, k, l, v.imag, case['mf']])
            b.appr.generate_fct()
            if case['mf']:
                got = []
                for x in X.T:
                    b.appr.generate_vec(x.copy())
                    g = M.arr(b.appr.dphi0_dt)
                    s = x[[int(b.si.get_ind_dm0(y, y, int(ch[y]))) for y in range(n) if mask[y, y]]].sum()
                    R.check(abs(g[0]-(s-1)) < 1e-12, 'norm:matrix-free', lambda: str(case))
                    got.append(g)
                got = np.array(got).T
                ni = len(B)-int(b.si.ndm0)
                if ni and not M.close(got[-ni:], want[-ni:], 1e-12, 1e-13):
                    got[-ni:] *= -1         # (the sign of the equations of the imaginary parts is free)
                got[0] = want[0] = 0
            else:
                b.appr.kern.fill(0.0)
                b.appr.generate_kern()
                got = M.arr(b.appr.kern) @ X
            R.check(M.close(got, want, 1e-12, 1e-13), 'element:'+('matrix-free' if case['mf'] else 'kernel'),
                    lambda: '%s element %s <- %s value %s: %s' % (case, (i, j), (k, l), v, M.diff(got, want)))


def run_sub(case, R):
    """A class derived from a built-in approach, with methods of its own around solve and the currents."""
    base = type(M.build(case['m'], case['kern'], itype=1).appr)

    class Sub(base):
        kerntype = case['kern']

        def solve(self, *a, **kw):
            self.seen = getattr(self, 'seen', 0)+1
            return base.solve(self, *a, **kw)

    if case.get('name'):
        # the name of a class is not what decides
        Sub.__name__ = Sub.__qualname__ = case['name']
    kw = dict(niter=2) if case['kern'] in M.VN2 else {}
    for mf in (False, True) if case['kern'] in M.FIRST else (False,):
        for symq in (True, False):
            o = dict(itype=1, mfreeq=mf, symq=symq)
            if case['kern'] in M.VN2:
                o['kpnt'] = 16
            a, b = M.build(case['m'], Sub, **o), M.build(case['m'], case['kern'], **o)
            for i in range(3):
                if i == 1:
                    for x in (a, b):
                        x.change(tleads={(0, 0): 0.07+0.02j}, mulst={0: 0.21})
                if i == 2:
                    for x in (a, b):
                        x.remove_coherences(0.3)
                if i < 2 or case['kern'] not in M.VN2:
                    a.solve(**kw)
                    b.solve(**kw)
                R.ev()
                R.nt([case, mf, symq, i])
                what = str([case, mf, symq, i])
                R.check(a.itype == b.itype and a.mfreeq == b.mfreeq and a.kerntype == b.kerntype and a.indexing == b.indexing, 'derived:options', what)
                R.check(a.appr.seen == min(i+1, 2 if case['kern'] in M.VN2 else 3), 'derived:own method', what)
                x, y = np.nan_to_num(M.currents(a)), np.nan_to_num(M.currents(b))
                R.check(M.close(x, y, 1e-12, 1e-18), 'derived:currents', lambda: '%s: %s' % (what, M.diff(x, y)))
                R.check(M.close(M.density(a), M.density(b), 1e-12, 1e-15), 'derived:density', what)


def run_hist(case, R):
    cls = user(kind(case['m']))
    pcls = user('pauli')
    ph = 'nb' in M.model(case['m'])
    pcls.terms = lambda appr: (lambda b, a: 0.1+0.05*np.cos(3*b+a))
    ops = [o for o in OPS if not (ph and o == 'p') and not (case['m'] == 'L1' and o == 'f2')]
    if case['first'] not in ops:
        return
    for tail in itertools.product(ops, repeat=case['depth']-1):
        set_terms(cls)
        h = [case['first']]+list(tail)
        b = M.build(case['m'], cls, itype=1, **({'kpnt': 12} if not ph else {'kpnt': 12}))
        rs = []
        fock = set()
        known = solved = False
        h0 = M.model(case['m'])['h']['0,0']
        for o in h:
            if o == 'u':
                b.kerntype = cls
            elif o == 'p':
                b.kerntype = pcls
            elif o[0] == 'b':
                b.kerntype = o[2:]
            elif o == 's':
                b.solve(**({'niter': 1} if b.kerntype == '2vN' else {}))
                known = True
            elif o == 'ua':
                b.use_all_states()
                rs = []
            elif o[0] == 'c':
                b.solve(masterq=False)
                b.remove_coherences(float(o[1:]))
                rs = [o]
            elif o[0] == 'f':
                b.remove_fock_states([int(o[1:])])
                fock.add(int(o[1:]))
                rs = []
            elif o == 'h':
                h0 += 0.01
                b.change(hsingle={(0, 0): h0})
            R.step()
        # finally the user approach with everything allowed again: other approaches may have discarded the selection
        b.kerntype = cls
        b.use_all_states()
        b.solve()
        what = '%s %s' % (case['m'], h)
        R.nt(what)
        R.check(int(b.si.nmany) == 2**int(b.si.nsingle)-len(fock), 'history:states', what)
        R.check(type(b.appr) is cls and b.kerntype == 'mine', 'history:class', what)
        compare(b, [], 'charge', R, 'history', what)
        f = M.build(case['m'], 'py1vN', itype=1)
        f.change(hsingle={(0, 0): h0})
        if fock:
            f.remove_fock_states(sorted(fock))
        b.kerntype = 'py1vN'
        b.solve()
        f.solve()
        R.check(M.close(M.currents(b), M.currents(f), 1e-9, 1e-14), 'history:built-in after user', lambda: '%s: %s' % (what, M.diff(M.currents(b), M.currents(f))))
