"""C19: everything that reports states and matrix elements, after every history of sorting, restrictions and solves."""
import contextlib
import io
import itertools
import os
import re
import shutil
import tempfile

import numpy as np

from checks.c17 import changed, observe
from lib import models as M
from lib.ref import fock, master

ID = 'C19'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit enumeration of all histories of sorting, restricting, editing, switching and solving the real builders up to a '
             'depth; in every reached state all density-matrix elements, first-order amplitudes and printed states are compared with '
             'an independent master equation, second-quantised operators and a reference sort')
NOTE = ('histories up to two operations (one configuration in quick, all in thorough: three) for every approach and indexing on models '
        'with one to four levels; every pair of states, every print option of the alphabet; RTD and 2vN elements are compared with '
        'the same builder in unsorted order and with their own currents')
RULE = ('state = (sort order, kept states, kept coherences, parameters, approach); transition = one operation on the real builder; in '
        'every final state every query of the interface is made and the observable state is compared before and after')
ASSUMPTIONS = ['queries follow a solve; sorting may happen after it', 'restrictions by energy and sorting use the energies of the last solve',
               'switching the approach is followed by use_all_states']

OPS = {
    'charge': ['so:', 'so:0', 'so:1,0', 'so:0,1', 'rs:0.5', 'rc:0.2', 'rf:0', 'rf:1,3', 'ua', 'hs', 's', 'k:Pauli', 'k:1vN'],
    'sz': ['so:', 'so:0', 'so:1,0', 'so:2,1,0', 'so:1,2,0', 'rs:0.5', 'rc:0.2', 'rf:3', 'ua', 'hs', 's', 'k:Pauli', 'k:1vN'],
    'ssq': ['so:', 'so:0', 'so:1,2,3,0', 'so:3,0', 'so:2,1,0', 'rs:0.9', 'ua', 'hs', 's'],
    'many': ['so:', 'so:0', 'so:1,0', 'so:0,1', 'rs:0.5', 'rc:0.2', 'ua', 's'],
}
SHORT = ['so:0', 'so:1,0', 'rs:0.5', 'rc:0.2', 'rf:0', 'hs', 'ua']


def cases(tier):
    q = tier == 'quick'
    out = []

    def put(m, kern, ix, depth, ops=None):
        ops = ops or OPS[ix if ix in OPS else 'charge']
        hs = [list(h) for h in itertools.product(ops, repeat=depth)]
        so = [o for o in ops if o[:2] == 'so']
        hs += [[a, 'hs', c] for a in so for c in so if [a, 'hs', c] not in hs] if 'hs' in ops else []
        hs = [h for h in hs if not any(a == b == 's' for a, b in zip(h, h[1:]))]
        for i in range(0, len(hs), 40):
            out.append(dict(m=m, kern=kern, ix=ix, hs=hs[i:i+40]))
    for k in M.FIRST:
        put('D2', k, 'charge', 2)
        put('D2a', k, 'Lin', 2)
        put('A2', k, 'sz', 2)
    for k in ('1vN', 'Lindblad', 'Pauli'):
        put('A2s', k, 'ssq', 2)
        put('T3', k, 'charge', 2)
        put('D2', k, 'many', 2)
    put('A2s', 'Redfield', 'ssq', 2)
    put('S4s', 'Pauli', 'ssq', 1)
    put('S4s', '1vN', 'ssq', 1)
    put('S4s', 'Lindblad', 'sz', 1)
    put('L1', '1vN', 'charge', 2, ['so:0', 'so:1,0', 'hs', 'rf:0'])
    put('D2', '1vN', 'charge', 3, None if not q else SHORT)
    for k in M.RTD+M.VN2:
        put('D2', k, 'charge', 1 if 'py' in k and q else 2, ['so:', 'so:0', 'so:1,0', 'rs:0.5', 'rc:0.2', 'hs', 'ua'])
    put('D2a', '2vN', 'charge', 1)
    if not q:
        for k in ('Lindblad', 'Redfield', 'Pauli', 'py1vN'):
            put('D2', k, 'charge', 3)
        put('D2', '1vN', 'charge', 4, SHORT)
        put('D2a', 'Redfield', 'charge', 4, SHORT)
        put('T3', '1vN', 'Lin', 3, SHORT)
        put('A2', 'Lindblad', 'sz', 4, ['so:2,1,0', 'so:0', 'rs:0.5', 'rc:0.2', 'hs', 'rf:3'])
        put('A2', '1vN', 'sz', 3)
        put('A2s', '1vN', 'ssq', 3)
        put('T3', '1vN', 'charge', 3, SHORT)
        put('T3', 'Redfield', 'Lin', 2)
        put('D2', '1vN', 'many', 3)
        put('S4s', '1vN', 'ssq', 2, ['so:1,2,3,0', 'so:0', 'rs:0.9', 'hs'])
        put('S4s', 'Pauli', 'sz', 2, ['so:1,2,0', 'so:0', 'rs:0.9', 'hs'])
        put('F4', '1vN', 'charge', 1)
        put('F4', 'Pauli', 'charge', 2, SHORT)
    return out


def cost(case):
    k = case['kern']
    return len(case['hs'])*(2**M.model(case['m'])['n'])**2*(3 if 'py' in k or '2vN' in k or 'RTD' in k else 1)


class Track(object):
    """Independent bookkeeping of the order, the selection and the parameters."""

    def __init__(self, case):
        m = M.model(case['m'])
        if case['m'] in M.SPIN:
            from checks.c08 import explicit
            m = explicit(m)
        self.m = m
        self.spin = case['m'] in M.SPIN
        self.removed = set()
        self.reset(2**m['n'])

    def reset(self, n):
        self.n = n
        self.order = list(range(n))
        self.all()

    def all(self):
        self.kept = set(range(self.n))
        self.dropped = set()

    def hfull(self):
        """Hamiltonian in the basis of fock.basis(n)."""
        m = self.m
        return fock.h_hop(m['n'], M.dct(m['h'])) + fock.h_coul(m['n'], M.dct(m['U']))


def make(case):
    import qmeq
    k, ix = case['kern'], case['ix']
    if ix == 'many':
        s = M.build(case['m'], '1vN')
        s.solve(masterq=False)
        a = M.args(case['m'])
        return qmeq.BuilderManyBody(Ea=M.arr(s.Ea), Na=[int(c) for c in M.charges(s)], Tba=M.arr(s.Tba), mulst=a['mulst'],
                                    tlst=a['tlst'], dband=a['dband'], kerntype=k, itype=1)
    kw = {}
    if k not in M.RTD:
        kw['itype'] = 1
    if k in M.VN2:
        kw['kpnt'] = 24
    kw['indexing'] = ix
    if case['m'] in M.SPIN:
        kw['symmetry'] = 'spin'
    return M.build(case['m'], k, **kw)


def solve(b, case):
    kw = dict(niter=1) if b.kerntype in M.VN2 else {}
    if case['ix'] == 'many':
        kw.update(qdq=False, rotateq=False)
    b.solve(**kw)


def spins(b, ix):
    """2 S_z and 2 S of every state by label, from the index lists."""
    n = b.si.nmany
    z, s = [0]*n, [0]*n
    if ix == 'sz':
        for i in range(n):
            z[i] = b.si.ind_qn[i][1]
    elif ix == 'ssq':
        for i in range(n):
            z[i], s[i] = b.si.ind_qn[i][1:3]
    return z, s


def apply(b, t, o, case):
    f, _, x = o.partition(':')
    E = M.arr(b.Ea).real
    if f == 'so':
        srt = [int(i) for i in x.split(',')] if x else None
        b.sort_eigenstates(srt) if srt is not None else b.sort_eigenstates()
        if srt is None:
            t.order = list(range(t.n))
        else:
            z, s = spins(b, case['ix'])
            prop = [E, M.charges(b), z, s]
            t.order = sorted(range(t.n), key=lambda i: tuple(prop[p][i] for p in srt)+(i,))
    elif f == 'rs':
        b.remove_states(float(x))
        t.all()
        t.kept = {i for i in range(t.n) if E[i] < E.min()+float(x)}
    elif f == 'rc':
        b.remove_coherences(float(x))
        ch = M.charges(b)
        t.dropped |= {(i, j) for i in t.kept for j in t.kept if i < j and ch[i] == ch[j] and abs(E[i]-E[j]) > float(x)}
    elif f == 'rf':
        st = [int(i) for i in x.split(',')]
        b.remove_fock_states(st)
        t.removed |= set(st)
        t.reset(2**t.m['n']-len(t.removed))
        solve(b, case)
    elif f == 'ua':
        b.use_all_states()
        t.all()
    elif f == 's':
        solve(b, case)
    elif f == 'hs':
        b.change(hsingle={(0, 0): -0.9})
        t.m['h']['0,0'] = -0.9
        if t.spin:
            h = t.m['n']//2
            t.m['h']['%d,%d' % (h, h)] = -0.9
        solve(b, case)
    elif f == 'k':
        b.kerntype = x
        b.use_all_states()
        t.all()
        solve(b, case)


def out(f, *a, **k):
    s = io.StringIO()
    with contextlib.redirect_stdout(s):
        f(*a, **k)
    return s.getvalue()


def parse(text):
    d = {}
    for nm, rx, ty in (('sorted', r'Sorted label: (\S+)', int), ('orig', r'Original label: (\S+)', int), ('charge', r'Charge: (\S+)', int),
                       ('sz', r'S\^z[^:]*: (\S+)', int), ('ssq', r'S\^2[^:]*: (\S+)', int), ('E', r'Energy: (\S+)', float)):
        m = re.search(rx, text)
        if m:
            d[nm] = ty(float(m.group(1))) if ty is int else ty(m.group(1))
    d['c'] = [(s, complex(v.replace(' ', ''))) for s, v in re.findall(r'\|([01]+)>: *(\S+)', text)]
    return d


def queries(b, case, t, R, tag):
    n, nl = t.n, M.model(case['m'])['nl']
    kern = b.kerntype
    p0 = np.zeros((n, n), dtype=complex)
    for i, j in itertools.product(range(n), repeat=2):
        p0[i, j] = b.get_phi0(i, j)
    p1 = None
    if b.phi1 is not None:
        p1 = np.zeros((nl, n, n), dtype=complex)
        for l, i, j in itertools.product(range(nl), range(n), range(n)):
            p1[l, i, j] = b.get_phi1(l, i, j)
    else:
        R.check(b.get_phi1(0, 0, 0) is None, 'phi1', '%s: an amplitude is reported by %s' % (tag, kern))
    return p0, p1


def prints(b, case, t, R, tag, tmp):
    n, ns = t.n, t.m['n']
    ch = M.charges(b)
    E = M.arr(b.Ea).real
    z, s = spins(b, case['ix'])
    states = fock.basis(ns)
    pos = {''.join(map(str, x)): i for i, x in enumerate(states)}
    H = t.hfull()
    S2 = fock.s2(ns) if ns % 2 == 0 else None
    N = np.rint(np.diag(fock.number(ns))).astype(int)
    SZ = [sum(x[:ns//2])-sum(x[ns//2:]) for x in states]
    vec = np.zeros((len(states), n), dtype=complex)
    texts = []
    ok = True
    for i in range(n):
        txt = out(b.print_state, i)
        texts.append(txt)
        d = parse(txt)
        lab = t.order[i]
        R.ev()
        ok &= R.check(d.get('sorted') == i and d.get('orig') == lab, 'labels', lambda: '%s: state %d is reported as %s' % (tag, i, d))
        ok &= R.check(d.get('E') == E[lab] and d.get('charge') == ch[lab], 'energy',
                      lambda: '%s: state %d reported as %s; E=%r, charge %d' % (tag, i, d, E[lab], ch[lab]))
        if case['ix'] in ('sz', 'ssq'):
            ok &= R.check(d.get('sz') == z[lab], 'spin', lambda: '%s: state %d reported as %s' % (tag, i, d))
        if case['ix'] == 'ssq':
            ok &= R.check(d.get('ssq') == s[lab], 'spin', lambda: '%s: state %d reported as %s' % (tag, i, d))
        for k, v in d['c']:
            if k not in pos:
                ok &= R.check(False, 'fock', '%s: state %d contains |%s>' % (tag, i, k))
                return
            vec[pos[k], i] += v
        v = vec[:, i]
        w = np.nonzero(v)[0]
        size = [abs(x) for _, x in d['c']]
        ok &= R.check(len(set(k for k, _ in d['c'])) == len(d['c']), 'fock', lambda: '%s: state %d lists a Fock state twice' % (tag, i))
        ok &= R.check(all(a >= c-1e-12 for a, c in zip(size, size[1:])), 'coefficient order', lambda: '%s: state %d: %s' % (tag, i, d))
        ok &= R.check(all(N[k] == d['charge'] for k in w), 'charge', lambda: '%s: state %d: %s' % (tag, i, d))
        ok &= R.check(abs(np.vdot(v, v)-1) < 1e-10, 'norm', lambda: '%s: state %d has norm %s' % (tag, i, np.vdot(v, v)))
        keep = [k for k in range(len(states)) if int(''.join(map(str, states[k])), 2) not in t.removed]
        r = (H @ v)[keep] - d['E']*v[keep]
        ok &= R.check(np.abs(r).max() < 1e-9 and all(k in keep for k in w), 'eigenstate',
                      lambda: '%s: state %d is not an eigenstate (%.2g): %s' % (tag, i, np.abs(r).max(), d))
        if 'sz' in d:
            ok &= R.check(all(SZ[k] == d['sz'] for k in w), 'spin projection', lambda: '%s: state %d: %s' % (tag, i, d))
        if 'ssq' in d:
            q = d['ssq']/2
            ok &= R.check(np.abs(S2 @ v - q*(q+1)*v).max() < 1e-9, 'total spin', lambda: '%s: state %d: %s' % (tag, i, d))
        # cut-off, separator, files, silence
        for eps, sep in ((0.3, ''), (1e-6, '##\n'), (2.0, '')):
            f = os.path.join(tmp, 'one')
            o = out(b.print_state, i, eps, False, f, sep)
            with open(f) as g:
                got = g.read()
            os.remove(f)
            e = parse(got)
            want = [k for k, x in d['c'] if abs(x) >= eps]
            ok &= R.check(o == '' and got.startswith(sep) and [k for k, _ in e['c']] == want and
                          {k: v for k, v in e.items() if k != 'c'} == {k: v for k, v in d.items() if k != 'c'}, 'print options',
                          lambda: '%s: state %d, eps %g, separator %r: %r' % (tag, i, eps, sep, got))
        if not ok:
            return
    G = vec.conj().T @ vec
    R.check(np.abs(G-np.eye(n)).max() < 1e-9, 'orthogonal', lambda: '%s: printed states are not orthogonal' % tag)
    f = os.path.join(tmp, 'all')
    o = out(b.print_all_states, f)
    with open(f) as g:
        a1 = g.read()
    R.check(o == '' and a1 == ''.join(texts), 'print_all', lambda: '%s: print_all_states differs from print_state' % tag)
    out(b.print_all_states, f, separator='--\n', mode='a')
    with open(f) as g:
        a2 = g.read()
    R.check(a2 == a1+''.join('--\n'+x for x in texts), 'print_all', lambda: '%s: append mode' % tag)
    out(b.print_all_states, f)
    with open(f) as g:
        R.check(g.read() == a1, 'print_all', lambda: '%s: write mode' % tag)
    os.remove(f)


_memo = {}


def run(case, R):
    tmp = tempfile.mkdtemp(prefix='c19')
    try:
        for h in case['hs']:
            one(case, h, R, tmp)
    finally:
        shutil.rmtree(tmp)


def one(case, h, R, tmp):
    kern, ix = case['kern'], case['ix']
    tag = '%s %s %s %s' % (case['m'], kern, ix, ' '.join(h))
    b = make(case)
    t = Track(case)
    solve(b, case)
    R.trace()
    clean = True
    for o in h:
        if o[:2] == 'rf' and ix != 'many' and len(t.removed | set(int(i) for i in o[3:].split(','))) >= 2**t.m['n']:
            return
        before = observe(b) if o[:2] == 'so' else None
        apply(b, t, o, case)
        if before is not None:
            ch = [k for k in changed(before, observe(b)) if k != 'si.states_order']
            R.check(not ch, 'sort changes', lambda: '%s: sorting changed %s' % (tag, ch))
        clean = o[:2] == 'so' and clean or o[:2] in ('rf', 'hs', 's', 'k:')
        R.step()
        R.state([case['m'], b.kerntype, ix, t.order, sorted(t.kept), sorted(t.dropped), sorted(t.removed), str(t.m['h'])])
    if not clean:
        solve(b, case)
    kern = b.kerntype
    if not b.success:
        R.count('solve reported failure')
        return
    R.check([int(x) for x in b.si.states_order] == t.order, 'order', lambda: '%s: order %s, expected %s' % (
        tag, [int(x) for x in b.si.states_order], t.order))
    before = observe(b)
    p0, p1 = queries(b, case, t, R, tag)
    if ix != 'many':
        prints(b, case, t, R, tag, tmp)
    ch = changed(before, observe(b))
    R.check(not ch, 'queries change', lambda: '%s: queries changed %s' % (tag, ch))
    # by label
    n = t.n
    o = np.array(t.order)
    r0 = np.zeros((n, n), dtype=complex)
    r0[np.ix_(o, o)] = p0
    c = M.charges(b)
    kept = sorted(t.kept)
    pairs = [(i, j) for i, j in itertools.combinations(kept, 2) if c[i] == c[j] and (i, j) not in t.dropped]
    R.check(np.abs(r0-r0.conj().T).max() < 1e-14, 'hermitian', lambda: '%s: the density matrix is not Hermitian' % tag)
    R.check(abs(np.trace(r0)-1) < 1e-9, 'trace', lambda: '%s: trace %s' % (tag, np.trace(r0)))
    zero = np.ones((n, n), dtype=bool)
    for i in kept:
        zero[i, i] = False
    for i, j in pairs:
        zero[i, j] = zero[j, i] = False
    if kern in M.NO_COH:
        zero = ~np.eye(n, dtype=bool) | zero
    R.check(np.all(r0[zero] == 0), 'zeros', lambda: '%s: an element that is not kept is reported as %s' % (tag, r0[zero]))
    if p1 is not None:
        r1 = np.zeros_like(p1)
        for l in range(len(p1)):
            r1[l][np.ix_(o, o)] = p1[l]
        up = c[:, None] == c[None, :]+1
        R.check(all(np.array_equal(np.where(up, x, 0), np.where(up.T, x, 0).conj().T) for x in r1), 'phi1 conjugate',
                lambda: '%s: get_phi1(l, b, c) is not the conjugate of get_phi1(l, c, b)' % tag)
        sel = np.zeros((n, n), dtype=bool)
        sel[np.ix_(kept, kept)] = True
        sel &= up | up.T
        R.check(np.all(r1[:, ~sel] == 0), 'phi1 zeros', lambda: '%s: amplitudes between states that are not kept' % tag)
        T = M.arr(b.Tba)
        cur = [-2*np.imag(np.sum(T[l].T*np.where(up, r1[l], 0))) for l in range(len(r1))]
        g = np.abs(T).max()**2
        if ix == 'ssq':
            R.count('ssq amplitudes summed over multiplets')
        if kern in M.VN2 or ix != 'ssq':
            R.check(M.close(b.current, cur, 1e-9, 1e-10*g), 'phi1 current', lambda: tag+': '+M.diff(b.current, cur))
    R.outcome(np.round(b.current, 10).tolist())
    R.ev()
    if kern.replace('py', '') in master.KIND:
        kind = master.KIND[kern.replace('py', '')]
        p = master.from_builder(b, kept=kept, coh=pairs)
        with np.errstate(all='ignore'):
            rho, cur, ecur = p.solve(kind)
        if p.gap < 1e-8 or p.residual > 1e-8:
            R.count('no_unique_stationary_state')
            return
        rt = 1e-7*max(1.0, 1e-2/p.gap)
        R.nt(tag)
        R.check(M.close(r0, rho, rt, 1e-11), 'phi0', lambda: tag+': '+M.diff(r0, rho))
        if p1 is not None:
            for l in range(len(r1)):
                x = p.phi1[l]*up*np.outer(p.k, p.k)
                y = np.where(up, r1[l], 0)
                R.check(np.abs(x-y).max() <= rt*np.abs(p.T).max()*4+1e-13, 'phi1', lambda: tag+': '+M.diff(y, x))
    else:
        # the same history without sorting
        key = str((case['m'], case['kern'], ix, [x for x in h if x[:2] != 'so']))
        if key not in _memo:
            if len(_memo) > 500:
                _memo.clear()
            b2 = make(case)
            t2 = Track(case)
            solve(b2, case)
            for x in h:
                if x[:2] != 'so':
                    apply(b2, t2, x, case)
            solve(b2, case)
            _memo[key] = queries(b2, case, t2, R, tag)
        w0, w1 = _memo[key]
        R.nt(tag)
        R.check(M.close(r0, w0, 1e-8, 1e-12), 'phi0', lambda: tag+': '+M.diff(r0, w0))
        if w1 is not None:
            R.check(M.close(r1, w1, 1e-8, 1e-12), 'phi1', lambda: tag+': '+M.diff(r1, w1))
