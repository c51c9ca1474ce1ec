"""C09: covariance under relabelling, gauge, unitary, shift, scaling and lead-splitting transformations."""
import itertools

import numpy as np

from lib import grid
from lib import models as M

ID = 'C09'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of a bounded product of models, transformations and approaches; transformed solutions compared'
NOTE = ('every model of the alphabet times every transformation of a finite set (all permutations of levels, leads and baths, gauge '
        'phases, unitary basis changes, shifts, scalings, lead splittings) in all approaches; the transformation of the input is done '
        'by full tensor contraction, so that all kinds of input terms are produced')
RULE = ('evaluation = one transformed model solved by one approach and compared with the original; distinct = different (model, '
        'transformation, approach)')
ASSUMPTIONS = ['Pauli needs non-degenerate eigenstates', 'RTD: particle currents only for complex amplitudes; one wide band common to all leads (the approach assumes it)',
               '2vN: models without coherences between eigenstates (see known findings of C16), or its first iteration']


def unitaries(n, q):
    out = []
    for p in itertools.permutations(range(n)):
        if list(p) != sorted(p):
            out.append(('perm', list(p)))
    for ph in ([0.7, -1.9, 2.3, 0.4], [np.pi, 0.0, np.pi, 0.0], [np.pi/2, -np.pi/2, 0.3, 0.0]):
        out.append(('phase', ph[:n]))
    if n > 1:
        for a, f in ((0.4, 0.0), (np.pi/4, 0.0), (0.9, 1.1)) if q else ((0.4, 0.0), (np.pi/4, 0.0), (0.9, 1.1), (1.3, -2.0)):
            for i, j in itertools.combinations(range(n), 2):
                out.append(('rot', [i, j, a, f]))
    return out


def umat(n, u):
    k, x = u
    m = np.eye(n, dtype=complex)
    if k == 'perm':
        m = m[x]
    elif k == 'phase':
        m = np.diag(np.exp(1j*np.array(x)))
    else:
        i, j, a, f = x
        m[i, i] = m[j, j] = np.cos(a)
        m[i, j] = np.sin(a)*np.exp(1j*f)
        m[j, i] = -np.sin(a)*np.exp(-1j*f)
    return m


def clean(z):
    z = complex(z)
    return z.real if abs(z.imag) < 1e-15 else [z.real, z.imag]


def levels(m, u):
    """d_i = sum_a u_ia d'_a in H = sum h_ij d_j^+ d_i + sum U_mnkl d_m^+ d_n^+ d_k d_l, t_li d_i^+, v_bij d_i^+ d_j."""
    m = M.model(m)
    n = m['n']
    h = np.zeros((n, n), dtype=complex)
    for k, v in m['h'].items():
        i, j = M.kt(k)
        h[i, j] = M.cv(v)
        h[j, i] = np.conj(M.cv(v))
    h = u.T @ h @ u.conj()
    m['h'] = {M.tk((a, b)): clean(h[a, b]) if a != b else h[a, a].real for a in range(n) for b in range(a, n) if abs(h[a, b]) > 1e-14 or a == b}
    W = np.zeros((n,)*4, dtype=complex)
    for k, v in m['U'].items():
        W[M.kt(k)] += M.cv(v)
    W = np.einsum('mnkl,ma,nb,kc,ld->abcd', W, u.conj(), u.conj(), u, u)
    U = {}
    for a, b in itertools.combinations(range(n), 2):
        for d, c in itertools.combinations(range(n), 2):
            x = W[a, b, c, d]-W[b, a, c, d]-W[a, b, d, c]+W[b, a, d, c]
            if abs(x) > 1e-14:
                U[M.tk((a, b, c, d))] = clean(x)
    m['U'] = U
    t = np.zeros((m['nl'], n), dtype=complex)
    for k, v in m['t'].items():
        t[M.kt(k)] = M.cv(v)
    t = t @ u.conj()
    m['t'] = {M.tk((l, a)): clean(t[l, a]) for l in range(m['nl']) for a in range(n) if abs(t[l, a]) > 1e-15}
    if 'nb' in m:
        V = np.zeros((m['nb'], n, n), dtype=complex)
        for k, v in m['v'].items():
            V[M.kt(k)] += M.cv(v)
        V = np.einsum('bij,ia,jc->bac', V, u.conj(), u)
        m['v'] = {M.tk(k): clean(V[k]) for k in np.ndindex(*V.shape) if abs(V[k]) > 1e-15}
    return m


def leads(m, p):
    """lead l of the new model is lead p[l] of the old one."""
    m = M.model(m)
    inv = np.argsort(p)
    m['t'] = {M.tk((inv[M.kt(k)[0]], M.kt(k)[1])): v for k, v in m['t'].items()}
    for f in ('mu', 'T', 'D'):
        m[f] = [m[f][i] for i in p]
    return m


def baths(m, p):
    m = M.model(m)
    inv = np.argsort(p)
    m['v'] = {M.tk((inv[M.kt(k)[0]],)+M.kt(k)[1:]): v for k, v in m['v'].items()}
    for f in ('Tph', 'Dph'):
        m[f] = [m[f][i] for i in p]
    return m


def phase(m, ph):
    m = M.model(m)
    m['t'] = {k: clean(M.cv(v)*np.exp(1j*ph[M.kt(k)[0]])) for k, v in m['t'].items()}
    return m


def shift(m, s, bands):
    m = M.model(m)
    for i in range(m['n']):
        k = M.tk((i, i))
        m['h'][k] = m['h'].get(k, 0)+s
    m['mu'] = [x+s for x in m['mu']]
    if bands:
        m['D'] = [[x+s for x in d] for d in m['D']]
    return m


def scale(m, s):
    m = M.model(m)
    for f, x in (('h', s), ('U', s), ('t', s**0.5), ('v', s**0.5)):
        if f in m:
            m[f] = {k: M.jv(M.cv(v)*x) for k, v in m[f].items()}
    for f in ('mu', 'T', 'Tph'):
        if f in m:
            m[f] = [x*s for x in m[f]]
    for f in ('D', 'Dph'):
        if f in m:
            m[f] = [[x*s for x in d] for d in m[f]]
    return m


def split(m, l, a):
    m = M.model(m)
    nl = m['nl']
    m['nl'] += 1
    for f in ('mu', 'T', 'D'):
        m[f] = m[f]+[m[f][l]]
    for k, v in list(m['t'].items()):
        i, j = M.kt(k)
        if i == l:
            m['t'][k] = clean(M.cv(v)*np.cos(a))
            m['t'][M.tk((nl, j))] = clean(M.cv(v)*np.sin(a))
    return m


def perms(n):
    # all of them; beyond four leads the transpositions and rotations (they generate the rest)
    for p in itertools.permutations(range(n)):
        if list(p) != sorted(p) and (n <= 4 or sum(i != x for i, x in enumerate(p)) == 2
                                     or all((p[i]-p[0]-i) % n == 0 for i in range(n))):
            yield p


def transforms(m, q):
    m = M.model(m)
    out = [('levels', u) for u in unitaries(m['n'], q)]
    out += [('leads', list(p)) for p in perms(m['nl'])]
    out += [('baths', list(p)) for p in itertools.permutations(range(m.get('nb', 0))) if list(p) != sorted(p)]
    out += [('phase', (p+p)[:m['nl']]) for p in ([1.1, 0, -0.4, 0.2], [0, np.pi, 0, 0], [-0.6, 0.8, 2.0, 1.0])]
    out += [('shift', s) for s in ((0.37, -1.9) if q else (0.37, -1.9, 5.0))]
    out += [('scale', s) for s in ((0.1, 3.0, 1e-4, 1e3, 1.6e-22) if q else (0.01, 0.1, 3.0, 17.0, 1e-4, 1e3, 1e-6, 1e5, 1.6e-22, 1e15))]
    out += [('split', [l, a]) for l in range(m['nl']) for a in (0.5, np.pi/4)]
    return out


def cases(tier):
    q = tier == 'quick'
    out = []
    fam = []
    for m in ('L1', 'L1x3', 'D2', 'D2a', 'D2d', 'D2x3', 'A2', 'T3') + tuple(M.PH):
        fam += [(m, it) for it in (0, 1, 2)]
    fam += [(m, it) for m in tuple(M.WIDE) + tuple(M.WIDEPH) for it in ((2,) if q else (0, 1, 2))]
    fam += [(m, 2) for m in grid.one()[:: 4 if q else 1]]
    fam += [(m, 1 if i % 2 else 2) for i, m in enumerate(grid.two()[:: 2 if q else 1])]
    fam += [(m, 1) for m in grid.two3()[:: 2 if q else 1]]
    fam += [(m, 1) for m in grid.three(8 if q else 2)]
    for m in ('F4', 'S4'):
        if not q:
            fam.append((m, 1))
    for m, it in fam:
        for tr in transforms(m, q):
            out.append(dict(m=m, it=it, tr=tr))
    if q:
        # four levels: interactions beyond density-density arise from the basis change
        for m in ('F4',):
            for tr in transforms(m, True)[::9]:
                out.append(dict(m=m, it=2, tr=tr))
    rt = [(m, True) for m in ('L1', 'L1x3', 'D2', 'D2x3', 'A2')] + ([] if q else [('T3', True)])
    rt += [(m, True) for m in grid.two()[:: 13 if q else 4]]
    for m, c in rt:
        m = M.model(m)
        m['D'] = [[-15., 15.]]*m['nl']
        for tr in transforms(m, q):
            out.append(dict(k='RTD', m=m, tr=tr))
            if tr[0] in ('leads', 'shift', 'scale', 'split') or tr[0] == 'levels' and tr[1][0] == 'perm':
                out.append(dict(k='RTD', m=grid.real(m), tr=tr))
    vn = ['L1', 'L1x3', 'A2']
    for m in vn:
        for tr in transforms(m, q):
            if m == 'A2' and tr[0] == 'levels' and tr[1][0] == 'rot':
                continue
            out.append(dict(k='2vN', m=m, tr=tr, n=3))
    for m in ('D2', 'D2a', 'D2x3'):
        for tr in transforms(m, q):
            out.append(dict(k='2vN', m=m, tr=tr, n=1))
    return out


def cost(case):
    m = M.model(case['m'])
    return 6**m['n']*m['nl']*{None: 1, 'RTD': 3, '2vN': 15*case.get('n', 1)}[case.get('k')]*(3 if case.get('it') == 0 else 1)


_ref = {}


def solve(case, m, kern):
    kw = dict(itype=case.get('it', 1))
    if case.get('k') == '2vN':
        kw = dict(kpnt=128)
    if 'nb' in m:
        kw['itype_ph'] = 2
    b = M.build(m, kern, **kw)
    b.make_kern_copy = True
    M.solve(b, **(dict(niter=case['n']) if case.get('k') == '2vN' else {}))
    return b


def run(case, R):
    m = M.model(case['m'])
    kind, x = case['tr']
    k = case.get('k')
    kerns = [k] if k else M.FIRST if m['n'] < 3 else M.COMP
    if k == 'RTD' and kind == 'scale' and m['n']*m['nl'] <= 4:
        kerns = ['RTD', 'pyRTD']
    it = case.get('it')
    if kind == 'levels':
        m2 = levels(m, umat(m['n'], x))
    elif kind == 'leads':
        m2 = leads(m, x)
    elif kind == 'baths':
        m2 = baths(m, x)
    elif kind == 'phase':
        m2 = phase(m, x)
    elif kind == 'shift':
        # wide-band integrals (type 1, RTD) count band edges from zero
        m2 = shift(m, x, not (it == 1 or k == 'RTD'))
    elif kind == 'scale':
        m2 = scale(m, x)
    else:
        m2 = split(m, *x)
    for kern in kerns:
        a = solve(case, m, kern)
        if not a.success or k != '2vN' and M.kern_gap(a) < 1e-9:
            R.count('no_unique_stationary_state')
            continue
        if kern.endswith('Pauli') or k in ('RTD', '2vN'):
            E, ch = M.arr(a.Ea).real, M.charges(a)
            if any(ch[i] == ch[j] and abs(E[i]-E[j]) < 1e-6 for i in range(len(E)) for j in range(i)):
                R.count('degenerate_skipped')
                continue
        b = solve(case, m2, kern)
        R.ev()
        R.nt([case, kern])
        tag = '%s:%s' % (kern, kind)
        R.check(bool(b.success), tag+':success', 'transformed model: reported failure')
        I, J, Q = M.arr(b.current), M.arr(b.energy_current), M.arr(b.heat_current)
        I0, J0, Q0 = M.arr(a.current), M.arr(a.energy_current), M.arr(a.heat_current)
        E, E0 = np.sort(M.arr(b.Ea).real), np.sort(M.arr(a.Ea).real)
        s = 1.0
        if kind == 'leads':
            I0, J0, Q0 = I0[x], J0[x], Q0[x]
        elif kind == 'shift':
            J0 = J0+x*I0
            E0 = np.sort(M.arr(a.Ea).real+x*M.charges(a))
        elif kind == 'scale':
            s = x
        elif kind == 'split':
            l = x[0]
            r = I[l], I[-1]
            # the parts share the current in proportion to their rates
            c2, s2 = np.cos(x[1])**2, np.sin(x[1])**2
            R.check(abs(r[0]*s2-r[1]*c2) <= 1e-6*max(abs(I0).max(), 1e-4), tag+':share', lambda: str(r))
            I, J, Q = [np.append(np.where(np.arange(len(v)-1) == l, v[:-1]+v[-1], v[:-1]), []) for v in (I, J, Q)]
        I, J, Q, E = I/s, J/s**2, Q/s**2, E/s
        g = 2*np.pi*np.abs(a.Tba).max()**2
        tol = 1e-5 if it == 0 else 1e-7 if k != '2vN' else 2e-6
        R.check(M.close(E, E0, 1e-9, 1e-10), tag+':Ea', lambda: M.diff(E, E0))
        R.check(M.close(I, I0, tol, tol*1e-2*g), tag+':current', lambda: M.diff(I, I0))
        for nm, u, v in (('energy current', J, J0), ('heat current', Q, Q0)):
            if k == 'RTD' and (np.isnan(u).all() or np.isnan(v).all()):
                continue
            tl = tol if k != '2vN' else 3e-5
            R.check(M.close(u, v, tl, tl*1e-2*g*max(1, abs(x) if kind == 'shift' else 1)), tag+':'+nm, lambda: M.diff(u, v))
        R.outcome(np.round(I, 10).tolist())
