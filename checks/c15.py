"""C15: special functions and transition integrals against their defining expressions, in every order of requests."""
import itertools
import math

import numpy as np

from lib.ref import integrals as I
from lib import models as M

ID = 'C15'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of argument alphabets (every combination of grid values, signs, integral types and versions) and '
             'of all ordered request sequences over a pool of adversarially close requests; each returned value is compared with an '
             'independent evaluation of the defining expression, so that a sequence is a history of the cached functions and of the '
             'stateful integral objects')
NOTE = ('full product grids incl. far tails up to |x| = 1e4, near-edge and out-of-band transitions, asymmetric bands, exact '
        'degeneracies of the diagram integrals; all ordered pairs (thorough: triples) of requests; Hilbert transform on every unit '
        'vector of every grid up to 40 (thorough 130) points; transitions exactly at a band edge, near-degeneracies below 1e-5 and '
        'nearly equal temperatures are not judged')
RULE = ('state = (version, function, argument tuple, preceding request); transition = one request to the real function or integral '
        'object')
ASSUMPTIONS = ['digamma reference: scipy.special.psi (and its Cauchy derivative), itself validated by recurrence and reflection',
               'the constant log(D) of the direct diagram integral is measured in units of the first temperature; it cancels in '
               'every kernel, which C21 checks separately']

PI = math.pi


def psi(z):
    from scipy.special import psi as p
    return p(z)


def psik(z, K):
    """K-th derivative of digamma: Cauchy integral (two radii must agree), or Hurwitz series far from the poles."""
    if K == 0:
        return complex(psi(z))
    n = 96
    d = 1e9
    if z.real < 1:
        k = round(-z.real) if z.real < 0 else 0
        d = abs(z+k)
    r = min(1.0, 0.5*d)
    w = np.exp(2j*PI*np.arange(n)/n)
    # shift to the right half plane, where the Cauchy integral is well conditioned
    s = 0
    f = math.factorial(K)
    zz = complex(z)
    while zz.real < 12:
        s += (-1)**(K+1)*f/zz**(K+1)
        zz += 1
    R = 0.9*abs(zz)
    n = 256
    w = np.exp(2j*PI*np.arange(n)/n)
    return s+f*np.mean(psi(zz+R*w)/w**K)/R**K


XS = sorted({s*x for x in (0.0, 1e-9, 1e-3, 0.125, 0.3, 0.5, 1.0, 1.7, 3.3, 7.0, 12.5, 20.0, 36.0, 40.5, 88.0, 200.0, 354.0, 355.5, 500.0,
                           700.0, 709.0, 709.9, 745.0, 1000.0, 1e4) for s in (1, -1)})


def specs():
    """name -> (python function, compiled function)."""
    from qmeq.specfunc import specfunc as s, c_specfunc as c
    return dict(fermi=(s.fermi_func, c.c_fermi_func), diff_fermi=(s.diff_fermi, c.c_diff_fermi), bose=(s.bose, c.c_bose),
                digamma=(s.digamma, c.c_digamma), polygamma=(s.polygamma, c.c_polygamma), phi=(s.phi, c.c_phi),
                diff_phi=(s.diff_phi, c.c_diff_phi), diff2_phi=(s.diff2_phi, c.c_diff2_phi), delta_phi=(s.delta_phi, c.c_delta_phi),
                func_pauli=(s.func_pauli, c.c_func_pauli), func_1vN=(s.func_1vN, c.c_func_1vN),
                integralD=(s.integralD, c.c_integralD), integralX=(s.integralX, c.c_integralX),
                BW_Ozaki=(s.BW_Ozaki, c.c_BW_Ozaki))


def fermi(x):
    return 1/(1+math.exp(x)) if x < 0 else math.exp(-x)/(1+math.exp(-x)) if x < 740 else 0.0


def rphi(x, Dp, Dm, sign=1):
    return sign*(-psi(0.5+0.5j*x/PI).real+math.log(0.5*(abs(Dp)+abs(Dm))/(2*PI)))


def ref(name, a):
    """(reference value, absolute tolerance)."""
    if name == 'fermi':
        f = fermi(a[0])
        return f, 1e-13*f*max(1, abs(a[0]))+1e-307
    if name == 'diff_fermi':
        x, s = a[0], a[1] if len(a) > 1 else 1
        if abs(x) > 700:
            return 0.0, 1e-300
        v = -s*fermi(x)*fermi(-x)
        return v, 1e-13*abs(v)*max(1, abs(x))+1e-150
    if name == 'bose':
        x = a[0]*(a[1] if len(a) > 1 else 1)
        b = 1/math.expm1(x) if x < 709 else math.exp(-x) if x < 740 else 0.0
        return b, abs(b)*(4e-16*(1+1/abs(x))+1e-14*max(1, abs(x)))+1e-307
    if name == 'digamma':
        v = psi(a[0])
        return v, 1e-13*(1+abs(v))
    if name == 'polygamma':
        v = psik(a[0], a[1])
        return v, 1e-10*abs(v)+1e-13*10**a[1]
    if name == 'phi':
        v = rphi(*a)
        return v, 1e-12*(1+abs(v))
    if name == 'diff_phi':
        x, s = a[0], a[1] if len(a) > 1 else 1
        v = s/(2*PI)*psik(0.5+0.5j*x/PI, 1).imag
        return v, 1e-11*abs(v)+1e-13
    if name == 'diff2_phi':
        x, s = a[0], a[1] if len(a) > 1 else 1
        v = s/(2*PI)**2*psik(0.5+0.5j*x/PI, 2).real
        return v, 1e-10*abs(v)+1e-13
    if name == 'delta_phi':
        s = a[4] if len(a) > 4 else 1
        v = s*(psi(0.5+0.5j*a[1]/PI)-psi(0.5+0.5j*a[0]/PI)).real
        return v, 1e-12*(1+abs(v)+abs(rphi(a[0], a[2], a[3]))+abs(rphi(a[1], a[2], a[3])))
    if name == 'func_pauli':
        v = np.array(I.lead_pauli(*a))
        return v, 1e-12*(1+abs((a[0]-a[1])/a[2]))*v+2e-15
    if name == 'func_1vN':
        v = np.array(I.lead_1vn(*a[:6]))
        t = 3e-6 if a[5] == 0 else 1e-12
        return v, t*(1+abs(v)+np.array([0, 0, abs(a[0])+abs(a[3]), abs(a[0])+abs(a[4])]))
    if name in ('integralD', 'integralX'):
        p, eta, E1, E2, E3, T1, T2, m1, m2, D, ig = a
        v = (rD if name[-1] == 'D' else rX)(p, eta, E1, E2, E3, T1, T2, m1, m2, D)
        if T1 == T2 and not ig:
            return v.real, 1e-10*(1+abs(v))/T1
        # the pole expansion is truncated at the bandwidth
        d = D/max(T1, T2)
        return v, 4*math.log(d)/d*(1+abs(v))*(T1/T2+T2/T1)/min(T1, T2)
    raise KeyError(name)


def msum(g):
    """sum over k >= 0: direct part, integral of the tail and the midpoint correction."""
    K = 300
    k = np.arange(K)
    S = np.sum(g(k))
    for a in np.arange(0, 60, 3.):
        v = a+1.5+1.5*I.GX
        kk = (K-.5)*np.exp(v)
        S += np.sum(I.GW*1.5*g(kk)*kk)
    return S+(g(K+0.0)-g(K-1.0))/24


def rD(p, eta, E1, E2, E3, T1, T2, m1, m2, D):
    m2 = eta*m2

    def g(k):
        x = PI*T1*(2*k+1)
        A = np.log(D/2/(2*PI*T1))-psi(.5+x/(2*PI*T2)-1j*(-E2+m1+m2)/(2*PI*T2))
        return A/(x-1j*(-E3+m1))/(x-1j*(-E1+m1))
    a, b = .5-1j*(-E3+m1)/(2*PI*T1), .5-1j*(-E1+m1)/(2*PI*T1)
    if abs(E3-E1) > 1e-9*T1:
        f2 = (psi(a)-psi(b))/(E1-E3)*(-2j*PI)
    else:
        f2 = -psik(a, 1)/T1
    return -0.25j*(p*(-8j*PI*T1*msum(g))-f2)


def rX(p, eta, E1, E2, E3, T1, T2, m1, m2, D):
    m2 = eta*m2

    def g(k):
        x = PI*T1*(2*k+1)
        A = psi(.5+x/(2*PI*T2)-1j*(-E2+m1+m2)/(2*PI*T2))
        B = psi(.5-1j*(-E3+m2)/(2*PI*T2))
        return (A-B)/(x+1j*(E2-E3-m1))/(x-1j*(-E1+m1))
    return -0.25j*p*(-8j*PI*T1*msum(g))


_oz = {}


def call(name, ver, a):
    f = specs()[name][ver]
    if name.startswith('integral'):
        D, T = a[9], min(a[5], a[6])
        k = (ver, D/T)
        if k not in _oz:
            _oz[k] = np.asarray(specs()['BW_Ozaki'][ver](D/T))
        a = tuple(a[:10])+(_oz[k], a[10])
    elif name == 'func_1vN' and len(a) == 6:
        a = tuple(a)+(10000,)
    return f(*a)


def judge(R, name, ver, a, key):
    v = call(name, ver, a)
    R.step()
    w, tol = ref(name, a)
    ok = np.all(np.abs(np.asarray(v)-w) <= tol)
    R.check(bool(ok), '%s:%s' % (key, 'compiled' if ver else 'python'), lambda: '%s%s is %r, expected %r' % (name, tuple(a), v, w))
    return v


def grid_of(name, q):
    """All argument tuples of a function."""
    X = XS
    if name == 'fermi':
        return [(x,) for x in X]
    if name == 'diff_fermi':
        return [(x,) for x in X]+[(x, s) for x in X for s in (1, -1)]
    if name == 'bose':
        return [(x,) for x in X if x]+[(x, s) for x in X if x for s in (1, -1)]
    Y = [0.0, 1e-3, -0.1, 0.4, -0.75, 1.0, 2.5, -4.0, 9.0, -25.0, 160.0, -1500.0]
    Re = [0.5, 1e-3, 0.2, 0.97, 1.0, 1.5, 3.0, 6.5, 7.99, 8.0, 8.3, 14.9, 15.0, 15.2, 40.0, 800.0]
    if name == 'digamma':
        return [(complex(x, y),) for x in Re for y in Y]
    if name == 'polygamma':
        Ne = [-0.5, -0.2, -1.3, -4.5, -14.9, -15.5, -20.25]
        return ([(complex(x, y), K) for x in Re if x < 50 for y in Y if abs(y) < 30 for K in range(5)] +
                [(complex(x, y), K) for x in Ne for y in Y if abs(y) < 3 for K in range(5)])
    P = [x for x in X if abs(x) < 600]
    B = [(30., 30.), (30., -30.), (10., 60.), (1e4, 1e4), (5., 0.)]
    if name == 'phi':
        return [(x, p, m) for x in P for p, m in B]+[(x, p, m, s) for x in P for p, m in B[2:3] for s in (1, -1)]
    if name in ('diff_phi', 'diff2_phi'):
        return [(x,) for x in P]+[(x, s) for x in P for s in (1, -1)]
    if name == 'delta_phi':
        return [(x, y, 10., 60., s) for x in P[::2] for y in P[::3] for s in (1, -1)]+[(x, y, 30., 30.) for x in P[::4] for y in P[::5]]
    if name in ('func_pauli', 'func_1vN'):
        E = [-40., -15.01, -14.99, -9., -1.3, -0.2, 0., 0.001, 0.45, 2.2, 7.99, 8.01, 12., 25.01, 60.]
        if not q:
            E += [-3.3, -0.75, 0.05, 0.9, 4.1, 24.99]
        mus = [0., 0.4, -2.5] if q else [0., 0.4, -2.5, 10., -20.]
        Ts = [0.05, 0.5, 3.]
        Ds = [(-15., 15.), (-15., 8.), (-2., 25.), (3., 25.), (-15., -5.)]
        out = [(e, mu, T, a, b, it) for e in E for mu in mus for T in Ts for a, b in Ds for it in (0, 1, 2, 3)]
        # itype 1 places its band edges by their absolute value; principal values right at an edge are ill-conditioned
        return [x for x in out if x[0] not in (x[3], x[4])]
    if name in ('integralD', 'integralX'):
        E = [-0.75, 0.25, 1.875] if q else [-0.75, 0.25, 1.875, -3.5]
        E2 = [-0.5, 0., 0.5, 1.125, 2.125] if q else [-0.5, 0., 0.5, 1.125, 2.125, -1.5, 4.0]
        out = []
        for T1, T2 in ((0.5, 0.5), (2.0, 2.0), (0.5, 0.9), (1.3, 0.4)):
            for m1, m2 in ((0.25, -0.25), (0.25, 0.25), (-1.5, 0.5)) if not q else ((0.25, -0.25), (0.5, 1.0)):
                for p, eta in itertools.product((1, -1), repeat=2):
                    for D in ((4000.,) if q else (4000., 60.)):
                        for e in itertools.product(E, E2, E):
                            for ig in (False, True):
                                out.append((p, eta, e[0], e[1], e[2], T1, T2, m1, m2, D, ig))
        return out
    raise KeyError(name)


GRIDS = ['fermi', 'diff_fermi', 'bose', 'digamma', 'polygamma', 'phi', 'diff_phi', 'diff2_phi', 'delta_phi', 'func_pauli', 'func_1vN',
         'integralD', 'integralX']

# adversarially close requests: same argument with different sign, type, order, or a neighbour below any rounding
POOL = []
for _x in (0.5, 0.5+1e-9, -0.5, 1.0, 1.0-1e-7):
    POOL += [('fermi', (_x,)), ('bose', (_x,)), ('bose', (_x, -1)), ('bose', (_x, 1)), ('diff_fermi', (_x,)), ('diff_fermi', (_x, -1)),
             ('diff_phi', (_x,)), ('diff_phi', (_x, -1)), ('diff2_phi', (_x,)), ('diff2_phi', (_x, -1)),
             ('phi', (_x, 30., 30.)), ('phi', (_x, 30., 30., -1)), ('phi', (_x, 30., 10.)), ('phi', (_x, 10., 30.)),
             ('digamma', (complex(_x if _x > 0 else 0.25, 0.5),)), ('digamma', (complex(0.5, _x),)),
             ('polygamma', (complex(0.5, _x), 0)), ('polygamma', (complex(0.5, _x), 1)), ('polygamma', (complex(0.5, _x), 2)),
             ('delta_phi', (_x, 0.3, 30., 30.)), ('delta_phi', (0.3, _x, 30., 30.)), ('delta_phi', (0.3, _x, 30., 30., -1)),
             ('func_pauli', (_x, 0.3, 0.5, -15., 15., 0)), ('func_pauli', (0.3, _x, 0.5, -15., 15., 0)),
             ('func_1vN', (_x, 0.3, 0.5, -15., 15., 2)), ('func_1vN', (_x, 0.3, 0.5, -15., 15., 1)), ('func_1vN', (_x, 0.3, 0.5, -15., 8., 1))]


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in GRIDS:
        g = grid_of(n, q)
        sz = 40 if n == 'func_1vN' else 100 if n.startswith('integral') else 400
        for i in range(0, len(g), sz):
            out.append(dict(k='grid', f=n, q=q, i=i, n=sz))
    for i in range(len(POOL)):
        for v in (0, 1):
            out.append(dict(k='seq', i=i, v=v, depth=2 if q else 3))
    out += [dict(k='evict', v=v, i=i) for v in (0, 1) for i in range(0, len(POOL), 9)]
    for n in range(1, 41 if q else 131):
        out.append(dict(k='hilbert', n=n))
    out += [dict(k='ozaki', N=N) for N in list(range(2, 42, 2))+[64, 100, 200]+([] if q else [300, 500])]
    out += [dict(k='bw', D=D) for D in (3., 8., 15., 30., 60., 100., 250., 1000., 4000.)]
    J = [None, (1.0, 1.0), (0.5, 3.0)]
    for v in (0, 1):
        for j in range(len(J)):
            for it in (None, 0, 2):
                out.append(dict(k='elph', v=v, J=J[j], it=it, depth=2 if q or it == 0 else 3))
    return out


def cost(case):
    return {'grid': 30 if case.get('f', '').startswith(('integral', 'func_1')) else 3, 'seq': 1 if case.get('depth', 2) < 3 else 20,
            'elph': 20, 'hilbert': 1, 'ozaki': 1, 'bw': 2, 'evict': 1}[case['k']]


def run(case, R):
    globals()['run_'+case['k']](case, R)


def run_grid(case, R):
    name = case['f']
    for a in grid_of(name, case['q'])[case['i']:case['i']+case['n']]:
        R.state((name, repr(a)))
        vals = [judge(R, name, v, a, name) for v in (0, 1)]
        R.trace()
        # symmetries and sum rules of the defining expressions
        for v in (0, 1):
            x = vals[v]
            ver = ':compiled' if v else ':python'
            if name == 'fermi':
                y = call(name, v, (-a[0],))
                R.check(abs(x+y-1) < 4e-16, 'fermi sum rule'+ver, lambda: 'f(%r) + f(-x) = %r' % (a[0], x+y))
                R.nt((name, a))
            elif name == 'bose':
                s = a[1] if len(a) > 1 else 1
                if abs(a[0]) > 1e-6:
                    y = call(name, v, (-a[0], s))
                    R.check(abs(x+y+1) < 1e-15+1e-15/abs(a[0])**2, 'bose sum rule'+ver, lambda: 'b(%r) + b(-x) = %r' % (a[0], x+y))
                R.nt((name, a))
            elif name in ('digamma', 'polygamma'):
                y = call(name, v, (a[0].conjugate(),)+tuple(a[1:]))
                R.check(abs(np.conj(x)-y) <= 1e-12*(1+abs(x)), name+' reflection'+ver, lambda: '%s%s = %r, conjugate %r' % (name, a, x, y))
                R.nt((name, repr(a)))
            elif name == 'func_pauli':
                s = x[0]+x[1]
                R.check(s == 0 or abs(s-2*PI) < 1e-14, 'func_pauli sum rule'+ver, lambda: '%s: %r' % (a, x))
                R.nt((name, a))
            elif name == 'func_1vN':
                if x[0].imag:
                    R.nt((name, a))
            else:
                R.nt((name, a))
        R.outcome((name, repr(np.round(np.asarray(vals[0]), 6))))
        d = np.max(np.abs(np.asarray(vals[0])-np.asarray(vals[1])))
        if name.startswith('integral'):
            R.check(d <= 1e-10*(1+np.max(np.abs(vals[0]))), name+' versions', lambda: '%s: %r and %r' % (a, vals[0], vals[1]))


def run_seq(case, R):
    n1, a1 = POOL[case['i']]
    v = case['v']
    for n2, a2 in POOL:
        for n3, a3 in ([(None, None)] if case['depth'] < 3 else [p for p in POOL if p[0] in (n1, n2)]):
            judge(R, n1, v, a1, 'history')
            judge(R, n2, v, a2, 'history')
            if n3:
                judge(R, n3, v, a3, 'history')
            R.state((v, case['i'], n2, a2, n3, a3))
            R.trace()
            if n1 == n2 and a1 != a2:
                R.nt((v, case['i'], n2, a2))


def run_evict(case, R):
    """A request returns the same value after the caches have been filled by more than their capacity of other requests."""
    v = case['v']
    for name, a in POOL[case['i']:case['i']+9]:
        x = judge(R, name, v, a, 'history')
        for k in range(130):
            y = 0.01+k/64.
            b = list(a)
            b[0] = complex(0.5, y) if isinstance(a[0], complex) else y
            judge(R, name, v, tuple(b), 'history')
        y = judge(R, name, v, a, 'history')
        R.check(np.array_equal(x, y), 'repeat', lambda: '%s%s changed from %r to %r' % (name, a, x, y))
        R.state((v, name, a))
        R.nt((v, name, a))
        R.trace()


def hat(d):
    """(1/pi) int (1-|s|)/(d-s) ds over the support of a hat function at distance d > 0."""
    return (I._gl(lambda s: (1+s)/(d-s), -1., 0., 0.25)+I._gl(lambda s: (1-s)/(d-s), 0., 1., 0.25))/PI


def run_hilbert(case, R):
    from qmeq.specfunc import specfunc as s
    n = case['n']
    H = np.zeros((n, n))
    for d in range(1, n):
        h = hat(float(d))
        for k in range(n-d):
            H[k+d, k] = h
            H[k, k+d] = -h
    ker = np.array(s.kernel_fredriksen(n))
    k0 = ker.copy()
    for k in range(n):
        e = np.zeros(n)
        e[k] = 1
        for form, f in (('real', e), ('complex', 1j*e)):
            r = np.asarray(s.hilbert_fredriksen(f.copy(), ker))
            R.step()
            w = H[:, k]*(1 if form == 'real' else 1j)
            R.check(r.shape == (n,) and np.max(np.abs(r-w)) < 1e-12, 'hilbert', lambda: 'n=%d unit vector %d %s' % (n, k, form))
        r = np.asarray(s.hilbert_fredriksen(e))
        R.check(np.max(np.abs(r-H[:, k])) < 1e-12, 'hilbert default kernel', lambda: 'n=%d unit vector %d' % (n, k))
        R.state((n, k))
        R.nt((n, k))
        R.trace()
    R.check(np.array_equal(ker, k0), 'hilbert kernel changed', 'n=%d' % n)


def run_ozaki(case, R):
    from qmeq.specfunc import specfunc as s, c_specfunc as c
    N = case['N']
    tabs = [np.asarray(s.Ozaki(N)), np.asarray(c.c_Ozaki(N))]
    for v, t in enumerate(tabs):
        ver = ':compiled' if v else ':python'
        R.step()
        R.check(t.shape == (N//2, 2) and np.all(t > 0), 'ozaki shape'+ver, 'N=%d' % N)
        b = np.sort(1/t[:, 0])
        # the lowest poles are the Matsubara poles with unit residue, and the expansion reproduces the Fermi function
        for i in range(N//6):
            j = np.argmin(abs(1/t[:, 0]-(2*i+1)*PI))
            R.check(abs(1/t[j, 0]-(2*i+1)*PI) < 1e-6*(2*i+1)*PI and abs(t[j, 1]-1) < 1e-4, 'ozaki pole'+ver,
                    lambda: 'N=%d pole %d: %r' % (N, i, t[j]))
        for x in np.linspace(-0.9*N, 0.9*N, 37):
            f = 0.5-np.sum(t[:, 1]*2*x*t[:, 0]**2/(x*x*t[:, 0]**2+1))
            tol = 1e-9 if abs(x) < 0.5*N and N >= 12 else 0.2
            R.check(abs(f-fermi(x)) < tol, 'ozaki expansion'+ver, lambda: 'N=%d x=%g: %r' % (N, x, f))
            R.ev()
        R.state((N, v))
        R.nt((N, v))
        R.trace()
    R.check(np.max(abs(np.sort(tabs[0], axis=0)-np.sort(tabs[1], axis=0))) < 1e-12*(1+np.max(tabs[0])), 'ozaki versions', 'N=%d' % N)


def run_bw(case, R):
    from qmeq.specfunc import specfunc as s, c_specfunc as c
    D = case['D']
    tabs = [np.asarray(s.BW_Ozaki(D)), np.asarray(c.c_BW_Ozaki(D))]
    R.check(tabs[0].shape == tabs[1].shape and np.max(abs(tabs[0]-tabs[1])) < 1e-12*(1+np.max(tabs[0])), 'bandwidth poles versions',
            lambda: 'D=%g' % D)
    for v, t in enumerate(tabs):
        R.step()
        b = np.max(1/t[:, 0])
        R.check(0.45*D < b < 3*D+12, 'bandwidth poles', lambda: 'D=%g largest pole %g' % (D, b))
        R.state((D, v))
        R.nt((D, v))
        R.trace()


ELPH_T = [0.5, 1.3]
ELPH_D = [[0.2, 6.0], [0.0, 9.0]]
ELPH_E = [0.7, -0.7, 2.3, -2.3, 0.15, -0.15, 5.9, 6.1, -8.9, 12.0, 0.0]


def elph(v, J, it):
    from qmeq.specfunc import specfunc_elph as s, c_specfunc_elph as c
    mod = c if v else s
    T, D = np.array(ELPH_T), np.array(ELPH_D)
    bf = None
    if J is not None:
        class F(mod.Func):
            def eval(self, x):
                return self.a*abs(x)**self.p*(1 if x >= 0 else -1)
        bf = []
        for l, f in enumerate((1.0, 1.7)):
            g = F()
            g.a, g.p = J[0]*f, J[1]
            bf.append(g)
    if it is None:
        return mod.FuncPauliElPh(T, D, bf, 1e-6)
    return mod.Func1vNElPh(T, D, it, 10000, bf, 1e-6)


_er = {}


def elph_ref(J, it, E, l):
    k = (J, it, E, l)
    if k not in _er:
        f = (lambda x: 1.0) if J is None else (lambda x: J[0]*(1.0, 1.7)[l]*abs(x)**J[1]*(1 if x >= 0 else -1))
        T, (lo, hi) = ELPH_T[l], ELPH_D[l]
        if it is None:
            _er[k] = I.ph_pauli(E, T, lo, hi, f, 1e-6)
        else:
            _er[k] = I.ph_1vn(E, T, lo, hi, f, 1e-6, it)
    return _er[k]


def value(o, it):
    return complex(o.val) if it is None else (complex(o.val0), complex(o.val1))


def run_elph(case, R):
    v, it, depth = case['v'], case['it'], case['depth']
    J = None if case['J'] is None else tuple(case['J'])
    reqs = [(E, l) for E in ELPH_E for l in (0, 1) if not (it == 0 and (E == 0.0 or l == 1 and J is None))]
    if it == 0:
        reqs = [x for x in reqs if not (abs(x[0]) == 0.15 and x[1] == 1)]
    for seq in itertools.product(reqs, repeat=depth):
        o = elph(v, J, it)
        for E, l in seq:
            o.eval(E, l)
            R.step()
            x, w = np.array(value(o, it)), np.array(elph_ref(J, it, E, l))
            tol = 1e-5 if it == 0 else 1e-9
            R.check(bool(np.all(abs(x-w) <= tol*(1+abs(w)))), 'phonon%s:%s' % ('' if it is None else it, 'compiled' if v else 'python'),
                    lambda: 'J=%s sequence %s at %s: %r, expected %r' % (J, seq, (E, l), x, w))
            if np.any(abs(w) > 0):
                R.nt((v, repr(J), it, E, l))
        R.state((v, repr(J), it, seq))
        R.trace()
