"""Lead and phonon transition integrals from their defining expressions."""
import functools
import math

import numpy as np
from scipy import integrate, special

PI = math.pi


def fermi(x):
    return 1/(1+math.exp(x)) if x < 0 else math.exp(-x)/(1+math.exp(-x)) if x < 700 else 0.0


def bose(x):
    return 1/math.expm1(x) if x < 700 else 0.0


np.seterr(all="ignore")
GX, GW = np.polynomial.legendre.leggauss(40)


def _edges(a, b, h, c):
    """panels of width h close to zero (poles at distance pi) and to c, wider ones far away."""
    e = [a]
    while e[-1] < b-1e-6*h:
        x = e[-1]
        w = max(h, 0.3*abs(x), 0) if c is None else max(h, 0.3*min(abs(x), abs(x-c)))
        # a panel growing towards zero or c has to be short at its far end too
        w = max(h, min(w, 0.5*abs(x) if x < 0 else w, 0.5*abs(x-c) if c is not None and x < c else w))
        e.append(x+w)
    if len(e) == 1:
        e.append(b)
    e[-1] = b
    return np.array(e)


def _gl(f, a, b, h, c=None):
    """composite Gauss-Legendre with panels of at least about h."""
    e = _edges(a, b, h, c)
    m, r = (e[1:]+e[:-1])/2, (e[1:]-e[:-1])/2
    x = m[:, None] + r[:, None]*GX
    return float(np.sum(f(x)*GW*r[:, None]))


def npfermi(x):
    return special.expit(-x)


def pv(f, lo, hi, c, h=1.0):
    """Principal value of int_lo^hi f(x)/(x-c) dx for smooth vectorised f."""
    if c <= lo or c >= hi:
        # refine towards the pole
        d = min(abs(lo-c), abs(hi-c))
        if d > h:
            return _gl(lambda x: f(x)/(x-c), lo, hi, h, c)
        # subtract the value at the pole (f is smooth beyond the interval)
        fc = float(f(np.array([[c]]))[0, 0])
        return _gl(lambda x: (f(x)-fc)/(x-c), lo, hi, h, c) + fc*math.log(abs((hi-c)/(lo-c)))
    fc = float(f(np.array([[c]]))[0, 0])
    g = lambda x: (f(x)-fc)/(x-c)
    return _gl(g, lo, c, h, c) + _gl(g, c, hi, h, c) + fc*math.log((hi-c)/(c-lo))


@functools.lru_cache(maxsize=None)
def lead_pauli(E, mu, T, Dm, Dp, itype):
    f = fermi((E-mu)/T)
    if itype in (1, 3) or Dm < E < Dp:
        return 2*PI*f, 2*PI*fermi(-(E-mu)/T)
    return 0.0, 0.0


@functools.lru_cache(maxsize=None)
def lead_1vn(E, mu, T, Dm, Dp, itype):
    """(cur0, cur1, en0, en1)."""
    a, lo, hi = (E-mu)/T, (Dm-mu)/T, (Dp-mu)/T
    inside = lo < a < hi
    if itype == 0:
        re0 = pv(npfermi, lo, hi, a)
        re1 = -pv(lambda x: npfermi(-x), lo, hi, a)
        c0 = re0 - 1j*PI*fermi(a)*inside
        c1 = re1 + 1j*PI*fermi(-a)*inside
        n0 = T*_gl(npfermi, lo, hi, 1.0)
        n1 = -T*_gl(lambda x: npfermi(-x), lo, hi, 1.0)
        return c0, c1, n0 + E*c0, n1 + E*c1
    if itype == 1:
        lo, hi = Dm/T, Dp/T
        c0 = special.digamma(0.5+0.5j*a/PI).real - math.log(abs(lo)/(2*PI)) - 1j*PI*fermi(a)
        c1 = c0 + math.log(abs(lo/hi)) + 1j*PI
        return c0, c1, -Dm + E*c0, -Dp + E*c1
    w = 1.0 if itype == 3 or inside else 0.0
    c0, c1 = -1j*PI*fermi(a)*w, 1j*PI*fermi(-a)*w
    return c0, c1, E*c0, E*c1


def _alpha(E, T, lo, hi, eps):
    a = max(abs(E/T), eps)*(1 if E >= 0 else -1)
    return a, max(lo/T, 0.9*eps), hi/T


def ph_pauli(E, T, lo, hi, J, eps):
    """rate of a transition in which the dot gains the energy E."""
    a, l, h = _alpha(E, T, lo, hi, eps)
    if l < a < h:
        return 2*PI*bose(a)*J(T*a)
    if l < -a < h:
        return 2*PI*(1+bose(-a))*J(-T*a)
    return 0.0


def ph_1vn(E, T, lo, hi, J, eps, itype):
    a, l, h = _alpha(E, T, lo, hi, eps)
    r0 = r1 = 0.0
    if itype == 0:
        # logarithmic substitution resolves the Bose divergence at small energies
        jn = lambda x: np.vectorize(lambda y: J(T*y))(x)/np.expm1(x)
        j1 = lambda x: -np.vectorize(lambda y: J(T*y))(x)*(1+1/np.expm1(x))
        r0, r1 = pv_log(jn, l, h, a), pv_log(j1, l, h, a)
    ins = l < a < h
    w0 = r0 + (-1j*PI*J(T*a)*bose(a) if ins else 0)
    w1 = r1 + (1j*PI*J(T*a)*(1+bose(a)) if ins else 0)
    return w0, w1


def pv_log(f, lo, hi, c):
    """as pv, on panels that grow geometrically from lo."""
    def quad(g, a, b):
        e = [a]
        while e[-1] < b:
            e.append(min(b, e[-1] + max(0.3*e[-1], 1e-12)) if e[-1] < 3 else min(b, e[-1]+1.0))
        s = 0.0
        for x0, x1 in zip(e[:-1], e[1:]):
            m, r = (x0+x1)/2, (x1-x0)/2
            s += float(np.sum(g(m+r*GX)*GW)*r)
        return s
    if c <= lo or c >= hi:
        if c <= lo and lo-c > 0.3*lo or c >= hi and c-hi > 0.3:
            return quad(lambda x: f(x)/(x-c), lo, hi)
        cc = lo if c <= lo else hi
        fc = float(f(np.array([c]))[0]) if c > 0 else None
        if fc is None:
            return quad(lambda x: f(x)/(x-c), lo, hi)
        return quad(lambda x: (f(x)-fc)/(x-c), lo, hi) + fc*math.log(abs((hi-c)/(lo-c)))
    fc = float(f(np.array([c]))[0])
    g = lambda x: (f(x)-fc)/(x-c)
    return quad(g, lo, c) + quad(g, c, hi) + fc*math.log((hi-c)/(c-lo))
