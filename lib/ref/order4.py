"""References for the fourth order in the tunnelling amplitude, in the wide-band limit.

flat(m): exact currents of non-interacting levels (infinite flat band, adaptive panels at the resonances).
thermal(m): second-order correction to the equilibrium populations by imaginary-time perturbation theory.
cotunnel(m): currents and populations of a stable charge sector from the golden rule with T-matrix amplitudes.
"""
import math

import numpy as np
from scipy import special

from lib import models as M
from lib.ref import fock

X, W = np.polynomial.legendre.leggauss(40)


def f(x):
    return special.expit(-x)


def panels(centers, width, reach):
    """Gauss nodes resolving scales from width to reach around each centre."""
    e = set()
    for c in centers:
        s = width
        e.add(c)
        while s < reach:
            e |= {c+s, c-s}
            s *= 1.8
        e |= {c+reach, c-reach}
    e = np.array(sorted(e))
    m, r = (e[1:]+e[:-1])/2, (e[1:]-e[:-1])/2
    ok = r > 0
    m, r = m[ok], r[ok]
    return (m[:, None]+r[:, None]*X).ravel(), (r[:, None]*W).ravel()


def single(m):
    """Hamiltonian h[i, j] d_i^+ d_j and amplitudes t[l, i] d_i^+."""
    n = m['n']
    h = np.zeros((n, n), complex)
    for (i, j), v in M.dct(m['h']).items():
        h[j, i] += v
        if i != j:
            h[i, j] += np.conj(v)
    t = np.zeros((m['nl'], n), complex)
    for (l, i), v in M.dct(m['t']).items():
        t[l, i] = v
    return h, t


def flat(m):
    h, t = single(m)
    n, nl = len(h), m['nl']
    gam = [2*np.pi*np.outer(t[l], t[l].conj()) for l in range(nl)]
    heff = h-0.5j*sum(gam)
    ev = np.linalg.eigvals(heff)
    Tm = max(m['T'])
    E, w = panels([v.real for v in ev]+list(m['mu']), min(min(abs(v.imag) for v in ev)*0.5+1e-9, min(m['T'])*0.3),
                  45*Tm+max(np.abs(m['mu']))+max(abs(ev)))
    G = np.linalg.inv(E[:, None, None]*np.eye(n)-heff)
    GA = np.conj(np.transpose(G, (0, 2, 1)))
    cur, ecur = np.zeros(nl), np.zeros(nl)
    fl = [f((E-m['mu'][l])/m['T'][l]) for l in range(nl)]
    for l in range(nl):
        for k in range(nl):
            if k != l:
                x = np.einsum('ij,ejk,kl,eli->e', gam[l], G, gam[k], GA).real*(fl[l]-fl[k])*w/(2*np.pi)
                cur[l] += np.sum(x)
                ecur[l] += np.sum(x*E)
    return cur, ecur


def many(m):
    """Eigenstates by charge: energies, charges, lead matrices T_l (adds a particle), columns = eigenvectors."""
    n, nl = m['n'], m['nl']
    H = fock.h_hop(n, M.dct(m['h']))+fock.h_coul(n, M.dct(m['U']))
    N = np.real(np.diag(fock.number(n))).round().astype(int)
    d = fock.ann(n)
    E, Q, cols = [], [], []
    for q in range(n+1):
        ix = np.where(N == q)[0]
        e, v = np.linalg.eigh(H[np.ix_(ix, ix)])
        for k in range(len(ix)):
            c = np.zeros(2**n, complex)
            c[ix] = v[:, k]
            E.append(e[k])
            Q.append(q)
            cols.append(c)
    V = np.array(cols).T
    T = np.zeros((nl, 2**n, 2**n), complex)
    for (l, i), v in M.dct(m['t']).items():
        T[l] += v*(V.conj().T @ d[i].T @ V)
    return np.array(E), np.array(Q), T


def thermal(m, D=2e5):
    """(p0, p1 per unit of the given amplitudes): equilibrium populations through second order in the amplitudes."""
    E, Q, T = many(m)
    mu, be = m['mu'][0], 1/m['T'][0]
    K = E-mu*Q
    K = K-K.min()
    p0 = np.exp(-be*K)
    dz = np.zeros(len(E))
    A = np.sum(np.abs(T)**2, axis=0)        # A[a, b]: b gains a particle and becomes a

    def h(x):
        """int_0^beta (beta - tau) exp(-tau x) d tau."""
        y = be*x
        s = np.abs(y) < 1e-2
        ys = np.where(s, 1.0, y)
        big = 1/ys+np.expm1(-np.clip(ys, -600, 600))/ys**2
        ser = 0.5-y/6+y**2/24-y**3/120+y**4/720-y**5/5040
        return be**2*np.where(s, ser, big)
    done = {}

    def I(delta):
        """int (1 - f(e)) h(e - delta) d e over a band of +-D."""
        k = round(delta, 12)
        if k not in done:
            e, w = panels([0., delta], 0.2/be, D)
            ok = np.abs(e) <= D
            x = f(-be*e)*h(e-delta)
            # (1-f) decays, h grows for negative e: evaluate the product in the log domain there
            neg = be*e < -30
            y = be*(e-delta)
            with np.errstate(all='ignore'):
                lg = np.exp(be*e-np.where(neg, y, 0))
                ex = be**2*(np.exp(be*e)*(1/y-1/y**2)+lg/y**2)
            x = np.where(neg & (np.abs(y) > 1), ex, x)
            done[k] = np.sum((x*w)[ok])
        return done[k]
    for b in range(len(E)):
        for a in range(len(E)):
            if A[a, b] > 1e-14:      # gains a particle from the leads (f), then returns
                dz[b] += A[a, b]*p0[b]*I(K[b]-K[a])
            if A[b, a] > 1e-14:
                dz[b] += A[b, a]*p0[b]*I(K[b]-K[a])
    Z = p0.sum()
    return p0/Z, dz/Z-p0/Z*dz.sum()/Z


def cotunnel(m, q):
    """Populations of the states of charge q and currents (particle, energy) of order four for a stable sector."""
    E, Q, T = many(m)
    nl = m['nl']
    S = [i for i in range(len(E)) if Q[i] == q]
    U, L = [i for i in range(len(E)) if Q[i] == q+1], [i for i in range(len(E)) if Q[i] == q-1]
    R = np.zeros((nl, nl, len(S), len(S)))       # particle from lead k to lead l, state b -> a
    RE = np.zeros((2, nl, nl, len(S), len(S)))
    mus, Ts = m['mu'], m['T']
    for ib, b in enumerate(S):
        for ia, a in enumerate(S):
            for k in range(nl):
                for l in range(nl):
                    # particle with energy e leaves k; arrives in l with e + E_b - E_a
                    s = E[b]-E[a]
                    e, w = panels([mus[k], mus[l]-s], 0.3*min(Ts), 40*max(Ts)+abs(mus[k]-mus[l]+s))
                    amp = np.zeros(len(e), complex)
                    for u in U:
                        amp += np.conj(T[l][u, a])*T[k][u, b]/(e+E[b]-E[u])
                    for v in L:
                        # first emit into l (b -> v), then absorb from k (v -> a); fermionic sign
                        amp -= T[k][a, v]*np.conj(T[l][b, v])/(E[b]-E[v]-(e+s))
                    x = 2*np.pi*np.abs(amp)**2*f((e-mus[k])/Ts[k])*f(-(e+s-mus[l])/Ts[l])*w
                    R[k, l, ia, ib] = x.sum()
                    RE[0, k, l, ia, ib] = (x*e).sum()
                    RE[1, k, l, ia, ib] = (x*(e+s)).sum()
    Wm = R.sum(axis=(0, 1))
    Wm = Wm-np.diag(Wm.sum(axis=0))
    if len(S) > 1:
        A = np.vstack([Wm, np.ones(len(S))])
        A[:-1] /= np.max(np.abs(Wm))
        p = np.linalg.lstsq(A, np.r_[np.zeros(len(S)), 1.], rcond=None)[0]
    else:
        p = np.ones(1)
    cur, ecur = np.zeros(nl), np.zeros(nl)
    for k in range(nl):
        for l in range(nl):
            if k != l:
                c = np.sum(R[k, l] @ p)
                cur[k] += c
                cur[l] -= c
            ecur[k] += np.sum(RE[0, k, l] @ p)
            ecur[l] -= np.sum(RE[1, k, l] @ p)
    return S, p, cur, ecur
