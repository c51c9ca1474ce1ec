"""Exact currents of non-interacting levels (Meir-Wingreen/Landauer with flat finite bands)."""
import numpy as np

from lib import models as M


def fermi(x):
    return 1/(np.exp(np.clip(x, -700, 700))+1)


def exact(m, n=200001, energy=False):
    """Particle (and energy) currents from the leads, hbar = 1: sum_k int dE/2pi T_lk(E) (f_l - f_k)."""
    m = M.model(m)
    N = m['n']
    h = np.zeros((N, N), complex)
    for (i, j), v in M.dct(m['h']).items():
        h[j, i] += v
        if i != j:
            h[i, j] += np.conj(v)
    t = np.zeros((m['nl'], N), complex)
    for (l, i), v in M.dct(m['t']).items():
        t[l, i] = v
    lo = min(d[0] for d in m['D'])
    hi = max(d[1] for d in m['D'])
    E = np.linspace(lo, hi, n)
    E = (E[1:]+E[:-1])/2
    dE = E[1]-E[0]
    S = np.zeros((len(E), N, N), complex)
    gam = []
    for l in range(m['nl']):
        d0, d1 = m['D'][l]
        inb = (E > d0) & (E < d1)
        s = np.log(np.abs((E-d0)/(E-d1)))-1j*np.pi*inb
        w = np.outer(t[l], t[l].conj())
        S += s[:, None, None]*w
        gam.append(2*np.pi*inb[:, None, None]*w)
    G = np.linalg.inv(E[:, None, None]*np.eye(N)-h-S)
    GA = np.conj(np.transpose(G, (0, 2, 1)))
    cur, ecur = np.zeros(m['nl']), np.zeros(m['nl'])
    for l in range(m['nl']):
        for k in range(m['nl']):
            if k != l:
                T = np.einsum('eij,ejk,ekl,eli->e', gam[l], G, gam[k], GA).real
                x = T*(fermi((E-m['mu'][l])/m['T'][l])-fermi((E-m['mu'][k])/m['T'][k]))
                cur[l] += np.sum(x)*dE/(2*np.pi)
                ecur[l] += np.sum(x*E)*dE/(2*np.pi)
    return (cur, ecur) if energy else cur
