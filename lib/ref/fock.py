"""Second-quantised operators by the Jordan-Wigner construction, written without looking at qmeq.

A Fock state is a tuple of occupations; the full basis of n levels is itertools.product((0, 1), repeat=n).
"""
import functools
import itertools

import numpy as np


@functools.lru_cache(maxsize=None)
def ann(n):
    """annihilation operators d_0..d_{n-1} in the full basis."""
    a = np.array([[0., 1.], [0., 0.]])
    z = np.diag([1., -1.])
    out = []
    for i in range(n):
        m = np.eye(1)
        for j in range(n):
            m = np.kron(m, z if j < i else (a if j == i else np.eye(2)))
        out.append(m)
    return out


def basis(n):
    return list(itertools.product((0, 1), repeat=n))


def h_hop(n, h, herm=True):
    """hsingle[(i, j)]: remove a particle from i, add it in j; + conjugate for i != j."""
    d = ann(n)
    H = np.zeros((2**n, 2**n), dtype=complex)
    for (i, j), v in h.items():
        op = d[j].T @ d[i]
        H += v*op
        if herm and i != j:
            H += np.conj(v)*op.T
    return H


def h_coul(n, U, herm=False, m_less_n=True):
    """coulomb[(m, n, k, l)]: U d_m^+ d_n^+ d_k d_l; with herm_c the conjugate elements are added, except
    for elements that are their own conjugate and (m_less_n) those whose conjugate would not have m < n."""
    d = ann(n)
    H = np.zeros((2**n, 2**n), dtype=complex)
    for (a, b, k, l), v in U.items():
        op = d[a].T @ d[b].T @ d[k] @ d[l]
        H += v*op
        if herm and (a, b, k, l) != (l, k, b, a) and not (m_less_n and l > k):
            H += np.conj(v)*op.T
    return H


def t_lead(n, nl, t):
    """sum_i t_li d_i^+ + conjugate, one Hermitian matrix per lead."""
    d = ann(n)
    T = np.zeros((nl, 2**n, 2**n), dtype=complex)
    for (l, i), v in t.items():
        T[l] += v*d[i].T + np.conj(v)*d[i]
    return T


def v_bath(n, nb, v):
    """sum_ij v_bij d_i^+ d_j."""
    d = ann(n)
    V = np.zeros((nb, 2**n, 2**n), dtype=complex)
    for (b, i, j), x in v.items():
        V[b] += x*(d[i].T @ d[j])
    return V


def number(n):
    return sum(x.T @ x for x in ann(n))


def s2(n):
    """total spin squared; levels 0..n/2-1 are up, the rest the same orbitals down."""
    d = ann(n)
    h = n//2
    sp = sum(d[i].T @ d[i+h] for i in range(h))
    sz = sum(d[i].T @ d[i] - d[i+h].T @ d[i+h] for i in range(h))/2
    return sp @ sp.T + sz @ sz - sz


def spin_double(m):
    """The model with both spins written out of a spin-up half {'h','t','v'} with n levels in total, nl leads."""
    h, n2, l2 = {}, m['n']//2, m['nl']//2
    for (i, j), v in m['h'].items():
        h[(i, j)] = v
        h[(i+n2, j+n2)] = v
    t = {}
    for (l, i), v in m['t'].items():
        t[(l, i)] = v
        t[(l+l2, i+n2)] = v
    v2 = {}
    for (b, i, j), v in m.get('v', {}).items():
        v2[(b, i, j)] = v
        v2[(b, i+n2, j+n2)] = v
    return h, t, v2


def coul_from_tensor(n, W):
    """H = 1/2 sum W_mnkl d_m^+ d_n^+ d_k d_l."""
    d = ann(n)
    H = np.zeros((2**n, 2**n), dtype=complex)
    for (a, b, k, l), v in W.items():
        H += 0.5*v*(d[a].T @ d[b].T @ d[k] @ d[l])
    return H
