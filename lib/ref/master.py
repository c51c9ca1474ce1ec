"""First-order master equations written with dense matrices, for any kept states and coherences.

Everything is linear over the reals in the Hermitian density matrix; the generator is obtained by applying the
equation to a basis of Hermitian matrices, so that no element placement is shared with the code under test.
"""
import numpy as np

from lib.ref import integrals as I


class Problem(object):
    """E, charge per state, T[l] Hermitian, leads mu, T, D; kept: iterable of states; coh: allowed pairs (set of (b,bp))."""

    def __init__(self, E, ch, T, mu, temp, band, kept=None, coh=None, itype=0,
                 V=None, temp_ph=(), band_ph=(), J=None, eps=1e-6, itype_ph=0):
        self.E, self.ch = np.asarray(E, dtype=float), list(ch)
        n = self.n = len(self.E)
        k = np.zeros(n)
        k[list(range(n)) if kept is None else list(kept)] = 1
        self.k = k
        pk = np.outer(k, k)
        self.T = np.asarray(T)*pk
        c = np.array(self.ch)
        self.up = (c[:, None] == c[None, :]+1)           # element (c, b) raises the charge
        self.same = (c[:, None] == c[None, :])
        self.mask = self.same*pk*(np.eye(n) if coh is False else 1)
        if coh is not None and coh is not False:
            m = np.eye(n)*pk
            for b, bp in coh:
                m[b, bp] = m[bp, b] = 1
            self.mask = self.mask*m
        self.mu, self.temp, self.band = mu, temp, band
        self.itype = itype
        self.nl = len(self.T)
        self.V = np.asarray(V)*pk*self.same if V is not None else np.zeros((0, n, n))
        self.temp_ph, self.band_ph, self.J, self.eps, self.itype_ph = temp_ph, band_ph, J, eps, itype_ph

    # -- bases
    def hbasis(self):
        out = []
        for b in range(self.n):
            if self.mask[b, b]:
                m = np.zeros((self.n, self.n), dtype=complex)
                m[b, b] = 1
                out.append(m)
        for b in range(self.n):
            for bp in range(b+1, self.n):
                if self.mask[b, bp]:
                    for z in (1, 1j):
                        m = np.zeros((self.n, self.n), dtype=complex)
                        m[b, bp], m[bp, b] = z, np.conj(z)
                        out.append(m)
        return out

    def coords(self, r):
        out = [r[b, b].real for b in range(self.n) if self.mask[b, b]]
        for b in range(self.n):
            for bp in range(b+1, self.n):
                if self.mask[b, bp]:
                    out += [r[b, bp].real, r[b, bp].imag]
        return np.array(out)

    def generator(self, rhs):
        return np.array([self.coords(rhs(m)) for m in self.hbasis()]).T

    def steady(self, rhs):
        bas = self.hbasis()
        L = np.array([self.coords(rhs(m)) for m in bas]).T
        tr = np.array([np.trace(m).real for m in bas])
        s = np.max(np.abs(L)) or 1.0
        A = np.vstack([L/s, tr])
        y = np.zeros(len(A))
        y[-1] = 1
        x, res, rank, sv = np.linalg.lstsq(A, y, rcond=None)
        self.gap = sv[-1] if len(sv) else 1.0
        self.residual = float(np.max(np.abs(A @ x - y)))
        rho = sum(a*m for a, m in zip(x, bas))
        return rho

    # -- integrals
    def pauli(self, l):
        """rate factors f_in[c, b], f_out[c, b] on raising elements."""
        f = np.zeros((2, self.n, self.n))
        for c in range(self.n):
            for b in range(self.n):
                if self.up[c, b] and self.k[c] and self.k[b]:
                    f[:, c, b] = I.lead_pauli(self.E[c]-self.E[b], self.mu[l], self.temp[l], self.band[l][0],
                                              self.band[l][1], self.itype)
        return f

    def vn(self, l):
        f = np.zeros((4, self.n, self.n), dtype=complex)
        for c in range(self.n):
            for b in range(self.n):
                if self.up[c, b] and self.k[c] and self.k[b]:
                    f[:, c, b] = I.lead_1vn(self.E[c]-self.E[b], self.mu[l], self.temp[l], self.band[l][0],
                                            self.band[l][1], self.itype)
        return f

    def phpauli(self, l):
        f = np.zeros((self.n, self.n))
        for a in range(self.n):
            for b in range(self.n):
                if self.same[a, b] and self.k[a] and self.k[b]:
                    f[a, b] = I.ph_pauli(self.E[a]-self.E[b], self.temp_ph[l], self.band_ph[l][0], self.band_ph[l][1],
                                         self.J[l], self.eps)
        return f

    def ph1vn(self, l):
        """F[f, i] for the transition i -> f."""
        w = {}

        def get(E, diag):
            if (E, diag) not in w:
                a, b = I.ph_1vn(E, self.temp_ph[l], self.band_ph[l][0], self.band_ph[l][1], self.J[l], self.eps,
                                self.itype_ph)
                if diag:
                    # energy-conserving term: absorption and emission share the zero-energy mode
                    a, b = a-0.5j*a.imag, b-0.5j*b.imag
                w[(E, diag)] = a, b
            return w[(E, diag)]
        F = np.zeros((self.n, self.n), dtype=complex)
        for f in range(self.n):
            for i in range(self.n):
                if self.same[f, i] and self.k[f] and self.k[i]:
                    d = self.E[f]-self.E[i]
                    F[f, i] = get(d, f == i)[0] + np.conj(get(-d, f == i)[1])
        return F

    # -- equations: each returns (rho, I_particle, I_energy, info)
    def solve(self, kind):
        return getattr(self, kind)()

    def _free(self, r):
        return -1j*(self.E[:, None]-self.E[None, :])*r

    def Pauli(self):
        self.mask = self.mask*np.eye(self.n)
        n, nl = self.n, self.nl
        W = np.zeros((n, n))                                 # W[f, i]
        rates = []
        for l in range(nl):
            f = self.pauli(l)
            t2 = np.abs(self.T[l])**2*self.up
            w = t2*f[0] + (t2*f[1]).T
            rates.append(w)
            W += w
        for l in range(len(self.V)):
            v2 = 0.5*(np.abs(self.V[l])**2 + np.abs(self.V[l].T)**2)
            w = v2*self.phpauli(l)
            np.fill_diagonal(w, 0)
            W += w

        def rhs(r):
            p = np.diag(r).real
            return np.diag(W @ p - W.sum(axis=0)*p)
        rho = self.steady(rhs)
        p = np.diag(rho).real
        cur, ecur = np.zeros(nl), np.zeros(nl)
        dN = np.array(self.ch)[:, None]-np.array(self.ch)[None, :]
        dE = self.E[:, None]-self.E[None, :]
        for l in range(nl):
            cur[l] = np.sum(dN*rates[l]*p[None, :])
            ecur[l] = np.sum(dE*rates[l]*p[None, :])
        return rho, cur, ecur

    def Lindblad(self):
        n, nl = self.n, self.nl
        jumps = []
        for l in range(nl):
            f = self.pauli(l)
            up = np.sqrt(f[0])*self.T[l]*self.up
            dn = np.sqrt(f[1]).T*self.T[l]*self.up.T
            jumps += [(l, +1, up), (l, -1, dn)]
        for l in range(len(self.V)):
            s = np.sqrt(0.5*self.phpauli(l))
            jumps += [(None, 0, s*self.V[l]), (None, 0, s*self.V[l].conj().T)]

        def rhs(r):
            d = self._free(r)
            for _, _, L in jumps:
                LL = L.conj().T @ L
                d = d + L @ r @ L.conj().T - 0.5*(LL @ r + r @ LL)
            return d*self.mask
        rho = self.steady(rhs)
        cur, ecur = np.zeros(nl), np.zeros(nl)
        H = np.diag(self.E)
        for l, s, L in jumps:
            if l is None:
                continue
            r2 = L @ rho @ L.conj().T
            LL = L.conj().T @ L
            cur[l] += s*np.trace(r2).real
            # energy of the final states minus the (symmetrised) energy of the initial ones
            ecur[l] += (np.trace(H @ r2) - 0.5*np.trace(LL @ (H @ rho + rho @ H))).real
        return rho, cur, ecur

    def _first(self, redfield):
        nl = self.nl
        fs = [self.vn(l) for l in range(nl)]
        Fs = [self.ph1vn(l) for l in range(len(self.V))]
        up = self.up

        def P(l, r, e):
            t, (F, G) = self.T[l], fs[l][e:e+2]
            if redfield:
                return ((F*t*up) @ r + r @ (G*t*up))*up
            return F*up*(t @ r) + G*up*(r @ t)

        def rhs(r):
            d = self._free(r)
            for l in range(nl):
                X = P(l, r, 0)
                X = X + X.conj().T
                d = d - 1j*(self.T[l] @ X - X @ self.T[l])
            for l in range(len(self.V)):
                for S in (self.V[l], self.V[l].conj().T):
                    X = (Fs[l]*S) @ r if redfield else Fs[l]*(S @ r)
                    K = 0.5*(S.conj().T @ X - X @ S.conj().T)
                    d = d - 1j*(K - K.conj().T)
            return d*self.mask
        rho = self.steady(rhs)
        cur, ecur = np.zeros(nl), np.zeros(nl)
        self.phi1 = []
        for l in range(nl):
            X, Y = P(l, rho, 0), P(l, rho, 2)
            self.phi1.append(X)
            low = self.T[l]*up.T
            cur[l] = -2*np.imag(np.sum(low.T*X))
            ecur[l] = -2*np.imag(np.sum(low.T*Y))
        return rho, cur, ecur

    def Redfield(self):
        return self._first(True)

    def vN1(self):
        return self._first(False)


KIND = {'Pauli': 'Pauli', 'Lindblad': 'Lindblad', 'Redfield': 'Redfield', '1vN': 'vN1'}


def from_builder(b, kept=None, coh=None, itype=None, **kw):
    """Reference problem of a builder whose stages qdq and rotateq were performed."""
    from lib import models as M
    ch = M.charges(b)
    if hasattr(b, 'baths'):
        J = b.baths.bath_func
        J = [(lambda x: 1.0)]*len(b.baths.tlst_ph) if J is None else [j.eval for j in J]
        kw.update(V=M.arr(b.baths.Vbbp), temp_ph=M.arr(b.baths.tlst_ph), band_ph=M.arr(b.baths.dlst_ph), J=J,
                  eps=b.funcp.eps_elph, itype_ph=b.funcp.itype_ph)
    return Problem(M.arr(b.Ea).real, ch, M.arr(b.Tba), M.arr(b.mulst), M.arr(b.tlst), M.arr(b.dlst),
                   kept=kept, coh=coh, itype=b.funcp.itype if itype is None else itype, **kw)
