"""Observations of a solved builder that do not depend on the phases of the eigenvectors."""
import numpy as np

from lib import models as M


def snap(b, coh=True, weak=False):
    """weak: only quantities that survive a change of basis inside degenerate multiplets."""
    s = dict(Ea=M.arr(b.Ea).real, mulst=M.arr(b.mulst), tlst=M.arr(b.tlst), dlst=M.arr(b.dlst),
             cur=M.currents(b), success=np.array([bool(b.success)]))
    s['Ea'] = np.sort(s['Ea']) if weak else s['Ea']
    if hasattr(b, 'baths'):
        s['tlst_ph'] = M.arr(b.baths.tlst_ph)
        s['dlst_ph'] = M.arr(b.baths.dlst_ph)
    if not weak:
        s['Tba'] = np.abs(b.Tba)
        if hasattr(b, 'baths'):
            s['Vbbp'] = np.abs(b.baths.Vbbp)
        if coh:
            s['rho'] = np.abs(M.density(b))
        else:
            s['rho'] = M.arr(b.phi0)[:M.npop(b)].real
    return s


TOL = dict(cur=(1e-7, 1e-12), rho=(1e-7, 1e-11), Ea=(1e-10, 1e-12), Tba=(1e-9, 1e-12), Vbbp=(1e-9, 1e-12))


def compare(R, got, want, tag, tol=None):
    ok = True
    for k in want:
        if k == 'success':
            ok &= R.check(bool(np.all(got[k])) == bool(np.all(want[k])), tag + ':success', 'success %s, expected %s' % (got[k], want[k]))
            continue
        r, a = (tol or {}).get(k) or TOL.get(k, (1e-10, 1e-13))
        if k == 'cur':
            for i, nm in enumerate(('current', 'energy_current', 'heat_current')):
                # RTD documents energy and heat currents as NaN for complex amplitudes
                if i and np.isnan(want[k][i]).all() and np.isnan(got[k][i]).all() and \
                        np.isfinite(want[k][0]).all():
                    continue
                ok &= R.check(M.close(got[k][i], want[k][i], r, a), tag + ':' + nm,
                              lambda: M.diff(got[k][i], want[k][i]))
        else:
            ok &= R.check(M.close(got[k], want[k], r, a), tag + ':' + k, lambda: M.diff(got[k], want[k]))
    return ok
