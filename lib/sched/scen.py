"""Scenarios run by the worker and by the check itself."""
import numpy as np

from lib import grid
from lib import models as M


def make(case):
    kw = dict(case.get('kw', {}))
    attr = kw.pop('attr', {})
    kern = case['kern']
    if case['m'] in M.SPIN:
        kw['symmetry'] = 'spin'
    if kern not in M.RTD:
        kw.setdefault('itype', 1)
    if kern in M.VN2:
        kw['kpnt'] = 24
    m = case['m']
    m = m if m in M.MODELS else grid.real(m[:-1])
    b = M.build(m, kern, **kw)
    for k, v in attr.items():
        setattr(b, k, v)
    return b


def step(b, case, i):
    """solve number i: later ones after a change of parameters and of the state space."""
    if i == 1:
        b.change(tleads={(0, 0): 0.07}, mulst={0: 0.2})
    elif i == 2:
        b.remove_states(1.3)
    elif i == 3:
        b.use_all_states()
    if b.kerntype in M.VN2:
        b.solve(niter=1)
        return
    if not case.get('kw', {}).get('mfreeq'):
        b.make_kern_copy = True
    b.solve()


def lst(x):
    x = np.asarray(x)
    if np.iscomplexobj(x):
        x = np.array([x.real, x.imag])
    return [repr(float(v)) for v in x.ravel()]


def observe(b):
    k = b.kern
    return dict(kern=lst(k) if k is not None else [], phi0=lst(b.phi0), cur=lst(M.currents(b)), ok=bool(b.success))
