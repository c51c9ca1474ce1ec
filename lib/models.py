"""Model descriptors (plain JSON-able dictionaries) and the builders made from them.

{'n': levels, 'h': {'i,j': v}, 'U': {'m,n,k,l': v}, 'nl': leads, 't': {'l,i': v},
 'mu': [..], 'T': [..], 'D': [[lo, hi], ..], 'nb': baths, 'v': {'b,i,j': v}, 'Tph': [..], 'Dph': [[lo, hi], ..]}
A value v is a number or [re, im].
"""
import copy
import json

import numpy as np

COMP = ['Pauli', 'Lindblad', 'Redfield', '1vN']
PY = ['pyPauli', 'pyLindblad', 'pyRedfield', 'py1vN']
FIRST = COMP + PY
RTD = ['RTD', 'pyRTD']
VN2 = ['2vN', 'py2vN']
ALL = FIRST + RTD + VN2
NO_COH = ('Pauli', 'pyPauli')


def cv(v):
    if isinstance(v, (list, tuple)):
        return complex(v[0], v[1])
    return v


def jv(v):
    if isinstance(v, complex):
        return [v.real, v.imag]
    return v


def kt(s):
    return tuple(int(x) for x in s.split(','))


def tk(t):
    return ','.join(str(int(x)) for x in t)


def dct(d):
    return {kt(k): cv(v) for k, v in d.items()}


BASE = {
    # one spinless level
    'L1': dict(n=1, h={'0,0': 0.35}, U={}, nl=2, t={'0,0': 0.11, '1,0': [0.06, 0.05]},
               mu=[0.25, -0.4], T=[0.35, 0.5], D=[[-12., 12.], [-12., 12.]]),
    # one level, three leads
    'L1x3': dict(n=1, h={'0,0': -0.2}, U={}, nl=3, t={'0,0': 0.1, '1,0': [0.04, -0.07], '2,0': 0.13},
                 mu=[0.25, -0.4, 0.1], T=[0.35, 0.5, 0.42], D=[[-12., 12.]]*3),
    # spinless double dot: complex hopping and amplitudes
    'D2': dict(n=2, h={'0,0': 0.15, '1,1': -0.3, '0,1': [0.2, 0.12]}, U={'0,1,1,0': 1.4}, nl=2,
               t={'0,0': 0.11, '0,1': [0.03, 0.04], '1,1': [0.09, -0.02]},
               mu=[0.45, -0.35], T=[0.4, 0.55], D=[[-14., 14.], [-14., 14.]]),
    # weak level splitting (coherences matter), asymmetric and different bands
    'D2a': dict(n=2, h={'0,0': 0.05, '1,1': 0.02, '0,1': [0.01, 0.015]}, U={'0,1,1,0': 0.8}, nl=2,
                t={'0,0': 0.12, '0,1': [0.05, 0.06], '1,0': [0.02, 0.01], '1,1': [0.1, -0.03]},
                mu=[0.3, -0.25], T=[0.4, 0.3], D=[[-9., 13.], [-11., 8.]]),
    # exactly degenerate levels
    'D2d': dict(n=2, h={'0,0': 0.1, '1,1': 0.1}, U={'0,1,1,0': 0.9}, nl=2,
                t={'0,0': 0.12, '0,1': 0.07, '1,0': 0.05, '1,1': [0.03, 0.1]},
                mu=[0.3, -0.25], T=[0.4, 0.3], D=[[-9., 9.], [-9., 9.]]),
    # double dot with three leads
    'D2x3': dict(n=2, h={'0,0': 0.15, '1,1': -0.25, '0,1': [0.1, 0.02]}, U={'0,1,1,0': 1.1}, nl=3,
                 t={'0,0': 0.11, '1,1': [0.09, -0.02], '2,0': [0.02, 0.05], '2,1': 0.08},
                 mu=[0.4, -0.3, 0.05], T=[0.4, 0.5, 0.35], D=[[-13., 13.], [-13., 13.], [-13., 13.]]),
    # Anderson dot, both spins written out, Zeeman-split, spin-dependent coupling
    'A2': dict(n=2, h={'0,0': 0.2, '1,1': -0.1}, U={'0,1,1,0': 1.3}, nl=4,
               t={'0,0': 0.1, '1,0': [0.06, 0.03], '2,1': 0.12, '3,1': 0.07},
               mu=[0.4, -0.3, 0.4, -0.3], T=[0.4, 0.5, 0.4, 0.5], D=[[-13., 13.]]*4),
    # triple dot ring with flux
    'T3': dict(n=3, h={'0,0': 0.1, '1,1': -0.2, '2,2': 0.3, '0,1': 0.15, '1,2': [0.1, 0.08], '0,2': [0.05, -0.07]},
               U={'0,1,1,0': 1.1, '1,2,2,1': 0.9, '0,2,2,0': 0.6}, nl=2,
               t={'0,0': 0.1, '0,1': [0.02, 0.03], '1,2': [0.08, 0.03], '1,1': 0.04},
               mu=[0.5, -0.4], T=[0.45, 0.6], D=[[-15., 15.], [-15., 15.]]),
    # spinful double dot written out (levels 0,1 up; 2,3 down; leads 0,1 up; 2,3 down)
    'S4': dict(n=4, h={'0,0': 0.1, '1,1': -0.25, '0,1': [0.2, 0.1], '2,2': 0.1, '3,3': -0.25, '2,3': [0.2, 0.1]},
               U={'0,2,2,0': 1.5, '1,3,3,1': 1.3, '0,1,1,0': 0.6, '0,3,3,0': 0.6, '1,2,2,1': 0.6, '2,3,3,2': 0.6},
               nl=4, t={'0,0': 0.1, '1,1': [0.07, 0.03], '2,2': 0.1, '3,3': [0.07, 0.03]},
               mu=[0.4, -0.3, 0.4, -0.3], T=[0.5, 0.6, 0.5, 0.6], D=[[-15., 15.]]*4),
    # four spinless levels
    'F4': dict(n=4, h={'0,0': 0.1, '1,1': -0.2, '2,2': 0.3, '3,3': -0.35, '0,1': 0.15, '1,2': [0.1, 0.08],
                       '2,3': [0.12, -0.05], '0,3': [0.03, 0.04]},
               U={'0,1,1,0': 1.1, '1,2,2,1': 0.9, '2,3,3,2': 0.7, '0,2,2,0': 0.5}, nl=2,
               t={'0,0': 0.1, '0,1': [0.02, 0.03], '1,3': [0.08, 0.03], '1,2': 0.04},
               mu=[0.5, -0.4], T=[0.45, 0.6], D=[[-15., 15.], [-15., 15.]]),
}

# spin-symmetric shorthand of models: give the spin-up half only (coulomb: orbital indices)
SPIN = {
    'A2s': dict(n=2, h={'0,0': 0.1}, U={'0,0,0,0': 1.3}, nl=4, t={'0,0': 0.1, '1,0': [0.06, 0.03]},
                mu=[0.4, -0.3], T=[0.4, 0.5], D=[[-13., 13.]]*2),
    'S4s': dict(n=4, h={'0,0': 0.1, '1,1': -0.25, '0,1': [0.2, 0.1]},
                U={'0,0,0,0': 1.5, '1,1,1,1': 1.3, '0,1,1,0': 0.6},
                nl=4, t={'0,0': 0.1, '1,1': [0.07, 0.03]},
                mu=[0.4, -0.3], T=[0.5, 0.6], D=[[-15., 15.]]*2),
}

PH = {
    'D2p': dict(BASE['D2'], nb=1, v={'0,0,0': 0.05, '0,1,1': -0.03, '0,0,1': [0.07, 0.04]},
                Tph=[0.45], Dph=[[0.01, 11.]]),
    'D2p2': dict(BASE['D2a'], nb=2, v={'0,0,0': 0.05, '0,0,1': [0.07, 0.04], '1,1,1': 0.06, '1,0,1': [0.02, -0.05]},
                 Tph=[0.45, 0.3], Dph=[[0.001, 11.], [0.001, 9.]]),
    'T3p': dict(BASE['T3'], nb=1, v={'0,0,0': 0.05, '0,1,2': [0.07, 0.04], '0,0,1': 0.05},
                Tph=[0.45], Dph=[[0.01, 11.]]),
}
# more leads or baths than levels, all different
WIDE = {
    'L1x6': dict(n=1, h={'0,0': 0.12}, U={}, nl=6,
                 t={'0,0': 0.07, '1,0': [0.04, -0.05], '2,0': 0.09, '3,0': [-0.03, 0.06], '4,0': 0.05, '5,0': [0.0, 0.08]},
                 mu=[0.3, -0.4, 0.1, -0.15, 0.5, -0.25], T=[0.35, 0.5, 0.42, 0.3, 0.6, 0.45],
                 D=[[-12., 11.], [-13., 12.], [-11., 14.], [-10., 12.], [-14., 13.], [-12., 12.]]),
    'D2x5': dict(n=2, h={'0,0': 0.15, '1,1': -0.2, '0,1': [0.1, 0.07]}, U={'0,1,1,0': 1.2}, nl=5,
                 t={'0,0': 0.08, '0,1': [0.03, 0.04], '1,1': [0.07, -0.02], '2,0': [0.02, 0.05], '2,1': 0.06,
                    '3,0': -0.05, '4,0': [0.04, 0.01], '4,1': [-0.03, 0.05]},
                 mu=[0.4, -0.3, 0.05, -0.1, 0.2], T=[0.4, 0.5, 0.35, 0.3, 0.6],
                 D=[[-13., 12.], [-12., 13.], [-14., 14.], [-11., 15.], [-15., 11.]]),
    'T3x4': dict(BASE['T3'], nl=4,
                 t={'0,0': 0.1, '0,1': [0.02, 0.03], '1,2': [0.08, 0.03], '1,1': 0.04, '2,0': [0.03, -0.05], '2,2': 0.06,
                    '3,1': [0.05, 0.02]},
                 mu=[0.5, -0.4, 0.1, -0.2], T=[0.45, 0.6, 0.35, 0.5], D=[[-15., 14.], [-14., 15.], [-13., 13.], [-12., 15.]]),
}
WIDEPH = {
    'D2p3': dict(WIDE['D2x5'], nb=3, v={'0,0,0': 0.05, '0,0,1': [0.07, 0.04], '1,1,1': 0.06, '1,0,1': [0.02, -0.05],
                                        '2,1,0': [0.04, 0.03], '2,0,0': -0.03},
                 Tph=[0.45, 0.3, 0.6], Dph=[[0.001, 11.], [0.002, 9.], [0.003, 10.]]),
    'T3p4': dict(BASE['T3'], nb=4, v={'0,0,0': 0.05, '0,0,1': [0.07, 0.04], '1,1,2': 0.06, '2,0,2': [0.02, -0.05],
                                      '3,1,0': [0.04, 0.03], '3,2,2': -0.03},
                 Tph=[0.45, 0.3, 0.6, 0.2], Dph=[[0.001, 11.], [0.002, 9.], [0.003, 10.], [0.3, 0.8]]),
}
MODELS = dict(BASE)
MODELS.update(WIDE)
MODELS.update(WIDEPH)
MODELS.update(SPIN)
MODELS.update(PH)


def model(m):
    """A model by name, or a descriptor itself."""
    return copy.deepcopy(MODELS[m] if isinstance(m, str) else m)


_func = {}


def BathFunc(a=1.0, p=1.0):
    """A user spectral function J(x) = a x^p (p odd keeps the detailed balance of the bath)."""
    if not _func:
        from qmeq.specfunc import Func

        class F(Func):
            def eval(self, x):
                return self.a*abs(x)**self.p*(1 if x >= 0 else -1)
        _func['F'] = F
    f = _func['F']()
    f.a, f.p = a, p
    return f


def args(m):
    """Constructor arguments (fresh objects)."""
    m = model(m)
    a = dict(nsingle=m['n'], hsingle=dct(m['h']), coulomb=dct(m['U']), nleads=m['nl'], tleads=dct(m['t']),
             mulst=np.array(m['mu'], dtype=float), tlst=np.array(m['T'], dtype=float),
             dband=np.array(m['D'], dtype=float))
    if 'nb' in m:
        a.update(nbaths=m['nb'], velph=dct(m['v']), tlst_ph=np.array(m['Tph'], dtype=float),
                 dband_ph=np.array(m['Dph'], dtype=float))
        if m.get('J'):
            a.update(bath_func=[BathFunc(*x) for x in m['J']])
    return a


def build(m, kern, **kw):
    import qmeq
    a = args(m)
    a.update(kw)
    if kern in VN2 and 'kpnt' not in a:
        a['kpnt'] = 64
    cls = qmeq.BuilderElPh if 'nbaths' in a else qmeq.Builder
    return cls(kerntype=kern, **a)


def solve(b, kern=None, **kw):
    """One full solve (2vN: a restart with the given number of iterations)."""
    kern = kern or b.kerntype
    if kern in VN2 and 'niter' not in kw and 'masterq' not in kw:
        kw['niter'] = 2
    b.solve(**kw)
    return b


def arr(x):
    return np.array(x, copy=True)


def currents(b):
    return np.array([b.current, b.energy_current, b.heat_current])


def npop(b):
    return int(b.si.npauli)


def density(b, kept=False):
    """The density matrix in eigenstates as reported by get_phi0 (whose arguments count the sorted states)."""
    n = b.si.nmany
    pos = np.argsort([int(x) for x in b.si.states_order])
    r = np.zeros((n, n), dtype=complex)
    ch = charges(b)
    for i in range(n):
        for j in range(n):
            if ch[i] == ch[j]:
                v = b.get_phi0(int(pos[i]), int(pos[j]))
                r[i, j] = 0 if v is None else v
    return r


def charges(b):
    """charge of every eigenstate by state index."""
    si = b.si
    out = np.zeros(si.nmany, dtype=int)
    for c, lst in enumerate(si.chargelst):
        for i in lst:
            out[i] = c
    return out


def close(a, b, rtol=1e-8, atol=1e-12):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if not (np.isfinite(a).all() and np.isfinite(b).all()):
        return bool(np.array_equal(np.isfinite(a), np.isfinite(b)) and np.isfinite(a).all())
    s = max(np.max(np.abs(a)) if a.size else 0, np.max(np.abs(b)) if b.size else 0)
    return bool(np.all(np.abs(a-b) <= atol + rtol*s))


def diff(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return 'shapes %s %s' % (a.shape, b.shape)
    with np.errstate(all='ignore'):
        return 'max difference %.3g of %.3g: %s vs %s' % (
            np.max(np.abs(a-b)) if a.size else 0, np.max(np.abs(b)) if b.size else 0,
            str(np.round(a.ravel()[:6], 9).tolist()), str(np.round(b.ravel()[:6], 9).tolist()))


def kern_gap(b, row=0):
    """smallest over largest singular value of the kernel with one row replaced by the normalisation (needs
    make_kern_copy; row -1 for symq=False)."""
    k = arr(b.kern)
    if not np.isfinite(k).all():
        return 0.0
    n = npop(b)
    k[row] = 0
    k[row, :n] = max(np.abs(k).max(), 1e-300)
    sv = np.linalg.svd(k, compute_uv=False)
    return sv[-1]/sv[0] if sv[0] > 0 else 0.0
