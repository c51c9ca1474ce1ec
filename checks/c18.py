"""C18: products of all accepted input formats, for constructors and for sequences of add() and change()."""
import copy
import itertools

import numpy as np

from lib import models as M
from lib.snap import snap, compare

ID = 'C18'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit enumeration of the product of all input formats of all arguments (constructor) and of all add/change histories up '
             'to a depth with every argument in every format on the real builders, compared with the same model written as plain '
             'dictionaries and with an independent transition system of the parameters')
NOTE = ('formats: dictionary (also reversed order, opposite orientation, extra zeros, with explicit conjugates when herm_hs or herm_c is '
        'off), list, array (upper triangle, full), scalars, symmetric and asymmetric bands, integers; histories up to two edits '
        '(thorough: three); models with at most three levels')
RULE = ('constructor: one state per combination of formats; edits: state = parameters of the transition system, transition = one '
        'add/change call of the real builder in one format')
ASSUMPTIONS = ['edits name hopping elements in the orientation in which they are stored']


# --- the formats of one argument ------------------------------------------------------------------------

def conj(v):
    return v.conjugate() if isinstance(v, complex) else v


def f_h(d, n, real=False):
    """name -> (value, extra options); d is {(i, j): v}, i <= j."""
    full = np.zeros((n, n), dtype=complex)
    for (i, j), v in d.items():
        full[i, j] = v
        full[j, i] = conj(v)
    both = {(int(i), int(j)): complex(full[i, j]) for i in range(n) for j in range(n) if full[i, j] != 0}
    z = {(i, j): 0 for i in range(n) for j in range(i, n)}
    out = {
        'dict': (d, {}), 'rev': (dict(reversed(list(d.items()))), {}),
        'flip': ({(j, i): conj(v) for (i, j), v in d.items()}, {}),
        'zeros': ({**z, **d}, {}), 'list': ([[i, j, v] for (i, j), v in d.items()], {}),
        'tuples': ([(i, j, v) for (i, j), v in reversed(list(d.items()))], {}),
        'upper': (np.triu(full), {}), 'full': (full, {}), 'junk': (np.triu(full)+np.tril(np.full((n, n), 7.7), -1), {}),
        'dict herm_hs=False': (both, dict(herm_hs=False)),
        'list herm_hs=False': ([[i, j, v] for (i, j), v in both.items()], dict(herm_hs=False)),
        'full herm_hs=False': (full, dict(herm_hs=False)),
    }
    if not np.any(full.imag):
        out['real'] = (full.real.copy(), {})
    return out


def f_u(d, spin=False):
    """d is {(m, n, k, l): U} with m<n (orbital indices with spin symmetry), including all Hermitian partners."""
    rows = [list(k)+[v] for k, v in d.items()]
    half = {}
    for (m, n, k, l), v in d.items():
        for key in ((m, n, k, l), (n, m, l, k)):
            half[key] = half.get(key, 0) + v/2
    if spin:
        for (m, n, k, l), v in d.items():
            if m == n and k == l:
                half[(m, n, k, l)] = v/2
    out = {'dict': (d, {}), 'rev': (dict(reversed(list(d.items()))), {}), 'list': (rows, {}),
           'tuples': ([tuple(r) for r in rows[::-1]], {}), 'array': (np.array(rows, dtype=complex), {}),
           'zeros': (dict(d, **{}), {}), 'zrows': (rows+[[0, 1, 1, 0, 0]] if (0, 1, 1, 0) not in d else rows, {}),
           'half': (half, dict(m_less_n=False))}
    if not any(isinstance(v, complex) for v in d.values()):
        out['float'] = (np.array(rows, dtype=float), {})
    low = {}
    for (m, n, k, l), v in d.items():
        if (l, k, n, m) not in low:
            low[(m, n, k, l)] = v
    if low != d:
        out['herm_c'] = (low, dict(herm_c=True, m_less_n=False))
        out['herm_c less'] = (low, dict(herm_c=True))
        up = {(l, k, n, m): conj(v) for (m, n, k, l), v in low.items()}
        out['herm_c up'] = (up, dict(herm_c=True))
    if not d:
        out = {'dict': ({}, {}), 'list': ([], {}), 'none': (None, {}), 'array': (np.zeros((0, 5)), {})}
    return out


def f_t(d, nl, n):
    a = np.zeros((nl, n), dtype=complex)
    for k, v in d.items():
        a[k] = v
    z = {(l, i): 0 for l in range(nl) for i in range(n)}
    out = {'dict': (d, {}), 'rev': (dict(reversed(list(d.items()))), {}), 'zeros': ({**z, **d}, {}),
           'list': ([list(k)+[v] for k, v in d.items()], {}), 'tuples': ([k+(v,) for k, v in reversed(list(d.items()))], {}),
           'array': (a, {})}
    if not np.any(a.imag):
        out['real'] = (a.real.copy(), {})
    return out


def f_v(d, nb, n):
    a = np.zeros((nb, n, n), dtype=complex)
    for k, v in d.items():
        a[k] = v
    z = {k: 0 for k in itertools.product(range(nb), range(n), range(n))}
    return {'dict': (d, {}), 'rev': (dict(reversed(list(d.items()))), {}), 'zeros': ({**z, **d}, {}),
            'list': ([list(k)+[v] for k, v in d.items()], {}), 'tuples': ([k+(v,) for k, v in reversed(list(d.items()))], {}),
            'array': (a, {})}


def f_a(x):
    """potentials or temperatures."""
    out = {'array': (np.array(x, dtype=float), {}), 'list': (list(x), {}), 'dict': (dict(enumerate(x)), {}),
           'rev': (dict(reversed(list(enumerate(x)))), {})}
    if any(v == 0 for v in x):
        out['part'] = ({i: v for i, v in enumerate(x) if v != 0}, {})
    if len(set(x)) == 1:
        out['scalar'] = (x[0], {})
    if all(float(v).is_integer() for v in x):
        out['int'] = ([int(v) for v in x], {})
        out['intarray'] = (np.array(x, dtype=int), {})
    return out


def f_d(x):
    out = {'array': (np.array(x, dtype=float), {}), 'list': ([list(v) for v in x], {}), 'tuples': ([tuple(v) for v in x], {}),
           'dict': ({i: list(v) for i, v in enumerate(x)}, {}), 'rev': (dict(reversed([(i, tuple(v)) for i, v in enumerate(x)])), {}),
           'arrays': ({i: np.array(v) for i, v in enumerate(x)}, {})}
    sym = [v[0] == -v[1] for v in x]
    if any(sym):
        out['mixed'] = ({i: v[1] if s else list(v) for i, (v, s) in enumerate(zip(x, sym))}, {})
    if all(sym):
        out['half'] = ([v[1] for v in x], {})
        out['halfarray'] = (np.array([v[1] for v in x]), {})
        out['npscalar'] = ({i: np.float64(v[1]) for i, v in enumerate(x)}, {})
        if len(set(v[1] for v in x)) == 1:
            out['scalar'] = (x[0][1], {})
    return out


FMT = {
    'hsingle': ['dict', 'rev', 'flip', 'zeros', 'list', 'tuples', 'upper', 'full', 'junk', 'dict herm_hs=False', 'list herm_hs=False',
                'full herm_hs=False', 'real'],
    'coulomb': ['dict', 'rev', 'list', 'tuples', 'array', 'float', 'zrows', 'half', 'herm_c', 'none'],
    'tleads': ['dict', 'rev', 'zeros', 'list', 'tuples', 'array', 'real'],
    'mulst': ['array', 'list', 'dict', 'rev', 'part', 'scalar', 'int', 'intarray'],
    'tlst': ['array', 'list', 'dict', 'rev', 'part', 'scalar', 'int', 'intarray'],
    'dband': ['array', 'list', 'tuples', 'dict', 'rev', 'arrays', 'mixed', 'half', 'halfarray', 'npscalar', 'scalar'],
    'velph': ['dict', 'rev', 'zeros', 'list', 'tuples', 'array'],
    'tlst_ph': ['array', 'list', 'dict', 'rev', 'scalar'],
    'dband_ph': ['array', 'list', 'tuples', 'dict', 'rev', 'arrays'],
}

MODELS = {
    'D2': M.BASE['D2'], 'D2a': M.BASE['D2a'], 'A2s': M.SPIN['A2s'], 'T3': M.BASE['T3'],
    # exchange and pair-hopping terms; integer parameters; equal leads; real
    'X3': dict(n=3, h={'0,0': 0.1, '1,1': -0.2, '2,2': 0.3, '0,1': 0.15, '1,2': [0.1, 0.08]},
               U={'0,1,1,0': 1.1, '1,2,2,1': 0.9, '0,1,2,1': [0.2, 0.1], '1,2,1,0': [0.2, -0.1]}, nl=2,
               t={'0,0': 0.1, '1,2': [0.08, 0.03], '1,1': 0.04}, mu=[0.5, -0.4], T=[0.45, 0.6], D=[[-15., 15.], [-15., 15.]]),
    'I2': dict(n=2, h={'0,0': 1, '1,1': -1, '0,1': 1}, U={'0,1,1,0': 2}, nl=2, t={'0,0': 1, '0,1': 2, '1,1': 1},
               mu=[1, 0], T=[1, 2], D=[[-20, 20], [-15, 30]]),
    'R2': dict(n=2, h={'0,0': 0.1, '1,1': -0.2, '0,1': 0.2}, U={'0,1,1,0': 1.3}, nl=2, t={'0,0': 0.1, '0,1': -0.05, '1,1': 0.08},
               mu=[0.3, 0.3], T=[0.4, 0.4], D=[[-12., 12.], [-12., 12.]]),
    'R2b': dict(n=2, h={'0,0': 0.1, '1,1': -0.2, '0,1': 0.2}, U={}, nl=2, t={'0,0': 0.1, '0,1': -0.05, '1,1': 0.08},
                mu=[0.0, 0.3], T=[0.4, 0.6], D=[[-12., 12.], [-9., 9.]]),
    'S4s': M.SPIN['S4s'],
    'D2p': M.PH['D2p'], 'D2p2': M.PH['D2p2'],
    'A2sp': dict(M.SPIN['S4s'], nb=1, v={'0,0,0': 0.05, '0,0,1': [0.03, 0.02], '0,1,0': [0.03, -0.02]}, Tph=[0.5], Dph=[[0.01, 9.]]),
}
SPINS = ('A2s', 'S4s', 'A2sp')
# the same models in a very large unit of energy: no number may be taken for zero because it is small
UNIT = 2.0**-72
POWER = dict(h=1, U=1, t=.5, v=.5, mu=1, T=1, D=1, Tph=1, Dph=1)
TINY = {'D2u': 'D2', 'R2u': 'R2', 'A2su': 'A2s', 'D2pu': 'D2p', 'X3u': 'X3'}


def unit(m):
    m = copy.deepcopy(m)
    for f, p in POWER.items():
        if isinstance(m.get(f), dict):
            m[f] = {k: M.jv(M.cv(v)*UNIT**p) for k, v in m[f].items()}
        elif f in m:
            m[f] = (np.array(m[f], dtype=float)*UNIT**p).tolist()
    return m


MODELS.update({k: unit(MODELS[v]) for k, v in TINY.items()})
SPINS += ('A2su',)


def plain(name):
    m = copy.deepcopy(MODELS[name])
    a = M.args(m)
    a['mulst'], a['tlst'], a['dband'] = list(m['mu']), list(m['T']), [list(x) for x in m['D']]
    if 'nb' in m:
        a['tlst_ph'], a['dband_ph'] = list(m['Tph']), [list(x) for x in m['Dph']]
    kw = dict(symmetry='spin', indexing='sz') if name in SPINS else {}
    return a, kw


def fmts(name):
    a, kw = plain(name)
    n, nl = a['nsingle'], a['nleads']
    if kw:
        n, nl = n//2, nl//2
    out = dict(hsingle=f_h(a['hsingle'], n), coulomb=f_u(a['coulomb'], bool(kw)), tleads=f_t(a['tleads'], nl, n),
               mulst=f_a(a['mulst']), tlst=f_a(a['tlst']), dband=f_d(a['dband']))
    if 'nbaths' in a:
        out.update(velph=f_v(a['velph'], a['nbaths'], n), tlst_ph=f_a(a['tlst_ph']), dband_ph=f_d(a['dband_ph']))
    if name == 'S4s':
        del out['hsingle']['junk']
    return out


ARGS = ('hsingle', 'coulomb', 'tleads', 'mulst', 'tlst', 'dband', 'velph', 'tlst_ph', 'dband_ph')


def build(name, pick, kern):
    """pick: {argument: format}."""
    import qmeq
    a, kw = plain(name)
    fs = fmts(name)
    opt = {}
    for k in ARGS:
        if k in a:
            f = pick.get(k, 'array' if k in ('mulst', 'tlst', 'dband', 'tlst_ph', 'dband_ph') else 'dict')
            v, o = fs[k][f]
            a[k] = copy.deepcopy(v)
            opt.update(o)
    a.update(kw)
    a.update(opt)
    ph = 'nbaths' in a
    # arguments by name or by place, to the class or to the method of Builder
    how = len(str(sorted(pick.items()))) % 3
    if how == 2:
        return (qmeq.Builder.elph if ph else qmeq.Builder.base)(kerntype=kern, itype=1, **a)
    pos = [a.pop(k) for k in ('nsingle', 'hsingle', 'coulomb', 'nleads', 'tleads', 'mulst', 'tlst', 'dband')+
           ('nbaths', 'velph', 'tlst_ph', 'dband_ph')*ph] if how == 1 else []
    return (qmeq.BuilderElPh if ph else qmeq.Builder)(*pos, kerntype=kern, itype=1, **a)


def allpicks(name, args):
    fs = fmts(name)
    return [dict(zip(args, p)) for p in itertools.product(*[list(fs[k]) for k in args])]


# --- histories of edits ---------------------------------------------------------------------------------

EDIT = {
    'R2': [('hsingle', {(0, 0): 0.31}), ('hsingle', {(0, 1): 0.13+0.05j, (1, 1): 0.02}), ('coulomb', {(0, 1, 1, 0): 0.7}),
           ('coulomb', {(0, 1, 1, 0): 0}), ('tleads', {(1, 0): 0.06-0.03j, (0, 0): 0.13}), ('tleads', {(0, 1): 0.0}),
           ('mulst', [0.2, -0.15]), ('mulst', [0.1, 0.0]), ('mulst', [0.12, 0.12]), ('tlst', [0.45, 0.5]), ('tlst', [0.35, 0.35]),
           ('dlst', [[-9., 11.], [-13., 8.]]), ('dlst', [[-9., 9.], [-10., 10.]]), ('dlst', [[-10.5, 10.5]]*2)],
    'A2s': [('hsingle', {(0, 0): 0.31}), ('coulomb', {(0, 0, 0, 0): 0.7}), ('coulomb', {(0, 0, 0, 0): 0}), ('tleads', {(1, 0): 0.03j}),
            ('mulst', [0.2, -0.15]), ('mulst', [0.12, 0.12]), ('tlst', [0.45, 0.5]), ('dlst', [[-9., 11.], [-13., 8.]]),
            ('dlst', [[-10.5, 10.5]]*2)],
    'D2p': [('hsingle', {(0, 0): 0.31}), ('tleads', {(0, 0): 0.03j}), ('velph', {(0, 0, 0): 0.09, (0, 1, 0): 0.02j}),
            ('velph', {(0, 0, 1): 0}), ('tlst_ph', [0.61]), ('dlst_ph', [[0.02, 9.]]), ('mulst', [0.2, -0.15])],
    'D2p2': [('velph', {(1, 0, 0): 0.09, (0, 1, 0): 0.02j}), ('tlst_ph', [0.61, 0.2]), ('tlst_ph', [0.1, 0.1]),
             ('dlst_ph', [[0.02, 9.], [0.03, 8.]])],
    'X3': [('coulomb', {(0, 2, 2, 0): 0.7}), ('coulomb', {(0, 1, 1, 0): 0, (1, 2, 2, 1): 0.4}), ('hsingle', {(0, 2): 0.1j, (0, 0): 0.3, (1, 1): -0.14, (2, 2): 0.05}),
           ('tleads', {(0, 2): 0.05, (1, 1): 0.06, (0, 0): 0.09, (1, 2): 0.03})],
}
P_ARG = dict(tleads=.5, velph=.5)
for k_, v_ in TINY.items():
    if v_ in EDIT:
        EDIT[k_] = [(a, {i: u*UNIT**P_ARG.get(a, 1) for i, u in v.items()} if isinstance(v, dict) else
                     (np.array(v, dtype=float)*UNIT).tolist()) for a, v in EDIT[v_]]
ADD = {('tlst', 'add'): 0.25, ('tlst_ph', 'add'): 0.3, ('mulst', 'add'): 1.0, ('dlst', 'add'): 0.1, ('dlst_ph', 'add'): 0.1}


def edits(name):
    """all (method, argument, index of the value, format)."""
    a, kw = plain(name)
    n, nl, nb = a['nsingle'], a['nleads'], a.get('nbaths', 0)
    if kw:
        n, nl = n//2, nl//2
    out = []
    for meth in ('add', 'change'):
        for ind, (arg, val) in enumerate(EDIT[name]):
            for f in sorted(versions(name, meth, arg, val)):
                out.append((meth, arg, ind, f))
    return out


def versions(name, meth, arg, val):
    """name -> value in that format, for formats whose meaning is the given partial edit."""
    a, kw = plain(name)
    n, nl, nb = a['nsingle'], a['nleads'], a.get('nbaths', 0)
    if kw:
        n, nl = n//2, nl//2
    if arg in ('hsingle', 'tleads', 'velph', 'coulomb'):
        out = {'dict': val, 'rev': dict(reversed(list(val.items()))), 'list': [list(k)+[v] for k, v in val.items()],
               'tuples': [k+(v,) for k, v in val.items()]}
        if arg == 'coulomb':
            out['array'] = np.array([list(k)+[v] for k, v in val.items()], dtype=float)
        else:
            shape = dict(hsingle=(n, n), tleads=(nl, n), velph=(nb, n, n))[arg]
            # an array names every element (change: sets the others to zero)
            x = np.zeros(shape, dtype=complex)
            for k, v in val.items():
                x[k] = v
                if arg == 'hsingle' and k[0] != k[1]:
                    x[k[::-1]] = np.conj(v)
            out['array'] = x
        return out
    s = ADD[arg, 'add'] if meth == 'add' else 1
    if arg in ('dlst', 'dlst_ph'):
        val = [[s*u for u in v] for v in val]
        return {k: v for k, (v, o) in f_d(val).items()}
    val = [s*v for v in val]
    out = {k: v for k, (v, o) in f_a(val).items()}
    if meth == 'change':
        out.pop('part', None)
        out['part'] = {0: val[0]}
    return out


class Ref(object):
    """The parameters, changed by plain arithmetic."""

    def __init__(self, name):
        a, self.kw = plain(name)
        self.a = a
        self.name = name
        self.p = dict(hsingle=dict(a['hsingle']), coulomb=dict(a['coulomb']), tleads=dict(a['tleads']),
                      mulst=np.array(a['mulst'], dtype=float), tlst=np.array(a['tlst'], dtype=float),
                      dlst=np.array(a['dband'], dtype=float))
        if 'nbaths' in a:
            self.p.update(velph=dict(a['velph']), tlst_ph=np.array(a['tlst_ph'], dtype=float),
                          dlst_ph=np.array(a['dband_ph'], dtype=float))

    def apply(self, meth, arg, val, f, base):
        p = self.p[arg]
        if isinstance(p, dict):
            full = {}
            if f == 'array' and arg != 'coulomb' and meth == 'change':
                full = {k: 0 for k in p}
            full.update(base)
            for k, v in full.items():
                p[k] = v if meth == 'change' else p.get(k, 0)+v
            return
        s = ADD[arg, 'add'] if meth == 'add' else 1
        x = s*np.array(base, dtype=float)
        if meth == 'change' and f == 'part':
            p[0] = x[0]
        elif meth == 'change':
            p[:] = x
        else:
            p += x

    def build(self, kern):
        import qmeq
        a = dict(nsingle=self.a['nsingle'], nleads=self.a['nleads'], dband=np.array(self.p['dlst']), **self.kw)
        for k, v in self.p.items():
            if k not in ('dlst', 'dlst_ph'):
                a[k] = copy.deepcopy(v)
        if 'velph' in self.p:
            a['nbaths'] = self.a['nbaths']
            a['dband_ph'] = np.array(self.p['dlst_ph'])
        return (qmeq.BuilderElPh if 'nbaths' in a else qmeq.Builder)(kerntype=kern, itype=1, **a)

    def key(self):
        return self.name+str(sorted((k, sorted(v.items()) if isinstance(v, dict) else v.tolist()) for k, v in self.p.items()))


def cases(tier):
    q = tier == 'quick'
    out = []

    def chunk(name, kern, picks, what, n):
        for i in range(0, len(picks), n):
            out.append({'m': name, 'kern': kern, what: picks[i:i+n]})

    def prod(name, kern, *groups):
        seen, ps = set(), []
        for g in groups:
            for p in allpicks(name, g):
                k = str(sorted(p.items()))
                if k not in seen:
                    seen.add(k)
                    ps.append(p)
        chunk(name, kern, ps, 'picks', 150)

    out += [dict(m=name, kern='none', mtr=1) for name in MODELS]
    one = ('hsingle', 'coulomb', 'tleads')
    two = ('mulst', 'tlst', 'dband')
    if q:
        for name in ('D2', 'R2', 'R2b', 'I2', 'D2a'):
            prod(name, '1vN', one, two, ('hsingle', 'mulst'), ('tleads', 'dband'), ('tleads', 'mulst'), ('coulomb', 'tlst'))
        prod('A2s', '1vN', one, two, ('tleads', 'dband'), ('coulomb', 'mulst'))
        prod('X3', 'Redfield', one)
        prod('T3', 'Pauli', ('hsingle', 'coulomb'), ('hsingle', 'tleads'), two)
        prod('S4s', 'Pauli', ('hsingle', 'coulomb'), ('tleads',), ('dband',))
        prod('D2p', 'Redfield', ('velph', 'tlst_ph', 'dband_ph'), ('hsingle', 'velph'), ('tleads', 'velph'), ('dband', 'dband_ph'))
        prod('D2p2', '1vN', ('velph', 'tlst_ph', 'dband_ph'), ('tlst', 'tlst_ph'))
        prod('A2sp', 'Pauli', ('velph', 'tlst_ph'), ('hsingle', 'velph'))
    else:
        for name in ('D2', 'R2', 'R2b', 'I2', 'D2a', 'A2s'):
            prod(name, '1vN', one+('mulst',), ('hsingle',)+two, ('coulomb',)+two, ('tleads',)+two)
            prod(name, 'Lindblad', one, two)
            prod(name, 'pyPauli', one, two)
        prod('X3', 'Redfield', one, two)
        prod('T3', '1vN', one, two)
        prod('S4s', '1vN', ('hsingle', 'coulomb'), ('tleads', 'mulst'), ('dband',))
        for name in ('D2p', 'D2p2'):
            prod(name, '1vN', ('velph', 'tlst_ph', 'dband_ph', 'hsingle'), ('velph', 'tleads', 'dband'), ('coulomb', 'velph', 'mulst'))
            prod(name, 'Lindblad', ('velph', 'tlst_ph', 'dband_ph'))
        prod('A2sp', '1vN', ('velph', 'tlst_ph'), ('hsingle', 'velph'), ('tleads', 'dband_ph'))
    for name in ('D2u', 'R2u'):
        prod(name, '1vN', one, two)
    prod('A2su', '1vN', one)
    prod('X3u', 'Redfield', ('hsingle', 'coulomb'))
    prod('D2pu', 'Redfield', ('velph', 'tlst_ph', 'dband_ph'), ('hsingle', 'velph'))
    for name in ('R2u', 'A2su', 'D2pu'):
        chunk(name, '1vN', [[e] for e in edits(name)], 'hs', 200)
    for name, kern in (('R2', '1vN'), ('A2s', '1vN'), ('D2p', 'Redfield'), ('D2p2', '1vN'), ('X3', 'Lindblad')):
        es = edits(name)
        hs = [[e] for e in es]
        if q and len(es) > 80:
            # second edits: one format of each value for the full pair product, every format after every format of the same argument
            rep = {}
            for e in es:
                rep.setdefault(e[:3], e)
            hs += [[a, b] for a in es for b in es if a[1] == b[1] or rep[b[:3]] == b]
        else:
            hs += [[a, b] for a in es for b in es]
        if not q and len(es) < 60:
            hs += [[a, b, c] for a in es for b in es for c in es]
        chunk(name, kern, hs, 'hs', 200)
    return out


def cost(case):
    if 'mtr' in case:
        return 1
    n = len(case.get('picks') or case['hs'])
    return n*(8 if case['m'] in ('S4s', 'A2sp') else 2 if case['m'] in ('T3', 'X3') or 'hs' in case else 1)


_memo = {}


def seen(name, b, coh):
    s = snap(b, coh=coh)
    if name in TINY:
        s['cur'] = np.array([c/UNIT**(1+(i > 0)) for i, c in enumerate(s['cur'])])
        for k in s:
            if k in ('Tba', 'Vbbp'):
                s[k] = s[k]/UNIT**.5
            elif k in ('Ea', 'mulst', 'tlst', 'dlst', 'tlst_ph', 'dlst_ph'):
                s[k] = s[k]/UNIT
    return s


def reference(name, key, make):
    if key not in _memo:
        if len(_memo) > 3000:
            _memo.clear()
        b = make()
        b.solve()
        _memo[key] = seen(name, b, b.kerntype not in M.NO_COH)
    return _memo[key]


def matrices(name, R):
    """The helpers which write dictionaries and lists of single-particle elements as matrices."""
    from qmeq.qdot import make_hsingle_mtr
    from qmeq.leadstun import make_tleads_mtr
    a, kw = plain(name)
    n, nl = a['nsingle']//(2 if kw else 1), a['nleads']//(2 if kw else 1)
    h, t = f_h(a['hsingle'], n), f_t(a['tleads'], nl, n)
    for f in ('dict', 'rev', 'flip', 'zeros', 'list'):
        R.ev()
        R.step()
        R.trace()
        R.state('%s hsingle %s' % (name, f))
        got = make_hsingle_mtr(h[f][0], n, complex)
        R.check(M.close(got, h['full'][0], 1e-14, 1e-16), 'hsingle matrix', lambda: '%s %s: %s' % (name, f, M.diff(got, h['full'][0])))
    for f in ('dict', 'rev', 'zeros', 'list'):
        R.ev()
        R.step()
        R.trace()
        R.state('%s tleads %s' % (name, f))
        got2 = make_tleads_mtr(t[f][0], nl, n)
        R.check(M.close(got2, t['array'][0], 1e-14, 1e-16), 'tleads matrix', lambda: '%s %s: %s' % (name, f, M.diff(got2, t['array'][0])))


def run(case, R):
    name, kern = case['m'], case['kern']
    coh = kern not in M.NO_COH
    if case.get('mtr'):
        return matrices(name, R)
    for p in case.get('picks', ()):
        tag = '%s %s %s' % (name, kern, p)
        R.step(len(p))
        R.trace()
        try:
            b = build(name, p, kern)
            b.solve()
        except Exception as e:
            R.fail('construct', '%s raises %r' % (tag, e))
            continue
        want = reference(name, (name, kern), lambda: Ref(name).build(kern))
        R.state(tag)
        R.ev()
        if compare(R, seen(name, b, coh), want, 'format:'+str(p)):
            R.nt(tag)
        R.outcome(tuple(np.round(b.current/(UNIT if name in TINY else 1), 10)))
    for h in case.get('hs', ()):
        tag = '%s %s %s' % (name, kern, h)
        R.trace()
        r = Ref(name)
        b = r.build(kern)
        for meth, arg, ind, f in h:
            base = EDIT[name][ind][1]
            val = copy.deepcopy(versions(name, meth, arg, base)[f])
            try:
                getattr(b, meth)(**{arg: val})
            except Exception as e:
                R.fail('edit', '%s: %s %s as %s raises %r' % (tag, meth, arg, f, e))
                b = None
                break
            r.apply(meth, arg, val, f, base)
            R.step()
            R.state(r.key()+str((meth, arg, f)))
        if b is None:
            continue
        b.solve()
        want = reference(name, (kern, r.key()), lambda: r.build(kern))
        R.ev()
        compare(R, seen(name, b, coh), want, 'edits:'+str(h))
        R.outcome(tuple(np.round(b.current/(UNIT if name in TINY else 1), 10)))
        R.nt(tag)
