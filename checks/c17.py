"""C17: interleaved histories of two builders made from the same argument objects."""
import copy
import itertools

import numpy as np

from lib import models as M

ID = 'C17'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit enumeration of all interleavings of operations on two real builders that were constructed from one set of '
             'argument objects; after every operation the arguments and the untouched builder are compared bit by bit with their '
             'copies, and at the end both builders with the same history run alone')
NOTE = ('all words up to length 2 (one configuration in quick, most in thorough: 3) over edits in dictionary, list and array form, '
        'in-place writes to public parameters, restrictions, sorting, kerntype switches, printing and solves of two builders, followed by in-place changes of all the caller\'s argument objects, in '
        'every constructor input format, for plain, phonon and many-body builders and for builders made from default arguments; '
        'arrays assigned to attributes stay shared with the caller by Python semantics and are not judged')
RULE = ('state = (operations applied to builder A, to builder B, their interleaving); transition = one operation on one of the two '
        'real builders')
ASSUMPTIONS = ['both builders solved at the end are compared with solo runs to a relative 1e-8']


def unspin(f):
    return f


def formats(m, fmt):
    """Constructor arguments in one of the accepted formats."""
    a = M.args(m)
    n, nl = a['nsingle'], a['nleads']
    if fmt == 'list':
        for k in ('hsingle', 'coulomb', 'tleads', 'velph'):
            if k in a:
                a[k] = [list(i)+[v] for i, v in a[k].items()]
        for k in ('mulst', 'tlst', 'dband', 'tlst_ph', 'dband_ph'):
            if k in a:
                a[k] = a[k].tolist()
    elif fmt == 'array':
        h = np.zeros((n, n), dtype=complex)
        for (i, j), v in a['hsingle'].items():
            h[i, j] = v
        t = np.zeros((nl, n), dtype=complex)
        for (i, j), v in a['tleads'].items():
            t[i, j] = v
        a['coulomb'] = np.array([list(i)+[v] for i, v in a['coulomb'].items()])
        a['hsingle'], a['tleads'] = h, t
        if 'velph' in a:
            w = np.zeros((a['nbaths'], n, n), dtype=complex)
            for (b, i, j), v in a['velph'].items():
                w[b, i, j] = v
            a['velph'] = w
    else:
        for k in ('mulst', 'tlst', 'tlst_ph'):
            if k in a:
                a[k] = dict(enumerate(a[k].tolist()))
        for k in ('dband', 'dband_ph'):
            if k in a:
                a[k] = dict(enumerate([list(x) for x in a[k]]))
    return a


def op_args(cfg):
    """The arguments of the editing operations: one object each, used again and again."""
    sp = cfg.get('m') in M.SPIN
    d = {
        'hc': ('change', 'hsingle', {(0, 0): 0.21, (0, 1): 0.07-0.02j} if not sp else {(0, 0): 0.21}),
        'ha': ('add', 'hsingle', {(0, 0): 0.11, (1, 1): -0.04} if not sp else {(0, 0): 0.11}),
        'hl': ('change', 'hsingle', [[0, 0, 0.31]]),
        'hm': ('change', 'hsingle', np.array([[0.2, 0.1j], [0., -0.1]]) if not sp else np.array([[0.2]])),
        'uc': ('change', 'coulomb', {(0, 1, 1, 0): 0.9} if not sp else {(0, 0, 0, 0): 0.9}),
        'ua_': ('add', 'coulomb', [[0, 1, 1, 0, 0.2]] if not sp else [[0, 0, 0, 0, 0.2]]),
        'um': ('change', 'coulomb', np.array([[0, 1, 1, 0, 0.7]]) if not sp else np.array([[0, 0, 0, 0, 0.7]])),
        'tc': ('change', 'tleads', {(0, 0): 0.07, (1, 0): 0.03j}),
        'ta': ('add', 'tleads', {(0, 0): 0.02, (1, 0): 0.03j}),
        'tm': ('change', 'tleads', np.array([[0.07, 0.02j], [0.01, 0.1]]) if not sp else np.array([[0.07], [0.02j]])),
        'tl': ('add', 'tleads', [[0, 0, 0.015]]),
        'mc': ('change', 'mulst', {0: 0.13}),
        'ml': ('change', 'mulst', np.array([0.12, -0.11])),
        'ma': ('add', 'mulst', np.array([0.1, -0.2])),
        'Ta': ('add', 'tlst', {1: 0.06}),
        'Tc': ('change', 'tlst', np.array([0.43, 0.62])),
        'Dc': ('change', 'dlst', {0: [-9., 10.]}),
        'Dl': ('change', 'dlst', np.array([[-9., 10.], [-8., 7.]])),
        'Da': ('add', 'dlst', np.array([[-1., 1.], [-2., 0.5]])),
        'vc': ('change', 'velph', {(0, 0, 0): 0.08, (0, 1, 0): 0.02}),
        'va': ('add', 'velph', [[0, 0, 1, 0.02j]]),
        'vt': ('change', 'tlst_ph', {0: 0.61}),
        'vx': ('change', 'tlst_ph', np.array([0.57])),
        'vy': ('change', 'dlst_ph', np.array([[0.03, 8.]])),
        'vT': ('add', 'tlst_ph', np.array([0.07])),
        'vd': ('change', 'dlst_ph', [[0.02, 9.]]),
        'rf': ('remove_fock_states', None, [1]),
        'sd': ('set_statesdm', None, [[0], [2, 1], []]),
        'so': ('sort_eigenstates', None, [1, 0]),
        'uT': ('leads.update_Tba0', (2,) if not sp else (4,), {(0, 0): 0.08, (1, 0): 0.05j}),
        'uV': ('baths.update_Vbbp0', (1,), {(0, 0, 1): 0.04}),
    }
    return d


OPS = {
    'plain': ['s', 'hc', 'ha', 'hl', 'hm', 'uc', 'ua_', 'um', 'tc', 'ta', 'tm', 'tl', 'mc', 'ml', 'ma', 'Ta', 'Tc', 'Dc', 'Dl', 'Da',
              'db', 'ih', 'iu', 'it', 'im', 'iT', 'iD', 'rs', 'rc', 'rf', 'sd', 'us', 'k:Pauli', 'k:1vN', 'so', 'pr'],
    'short': ['s', 'hc', 'ha', 'uc', 'ta', 'tm', 'ma', 'Tc', 'Da', 'ih', 'im', 'rs', 'rc', 'rf', 'us', 'k:Pauli', 'so', 'uT', 'pr'],
    'tiny': ['s', 'ha', 'tc', 'ma', 'Tc', 'Dc', 'rs', 'rf', 'us', 'so', 'pr'],
    'elph': ['s', 'hc', 'ta', 'mc', 'Tc', 'vc', 'va', 'vt', 'vT', 'vd', 'iv', 'uT', 'uV', 'rs', 'rc', 'rf', 'us', 'k:Pauli', 'so', 'pr'],
    'many': ['s', 'mc', 'ma', 'Ta', 'Tc', 'Dc', 'Da', 'db', 'im', 'iE', 'iB', 'rs', 'rc', 'us', 'k:Pauli', 'so', 'pr'],
    'manyph': ['s', 'mc', 'Tc', 'Da', 'vt', 'vT', 'vd', 'im', 'iE', 'iB', 'iV', 'rs', 'us', 'k:Pauli', 'so', 'pr'],
    'deflt': ['hc', 'ha', 'uc', 'tc', 'ta', 'mc', 'ma', 'Ta', 'Tc', 'Dc', 'Da', 'db', 'ih', 'iu', 'it', 'im', 'rf', 'sd', 'us', 'pr'],
    'deflph': ['hc', 'uc', 'tc', 'ma', 'Tc', 'Dc', 'vc', 'va', 'vt', 'vT', 'vd', 'ih', 'iv', 'rf', 'us'],
}

CFG = {}


def cfg(name, **kw):
    CFG[name] = kw


for _f in ('dict', 'list', 'array'):
    for _k in ('1vN', 'Pauli', 'Lindblad', 'Redfield', 'py1vN'):
        cfg('D2 %s %s' % (_f, _k), m='D2', fmt=_f, kern=_k, ops='short')
    cfg('D2p %s 1vN' % _f, m='D2p', fmt=_f, kern='1vN', ops='elph')
    cfg('D2 Lin %s' % _f, m='D2', fmt=_f, kern='1vN', kw=dict(indexing='Lin'), ops='short')
    cfg('A2s %s 1vN' % _f, m='A2s', fmt=_f, kern='1vN', kw=dict(symmetry='spin', indexing='sz'), ops='short')
    cfg('A2s ssq %s' % _f, m='A2s', fmt=_f, kern='1vN', kw=dict(symmetry='spin', indexing='ssq'), ops='tiny0')
    cfg('many %s' % _f, m='D2', fmt=_f, kern='1vN', cls='BuilderManyBody', ops='many')
    cfg('manyph %s' % _f, m='D2p', fmt=_f, kern='1vN', cls='BuilderManyBodyElPh', ops='manyph')
cfg('D2 dict mixed', m='D2', fmt='dict', kern='1vN', kern2='Pauli', ops='short')
cfg('D2 dict RTD', m='D2', fmt='dict', kern='RTD', ops='tiny')
cfg('D2 dict RTD mixed', m='D2', fmt='dict', kern='RTD', kern2='1vN', ops='tiny')
cfg('D2 array pyRTD', m='D2', fmt='array', kern='pyRTD', kern2='RTD', ops='tiny1')
cfg('D2 dict 2vN', m='D2', fmt='dict', kern='2vN', ops='tiny')
cfg('D2 array 2vN mixed', m='D2', fmt='array', kern='2vN', kern2='py2vN', ops='tiny1')
cfg('D2 init', m='D2', fmt='dict', kern='1vN', kw=dict(mfreeq=True, solmethod='krylov', phi0_init='array'), ops='tiny1')
cfg('D2p func', m='D2p', fmt='dict', kern='Redfield', J=[[0.5, 1.0]], ops='elph')
cfg('D2p mixed', m='D2p', fmt='array', kern='Lindblad', kern2='pyLindblad', ops='elph')
cfg('D2 wide dict', m='D2', fmt='dict', kern='1vN', ops='plain')
cfg('D2 wide array', m='D2', fmt='array', kern='1vN', ops='plain')
cfg('D2 wide list', m='D2', fmt='list', kern='Lindblad', ops='plain')
cfg('default', m=None, kern='1vN', ops='deflt')
cfg('default Pauli', m=None, kern='Pauli', ops='deflt')
cfg('default elph', m=None, kern='1vN', cls='BuilderElPh', ops='deflph')
cfg('wrapper', m='D2', fmt='array', kern='1vN', cls='Builder', ops='short')
OPS['own'] = ['s', 'hm', 'um', 'tm', 'mc', 'ml', 'Tc', 'Dl', 'ma', 'Ta', 'Da', 'sd', 'rf']
OPS['ownph'] = ['s', 'ml', 'Tc', 'Dl', 'vc', 'vx', 'vy', 'vT', 'im']
for _k in ('Pauli', 'py1vN', 'Lindblad'):
    cfg('D2 own %s' % _k, m='D2', fmt='array', kern=_k, ops='own')
    cfg('D2p own %s' % _k, m='D2p', fmt='array', kern=_k, ops='ownph')
cfg('A2s own', m='A2s', fmt='array', kern='1vN', kw=dict(symmetry='spin', indexing='charge'), ops='own')
cfg('many own', m='D2', fmt='array', kern='1vN', cls='BuilderManyBody', ops='many')
OPS['tiny1'] = ['s', 'ha', 'ma', 'Tc', 'rs']
OPS['tiny0'] = ['s', 'uc', 'ta', 'ma', 'Tc', 'Dc', 'rs', 'us', 'pr']


def words(c, depth, ops=None):
    """all words over (builder, operation) of exactly this depth (shorter ones are their prefixes)."""
    ops = ops or OPS[c['ops']]
    sym = 'kern2' not in c
    for w in itertools.product([b+o for b in 'AB' for o in ops], repeat=depth):
        if sym and w[0][0] == 'B':
            continue
        yield list(w)


def cases(tier):
    q = tier == 'quick'
    out = []

    def put(name, depth, ops=None):
        ws = list(words(CFG[name], depth, ops))
        for i in range(0, len(ws), 120):
            out.append(dict(cfg=name, ws=ws[i:i+120]))
    for name in CFG:
        put(name, 2)
        if not q and CFG[name]['ops'] in ('tiny1', 'tiny0', 'tiny', 'elph', 'many', 'manyph') \
                and 'py' not in CFG[name]['kern'] and '2vN' not in CFG[name]['kern']:
            put(name, 3)
    put('D2 dict 1vN', 3, ['s', 'ha', 'tc', 'ma', 'Da', 'ih', 'rs', 'rf', 'us', 'k:Pauli', 'so'] if q else None)
    if not q:
        put('D2 array Lindblad', 3)
        put('D2 list Pauli', 3)
        put('A2s dict 1vN', 3)
        put('default', 3)
    else:
        put('default', 3, ['hc', 'uc', 'tc', 'ma', 'Tc', 'Dc', 'ih'])
        put('D2p dict 1vN', 3, ['s', 'va', 'vT', 'rs', 'us', 'rf'])
        put('many dict', 3, ['s', 'ma', 'iE', 'rs', 'us', 'so'])
    return out


def cost(case):
    c = CFG[case['cfg']]
    k = c['kern']+c.get('kern2', '')
    return len(case['ws'])*len(case['ws'][0])*(6 if 'py' in k or '2vN' in k else 1)


# --- observation ----------------------------------------------------------------------------------------

PUB = ['hsingle', 'coulomb', 'tleads', 'tleads_array', 'mulst', 'tlst', 'dlst', 'Ea', 'Tba', 'phi0', 'phi1', 'current', 'energy_current',
       'heat_current', 'success', 'kerntype', 'itype', 'mfreeq', 'norm_row', 'solmethod', 'symq', 'phi0_init', 'dqawc_limit', 'kpnt',
       'indexing', 'off_diag_corrections', 'make_kern_copy', 'kern', 'niter', 'Na', 'nsingle', 'nleads']
SUB = {'si': ['statesdm', 'chargelst', 'states_order', 'nmany', 'nleads', 'removed_fock_states', 'npauli', 'ndm0', 'ndm0r'],
       'leads': ['Tba0'], 'qd': ['hamlst', 'valslst', 'vecslst'],
       'baths': ['velph', 'Vbbp', 'Vbbp0', 'tlst_ph', 'dlst_ph', 'nbaths'], 'si_elph': ['statesdm', 'ndm0', 'npauli']}


def observe(b):
    s = {}
    for k in PUB:
        s[k] = copy.deepcopy(getattr(b, k, None))
    for o, ks in SUB.items():
        x = getattr(b, o, None)
        if x is not None:
            for k in ks:
                s[o+'.'+k] = copy.deepcopy(getattr(x, k, None))
    return s


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype == object:
            return all(same(x, y) for x, y in zip(a.ravel(), b.ravel()))
        return bool(np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc'))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (float, complex)) and isinstance(b, (float, complex)) and a != a:
        return b != b
    if hasattr(a, '__dict__') and type(a) is type(b) and not isinstance(a, type):
        return same(vars(a), vars(b))
    try:
        return bool(a == b)
    except Exception:
        return a is b


def changed(a, b):
    return [k for k in a if not same(a[k], b[k])]


# --- system under test ----------------------------------------------------------------------------------

def make_args(c):
    if c['m'] is None:
        return {}
    a = formats(c['m'], c['fmt'])
    a.update(c.get('kw', {}))
    if c.get('J'):
        a['bath_func'] = [M.BathFunc(*x) for x in c['J']]
    if isinstance(a.get('phi0_init'), str):
        a['phi0_init'] = np.array([0.4, 0.3, 0.2, 0.1, 0.05, -0.02])
    if 'ManyBody' in c.get('cls', ''):
        s = M.build(c['m'], '1vN')
        s.solve(masterq=False)
        x = dict(Ea=M.arr(s.Ea), Na=[0, 1, 1, 2], Tba=M.arr(s.Tba), mulst=a['mulst'], tlst=a['tlst'], dband=a['dband'])
        if c['fmt'] == 'array':
            x['Na'] = np.array(x['Na'])
        elif c['fmt'] == 'list':
            x['Ea'] = x['Ea'].tolist()
        if 'velph' in a:
            x.update(Vbbp=M.arr(s.baths.Vbbp), tlst_ph=a['tlst_ph'], dband_ph=a['dband_ph'])
        a = x
    return a


def construct(c, a, kern):
    import qmeq
    cls = getattr(qmeq, c.get('cls') or ('BuilderElPh' if 'nbaths' in a else 'Builder'))
    kw = {}
    if c['m'] is None:
        kw = dict(nsingle=2, nleads=2)
        if c.get('cls') == 'BuilderElPh':
            kw['nbaths'] = 1
    if kern in M.VN2:
        kw['kpnt'] = 24
    if kern not in M.RTD:
        kw['itype'] = 1
    return cls(kerntype=kern, **dict(a, **kw))


FILL = {'hsingle': {(0, 0): 0.15, (1, 1): -0.3, (0, 1): 0.2}, 'coulomb': {(0, 1, 1, 0): 1.1}, 'tleads': {(0, 0): 0.1, (1, 1): 0.08},
        'mulst': {0: 0.3, 1: -0.3}, 'tlst': {0: 0.4, 1: 0.5}, 'dlst': {0: 12., 1: [-11., 13.]}}
FILLP = {'velph': {(0, 0, 1): 0.05}, 'tlst_ph': {0: 0.5}, 'dlst_ph': {0: [0.01, 9.]}}


def solve(c, b):
    kw = {}
    if 'ManyBody' in c.get('cls', ''):
        kw['qdq'] = False
        kw['rotateq'] = False
    if b.kerntype in M.VN2:
        kw['niter'] = 1
    b.solve(**kw)


def apply(c, b, o, oa):
    if o == 's':
        solve(c, b)
    elif o in oa:
        f, k, v = oa[o]
        if '.update' in f:
            p, q = f.split('.')
            getattr(getattr(b, p), q)(*k, v)
        elif f == 'set_statesdm':
            b.si.set_statesdm(v)
        elif k is None:
            getattr(b, f)(v)
        else:
            getattr(b, f)(**{k: v})
    elif o == 'db':
        b.dband = oa['Dl'][2]
    elif o == 'ih':
        b.hsingle[(0, 0)] = 0.5
    elif o == 'iu':
        b.coulomb[(0, 1, 1, 0)] = 0.6
    elif o == 'it':
        b.tleads[(0, 0)] = 0.05
    elif o == 'im':
        b.mulst[0] = 0.21
    elif o == 'iT':
        b.tlst[1] += 0.1
    elif o == 'iD':
        b.dlst[0, 0] = -10.
    elif o == 'iv':
        b.baths.velph[(0, 0, 0)] = 0.03
    elif o == 'iE':
        b.Ea[1] += 0.05
    elif o == 'iB':
        b.Tba[0, 1, 0] *= 1.1
        b.Tba[0, 0, 1] *= 1.1
    elif o == 'iV':
        b.baths.Vbbp[0] *= 1.1
    elif o == 'rs':
        b.remove_states(0.6)
    elif o == 'rc':
        b.remove_coherences(0.2)
    elif o == 'us':
        b.use_all_states()
    elif o[:2] == 'k:':
        b.kerntype = o[2:]
    elif o == 'pr':
        b.print_state(1)
    else:
        raise ValueError(o)


def tainted(w):
    """The reported numbers depend on stale data (public dictionaries are written without change())."""
    return any(o in ('ih', 'iu', 'it', 'iv') for o in w)


def final(c, b):
    """Outcome of one last solve (currents, energies), or the error it raises."""
    if c['m'] is None:
        b.change(**FILL)
        if hasattr(b, 'baths'):
            b.change(**FILLP)
    try:
        solve(c, b)
    except Exception as e:
        return type(e).__name__
    return dict(cur=M.currents(b), Ea=M.arr(b.Ea), par=[dict(b.hsingle), dict(b.coulomb), dict(b.tleads), M.arr(b.mulst), M.arr(b.tlst),
                                                        M.arr(b.dlst)])


_solo = {}


def solo(c, name, kern, w):
    key = (name, kern, tuple(w))
    if key not in _solo:
        if len(_solo) > 4000:
            _solo.clear()
        oa = op_args(c)
        b = construct(c, make_args(c), kern)
        err = None
        for o in w:
            try:
                apply(c, b, o, oa)
            except Exception as e:
                err = o+type(e).__name__
                break
        _solo[key] = err or final(c, b)
    return _solo[key]


def equal(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    nan = np.isnan(b['cur'])
    if not np.array_equal(np.isnan(a['cur']), nan):
        return False
    for i in range(3):
        if not M.close(np.nan_to_num(a['cur'][i]), np.nan_to_num(b['cur'][i]), 1e-8, 1e-11):
            return False
    return M.close(a['Ea'], b['Ea'], 1e-10, 1e-12) and same(a['par'], b['par'])


def poke(x):
    """The caller changes its own objects in place."""
    if isinstance(x, np.ndarray):
        if x.dtype.kind in 'fc':
            x *= -1.5
            x += 0.01
        elif x.dtype.kind == 'i':
            x += 1
    elif isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], (int, float, complex)) and not isinstance(x[k], bool):
                x[k] = x[k]+0.25
            else:
                poke(x[k])
        if x:
            x.pop(list(x)[-1])
    elif isinstance(x, list):
        for i, v in enumerate(x):
            if isinstance(v, (int, float, complex)) and not isinstance(v, bool):
                x[i] = v+1
            else:
                poke(v)
        x.append(0)


def run(case, R):
    name = case['cfg']
    c = CFG[name]
    k2 = c.get('kern2', c['kern'])
    for w in case['ws']:
        R.trace()
        tag = ' '.join(w)
        a = make_args(c)
        a0 = copy.deepcopy(a)
        oa = op_args(c)
        oa0 = copy.deepcopy(oa)
        A = construct(c, a, c['kern'])
        B = construct(c, a, k2)
        bs = {'A': A, 'B': B}
        seen = {'A': observe(A), 'B': observe(B)}
        done = {'A': [], 'B': []}
        dead = False
        if changed(a0, a):
            R.fail('args', '%s: constructor changed %s' % (name, changed(a0, a)))
            continue
        for s in w:
            x, o = s[0], s[1:]
            y = 'B' if x == 'A' else 'A'
            R.step()
            done[x].append(o)
            try:
                apply(c, bs[x], o, oa)
            except Exception as e:
                err = o+type(e).__name__
                want = solo(c, name, c['kern'] if x == 'A' else k2, done[x])
                R.check(want == err, 'raises', lambda: '%s [%s]: %s raises %r, alone it does not' % (name, tag, s, e))
                dead = True
                R.count('histories that end in an exception of the library')
                break
            seen[x] = observe(bs[x])
            now = observe(bs[y])
            ch = changed(seen[y], now)
            R.check(not ch, 'other', lambda: '%s [%s]: %s changed %s of the other builder' % (name, tag, s, ch))
            ch = changed(a0, a)
            R.check(not ch, 'args', lambda: '%s [%s]: %s changed the constructor arguments %s' % (name, tag, s, ch))
            ch = changed(oa0, oa)
            R.check(not ch, 'opargs', lambda: '%s [%s]: %s changed the arguments of %s' % (name, tag, s, ch))
            R.state((name, tuple(done['A']), tuple(done['B'])))
        if dead:
            continue
        for x, k in (('A', c['kern']), ('B', k2)):
            got = final(c, bs[x])
            want = solo(c, name, k, done[x])
            R.ev()
            ok = R.check(equal(got, want), 'result', lambda: '%s [%s]: builder %s: %s, alone %s' % (name, tag, x, got, want))
            if ok and not isinstance(got, str):
                R.outcome(tuple(np.round(got['cur'].ravel(), 9)))
                if len(set(s[0] for s in w)) == 2:
                    R.nt((name, tag))
        if 'kern2' not in c and done['A'] != done['B']:
            R.count('pairs of builders with different histories')
        # a builder made afterwards from the same objects (or the defaults)
        n = construct(c, a, c['kern'])
        R.ev()
        ref = _fresh.get(name)
        if ref is None:
            ref = _fresh[name] = observe(construct(c, make_args(c), c['kern']))
        ch = changed(ref, observe(n))
        R.check(not ch, 'later', lambda: '%s [%s]: a builder made later differs in %s' % (name, tag, ch))
        # the caller goes on using its own objects
        seen = {x: observe(bs[x]) for x in bs}
        for v in a.values():
            poke(v)
        for _, k, v in oa.values():
            poke(v)
        for x in bs:
            ch = changed(seen[x], observe(bs[x]))
            R.check(not ch, 'caller', lambda: '%s [%s]: builder %s changes in %s with the objects of the caller' % (name, tag, x, ch))


_fresh = {}
