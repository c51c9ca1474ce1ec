"""C01: every history of edits and solves up to the bound, against a builder made from the net parameters."""
import itertools
import json

import numpy as np

from lib import models as M
from lib.snap import snap, compare

ID = 'C01'
LEVEL = 'model_checking'
TECHNIQUE = 'explicit enumeration of all edit/solve histories of the real builders against a reference model'
NOTE = ('every operation sequence up to depth 2 (all approaches) and 3 (selected; thorough: all first-order ones, 4 for '
        'Pauli and RTD) over the stated alphabet, each replayed on the real code; values outside the alphabet and longer '
        'histories are not covered')
RULE = ('state = (net parameters of the reference model, solved or not); every sequence of edit operations and '
        'solves up to the depth bound is replayed on a fresh builder and compared with a builder constructed from '
        'the net parameters')
ASSUMPTIONS = ['parameter values from the listed alphabet', 'hsingle keys keep the orientation of the existing entry']

# name -> (operation, argument, form).  Net effect is computed by `apply` below.
OPS = {
    's': ('solve',),
    'h+d': ('add', 'h', {'0,0': 0.07}, 'dict'),
    'h+o': ('add', 'h', {'0,1': [0.03, -0.05]}, 'list'),
    'h=d': ('change', 'h', {'1,1': -0.12, '0,0': 0.02}, 'dict'),
    'h=o': ('change', 'h', {'0,1': [0.1, 0.02]}, 'dict'),
    'h=z': ('change', 'h', {'0,1': 0.0}, 'list'),
    'U+': ('add', 'U', {'0,1,1,0': 0.2}, 'dict'),
    'U=': ('change', 'U', {'0,1,1,0': 0.45}, 'list'),
    't+': ('add', 't', {'0,0': [0.01, 0.02]}, 'dict'),
    't+n': ('add', 't', {'1,0': [0.03, -0.02], '0,1': 0.01}, 'list'),
    't=': ('change', 't', {'1,1': [0.0, 0.05]}, 'dict'),
    't=n': ('change', 't', {'1,0': [0.02, 0.04]}, 'list'),
    't=a': ('change', 't', {'0,0': 0.08, '0,1': [0.02, 0.01], '1,0': 0.0, '1,1': [0.06, -0.01]}, 'array'),
    't=z': ('change', 't', {'0,1': 0.0}, 'dict'),
    'm+': ('add', 'mu', {'0': 0.1}, 'dict'),
    'm+l': ('add', 'mu', {'0': -0.05, '1': 0.15}, 'list'),
    'm=': ('change', 'mu', {'1': -0.2}, 'dict'),
    'm=s': ('change', 'mu', {'0': 0.05, '1': 0.05}, 'scalar'),
    'm:': ('set', 'mu', {'0': 0.3, '1': -0.1}, 'array'),
    'T+': ('add', 'T', {'1': 0.1}, 'dict'),
    'T=': ('change', 'T', {'0': 0.6}, 'dict'),
    'T:': ('set', 'T', {'0': 0.45, '1': 0.35}, 'array'),
    'D+': ('add', 'D', {'0': [-1.0, 1.0]}, 'dict'),
    'D=': ('change', 'D', {'1': [-10.0, 9.0]}, 'dict'),
    'D:': ('set', 'D', {'0': [-8.0, 8.0], '1': [-8.0, 8.0]}, 'scalar'),
    'D>': ('add', 'D', {'0': [1.5, 1.5], '1': [1.5, 1.5]}, 'dict'),
    'ht+': ('add2', None, None, None),
    # entries that are created by an edit: negative, imaginary
    'U-': ('add', 'U', {'0,1,1,0': -0.2}, 'dict'),
    'U-=': ('change', 'U', {'0,1,1,0': -0.35}, 'list'),
    'h+i': ('add', 'h', {'0,1': [0.0, 0.09]}, 'dict'),
    'h=i': ('change', 'h', {'0,1': [0.0, -0.13]}, 'dict'),
    't+i': ('add', 't', {'1,0': [0.0, 0.04]}, 'dict'),
    't=i': ('change', 't', {'0,1': [0.0, -0.05]}, 'list'),
    't=I': ('change', 't', {'1,0': [0.0, -0.06]}, 'dict'),
    't-': ('add', 't', {'0,1': -0.03}, 'dict'),
    'v+i': ('add', 'v', {'0,1,1': -0.03, '0,1,0': [0.0, 0.04]}, 'dict'),
    'v=i': ('change', 'v', {'0,1,0': [0.0, -0.05]}, 'list'),
    # exchange-like interactions with a phase
    'U^': ('change', 'U', 'turn 0,1,2,1 1,2,1,0', 'dict'),
    'U*': ('change', 'U', 'conj 0,1,2,1 1,2,1,0', 'dict'),
    'h*': ('change', 'h', 'conj 0,1', 'dict'),
    't*': ('change', 't', 'conj 1,1', 'dict'),
    'v*': ('change', 'v', 'conj 0,0,1', 'dict'),
    'U~': ('change', 'U', 'neg 0,1,2,1 1,2,1,0', 'list'),
    'U+x': ('add', 'U', {'0,1,2,1': [0.0, 0.11], '1,2,1,0': [0.0, -0.11]}, 'dict'),
    'U=x': ('change', 'U', {'0,2,2,1': [0.07, 0.11], '1,2,2,0': [0.07, -0.11]}, 'list'),
    'U-x': ('change', 'U', {'0,1,2,1': 0.0, '1,2,1,0': 0.0}, 'dict'),
    'U2': ('add', 'U', {'0,2,2,0': -0.3}, 'dict'),
    'v+': ('add', 'v', {'0,0,0': 0.02}, 'dict'),
    'v+n': ('add', 'v', {'0,1,1': [0.04, 0.0]}, 'list'),
    'v=': ('change', 'v', {'0,0,1': [0.02, 0.05]}, 'dict'),
    'P+': ('add', 'Tph', {'0': 0.1}, 'dict'),
    'P=': ('change', 'Tph', {'0': 0.3}, 'list'),
    'Q=': ('change', 'Dph', {'0': [0.02, 7.0]}, 'dict'),
    # edits relative to the present value, which keep sums, norms, minima and maxima as they are
    'h~': ('change', 'h', 'neg 0,1', 'dict'),
    'h^': ('change', 'h', 'turn 0,1', 'list'),
    'hx': ('change', 'h', 'swap 0,0 1,1', 'dict'),
    't~': ('change', 't', 'neg 0,0', 'dict'),
    't^': ('change', 't', 'turn 1,1', 'list'),
    'tx': ('change', 't', 'swap 0,0 1,1', 'dict'),
    'mx': ('change', 'mu', 'swap 0 1', 'list'),
    'Tx': ('change', 'T', 'swap 0 1', 'dict'),
    'Dx': ('change', 'D', 'swap 0 1', 'dict'),
    'v~': ('change', 'v', 'neg 0,0,1', 'dict'),
    'vx': ('change', 'v', 'swap 0,0,0 0,0,1', 'list'),
    # steps of a fine sweep
    'h%': ('change', 'h', 'scale 0,0 0,1', 'dict'),
    'U%': ('change', 'U', 'scale 0,1,1,0', 'dict'),
    't%': ('change', 't', 'scale 0,0 1,1', 'dict'),
    'm%': ('change', 'mu', 'scale 0', 'dict'),
    'T%': ('change', 'T', 'scale 1', 'list'),
    'D%': ('change', 'D', 'scale 0', 'dict'),
    'v%': ('change', 'v', 'scale 0,0,0', 'dict'),
    'P%': ('change', 'Tph', 'scale 0', 'dict'),
}
TINY = ['s', 'h%', 'U%', 't%', 'm%', 'T%', 'D%']
KEEP = ['s', 'h~', 'h^', 'hx', 't~', 'D>', 't^', 'tx', 'mx', 'Tx', 'Dx']
NEW = ['s', 'U-', 'U-=', 'h+i', 'h=i', 't+i', 't=i', 't=I', 't-', 'h+d']
NEWPH = ['s', 'v+i', 'v=i', 'v+', 'h+i', 't+i', 't=I', 'U-']
XCH = ['s', 'U^', 'U*', 'U~', 'U+x', 'U=x', 'U-x', 'U2', 'h+d']
BASEOPS = ['s'] + [k for k in OPS if k[0] in 'hUtmTD' and k not in KEEP+NEW[1:-1]+XCH[1:-1]+['h*', 't*'] and k[1] != '%']  # KEEP has its own sequences
ELPHOPS = ['s', 'h+d', 'h=o', 'U+', 't=', 'm+', 'v+', 'v+n', 'v=', 'P+', 'P=', 'Q=']
CORE = ['s', 'h+d', 'h=o', 'U+', 't+n', 't=', 't=z', 'm+', 'm:', 'T=', 'D=']
ARG = {'h': 'hsingle', 'U': 'coulomb', 't': 'tleads', 'mu': 'mulst', 'T': 'tlst', 'D': 'dlst',
       'v': 'velph', 'Tph': 'tlst_ph', 'Dph': 'dlst_ph'}
# start models without some of the entries, so that edits also create them
START = {
    'D2': M.BASE['D2'],
    'D2e': dict(M.BASE['D2'], h={'0,0': 0.15, '1,1': -0.3}, U={}),
    'D2x': dict(M.BASE['D2'], h={'0,1': [0.2, 0.12]}, t={'0,0': 0.11, '1,1': [0.09, -0.02]}),
    'D2p': dict(M.PH['D2p'], v={'0,0,0': 0.05, '0,0,1': [0.07, 0.04]}),
    'D2pe': dict(M.PH['D2p'], h={'0,0': 0.15, '1,1': -0.3}, U={}, v={'0,0,0': 0.05}),
    'X3': dict(n=3, h={'0,0': 0.1, '1,1': -0.2, '2,2': 0.3, '0,1': 0.15, '1,2': [0.1, 0.08]},
               U={'0,1,1,0': 1.1, '1,2,2,1': 0.9, '0,1,2,1': [0.2, 0.1], '1,2,1,0': [0.2, -0.1]}, nl=2,
               t={'0,0': 0.1, '1,2': [0.08, 0.03], '1,1': 0.04}, mu=[0.5, -0.4], T=[0.45, 0.6], D=[[-15., 15.], [-15., 15.]]),
    'A2s': M.SPIN['A2s'],
    'S4s': M.SPIN['S4s'],
}


def num(x):
    return M.cv(x)


def resolve(op, m):
    """The operation with the values that a relative edit stands for in the state m."""
    if len(op) < 4 or not isinstance(op[2], str):
        return op
    what, *keys = op[2].split()
    old = [m[op[1]].get(k, 0) if isinstance(m[op[1]], dict) else m[op[1]][int(k)] for k in keys]
    if what == 'swap':
        val = {keys[0]: old[1], keys[1]: old[0]}
    elif what == 'conj':
        val = {k: M.jv(num(o).conjugate()) for k, o in zip(keys, old)}
    elif what == 'scale':
        big = 1+3e-6
        val = {k: [x*big for x in o] if op[1] in ('D', 'Dph') else M.jv(num(o)*big) for k, o in zip(keys, old)}
        if op[3] == 'list':
            val = dict({str(i): x for i, x in enumerate(m[op[1]])}, **val)
    else:
        # a second element is the conjugate partner of the first
        f = -1 if what == 'neg' else 1j
        val = {k: M.jv(num(o)*x) for k, o, x in zip(keys, old, (f, np.conj(f)))}
    return (op[0], op[1], val, op[3])


def net(m, op):
    """Reference semantics of one operation on the parameter dictionary."""
    if op[0] == 'solve':
        return m
    m = json.loads(json.dumps(m))
    if op[0] == 'add2':
        return net(net(m, OPS['h+d']), OPS['t+'])
    kind, f, val, form = op
    if f in ('mu', 'T', 'Tph', 'D', 'Dph'):
        for k, v in val.items():
            k = int(k)
            old = m[f][k]
            if f in ('D', 'Dph'):
                m[f][k] = [old[0]+v[0], old[1]+v[1]] if kind == 'add' else list(v)
            else:
                m[f][k] = old+v if kind == 'add' else v
    else:
        for k, v in val.items():
            old = num(m[f].get(k, 0))
            m[f][k] = M.jv(complex(old+num(v))) if kind == 'add' else M.jv(complex(num(v)))
    return m


def form_of(op, m):
    """The argument object in its stated form."""
    _, f, val, form = op
    if f in ('mu', 'T', 'Tph'):
        d = {int(k): float(v) for k, v in val.items()}
        if form == 'dict':
            return d
        if form == 'list':
            return [d.get(i, 0.0) for i in range(len(m[f]))]
        if form == 'array':
            return np.array([d.get(i, 0.0) for i in range(len(m[f]))])
        return list(d.values())[0]
    if f in ('D', 'Dph'):
        if form == 'scalar':
            return list(val.values())[0][1]
        return {int(k): tuple(v) for k, v in val.items()}
    if form == 'dict':
        return {M.kt(k): num(v) for k, v in val.items()}
    if form == 'list':
        return [list(M.kt(k)) + [num(v)] for k, v in val.items()]
    a = np.zeros((2, 2), dtype=complex)
    for k, v in val.items():
        a[M.kt(k)] = num(v)
    return a


def do(b, op, m, kern):
    if op[0] == 'solve':
        M.solve(b, kern)
    elif op[0] == 'add2':
        b.add(hsingle=form_of(OPS['h+d'], m), tleads=form_of(OPS['t+'], m))
    elif op[0] == 'add':
        b.add(**{ARG[op[1]]: form_of(op, m)})
    elif op[0] == 'change':
        b.change(**{ARG[op[1]]: form_of(op, m)})
    else:
        v = form_of(op, m)
        if op[1] == 'mu':
            b.mulst = v
        elif op[1] == 'T':
            b.tlst = v
        else:
            b.dband = v


_ref = {}


def remove(b, case):
    """Leave out Fock states in the end: the operators are built again from the stored parameters."""
    if case.get('rf'):
        b.remove_fock_states(list(case['rf']))


def reference(m, case):
    key = json.dumps([m, case['kern'], case.get('opt'), case.get('rf')], sort_keys=True)
    if key not in _ref:
        if len(_ref) > 4000:
            _ref.clear()
        b = M.build(m, case['kern'], **case.get('opt', {}))
        remove(b, case)
        M.solve(b, case['kern'])
        _ref[key] = snap(b, weak=bool(case.get('weak')))
    return _ref[key]


def _mk(model, kern, ops, depth, **kw):
    """cases: one per prefix of depth-1 operations; the case runs every last operation."""
    for pre in itertools.product(ops, repeat=depth-1):
        if any(pre[i] == 's' and pre[i+1] == 's' for i in range(len(pre)-1)):
            continue
        yield dict(model=model, kern=kern, pre=list(pre), ops=ops, **kw)


def cases(tier):
    out = []
    q = tier == 'quick'
    for kern in M.ALL:
        heavy = kern in M.VN2
        for mdl in ('D2', 'D2e', 'D2x'):
            if heavy and mdl != 'D2e':
                continue
            ops = BASEOPS if not heavy else CORE
            opt = {'kpnt': 20} if heavy else {}
            for d in (1, 2):
                if heavy and q and d == 2 and kern == 'py2vN':
                    continue
                out += _mk(mdl, kern, ops, d, opt=opt)
    for kern in M.ALL:
        if kern in M.VN2:
            out += _mk('D2', kern, KEEP if kern == '2vN' or not q else KEEP[:6], 2, opt={'kpnt': 20})
            continue
        for mdl in ('D2',) if q else ('D2', 'D2x'):
            for d in (2, 3) if kern in ('Pauli', '1vN') or not q else (2,):
                out += _mk(mdl, kern, KEEP, d, opt={'itype': 2} if d == 3 else {})
        for d in (1, 2) if q else (2, 3):
            out += _mk('D2', kern, TINY, d)
            out += _mk('D2', kern, ['s', 'h*', 't*', 't='], d)
    for kern in M.FIRST:
        out += _mk('D2p', kern, ['s', 'v%', 'P%', 'h%', 't%'], 2, opt={'itype_ph': 2, 'itype': 2})
        out += _mk('D2p', kern, KEEP[:6] + ['h*', 't*', 'v*', 'v~', 'vx'], 2, opt={'itype_ph': 2, 'itype': 2})
        for d in (1, 2):
            out += _mk('D2p', kern, ELPHOPS, d, opt={'itype_ph': 2, 'itype': 2})
            for ind in ('Lin', 'sz', 'ssq'):
                if ind == 'Lin':
                    out += _mk('D2', kern, CORE, d, opt={'indexing': ind})
        sp = ['s', 'h+d', 'U+o', 'U=o', 't+', 'm+', 'm+l', 'm=', 'm:2', 'T+', 'T=', 'D=', 'D+', 'D:2']
        for ind in (None, 'charge', 'sz', 'Lin'):
            for d in (1, 2) if q else (1, 2, 3):
                if d > 1 and kern in M.PY:
                    continue
                out += _mk('A2s', kern, sp, d, opt={'symmetry': 'spin', 'indexing': ind}, weak=1, spin=1)
    for kern, mdl in (('Pauli', 'D2'), ('1vN', 'D2e'), ('pyPauli', 'D2e'), ('Lindblad', 'D2')):
        if q:
            out += _mk(mdl, kern, CORE, 3, opt={'itype': 2} if kern == '1vN' else {})
    for kern in ('Pauli', 'Lindblad'):
        out += _mk('S4s', kern, ['s', 'h+d', 'h=o', 'U+', 't=s', 'm=', 'D='], 2,
                   opt={'symmetry': 'spin'}, weak=1, spin=1)
    for kern in M.FIRST+['RTD']:
        for d in (1, 2):
            if kern in M.COMP or kern == 'RTD' or d == 1:
                out += _mk('D2e', kern, NEW, d)
                out += _mk('X3', kern, XCH, d, opt={'itype': 2} if kern != 'RTD' else {})
    for kern in M.COMP:
        out += _mk('D2pe', kern, NEWPH, 2, opt={'itype_ph': 2, 'itype': 2})
        out += _mk('D2pe', kern, NEWPH, 2, opt={'itype_ph': 2, 'itype': 2}, rf=[1])
    for ind in ('charge', 'Lin'):
        for mdl, ops in (('D2e', BASEOPS+NEW[1:]), ('X3', XCH), ('D2x', CORE)):
            if ind == 'charge' or mdl != 'D2e':
                out += _mk(mdl, 'Pauli', ops, 2, opt={'indexing': ind, 'itype': 2}, rf=[0, 2] if ind == 'Lin' else [3])
    if not q:
        for kern in M.FIRST:
            for mdl in ('D2', 'D2e'):
                out += _mk(mdl, kern, BASEOPS, 3, opt={'itype': 2})
            out += _mk('D2p', kern, ELPHOPS, 3, opt={'itype_ph': 2, 'itype': 2})
        for kern in ('Pauli', 'pyPauli', 'RTD'):
            out += _mk('D2e', kern, CORE, 4, opt={})
        for kern in M.VN2:
            out += _mk('D2e', kern, CORE, 2, opt={'kpnt': 20})
            out += _mk('D2', kern, CORE, 2, opt={'kpnt': 20})
    return out


EXTRA = {'U+o': ('add', 'U', {'0,0,0,0': 0.2}, 'dict'),
         'U=o': ('change', 'U', {'0,0,0,0': 0.7}, 'list'),
         'm:2': ('set', 'mu', {'0': 0.3, '1': -0.1, '2': 0.3, '3': -0.1}, 'array'),
         'D:2': ('set', 'D', {'0': [-8.0, 8.0], '1': [-8.0, 8.0]}, 'scalar'),
         't=s': ('change', 't', {'1,0': [0.02, 0.05], '1,1': 0.04}, 'dict')}


def run(case, R):
    m0 = START[case['model']]
    kern = case['kern']
    for last in case['ops']:
        hist = case['pre'] + [last]
        if len(hist) > 1 and hist[-1] == 's' and hist[-2] == 's':
            continue
        m = json.loads(json.dumps(m0))
        b = M.build(m, kern, **case.get('opt', {}))
        solved = False
        R.state([case['model'], kern, case.get('opt'), m, solved])
        for o in hist:
            op = resolve(EXTRA.get(o) or OPS[o], m)
            if case.get('spin') and op[1:2] == ('mu',) and op[0] == 'set':
                # an attribute assignment replaces the complete array of both spin species
                do(b, op, dict(m, mu=[0]*4), kern)
                m = net(m, (op[0], op[1], {k: v for k, v in op[2].items() if int(k) < 2}, op[3]))
            else:
                do(b, op, m, kern)
                m = net(m, op)
            solved = solved or o == 's'
            R.step()
            R.state([case['model'], kern, case.get('opt'), m, solved])
        remove(b, case)
        M.solve(b, kern)
        R.step()
        want = reference(m, case)
        got = snap(b, weak=bool(case.get('weak')))
        compare(R, got, want, '/'.join(hist))
        R.outcome(np.round(got['cur'], 9).tolist())
        R.trace()
