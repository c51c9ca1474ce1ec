"""C26: histories of approximation options."""
import itertools
import json

import numpy as np

from lib import models as M
from lib.snap import snap, compare

ID = 'C26'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit enumeration of all histories of approximation options, edits, restrictions, approach switches and solves of the real '
             'builders against a reference model that keeps the current option vector, realised by a fresh builder constructed with it')
NOTE = ('every word up to the stated length (quick 3, thorough 4) over itype, dqawc_limit, itype_ph, eps_elph, bath_func, off_diag_corrections, '
        'kpnt and edits; all approaches that use the option, dots with one to three levels; other option values and longer words are not '
        'covered')
RULE = ('state = (option vector, net edits, kernel, options at the last solve); every word is replayed on a fresh builder, which is compared '
        'after every solve with a builder constructed with the current options')
ASSUMPTIONS = ['matrix-free solutions are compared to 3e-3, all others to 1e-7']

# option -> builder attribute
ATTR = {'it': 'itype', 'dq': 'dqawc_limit', 'ip': 'itype_ph', 'ee': 'eps_elph', 'od': 'off_diag_corrections', 'kp': 'kpnt'}
VAL = {'it0': 0, 'it1': 1, 'it2': 2, 'it3': 3, 'dq1': 1, 'dq2': 5000, 'ip0': 0, 'ip2': 2, 'ee3': 0.3, 'ee6': 1e-6,
       'odF': False, 'odT': True, 'kp1': 24, 'kp2': 33}
JF = {'bf1': [[0.7, 1.0]], 'bf2': [[0.4, 3.0]], 'bf0': None}
EDIT = {'mu': lambda b: b.change(mulst={0: 0.13}), 'te': lambda b: b.change(tlst={1: 0.63}),
        'h': lambda b: b.change(hsingle={(0, 0): 0.22}), 'tl': lambda b: b.change(tleads={(0, 0): 0.05+0.06j}),
        'T+': lambda b: b.change(tlst_ph={0: 0.66}), 'v': lambda b: b.change(velph={(0, 0, 0): 0.09}),
        'db': lambda b: b.change(dlst={0: [-10., 9.]}), 'dall': lambda b: setattr(b, 'dband', 9.5)}
RESTR = {'rc': lambda b: b.remove_coherences(0.3), 'rs': lambda b: b.remove_states(1.0), 'us': lambda b: b.use_all_states()}

FIRST = ['s', 'it0', 'it1', 'it2', 'it3', 'mu', 'db', 'k', 'symF']
FIRST2 = ['s', 'it0', 'it2', 'it3', 'dq1', 'dq2', 'te', 'tl', 'mfT', 'mfF']
ELPH = ['s', 'ip0', 'ip2', 'ee3', 'ee6', 'bf1', 'bf2', 'bf0', 'T+', 'k']
ELPH2 = ['s', 'ip0', 'ip2', 'it1', 'it2', 'bf1', 'bf0', 'v', 'rs', 'mfT', 'mfF']
RTD = ['s', 'odF', 'odT', 'mu', 'dall', 'te', 'rs', 'us', 'rc', 'k']
VN = ['s', 'kp1', 'kp2', 'mu', 'db', 'te', 'k', 'rc']
WORD = {'first': FIRST, 'first2': FIRST2, 'elph': ELPH, 'elph2': ELPH2, 'rtd': RTD, 'vn': VN}
OTHER = {'Pauli': '1vN', '1vN': 'Redfield', 'Redfield': 'pyPauli', 'Lindblad': 'py1vN', 'pyPauli': 'Lindblad', 'py1vN': 'Pauli',
         'pyRedfield': '1vN', 'pyLindblad': 'Redfield', 'RTD': 'pyRTD', 'pyRTD': 'RTD', '2vN': 'py2vN', 'py2vN': '2vN'}


def cases(tier):
    q = tier == 'quick'
    out = []

    def put(m, kern, ops, depth, **kw):
        n = max(0, depth-2)
        for pre in itertools.product(WORD[ops], repeat=n):
            out.append(dict(m=m, a=kern, ops=ops, pre=list(pre), more=depth-n, **kw))
    for kern in M.FIRST:
        py = kern in M.PY
        for ops in ('first', 'first2'):
            for m in ('D2a', 'T3') if q else ('L1', 'D2', 'D2a', 'D2x3', 'T3'):
                put(m, kern, ops, 2 if m == 'T3' else 3 if q or py else 4)
        for ops in ('elph', 'elph2'):
            for m in ('D2p', 'T3p') if q else ('D2p', 'D2p2', 'T3p'):
                put(m, kern, ops, 2 if m == 'T3p' or py and q else 3)
    for kern in M.RTD:
        py = kern in M.PY+['pyRTD']
        for m in ('L1', 'D2') if q else ('L1', 'D2', 'D2x3', 'A2', 'T3'):
            put(m, kern, 'rtd', 2 if py and m != 'L1' or m in ('A2', 'T3') and q else 3)
    for kern in M.VN2:
        for m in ('L1', 'D2'):
            put(m, kern, 'vn', 2 if m == 'D2' and (q or kern == 'py2vN') else 3)
    return out


def cost(case):
    m = M.model(case['m'])
    k = case['a']
    return 4**m['n']*len(WORD[case['ops']])**case['more']*(12 if k in M.VN2 or k == 'pyRTD' else 5 if k in M.PY else 1)


def start(case):
    kern = case['a']
    o = {}
    if kern in M.VN2:
        o['kpnt'] = 28
    elif kern not in M.RTD:
        o['itype'] = 1
    if 'nb' in M.model(case['m']):
        o['itype_ph'] = 0
        o['eps_elph'] = 1e-6
    return o


def construct(m, kern, o):
    o = dict(o)
    off = o.pop('off_diag_corrections', True)
    J = o.pop('bath_func', None)
    if J is not None:
        o['bath_func'] = bath(m, J)
    b = M.build(m, kern, **o)
    if off is not True:
        b.off_diag_corrections = off
    return b


def bath(m, J):
    return [M.BathFunc(*J[0]) for _ in range(M.model(m)['nb'])]


def solve(b):
    if b.kerntype in M.VN2:
        b.solve(niter=1)
    else:
        b.solve()


_ref = {}


def reference(case, kern, o, edits, restr):
    key = json.dumps([case['m'], kern, sorted(o.items()), edits, restr], default=str)
    if key not in _ref:
        if len(_ref) > 6000:
            _ref.clear()
        b = construct(case['m'], kern, o)
        # the restrictions refer to the energies at the time they are made
        b.solve(**dict(masterq=False))
        for e in edits:
            (EDIT.get(e) or RESTR[e])(b)
            if e == 'h':
                b.solve(masterq=False)
        solve(b)
        _ref[key] = snap(b)
    return _ref[key]


LOOSE = {'cur': (3e-3, 1e-4), 'rho': (3e-3, 1e-4)}


def run(case, R):
    for rest in itertools.product(WORD[case['ops']], repeat=case['more']):
        w = list(case['pre'])+list(rest)
        if any(w[i] == w[i+1] for i in range(len(w)-1)):
            continue
        kern = case['a']
        o = start(case)
        b = construct(case['m'], kern, o)
        b.solve(masterq=False)
        edits = []
        mf = False
        last = None
        R.trace()
        for x in w+['s']:
            R.step()
            if x == 's':
                solve(b)
                last = json.dumps(sorted(o.items()))
                want = reference(case, kern, o, edits, None)
                tag = '%s' % ops_tag(w)
                if mf:
                    got = snap(b)
                    g = 2*np.pi*np.abs(b.Tba).max()**2
                    compare(R, got, want, tag, tol=dict(cur=(3e-3, 3e-3*g), rho=(3e-3, 3e-4)))
                else:
                    compare(R, snap(b), want, tag)
                R.outcome(np.round(want['cur'][0], 10).tolist())
                R.ev()
            elif x in VAL:
                a = ATTR[x[:2]]
                setattr(b, a, VAL[x])
                o[a] = VAL[x]
                R.check(getattr(b, a) == VAL[x], 'attribute:'+a, lambda: '%s: %r' % (w, getattr(b, a)))
            elif x in JF:
                o['bath_func'] = JF[x]
                b.bath_func = None if JF[x] is None else bath(case['m'], JF[x])
            elif x in EDIT:
                EDIT[x](b)
                edits = edits+[x]
                if x == 'h':
                    b.solve(masterq=False)
            elif x in RESTR:
                RESTR[x](b)
                edits = edits+[x]
            elif x == 'k':
                kern = OTHER[kern]
                b.kerntype = kern
            elif x == 'symF':
                b.symq = False
            elif x in ('mfT', 'mfF'):
                mf = x == 'mfT'
                b.mfreeq = mf
            R.state([case['m'], kern, sorted(o.items()), edits, mf, last])


def ops_tag(w):
    return '/'.join(w)
