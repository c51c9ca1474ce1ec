"""C11: histories of kerntype switches, edits, restrictions and solves."""
import itertools

import numpy as np

from lib import models as M
from lib.snap import snap, compare

ID = 'C11'
LEVEL = 'model_checking'
TECHNIQUE = 'explicit enumeration of all switch/edit/restriction/solve histories of the real builders against the same history without switches'
NOTE = ('every sequence up to length 3 (thorough: 4 for a reduced alphabet) of switches (by name and by class) between the twelve '
        'approaches, edits, restrictions and solves; the reference performs the same edits and restrictions on a builder constructed '
        'with the final approach; longer sequences are not covered')
RULE = ('state = (approach, edits, restrictions, solved or not); transition = one operation on the real builder; every sequence is '
        'followed by a solve and compared with the reference builder')
ASSUMPTIONS = ['itype=1 throughout (RTD coerces to it)', 'a switch that changes the indexing scheme may keep or discard the selection',
               'restrictions by energy are made when the energies are known (after a solve in the present indexing scheme)']

SW = ['Pauli', 'Lindblad', '1vN', 'RTD', '2vN', 'pyRedfield']
EDIT = ['s', 'mu', 'tl', 'rs', 'rc', 'rf', 'ua']
ELPH = ['Pauli', 'Lindblad', 'Redfield', '1vN', '2vN'] + M.PY


def cases(tier):
    q = tier == 'quick'
    out = []
    allk = ['k:'+k for k in M.ALL]
    cls = ['c:'+k for k in M.ALL]
    ops = ['k:'+k for k in SW] + EDIT
    # every pair of approaches with every operation before and after
    for a, b in itertools.product(M.ALL, allk + cls):
        pre = EDIT if b[2:] not in M.PY + ['pyRTD', 'py2vN'] or not q else ['s', 'rs', 'tl']
        out.append(dict(m='D2a', a=a, hs=[[b]] + [[e, b] for e in pre] + [[b, e] for e in pre]))
    # all sequences
    for a in SW:
        for p in ops:
            hs = [[p, x, y] for x in ops for y in ops if any(o[:2] == 'k:' for o in (p, x, y))]
            if not q:
                red = ['k:1vN', 'k:2vN', 'k:RTD', 's', 'rs', 'mu', 'rc', 'rf']
                hs += [[p, x, y, z] for x in red for y in red for z in red if any(o[:2] == 'k:' for o in (p, x, y, z))]
            out.append(dict(m='D2a', a=a, hs=hs))
    # chains of switches through all approaches
    for a in M.ALL:
        out.append(dict(m='T3' if a[:2] != 'py' and a not in ('2vN', 'RTD') else 'D2', a=a,
                        hs=[['k:'+x for x in p] for p in itertools.permutations(['Pauli', '1vN', 'Lindblad', 'Redfield'], 3)]))
    # phonons
    eops = ['k:'+k for k in ELPH] + EDIT + ['ve']
    for m in ('D2p', 'D2p2'):
        for a in ELPH:
            hs = [[b] for b in eops if b[0] == 'k'] + [[x, y] for x in eops for y in eops if 'k' in (x[0], y[0])]
            if a in M.COMP or not q:
                out.append(dict(m=m, a=a, hs=hs))
    # other indexing schemes
    for ix, m in (('Lin', 'D2a'), ('Lin', 'T3'), ('sz', 'A2'), ('ssq', 'A2s'), ('sz', 'A2s')):
        for a in ('Pauli', '1vN', 'Lindblad', 'Redfield'):
            ks = ['Lindblad', '1vN', 'RTD', '2vN', 'Pauli'] if m != 'T3' else ['Lindblad', '1vN', 'Pauli']
            if m == 'A2s':
                ks.remove('RTD')
            ed = [e for e in EDIT if not (ix == 'ssq' and e in ('rf', 'rs'))]
            o2 = ['k:'+k for k in ks] + ed
            hs = [[x] for x in o2 if x[0] == 'k'] + [[x, y] for x in o2 for y in o2 if 'k' in (x[0], y[0])]
            if not q:
                hs += [[x, y, z] for x in o2 for y in o2 for z in o2 if 'k' in (x[0], y[0], z[0])]
            out.append(dict(m=m, a=a, ix=ix, hs=hs))
    return out


def cost(case):
    return len(case['hs'])*(5 if '2vN' in str(case['hs']) or 'py' in str(case['hs']) else 1)


def make(case, kern):
    m = M.model(case['m'])
    kw = dict(itype=1)
    if 'nb' in m:
        kw['itype_ph'] = 2
    if 'ix' in case:
        kw['indexing'] = case['ix']
    if case['m'] in M.SPIN:
        kw['symmetry'] = 'spin'
    return M.build(m, kern, kpnt=24, **kw)


def solve(b):
    M.solve(b, **(dict(niter=1) if b.kerntype in M.VN2 else {}))


_class = {}


def klass(case, kern):
    k = (kern, 'p' in case['m'])
    if k not in _class:
        _class[k] = type(make(case, kern).appr)
    return _class[k]


def apply(b, o, case):
    if o[:2] == 'k:':
        b.kerntype = o[2:]
    elif o[:2] == 'c:':
        b.kerntype = klass(case, o[2:])
    elif o == 's':
        solve(b)
    elif o == 'mu':
        b.change(mulst={0: 0.12})
    elif o == 'tl':
        b.change(tleads={(0, 0): 0.07})
    elif o == 've':
        b.change(velph={(0, 0, 0): 0.09})
    elif o == 'rs':
        b.remove_states(0.6)
    elif o == 'rc':
        b.remove_coherences(0.03)
    elif o == 'rf':
        b.remove_fock_states([0])
    elif o == 'ua':
        b.use_all_states()


_ref = {}


def reference(case, kern, h, ix=None):
    key = str((case['m'], case.get('ix'), kern, h, ix))
    if key not in _ref:
        if len(_ref) > 4000:
            _ref.clear()
        b = make(dict(case, ix=ix) if ix else case, kern)
        solve(b)
        for o in h:
            apply(b, o, case)
        solve(b)
        _ref[key] = snap(b) if b.success else None
    return _ref[key]


def run(case, R):
    for h in case['hs']:
        one(case, h, R)


def one(case, h, R):
    b = make(case, case['a'])
    solve(b)
    kern = case['a']
    R.trace()
    ix = case.get('ix')
    cut = None
    edits = set()
    restr = None
    for i, o in enumerate(h):
        apply(b, o, case)
        R.step()
        if o[1:2] == ':':
            kern = o[2:]
            if ix in ('sz', 'ssq') and kern in M.RTD + M.VN2 or ix == 'Lin' and kern in M.RTD:
                ix, cut = 'charge', i
                restr = 'maybe'
            R.check(b.kerntype == kern, '%s:kerntype' % kern, lambda: 'kerntype %r after switching to %r' % (b.kerntype, kern))
        elif o in ('rs', 'rc', 'rf', 'ua'):
            restr = (restr, o) if o == 'rc' else o
        elif o != 's':
            edits.add(o)
        R.state([case['m'], case.get('ix'), kern, sorted(edits), restr, o == 's'])
    if cut is not None:
        # energies are unknown between a change of the indexing scheme and the next solve
        rest = h[cut:]
        upto = rest[:rest.index('s')] if 's' in rest else rest
        if 'rs' in upto or 'rc' in upto:
            R.count('selection_by_unknown_energies_skipped')
            return
    solve(b)
    R.step()
    plain = [o for o in h if o[1:2] != ':' and o != 's']
    if cut is None:
        wants = [reference(case, kern, plain)]
    else:
        # the Fock states that are removed for good
        before = [o for o in h[:cut] if o[1:2] != ':' and o != 's']
        after = [o for o in h[cut:] if o[1:2] != ':' and o != 's']
        rf = [o for o in before if o in ('rs', 'rf', 'ua')]
        keep = ['rf'] if rf and rf[-1] == 'rf' else []
        # remove_states between them does not bring Fock states back
        if 'rf' in rf and 'ua' not in rf[rf.index('rf'):]:
            keep = ['rf']
        wants = [reference(case, kern, keep+[o for o in before if o in ('mu', 'tl')]+after, ix),
                 reference(case, kern, [o for o in before if o != 'ua' or True]+after, ix)]
    wants = [w for w in wants if w is not None]
    if not wants:
        R.count('reference_failure')
        return
    R.ev()
    got = snap(b)
    if kern in M.VN2:
        # 2vN has no phonons and does not rotate their couplings
        for x in [got]+wants:
            x.pop('Vbbp', None)
    if len(wants) == 1:
        compare(R, got, wants[0], '%s:%s' % (kern, ' '.join(h)))
    else:
        class Q(object):
            bad = []

            def check(self, ok, key, msg):
                if not ok:
                    self.bad.append((key, msg() if callable(msg) else msg))
                return ok
        res = []
        for w in wants:
            qq = Q()
            qq.bad = []
            compare(qq, got, w, '%s:%s' % (kern, ' '.join(h)))
            res.append(qq.bad)
        if all(res):
            R.fail(res[0][0][0], res[0][0][1])
    R.outcome(np.round(np.nan_to_num(got['cur']), 9).tolist())
