"""C23: unsupported values of options are replaced by the announced substitute."""
import contextlib
import io
import itertools

import numpy as np

from lib import models as M

ID = 'C23'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit enumeration of the product of all (valid and invalid) option values at construction and of all histories of setting '
             'approach, integral type, matrix-free flag and indexing on the real builders, against a transition system of the effective options')
NOTE = ('every combination of 15 approach names, 8 integral types, 7 indexings, two symmetries and the matrix-free flag for plain and phonon '
        'builders; histories of settings up to length 3 (thorough: 4); decided by the reported options, the announcement and the results of a '
        'builder constructed with the substitutes')
RULE = ('state = effective (approach, integral type, matrix-free flag, indexing); transition = construction or one setting of an option on the '
        'real builder')
ASSUMPTIONS = ["symmetry='spin' with 'RTD' and no indexing given drops the symmetry, as announced; the results of such a builder are not judged",
               'matrix-free results agree to the stopping criterion of the solver']

BAD_KERN = ['pauli', 'foo', 'RTd']
ITYPES = [0, 1, 2, 3, 4, -1, 'x', None]
INDEX = [None, 'Lin', 'charge', 'sz', 'ssq', 'Charge', 'foo']
DOC = 'Pauli'


def expected(kern, it, ix, sym, mf, ip=None):
    """The documented substitutes, and whether something was replaced."""
    said = False
    if kern not in M.ALL:
        kern, said = 'Pauli', True
    rtd, vn2 = kern in M.RTD, kern in M.VN2
    if rtd:
        if it != 1:
            it, said = 1, True
    elif it not in (0, 1, 2, 3):
        it, said = 0, True
    if mf and (rtd or vn2):
        mf, said = False, True
    if ix is None:
        if sym == 'spin' and rtd:
            ix, sym, said = 'charge', None, True
        elif sym == 'spin' and not vn2:
            ix = 'ssq'
        else:
            ix = 'charge'
    elif ix not in ('Lin', 'charge', 'sz', 'ssq'):
        ix, said = 'charge', True
    if rtd and ix != 'charge':
        ix, said = 'charge', True
    if vn2 and ix not in ('Lin', 'charge'):
        ix, said = 'charge', True
    if ip is not None and ip not in (0, 2):
        ip, said = 0, True
    return kern, it, ix, sym, mf, ip, said


OPS = ['k:Pauli', 'k:py1vN', 'k:RTD', 'k:2vN', 'k:Redfield', 'k:foo', 'i:0', 'i:1', 'i:2', 'f:1', 'f:0', 'x:Lin', 'x:ssq', 's']


def cases(tier):
    out = []
    for kern in M.ALL+BAD_KERN:
        for it in ITYPES:
            for sym in (None, 'spin'):
                out.append(dict(k='new', kern=kern, it=it, sym=sym))
    for kern in M.FIRST+M.VN2+BAD_KERN:
        for it in (0, 2, 7):
            out.append(dict(k='ph', kern=kern, it=it))
    for m in ('L1', 'T3', 'T3p', 'L1x6'):
        for kern in M.ALL:
            if not (m == 'T3p' and kern in M.RTD):
                out.append(dict(k='odd', m=m, kern=kern))
    for m in ('L1', 'D2', 'D2a'):
        for kern in M.VN2:
            out.append(dict(k='refused', m=m, kern=kern))
    for m in ('A2s', 'S4s'):
        for kern in M.FIRST:
            out.append(dict(k='ssq', m=m, kern=kern))
    depth = 3 if tier == 'quick' else 4
    for kern in ('Pauli', 'pyRedfield', 'RTD', '2vN', 'py1vN'):
        for o in OPS:
            out.append(dict(k='hist', kern=kern, first=o, depth=depth if kern in ('Pauli', 'RTD', '2vN') or tier != 'quick' else 2))
    return out


def cost(case):
    return (20 if case['k'] == 'hist' else 1)*(4 if case['kern'] in ('pyRTD', 'py2vN', '2vN') else 1)


def explicit(sym):
    """The same model without the symmetry."""
    m = M.model('A2s')
    if sym:
        return m
    return dict(m, h={'0,0': 0.1, '1,1': 0.1}, U={'0,1,1,0': 1.3}, t={'0,0': 0.1, '1,0': [0.06, 0.03], '2,1': 0.1, '3,1': [0.06, 0.03]},
                mu=m['mu']*2, T=m['T']*2, D=m['D']*2)


def make(m, kern, **kw):
    f = io.StringIO()
    if kern in M.VN2:
        kw['kpnt'] = 14
    with contextlib.redirect_stdout(f):
        b = M.build(m, kern, **kw)
    return b, 'WARNING' in f.getvalue()


def solve(b):
    with contextlib.redirect_stdout(io.StringIO()):
        if b.kerntype in M.VN2:
            if b.kpnt is None:
                b.kpnt = 14
            b.solve(niter=1)
        else:
            b.solve()
    return np.concatenate([np.sort(M.arr(b.Ea).real), M.arr(b.current), M.arr(b.energy_current), M.arr(b.heat_current)])


_ref = {}


def reference(m, kern, it, ix, sym, mf, ip):
    key = str((m, kern, it, ix, sym, mf, ip))
    if key not in _ref:
        if len(_ref) > 3000:
            _ref.clear()
        kw = dict(itype=it, indexing=ix, symmetry=sym)
        if ip is not None:
            kw['itype_ph'] = ip
        b, said = make(m, kern, **kw)
        assert not said, 'the substitutes are announced as invalid'
        _ref[key] = solve(b)
    return _ref[key]


def effective(b):
    return (b.kerntype, b.itype, b.indexing, b.si.symmetry, bool(b.mfreeq), getattr(b.funcp, 'itype_ph', None))


def compare(R, b, want, ref, tag):
    r = solve(b)
    R.ev()
    mf = want[4]
    R.check(M.close(r, ref, 5e-3 if mf else 1e-8, 1e-5 if mf else 1e-11), tag, lambda: '%s: %s' % (want, M.diff(r, ref)))


def run(case, R):
    if case['k'] == 'hist':
        return history(case, R)
    if case['k'] in ('odd', 'ssq', 'refused'):
        return globals()[case['k']](case, R)
    ph = case['k'] == 'ph'
    for ix in INDEX:
        for mf in (False, True):
            for ip in (0, 2, 1, 'y') if ph else (None,):
                kern, it, sym = case['kern'], case['it'], case.get('sym')
                if ph and ix in ('sz', 'ssq'):
                    continue
                m = M.model('D2p') if ph else explicit(sym)
                want = expected(kern, it, ix, sym, mf, ip)
                kw = dict(itype=it, indexing=ix, symmetry=sym, mfreeq=mf)
                if ph:
                    kw['itype_ph'] = ip
                b, said = make(m, kern, **kw)
                got = effective(b)
                R.step()
                R.trace()
                R.state(got)
                R.nt([case, ix, mf, ip])
                R.check(got == want[:6], 'construction:options', lambda: '%s: effective %s, documented %s' % ([kern, it, ix, sym, mf, ip], got, want[:6]))
                R.check(said == want[6], 'construction:announcement', lambda: '%s: warning %s, expected %s' % ([kern, it, ix, sym, mf, ip], said, want[6]))
                if sym == 'spin' and want[3] is None or got != want[:6]:
                    continue
                compare(R, b, want, reference(m, *want[:6]), 'construction:results')


def history(case, R):
    m = explicit(None)
    rest = [list(h) for r in range(case['depth']) for h in itertools.product(OPS, repeat=r)]
    for h in rest:
        h = [case['first']]+h
        if len(h) > 1 and h[-1] == 's':
            continue
        kern = case['kern']
        it = 1
        b, _ = make(m, kern, itype=it, indexing='charge')
        st = [kern, 1, 'charge', None, False, None]
        for o in h:
            f, _, x = o.partition(':')
            buf = io.StringIO()
            said = False
            with contextlib.redirect_stdout(buf):
                if f == 'k':
                    try:
                        b.kerntype = x
                        R.check(x in M.ALL, 'history:invalid approach accepted', str(h))
                    except (KeyError, TypeError, ValueError):
                        R.check(x not in M.ALL, 'history:approach refused', str(h))
                    if x in M.ALL and x != st[0]:
                        e = expected(x, st[1], st[2], None, st[4])
                        st[:5], said = e[:5], e[6]
                elif f == 'i':
                    b.itype = int(x)
                    st[1] = int(x)
                elif f == 'f':
                    b.mfreeq = x == '1'
                    e = expected(st[0], 1, st[2], None, x == '1')
                    st[4], said = e[4], e[6]
                elif f == 'x':
                    b.indexing = x
                    said = x != st[2]
            if f == 's':
                solve(b)
            else:
                R.check(('WARNING' in buf.getvalue()) == said, 'history:announcement', lambda: '%s at %s: expected %s' % (h, o, said))
            R.step()
        R.trace()
        R.state(st)
        got = effective(b)
        R.check(got == tuple(st), 'history:options', lambda: '%s: effective %s, documented %s' % (h, got, st))
        rst = list(st)
        if st[0] in M.RTD:
            rst[1] = 1
        compare(R, b, st, reference(m, *rst), 'history:results')


def odd(case, R):
    """Indexing by spin of an odd number of levels is announced to become 'Lin'; so do unknown names given to the indexing itself."""
    kern, ref = case['kern'], None
    n = M.model(case['m'])['n']
    for ix in ('charge', 'Lin', 'sz', 'ssq'):
        want = expected(kern, 1, ix, None, False)
        said = want[6]
        eff = want[2]
        if eff in ('sz', 'ssq'):
            eff, said = 'Lin', True
        b, w = make(case['m'], kern, itype=1, indexing=ix)
        R.step()
        R.trace()
        R.state([case, ix])
        R.nt([case, ix])
        R.check(b.indexing == eff and b.si.indexing == eff, 'odd:options', lambda: '%s %s: %s' % (case, ix, b.indexing))
        R.check(w == said, 'odd:announcement', lambda: '%s %s: warning %s' % (case, ix, w))
        r = solve(b)
        R.ev()
        ref = r if ref is None else ref
        R.check(M.close(np.nan_to_num(r), np.nan_to_num(ref), 1e-8, 1e-12), 'odd:results', lambda: '%s %s: %s' % (case, ix, M.diff(r, ref)))
        if kern not in M.RTD:
            with contextlib.redirect_stdout(io.StringIO()):
                b.remove_fock_states([2**n-1])
                R.check(int(b.si.nmany) == 2**n-1, 'odd:removal', str([case, ix]))
    from qmeq import indexing as I
    for cls in (I.StateIndexing, I.StateIndexingDM, I.StateIndexingDMc, I.StateIndexingPauli):
        for ix in ('foo', 'sz', 'ssq', 'LIN', 'Lin'):
            f = io.StringIO()
            with contextlib.redirect_stdout(f):
                si = cls(n, indexing=ix)
            R.check(si.indexing == 'Lin' and [int(i) for i in si.i] == list(range(2**n)), 'odd:index', lambda: '%s %s' % (cls, ix))
            R.check(('WARNING' in f.getvalue()) == (ix != 'Lin'), 'odd:index announcement', lambda: '%s %s' % (cls, ix))
            f = io.StringIO()
            with contextlib.redirect_stdout(f):
                a = si.get_lst(1, 1)
            R.check(list(a) == list(si.get_lst(charge=1)) and 'WARNING' in f.getvalue() and si.get_lst() is None, 'odd:lists', lambda: '%s %s' % (cls, ix))


def ssq(case, R):
    """Removal of Fock states is refused with 'ssq': nothing changes."""
    for rf in ([0], [1], [3], [0, 1]):
        for before in (False, True):
            b, w = make(case['m'], case['kern'], itype=1, symmetry='spin')
            a, w = make(case['m'], case['kern'], itype=1, symmetry='spin')
            if before:
                solve(b)
            f = io.StringIO()
            with contextlib.redirect_stdout(f):
                b.remove_fock_states(rf)
            R.check('WARNING' in f.getvalue(), 'ssq:announcement', lambda: str([case, rf]))
            R.step()
            R.trace()
            R.state([case, rf, before])
            R.nt([case, rf, before])
            R.check(int(b.si.nmany) == int(a.si.nmany), 'ssq:states', lambda: str([case, rf]))
            x, y = solve(b), solve(a)
            R.ev()
            R.check(M.close(x, y, 1e-12, 1e-18), 'ssq:results', lambda: '%s %s: %s' % (case, rf, M.diff(x, y)))


def refused(case, R):
    """Calls without a necessary argument raise the announced error and leave a usable builder."""
    m, kern = case['m'], case['kern']
    ref, _ = make(m, kern)
    ref.solve(niter=2)
    calls = [('niter', lambda b: b.solve()), ('niter', lambda b: b.solve(qdq=False, restartq=False)), ('none', lambda b: b.solve(niter=1)),
             ('class', lambda b: setattr(b, 'kerntype', dict)), ('class', lambda b: setattr(b, 'kerntype', 'foo')), ('none', lambda b: b.solve(masterq=False))]
    for seq in itertools.product(range(len(calls)), repeat=2 if kern[:2] == 'py' else 3):
        b, _ = make(m, kern)
        R.trace()
        for i in seq:
            name, f = calls[i]
            err = None
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    f(b)
                except Exception as e:
                    err = type(e)
            R.step()
            if name == 'none':
                R.check(err is None, 'refused:valid call', lambda: '%s %s: %s' % (case, seq, err))
            else:
                R.check(err in ((ValueError,) if name == 'niter' else (TypeError, KeyError, ValueError)), 'refused:error', lambda: '%s %s: %s' % (case, seq, err))
            R.check(b.kerntype == kern, 'refused:approach', lambda: '%s %s' % (case, seq))
        R.state([case, seq])
        b.solve(niter=2)
        R.ev()
        R.check(M.close(M.currents(b), M.currents(ref), 1e-12, 1e-16) and M.close(M.density(b), M.density(ref), 1e-12, 1e-14), 'refused:results',
                lambda: '%s %s: %s' % (case, seq, M.diff(M.currents(b), M.currents(ref))))
    import qmeq
    for bad in (dict, 3, object):
        err = None
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                M.build(m, bad)
            except Exception as e:
                err = type(e)
        R.check(err in (TypeError, ValueError), 'refused:construction', lambda: '%s: %s' % (bad, err))
    b = qmeq.Builder(kerntype=kern, kpnt=None, **M.args(m))
    err = None
    try:
        b.solve(niter=2)
    except Exception as e:
        err = type(e)
    R.check(err is ValueError, 'refused:kpnt', lambda: '%s' % err)
    b.kpnt = ref.kpnt
    b.solve(niter=2)
    R.check(M.close(M.currents(b), M.currents(ref), 1e-12, 1e-16), 'refused:results after kpnt', lambda: M.diff(M.currents(b), M.currents(ref)))
