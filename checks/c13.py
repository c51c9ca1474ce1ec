"""C13: many-body input against the single-particle builder it was taken from."""
import itertools

import numpy as np

from lib import models as M

ID = 'C13'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of the orderings, subsets, charge offsets and phases of the many-body input (and of short histories '
             'of operations on both builders), each compared with the single-particle builder it came from')
NOTE = ('all orderings of the states of one- and two-level models and all transpositions, rotations and charge interleavings (thorough: '
        'all 8! orderings for first-order approaches) of three-level models, four charge offsets, every subset of states, all approaches '
        'and integral types, with and without phonons; all pairs of constructor options')
RULE = 'evaluation = one solve of one many-body builder compared with its single-particle builder; distinct = different (model, approach, ordering, offset, subset)'
ASSUMPTIONS = ['many-body builders are solved with qdq=False', 'RTD energy currents of many-body input lack the barrier term and are not compared',
               'RTD and 2vN on subsets of states are compared with the same subset kept in the single-particle builder']

OFF = [0, 1, 5, -3]
PHASE = [1, -1, 1j, np.exp(0.7j), np.exp(-2.1j), np.exp(1.3j), -1j, np.exp(2.9j)]


def perms(n, full=False):
    if full or n <= 4:
        return [list(p) for p in itertools.permutations(range(n))]
    out = []
    e = list(range(n))
    for i, j in itertools.combinations(range(n), 2):
        p = e[:]
        p[i], p[j] = p[j], p[i]
        out.append(p)
    for i in range(n):
        out += [e[i:]+e[:i], (e[i:]+e[:i])[::-1]]
    out += [e[::2]+e[1::2], e[1::2]+e[::2], e[::3]+e[1::3]+e[2::3]]
    return out


def chunks(x, n):
    return [x[i:i+n] for i in range(0, len(x), n)]


OPS = ['mu', 'rs:0.5', 'rs:1.4', 'rc:0.2', 'ua', 's', 'k:1vN', 'k:Pauli', 'k:pyRedfield', 'D']


def cases(tier):
    q = tier == 'quick'
    out = []

    def add(m, kern, ps, **kw):
        for c in chunks(ps, 60):
            out.append(dict(m=m, kern=kern, ps=c, **kw))
    for kern in M.ALL:
        py2 = kern in ('py2vN', 'pyRTD')
        for m in ('L1', 'L1x3', 'D2', 'D2a', 'D2d', 'D2x3'):
            if m == 'D2d' and kern in M.VN2:
                continue
            if py2 and m in ('D2x3', 'D2d'):
                continue
            ps = perms(2 if m[0] == 'L' else 4)
            for off in OFF if m in ('L1', 'D2a') and not py2 else OFF[2:3]:
                its = (1, 2, 0) if m == 'L1' and kern in M.FIRST else (1,)
                for it in its:
                    add(m, kern, ps[::6] if py2 and q and len(ps) > 20 else ps, off=off, it=it)
        # subsets
        if kern in M.FIRST or not q:
            for m in ('D2', 'D2a'):
                for r in (1, 2, 3):
                    for s in itertools.combinations(range(4), r):
                        ps = [list(p) for p in itertools.permutations(s)]
                        add(m, kern, ps, off=1, it=1, sub=1)
        if kern in M.FIRST:
            for m in ('T3', 'S4') if kern in M.COMP else ('T3',):
                add(m, kern, perms(8 if m == 'T3' else 16) if kern in M.COMP or not q else perms(8)[::5], off=2, it=1)
            sub = [list(s) for r in (5, 6, 7) for s in itertools.combinations(range(8), r)]
            add('T3', kern, sub[::1 if kern in M.COMP else 6], off=0, it=2, sub=1)
            add('D2', kern, perms(4), off=1, it=1, ph=1)
        elif kern == 'RTD':
            add('T3', kern, perms(8)[::8 if q else 1], off=1, it=1)
        if not q and kern in M.COMP:
            for p in chunks(perms(8, True), 400):
                out.append(dict(m='T3', kern=kern, ps=p, off=0, it=1))
        # phonons
        if kern not in M.RTD:
            for m in ('D2p', 'D2p2'):
                ps = perms(4)
                add(m, kern, ps[::5] if q and kern in M.PY + ['2vN', 'py2vN'] else ps, off=1, it=1)
            if kern in M.FIRST:
                add('T3p', kern, perms(8)[::1 if kern in M.COMP else 7], off=0, it=1)
    # forms of the arguments
    for fm in itertools.product(*FORMS.values()):
        fm = dict(zip(FORMS, fm))
        for m in ('D2', 'D2p'):
            if m == 'D2' and not q or sum(fm[k] != FORMS[k][0] for k in fm) < (3 if m == 'D2' else 2) or not q:
                out.append(dict(m=m, kern='1vN' if m == 'D2' else 'Redfield', ps=[[3, 1, 0, 2]], off=1, it=1, fm=fm))
    # options of the constructor
    for m in ('D2', 'D2a', 'D2p', 'D2p2'):
        for kern in M.ALL:
            if 'p' in m and kern in M.RTD:
                continue
            os = options(m, kern)
            out += [dict(m=m, kern=kern, ps=[[0, 1, 2, 3], [3, 1, 0, 2]], off=1, it=1, opt=o) for o in chunks(os, 10)]
    # histories
    ps = [[0, 1, 2, 3], [3, 1, 0, 2], [2, 3, 1, 0]]
    for m in ('D2', 'D2a', 'D2p'):
        for a in M.COMP:
            hs = [list(h) for r in (1, 2, 3) for h in itertools.product(OPS, repeat=r)
                  if not (r == 3 and q and (h[2] == 's' or h[0] == h[1] or m == 'D2a'))]
            for c in chunks(hs, 250):
                out.append(dict(m=m, kern=a, ps=ps[1:2] if q else ps, off=1, it=1, hs=c))
    for a, hs in (('RTD', ['mu', 's', 'rs:1.4', 'ua', 'k:Pauli', 'k:RTD']), ('2vN', ['mu', 's', 'rs:1.4', 'ua', 'k:Pauli', 'k:2vN'])):
        out.append(dict(m='D2', kern=a, ps=ps[1:2], off=1, it=1, hs=[list(h) for r in (1, 2) for h in itertools.product(hs, repeat=r)]))
    return out


FUNCS = [[[0.8, 1.0]], [[1.3, 2.0]], [[0.7, 3.0], [1.6, 1.0]]]


def options(m, kern):
    """Constructor arguments common to the single-particle and the many-body builders (all pairs of values)."""
    ax = [[dict(symq=False, solmethod='lsqr')] + [dict(norm_row=i) for i in (1, 2, 3, -1)]]
    if kern not in M.RTD:
        ax.append([dict(itype=i) for i in (0, 2, 3)])
        ax.append([dict(dqawc_limit=500)])
    ax.append([dict(solmethod=x) for x in ('lsqr', 'solve')])
    if kern in M.FIRST:
        ax.append([dict(mfreeq=True), dict(mfreeq=True, phi0_init=[0.1, 0.2, 0.3, 0.4])])
    if kern in M.VN2:
        ax.append([dict(kpnt=20)])
    if M.model(m).get('nb'):
        nb = M.model(m)['nb']
        ax.append([dict(bath_func=f*nb if len(f) < nb else f[:nb]) for f in FUNCS] + [dict(bath_func=f[:1]*nb) for f in FUNCS[2:]])
        ax.append([dict(eps_elph=1e-3), dict(eps_elph=0.7)])
    out = [o for x in ax for o in x]
    for x, y in itertools.combinations(ax, 2):
        out += [dict(a, **b) for a in x for b in y if 'phi0_init' not in a]
    return out


def real_opt(o, m, kern):
    o = dict(o)
    if 'bath_func' in o:
        o['bath_func'] = [M.BathFunc(*x) for x in o['bath_func']]
    if 'phi0_init' in o:
        v = np.array(o['phi0_init'])
        o['phi0_init'] = v if kern.endswith('Pauli') else np.concatenate([v, np.zeros(2)])
    return o


def cost(case):
    if 'opt' in case:
        return 20*len(case['opt'])*(20 if case['kern'] in ('pyRTD', 'py2vN') else 1)
    k = case['kern']
    n = M.model(case['m'])['n']
    return len(case['ps'])*len(case.get('hs', [0]))*(30 if k == 'pyRTD' else 8 if 'py' in k or '2vN' in k else 1)*(4**(n-2))


_src = {}


def single(m, kern, it, sub, opt=None):
    kw = {} if kern in M.RTD else dict(itype=it)
    if kern in M.VN2:
        kw['kpnt'] = 24
    kw.update(opt or {})
    b = M.build(m, kern, **kw)
    if sub is not None:
        b.si.set_statesdm([[i for i in lst if i in sub] for lst in b.si.chargelst])
    return b


def solve(b, **kw):
    if b.kerntype in M.VN2:
        kw['niter'] = 1
    b.solve(**kw)


def source(m, kern, it, sub):
    key = (m, kern, it, str(sub))
    if key not in _src:
        if len(_src) > 500:
            _src.clear()
        b = single(m, kern, it, sub)
        solve(b)
        _src[key] = (M.arr(b.Ea).real, M.charges(b), M.arr(b.Tba), M.arr(b.baths.Vbbp) if hasattr(b, 'baths') else None,
                     M.density(b), M.currents(b), bool(b.success))
    return _src[key]


FORMS = {'mu': ('array', 'list', 'dict', 'part'), 'T': ('array', 'list', 'dict'), 'D': ('array', 'list', 'dict', 'half'),
         'E': ('array', 'list', 'tuple'), 'N': ('list', 'array', 'tuple', 'float'), 'how': ('class', 'place', 'factory')}


def form(x, f):
    return dict(array=np.array, list=list, tuple=tuple, dict=lambda v: dict(enumerate(v)), float=lambda v: np.array(v, dtype=float),
                part=lambda v: {i: u for i, u in enumerate(v) if u != 0}, half=lambda v: [u[1] for u in v])[f](x)


def formatted(a, fm):
    """The same arguments in other accepted forms, given by name or by place, to the class or to the method of Builder."""
    import qmeq
    a = dict(a)
    for k, ks in (('mu', ('mulst',)), ('T', ('tlst', 'tlst_ph')), ('D', ('dband', 'dband_ph')), ('E', ('Ea',)), ('N', ('Na',))):
        for n in ks:
            if n in a and not (fm[k] == 'half' and n == 'dband_ph'):
                a[n] = form(list(a[n]), fm[k])
    ph = 'Vbbp' in a
    pos = [a.pop(n) for n in (('Ea', 'Na', 'Tba')+('Vbbp',)*ph+('mulst', 'tlst', 'dband')+('tlst_ph', 'dband_ph')*ph)] if fm['how'] == 'place' else []
    if fm['how'] == 'factory':
        return (qmeq.Builder.many_body_elph if ph else qmeq.Builder.many_body)(*pos, **a)
    return (qmeq.BuilderManyBodyElPh if ph else qmeq.BuilderManyBody)(*pos, **a)


def many(case, p, E, ch, T, V, kern, it, off, opt=None):
    import qmeq
    m = M.model(case['m'])
    ix = np.ix_(p, p)
    z = np.array([PHASE[i % 8] for i in p]) if case.get('ph') else np.ones(len(p))
    zz = np.conj(z)[:, None]*z[None, :]
    kw = {} if kern in M.RTD else dict(itype=it)
    if kern in M.VN2:
        kw['kpnt'] = 24
    kw.update(opt or {})
    a = dict(Ea=E[p], Na=[int(ch[i]+off) for i in p], Tba=np.array([t[ix]*zz for t in T]),
             mulst=np.array(m['mu']), tlst=np.array(m['T']), dband=np.array(m['D']), kerntype=kern, **kw)
    if 'fm' in case:
        if V is not None:
            a.update(Vbbp=np.array([v[ix]*zz for v in V]), tlst_ph=np.array(m['Tph']), dband_ph=np.array(m['Dph']))
        return formatted(a, case['fm'])
    if V is not None:
        return qmeq.BuilderManyBodyElPh(Vbbp=np.array([v[ix]*zz for v in V]), tlst_ph=np.array(m['Tph']),
                                        dband_ph=np.array(m['Dph']), **a)
    return qmeq.BuilderManyBody(**a)


def run(case, R):
    kern, it, off = case['kern'], case['it'], case['off']
    if 'opt' in case:
        for o in case['opt']:
            with_options(case, o, R)
        return
    for p in case['ps']:
        if case.get('hs'):
            for h in case['hs']:
                history(case, p, h, R)
            continue
        E, ch, T, V = source(case['m'], kern, it, None)[:4]
        sub = sorted(p) if case.get('sub') else None
        rho, cur, ok = source(case['m'], kern, it, sub)[4:]
        b = many(case, p, E, ch, T, V, kern, it, off)
        solve(b, qdq=False)
        if not (ok and np.isfinite(cur[0]).all() and gap(case['m'], kern, it, sub) > 1e-7):
            R.count('no_unique_stationary_state')
            continue
        R.ev()
        R.nt([case['m'], kern, p, off, case.get('sub'), case.get('ph')])
        ref = (rho[np.ix_(p, p)], cur)
        compare(R, b, p, ref, kern, kern, case.get('ph'))
        R.outcome(np.round(cur[0], 9).tolist())


_gap = {}


def gap(m, kern, it, sub):
    key = (m, kern, it, str(sub))
    if key not in _gap:
        if kern in M.FIRST and sub is not None:
            b = single(m, kern, it, sub)
            b.make_kern_copy = True
            solve(b)
            try:
                _gap[key] = M.kern_gap(b)
            except Exception:
                _gap[key] = 1.0
        else:
            _gap[key] = 1.0
    return _gap[key]


def compare(R, b, p, ref, kern, tag, ph=None):
    rho, cur = ref
    R.check(bool(b.success), tag+':success', 'reported failure')
    R.check(M.close(b.current, cur[0], 1e-8, 1e-12), tag+':current', lambda: M.diff(b.current, cur[0]))
    if kern not in M.RTD:
        R.check(M.close(b.energy_current, cur[1], 1e-8, 1e-12), tag+':energy current', lambda: M.diff(b.energy_current, cur[1]))
        R.check(M.close(b.heat_current, cur[2], 1e-8, 1e-12), tag+':heat current', lambda: M.diff(b.heat_current, cur[2]))
    d = M.density(b)
    want = rho
    if ph:
        z = np.array([PHASE[i % 8] for i in p])
        want = rho*np.conj(z)[:, None]*z[None, :]
    R.check(M.close(d, want, 1e-8, 1e-11), tag+':density', lambda: M.diff(d, want))


def apply(b, o, mb):
    f, _, x = o.partition(':')
    if f == 's':
        solve(b, qdq=False) if mb else solve(b)
    elif f == 'mu':
        b.change(mulst={0: 0.12})
    elif f == 'D':
        b.change(tlst={1: 0.37})
    elif f == 'rs':
        b.remove_states(float(x))
    elif f == 'rc':
        b.remove_coherences(float(x))
    elif f == 'ua':
        b.use_all_states()
    elif f == 'k':
        b.kerntype = x


def with_options(case, o, R):
    m, kern, it = case['m'], case['kern'], case['it']
    a = single(m, kern, it, None, real_opt(o, m, kern))
    solve(a)
    if not a.success or not np.isfinite(a.current).all():
        R.count('reference_failure')
        return
    E, ch, T = M.arr(a.Ea).real, M.charges(a), M.arr(a.Tba)
    V = M.arr(a.baths.Vbbp) if hasattr(a, 'baths') else None
    rho, cur = M.density(a), M.currents(a)
    for p in case['ps']:
        b = many(case, p, E, ch, T, V, kern, it, case['off'], real_opt(o, m, kern))
        for k in ('symq', 'norm_row', 'solmethod', 'itype', 'dqawc_limit', 'mfreeq', 'kpnt', 'eps_elph'):
            if k in o:
                R.check(getattr(b, k) == o[k], 'option', lambda: '%s is %r, given %r' % (k, getattr(b, k), o[k]))
        solve(b, qdq=False)
        R.ev()
        R.nt([m, kern, p, o])
        if o.get('mfreeq'):
            R.check(M.close(b.current, cur[0], 5e-3, 1e-6), 'option:current', lambda: '%s: %s' % (o, M.diff(b.current, cur[0])))
        else:
            compare(R, b, p, (rho[np.ix_(p, p)], cur), kern, 'option:'+kern)


_hist = {}


def history(case, p, h, R):
    kern, it = case['kern'], case['it']
    key = str((case['m'], kern, it, h))
    E, ch, T, V = source(case['m'], kern, it, None)[:4]
    if key not in _hist:
        if len(_hist) > 2000:
            _hist.clear()
        a = single(case['m'], kern, it, None)
        solve(a)
        for o in h:
            apply(a, o, False)
        solve(a)
        _hist[key] = (M.density(a), M.currents(a), bool(a.success), a.kerntype)
    rho, cur, ok, k2 = _hist[key]
    b = many(case, p, E, ch, T, V, kern, it, case['off'])
    solve(b, qdq=False)
    R.trace()
    for o in h:
        apply(b, o, True)
        R.step()
    solve(b, qdq=False)
    R.step()
    R.state([case['m'], kern, p, h])
    if not ok or not np.isfinite(cur[0]).all():
        R.count('reference_failure')
        return
    R.ev()
    compare(R, b, p, (rho[np.ix_(p, p)], cur), k2, 'history:'+k2)
