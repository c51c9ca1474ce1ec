"""Enumerated model alphabets (complete products of the listed choices)."""
import itertools

from lib import models as M

BIAS2 = [([0.45, -0.35], [0.4, 0.55]), ([-0.2, -0.2], [0.6, 0.3]), ([0.1, 0.1], [0.45, 0.45])]
BAND2 = [[[-14., 14.], [-14., 14.]], [[-0.93, 1.33], [-6.1, 0.72]]]


def one(q=True):
    """one level, one to three leads."""
    out = []
    for e, nl in itertools.product((-0.35, 0.02, 0.8), (1, 2, 3)):
        for mu, T in (([0.25, -0.4, 0.1], [0.35, 0.5, 0.42]), ([0.1, 0.1, 0.1], [0.4, 0.4, 0.4]), ([-1.5, 1.2, 0.0], [0.1, 0.9, 0.05])):
            for D in ([[-12., 12.]]*3, [[-12., 12.], [-0.5, 9.], [-7., 0.4]], [[-0.3, 0.5], [-9., 9.], [-1., 2.]]):
                out.append(dict(n=1, h={'0,0': e}, U={}, nl=nl,
                                t={k: v for k, v in {'0,0': 0.11, '1,0': [0.06, 0.05], '2,0': [0.0, -0.09]}.items() if int(k[0]) < nl},
                                mu=mu[:nl], T=T[:nl], D=D[:nl]))
    return out


def two(q=True, phases=True):
    """two levels, two leads: hopping, detuning, interaction, coupling pattern, bias, band."""
    out = []
    pat = [{0}, {1}, {0, 1}]
    amp = {(0, 0): 0.11, (0, 1): [0.03, 0.07], (1, 0): [0.05, -0.02], (1, 1): 0.09}
    if not phases:
        amp = {(0, 0): 0.11, (0, 1): 0.07, (1, 0): -0.05, (1, 1): 0.09}
    for h01 in (0, 0.2, [0.15, 0.1]) if phases else (0, 0.2, -0.07):
        for e in ((0.15, -0.3), (0.1, 0.1)):
            for U in (0, 1.4):
                for p0, p1 in itertools.product(pat, repeat=2):
                    for mu, T in BIAS2:
                        for D in BAND2:
                            h = {'0,0': e[0], '1,1': e[1]}
                            if h01:
                                h['0,1'] = h01
                            t = {'0,%d' % i: amp[(0, i)] for i in p0}
                            t.update({'1,%d' % i: amp[(1, i)] for i in p1})
                            out.append(dict(n=2, h=h, U={'0,1,1,0': U} if U else {}, nl=2, t=t, mu=mu, T=T, D=D))
    return out


def two3():
    """two levels with one and three leads."""
    out = []
    for nl in (1, 3):
        for h01 in (0.1, [0.02, 0.09]):
            for U in (0, 1.1):
                for D in ([[-13., 13.]]*3, [[-5., 1.], [-0.6, 8.], [-9., 9.]]):
                    m = M.model('D2x3')
                    m['h']['0,1'] = h01
                    m['U'] = {'0,1,1,0': U} if U else {}
                    m['D'] = D[:nl]
                    m['nl'] = nl
                    m['t'] = {'0,0': 0.11, '0,1': [0.04, 0.05]}
                    if nl == 3:
                        m['t'].update({'1,1': [0.09, -0.02], '2,0': [0.02, 0.05], '2,1': 0.08})
                    m['mu'], m['T'] = m['mu'][:nl], m['T'][:nl]
                    out.append(m)
    return out


def three(step=1):
    """three levels: every subset of hoppings and interactions of T3, three coupling patterns."""
    out = []
    base = M.model('T3')
    opt = [('h', '0,1'), ('h', '1,2'), ('h', '0,2'), ('U', '0,1,1,0'), ('U', '1,2,2,1'), ('U', '0,2,2,0')]
    pats = [{'0,0': 0.1, '0,1': [0.02, 0.03], '1,2': [0.08, 0.03], '1,1': 0.04},
            {'0,0': 0.1, '1,2': 0.08},
            {'0,0': 0.1, '0,1': 0.05, '0,2': [0.03, 0.06], '1,0': [0.0, 0.07], '1,1': -0.06, '1,2': 0.02}]
    for r in range(len(opt)+1):
        for rem in itertools.combinations(opt, r):
            for t in pats:
                m = M.model('T3')
                for f, k in rem:
                    del m[f][k]
                m['t'] = t
                out.append(m)
    return out[::step]


def real(m):
    """the model with all amplitudes replaced by real ones."""
    m = M.model(m)
    for f in ('h', 'U', 't', 'v'):
        if f in m:
            for k, v in m[f].items():
                if isinstance(v, list):
                    z = complex(*v)
                    m[f][k] = abs(z)*(1 if z.real >= 0 else -1)
    return m


# factors of temperatures, amplitudes, couplings and chemical potentials
EXTREME = {'cold': dict(T=0.03), 'colder': dict(T=1e-3), 'hot': dict(T=40), 'weak': dict(t=0.02), 'weaker': dict(t=1e-3), 'far': dict(mu=12),
           'far cold': dict(mu=12, T=0.02), 'cold bath': dict(Tph=0.02), 'hot bath': dict(Tph=30), 'weak bath': dict(v=0.01), 'strong bath': dict(v=5)}
ELECTRONS = [k for k in EXTREME if 'bath' not in k]


def extreme(m, kind):
    """the model m far away from the usual parameters."""
    m = M.model(m)
    x = EXTREME[kind]
    for f in ('T', 'mu', 'Tph'):
        if f in m:
            m[f] = [v*x.get(f, 1) for v in m[f]]
    for f in ('t', 'v'):
        if f in m:
            y = x.get(f, 1)
            m[f] = {k: [z*y for z in v] if isinstance(v, (list, tuple)) else v*y for k, v in m[f].items()}
    return m


def narrow(q=True):
    """levels that are closer to each other than any other scale, by detuning or by hopping."""
    out = []
    amp = {'0,0': 0.11, '0,1': [0.03, 0.07], '1,0': [0.05, -0.02], '1,1': 0.09}
    for d in (1e-5, 1e-4, 1e-3, 1e-2):
        for how in ('detuning', 'hopping', 'both', 'third'):
            for U in (0, 1.4):
                for drop in ((), ('0,1', '1,0'), ('1,1',), ('0,1',)):
                    for mu, T in BIAS2[:1 if q else 2]:
                        m = dict(n=2, h={'0,0': 0.1, '1,1': 0.1}, U={'0,1,1,0': U} if U else {}, nl=2,
                                 t={k: v for k, v in amp.items() if k not in drop}, mu=mu, T=T, D=BAND2[0])
                        if how != 'hopping':
                            m['h']['1,1'] += d
                        if how in ('hopping', 'both'):
                            m['h']['0,1'] = [0.3*d, 0.4*d]
                        if how == 'third':
                            m['n'] = 3
                            m['h']['2,2'] = -0.4
                            m['h']['0,2'] = 0.15
                            m['t']['1,2'] = 0.07
                        out.append(m)
    return out


def kept(m, ls):
    """the model m with only the leads ls."""
    m = M.model(m)
    m['t'] = {'%d,%s' % (ls.index(int(k.split(',')[0])), k.split(',')[1]): v for k, v in m['t'].items() if int(k.split(',')[0]) in ls}
    for f in ('mu', 'T', 'D'):
        m[f] = [m[f][l] for l in ls]
    m['nl'] = len(ls)
    return m


def single():
    """a dot with one lead only (with phonon baths too): the stationary state is held by that lead alone."""
    return [kept(m, [l]) for m in ('L1', 'D2', 'D2a', 'D2d', 'A2', 'D2p', 'D2p2') for l in range(M.model(m)['nl'])]
