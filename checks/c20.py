"""C20: electron-phonon approaches against dense master equations."""
import itertools

import numpy as np

from lib import grid
from lib import models as M
from lib.ref import master
from checks import c05

ID = 'C20'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of a bounded model space on the real code against an independent dense-matrix reference'
NOTE = ('every subset of phonon couplings (diagonal, off-diagonal, one-sided, complex), one and two baths, wide and narrow phonon bands, both phonon integral '
        'types, default and user spectral functions, kept states, in all eight first-order implementations; reference in terms of '
        'matrices and jump operators, sharing no code; degenerate levels coupled to phonons are outside (their zero-energy rate is '
        'a cut-off convention)')
RULE = ('evaluation = one solve compared with the reference (or with the equivalent model); distinct = different (model, '
        'couplings, integral types, approach)')
ASSUMPTIONS = ['non-degenerate transitions', 'coupling operator pairs V, V^+ enter with equal weight, as in the code and its publication']

VAMP = {(0, 0): 0.05, (1, 1): -0.04, (0, 1): [0.06, 0.03], (1, 0): [-0.02, 0.05]}


def cases(tier):
    q = tier == 'quick'
    out = []
    for m in M.PH:
        for it, ip in itertools.product((0, 1, 2, 3), (0, 2)):
            for J in (None, [[1.0, 1.0]]*2, [[0.7, 3.0]]*2):
                out.append(dict(kind='ref', m=m, it=it, ip=ip, J=J))
    for m in M.WIDEPH:
        for it, ip in itertools.product((1, 2), (0, 2)):
            for J in (None, [[1.0, 1.0]]*4, [[0.7, 3.0], [1.3, 1.0], [0.4, 1.0], [1.1, 3.0]]):
                out.append(dict(kind='ref', m=m, it=it, ip=ip, J=J))
    for h01 in (0, 0.2, [0.1, 0.15]):
        for U in (0, 1.4):
            for nb in (1, 2):
                for pat in range(1, 16):
                    for ip in (0, 2):
                        for J in (None, [[0.8, 1.0]]*2) if q else (None, [[0.8, 1.0]]*2, [[0.6, 3.0]]*2):
                            m = dict(M.model('D2'), nb=nb, Tph=[0.45, 0.25][:nb], Dph=[[0.003, 9.], [0.11, 1.2]][:nb])
                            m['h'] = {'0,0': 0.15, '1,1': -0.3}
                            if h01:
                                m['h']['0,1'] = h01
                            m['U'] = {'0,1,1,0': U} if U else {}
                            v = {}
                            for b in range(nb):
                                for i, k in enumerate(VAMP):
                                    if (pat >> i & 1 if b == 0 else (15-pat) >> i & 1):
                                        v['%d,%d,%d' % (b, k[0], k[1])] = VAMP[k]
                            m['v'] = v
                            out.append(dict(kind='ref', m=m, it=2, ip=ip, J=J))
    # narrow doublets
    for d, h01 in itertools.product((1e-3, 4e-3, 2e-2, 0.06), (0, 0.3, 'd')):
        for pat in (2, 6, 7, 15):
            for ip in (0, 2):
                m = dict(M.model('D2'), nb=1, Tph=[0.45], Dph=[[2e-4, 9.]])
                if h01 == 'd':
                    m['h'] = {'0,0': 0.15, '1,1': 0.15, '0,1': [0.3*d, 0.4*d]}
                else:
                    m['h'] = {'0,0': 0.15, '1,1': 0.15+d}
                m['U'] = {'0,1,1,0': h01} if h01 == 0.3 else {}
                m['v'] = {'0,%d,%d' % k: VAMP[k] for i, k in enumerate(VAMP) if pat >> i & 1}
                for it in (1, 2):
                    out.append(dict(kind='ref', m=m, it=it, ip=ip, J=None))
    # the smallest phonon energy, in units of the temperature of the bath
    for m in M.PH:
        for eps in (1e-8, 1e-3, 0.03, 0.2, 0.6, 1.5, 4.0):
            for Tph in (1.0, 0.2):
                x = dict(M.model(m))
                x['Tph'] = [T*Tph for T in x['Tph']]
                for it, ip in ((1, 2), (2, 0)):
                    out.append(dict(kind='ref', m=x, it=it, ip=ip, J=None, eps=eps))
    # level spacings above, below and between the edges of the phonon bands
    for m in M.PH:
        for lo, hi in ((0.01, 0.2), (0.02, 0.45), (0.05, 0.8), (0.3, 0.6), (0.6, 1.1), (0.9, 4.0)):
            for ip in (0, 2):
                x = dict(M.model(m))
                x['Dph'] = [[lo, hi], [0.02, 0.5]][:x['nb']]
                out.append(dict(kind='ref', m=x, it=2, ip=ip, J=None))
    for i, m in enumerate(grid.single()):
        if 'nb' in m:
            for ip in (0, 2):
                out.append(dict(kind='ref', m=m, it=i % 4, ip=ip, J=None))
    usual = [c['m'] for c in out if c['kind'] == 'ref' and isinstance(c['m'], dict)][:: 23 if q else 7]+list(M.PH)
    for kind in grid.EXTREME:
        for i, m in enumerate(usual):
            for ip in (0, 2):
                out.append(dict(kind='ref', m=grid.extreme(m, kind), it=i % 4, ip=ip, J=None))
    for keep in range(1, 16):
        for ip in (0, 2):
            out.append(dict(kind='ref', m='D2p2', it=2, ip=ip, J=None, keep=[i for i in range(4) if keep >> i & 1]))
    for mask in range(2**6):
        out.append(dict(kind='ref', m='T3p', it=2, ip=2, J=None, coh=mask))
    for rem in itertools.combinations(range(8), 2):
        out.append(dict(kind='ref', m='T3p', it=2, ip=0, J=None, keep=[i for i in range(8) if i not in rem]))
    for m in ('L1', 'D2', 'D2a', 'T3'):
        for it in (0, 1, 2, 3):
            for how in ('none', 'zero', 'band'):
                out.append(dict(kind='plain', m=m, it=it, how=how))
    for m in ('D2p', 'D2p2', 'T3p'):
        for ip in (0, 2):
            for c in (0.5, 1.0, -0.7):
                for J in (None, [[0.8, 1.0]]*3):
                    out.append(dict(kind='two', m=m, ip=ip, c=c, J=J))
    return out


def cost(case):
    m = M.model(case['m'])
    return 4**m['n']*(3 if case.get('ip') == 0 else 1)


def build(m, kern, J, **kw):
    if J:
        m = dict(m, J=J[:m['nb']])
    return M.build(m, kern, **kw)


def run(case, R):
    kind = case['kind']
    if kind == 'ref':
        m = M.model(case['m'])
        it, keep = case['it'], case.get('keep')
        for kern in M.FIRST:
            b = build(m, kern, case['J'], itype=it, itype_ph=case['ip'], **({'eps_elph': case['eps']} if 'eps' in case else {}))
            if keep is not None:
                st = [[i for i in lst if i in keep] for lst in b.si.chargelst]
                b.si.set_statesdm(st)
                b.si_elph.set_statesdm(st)
            coh = None
            if 'coh' in case:
                pairs = [p for lst in b.si.chargelst for p in itertools.combinations(lst, 2)]
                b.si.remove_coherences([p for i, p in enumerate(pairs) if case['coh'] >> i & 1])
                coh = [p for i, p in enumerate(pairs) if not case['coh'] >> i & 1]
            M.solve(b)
            tol = 1e-5 if case['ip'] == 0 or it == 0 else 1e-8
            c05.compare(R, b, kern, keep, coh, it, case, tol)
            R.check(abs(b.current.sum()) <= 1e-8*max(1e-3, abs(b.current).max()), kern + ':phonons carry charge', str(b.current))
    elif kind == 'plain':
        m = M.model(case['m'])
        for kern in M.FIRST:
            a = M.solve(M.build(m, kern, itype=case['it']))
            p = dict(m, nb=1, Tph=[0.4], Dph=[[0.01, 9.]], v={})
            if case['how'] == 'zero':
                p['v'] = {'0,0,0': 0.0, '0,%d,%d' % (m['n']-1, 0): 0.0}
            if case['how'] == 'band' and m['n'] > 1:
                # a bath without modes at any transition energy
                p.update(v={'0,0,1': 0.1, '0,1,0': 0.2}, Dph=[[50.0, 60.0]])
            b = M.solve(M.build(p, kern, itype=case['it'], itype_ph=2))
            R.ev()
            R.nt([case, kern])
            R.check(M.close(M.density(b), M.density(a), 1e-9, 1e-13), kern + ':density', lambda: M.diff(M.density(b), M.density(a)))
            R.check(M.close(M.currents(b), M.currents(a), 1e-9, 1e-14), kern + ':currents', lambda: M.diff(M.currents(b), M.currents(a)))
    else:
        # couplings V and cV to two baths of one temperature act as sqrt(1+c^2) V to one bath
        m = M.model(case['m'])
        nb, c = m['nb'], case['c']
        one = dict(m, v={k: M.jv(M.cv(x)*np.sqrt(1+c*c)) if k[0] == '0' else x for k, x in m['v'].items()})
        two = dict(m, nb=nb+1, Tph=m['Tph']+m['Tph'][:1], Dph=m['Dph']+m['Dph'][:1], v=dict(m['v']))
        for k, x in m['v'].items():
            if k[0] == '0':
                two['v']['%d%s' % (nb, k[1:])] = M.jv(M.cv(x)*c)
        for kern in M.FIRST:
            r = [M.solve(build(x, kern, case['J'], itype=2, itype_ph=case['ip'])) for x in (one, two)]
            R.ev()
            R.nt([case, kern])
            R.check(M.close(M.density(r[1]), M.density(r[0]), 1e-8, 1e-12), kern + ':density',
                    lambda: M.diff(M.density(r[1]), M.density(r[0])))
            R.check(M.close(M.currents(r[1]), M.currents(r[0]), 1e-8, 1e-13), kern + ':currents',
                    lambda: M.diff(M.currents(r[1]), M.currents(r[0])))
