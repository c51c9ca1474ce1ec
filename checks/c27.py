"""C27: unconnected parts, filled or empty spectator levels, and the particle-hole mirror."""
import itertools

import numpy as np

from lib import grid
from lib import models as M

ID = 'C27'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of a bounded product of models, extensions (idle leads and baths, frozen levels, independent subsystems, every '
             'placement of their levels and leads) and approaches; the solutions of the extended and of the original models are compared')
NOTE = ('every model of the alphabet with every placement of an idle lead, an idle bath, a frozen level or a second independent dot, its particle-hole '
        'mirror, and every choice of the number types, in all approaches that fulfil the relation exactly')
RULE = 'evaluation = one extended or mirrored model solved by one approach and compared; distinct = different (model, extension, approach)'
ASSUMPTIONS = ['independent subsystems: first-order approaches only (RTD and 2vN fulfil the relation order by order)',
               'mirror: density-density interaction and phonon couplings without trace', 'Pauli and RTD need non-degenerate eigenstates']


def clean(z):
    z = complex(z)
    return z.real if z.imag == 0 else [z.real, z.imag]


def relabel(m, lv=None, ld=None, bt=None):
    """level i becomes lv[i], lead l becomes ld[l], bath b becomes bt[b]; counts are set by the caller."""
    m = M.model(m)
    lv = lv or list(range(m['n']))
    ld = ld or list(range(m['nl']))
    bt = bt or list(range(m.get('nb', 0)))
    m['h'] = {M.tk((lv[i], lv[j])): v for (i, j), v in ((M.kt(k), v) for k, v in m['h'].items())}
    m['U'] = {M.tk(tuple(lv[i] for i in M.kt(k))): v for k, v in m['U'].items()}
    m['t'] = {M.tk((ld[l], lv[i])): v for (l, i), v in ((M.kt(k), v) for k, v in m['t'].items())}
    if 'nb' in m:
        m['v'] = {M.tk((bt[b], lv[i], lv[j])): v for (b, i, j), v in ((M.kt(k), v) for k, v in m['v'].items())}
    return m


def idle_lead(m, p):
    """A lead without amplitudes at place p."""
    m = relabel(m, ld=[l+(l >= p) for l in range(M.model(m)['nl'])])
    m['nl'] += 1
    for f, x in (('mu', 1.7), ('T', max(m['T'])+0.13), ('D', [-3.0, 5.0])):
        m[f] = m[f][:p]+[x]+m[f][p:]
    return m


def idle_bath(m, p):
    m = relabel(m, bt=[b+(b >= p) for b in range(M.model(m).get('nb', 0))])
    m['nb'] = m.get('nb', 0)+1
    m.setdefault('v', {})
    for f, x in (('Tph', 2.1), ('Dph', [0.02, 3.0])):
        y = m.get(f, [])
        m[f] = y[:p]+[x]+y[p:]
    return m


def frozen(m, p, amp):
    """A further level at place p: its energy, interaction and (never used) amplitudes."""
    n = M.model(m)['n']
    m = relabel(m, lv=[i+(i >= p) for i in range(n)])
    m['n'] = n+1
    m['h'][M.tk((p, p))] = -0.17
    u = {}
    for i in range(n+1):
        if i != p:
            u[i] = 0.31+0.13*i
            a, b = min(i, p), max(i, p)
            m['U'][M.tk((a, b, b, a))] = u[i]
    if amp:
        for l in range(m['nl']):
            m['t'][M.tk((l, p))] = 0.05+0.02*l
    return m, u


def union(a, b, where, lead):
    """Levels of b at the places `where`, leads of b at the places `lead`."""
    a, b = M.model(a), M.model(b)
    n, nl, nb = a['n']+b['n'], a['nl']+b['nl'], a.get('nb', 0)+b.get('nb', 0)
    la = [i for i in range(n) if i not in where]
    da = [i for i in range(nl) if i not in lead]
    x, y = relabel(a, la, da), relabel(b, list(where), list(lead), [a.get('nb', 0)+i for i in range(b.get('nb', 0))])
    m = dict(n=n, nl=nl, h=dict(x['h'], **y['h']), U=dict(x['U'], **y['U']), t=dict(x['t'], **y['t']))
    for f in ('mu', 'T', 'D'):
        m[f] = [None]*nl
        for k, l in enumerate(da):
            m[f][l] = a[f][k]
        for k, l in enumerate(lead):
            m[f][l] = b[f][k]
    if nb:
        m.update(nb=nb, v=dict(x.get('v', {}), **y.get('v', {})), Tph=a.get('Tph', [])+b.get('Tph', []), Dph=a.get('Dph', [])+b.get('Dph', []))
    return m, la, da


def mirror(m):
    """d -> d^+, c -> c^+."""
    m = M.model(m)
    h = {}
    for k, v in m['h'].items():
        i, j = M.kt(k)
        h[k] = clean(-np.conj(complex(M.cv(v)))) if i != j else -M.cv(v)
    for k, v in m['U'].items():
        i, j, k2, l = M.kt(k)
        assert (i, j) == (l, k2)
        for s in (i, j):
            q = M.tk((s, s))
            h[q] = h.get(q, 0)-v
    m['h'] = h
    m['t'] = {k: clean(-np.conj(complex(M.cv(v)))) for k, v in m['t'].items()}
    m['mu'] = [-x for x in m['mu']]
    m['D'] = [[-x[1], -x[0]] for x in m['D']]
    if 'nb' in m:
        v = {}
        for k, x in m['v'].items():
            b, i, j = M.kt(k)
            v[M.tk((b, j, i))] = clean(-complex(M.cv(x)))
        m['v'] = v
    return m


def traceless(m):
    m = M.model(m)
    for b in range(m.get('nb', 0)):
        d = [m['v'].get(M.tk((b, i, i)), 0) for i in range(m['n'])]
        m['v'][M.tk((b, 0, 0))] = clean(complex(M.cv(d[0]))-sum(complex(M.cv(x)) for x in d))
    return m


SIMPLE = ('L1', 'L1x3', 'D2', 'D2a', 'D2x3', 'A2', 'T3')
PHM = ('D2p', 'D2p2', 'T3p')


def dens(m):
    """Density-density interaction only."""
    return all((lambda k: k[0] == k[3] and k[1] == k[2])(M.kt(k)) for k in m['U'])


def family(q):
    fam = [M.model(m) for m in SIMPLE+PHM]
    fam += grid.two()[:: 4 if q else 1] + grid.two3()[:: 4 if q else 1] + grid.three(12 if q else 4)
    if not q:
        fam += [M.model(m) for m in ('F4',)+tuple(M.WIDE)+tuple(M.WIDEPH)]
    return fam


def cases(tier):
    q = tier == 'quick'
    out = []
    for m in family(q):
        nb = m.get('nb', 0)
        for it in (0, 1, 2):
            if q and m['n'] > 2 and it == 0:
                continue
            for p in range(m['nl']+1):
                out.append(dict(k='lead', m=m, p=p, it=it))
            for p in range(nb+1):
                out.append(dict(k='bath', m=m, p=p, it=it))
            if dens(m):
                out.append(dict(k='mirror', m=traceless(m), it=it))
        if m['n'] < 4:
            for p in range(m['n']+1):
                for filled in (0, 1):
                    for ind in ('charge', 'Lin'):
                        out.append(dict(k='frozen', m=m, p=p, filled=filled, ind=ind, it=2 if m['n'] > 2 else 1))
    pairs = [('L1', 'L1x3'), ('L1', 'D2a'), ('D2', 'L1x3'), ('D2a', 'L1'), ('L1', 'D2p'), ('D2p', 'L1')]
    big = [('D2', 'D2a'), ('T3', 'L1'), ('D2p', 'D2a'), ('D2p', 'D2p2')]
    for a, b in pairs+big:
        na, nb = M.model(a)['n'], M.model(b)['n']
        la, lb = M.model(a)['nl'], M.model(b)['nl']
        lev = list(itertools.combinations(range(na+nb), nb))
        led = list(itertools.combinations(range(la+lb), lb))
        if q:
            led = led if na+nb < 4 else led[::3]
            lev = lev if na+nb < 4 else lev[::2]
        for w in lev:
            for l in led:
                for it in (1, 2) if na+nb < 4 or not q else (2,):
                    out.append(dict(k='union', a=a, b=b, w=list(w), l=list(l), it=it))
    for m in SIMPLE+PHM:
        if m != 'A2':
            out.append(dict(k='types', m=grid.real(M.model(m)) if hasattr(grid, 'real') else m))
    return out


def cost(case):
    if case['k'] == 'union':
        return 6**(M.model(case['a'])['n']+M.model(case['b'])['n'])*2
    m = M.model(case['m'])
    return 6**m['n']*m['nl']*4*(2 if case.get('it') == 0 else 1)*(6 if case['k'] == 'types' else 1)


def kerns(m, it=1, first=False):
    out = list(M.FIRST) if m['n'] < 3 else list(M.COMP)
    if not first and not m.get('nb') and it == 1 and m['n'] < 4:
        out += ['RTD'] + (['pyRTD'] if m['n'] < 2 else [])
    if not first and not m.get('nb') and it == 2 and m['n'] < 3:
        out += ['2vN']
    return out


def common(m):
    """One band for all leads (RTD)."""
    return dict(m, D=[[-15., 15.]]*m['nl'])


def solve(m, kern, it, rf=None, **kw):
    if kern in M.VN2:
        kw['kpnt'] = 96
    elif kern not in M.RTD:
        kw['itype'] = it
    if 'nb' in m and m['nb'] > 0:
        kw['itype_ph'] = 2
    b = M.build(m, kern, **kw)
    if rf is not None:
        b.remove_fock_states(rf)
    b.make_kern_copy = True
    M.solve(b, **(dict(niter=2) if kern in M.VN2 else {}))
    return b


def good(R, b, kern, m):
    """unique stationary state, no degenerate states where these matter."""
    if kern in M.VN2:
        x = M.build(m, 'Redfield', itype=2)
        x.make_kern_copy = True
        M.solve(x)
        gap = M.kern_gap(x)
    else:
        gap = M.kern_gap(b)
    if not b.success or gap < 1e-9:
        R.count('no_unique_stationary_state')
        return False
    if kern.endswith('Pauli') or kern in M.RTD+M.VN2:
        E, ch = M.arr(b.Ea).real, M.charges(b)
        if any(ch[i] == ch[j] and abs(E[i]-E[j]) < 1e-6 for i in range(len(E)) for j in range(i)):
            R.count('degenerate_skipped')
            return False
    return True


def cmp(R, tag, case, kern, got, want, g, it, names=('current', 'energy current', 'heat current')):
    tol = 2e-5 if it == 0 else 2e-6 if kern in M.VN2 else 1e-7
    if kern in M.RTD:
        tol = 1e-6
    for nm, u, v in zip(names, got, want):
        if np.isnan(v).all() and np.isnan(u).all():
            continue
        R.check(M.close(u, v, tl(tol, nm, kern), tl(tol, nm, kern)*1e-2*g), '%s:%s:%s' % (tag, kern, nm), lambda: '%s %s' % (short(case), M.diff(u, v)))


def tl(tol, nm, kern):
    return tol*10 if kern in M.VN2 and nm != 'current' else tol


def short(case):
    return {k: v for k, v in case.items() if k != 'm' or isinstance(v, str)}


def gam(b):
    return 2*np.pi*np.abs(b.Tba).max()**2


def run(case, R):
    {'lead': run_lead, 'bath': run_bath, 'frozen': run_frozen, 'union': run_union, 'mirror': run_mirror, 'types': run_types}[case['k']](case, R)


def run_lead(case, R):
    m, p, it = case['m'], case['p'], case['it']
    for kern in kerns(m, it):
        m0 = common(m) if kern in M.RTD else m
        m1 = idle_lead(m0, p)
        if kern in M.RTD:
            m1 = common(m1)
        if kern in M.VN2:
            m1['D'][p] = m1['D'][p-1 if p else 1]      # one energy grid is used for all leads
        a, b = solve(m0, kern, it), solve(m1, kern, it)
        if not good(R, a, kern, m):
            continue
        R.ev()
        R.nt((repr(m), p, it, kern))
        R.check(bool(b.success), 'lead:success:'+kern, str(short(case)))
        x, y = M.currents(b), M.currents(a)
        keep = [l for l in range(m1['nl']) if l != p]
        cmp(R, 'lead', case, kern, x[:, keep], y, gam(a), it)
        z = np.nan_to_num(x[:, p])
        R.check(bool(np.all(np.abs(z) < 1e-16)), 'lead:idle:'+kern, lambda: '%s: idle lead carries %s' % (short(case), z))
        R.check(M.close(np.abs(M.density(b)), np.abs(M.density(a)), 1e-5 if it == 0 or kern in M.RTD else 1e-7, 1e-8), 'lead:density:'+kern, lambda: str(short(case)))
        R.outcome(np.round(x[0], 10).tolist())


def run_bath(case, R):
    m, p, it = case['m'], case['p'], case['it']
    m1 = idle_bath(m, p)
    for kern in kerns(m, it, first=True):
        a, b = solve(m, kern, it), solve(m1, kern, it)
        if not good(R, a, kern, m):
            continue
        R.ev()
        R.nt((repr(m), p, it, kern))
        R.check(bool(b.success), 'bath:success:'+kern, str(short(case)))
        cmp(R, 'bath', case, kern, M.currents(b), M.currents(a), gam(a), it)
        R.check(M.close(np.abs(M.density(b)), np.abs(M.density(a)), 1e-5 if it == 0 else 1e-7, 1e-8), 'bath:density:'+kern, lambda: str(short(case)))
        if 'nb' not in m:
            c = solve(dict(m, nb=0, v={}, Tph=[], Dph=[]), kern, it, tlst_ph={}, dband_ph={})
            cmp(R, 'nobath', case, kern, M.currents(c), M.currents(a), gam(a), it)
            R.ev()


def run_frozen(case, R):
    m, p, it = case['m'], case['p'], case['it']
    n = m['n']
    m1, u = frozen(m, p, case['p'] % 2)
    gone = [s for s in range(2**(n+1)) if (s >> (n-p)) & 1 != case['filled']]
    m0 = M.model(m)
    if case['filled']:
        for i in range(n):
            k = M.tk((i, i))
            m0['h'][k] = m0['h'].get(k, 0)+u[i+(i >= p)]
    for kern in kerns(m, it):
        if case['ind'] == 'Lin' and kern in M.RTD+M.VN2:
            continue
        x0, x1 = (common(m0), common(m1)) if kern in M.RTD else (m0, m1)
        a, b = solve(x0, kern, it), solve(x1, kern, it, rf=gone, indexing=case['ind'])
        if not good(R, a, kern, m):
            continue
        R.ev()
        R.nt((repr(m), p, case['filled'], case['ind'], kern))
        R.check(bool(b.success), 'frozen:success:'+kern, str(short(case)))
        E, E0 = np.sort(M.arr(b.Ea).real), np.sort(M.arr(a.Ea).real)+(m1['h'][M.tk((p, p))] if case['filled'] else 0)
        R.check(M.close(E, E0, 1e-9, 1e-10), 'frozen:energies:'+kern, lambda: '%s %s' % (short(case), M.diff(E, E0)))
        # the energy current of RTD uses all amplitudes, also the ones between removed states
        k = 1 if kern in M.RTD and p % 2 else 3
        cmp(R, 'frozen', case, kern, M.currents(b)[:k], M.currents(a)[:k], gam(a), it)
        q, q0 = np.sort(M.density(b).diagonal().real), np.sort(M.density(a).diagonal().real)
        R.check(M.close(q, q0, 1e-6 if it else 1e-5, 1e-9), 'frozen:populations:'+kern, lambda: '%s %s' % (short(case), M.diff(q, q0)))
        R.outcome(np.round(M.currents(b)[0], 10).tolist())


def run_union(case, R):
    it = case['it']
    A, B = M.model(case['a']), M.model(case['b'])
    m, la, da = union(A, B, case['w'], case['l'])
    free = all(np.abs(M.density(solve(z, 'Redfield', it))-np.diag(M.density(solve(z, 'Redfield', it)).diagonal())).max() < 1e-12 for z in (A, B))
    for kern in kerns(m, it, first=True):
        if kern in ('1vN', 'py1vN') and not free:       # coherences of one part enter the energies of the other one
            continue
        a, b, c = solve(A, kern, it), solve(B, kern, it), solve(m, kern, it)
        if not (good(R, a, kern, m) and good(R, b, kern, m)) or not good(R, c, kern, m):
            continue
        R.ev()
        R.nt((case['a'], case['b'], str(case['w']), str(case['l']), it, kern))
        x, g = M.currents(c), gam(a)+gam(b)
        cmp(R, 'union first', case, kern, x[:, da], M.currents(a), g, it)
        cmp(R, 'union second', case, kern, x[:, case['l']], M.currents(b), g, it)
        E = np.sort(M.arr(c.Ea).real)
        E0 = np.sort(np.add.outer(M.arr(a.Ea).real, M.arr(b.Ea).real).ravel())
        R.check(M.close(E, E0, 1e-9, 1e-10), 'union:energies:'+kern, lambda: M.diff(E, E0))
        # the state is the product: probabilities of all (energy, charge)
        pa, pb, pc = (M.density(z).diagonal().real for z in (a, b, c))
        q = sorted(zip(np.add.outer(M.arr(a.Ea).real, M.arr(b.Ea).real).ravel().round(8), np.outer(pa, pb).ravel()))
        w = sorted(zip(M.arr(c.Ea).real.round(8), pc))
        if len(set(x[0] for x in q)) == len(q):
            y0, y1 = np.array([z[1] for z in q]), np.array([z[1] for z in w])
            R.check(M.close(y1, y0, 1e-6, 1e-9), 'union:product:'+kern, lambda: '%s %s' % (short(case), M.diff(y1, y0)))
        R.outcome(np.round(x[0], 10).tolist())


def run_mirror(case, R):
    it, m = case['it'], case['m']
    for kern in kerns(m, it):
        m0 = common(m) if kern in M.RTD else m
        m1 = mirror(m0)
        a, b = solve(m0, kern, it), solve(m1, kern, it)
        if not good(R, a, kern, m):
            continue
        R.ev()
        R.nt((repr(m), it, kern))
        R.check(bool(b.success), 'mirror:success:'+kern, str(short(case)))
        x, y = M.currents(b), M.currents(a)
        y = y*np.array([-1, 1, 1])[:, None]
        cmp(R, 'mirror', case, kern, x, y, gam(a), it)
        d, d0 = np.sort(M.density(b).diagonal().real), np.sort(M.density(a).diagonal().real)
        R.check(M.close(d, d0, 1e-5, 1e-8), 'mirror:populations:'+kern, lambda: M.diff(d, d0))
        R.outcome(np.round(x[0], 10).tolist())


def run_types(case, R):
    """Real models: float and complex matrices, before and after edits."""
    m = case['m']
    for kern in kerns(m, 1) + kerns(m, 2):
        x = common(m) if kern in M.RTD else m
        ref = None
        for tq, tl_ in itertools.product((complex, float, np.float64, np.complex128), (complex, float)):
            b = solve(x, kern, 1, mtype_qd=tq, mtype_leads=tl_)
            got = [M.currents(b)]
            b.change(hsingle={(0, 0): 0.21}, tleads={(0, 0): 0.07})
            b.add(mulst={0: 0.05})
            M.solve(b, **(dict(niter=2) if kern in M.VN2 else {}))
            got.append(M.currents(b))
            if ref is None:
                ref = got
            R.ev()
            R.nt((repr(m), kern, tq.__name__, tl_.__name__))
            for i in range(2):
                u, v = np.nan_to_num(got[i]), np.nan_to_num(ref[i])
                R.check(M.close(u, v, 1e-8, 1e-13), 'types:'+kern, lambda: '%s %s: %s' % (tq, tl_, M.diff(u, v)))
