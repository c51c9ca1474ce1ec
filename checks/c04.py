"""C04: state and density-matrix indexing against sets built from the definition."""
import itertools
import math

import numpy as np

from lib import models as M

ID = 'C04'
LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state exploration of all removal/selection histories of the real indexing classes against a set model'
NOTE = ('every number of levels up to 8 (thorough 10), every indexing and class, every set of removed Fock states up to 3 levels '
        '(thorough 4), every subset of kept states and of dropped coherences up to 3 levels, every history of removals and '
        'selections up to depth 3 for 2 levels (4 thorough)')
RULE = ('state = (levels, indexing, class, removed Fock states, kept states in order, dropped coherences); every operation '
        'sequence up to the bound is replayed on the real classes and all maps are compared with their definition')
ASSUMPTIONS = ["with 'ssq' indexing whole spin multiplets are kept, removal of Fock states is documented as unsupported"]

CLS = ['StateIndexingPauli', 'StateIndexingDM', 'StateIndexingDMc']


def inds(n):
    return ['Lin', 'charge'] + (['sz', 'ssq'] if n % 2 == 0 else [])


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in range(1, 11):
        for ind in inds(n):
            for cls in ['StateIndexing'] + CLS:
                if n > 8 and cls != 'StateIndexing':
                    continue
                out.append(dict(kind='full', n=n, ind=ind, cls=cls))
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        for ind in inds(n):
            if ind == 'ssq':
                continue
            for cls in ['StateIndexing'] + CLS:
                if n < 4:
                    out.append(dict(kind='fock', n=n, ind=ind, cls=cls))
                else:
                    for pre in range(16):
                        out.append(dict(kind='fock', n=n, ind=ind, cls=cls, pre=pre))
    if q:
        for ind in ('Lin', 'charge', 'sz'):
            for cls in CLS:
                out.append(dict(kind='fock', n=4, ind=ind, cls=cls, size=4))
    for n in (1, 2, 3, 4):
        for ind in inds(n):
            for cls in CLS:
                if n == 4 and ind != 'ssq':
                    if not q:
                        for pre in range(16):
                            out.append(dict(kind='kept', n=n, ind=ind, cls=cls, pre=pre))
                    continue
                out.append(dict(kind='kept', n=n, ind=ind, cls=cls))
    for n in (2, 3, 4):
        for ind in inds(n):
            for cls in CLS[1:]:
                out.append(dict(kind='coh', n=n, ind=ind, cls=cls))
    for ind in ('Lin', 'charge', 'sz'):
        for cls in CLS[1:]:
            for first in range(len(hist_ops(2))):
                out.append(dict(kind='hist', n=2, ind=ind, cls=cls, first=first, depth=4))
    return out


def cost(case):
    return {'full': 0, 'fock': 1, 'kept': 2, 'coh': 3, 'hist': 4}[case['kind']]*10 + case['n']


# -- reference ---------------------------------------------------------------------------------

def occupations(n):
    return list(itertools.product((0, 1), repeat=n))


def sz_of(s):
    h = len(s)//2
    return sum(s[:h]) - sum(s[h:])


def multiplicity(n, charge, S2):
    """number of multiplets with twice the spin S2."""
    h = n//2

    def w(sz):
        if (charge+sz) % 2:
            return 0
        u, d = (charge+sz)//2, (charge-sz)//2
        return math.comb(h, u)*math.comb(h, d) if 0 <= u <= h and 0 <= d <= h else 0
    return w(S2) - w(S2+2)


def new(case):
    from qmeq import indexing
    return getattr(indexing, case['cls'])(case['n'], case['ind'])


def check_states(R, si, n, ind, removed, tag):
    """bijection and grouping."""
    keep = [s for i, s in enumerate(occupations(n)) if i not in removed]
    N = si.nmany
    ok = R.check(N == len(keep), tag + ':nmany', '%s states, expected %d' % (N, len(keep)))
    if not ok:
        return False
    st = [tuple(int(x) for x in si.get_state(i)) for i in range(N)]
    ok &= R.check(sorted(st) == sorted(keep), tag + ':states', 'get_state is not a bijection: %s' % st)
    for i, s in enumerate(st):
        ok &= R.check(si.get_ind(list(s)) == i, tag + ':inverse', 'get_ind(get_state(%d)) = %s' % (i, si.get_ind(list(s))))
        ok &= R.check(si.get_state(i, strq=True) == ''.join(map(str, s)), tag + ':string')
    for i, s in enumerate(occupations(n)):
        ok &= R.check(tuple(si.get_state(i, linq=True)) == s and si.get_ind(list(s), linq=True) == i, tag + ':lin')
        if i in removed:
            ok &= R.check(si.get_ind(list(s)) is None, tag + ':removed', 'a removed state has an index')
    ok &= R.check(len(si.chargelst) == n+1 and si.ncharge == n+1, tag + ':ncharge')
    by = {}
    for i, s in enumerate(st):
        by.setdefault(sum(s), []).append(i)
    for c in range(n+1):
        got = list(si.get_lst(charge=c))
        ok &= R.check(sorted(got) == by.get(c, []) and got == list(si.chargelst[c]), tag + ':charge list',
                      'charge %d: %s, expected %s' % (c, got, by.get(c, [])))
        if ind != 'Lin':
            ok &= R.check(got == by.get(c, []) and (not got or got[-1]-got[0] == len(got)-1), tag + ':contiguous')
    if ind == 'sz':
        for c in range(n+1):
            seen = []
            m = min(c, n-c)
            for sz in range(-m, m+1, 2):
                got = list(si.get_lst(charge=c, sz=sz))
                want = [i for i in by.get(c, []) if sz_of(st[i]) == sz]
                ok &= R.check(got == want, tag + ':sz list', 'charge %d sz %d: %s, expected %s' % (c, sz, got, want))
                seen += got
            ok &= R.check(sorted(seen) == by.get(c, []), tag + ':sz cover')
    if ind == 'ssq':
        allst = []
        for c in range(n+1):
            m = min(c, n-c)
            for sz in range(-m, m+1, 2):
                lst = list(si.get_lst(charge=c, sz=sz))
                want = [i for i in by.get(c, []) if sz_of(st[i]) == sz]
                ok &= R.check(lst == want, tag + ':sz list')
                sub = []
                for S2 in range(abs(sz), m+1, 2):
                    got = list(si.get_lst(charge=c, sz=sz, ssq=S2))
                    ok &= R.check(len(got) == multiplicity(n, c, S2), tag + ':multiplicity',
                                  'charge %d sz %d S2 %d: %d states, expected %d' % (c, sz, S2, len(got), multiplicity(n, c, S2)))
                    for a, j in enumerate(got):
                        ok &= R.check(si.ind_qn[j] == (c, sz, S2, a) and si.qn_ind[(c, sz, S2, a)] == j, tag + ':quantum numbers')
                    sub += got
                ok &= R.check(sorted(sub) == sorted(lst), tag + ':ssq cover', '%s %s' % (sub, lst))
                allst += sub
        ok &= R.check(sorted(allst) == list(range(N)), tag + ':ssq all')
    elif ind == 'sz':
        for j in range(N):
            qn = si.ind_qn[j]
            ok &= R.check(qn[:2] == (sum(st[j]), sz_of(st[j])) and si.qn_ind[qn] == j, tag + ':quantum numbers')
    else:
        for j in range(N):
            qn = si.ind_qn[j]
            ok &= R.check(qn[0] == sum(st[j]) and si.qn_ind[qn] == j, tag + ':quantum numbers')
    return ok


def groups(si, n, ind, kept):
    """Populations and coherences (ordered pairs) identified with each other."""
    if ind == 'ssq':
        pop, coh = {}, {}
        for c, lst in enumerate(kept):
            for b in lst:
                _, sz, S, a = si.ind_qn[b]
                pop.setdefault((c, S, a), []).append(b)
                for bp in lst:
                    if bp != b:
                        _, szp, Sp, ap = si.ind_qn[bp]
                        if (sz, S) == (szp, Sp):
                            coh.setdefault((c, S, a, ap), []).append((c, b, bp))
        return list(pop.values()), list(coh.values())
    st = lambda b: si.get_state(b)
    pop = [[b] for lst in kept for b in lst]
    coh = [[(c, b, bp)] for c, lst in enumerate(kept) for b in lst for bp in lst if b != bp and
           (ind != 'sz' or sz_of(st(b)) == sz_of(st(bp)))]
    return pop, coh


def check_dm(R, si, case, kept, dropped, tag):
    """kept: list per charge; dropped: set of frozenset pairs."""
    n, ind, cls = case['n'], case['ind'], case['cls']
    ok = R.check([list(x) for x in si.statesdm[:n+1]] == [list(x) for x in kept] and not any(map(len, si.statesdm[n+1:])),
                 tag + ':statesdm', '%s, expected %s' % (si.statesdm, kept))
    pop, coh = groups(si, n, ind, kept)
    coh = [g for g in coh if frozenset(g[0][1:]) not in dropped]
    ch = {b: c for c, lst in enumerate(kept) for b in lst}
    ok &= R.check(si.npauli == len(pop) and si.npauli_ == len(ch), tag + ':npauli', '%s, expected %d' % (si.npauli, len(pop)))
    ids = set()
    for g in pop:
        v = {int(si.get_ind_dm0(b, b, ch[b])) for b in g}
        t = [bool(si.get_ind_dm0(b, b, ch[b], maptype=2)) for b in g]
        ok &= R.check(len(v) == 1 and sum(t) == 1, tag + ':population', '%s -> %s %s' % (g, v, t))
        ids |= v
    ok &= R.check(ids == set(range(len(pop))), tag + ':population ids', str(ids))
    raw = {int(si.get_ind_dm0(b, b, c, maptype=0)) for b, c in ch.items()}
    ok &= R.check(len(raw) == len(ch), tag + ':raw')
    if cls == 'StateIndexingPauli':
        return ok
    npop = len(pop)
    cid = {}
    raw0 = {}
    for c, lst in enumerate(kept):
        for b, bp in itertools.product(lst, lst):
            raw0[(b, bp)] = int(si.get_ind_dm0(b, bp, c, maptype=0))
    ok &= R.check(sorted(raw0.values()) == list(range(len(raw0))) and si.ndm0_ == len(raw0), tag + ':raw dm0')
    want = set()
    for g in coh:
        v = {int(si.get_ind_dm0(b, bp, c)) for c, b, bp in g}
        ok &= R.check(len(v) == 1, tag + ':coherence', '%s -> %s' % (g, v))
        for c, b, bp in g:
            cid[(b, bp)] = min(v)
            want.add((b, bp))
    for c, lst in enumerate(kept):
        for b, bp in itertools.permutations(lst, 2):
            if (b, bp) not in want:
                ok &= R.check(int(si.get_ind_dm0(b, bp, c)) == -1, tag + ':dropped', '(%d,%d) has an index' % (b, bp))
    ncoh = len(coh)//2 if cls == 'StateIndexingDM' else len(coh)
    ok &= R.check(set(cid.values()) == set(range(npop, npop+ncoh)), tag + ':coherence ids', str(sorted(cid.items())))
    ok &= R.check(si.ndm0 == npop+ncoh and si.ndm0r == npop+2*ncoh, tag + ':ndm0', '%s %s' % (si.ndm0, si.ndm0r))
    nbool = {}
    for (b, bp), v in cid.items():
        c = ch[b]
        if cls == 'StateIndexingDM':
            ok &= R.check(cid.get((bp, b)) == v, tag + ':conjugate', '(%d,%d)' % (b, bp))
            ok &= R.check(bool(si.get_ind_dm0(b, bp, c, maptype=3)) != bool(si.get_ind_dm0(bp, b, c, maptype=3)),
                          tag + ':conjugation flag')
        else:
            ok &= R.check(cid.get((bp, b)) != v, tag + ':conjugate', '(%d,%d)' % (b, bp))
        nbool[v] = nbool.get(v, 0) + bool(si.get_ind_dm0(b, bp, c, maptype=2))
    ok &= R.check(all(x == 1 for x in nbool.values()), tag + ':representative', str(nbool))
    for k, (b, bp) in si.inddm0.items():
        ok &= R.check(int(si.get_ind_dm0(b, bp, ch[b])) == k, tag + ':inddm0')
    ok &= R.check(len(si.inddm0) == npop+ncoh, tag + ':inddm0 size')
    d1 = [int(si.get_ind_dm1(c, b, q)) for q in range(n) for b in kept[q] for c in kept[q+1]]
    ok &= R.check(sorted(d1) == list(range(len(d1))) and si.ndm1 == len(d1), tag + ':dm1', str(d1)[:200])
    return ok


def hist_ops(n):
    """remove a Fock state, remove two, keep a window, keep in reversed order, drop a pair."""
    ops = [('fock', [i]) for i in range(2**n)] + [('fock', [1, 2]), ('fock', [0, 3])]
    ops += [('drop', k) for k in range(1, 2**n)] + [('rev',), ('all',), ('coh', 0), ('coh', 1)]
    return ops


def apply(R, si, case, mod, op, tag):
    """mod: dict(removed, kept, dropped) of the reference."""
    n, ind, cls = case['n'], case['ind'], case['cls']
    if op[0] == 'fock':
        si.remove_fock_states(list(op[1]))
        mod['removed'] |= set(op[1])
        mod['kept'], mod['dropped'] = None, set()
    elif op[0] in ('drop', 'rev', 'all'):
        lst = [list(x) for x in si.chargelst]
        if op[0] == 'drop':
            lst = [[b for b in x if b != op[1] % max(1, si.nmany)] for x in lst]
        if op[0] == 'rev':
            lst = [x[::-1] for x in lst]
        si.set_statesdm(lst)
        mod['kept'], mod['dropped'] = lst, set()
    elif op[0] == 'coh':
        pairs = [p for x in si.statesdm for p in itertools.combinations(x, 2)][op[1]:op[1]+1]
        si.remove_coherences([p[::-1] for p in pairs])
        mod['dropped'] |= {frozenset(p) for p in pairs}


def run(case, R):
    n, ind, cls, kind = case['n'], case['ind'], case['cls'], case['kind']
    dm = cls != 'StateIndexing'
    R.state([n, ind, cls, 'initial'])
    if kind == 'full':
        si = new(case)
        R.step()
        if ind == 'Lin':
            R.check([si.get_ind(list(s)) for s in occupations(n)] == list(range(2**n)), 'lin order')
        if check_states(R, si, n, ind, set(), 'full') and dm and n < 9:
            check_dm(R, si, case, si.chargelst, set(), 'full')
        R.trace()
    elif kind == 'fock':
        N = 2**n
        sizes = range(0, case.get('size', N)+1)
        if 'pre' in case:
            sets = [tuple(i for i in range(N) if (x*16+case['pre']) >> i & 1) for x in range(2**(N-4))]
        else:
            sets = [s for r in sizes for s in itertools.combinations(range(N), r)]
        for s in sets:
            splits = [(s, ())]
            if n <= 2:
                splits = [(tuple(x for x in s if k >> x & 1), tuple(x for x in s if not k >> x & 1)) for k in range(2**N)]
                splits = sorted(set(splits))
            elif len(s) > 1:
                splits.append((s[-1:], s[:-1]))
                splits.append((s, s[:1]))
            for a, b in splits:
                si = new(case)
                si.remove_fock_states(list(a))
                if b:
                    si.remove_fock_states(list(b))
                R.step(2 if b else 1)
                R.state([n, ind, cls, sorted(s)])
                if check_states(R, si, n, ind, set(s), 'fock') and dm and (n < 4 or len(s) % 4 == 2):
                    check_dm(R, si, case, si.chargelst, set(), 'fock')
                R.trace()
    elif kind == 'kept':
        si = new(case)
        if ind == 'ssq':
            g = groups(si, n, ind, si.chargelst)[0]
        else:
            g = [[b] for b in range(2**n)]
        if 'pre' in case:
            masks = [x*16+case['pre'] for x in range(2**(len(g)-4))]
        else:
            masks = range(2**len(g))
        for mask in masks:
            keep = {b for i, x in enumerate(g) if mask >> i & 1 for b in x}
            lst = [[b for b in x if b in keep] for x in si.chargelst]
            variants = [lst]
            if n <= 2 and ind != 'ssq':
                variants = [list(v) for v in itertools.product(*[list(itertools.permutations(x)) for x in lst])]
            elif ind != 'ssq':
                variants.append([x[::-1] for x in lst])
            for v in variants:
                v = [list(x) for x in v]
                si.set_statesdm(v)
                R.step()
                R.state([n, ind, cls, v])
                check_dm(R, si, case, v, set(), 'kept')
                R.trace()
    elif kind == 'coh':
        si = new(case)
        if ind == 'ssq':
            # coherences are identified along a multiplet, so that they are dropped together
            g = {}
            for x in groups(si, n, ind, si.chargelst)[1]:
                g.setdefault(frozenset(frozenset(y[1:]) for y in x), [tuple(y[1:]) for y in x])
            g = list(g.values())
        else:
            g = [[p] for x in si.chargelst for p in itertools.combinations(x, 2)]
        if len(g) > 10:
            masks = [0, 2**len(g)-1] + [1 << i for i in range(len(g))] + \
                    [1 << i | 1 << j for i, j in itertools.combinations(range(len(g)), 2)]
        else:
            masks = range(2**len(g))
        for mask in masks:
            si = new(case)
            pairs = [p for i, x in enumerate(g) if mask >> i & 1 for p in x]
            si.remove_coherences(pairs)
            R.step()
            R.state([n, ind, cls, 'coh', pairs])
            check_dm(R, si, case, si.chargelst, {frozenset(p) for p in pairs}, 'coh')
            R.trace()
    else:
        ops = hist_ops(n)
        for rest in itertools.product(range(len(ops)), repeat=case['depth']-1):
            si = new(case)
            mod = dict(removed=set(), kept=None, dropped=set())
            seq = [ops[case['first']]] + [ops[k] for k in rest]
            bad = False
            for op in seq:
                if op[0] == 'fock' and len(mod['removed'] | set(op[1])) >= 2**n:
                    bad = True
                    break
                apply(R, si, case, mod, op, 'hist')
                R.step()
                R.state([n, ind, cls, sorted(mod['removed']), mod['kept'], sorted(map(sorted, mod['dropped']))])
            if bad:
                continue
            tag = 'hist'
            if check_states(R, si, n, ind, mod['removed'], tag):
                check_dm(R, si, case, mod['kept'] or si.chargelst, mod['dropped'], tag)
            R.trace()
