"""C28: the package without (some of) its compiled modules."""
import functools
import itertools
import json
import os
import subprocess
import sys

import numpy as np

from lib import models as M
from lib.nocompiled import RUNS

ID = 'C28'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive fault injection: every set of at most two compiled modules, and every whole package of them, is made impossible to import; the '
             'real package is imported and used in a fresh process and every answer is compared with that of the complete package')
NOTE = ('sets of up to two (thorough: three) missing modules, all of one package, all; a fixed list of 31 solve/edit/switch histories per set covering '
        'every approach, phonons with a user-defined spectral function, spin indexings, matrix-free and many-body builders')
RULE = ('evaluation = one history run with one set of missing modules and compared with the complete package; distinct = different (set, history)')
ASSUMPTIONS = ['a compiled module that is missing raises ImportError when it is imported']


def modules():
    tree = os.environ.get('VERIF_TREE') or '/repo'
    out = []
    for d, _, fs in os.walk(os.path.join(tree, 'qmeq')):
        for f in fs:
            if f.endswith('.so'):
                p = os.path.relpath(os.path.join(d, f.split('.')[0]), tree)
                out.append(p.replace(os.sep, '.'))
    return sorted(set(out))


def cases(tier):
    mods = modules()
    out = [mods]
    for p in sorted(set(x.rsplit('.', 1)[0] for x in mods)):
        out.append([x for x in mods if x.startswith(p+'.')])
    for n in (1, 2) if tier == 'quick' else (1, 2, 3):
        out += [list(x) for x in itertools.combinations(mods, n)]
    seen, res = set(), []
    for x in out:
        if str(x) not in seen:
            seen.add(str(x))
            res.append(dict(missing=x))
    return res


def cost(case):
    return len(case['missing'])


@functools.lru_cache(None)
def child(names):
    r = subprocess.run([sys.executable, '-B', '-m', 'lib.nocompiled', json.dumps(list(names))], capture_output=True, text=True, timeout=600)
    try:
        return json.loads(r.stdout)
    except ValueError:
        return {'import': 'exit status %d\n%s' % (r.returncode, r.stderr[-2000:])}


def run(case, R):
    ref = child(())
    if not R.check('import' not in ref, 'complete', lambda: ref['import'][-400:]):
        return
    got = child(tuple(case['missing']))
    what = ' '.join(x.split('.', 1)[1] for x in case['missing'])
    R.step()
    if not R.check('import' not in got, 'import', lambda: 'without %s: %s' % (what, got['import'][-400:])):
        return
    R.check(not got['loaded'], 'harness', lambda: str(got['loaded']))
    changed = False
    for (m, k, kw), a, w in zip(RUNS, got['runs'], ref['runs']):
        R.ev()
        R.nt([case['missing'], m, k, sorted(kw.items())])
        tag = '%s %s %s without %s' % (m, k, kw, what)
        if not R.check(not isinstance(w, str), 'complete', lambda: '%s: %s' % (tag, w[-400:])):
            continue
        if not R.check(not isinstance(a, str), 'error:'+k, lambda: '%s: %s' % (tag, a[-400:])):
            continue
        R.check([x[0] for x in a] == [x[0] for x in w], 'steps', tag)
        for x, y in zip(a, w):
            changed |= x[1] != y[1]
            tol = 5e-3 if kw.get('mfreeq') else 1e-6
            for nm, u, v in zip(('energies', 'density matrix', 'current', 'energy current', 'heat current'), x[2:], y[2:]):
                u, v = np.array(u), np.array(v)
                if np.isnan(v).any() and (np.isnan(u) == np.isnan(v)).all():
                    continue
                R.check(M.close(u, v, tol, tol if kw.get('mfreeq') else 1e-10), '%s:%s' % (nm, k), lambda: '%s, %s: %s' % (tag, x[0], M.diff(u, v)))
        R.outcome([x[1] for x in a])
    R.check(got['warned'] or not changed, 'announced', lambda: 'other implementations are used without %s, and nothing is said' % what)
