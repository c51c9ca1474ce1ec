"""Imports the package while the compiled modules named on the command line cannot be imported, runs a fixed list of solves, prints JSON.

python -m lib.nocompiled '["qmeq.approach.base.c_pauli", ...]'"""
import contextlib
import importlib.abc
import io
import json
import sys
import traceback
import warnings


class Missing(importlib.abc.MetaPathFinder):
    def __init__(self, names):
        self.names = set(names)

    def find_spec(self, name, path, target=None):
        if name in self.names:
            raise ImportError('No module named %r' % name)


RUNS = [('L1', k, {}) for k in ('Pauli', 'Lindblad', 'Redfield', '1vN', 'RTD', '2vN', 'pyPauli', 'pyRTD')]
RUNS += [('D2a', k, dict(itype=i)) for k in ('Pauli', 'Lindblad', 'Redfield', '1vN') for i in (1, 2)]
RUNS += [('D2p', k, dict(itype=2)) for k in ('Pauli', 'Lindblad', 'Redfield', '1vN')]
RUNS += [('D2pJ', k, dict(itype=2)) for k in ('Pauli', 'Redfield')]
RUNS += [('A2', k, dict(indexing=ix)) for k in ('Pauli', 'Redfield') for ix in ('sz', 'ssq')]
RUNS += [('D2r', 'RTD', {}), ('D2r', 'Redfield', dict(symq=False)), ('D2r', '1vN', dict(mfreeq=True)), ('D2mb', 'Pauli', {}), ('D2mb', 'Redfield', {})]


def one(M, np, m, kern, kw):
    import qmeq
    many = m.endswith('mb')
    if m == 'D2r' or many:
        from lib import grid
        mod = grid.real('D2')
    elif m == 'D2pJ':
        mod = dict(M.model('D2p'), J=[[0.8, 1.0]])
    else:
        mod = M.model(m)
    if kern == '2vN':
        kw = dict(kw, kpnt=24)
    st = dict(qdq=False, rotateq=False) if many else {}
    out = []

    def see(b, tag):
        d = M.density(b)
        if kw.get('indexing') == 'ssq':
            d = np.diag(d)
        out.append([tag, type(b.appr).__module__] + [np.concatenate([np.real(x).ravel(), np.imag(x).ravel()]).tolist() for x in
                                                      (np.sort(M.arr(b.Ea)), np.abs(d) if m == 'A2' else d, M.arr(b.current), M.arr(b.energy_current), M.arr(b.heat_current))])
    b = M.build(mod, kern, **kw)
    M.solve(b, kern)
    if many:
        ch = M.charges(b)
        b = qmeq.BuilderManyBody(Ea=M.arr(b.Ea).real, Na=list(ch), Tba=M.arr(b.Tba), mulst=mod['mu'], tlst=mod['T'], dband=mod['D'], kerntype=kern)
        M.solve(b, kern, **st)
    see(b, 'new')
    b.change(mulst={0: 0.21})
    if not many:
        b.change(hsingle={(0, 0): 0.07})
    M.solve(b, kern, **st)
    see(b, 'edited')
    if m != 'A2':
        k2 = {'Pauli': 'Lindblad', 'Lindblad': 'Redfield', 'Redfield': '1vN', '1vN': 'Pauli', 'RTD': 'Pauli', '2vN': 'Redfield'}.get(kern, 'Pauli')
        b.kerntype = k2
        M.solve(b, k2, **st)
        see(b, 'switched to '+k2)
    return out


def main():
    names = json.loads(sys.argv[1])
    sys.meta_path.insert(0, Missing(names))
    warnings.filterwarnings('ignore')
    said = io.StringIO()
    res = dict(runs=[])
    with contextlib.redirect_stdout(said):
        try:
            import numpy as np
            np.seterr(all='ignore')
            import qmeq  # noqa: F401
            import qmeq.builder.builder_elph  # noqa: F401
        except BaseException:
            res['import'] = traceback.format_exc()
    res['warned'] = 'warn' in said.getvalue().lower()
    res['loaded'] = sorted(x for x in sys.modules if x.startswith('qmeq.') and x in names)
    if 'import' not in res:
        from lib import models as M
        with contextlib.redirect_stdout(io.StringIO()):
            for m, k, kw in RUNS:
                try:
                    res['runs'].append(one(M, np, m, k, kw))
                except BaseException:
                    res['runs'].append(traceback.format_exc())
    json.dump(res, sys.stdout)


if __name__ == '__main__':
    main()
