"""Builds a private copy of the working tree's package, then runs a check on it in a fresh process."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    if 'VERIF_TREE' not in os.environ:
        from lib.build import build_tree
        tree = build_tree()
        env = dict(os.environ, VERIF_TREE=tree, PYTHONPATH=tree + os.pathsep + HERE,
                   OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
                   PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        os.execve(sys.executable, [sys.executable, '-B', '-m', 'lib.boot'] + sys.argv[1:], env)
    import importlib
    import warnings
    warnings.filterwarnings('ignore')
    import numpy as np
    np.seterr(all='ignore')
    tree = os.environ['VERIF_TREE']
    null = os.open(os.devnull, os.O_WRONLY)
    import qmeq
    if not os.path.abspath(qmeq.__file__).startswith(os.path.abspath(tree) + os.sep):
        print('wrong package: %s' % qmeq.__file__)
        return 2
    from lib import engine
    pid = sys.argv[1]
    mod = importlib.import_module('checks.' + pid.lower())
    return engine.main(mod, sys.argv[2:])


if __name__ == '__main__':
    sys.exit(main())
