"""Builds a private, importable copy of /repo's qmeq package from the current working tree.

build_tree() copies every source file of /repo/qmeq (tests left out) to a directory under
/verif/.build and puts a compiled extension beside each .pyx.  An extension is compiled here
unless one built from byte-identical sources with the same toolchain already exists, either in
our own cache or in /repo (as recorded by the content hashes /opt/vp/build.sh leaves in
/repo/build/vp-hashes.json).  Nothing is written to /repo.
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, '.build')
SUFFIX = sysconfig.get_config_var('EXT_SUFFIX')


def _sha(data):
    return hashlib.sha256(data).hexdigest()


def _read(path):
    with open(path, 'rb') as f:
        return f.read()


def sources(repo=REPO):
    """relpath -> content for every source file of the package."""
    out = {}
    root = os.path.join(repo, 'qmeq')
    for d, dirs, files in os.walk(root):
        dirs[:] = [x for x in dirs if x not in ('__pycache__', 'tests')]
        for f in files:
            if f.endswith(('.py', '.pyx', '.pxd', '.pxi')):
                p = os.path.join(d, f)
                out[os.path.relpath(p, repo)] = _read(p)
    return out


def toolchain():
    import Cython
    import numpy
    import scipy
    return [sys.version, Cython.__version__, numpy.__version__, scipy.__version__]


def _repo_built(repo, srcs):
    """set of .pyx whose extension in /repo is known to come from identical sources."""
    try:
        with open(os.path.join(repo, 'build', 'vp-hashes.json')) as f:
            old = json.load(f)
        shared = {p: _sha(c) for p, c in srcs.items() if p.endswith(('.pxd', '.pxi'))}
        shared['setup.py'] = _sha(_read(os.path.join(repo, 'setup.py')))
        shared['toolchain'] = toolchain()
        if old['shared'] != shared:
            return set()
        return {p for p, c in srcs.items() if p.endswith('.pyx') and old['pyx'].get(p) == _sha(c)}
    except (OSError, ValueError, KeyError):
        return set()


def _cflags():
    g = sysconfig.get_config_var
    import numpy
    fl = ['-fPIC', '-fwrapv', '-DNDEBUG', '-O2', '-w', '-fopenmp',
          '-I' + sysconfig.get_paths()['include'], '-I' + numpy.get_include()]
    return fl


def compile_ext(root, rel, out, extra_c=(), extra_l=(), cc='gcc'):
    """cythonize root/rel and compile it to the file `out`."""
    env = dict(os.environ, CC=cc, PYTHONDONTWRITEBYTECODE='1')
    cfile = os.path.join(root, rel[:-4] + '.c')
    r = subprocess.run([sys.executable, '-m', 'cython', '-2', rel, '-o', cfile], cwd=root, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError('cython failed on %s:\n%s' % (rel, r.stdout))
    tmp = out + '.tmp%d' % os.getpid()
    cmd = [cc, '-shared'] + _cflags() + list(extra_c) + [cfile, '-o', tmp] + list(extra_l)
    r = subprocess.run(cmd, cwd=root, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError('compiler failed on %s:\n%s' % (rel, r.stdout))
    os.replace(tmp, out)
    if os.path.exists(cfile):
        os.remove(cfile)


def build_tree(repo=REPO, jobs=None, quiet=False):
    """Returns the directory to put on PYTHONPATH."""
    srcs = sources(repo)
    tc = json.dumps(toolchain())
    shared = _sha((tc + ''.join(p + _sha(c) for p, c in sorted(srcs.items())
                                if p.endswith(('.pxd', '.pxi')))).encode())
    cache = os.path.join(BUILD, 'cache')
    os.makedirs(cache, exist_ok=True)
    key = _sha(json.dumps([shared, sorted((p, _sha(c)) for p, c in srcs.items())]).encode())[:24]
    tree = os.path.join(BUILD, 'tree-' + key)
    if os.path.exists(os.path.join(tree, '.complete')):
        os.utime(tree)
        return tree
    tmp = tempfile.mkdtemp(prefix='mk-', dir=BUILD)
    try:
        for p, c in srcs.items():
            q = os.path.join(tmp, p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, 'wb') as f:
                f.write(c)
        built = _repo_built(repo, srcs)
        todo = []
        for p, c in sorted(srcs.items()):
            if not p.endswith('.pyx'):
                continue
            so = os.path.join(cache, _sha((shared + p + _sha(c)).encode())[:32] + '.so')
            dst = os.path.join(tmp, p[:-4] + SUFFIX)
            rso = os.path.join(repo, p[:-4] + SUFFIX)
            if os.path.exists(so):
                os.utime(so)
                shutil.copyfile(so, dst)
            elif p in built and os.path.exists(rso):
                shutil.copyfile(rso, dst)
            else:
                todo.append((p, so, dst))
        if todo:
            if not quiet:
                print('building %d extension(s) from %s' % (len(todo), repo), flush=True)
            def one(t):
                p, so, dst = t
                compile_ext(tmp, p, dst)
                shutil.copyfile(dst, so + '.tmp%d' % os.getpid())
                os.replace(so + '.tmp%d' % os.getpid(), so)
            with concurrent.futures.ThreadPoolExecutor(jobs or os.cpu_count() or 4) as ex:
                # biggest first
                list(ex.map(one, sorted(todo, key=lambda t: -len(srcs[t[0]]))))
        open(os.path.join(tmp, '.complete'), 'w').close()
        try:
            os.rename(tmp, tree)
        except OSError:                     # another check finished the same tree first
            shutil.rmtree(tmp, ignore_errors=True)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    _prune()
    return tree


def _prune(keep=12, keep_so=400):
    trees = sorted(glob.glob(os.path.join(BUILD, 'tree-*')), key=os.path.getmtime)
    import time
    for t in trees[:-keep]:
        if time.time() - os.path.getmtime(t) > 3600:
            shutil.rmtree(t, ignore_errors=True)
    sos = sorted(glob.glob(os.path.join(BUILD, 'cache', '*.so')), key=os.path.getmtime)
    for s in sos[:-keep_so]:
        try:
            os.remove(s)
        except OSError:
            pass


if __name__ == '__main__':
    print(build_tree())
