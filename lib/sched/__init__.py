"""The package compiled for the deterministic OpenMP runtime of sched.c."""
import concurrent.futures
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

from lib import build as B

HERE = os.path.dirname(os.path.abspath(__file__))
CFL = ['-O1', '-fsanitize=thread', '-fno-builtin-memset', '-fno-builtin-memcpy', '-fno-builtin-memmove', '-g1']


def _run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError('%s failed:\n%s' % (cmd[0], r.stdout[-3000:]))


def build(quiet=False):
    """Returns (directory for PYTHONPATH, runtime library)."""
    srcs = B.sources()
    rt = B._read(os.path.join(HERE, 'sched.c'))
    key = hashlib.sha256(json.dumps([B.toolchain(), CFL, hashlib.sha256(rt).hexdigest(),
                                     sorted((p, B._sha(c)) for p, c in srcs.items())]).encode()).hexdigest()[:24]
    tree = os.path.join(B.BUILD, 'tree-ts-' + key)
    lib = os.path.join(tree, 'libvsched.so')
    if os.path.exists(os.path.join(tree, '.complete')):
        os.utime(tree)
        return tree, lib
    os.makedirs(B.BUILD, exist_ok=True)
    if not quiet:
        print('building the instrumented package', flush=True)
    tmp = tempfile.mkdtemp(prefix='mk-', dir=B.BUILD)
    try:
        for p, c in srcs.items():
            q = os.path.join(tmp, p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, 'wb') as f:
                f.write(c)
        so = os.path.join(tmp, 'libvsched.so')
        _run(['gcc', '-O2', '-shared', '-fPIC', '-w', os.path.join(HERE, 'sched.c'), '-o', so, '-ldl', '-Wl,-soname,libvsched.so'], tmp)
        fl = [x for x in B._cflags() if x != '-O2']
        pyx = sorted((p for p in srcs if p.endswith('.pyx')), key=lambda p: -len(srcs[p]))

        def one(p):
            c = p[:-4] + '.c'
            _run([sys.executable, '-B', '-m', 'cython', '-2', p, '-o', c], tmp)
            _run(['gcc', '-c'] + fl + CFL + [c, '-o', c[:-2] + '.o'], tmp)
            depth = p.count('/')
            _run(['gcc', '-shared', c[:-2] + '.o', '-o', p[:-4] + B.SUFFIX, '-L' + tmp, '-lvsched', '-lm',
                  '-Wl,--wrap=memset,--wrap=memcpy,--wrap=memmove,--wrap=free',
                  '-Wl,-rpath,$ORIGIN/' + '/'.join(['..']*depth)], tmp)
            os.remove(os.path.join(tmp, c))
            os.remove(os.path.join(tmp, c[:-2] + '.o'))
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            list(ex.map(one, pyx))
        open(os.path.join(tmp, '.complete'), 'w').close()
        try:
            os.rename(tmp, tree)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return tree, lib


if __name__ == '__main__':
    print(build())
