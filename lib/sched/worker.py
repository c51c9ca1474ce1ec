"""Runs solves of the instrumented package under the deterministic OpenMP runtime (or the real one)."""
import ctypes
import json
import os
import sys
import warnings


def main():
    warnings.filterwarnings('ignore')
    import numpy as np
    np.seterr(all='ignore')
    import qmeq
    job = json.load(sys.stdin)
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    root = os.environ['VERIF_TREE_TS']
    if not os.path.abspath(qmeq.__file__).startswith(os.path.abspath(root) + os.sep):
        raise RuntimeError('wrong package %s' % qmeq.__file__)
    lib = None
    if os.environ.get('VERIF_VSCHED'):
        lib = ctypes.CDLL(os.environ['VERIF_VSCHED'])
        lib.sched_message.restype = ctypes.c_char_p
    from lib.sched import scen
    res = []
    for plan in job['plans']:
        b = scen.make(job['case'])
        st = np.zeros(8, dtype=np.int64)
        msgs = []
        for i, (n, limit, order) in enumerate(plan):
            if lib:
                lib.sched_config(n, limit, len(order), (ctypes.c_int*max(1, len(order)))(*order))
                lib.sched_reset()
            scen.step(b, job['case'], i)
            if lib:
                s = (ctypes.c_long*8)()
                lib.sched_stats(s)
                st[:7] += np.array(s[:7])
                st[7] ^= s[7]
                m = lib.sched_message().decode()
                if m:
                    msgs.append(m)
        obs = scen.observe(b)
        res.append(dict(stats=st.tolist(), msgs=msgs, obs=obs))
    out.write(json.dumps(res))
    out.close()


if __name__ == '__main__':
    main()
