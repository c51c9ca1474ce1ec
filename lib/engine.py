"""Bounded exhaustive exploration of the real code.

A check module provides

    ID, LEVEL ('model_checking' | 'exploration'), RULE, ASSUMPTIONS
    cases(tier)  -> list of JSON-able case descriptors, simplest first (the complete bounded space)
    run(case, R) -> executes one case on the real code and reports to the recorder R

The engine executes every case in forked worker processes (a crash or hang of the code under test is
attributed to the case that was running), collects the explored states, writes the evidence file and
decides the exit status.  Nothing is sampled: a case list that is not finished is reported as such.
"""
import fnmatch
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def h64(obj):
    s = obj if isinstance(obj, (str, bytes)) else json.dumps(obj, sort_keys=True, default=str)
    if isinstance(s, str):
        s = s.encode()
    return int.from_bytes(hashlib.blake2b(s, digest_size=8).digest(), 'big')


class Recorder(object):
    """What a case reports."""

    def __init__(self):
        self.reset_all()

    def reset_all(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.nontrivial = set()
        self.extra = {}
        self.begin()

    def begin(self):
        self.fails = []

    # -- coverage
    def state(self, obj):
        self.states.add(h64(obj))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        """One complete model trace was compared with the implementation."""
        self.traces += n

    def ev(self, n=1):
        self.evaluations += n

    def nt(self, obj):
        """A distinct non-trivial case."""
        self.nontrivial.add(h64(obj))

    def outcome(self, obj):
        self.outcomes.add(h64(obj))

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    # -- verdicts
    def fail(self, key, msg=''):
        if len(self.fails) < 12:
            self.fails.append((str(key), str(msg)[:600]))

    def check(self, ok, key, msg=''):
        if not ok:
            self.fail(key, msg() if callable(msg) else msg)
        return ok

    def dump(self):
        return dict(states=self.states, outcomes=self.outcomes, transitions=self.transitions, traces=self.traces,
                    evaluations=self.evaluations, nontrivial=self.nontrivial, extra=self.extra)

    def merge(self, d):
        self.states |= d['states']
        self.outcomes |= d['outcomes']
        self.nontrivial |= d['nontrivial']
        self.transitions += d['transitions']
        self.traces += d['traces']
        self.evaluations += d['evaluations']
        for k, v in d['extra'].items():
            self.extra[k] = self.extra.get(k, 0) + v


class quiet(object):
    """Python-level and C-level stdout/stderr of the code under test go to /dev/null."""

    def __enter__(self):
        sys.stdout.flush()
        sys.stderr.flush()
        self.null = os.open(os.devnull, os.O_WRONLY)
        self.o, self.e = os.dup(1), os.dup(2)
        os.dup2(self.null, 1)
        os.dup2(self.null, 2)

    def __exit__(self, *a):
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(self.o, 1)
        os.dup2(self.e, 2)
        for f in (self.o, self.e, self.null):
            os.close(f)


def run_case(mod, case, R):
    R.begin()
    try:
        mod.run(case, R)
    except Exception:
        tb = traceback.format_exc(limit=-4)
        last = tb.strip().splitlines()[-1]
        R.fail('exception', last + ' | ' + tb[-500:].replace('\n', ' / '))
    return R.fails


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(p) as f:
            data = json.load(f)
    except OSError:
        return []
    return [k for k in data.get('findings', []) if k['property'] == pid]


# ---------------------------------------------------------------------------------------------
# worker pool

def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('<I', len(b)) + b
    v = memoryview(b)
    while v:
        n = os.write(fd, v)
        v = v[n:]


def _worker(mod, cases, tasks, cur, tstart, slot, fd, chunk, order, first):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(null, 2)
    R = Recorder()
    n = len(order)
    last = time.time()
    while True:
        if first is not None:
            j0, j1 = first
            first = None
        else:
            b = os.read(tasks, 4)
            if len(b) < 4:
                break
            j0 = struct.unpack('<I', b)[0]*chunk
            j1 = min(n, j0+chunk)
        for j in range(j0, j1):
            i = order[j]
            cur[slot] = j
            tstart[slot] = time.time()
            fails = run_case(mod, cases[i], R)
            tstart[slot] = 0
            if fails:
                _send(fd, ('fail', i, fails))
            _send(fd, ('done', i, None))
        if time.time() - last > 2.0:
            _send(fd, ('part', None, R.dump()))
            R.reset_all()
            last = time.time()
    _send(fd, ('part', None, R.dump()))
    _send(fd, ('end', None, None))
    os._exit(0)


def explore(mod, cases, jobs, deadline, case_timeout):
    """returns (recorder, failures {index: [(key, msg)]}, done set)."""
    total = Recorder()
    failures = {}
    done = set()
    if not cases:
        return total, failures, done
    ctx = mp.get_context('fork')
    n = len(cases)
    jobs = max(1, min(jobs, n))
    cur = ctx.Array('q', [-1]*jobs, lock=False)
    tstart = ctx.Array('d', [0.0]*jobs, lock=False)
    order = list(range(n))
    # heavy cases first when the module says so (verdicts do not depend on the order)
    if hasattr(mod, 'cost'):
        order.sort(key=lambda i: -mod.cost(cases[i]))
    chunk = max(1, min(16, n//(jobs*24)), -(-n//12000))
    # the task queue: chunk numbers in a pipe that all workers read from
    tr, tw = os.pipe()
    workers = {}
    killed = {}

    def start(slot, first=None):
        r, w = os.pipe()
        cur[slot] = -1
        tstart[slot] = 0
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                if tw is not None:
                    os.close(tw)
                _worker(mod, cases, tr, cur, tstart, slot, w, chunk, order, first)
            finally:
                os._exit(77)
        os.close(w)
        workers[r] = [pid, slot, bytearray(), False]

    nchunks = -(-n//chunk)
    os.write(tw, b''.join(struct.pack('<I', c) for c in range(nchunks)))    # < 64 kB
    for s in range(jobs):
        start(s)
    crashed = 0
    stopped = None
    while workers:
        rl, _, _ = select.select(list(workers), [], [], 0.5)
        for fd in rl:
            w = workers[fd]
            b = os.read(fd, 1 << 16)
            if b:
                w[2] += b
                while len(w[2]) >= 4:
                    m = struct.unpack_from('<I', w[2])[0]
                    if len(w[2]) < 4+m:
                        break
                    kind, i, val = pickle.loads(bytes(w[2][4:4+m]))
                    del w[2][:4+m]
                    if kind == 'fail':
                        failures.setdefault(i, []).extend(val)
                    elif kind == 'done':
                        done.add(i)
                    elif kind == 'part':
                        total.merge(val)
                    elif kind == 'end':
                        w[3] = True
                continue
            # the worker is gone
            os.close(fd)
            del workers[fd]
            _, st = os.waitpid(w[0], 0)
            if w[3] or stopped is not None:
                continue
            j = cur[w[1]]
            crashed += 1
            if j >= 0:
                i = order[j]
                failures.setdefault(i, []).append(
                    ('crash', killed.get(w[0], 'the process died (status %d)' % st)))
                done.add(i)
            else:
                failures.setdefault(0, []).append(('crash', 'a worker died before its first case'))
            if crashed < 24:
                start(w[1], (j+1, min(n, (j//chunk+1)*chunk)) if j >= 0 else None)
        now = time.time()
        for w in list(workers.values()):
            t = tstart[w[1]]
            if t and now - t > case_timeout and w[0] not in killed:
                killed[w[0]] = 'no answer after %d s' % case_timeout
                os.kill(w[0], signal.SIGKILL)
        if stopped is None and (now > deadline or len(failures) >= 400):
            stopped = 'deadline' if now > deadline else 'enough failures'
            for w in workers.values():
                try:
                    os.kill(w[0], signal.SIGKILL)
                except OSError:
                    pass
        # close the write end once, so that idle workers see the end of the queue
        if tw is not None:
            os.close(tw)
            tw = None
    return total, failures, done


# ---------------------------------------------------------------------------------------------

def match_known(known, case, key, msg):
    """A listed finding names the case fields and the failing clause exactly."""
    for k in known:
        if not fnmatch.fnmatchcase(key, k['key']):
            continue
        if all(case.get(f) == v for f, v in k.get('case', {}).items()):
            return k
    return None


def main(mod, argv):
    pid = mod.ID
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    replay = None
    limit = None
    it = iter(argv)
    for a in it:
        if a == '--tier':
            tier = next(it)
        elif a == '--replay':
            replay = next(it)
        elif a == '--limit':
            limit = int(next(it))
        elif a == '--list':
            for c in mod.cases(tier):
                print(json.dumps(c))
            return 0
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if replay:
        with open(replay) as f:
            case = json.load(f)['case']
        R = Recorder()
        fails = run_case(mod, case, R)
        for k, m in fails:
            print('FAIL %s: %s' % (k, m))
        print('%d clause(s) failed' % len(fails))
        return 1 if fails else 0

    t0 = time.time()
    cases = list(mod.cases(tier))
    if limit:
        cases = cases[:limit]
    jobs = int(os.environ.get('VERIF_JOBS', str(os.cpu_count() or 4)))
    if hasattr(mod, 'max_jobs'):
        jobs = min(jobs, mod.max_jobs)
    budget = getattr(mod, 'BUDGET', {}).get(tier, 600 if tier == 'quick' else 6*3600)
    total, failures, done = explore(mod, cases, jobs, t0 + budget, getattr(mod, 'CASE_TIMEOUT', 180))

    known = known_findings(pid)
    hit = {}
    unlisted = []
    for i in sorted(failures):
        for key, msg in failures[i]:
            k = match_known(known, cases[i], key, msg)
            if k is not None:
                hit[k['what']] = hit.get(k['what'], 0) + 1
            else:
                unlisted.append((i, key, msg))

    level = mod.LEVEL
    samples = [dict(case=cases[i]) for i in sorted({0, len(cases)//2, len(cases)-1})] if cases else []
    cov = dict(cases=len(cases), cases_completed=len(done),
               exhaustive=bool(len(done) == len(cases)), rule=mod.RULE, samples=samples,
               distinct_outcomes=len(total.outcomes))
    if level == 'model_checking':
        cov.update(states=len(total.states), transitions=total.transitions,
                   traces_validated_against_impl=total.traces)
    else:
        cov.update(evaluations=total.evaluations, distinct_nontrivial=len(total.nontrivial))
        if total.states:
            cov.update(states=len(total.states))
        if total.transitions:
            cov.update(transitions=total.transitions)
    cov.update(total.extra)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(time.time()-t0, 2),
              violations=len(unlisted), known_findings=hit,
              qmeq_tree=os.environ.get('VERIF_TREE', ''))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', pid + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)

    print('%s %s: %d/%d cases, %s, outcomes=%d, %.1f s' % (
        pid, tier, len(done), len(cases),
        ('states=%d transitions=%d traces=%d' % (len(total.states), total.transitions, total.traces))
        if level == 'model_checking' else
        ('evaluations=%d distinct=%d' % (total.evaluations, len(total.nontrivial))),
        len(total.outcomes), time.time()-t0))
    for k in known:
        if k['what'] in hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if unlisted:
        seen = {}
        for i, key, msg in unlisted:
            seen.setdefault(key.split(':')[0], []).append((i, key, msg))
        d = os.path.join(VERIF, 'replays', pid)
        os.makedirs(d, exist_ok=True)
        for n, (kk, lst) in enumerate(sorted(seen.items(), key=lambda t: t[1][0][0])):
            i, key, msg = lst[0]
            rp = os.path.join(d, '%016x.json' % h64([cases[i], key]))
            with open(rp, 'w') as f:
                json.dump(dict(property=pid, case=cases[i], key=key, msg=msg), f, indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            print('  %s: %s  (%d failing observation(s) of this kind)' % (key, msg, len(lst)))
            if n >= 7:
                break
        return 1
    if len(done) < len(cases):
        print('note: time limit reached, %d of %d cases covered' % (len(done), len(cases)))
    return 0
