"""Stateless model checker for rsbeams harnesses.

A harness is a function ``body(ch)``.  It builds one bounded behaviour by asking ``ch.pick(label, options)`` for
every decision (input shape, operation, environment answer, fault point ...), runs the real code of /repo on it, and
compares with a reference model (``require``).  The explorer enumerates *every* sequence of answers: option 0 is the
default answer, any other answer of a pick made with ``dev=True`` costs one deviation, and all behaviours within the
harness' deviation bound are executed (``bound=None``: no bound, the full product).  Nothing is sampled.

states       distinct nodes of the choice tree that were visited (a node = the sequence of answers so far)
transitions  edges of that tree (answers given)
traces       complete executions of the implementation, each compared with the model
"""
import contextlib
import faulthandler
import hashlib
import io
import itertools
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RSBEAMS_REPO", "/repo")
EXEC_TIMEOUT = 20.0
NPROC = max(1, min(8, os.cpu_count() or 1))


class Violation(Exception):
    pass


class Hang(BaseException):
    pass


class Divergence(BaseException):
    """A replayed prefix met different options: nondeterminism the harness does not own."""


def require(cond, msg, **details):
    if not cond:
        if details:
            msg = msg + " | " + ", ".join("%s=%s" % (k, short(v)) for k, v in details.items())
        raise Violation(msg)


def short(v, n=700):
    s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


class Chooser:
    def __init__(self, prefix=(), bound=None):
        self.prefix = list(prefix)
        self.bound = bound
        self.points = []      # (label, n options, dev?, choice)
        self.cost = 0
        self.log = []         # (label, chosen value)
        self.obs = None       # what the implementation did, for counting distinct outcomes
        self.nontrivial = True
        self.path = []        # rolling hash of the nodes

    def pick(self, label, options, dev=True):
        options = list(options)
        i = len(self.points)
        if not options:
            raise RuntimeError("no options for " + label)
        if i < len(self.prefix):
            c, expect = self.prefix[i] if isinstance(self.prefix[i], (tuple, list)) else (self.prefix[i], None)
            if c >= len(options) or (expect is not None and expect != label):
                raise Divergence("at point %d %r: choice %r of %d (recorded %r)" % (i, label, c, len(options), expect))
        else:
            c = 0
        if c and dev:
            self.cost += 1
        self.points.append((label, len(options), dev, c))
        v = options[c]
        self.log.append((label, v))
        return v

    def flag(self, label, dev=True):
        return self.pick(label, (False, True), dev)

    def observe(self, *what):
        self.obs = what

    def choices(self):
        return [(p[3], p[0]) for p in self.points]

    def describe(self):
        return [(l, short(v, 300)) for l, v in self.log]


class Harness:
    def __init__(self, name, body, bound=None, max_traces=None, timeout=EXEC_TIMEOUT):
        self.name, self.body, self.bound, self.max_traces, self.timeout = name, body, bound, max_traces, timeout


def _watch(limit):
    """A hang: the limit of time on the processor, or four times that on the clock (the machine may be busy)."""
    cpu, wall = time.process_time(), time.monotonic()

    def alarm(_sig, _frame):
        left = limit - (time.process_time() - cpu)
        if left <= 0 or time.monotonic() - wall >= 4 * limit:
            raise Hang()
        signal.setitimer(signal.ITIMER_REAL, max(left, 0.05))
    return alarm


_scratch = None


def scratch():
    """A scratch directory of this process, emptied before every execution."""
    return _scratch


def fresh_scratch(root):
    global _scratch
    _scratch = os.path.join(root, "w%d" % os.getpid())
    if os.path.isdir(_scratch):
        for n in os.listdir(_scratch):
            p = os.path.join(_scratch, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                os.unlink(p)
    else:
        os.makedirs(_scratch)
    os.chdir(_scratch)


class _Sink(io.TextIOBase):
    def writable(self):
        return True

    def write(self, s):
        return len(s)


def run_once(h, prefix, root):
    """Execute one behaviour.  Returns (chooser, None | violation text)."""
    ch = Chooser(prefix, h.bound)
    fresh_scratch(root)
    err = None
    old = signal.signal(signal.SIGALRM, _watch(h.timeout))
    signal.setitimer(signal.ITIMER_REAL, h.timeout)
    try:
        with contextlib.redirect_stdout(_Sink()), contextlib.redirect_stderr(_Sink()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            h.body(ch)
    except Violation as e:
        err = str(e)
    except Hang:
        err = HANG + " (no result after %.0f s)" % h.timeout
    except Divergence:
        raise
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        err = "unexpected %s\n%s" % (short(e, 300), traceback.format_exc(limit=-6))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return ch, err


class Stats:
    def __init__(self):
        self.states = self.transitions = self.traces = 0
        self.nontrivial = 0
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.capped = False
        self.labels = {}

    def add(self, o):
        self.states += o.states
        self.transitions += o.transitions
        self.traces += o.traces
        self.nontrivial += o.nontrivial
        self.outcomes |= o.outcomes
        self.samples += o.samples
        self.violations += o.violations
        self.capped |= o.capped
        for k, v in o.labels.items():
            self.labels[k] = max(v, self.labels.get(k, 0))


def account(st, h, ch, err, plen):
    # nodes new to this run: everything from the branching point on
    new = max(0, len(ch.points) - max(plen - 1, 0))
    st.states += new + (1 if plen == 0 else 0)
    st.transitions += new
    st.traces += 1
    for l, n, _d, _c in ch.points:
        if n > st.labels.get(l, 0):
            st.labels[l] = n
    if ch.nontrivial:
        st.nontrivial += 1
    if ch.obs is not None:
        st.outcomes.add(hashlib.sha1(short(ch.obs, 100000).encode("utf8", "replace")).digest()[:8])
    if len(st.samples) < 1 or (st.traces in (7, 100) and len(st.samples) < 3):
        st.samples.append({"harness": h.name, "choices": ch.describe(), "observed": short(ch.obs, 300)})
    if err is not None:
        st.violations.append({"harness": h.name, "cost": ch.cost, "choices": ch.choices(),
                              "trace": ch.describe(), "message": err})


def children(h, ch, plen):
    """All unexplored alternatives at the points this run decided by default."""
    pts, out = ch.points, []
    cost = [0]
    for p in pts:
        cost.append(cost[-1] + (1 if p[3] and p[2] else 0))
    base = ch.choices()
    for i in range(len(pts) - 1, plen - 1, -1):
        label, n, dev, _c = pts[i]
        if h.bound is not None and cost[i] + (1 if dev else 0) > h.bound:
            continue
        for alt in range(1, n):
            out.append(base[:i] + [(alt, label)])
    return out


MAX_VIOLATIONS = 12
HANG = "does not terminate"


def explore(h, root, prefixes, st, stop_at=None, seconds=None):
    """Depth-first over the subtrees below ``prefixes``; returns the open frontier if stop_at or the time is reached."""
    stack = list(prefixes)
    end = None if seconds is None else time.monotonic() + seconds
    while stack:
        if end is not None and time.monotonic() > end:
            return stack
        if stop_at is not None and len(stack) >= stop_at:
            return stack
        prefix = stack.pop() if stop_at is None else stack.pop(0)
        ch, err = run_once(h, prefix, root)
        account(st, h, ch, err, len(prefix))
        if err is not None and (len(st.violations) >= MAX_VIOLATIONS or err.startswith(HANG)):
            return []
        if h.max_traces and st.traces >= h.max_traces:
            st.capped = True
            return []
        kids = children(h, ch, len(prefix))
        kids.reverse()
        if stop_at is None:
            stack.extend(kids)
        else:
            stack.extend(reversed(kids))
    return []


def _worker(args):
    name, prefixes, root = args
    st = Stats()
    h = _REG[name]
    rest = explore(h, root, prefixes, st, seconds=SLICE)
    return st, rest


_REG = {}
SLICE = 0.4         # seconds after which a worker hands back what it has not explored, so that others can share it


def run_harness(h, root, pool_size=None):
    import multiprocessing as mp
    from concurrent.futures import FIRST_COMPLETED, ProcessPoolExecutor, wait
    _REG[h.name] = h
    n = pool_size or NPROC
    st = Stats()
    frontier = explore(h, root, [[]], st, stop_at=n * 16, seconds=1.0)
    if not frontier or st.violations:
        st.capped |= bool(frontier)
        return st
    if n == 1:
        explore(h, root, frontier, st)
        return st
    chunks = [c for c in (frontier[i::n * 4] for i in range(n * 4)) if c]
    pool = ProcessPoolExecutor(n, mp_context=mp.get_context("fork"))
    try:
        jobs = {pool.submit(_worker, (h.name, c, root)) for c in chunks}
        while jobs:
            done, jobs = wait(jobs, return_when=FIRST_COMPLETED)
            for j in done:
                part, rest = j.result()
                st.add(part)
                k = min(len(rest), max(1, 2 * n - len(jobs)))
                for i in range(k):
                    jobs.add(pool.submit(_worker, (h.name, rest[i::k], root)))
            if h.max_traces and st.traces >= h.max_traces and jobs:
                st.capped = True
                break
            if len(st.violations) >= MAX_VIOLATIONS or any(v["message"].startswith(HANG) for v in st.violations):
                st.capped = True
                break
    finally:
        procs = list((pool._processes or {}).values())
        pool.shutdown(wait=False, cancel_futures=True)
        if st.capped:
            for p in procs:
                p.kill()
    return st
