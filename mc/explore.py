"""Exhaustive exploration of the real code.

* `Ctx` collects what a check covered and what failed.
* `run_units` spreads independent units of a bounded space over forked workers (every unit always runs, in a
  private process forked from the same state, so the outcome of a unit never depends on another one).
* `histories` walks *every* operation sequence up to a depth: each branch is a forked process, so it continues
  from exactly the state (of the real objects, the modules, the caches) that the sequence so far produced.
"""
import contextlib
import hashlib
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback

WORKERS = int(os.environ.get("MC_WORKERS", "8"))
UNIT_TIMEOUT = int(os.environ.get("MC_UNIT_TIMEOUT", "600"))
MAX_FAIL_PER_UNIT = 8


def digest(obj):
    return hashlib.blake2b(repr(obj).encode(), digest_size=8).digest()


class Ctx:
    def __init__(self, prop, tier, seed, unit=""):
        self.prop, self.tier, self.seed, self.unit = prop, tier, seed, unit
        self.evaluations = 0
        self.transitions = 0
        self.traces = 0
        self.states = set()
        self.distinct = set()
        self.samples = []
        self.failures = []          # (key, message)
        self.dropped = 0
        self.path = ()

    # -- coverage ----------------------------------------------------------------------------------------
    def case(self, desc, nontrivial=True):
        """One evaluated case"""
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(digest((self.unit, desc)))
        if len(self.samples) < 2:
            self.samples.append("%s: %s" % (self.unit, desc))

    def state(self, canon):
        self.states.add(digest(canon))

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(text)

    # -- verdicts ----------------------------------------------------------------------------------------
    def fail(self, key, msg):
        key = ":".join([self.unit] + ([" > ".join(self.path)] if self.path else []) + [str(key)])
        if len(self.failures) < MAX_FAIL_PER_UNIT:
            self.failures.append((key, str(msg)[:1500]))
        else:
            self.dropped += 1

    def expect(self, cond, key, msg=""):
        if not bool(cond):
            self.fail(key, msg() if callable(msg) else msg)
        return bool(cond)

    @contextlib.contextmanager
    def guard(self, key):
        """An exception raised by the real code where the property promises a result is a failure"""
        try:
            yield
        except Exception:
            self.fail(key, "unexpected exception\n" + traceback.format_exc(limit=-6))

    def merge(self, other):
        self.evaluations += other["evaluations"]
        self.transitions += other["transitions"]
        self.traces += other["traces"]
        self.states |= other["states"]
        self.distinct |= other["distinct"]
        for s in other["samples"]:
            if len(self.samples) < 3:
                self.samples.append(s)
        for f in other["failures"]:
            if len(self.failures) < MAX_FAIL_PER_UNIT:
                self.failures.append(f)
            else:
                self.dropped += 1
        self.dropped += other["dropped"]

    def export(self):
        return {k: getattr(self, k) for k in ("evaluations", "transitions", "traces", "states", "distinct",
                                              "samples", "failures", "dropped")}


# ---- forked branches ------------------------------------------------------------------------------------
def in_child(ctx, fn):
    """Run fn(child_ctx) in a forked copy of this very process and merge what it found into ctx"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            child = Ctx(ctx.prop, ctx.tier, ctx.seed, ctx.unit)
            child.path = ctx.path
            child.samples = list(ctx.samples)
            base = len(child.samples)
            try:
                fn(child)
            except Exception:
                child.fail("exception", traceback.format_exc(limit=-8))
            child.samples = child.samples[base:]
            data = pickle.dumps(child.export())
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if status != 0 or not data:
        ctx.fail("crash", "the process ended abnormally (status %d)" % status)
    else:
        ctx.merge(pickle.loads(data))


def histories(ctx, world, ops, check, depth, canon=None, only=None, prune=None):
    """Every sequence of at most `depth` operations from `world`.

    ops: list of (name, fn(world, ctx)); fn may return False when the operation is not enabled here.
    check(world, ctx) is evaluated in every state reached.  `only` (a list of names) restricts the walk to one
    sequence and its prefixes (replay).  prune(world, path, name) -> True skips redundant orderings.
    """
    def visit(world, ctx, level):
        names = ops(world) if callable(ops) else ops
        for name, fn in names:
            if only is not None and (level >= len(only) or only[level] != name):
                continue
            if prune is not None and prune(world, ctx.path, name):
                continue

            def branch(child, name=name, fn=fn):
                child.path = ctx.path + (name,)
                if fn(world, child) is False:
                    return
                child.transitions += 1
                check(world, child)
                if canon is not None:
                    child.state(canon(world))
                if level + 1 < depth and not (child.failures and only is None):
                    visit(world, child, level + 1)
                else:
                    child.traces += 1
                    child.sample(child.unit + ": " + " > ".join(child.path))
            in_child(ctx, branch)
    check(world, ctx)
    if canon is not None:
        ctx.state(canon(world))
    if depth > 0:
        visit(world, ctx, 0)


# ---- workers --------------------------------------------------------------------------------------------
def _claim(fd):
    b = os.read(fd, 4)
    return int.from_bytes(b, "big") if len(b) == 4 else None


def run_units(prop, tier, seed, units, deadline=None):
    """units: list of (name, fn(ctx)).  Returns (merged dict, list of skipped unit names)"""
    import numpy as np
    total = Ctx(prop, tier, seed)
    outdir = tempfile.mkdtemp(prefix="legwork-mc-out-")
    r, w = os.pipe()
    for i in range(len(units)):                      # 4-byte reads and writes to a pipe are atomic
        if i * 4 >= 60000:
            break
        os.write(w, i.to_bytes(4, "big"))
    assert len(units) * 4 < 60000, "too many units"
    os.close(w)
    pids = []
    sys.stdout.flush()
    sys.stderr.flush()
    for k in range(min(WORKERS, len(units))):
        pid = os.fork()
        if pid == 0:
            try:
                if not os.environ.get("MC_NOISY"):
                    null = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(null, 1)
                    if not os.environ.get("MC_STDERR"):
                        os.dup2(null, 2)
                while True:
                    i = _claim(r)
                    if i is None:
                        break
                    if deadline is not None and time.time() > deadline:
                        continue
                    np.random.seed(seed % 2**32)
                    _one(prop, tier, seed, i, units[i], outdir)
                    if os.environ.get("MC_FAILFAST"):           # used by trials/mutate.py only
                        with open(os.path.join(outdir, "%d" % i), "rb") as f:
                            if pickle.load(f)["failures"]:
                                while _claim(r) is not None:
                                    pass
            finally:
                os._exit(0)
        pids.append(pid)
    os.close(r)
    for pid in pids:
        os.waitpid(pid, 0)
    skipped, failures, times = [], [], []
    for i, (name, _) in enumerate(units):
        path = os.path.join(outdir, "%d" % i)
        if os.path.exists(path):
            with open(path, "rb") as f:
                res = pickle.load(f)
            times.append((res.pop("time"), name))
            os.unlink(path)
            failures += res["failures"]
            res["failures"] = []
            total.merge(res)
        else:
            skipped.append(name)
    os.rmdir(outdir)
    total.failures = failures
    return total, skipped, sorted(times, reverse=True)


def _one(prop, tier, seed, i, unit, outdir):
    """One unit, in its own forked process (a clean copy of the state right after set-up)"""
    name, fn = unit
    ctx = Ctx(prop, tier, seed, name)
    t = time.time()

    def body(child):
        def late(*_):
            raise TimeoutError("unit did not finish within %d s" % UNIT_TIMEOUT)
        signal.signal(signal.SIGALRM, late)
        signal.alarm(UNIT_TIMEOUT)
        fn(child)
        signal.alarm(0)
    in_child(ctx, body)
    res = ctx.export()
    res["time"] = time.time() - t
    tmp = os.path.join(outdir, "tmp%d" % os.getpid())
    with open(tmp, "wb") as f:
        pickle.dump(res, f)
    os.rename(tmp, os.path.join(outdir, "%d" % i))
