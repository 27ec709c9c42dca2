"""P12: the tests are reproducible, whatever the number of jobs."""
import itertools

import cloudpickle
import joblib
import numpy as np
from joblib._parallel_backends import ParallelBackendBase

import dcor
from mc import config, data
from mc.core import Harness
from mc.sched import Scheduler

ENERGY = dcor.homogeneity.energy_test
DTEST = dcor.independence.distance_covariance_test
PTEST = dcor.independence.partial_distance_covariance_test


def make(test, n, d, variant=0):
    f = [("irregular", "signed", "primes"), ("mod7", "ties3", "irregular"), ("zigzag", "squares", "golden")][variant]
    x, y, z = (data.sample(g, n, d) for g in f)
    if test == "energy":
        return ENERGY, (x, y + 1)
    if test == "energy3":
        return ENERGY, (x, y[:-1] + 1, z[:2])
    if test == "dcov":
        return DTEST, (x, y)
    return PTEST, (x, y, z)


TESTS = ["energy", "energy3", "dcov", "pdcov"]
KINDS = ["int", "RandomState", "PCG64", "MT19937", "Philox", "SFC64", "default_rng"]


def generator(kind, seed):
    if kind == "int":
        return seed
    if kind == "RandomState":
        return np.random.RandomState(seed)
    if kind == "default_rng":
        return np.random.default_rng(seed)
    return np.random.Generator(getattr(np.random, kind)(seed))


def state_of(g):
    if isinstance(g, np.random.RandomState):
        s = g.get_state()
        return (s[0], tuple(s[1].tolist())) + tuple(s[2:])
    return repr(g.bit_generator.state)


def key(t):
    return (float(t.pvalue), float(t.statistic))


def call(ctx, fun, args, label="test", **kw):
    return ctx.call(label, fun, *args, **kw)


SEEDS = [0, 1, 2, 7, 13, 42, 123, 255, 256, 1000, 4242, 65535, 2**31 - 1, 2**31, 2**32 - 1]


def seeds(ctx):
    """Equal seeds give equal results; the global generator is not involved."""
    test = ctx.dev("test", TESTS)
    seed = ctx.dev("seed", SEEDS)
    kind = ctx.dev("kind", KINDS)
    r = ctx.dev("resamples", [7, 0, 1, 2, 3, 20, 50, 99])
    n = ctx.dev("n", [6, 4, 5, 9, 12, 20, 33])
    d = ctx.dev("d", [None, 1, 2, 5])
    e = ctx.dev("exponent", [1, .5, 1.5])
    variant = ctx.dev("data", [0, 1, 2])
    ctx.commit()
    fun, args = make(test, n, d, variant)
    kw = dict(num_resamples=r)
    if e != 1:
        kw["exponent"] = e
    label = f"{test} with {kind}({seed})"
    glob = state_of(np.random.mtrand._rand)
    g1 = generator(kind, seed)
    t1 = call(ctx, fun, args, label, random_state=g1, **kw)
    np.random.random_sample()        # disturb the global generator
    between = state_of(np.random.mtrand._rand)
    g2 = generator(kind, seed)
    t2 = call(ctx, fun, args, label, random_state=g2, **kw)
    ctx.check(key(t1) == key(t2), f"{label}: {key(t1)} and then {key(t2)}")
    ctx.check(state_of(np.random.mtrand._rand) == between, f"{label}: the global random state was modified")
    if kind == "int":
        for other in (np.random.RandomState(seed), np.int64(seed)):
            t3 = call(ctx, fun, args, label, random_state=other, **kw)
            ctx.check(key(t3) == key(t1), f"{label}: {key(t1)} with the integer, {key(t3)} with {other!r}")
    else:
        fresh = state_of(generator(kind, seed))
        ctx.check(state_of(g1) == state_of(g2), f"{label}: the generator finishes in different states")
        ctx.check((state_of(g1) != fresh) == (r > 0) or n < 2,
                  f"{label}: generator {'not advanced' if r else 'advanced'} with {r} resamples")
        # the generator continues where the previous test left it
        ga, gb = generator(kind, seed), generator(kind, seed)
        a = [key(call(ctx, fun, args, label, random_state=ga, **kw)) for _ in range(2)]
        b = key(call(ctx, fun, args, label, random_state=gb, num_resamples=2 * r,
                     **{k: v for k, v in kw.items() if k != "num_resamples"}))
        total = (a[0][0] + a[1][0]) * (r + 1) - 1
        ctx.check(abs(total - b[0] * (2 * r + 1)) < 1e-6,
                  f"{label}: two tests of {r} resamples give {a}, one with {2 * r} gives {b}")
    ctx.observe(key(t1))


def unseeded(ctx):
    """Without a seed: valid p-values, and no use of the global generator."""
    test = ctx.choose("test", TESTS)
    r = ctx.choose("resamples", [0, 1, 2, 5, 20])
    how = ctx.choose("random_state", ["omitted", "None"])
    ctx.commit()
    fun, args = make(test, 6, None)
    kw = {} if how == "omitted" else {"random_state": None}
    before = state_of(np.random.mtrand._rand)
    t = call(ctx, fun, args, num_resamples=r, **kw)
    ctx.check(state_of(np.random.mtrand._rand) == before, f"{test}: the global random state was modified")
    k = float(t.pvalue) * (r + 1)
    ctx.check(abs(k - round(k)) < 1e-9 and 1 <= round(k) <= r + 1, f"{test}: impossible p-value {t.pvalue} with {r} resamples")
    s = call(ctx, fun, args, num_resamples=0)
    ctx.check(float(s.statistic) == float(t.statistic) and s.pvalue == 1, f"{test}: the statistic depends on the resamples")
    ctx.observe((test, r, how))


# --- controlled joblib backend ----------------------------------------------
class Task:
    def __init__(self, func, callback):
        self.func, self.callback = func, callback
        self.finished = False
        self.out = None
        self.error = None

    def run(self):
        try:
            self.out = self.func()
        except BaseException as e:  # noqa
            self.error = e

    def finish(self):
        self.finished = True
        if self.error is None and self.callback is not None:
            self.callback(self.out)

    def get(self, timeout=None):
        if self.error is not None:
            raise self.error
        return self.out


class Controlled(ParallelBackendBase):
    """Runs the submitted tasks when and in the order that the explorer says."""
    supports_retrieve_callback = False
    supports_sharedmem = True
    uses_threads = True
    ctx = None
    mode = "orders"
    slice = None
    depth = 1

    def __init__(self, *a, **k):
        super().__init__(nesting_level=0)
        self.pending = []
        self.submitted = 0
        self.interleaved = 0
        type(self).last = self

    def effective_n_jobs(self, n_jobs):
        return 1 if n_jobs in (None, 1) else (8 if n_jobs < 0 else n_jobs)

    def submit(self, func, callback=None):
        t = Task(func, callback)
        self.pending.append(t)
        self.submitted += 1
        if self.mode == "orders":
            # a worker may finish any waiting task before the next submission
            opts = [None] + list(range(len(self.pending)))
            k = self.ctx.dev(f"run at submission {self.submitted}", opts)
            if k is not None:
                self.step(k)
        return t

    apply_async = submit

    def step(self, k):
        t = self.pending.pop(k)
        t.run()
        t.finish()

    def retrieve_result(self, out, timeout=None):
        while not out.finished:
            if self.mode == "orders":
                self.step(self.ctx.dev("next task", list(range(len(self.pending)))))
            elif len(self.pending) > 1 and not self.interleaved:
                pick = [self.pending.pop(0), self.pending.pop(self.ctx.choose("partner", list(range(len(self.pending)))))]
                self.interleaved += 1
                s = Scheduler(self.ctx, [p.run for p in pick], self.slice)
                s.run(0)
                order = self.ctx.choose("completion", [(0, 1), (1, 0)])
                for i in order:
                    pick[i].finish()
            else:
                self.step(0)
        return out.get()

    def retrieve_result_callback(self, out):
        return out


class Isolated(Controlled):
    """The same for processes: each batch works on a copy of its arguments."""
    supports_sharedmem = False
    uses_threads = False

    def submit(self, func, callback=None):
        blob = cloudpickle.dumps(getattr(func, "items", func))

        def run():
            work = cloudpickle.loads(blob)
            return work() if callable(work) else [f(*a, **k) for f, a, k in work]
        return super().submit(run, callback)

    apply_async = submit


joblib.register_parallel_backend("controlled", Controlled)
joblib.register_parallel_backend("isolated", Isolated)


def compare(ctx, fun, args, kw, seed, label, backend="controlled", kind="RandomState"):
    ref = call(ctx, fun, args, label, random_state=generator(kind, seed), n_jobs=1, **kw)
    Controlled.ctx = ctx
    g = generator(kind, seed)
    keep = [a.copy() for a in args]
    with joblib.parallel_config(backend):
        t = call(ctx, fun, args, label, random_state=g, **kw, n_jobs=NJOBS[0])
    ctx.check(key(t) == key(ref) or (t.pvalue == ref.pvalue and abs(t.statistic - ref.statistic) <= 1e-12 * abs(ref.statistic)),
              f"{label}: {key(t)} with {NJOBS[0]} jobs, {key(ref)} with one")
    ctx.check(all(np.array_equal(a, b) for a, b in zip(args, keep)), f"{label}: inputs modified")
    ctx.observe((label, key(t)))


NJOBS = [2]


def orders(rs, jobs):
    def body(ctx):
        test = ctx.choose("test", TESTS)
        r = ctx.choose("resamples", rs)
        n_jobs = ctx.choose("n_jobs", jobs)
        seed = ctx.choose("seed", [0, 3])
        ctx.commit()
        fun, args = make(test, 6, None)
        Controlled.mode = "orders"
        NJOBS[0] = n_jobs
        compare(ctx, fun, args, dict(num_resamples=r), seed, test)
    return body


def isolated(rs, jobs):
    """As in worker processes, which do not share memory."""
    def body(ctx):
        test = ctx.choose("test", TESTS)
        r = ctx.choose("resamples", rs)
        n_jobs = ctx.choose("n_jobs", jobs)
        seed = ctx.choose("seed", [0, 3, 4])
        kind = ctx.choose("kind", ["RandomState", "int", "default_rng"])
        n = ctx.choose("n", [5, 7])
        ctx.commit()
        fun, args = make(test, n, None)
        Controlled.mode = "orders"
        NJOBS[0] = n_jobs
        compare(ctx, fun, args, dict(num_resamples=r), seed, test, "isolated", kind)
    return body


def interleavings(jobs, n, rs):
    def body(ctx):
        test = ctx.choose("test", TESTS)
        r = ctx.choose("resamples", rs)
        n_jobs = ctx.choose("n_jobs", jobs)
        sl = ctx.choose("slice", list(range(8)))
        ctx.commit()
        fun, args = make(test, n, None)
        Controlled.mode = "threads"
        Controlled.slice = (sl, 8)
        NJOBS[0] = n_jobs
        compare(ctx, fun, args, dict(num_resamples=r), 1, test)
    return body


def backends(names, jobs):
    """The real backends of joblib."""
    def body(ctx):
        test = ctx.choose("test", TESTS)
        backend = ctx.choose("backend", names)
        n_jobs = ctx.choose("n_jobs", jobs)
        r = ctx.choose("resamples", [0, 1, 5, 30])
        ctx.commit()
        fun, args = make(test, 7, 2)
        ref = call(ctx, fun, args, random_state=11, num_resamples=r, n_jobs=1)
        with joblib.parallel_config(backend):
            t = call(ctx, fun, args, f"{test} in {backend}", random_state=11, num_resamples=r, n_jobs=n_jobs)
        ctx.check(key(t) == key(ref), f"{test} in {backend} with {n_jobs} jobs: {key(t)} instead of {key(ref)}")
        ctx.observe((test, r, key(t)))
    return body


def harnesses(tier):
    t = tier == "thorough"
    return [
        Harness("seeds", seeds, bound=4 if t else 3, note="seeds, generators, sizes, number of resamples"),
        Harness("unseeded", unseeded, note="no seed"),
        Harness("orders", orders([0, 1, 2, 3, 4] + ([5] if t else []), [2, 3, 4, -1] if not t else [2, 3, 4, 5, -1]), bound=None if t else 5,
                note="orders of execution of the parallel tasks, relative to their submission"),
        Harness("isolated", isolated([0, 1, 2, 3, 4] + ([8] if t else []), [2, 4, -1]), bound=1 if not t else 2,
                note="the same, with tasks that do not share memory (processes)"),
        Harness("isolated_many", isolated([12, 30], [2, 3, 8, -1]), bound=0 if not t else 1,
                note="the same, with more tasks"),
        Harness("isolated_hundreds", isolated([65, 70, 101, 129, 257] + ([513, 1025] if t else []), [2, 8]), bound=0,
                note="the same, with hundreds of tasks"),
        Harness("interleavings", interleavings([2] if not t else [2, 3], 4 if not t else 5, [2] if not t else [2, 3, 4]), bound=2,
                note="line-level interleavings of two parallel tasks"),
        Harness("backends", backends(["threading", "sequential"], [2, 3, 4, -1, None]), note="real thread backends"),
    ]
