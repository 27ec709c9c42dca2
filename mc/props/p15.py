"""P15: pure functions: no effect on the inputs, no memory of past calls."""
import decimal
import os
import pickle
import random
import sys
import warnings
from decimal import Decimal
from fractions import Fraction

import numpy as np

import dcor
from mc import data
from mc.core import Harness
from mc.ops import OPS, flat

M = dcor.DistanceCovarianceMethod
CONTENTS = [("irregular", "signed", "primes"), ("mod7", "zigzag", "irregular"), ("golden", "primes", "squares")]


def samples(kind, n, variant):
    d = None if kind == "v" else 2
    return [data.sample(f, n, d) for f in CONTENTS[variant]]


EXPECTED = {}
KEEP = []


def expected(op, kind, n, variant):
    """The result of the first call with those contents, in fresh arrays."""
    key = (op, kind, n, variant)
    if key not in EXPECTED:
        args = samples(kind, n, variant)
        KEEP.append(args)          # their addresses are never reused
        EXPECTED[key] = flat(OPS[op][0](*args))
    return EXPECTED[key]


def same(got, exp):
    if got.shape != exp.shape:
        return False
    tol = 1e-12 * max(1., float(np.abs(exp[np.isfinite(exp)]).max(initial=0)))
    return bool(np.all((np.abs(got - exp) <= tol) | (got == exp) | (np.isnan(got) & np.isnan(exp))))


def environment():
    """Settings of the process that belong to the caller."""
    r = np.random.get_state()
    d = decimal.getcontext()
    return (str(np.geterr()), np.geterrcall(), np.getbufsize(), [str(f) for f in warnings.filters], r[1].tobytes(), r[2],
            str(sorted(np.get_printoptions().items(), key=lambda i: i[0])), random.getstate(), sys.getrecursionlimit(),
            (d.prec, d.rounding, d.Emin, d.Emax, [t for t in d.traps if d.traps[t]]))


TYPES = {
    "float64": lambda x: x,
    "float32": lambda x: x.astype(np.float32),
    "int64": lambda x: np.rint(x * 8).astype(np.int64),
    "longdouble": lambda x: x.astype(np.longdouble),
    "fraction": lambda x: _objects(x, lambda v: Fraction(int(round(v * 64)), 64)),
    "decimal": lambda x: _objects(x, lambda v: Decimal(int(round(v * 64))) / 64),
}


def _objects(x, f):
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(x.shape):
        out[i] = f(float(x[i]))
    return out


def types(ctx):
    """Samples of every type, also the ones that an operation refuses."""
    op = ctx.choose("operation", list(OPS))
    kind = ctx.choose("kind", list(OPS[op][1]))
    tx = ctx.choose("type_x", list(TYPES))
    ty = ctx.choose("type_y", list(TYPES))
    n = ctx.choose("n", [5, 9])
    ctx.commit()
    x, y, z = samples(kind, n, 0)
    args = [TYPES[tx](x), TYPES[ty](y), TYPES[tx](z)]
    keep = [a.copy() for a in args]
    args2 = samples(kind, n, 1)
    env = environment()
    other = OPS["stats"][0]
    exp = expected("stats", kind, n, 1)
    r = f = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            r = OPS[op][0](*args)
            f = flat(r)
        except Exception:
            pass        # (which types are accepted is not the matter of this property)
    ctx.calls += 1
    ctx.check(environment() == env, f"{op} with {tx} and {ty}: changes global settings")
    ctx.check(all(a.dtype == b.dtype and np.array_equal(a, b) for a, b in zip(args, keep)), f"{op} with {tx} and {ty}: inputs modified",
              before=keep, after=args)
    got = flat(ctx.call("stats", other, *args2))
    ctx.check(same(got, exp), f"stats after {op} with {tx} and {ty}: {got[:6]} instead of {exp[:6]}")
    if f is not None:
        ctx.check(np.array_equal(flat(r), f, equal_nan=True), f"{op} with {tx} and {ty}: the result changes with a later call")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            g = flat(ctx.call(op, OPS[op][0], *args))
        ctx.check(same(g, f), f"{op} with {tx} and {ty}: the second call gives {g[:6]} instead of {f[:6]}")
    ctx.observe((op, kind, tx, ty, f is not None))


def layout(x, how):
    if how == "C":
        return x
    if how == "readonly":
        x.flags.writeable = False
        return x
    if how == "F":
        return np.asfortranarray(x)
    if how == "view":
        big = np.full((x.shape[0] * 2 + 3,) + x.shape[1:], 5.)
        big[1:1 + 2 * x.shape[0]:2] = x
        return big[1:1 + 2 * x.shape[0]:2]
    if how == "column":
        return x.reshape(-1, 1) if x.ndim == 1 else x
    raise KeyError(how)


def purity(ctx):
    op = ctx.choose("operation", list(OPS))
    kind = ctx.choose("kind", list(OPS[op][1]))
    n = ctx.choose("n", [4, 5, 8, 33])
    how = ctx.choose("layout", ["C", "readonly", "F", "view"] + ([] if op.startswith("rowwise") else ["column"]))
    alias = ctx.choose("aliased", [False, True])
    ctx.commit()
    args = [layout(a, how) for a in samples(kind, n, 0)]
    if alias:
        args[1] = args[0]
    keep = [a.copy() for a in args]
    flags = [a.flags.writeable for a in args]
    env = environment()
    fun = OPS[op][0]
    r1 = ctx.call(op, fun, *args)
    ctx.check(environment() == env, f"{op}: changes global settings")
    ctx.check(all(np.array_equal(a, b) for a, b in zip(args, keep)), f"{op}: inputs modified",
              before=keep, after=args)
    ctx.check(flags == [a.flags.writeable for a in args], f"{op}: flags of the inputs modified")
    f1 = flat(r1)
    if not alias:
        exp = expected(op, kind, n, 0)
        ctx.check(same(f1, exp), f"{op}: {f1[:6]} instead of {exp[:6]} with layout {how}")
    # neither the inputs nor the following results depend on the result
    if isinstance(r1, np.ndarray) and r1.ndim and r1.flags.writeable:
        ctx.check(not any(np.shares_memory(r1, a) for a in args), f"{op}: the result shares memory with the input")
        r1[...] = 77.
    r2 = ctx.call(op, fun, *args)
    f2 = flat(r2)
    ctx.check(same(f2, f1), f"{op}: the second call gives {f2[:6]} instead of {f1[:6]}")
    # a result is not affected by later changes of the input
    if how != "readonly":
        for a in args:
            a[...] = a * -2 + 1
        ctx.check(same(flat(r2), f2), f"{op}: the result changes with the input")
    ctx.observe((op, kind, round(float(np.nansum(np.where(np.isfinite(f1), f1, 0))), 6)))


def bad_call(which, args):
    """Calls that must fail (their exception is swallowed)."""
    x, y, z = args
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            if which == "sizes":
                dcor.distance_covariance(x, y[:-1])
            elif which == "avl sizes":
                dcor.distance_covariance_sqr(np.ravel(x), np.ravel(y)[:-1], method="avl")
            elif which == "exponent":
                dcor.distance_covariance(np.ravel(x), np.ravel(y), method=M.AVL, exponent=.5)
            elif which == "average":
                def boom(m):
                    raise RuntimeError("boom")
                dcor.energy_distance(x, y, average=boom)
            elif which == "test average":
                calls = []

                def late(m):
                    calls.append(1)
                    if len(calls) > 4:
                        raise RuntimeError("late")
                    return np.mean(m)
                dcor.homogeneity.energy_test(x, y, num_resamples=4, random_state=0, average=late)
            elif which == "method":
                dcor.distance_covariance(x, y, method="unknown")
            elif which == "center":
                dcor.u_centered(np.arange(6.).reshape(2, 3))
            elif which == "rowwise":
                dcor.rowwise(dcor.energy_distance, [x], [y], rowwise_mode=dcor.RowwiseMode.OPTIMIZED)
            elif which == "generator":
                class Bad(np.random.RandomState):
                    def permutation(self, n):
                        raise RuntimeError("no more")
                dcor.independence.distance_covariance_test(x, y, num_resamples=2, random_state=Bad(0))
            elif which == "object":
                dcor.distance_correlation(np.array(list("abcdef")), np.array(list("ghijkl")))
        except Exception:
            pass


BAD = ["sizes", "avl sizes", "exponent", "average", "test average", "method", "center", "rowwise", "generator", "object"]


def after_failure(ctx):
    bad = ctx.choose("failing call", BAD)
    op = ctx.choose("operation", list(OPS))
    ctx.commit()
    kind = OPS[op][1][0]
    exp = expected(op, kind, 6, 0)
    args = samples(kind, 6, 0)
    env = environment()
    bad_call(bad, args)
    ctx.calls += 1
    ctx.check(environment() == env, f"failing call ({bad}): changes global settings")
    got = flat(ctx.call(op, OPS[op][0], *args))
    ctx.check(same(got, exp), f"{op} after a failing call ({bad}): {got[:6]} instead of {exp[:6]}")
    ctx.observe((bad, op))


STEPS = ["same", "in place", "only x", "only y", "new arrays", "freed arrays", "other size", "swap", "through a view"]


def histories(ops, depth, n):
    """Calls separated by changes of the contents of the arrays."""
    def body(ctx):
        first = ctx.choose("operation0", ops)
        second = ctx.choose("operation1", ops)
        prog = [first, second]
        ctx.commit()
        steps = [ctx.choose("change0", STEPS)]
        for k in range(2, depth):
            steps.append(ctx.choose(f"change{k - 1}", STEPS))
            prog.append(ctx.choose(f"operation{k}", [first] if depth == 3 else [first, second]))
        kind = "v"
        st = State(kind, n)
        kept = []
        for k, op in enumerate(prog):
            if k:
                st.change(steps[k - 1])
            exp = st.expected(op)
            raw = ctx.call(op, OPS[op][0], *st.args)
            got = flat(raw)
            kept.append((op, raw, got))
            ctx.check(same(got, exp),
                      f"call {k} of the history {prog} with changes {steps}: {op} gives {got[:6]} instead of {exp[:6]}",
                      args=st.args)
        for k, (op, raw, got) in enumerate(kept):
            now = flat(raw)
            ctx.check(np.array_equal(now, got, equal_nan=True),
                      f"the result of call {k} ({op}) of the history {prog} with changes {steps} has become {now[:6]}, from {got[:6]}")
        ctx.observe((first, second))
    return body


class State:
    """Contents are tracked symbolically: a variant for each array."""

    def __init__(self, kind, n):
        self.kind, self.n = kind, n
        self.which = [0, 0, 0]
        self.order = [0, 1, 2]
        self.args = samples(kind, n, 0)

    def _content(self, i):
        return data.sample(CONTENTS[self.which[i]][self.order[i]], self.n, None if self.kind == "v" else 2)

    def change(self, how):
        if how == "in place":
            self.which = [(w + 1) % 3 for w in self.which]
            for i, a in enumerate(self.args):
                a[...] = self._content(i)
        elif how in ("only x", "only y"):
            i = 0 if how == "only x" else 1
            self.which[i] = (self.which[i] + 1) % 3
            self.args[i][...] = self._content(i)
        elif how == "through a view":
            self.which = [(w + 1) % 3 for w in self.which]
            for i, a in enumerate(self.args):
                v = a.view()
                v.flat[:] = self._content(i).ravel()
        elif how == "new arrays":
            self.which = [(w + 1) % 3 for w in self.which]
            old = self.args
            self.args = [self._content(i) for i in range(3)]
            KEEP.append(old)
            del KEEP[:-2000]
        elif how == "freed arrays":
            # the new arrays usually take the addresses of the old ones
            self.which = [(w + 1) % 3 for w in self.which]
            shapes = [a.shape for a in self.args]
            self.args = None
            self.args = [np.empty(s) for s in shapes]
            for i, a in enumerate(self.args):
                a[...] = self._content(i)
        elif how == "other size":
            self.n = self.n + 1 if self.n % 2 else self.n - 1
            self.args = [self._content(i) for i in range(3)]
        elif how == "swap":
            self.args[0], self.args[1] = self.args[1], self.args[0]
            self.which[0], self.which[1] = self.which[1], self.which[0]
            self.order[0], self.order[1] = self.order[1], self.order[0]

    def expected(self, op):
        key = (op, self.kind, self.n, tuple(self.which), tuple(self.order))
        if key not in EXPECTED:
            args = [self._content(i) for i in range(3)]
            KEEP_FOREVER.append(args)
            EXPECTED[key] = flat(OPS[op][0](*args))
        return EXPECTED[key]


KEEP_FOREVER = []


def projections(ctx):
    """A projection keeps projecting onto the matrix it was made from."""
    comp = ctx.choose("complementary", [False, True])
    n = ctx.choose("n", [4, 5, 8])
    seq = ctx.choose("calls", [(a, b, c) for a in (1, 2) for b in (1, 2) for c in (1, 2)])
    other = ctx.choose("the projections", ["same object", "new object each time"])
    between = ctx.choose("between", ["nothing", "other projection", "mutate argument", "mutate result", "other calls"])
    ctx.commit()
    fun = dcor.u_complementary_projection if comp else dcor.u_projection
    mats = [dcor.u_centered(dcor.distances.pairwise_distances(data.sample(f, n, 2))) for f in ("irregular", "signed", "primes")]
    base = mats[0].copy()

    def want(m):
        a = m.copy()
        den = (base * base).sum()
        p = (a * base).sum() / den * base
        return a - p if comp else p
    p = ctx.call("projection", fun, mats[0])
    kept = []
    for k, i in enumerate(seq):
        if k and other != "same object":
            p = ctx.call("projection", fun, mats[0])
        m = mats[i].copy()
        got = ctx.call("projection", p, m)
        ctx.close(got, want(mats[i]), 1e-11 * float(np.abs(mats[i]).max()), f"call {k} of a projection ({between})")
        ctx.check(np.array_equal(m, mats[i]), "the projected matrix is modified")
        ctx.check(np.array_equal(mats[0], base), "the matrix of the projection is modified")
        if between != "mutate result":
            kept.append((got, got.copy()))
        for j, (old, copy) in enumerate(kept):
            ctx.check(np.array_equal(old, copy), f"the result of call {j} of a projection changes at call {k}")
        if between == "other projection":
            fun(mats[2])(mats[1])
        elif between == "mutate argument":
            m[...] = 9
        elif between == "mutate result":
            got[...] = 9
        elif between == "other calls":
            dcor.partial_distance_correlation(*samples("m", n, 1))
    ctx.observe((comp, n, seq))


def enums(ctx):
    """The options keep their identity, whatever is called before."""
    op = ctx.choose("operation", list(OPS))
    ctx.commit()
    before = [(e.__name__, [m.name for m in e]) for e in (dcor.CompileMode, dcor.RowwiseMode, M, dcor.EstimationStatistic)]
    kind = OPS[op][1][0]
    public = [k for k in sorted(dcor.__dict__) if k[0] != '_']
    ctx.call(op, OPS[op][0], *samples(kind, 5, 0))
    ctx.check(before == [(e.__name__, [m.name for m in e]) for e in (dcor.CompileMode, dcor.RowwiseMode, M, dcor.EstimationStatistic)],
              "options modified")
    ctx.check([k for k in sorted(dcor.__dict__) if k[0] != '_'] == public, "public names modified")
    ctx.observe(op)


# --- results of a process that has made no other call --------------------------
PRISTINE = {}


def pristine(jobs):
    """Evaluate each job in a process of its own, forked before any call."""
    todo = [k for k in jobs if k not in PRISTINE]
    sys.stdout.flush()
    for i in range(0, len(todo), 8):
        running = []
        for k in todo[i:i + 8]:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                out = None
                try:
                    os.close(r)
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        out = ("ok", flat(jobs[k]()))
                except Exception as e:      # the same call has to fail in the same way later
                    out = ("error", type(e).__name__)
                finally:
                    try:
                        with os.fdopen(w, "wb") as f:
                            pickle.dump(out, f)
                    finally:
                        os._exit(0)
            os.close(w)
            running.append((k, r, pid))
        for k, r, pid in running:
            with os.fdopen(r, "rb") as f:
                data_ = f.read()
            os.waitpid(pid, 0)
            PRISTINE[k] = pickle.loads(data_) if data_ else ("died", None)


def attempt(ctx, fun):
    ctx.calls += 1
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return "ok", flat(fun())
        except Exception as e:
            return "error", type(e).__name__


def agrees(got, want):
    return got[0] == want[0] and (same(got[1], want[1]) if got[0] == "ok" else got[1] == want[1])


def _base(n=6, d=2):
    return [data.sample(f, n, d) for f in CONTENTS[0]]


def _with(args, i, new):
    out = [a.copy() for a in args]
    out[i] = new
    return out


def _changed(x, idx, delta):
    x = x.copy()
    x[idx] += delta
    return x


V = lambda: _base(12, None)  # noqa
RELATED = {
    # name: (first arguments, second arguments): contents that are easily confused
    "same bytes, vector or matrix": (V, lambda: [a.reshape(6, 2) for a in V()]),
    "same bytes, other shape": (lambda: [a.reshape(6, 2) for a in V()], lambda: [a.reshape(4, 3) for a in V()]),
    "same bytes, other order": (lambda: [a.reshape(6, 2) for a in V()], lambda: [a.reshape(6, 2, order="F") for a in V()]),
    "same bytes, other type": (V, lambda: [a.view(np.int64) for a in V()]),
    "equal in single precision": (V, lambda: [a * (1 + 1e-9 * np.arange(12)) for a in V()]),
    "x in other order": (V, lambda: _with(V(), 0, V()[0][::-1].copy())),
    "all in other order, matrix": (_base, lambda: [a[[3, 0, 5, 1, 4, 2]] * [1, 1] for a in _base()]),
    "minus one and minus two": (lambda: _with(V(), 0, np.array([-1., 3, 8, -1, 5, 2, 9, 4, -1, 0, 1, 6])),
                                lambda: _with(V(), 0, np.array([-2., 3, 8, -1, 5, 2, 9, 4, -2, 0, 1, 6]))),
    "zero and minus zero": (lambda: _with(V(), 0, np.array([0., 3, 8, 0, 5, 2, 9, 4, 0, 0, 1, 6])),
                            lambda: _with(V(), 0, np.array([-0., 3, 8, 0, 5, 2, 9, 4, -0., 0, 1, 6]))),
    "same ends": (V, lambda: [_changed(a, 5, 2.5) for a in V()]),
    "same ends, matrix": (_base, lambda: [_changed(a, (3, 1), 2.5) for a in _base()]),
    "same sum": (V, lambda: [_changed(_changed(a, 2, 1.), 7, -1.) for a in V()]),
    "y changes": (V, lambda: _with(V(), 1, V()[1] ** 2)),
    "z changes": (V, lambda: _with(V(), 2, V()[2] ** 2)),
    "other unit": (V, lambda: [a * 2 for a in V()]),
    "x and y exchanged": (V, lambda: [V()[i] for i in (1, 0, 2)]),
    "x and z exchanged": (_base, lambda: [_base()[i] for i in (2, 1, 0)]),
    "one component less": (lambda: _base(6, 3), lambda: [a[:, :2].copy() for a in _base(6, 3)]),
    "first observations": (lambda: _base(12, None), lambda: [a[:8].copy() for a in _base(12, None)]),
}
MANY = dict(num_resamples=30)
OPTIONS = {
    "pairwise_distances": (dcor.distances.pairwise_distances, 2, [{}, {"exponent": .5}, {"exponent": 1.5}, {"exponent": 2}]),
    "energy_distance": (dcor.energy_distance, 2, [
        {}, {"exponent": .5}, {"exponent": 1.5}, {"estimation_stat": "u"}, {"average": np.median}, {"average": np.max},
        {"estimation_stat": "u", "average": np.median}]),
    "energy_test_statistic": (dcor.homogeneity.energy_test_statistic, 2, [
        {}, {"exponent": .5}, {"estimation_stat": "u"}, {"average": np.median}]),
    "energy_test": (dcor.homogeneity.energy_test, 3, [
        {}, dict(MANY, random_state=0), dict(MANY, random_state=1), dict(MANY, random_state=0, exponent=.5),
        dict(MANY, random_state=0, estimation_stat="u"), dict(MANY, random_state=0, average=np.median), dict(num_resamples=7, random_state=0)]),
    "distance_covariance_test": (dcor.independence.distance_covariance_test, 2, [
        {}, dict(MANY, random_state=0), dict(MANY, random_state=1), dict(MANY, random_state=0, exponent=.5), dict(num_resamples=7, random_state=0)]),
    "partial_distance_covariance_test": (dcor.independence.partial_distance_covariance_test, 3, [
        {}, dict(MANY, random_state=0), dict(MANY, random_state=1), dict(MANY, random_state=0, exponent=.5), dict(num_resamples=7, random_state=0)]),
    "partial_distance_covariance": (dcor.partial_distance_covariance, 3, [{}, {"exponent": .5}, {"exponent": 1.5}]),
    "partial_distance_correlation": (dcor.partial_distance_correlation, 3, [{}, {"exponent": .5}, {"exponent": 1.5}]),
}
for _name in ("distance_covariance_sqr", "u_distance_covariance_sqr", "distance_correlation", "u_distance_correlation_sqr",
              "distance_stats", "u_distance_stats_sqr"):
    OPTIONS[_name] = (getattr(dcor, _name), 2, [
        {}, {"exponent": .5}, {"exponent": 1.5}, {"method": "naive"}, {"method": "mergesort"},
        {"method": "avl", "compile_mode": dcor.CompileMode.NO_COMPILE}, {"method": "avl", "exponent": .5}])
for _name in ("distance_correlation_af_inv_sqr", "distance_correlation_af_inv"):
    OPTIONS[_name] = (getattr(dcor, _name), 2, [{}, {"exponent": .5}, {"exponent": 1.5}, {"method": "naive"}])


def _option_job(name, k, args=None):
    fun, arity, variants = OPTIONS[name]
    args = (V() if args is None else args)[:arity]
    return lambda: fun(*args, **variants[k])


def prepare():
    jobs = {}
    for rel, pair in RELATED.items():
        for op in OPS:
            for i in (0, 1):
                jobs["related", rel, op, i] = (lambda f=OPS[op][0], make=pair[i]: f(*make()))
    for name in OPTIONS:
        for k in range(len(OPTIONS[name][2])):
            jobs["options", name, k] = _option_job(name, k)
    pristine(jobs)


def related(ctx):
    """Calls with contents that a memory could confuse."""
    rel = ctx.choose("relation", list(RELATED))
    op = ctx.choose("operation", list(OPS))
    seq = ctx.choose("sequence", [(0, 1), (1, 0), (0, 1, 0)])
    same_buffer = ctx.choose("arrays", ["new", "same buffer"])
    ctx.commit()
    made = [make() for make in RELATED[rel]]
    if same_buffer == "same buffer" and all(a.nbytes == b.nbytes for a, b in zip(*made)):
        room = [np.empty(a.size) for a in made[0]]

        def get(i):
            out = []
            for buf, a in zip(room, made[i]):
                v = buf.view(a.dtype).reshape(a.shape)
                v[...] = a
                out.append(v)
            return out
    else:
        def get(i):
            return made[i]
    for k, i in enumerate(seq):
        got = attempt(ctx, lambda: OPS[op][0](*get(i)))
        want = PRISTINE["related", rel, op, i]
        ctx.check(agrees(got, want), f"{op}, call {k} of the history {seq} of contents ({rel}): "
                  f"{got[1][:6]} instead of {want[1][:6]} in a process without other calls")
    ctx.observe((rel, op))


def options(ctx):
    """Calls on the same arrays with other options in between."""
    name = ctx.choose("function", list(OPTIONS))
    a = ctx.choose("first", list(range(len(OPTIONS[name][2]))))
    b = ctx.choose("second", list(range(len(OPTIONS[name][2]))))
    ctx.commit()
    args = V()
    for k in (a, b, a):
        got = attempt(ctx, _option_job(name, k, args))
        want = PRISTINE["options", name, k]
        ctx.check(agrees(got, want), f"{name} with {OPTIONS[name][2][k]} in a history with {OPTIONS[name][2][a]} and {OPTIONS[name][2][b]}: "
                  f"{got[1][:6]} instead of {want[1][:6]} in a process without other calls")
    ctx.observe((name, a, b))


def unaligned(x, dtype=float):
    raw = np.zeros(x.size * np.dtype(dtype).itemsize + 1, np.uint8)
    v = raw[1:].view(dtype).reshape(x.shape)
    v[...] = x
    return v


def spaced(x):
    big = np.zeros((3 * x.shape[0],) + x.shape[1:])
    big[1::3] = x
    return big[1::3]


def frozen(x):
    x = x.copy()
    x.flags.writeable = False
    return x


class Sub(np.ndarray):
    pass


REPRESENTATIONS = {
    "native": lambda x: x, "unaligned": unaligned, "byte swapped": lambda x: x.astype(">f8"), "read only": frozen,
    "spaced": spaced, "reversed": lambda x: x[::-1].copy()[::-1], "subclass": lambda x: x.copy().view(Sub),
    "single": lambda x: x.astype("f4"), "byte swapped single": lambda x: x.astype(">f4"),
    "unaligned single": lambda x: unaligned(x, "f4"), "unaligned byte swapped": lambda x: unaligned(x, ">f8"),
    "integer": lambda x: np.rint(x).astype("i8"), "byte swapped integer": lambda x: np.rint(x).astype(">i8"),
    "extended": lambda x: x.astype("g"),
}
ALONE = {}


def in_child(fun):
    """Evaluate in a process of its own, forked from this one."""
    job = {}
    PRISTINE.pop("child", None)
    job["child"] = fun
    pristine(job)
    return PRISTINE.pop("child")


def representations(ctx):
    """A call with one representation of the samples and then another one.

    The calls are made in processes of their own, because what happens the first
    time is what matters.
    """
    op = ctx.choose("operation", list(OPS))
    second = ctx.choose("second", list(REPRESENTATIONS))
    ctx.commit()
    first = ctx.choose("first", list(REPRESENTATIONS))
    which = ctx.choose("which", ["xyz", "x", "y"])
    other = ctx.choose("other", ["same", "other operation"])
    shape = _base(7, None if "v" in OPS[op][1] else 2)

    def args(rep):
        return [REPRESENTATIONS[rep](a) if c in which else a.copy() for a, c in zip(shape, "xyz")]

    def history():
        try:
            OPS[op if other == "same" else "u_stats_merge" if "v" in OPS[op][1] else "u_stats_naive"][0](*args(first))
        except Exception:
            pass
        return OPS[op][0](*args(second))
    key = op, second, which
    if key not in ALONE:
        ALONE[key] = in_child(lambda: OPS[op][0](*args(second)))
    want, got = ALONE[key], in_child(history)
    ctx.calls += 3
    ctx.check(close(got, want), f"{op} of {second} samples after {first} ones ({which}): {got[1][:6]} instead of {want[1][:6]}")
    ctx.observe((op, second, want[0]))


def close(got, want):
    if got[0] != want[0] or got[0] != "ok":
        return got[0] == want[0] and got[1] == want[1]
    a, b = got[1], want[1]
    sc = max(1e-30, float(np.abs(b[np.isfinite(b)]).max(initial=0)))
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= 1e-4 * sc) | (a == b) | (np.isnan(a) & np.isnan(b))))


def harnesses(tier):
    t = tier == "thorough"
    vops = [o for o in OPS if "v" in OPS[o][1]]
    prepare()
    return [
        # (first, before any call is made by this process)
        Harness("representations", representations, note="every pair of representations of the samples, in processes without other calls"),
        Harness("related", related, note="every operation on contents that a memory could confuse, against processes without other calls"),
        Harness("options", options, note="every pair of options on the same arrays, against processes without other calls"),
        Harness("purity", purity, note="operation x layout x aliasing: inputs, settings and results are independent"),
        Harness("types", types, note="operation x types of the samples: inputs, settings and later calls are unaffected"),
        Harness("after_failure", after_failure, note="every operation after every kind of failing call"),
        Harness("histories2", histories(vops, 2, 5), note="every pair of operations x change of contents in between"),
        Harness("histories2_medium", histories(vops, 2, 65), note="the same with samples of 65"),
        Harness("histories3", histories(vops, 3, 7), note="every history a-b-a x two changes of contents"),
        Harness("projections", projections, note="histories of calls of a projection"),
        Harness("enums", enums, note="options and public names"),
    ] + ([Harness("histories4", histories(vops, 4, 5), note="every history of 4 calls over 2 operations x 3 changes")] if t else [])
