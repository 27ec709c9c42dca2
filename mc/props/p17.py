"""P17: the results depend on the values, not on their representation."""
import warnings

import array_api_strict as strict
import numpy as np

import dcor
from mc import data
from mc.core import Harness
from mc.ops import OPS, flat

M = dcor.DistanceCovarianceMethod


class Sub(np.ndarray):
    pass


# integer-valued samples, distinct enough to be well conditioned
def base(which, n, d, span):
    f = ["irregular", "signed", "primes"][which]
    x = data.sample(f, n, d)
    lo, hi = x.min(), x.max()
    v = np.rint((x - lo) / (hi - lo) * span)
    if which == 1:
        v = np.rint(v * .9) + 3
    return v


DT = {
    "float64": 1, "int8": 1, "uint8": 1, "int16": 1, "uint16": 1, "int32": 1, "uint32": 1, "int64": 1, "uint64": 1,
    ">f8": 1, "<f8": 1, ">i4": 1, ">i2": 1, "longdouble": 1, "float32": 1, ">f4": 1, "intc": 1, "uintp": 1,
}
LAYOUTS = ["C", "F", "strided", "reversed", "readonly", "unaligned", "subclass", "broadcast-free view", "transposed base"]


# (numba refuses unaligned arrays, when it is asked for explicitly)
ALIGNED = [h for h in LAYOUTS if h != "unaligned"]


def relayout(x, how):
    if how == "C":
        return x
    if how == "F":
        return np.asfortranarray(x)
    if how == "strided":
        big = np.zeros((x.shape[0] * 3,) + tuple(2 * s for s in x.shape[1:]), x.dtype)
        sl = (slice(1, None, 3),) + (slice(None, None, 2),) * (x.ndim - 1)
        big[sl] = x
        return big[sl]
    if how == "reversed":
        sl = (slice(None, None, -1),) * x.ndim
        return np.ascontiguousarray(x[sl])[sl]
    if how == "readonly":
        x = x.copy()
        x.flags.writeable = False
        return x
    if how == "unaligned":
        raw = np.zeros(x.nbytes + 1, np.uint8)
        v = raw[1:].view(x.dtype).reshape(x.shape)
        v[...] = x
        return v
    if how == "subclass":
        return x.copy().view(Sub)
    if how == "broadcast-free view":
        return x[np.arange(len(x))][:]
    if how == "transposed base":
        return x.T.copy().T
    raise KeyError(how)


def tolerance(dtypes):
    return 3e-3 if any("f4" in d or d == "float32" for d in dtypes) else 1e-9


def same(got, exp, tol):
    if got.shape != exp.shape:
        return False
    sc = max(1e-30, float(np.abs(exp[np.isfinite(exp)]).max(initial=0)))
    return bool(np.all((np.abs(got - exp) <= tol * sc) | (got == exp) | (np.isnan(got) & np.isnan(exp))))


EXPECTED = {}


def expected(op, arrays):
    key = (op,) + tuple((a.shape, np.asarray(a, float).tobytes()) for a in arrays)
    if key not in EXPECTED:
        EXPECTED[key] = flat(OPS[op][0](*[np.array(a, float) for a in arrays]))
    return EXPECTED[key]


# the compiled kernels, when asked for explicitly, take native doubles only
EXPLICIT_CPU = ("rowwise", "rowwise_cor")


def dtypes(ops):
    def body(ctx):
        op = ctx.choose("operation", ops)
        kind = ctx.choose("kind", list(OPS[op][1]))
        dx = ctx.choose("dtype_x", list(DT))
        dy = ctx.choose("dtype_y", ["float64"] + [k for k in DT if k not in ("float64", "<f8")] if dx in ("float64", "int32", "uint8")
                        else [dx, "float64"])
        n = ctx.choose("n", [5, 8])
        ctx.commit()
        arrays = [base(i, n, None if kind == "v" else 2, 100) for i in range(3)]
        if op.startswith("rowwise") and any(np.dtype(d).byteorder == ">" or np.dtype(d).itemsize > 8 for d in (dx, dy)):
            return
        if op in ("af_inv", "t_test") and "longdouble" in (dx, dy):
            return      # rejected: no linear algebra nor Student t for that type
        exp = expected(op, arrays)
        args = [arrays[0].astype(dx), arrays[1].astype(dy), arrays[2].astype(dy)]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = flat(ctx.call(f"{op} of {dx} and {dy}", OPS[op][0], *args))
        tol = tolerance((dx, dy))
        ctx.check(same(got, exp, tol), f"{op} of {dx} and {dy}: {got[:6]} instead of {exp[:6]}", args=args)
        ctx.observe((op, kind, round(float(exp[0]), 7)))
    return body


def booleans(ctx):
    op = ctx.choose("operation", [o for o in OPS if o not in ("af_inv", "partial_cor", "t_test")])
    kind = ctx.choose("kind", list(OPS[op][1]))
    n = ctx.choose("n", [6, 9])
    other = ctx.choose("other", ["bool", "float64", "int8"])
    ctx.commit()
    d = None if kind == "v" else 2
    arrays = [base(i, n, d, 100) > 40 + 10 * i for i in range(3)]
    if other != "bool":
        arrays[1] = base(1, n, d, 100).astype(other)
    if op == "pdcov_test":
        arrays[2] = base(2, n, d, 100)
    exp = expected(op, arrays)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = flat(ctx.call(f"{op} of booleans", OPS[op][0], *arrays))
    if op.endswith("test"):       # ties between the permuted statistics
        got, exp = got[1:], exp[1:]
    ctx.check(same(got, exp, 1e-9), f"{op} of booleans: {got[:6]} instead of {exp[:6]}", args=arrays)
    ctx.observe((op, kind, other))


BIG = {"int64": 10**12, "int32": 2 * 10**7, "int16": 320, "uint64": 2**55, "int8": 1.2, "uint8": 2.5, "uint32": 4 * 10**7, "uint16": 655}


def large_integers(ctx):
    """Values that use the whole range of the type: no overflow."""
    op = ctx.choose("operation", [o for o in OPS if o != "af_inv"])
    dt = ctx.choose("dtype", list(BIG))
    which = ctx.choose("which", ["x", "both"])
    ctx.commit()
    kind = OPS[op][1][-1]
    span = {"int8": 250, "uint8": 255}.get(dt, 100)
    arrays = [base(i, 7, None if kind == "v" else 2, span if i == 0 or which == "both" else 100) for i in range(3)]

    def conv(a):
        if dt in ("int8", "uint8"):
            v = a / a.max() * span
        else:
            v = a * BIG[dt]
        if np.dtype(dt).kind == "i":
            v = v - (v.max() // 2)
        v = np.rint(v)
        info = np.iinfo(dt)
        assert v.min() >= info.min and v.max() <= info.max
        return v.astype(dt)
    if which == "x":
        args = [conv(arrays[0]), arrays[1], arrays[2]]
    else:
        args = [conv(a) for a in arrays]
    exp = expected(op, [a.astype(float) for a in args])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = flat(ctx.call(f"{op} of large {dt}", OPS[op][0], *args))
    ctx.check(same(got, exp, 1e-9), f"{op} of large {dt}: {got[:6]} instead of {exp[:6]}", args=args)
    ctx.observe((op, dt, which))


def layouts(ctx):
    op = ctx.choose("operation", list(OPS))
    kind = ctx.choose("kind", list(OPS[op][1]))
    lx = ctx.choose("layout_x", LAYOUTS)
    ly = ctx.choose("layout_y", LAYOUTS)
    n = ctx.choose("n", [5, 33])
    ctx.commit()
    dt = ctx.choose("dtype", ["float64", "float32", "int64"] if n == 5 else ["float64"])
    arrays = [base(i, n, None if kind == "v" else 2, 100) for i in range(3)]
    exp = expected(op, arrays)
    args = [relayout(arrays[0].astype(dt), lx), relayout(arrays[1].astype(dt), ly), relayout(arrays[2].astype(dt), ly)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = flat(ctx.call(f"{op} of {lx} and {ly}", OPS[op][0], *args))
    ctx.check(same(got, exp, tolerance((dt,))), f"{op} of {lx} and {ly} arrays ({dt}): {got[:6]} instead of {exp[:6]}", args=args)
    ctx.observe((op, kind, n))


C = dcor.CompileMode
COMPILED = {f"{f.__name__} {m}": (lambda x, y, f=f, m=m: f(x, y, method=m, compile_mode=C.COMPILE_CPU))
            for f in (dcor.distance_covariance_sqr, dcor.u_distance_covariance_sqr, dcor.distance_stats_sqr, dcor.distance_correlation)
            for m in ("avl", "mergesort")}


def compiled(ctx):
    """The compiled implementations, when they are asked for explicitly."""
    op = ctx.choose("operation", list(COMPILED))
    lx = ctx.choose("layout_x", ALIGNED)
    ly = ctx.choose("layout_y", ALIGNED)
    col = ctx.choose("columns", [False, True])
    dt = ctx.choose("dtype", ["float64", "int64", "uint8"])
    n = ctx.choose("n", [5, 17])
    ctx.commit()
    arrays = [base(i, n, 1 if col else None, 100) for i in range(2)]
    exp = flat(COMPILED[op](*[a.copy() for a in arrays]))
    args = [relayout(arrays[0].astype(dt), lx), relayout(arrays[1].astype(dt), ly)]
    got = flat(ctx.call(f"{op} of {lx} and {ly} ({dt})", COMPILED[op], *args))
    ctx.check(same(got, exp, 1e-9), f"{op} of {lx} and {ly} arrays ({dt}): {got[:6]} instead of {exp[:6]}", args=args)
    ctx.observe((op, n))


def rows(ctx):
    """Matrices of rows of any layout."""
    f = ctx.choose("function", [dcor.distance_covariance_sqr, dcor.u_distance_correlation_sqr, dcor.distance_correlation])
    lx = ctx.choose("layout_x", LAYOUTS)
    ly = ctx.choose("layout_y", LAYOUTS)
    mode = ctx.choose("compile_mode", [C.AUTO, C.COMPILE_CPU, C.COMPILE_PARALLEL])
    dt = ctx.choose("dtype", ["float64", "int64", "float32"])
    how = ctx.choose("container", ["matrix", "list"])
    ctx.commit()
    x, y = (base(i, 4, 7, 100) for i in range(2))
    kw = {} if mode is C.AUTO else {"compile_mode": mode}
    exp = np.array([float(f(a.copy(), b.copy())) for a, b in zip(x, y)])
    args = [relayout(x.astype(dt), lx), relayout(y.astype(dt), ly)]
    if how == "list":
        args = [list(a) for a in args]
    got = np.asarray(ctx.call(f"rowwise({f.__name__}) of {lx} and {ly} ({dt})", dcor.rowwise, f, *args, **kw), float)
    ctx.check(same(got, exp, tolerance((dt,))), f"rowwise({f.__name__}) of {lx} and {ly} ({dt}) in {how}: {got} instead of {exp}",
              args=args)
    ctx.observe((f.__name__, lx, ly))


def columns(ctx):
    """Vectors are matrices of one column."""
    op = ctx.choose("operation", [o for o in OPS if "v" in OPS[o][1] and not o.startswith("rowwise")])
    n = ctx.choose("n", [4, 5, 6, 9, 33])
    which = ctx.choose("columns", ["x", "y", "xy", "xyz", "z", "yz"])
    fam = ctx.choose("layout", ["C", "strided", "F", "readonly"])
    ctx.commit()
    arrays = [data.sample(f, n) for f in ("irregular", "signed", "primes")]
    exp = expected(op, arrays)
    args = [relayout(a.reshape(-1, 1), fam) if c in which else a for a, c in zip(arrays, "xyz")]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = flat(ctx.call(f"{op} with columns", OPS[op][0], *args))
    ctx.check(same(got, exp, 1e-9), f"{op} with columns {which}: {got[:6]} instead of {exp[:6]}", args=args)
    ctx.observe((op, n))


ACCEPT_LISTS = ["af_inv", "partial_cov", "partial_cor", "energy", "energy_u", "energy_stat", "energy_test", "dcov_test",
                "pdcov_test", "pdist", "cdist"]


def lists(ctx):
    op = ctx.choose("operation", ACCEPT_LISTS)
    kind = ctx.choose("kind", ["v", "m"])
    n = ctx.choose("n", [5, 8])
    how = ctx.choose("how", ["list", "tuple", "int list"])
    ctx.commit()
    arrays = [base(i, n, None if kind == "v" else 2, 100) for i in range(3)]
    exp = expected(op, arrays)

    def conv(a):
        v = a.astype(int).tolist() if how == "int list" else a.tolist()
        return tuple(map(tuple, v)) if how == "tuple" and kind == "m" else tuple(v) if how == "tuple" else v
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = flat(ctx.call(f"{op} of {how}", OPS[op][0], *[conv(a) for a in arrays]))
    ctx.check(same(got, exp, 1e-9), f"{op} of {how}: {got[:6]} instead of {exp[:6]}")
    ctx.observe((op, kind, how))


# --- Array API -----------------------------------------------------------------
def from_strict(v):
    return np.asarray(v._array)


def is_strict(v):
    return type(v).__module__.startswith("array_api_strict")


MATRIX_OPS = {
    "double_centered": lambda a, b: dcor.double_centered(a),
    "u_centered": lambda a, b: dcor.u_centered(a),
    "mean_product": lambda a, b: dcor.mean_product(a, b),
    "u_product": lambda a, b: dcor.u_product(a, b),
    "u_projection": lambda a, b: dcor.u_projection(a)(b),
    "u_complementary_projection": lambda a, b: dcor.u_complementary_projection(a)(b),
}
API_OPS = ["dcov_naive", "dcov_exp", "u_stats_naive", "stats", "dcor", "af_inv", "partial_cov", "partial_cor", "energy",
           "energy_u", "energy_stat", "energy_test", "dcov_test", "pdcov_test", "t_test", "pdist", "cdist"]


def parts(r):
    if isinstance(r, dcor.HypothesisTest):
        return [r.statistic]
    if isinstance(r, dcor.Stats):
        return [r.covariance_xy, r.correlation_xy, r.variance_x, r.variance_y]
    return [r]


def array_api(ctx):
    op = ctx.choose("operation", API_OPS + list(MATRIX_OPS))
    kind = ctx.choose("kind", ["v", "m"] if op in OPS else ["v"])
    n = ctx.choose("n", [4, 5, 6, 9, 33])
    dt = ctx.choose("dtype", ["float64", "float32", "int64", "int32", "uint8", "int8"])
    deg = ctx.choose("data", ["general", "equal", "constant x"])
    ctx.commit()
    if op in MATRIX_OPS:
        if dt not in ("float64", "float32"):
            return
        d = [dcor.distances.pairwise_distances(base(i, n, 2, 100)) for i in range(2)]
        if "proj" in op or op == "u_product":
            d = [dcor.u_centered(v) for v in d]
        arrays = d
        f = MATRIX_OPS[op]
    else:
        arrays = [base(i, n, None if kind == "v" else 2, 100) for i in range(3)]
        if deg == "equal":
            arrays[1] = arrays[0].copy()
        elif deg == "constant x":
            arrays[0] = np.full_like(arrays[0], 3)
        if op in ("af_inv",) and (deg == "constant x" or n < 5):
            return
        if n == 4 and op in ("partial_cor", "t_test"):
            return
        f = OPS[op][0]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ref = f(*[a.copy() for a in arrays])
        args = [strict.asarray(a.astype(dt)) for a in arrays]
        got = ctx.call(f"{op} of Array API arrays ({dt})", f, *args)
    tol = tolerance((dt,))
    for a, b in zip(parts(got), parts(ref)):
        ctx.check(is_strict(a), f"{op}: Array API arrays give a {type(a).__name__}")
        a, b = from_strict(a).astype(float), np.asarray(b, float)
        if op == "partial_cor" and deg == "equal" or op == "t_test" and deg == "equal":
            continue
        if dt in ("float32",) and deg == "constant x" and op in ("dcor", "stats", "u_stats_naive"):
            continue
        sc = max(float(np.abs(b[np.isfinite(b)]).max(initial=0)), 1e-3)
        ok = (a.shape == b.shape) and bool(np.all((np.abs(a - b) <= tol * sc) | (a == b) | (np.isnan(a) & np.isnan(b))))
        ctx.check(ok, f"{op} of Array API arrays ({dt}): {a} instead of {b}", args=arrays)
    if isinstance(got, dcor.HypothesisTest):
        ctx.check(isinstance(got.pvalue, float), f"{op}: p-value of type {type(got.pvalue).__name__}")
        if dt != "float32" and deg == "general":
            ctx.check(abs(float(got.pvalue) - float(ref.pvalue)) < 1e-9, f"{op}: p-value {got.pvalue} instead of {ref.pvalue}")
    ctx.observe((op, kind, n, dt))


def matrices(ctx):
    """Centering, products and projections of matrices of any type."""
    op = ctx.choose("operation", list(MATRIX_OPS))
    dt = ctx.choose("dtype", [d for d in DT if d != "<f8"])
    dy = ctx.choose("dtype_y", ["same", "float64", "int8", "uint8", "int64"])
    how = ctx.choose("layout", LAYOUTS)
    n = ctx.choose("n", [4, 5, 8])
    ctx.commit()
    m = [np.rint(np.abs(np.subtract.outer(b, b))) for b in (base(0, n, None, 110), base(1, n, None, 120))]
    ref = np.asarray(MATRIX_OPS[op](*[a.copy() for a in m]), float)
    args = [relayout(m[0].astype(dt), how), relayout(m[1].astype(dt if dy == "same" else dy), how)]
    keep = [a.copy() for a in args]
    got = np.asarray(ctx.call(f"{op} of {dt}", MATRIX_OPS[op], *args), float)
    tol = tolerance((dt,)) * max(1., float(np.abs(ref).max()))
    ctx.close(got, ref, tol, f"{op} of {dt} and {dy}, {how}", args=args)
    ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, args)), f"{op}: inputs modified")
    ctx.observe((op, n))


def signed_zeros(ctx):
    """The zeros are equal whatever their sign."""
    op = ctx.choose("operation", list(OPS) + list(COMPILED))
    f, kinds = OPS[op] if op in OPS else (COMPILED[op], ["v"])
    kind = ctx.choose("kind", list(kinds))
    n = ctx.choose("n", [5, 6, 40, 130])
    ctx.commit()
    sx = ctx.choose("signs_x", list(range(8)))
    sy = ctx.choose("signs_y", list(range(8)))
    arrays = []
    for i in range(3):
        a = base(i, n, None if kind == "v" else 2, 8 if i else 6)
        a = np.where(a == np.median(a), 0., a - np.rint(np.median(a)))
        a[1] = a[-1] = a[n // 2] = 0.
        arrays.append(a)
    key = (op, kind, n)
    if key not in EXPECTED:
        EXPECTED[key] = flat(f(*[a.copy() for a in arrays[:f.__code__.co_argcount if op in OPS else 2]]))
    exp = EXPECTED[key]
    args = []
    for a, mask in zip(arrays, (sx, sy, sx ^ sy)):
        z = np.flatnonzero(a.ravel() == 0)
        neg = z[[(mask >> (k % 3)) & 1 == 1 for k in range(len(z))]]
        b = a.copy()
        b.ravel()[neg] = -0.
        args.append(b)
    args = args[:2] if op not in OPS else args
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = flat(ctx.call(f"{op} of signed zeros", f, *args))
    ctx.check(same(got, exp, 1e-9), f"{op} of zeros with signs {sx} and {sy}: {got[:6]} instead of {exp[:6]}", args=args)
    ctx.observe(key)


def sizes(ctx):
    """Types and layouts in samples of other sizes."""
    op = ctx.choose("operation", list(OPS))
    kind = ctx.choose("kind", list(OPS[op][1]))
    n = ctx.choose("n", [16, 65, 100, 129, 257, 513, 1025])
    dx = ctx.dev("dtype_x", ["float64", "float32", "int64", "int32", "uint8", ">f8", "bool", "uint64"])
    dy = ctx.dev("dtype_y", ["float64", "float32", "int64", "int32", "uint8", ">f8", "bool", "int8"])
    lx = ctx.dev("layout_x", LAYOUTS)
    ly = ctx.dev("layout_y", LAYOUTS)
    ctx.commit()
    if "bool" in (dx, dy) and op in ("af_inv", "partial_cor", "t_test", "pdcov_test"):
        return
    if op.startswith("rowwise") and ">f8" in (dx, dy):
        return
    if n > 300 and op.endswith("_py"):
        return
    single = "float32" in (dx, dy)
    if single and n > 129:
        return      # the cancellation leaves too few digits
    arrays = [base(i, n, None if kind == "v" else 2, 100) for i in range(3)]
    arrays = [a > 50 if t == "bool" else a for a, t in zip(arrays, (dx, dy, dy))]
    exp = expected(op, arrays)
    args = [relayout(a.astype(t), how) for a, t, how in zip(arrays, (dx, dy, dy), (lx, ly, ly))]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = flat(ctx.call(f"{op} of {lx} {dx} and {ly} {dy}", OPS[op][0], *args))
    ctx.check(same(got, exp, 1e-2 if single else 1e-9), f"{op} of {n} observations {lx} {dx} and {ly} {dy}: {got[:6]} instead of {exp[:6]}")
    ctx.observe((op, kind, n))


def harnesses(tier):
    t = tier == "thorough"
    return [
        Harness("dtypes", dtypes(list(OPS)), note="numeric types of each sample"),
        Harness("booleans", booleans, note="boolean samples"),
        Harness("large_integers", large_integers, note="integers in the whole range of their type"),
        Harness("layouts", layouts, note="memory layouts of each sample"),
        Harness("compiled", compiled, note="memory layouts in the compiled implementations"),
        Harness("rows", rows, note="memory layouts of matrices of rows"),
        Harness("matrices", matrices, note="matrices of any type and layout"),
        Harness("columns", columns, note="vectors and column matrices"),
        Harness("signed_zeros", signed_zeros, note="zeros of any sign"),
        Harness("sizes", sizes, bound=2 if t else 1, note="types and layouts in larger samples"),
        Harness("lists", lists, note="lists and tuples, where they are accepted"),
        Harness("array_api", array_api, note="Array API namespace in, same namespace out"),
    ]
