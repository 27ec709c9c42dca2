"""P14: rowwise is equivalent to a map, whatever the mode."""
import itertools
import warnings
from fractions import Fraction

import numpy as np

import dcor
from mc import data
from mc.core import Harness
from mc.ref import Ref

M = dcor.DistanceCovarianceMethod
C = dcor.CompileMode
R = dcor.RowwiseMode

# name -> (function, what it computes)
FUNCTIONS = {
    "distance_covariance_sqr": (dcor.distance_covariance_sqr, "cov2"),
    "u_distance_covariance_sqr": (dcor.u_distance_covariance_sqr, "ucov"),
    "distance_covariance": (dcor.distance_covariance, "cov"),
    "distance_correlation_sqr": (dcor.distance_correlation_sqr, "cor2"),
    "u_distance_correlation_sqr": (dcor.u_distance_correlation_sqr, "ucor"),
    "distance_correlation": (dcor.distance_correlation, "cor"),
}
METHODS = {"omitted": None, "AUTO": M.AUTO, "AVL": M.AVL, "NAIVE": M.NAIVE, "MERGESORT": M.MERGESORT,
           "'avl'": "avl", "'naive'": "naive", "'mergesort'": "mergesort", "'auto'": "auto", "'AVL'": "AVL"}
COMPILE = {"omitted": None, "AUTO": C.AUTO, "COMPILE_CPU": C.COMPILE_CPU,
           "COMPILE_PARALLEL": C.COMPILE_PARALLEL, "NO_COMPILE": C.NO_COMPILE}
MODES = {"omitted": None, "AUTO": R.AUTO, "NAIVE": R.NAIVE, "OPTIMIZED": R.OPTIMIZED}
DTYPES = ["float64", "int64", "float32", "int32", "uint8", "bool", ">f8", "longdouble", "int8", "uint64"]
FAMS = ["irregular", "signed", "ties3", "sorted", "const", "zigzag", "mod7", "primes", "golden",
        "outlier_last", "bitrev", "half_const", "squares"]


def rows(k, n, d=None, shift=0, const_row=None):
    out = []
    for i in range(k):
        f = FAMS[(i * 5 + shift) % len(FAMS)]
        if const_row is not None and i == const_row:
            f = "const"
        elif f == "const":
            f = "irregular"
        x = data.sample(f, n, d) * (1 + .01 * i) + .1 * (i % 7)
        out.append(x)
    return out


def container(kind, rs):
    if kind == "list":
        return rs
    if kind == "tuple":
        return tuple(rs)
    if kind == "array":
        return np.stack(rs)
    if kind == "fortran":
        return np.asfortranarray(np.stack(rs))
    if kind == "strided":
        a = np.stack(rs)
        b = np.full((a.shape[0] * 2, a.shape[1] * 3) + a.shape[2:], 7, dtype=a.dtype)
        b[::2, ::3] = a
        return b[::2, ::3]
    if kind == "reversed":
        a = np.stack(rs)[::-1, ::-1].copy()
        return a[::-1, ::-1]
    if kind == "readonly":
        a = np.stack(rs)
        a.flags.writeable = False
        return a
    if kind == "columns":        # k x n x 1
        return np.stack([r.reshape(-1, 1) for r in rs])
    if kind == "column list":
        return [r.reshape(-1, 1) for r in rs]
    if kind == "mixed list":     # vectors and column matrices
        return [r.reshape(-1, 1) if i % 2 else r for i, r in enumerate(rs)]
    if kind == "transposed":
        return np.stack(rs).T.copy().T
    raise KeyError(kind)


CONTAINERS = ["list", "array", "tuple", "fortran", "strided", "reversed", "readonly", "columns",
              "column list", "mixed list", "transposed"]


def agree(ctx, name, got, want, xs, ys, exponent, label, eps, **info):
    """Compare with tolerances that know the conditioning of each row."""
    kind = FUNCTIONS[name][1]
    got = np.asarray(got)
    ctx.check(got.shape == (len(want),), f"{label}: result of shape {got.shape} for {len(want)} rows", **info)
    for i, w in enumerate(want):
        g, w = float(got[i]), float(w)
        r = Ref(np.asarray(xs[i], float), np.asarray(ys[i], float), exponent, kind[0] == "u")
        if "cor" in kind:
            if r.cor is None:
                continue
            tol = (r.tolcor * 2 + 1e-13) * eps
        else:
            tol = (2 * r.tol + 1e-300) * eps
        if kind in ("cov", "cor"):
            g, w = g * g, w * w
        ctx.check(abs(g - w) <= tol or g == w,
                  f"{label}: row {i} gives {g} instead of {w}" + (" (squared)" if kind in ("cov", "cor") else ""), **info)
        ctx.observe(round(w, 7))


def run(ctx, name, x, y, mode, kw, map_kw, label, must_optimize=False, eps=1., exponent=1, xs=None, ys=None):
    fun = FUNCTIONS[name][0]
    info = dict(x=x, y=y, kw=kw)
    keep = [[np.array(r, copy=True) for r in v] for v in (x, y)]
    call_kw = dict(kw)
    if mode is not None:
        call_kw["rowwise_mode"] = mode
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        want = error = None
        try:
            want = [fun(a, b, **map_kw) for a, b in zip(x, y)]
        except Exception as e:
            error = e
        try:
            got = dcor.rowwise(fun, x, y, **call_kw)
        except NotImplementedError as e:
            ctx.calls += 1
            if error is not None or (mode is R.OPTIMIZED and not must_optimize):
                ctx.observe((label, "not implemented"))
                return
            ctx.fail(f"{label}: unexpected NotImplementedError: {e}", **info)
        except Exception as e:
            ctx.calls += 1
            if error is not None:
                ctx.observe((label, "rejected"))
                return
            ctx.fail(f"{label}: {type(e).__name__}: {e}, but it works row by row", **info)
    ctx.calls += 1
    if error is not None:
        # it may be more general than the function, but not wrong
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                want = [fun(a, b, **{k: v for k, v in map_kw.items() if k == "exponent"}) for a, b in zip(x, y)]
            except Exception:
                ctx.fail(f"{label}: {got} although row by row it fails with {error!r}", **info)
    agree(ctx, name, got, want, xs if xs is not None else x, ys if ys is not None else y, exponent, label, eps, **info)
    ctx.check(all(np.array_equal(a, b) for u, v in zip(keep, (x, y)) for a, b in zip(u, v)), f"{label}: inputs modified", **info)


def configurations(ns, ks):
    def body(ctx):
        name = ctx.choose("function", list(FUNCTIONS))
        mode = ctx.choose("rowwise_mode", list(MODES))
        comp = ctx.dev("compile_mode", list(COMPILE))
        method = ctx.dev("method", list(METHODS))
        cont = ctx.dev("container", CONTAINERS)
        cont_y = ctx.dev("container_y", ["same", "list", "array", "columns", "fortran"])
        dtype = ctx.dev("dtype", DTYPES)
        dtype_y = ctx.dev("dtype_y", ["same", "float64", "float32", "int64", "longdouble"])
        n = ctx.dev("n", ns)
        k = ctx.dev("rows", ks)
        exponent = ctx.dev("exponent", ["omitted", 1, 1., .5, 1.5])
        const = ctx.dev("constant row", [None, 0, "last"])
        shift = ctx.dev("data", [0, 3, 7])
        storage = ctx.dev("storage", ["separate", "same", "view", "copy", "reversed", "shared rows", "blocks"])
        ctx.commit()
        cr = None if const is None else 0 if const == 0 else k - 1
        xs = [cast(r, dtype) for r in rows(k, n, None, shift, cr)]
        ys = [cast(r, dtype if dtype_y == "same" else dtype_y) for r in rows(k, n, None, shift + 4, cr if shift else None)]
        x = container(cont, xs)
        y = container(cont if cont_y == "same" else cont_y, ys)
        if storage == "shared rows":        # other containers of the same rows
            ys = xs[1:] + xs[:1]
            y = [x[(i + 1) % k] for i in range(k)]
        elif storage == "blocks":
            m = np.stack(xs + ys) if dtype_y == "same" else None
            if m is None:
                return
            x, y = m[:k], m[k:]
        elif storage != "separate":
            ys = [xs[i] for i in range(k)][::-1 if storage == "reversed" else 1]
            if storage == "same":
                y = x
            elif storage == "copy":
                y = container(cont, [r.copy() for r in xs])
            else:
                y = x[::-1] if storage == "reversed" else x[:]
        kw = {}
        if COMPILE[comp] is not None:
            kw["compile_mode"] = COMPILE[comp]
        if METHODS[method] is not None:
            kw["method"] = METHODS[method]
        if exponent != "omitted":
            kw["exponent"] = exponent
        e = 1 if exponent == "omitted" else exponent
        if name[0] == "u" and n <= 3:
            return
        map_kw = dict(kw)
        if comp == "COMPILE_PARALLEL":
            map_kw.pop("compile_mode")
            try:
                FUNCTIONS[name][0](x[0], y[0], **kw)
            except Exception:
                # only the optimized implementation is parallel
                if MODES[mode] is R.NAIVE or not optimizable(method, n, e, dtype, dtype_y, cont, cont_y):
                    map_kw = kw
        if comp == "COMPILE_CPU" and ">f8" in (dtype, dtype_y):
            return      # numba does not support that byte order
        eps = 1e7 if "float32" in (dtype, dtype_y) else 1.
        must = (optimizable(method, n, e, dtype, dtype_y, cont, cont_y) and comp != "NO_COMPILE")
        run(ctx, name, x, y, MODES[mode], kw, map_kw, f"rowwise({name})", must, eps, e, xs, ys)
    return body


def optimizable(method, n, e, dtype, dtype_y, cont, cont_y):
    return (method in ("omitted", "AUTO", "AVL", "'avl'", "'auto'", "'AVL'") and n > 3 and e == 1
            and dtype == "float64" and dtype_y in ("same", "float64")
            and cont in ("list", "array", "tuple", "fortran", "strided", "reversed", "readonly", "transposed")
            and cont_y in ("same", "list", "array", "fortran"))


def cast(r, dtype):
    if dtype == "bool":
        return r > np.median(r)
    dt = np.dtype(dtype)
    if dt.kind == "u":
        return np.rint(r - r.min()).astype(np.int64).astype(dt)
    if dt.kind == "i":
        return np.rint(r).astype(np.int64).clip(-120, 120).astype(dt)
    return r.astype(dt)


def orders(n):
    """Blocks of all the order types as rows."""
    def body(ctx):
        name = ctx.choose("function", list(FUNCTIONS))
        mode = ctx.choose("rowwise_mode", ["AUTO", "OPTIMIZED"])
        comp = ctx.choose("compile_mode", ["AUTO", "COMPILE_CPU"])
        rx = ctx.choose("x", data.sorted_weak_orders(n))
        ctx.commit()
        ys = [data.from_ranks(r, "nondyadic") for r in data.weak_orders(n)]
        xs = [data.from_ranks(rx, "irregular")] * len(ys)
        kw = dict(compile_mode=COMPILE[comp])
        run(ctx, name, np.stack(xs), np.stack(ys), MODES[mode], kw, kw, f"rowwise({name})", True)
    return body


def many(ks):
    """Number of rows, in the three compiled modes."""
    def body(ctx):
        k = ctx.choose("rows", ks)
        name = ctx.choose("function", ["distance_covariance_sqr", "u_distance_correlation_sqr"])
        comp = ctx.choose("compile_mode", ["AUTO", "COMPILE_CPU", "COMPILE_PARALLEL"])
        n = ctx.choose("n", [4, 7] if k > 300 else [4, 7, 33])
        ctx.commit()
        x, y = np.stack(rows(k, n, None, 1)), np.stack(rows(k, n, None, 6))
        run(ctx, name, x, y, None, dict(compile_mode=COMPILE[comp]), {}, f"rowwise({name}) of {k} rows", True)
    return body


def irregular(ctx):
    """Rows of different lengths, dimensions or types."""
    name = ctx.choose("function", list(FUNCTIONS))
    mode = ctx.choose("rowwise_mode", list(MODES))
    case = ctx.choose("case", ["lengths", "vectors", "matrices list", "different dims", "fractions", "mixed dtypes",
                               "mixed dims", "first matrix", "short rows", "one short row", "x columns"])
    method = ctx.choose("method", ["omitted", "AVL", "NAIVE", "MERGESORT", "'naive'"])
    ctx.commit()
    kw = {} if METHODS[method] is None else {"method": METHODS[method]}
    y = rows(4, 7, None, 4)
    x = rows(4, 7, None, 0)
    if case == "lengths":
        x = [r[:4 + i] for i, r in enumerate(x)]
        y = [r[:4 + i] for i, r in enumerate(y)]
    elif case == "vectors":
        x, y = np.stack(rows(4, 7, 2, 0)), np.stack(rows(4, 7, 3, 4))
    elif case == "matrices list":
        x, y = rows(4, 7, 2, 0), rows(4, 7, 2, 4)
    elif case == "different dims":
        x = [data.sample("irregular", 7, i + 1) for i in range(4)]
        y = [data.sample("signed", 7, 4 - i) for i in range(4)]
    elif case == "fractions":
        x = [np.array([Fraction(int(v * 8), 8) for v in r]) for r in x]
        y = [np.array([Fraction(int(v * 4), 4) for v in r]) for r in y]
    elif case == "mixed dtypes":
        x = [cast(r, DTYPES[i]) for i, r in enumerate(x)]
    elif case == "mixed dims":
        x = [x[0], data.sample("irregular", 7, 2), x[2], data.sample("mod7", 7, 3)]
    elif case == "first matrix":
        x = [data.sample("irregular", 7, 2)] + x[1:]
    elif case == "short rows":
        if name[0] == "u":
            return
        x, y = [r[:3] for r in x], [r[:3] for r in y]
    elif case == "one short row":
        if name[0] == "u":
            return
        x = [r[:3] if i == 2 else r for i, r in enumerate(x)]
        y = [r[:3] if i == 2 else r for i, r in enumerate(y)]
    elif case == "x columns":
        x = [r.reshape(-1, 1) for r in x]
    run(ctx, name, x, y, MODES[mode], kw, kw, f"rowwise({name}) with {case}", eps=1e7 if case == "mixed dtypes" else 1., xs=[np.asarray(r, float) for r in x],
        ys=[np.asarray(r, float) for r in y])


def custom(ctx):
    """Functions without an optimized implementation."""
    which = ctx.choose("function", ["energy_distance", "lambda", "af_inv", "partial", "energy_test_statistic"])
    mode = ctx.choose("rowwise_mode", list(MODES))
    d = ctx.choose("d", [None, 2])
    k = ctx.choose("rows", [1, 2, 5])
    as_array = ctx.choose("array", [False, True])
    ctx.commit()
    import functools
    fun = {"energy_distance": dcor.energy_distance, "lambda": lambda a, b, **kw: a.sum() + 2 * b.max() + kw.get("extra", 0),
           "af_inv": dcor.distance_correlation_af_inv, "energy_test_statistic": dcor.homogeneity.energy_test_statistic,
           "partial": functools.partial(dcor.distance_covariance_sqr, exponent=.5)}[which]
    kw = {"extra": 5.} if which == "lambda" else {"exponent": .5} if "energy" in which else {}
    x, y = rows(k, 6, d, 0), rows(k, 6, d, 4)
    if as_array:
        x, y = np.stack(x), np.stack(y)
    mkw = {} if MODES[mode] is None else {"rowwise_mode": MODES[mode]}
    want = [fun(a, b, **kw) for a, b in zip(x, y)]
    if MODES[mode] is R.OPTIMIZED:
        try:
            dcor.rowwise(fun, x, y, **mkw, **kw)
        except NotImplementedError:
            ctx.calls += 1
            ctx.observe((which, "not implemented"))
            return
        ctx.fail(f"rowwise({which}): OPTIMIZED mode did not raise NotImplementedError")
    got = ctx.call(f"rowwise({which})", dcor.rowwise, fun, x, y, **mkw, **kw)
    ctx.close(np.asarray(got, float), np.asarray(want, float), 1e-12 * (1 + float(np.abs(want).max())), f"rowwise({which})")
    ctx.observe((which, round(float(want[0]), 8)))


def many_naive(ks):
    """Number of rows without an optimized implementation."""
    def body(ctx):
        k = ctx.choose("rows", ks)
        which = ctx.choose("function", ["lambda", "distance_covariance_sqr", "energy_distance"])
        mode = ctx.choose("rowwise_mode", ["NAIVE", "omitted"] if which != "distance_covariance_sqr" else ["NAIVE"])
        how = ctx.choose("container", ["list", "array", "matrices", "list and array"])
        ctx.commit()
        d = 2 if how == "matrices" else None
        v = np.arange(k * 5 * (d or 1), dtype=float).reshape((k, 5) + ((d,) if d else ()))
        x, y = np.sin(v * 1.7), np.cos(v * v % 97)
        if which == "lambda":
            def fun(a, b):
                return a.sum() - 3 * b.max() + 2 * a[0].sum() * b[1].sum()
        else:
            fun = {"distance_covariance_sqr": dcor.distance_covariance_sqr, "energy_distance": dcor.energy_distance}[which]
        if which != "lambda" and k > 3000 and how != "array":
            return
        want = np.array([fun(a, b) for a, b in zip(x, y)])
        p = list(x) if how.startswith("list") else x
        q = list(y) if how == "list" else y
        got = ctx.call(f"rowwise({which}) of {k} rows", dcor.rowwise, fun, p, q,
                       **({} if mode == "omitted" else {"rowwise_mode": MODES[mode]}))
        ctx.close(np.asarray(got, float), want, 1e-10 * float(np.abs(want).max()), f"rowwise({which}) of {k} rows in {how}")
        ctx.observe((k, which, how))
    return body


def huge(ns):
    """Rows so long that integers computed from their length may overflow."""
    def body(ctx):
        from mc.ref import arrange, counts_ref
        n = ctx.choose("n", ns)
        name = ctx.choose("function", ["distance_covariance_sqr", "u_distance_covariance_sqr"])
        kind = ctx.choose("arrangement", ["reversed"] if n > 10 ** 6 else ["cycle", "reversed", "hash"])
        ctx.commit()
        ix, iy = arrange(n, kind)
        ux, uy = np.arange(11) ** 1.5 + 1, np.arange(13) ** 1.3 - 4
        counts = np.zeros((11, 13))
        np.add.at(counts, (ix, iy), 1)
        want = counts_ref(ux, uy, counts)[name[0] == "u"]
        fun = FUNCTIONS[name][0]
        got = ctx.call(f"rowwise({name})", dcor.rowwise, fun, ux[ix][None], uy[iy][None],
                       rowwise_mode=R.OPTIMIZED, compile_mode=C.COMPILE_CPU)
        ctx.close(np.asarray(got, float), [want], 1e-9 * np.ptp(ux) * np.ptp(uy), f"rowwise({name}) of rows with {n} observations")
        ctx.observe((name, n, kind))
    return body


def harnesses(tier):
    t = tier == "thorough"
    return [
        Harness("configurations", configurations([6, 2, 3, 4, 5, 8, 33] + ([9, 16, 17, 64, 100] if t else []), [3, 1, 2, 9, 20]),
                bound=3 if t else 2, note="function x mode, deviations in method, compile mode, containers, dtypes, sizes"),
        Harness("orders", orders(5), note="every pair of order types as rows"),
        Harness("many", many(list(range(1, 34)) + [63, 64, 65, 100, 128, 257, 1000, 2049, 4097] + ([3000, 10000] if t else [])), note="number of rows"),
        Harness("many_naive", many_naive([1, 2, 10, 33, 65, 100, 129, 257, 513, 1000, 1025, 4097, 10001] + ([30000, 65537] if t else [])),
                note="number of rows, naively"),
        Harness("irregular", irregular, note="ragged, mixed and exact rows"),
        Harness("huge", huge([1000, 4097, 46341, 65537, 100000, 2097153] + ([200000, 1300000, 2200000, 3100000] if t else [])),
                note="long rows against a table of counts"),
        Harness("custom", custom, note="functions without optimized implementation"),
    ]
