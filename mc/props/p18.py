"""P18: requests that cannot be honoured are rejected, the others are not."""
import warnings

import numpy as np

import dcor
from mc import data
from mc.core import Harness
from mc.ref import Ref, cdist, energy

M = dcor.DistanceCovarianceMethod
C = dcor.CompileMode
H, I, D = dcor.homogeneity, dcor.independence, dcor.distances

FUNCTIONS = {
    "distance_covariance_sqr": ("cov", False), "distance_covariance": ("cov", False),
    "u_distance_covariance_sqr": ("cov", True), "distance_correlation_sqr": ("cor", False),
    "distance_correlation": ("cor", False), "u_distance_correlation_sqr": ("cor", True),
    "distance_stats_sqr": ("stats", False), "distance_stats": ("stats", False),
    "u_distance_stats_sqr": ("stats", True),
}
SQUARED = {f for f in FUNCTIONS if f.endswith("_sqr")}
METHODS = {"omitted": "AUTO", M.AUTO: "AUTO", M.NAIVE: "NAIVE", M.AVL: "AVL", M.MERGESORT: "MERGESORT",
           "auto": "AUTO", "naive": "NAIVE", "avl": "AVL", "mergesort": "MERGESORT", "AVL": "AVL", "Naive": "NAIVE",
           "MergeSort": "MERGESORT", "AUTO": "AUTO"}
COMPILE = ["omitted", C.AUTO, C.NO_COMPILE, C.COMPILE_CPU, C.COMPILE_PARALLEL]


def rejected(ctx, what, fun, *args, **kw):
    """The call must raise an exception."""
    ctx.calls += 1
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            with np.errstate(all="ignore"):
                r = fun(*args, **kw)
        except Exception as e:
            ctx.observe((what, type(e).__name__))
            ctx.checks += 1
            return
    ctx.fail(f"{what}: accepted, with result {r}", args=args, kw=kw)


def value(ctx, name, r, x, y, e, label, **info):
    kind, unb = FUNCTIONS[name]
    ref = Ref(x, y, e, unb)
    sq = name in SQUARED
    parts = {"cov": [(r, ref.cov, ref.tol)], "cor": [(r, ref.cor, ref.tolcor)]}.get(kind)
    if parts is None:
        parts = [(r.covariance_xy, ref.cov, ref.tol), (r.variance_x, ref.vx, ref.tolx),
                 (r.variance_y, ref.vy, ref.toly), (r.correlation_xy, ref.cor, ref.tolcor)]
    for got, want, tol in parts:
        if want is None:
            continue
        g = float(got)
        ctx.close(g if sq else g * g, float(want), 2 * tol + 1e-13, label, **info)


def matrix(ctx):
    """Every combination of function, method, compile mode, exponent, shape."""
    name = ctx.choose("function", list(FUNCTIONS))
    method = ctx.choose("method", list(METHODS))
    comp = ctx.choose("compile_mode", COMPILE)
    e = ctx.choose("exponent", ["omitted", 1, 1., .5, 1.5, 1.0001, 1 + 1e-9])
    dims = ctx.choose("dims", [(None, None), (1, None), (None, 1), (1, 1), (2, 2), (2, None), (1, 3)])
    ctx.commit()
    n = ctx.choose("n", [4, 5, 8] + ([] if name[0] == "u" else [2, 3]))
    x, y = data.sample("irregular", n, dims[0]), data.sample("signed", n, dims[1])
    kw = {}
    if method != "omitted":
        kw["method"] = method
    if comp != "omitted":
        kw["compile_mode"] = comp
    if e != "omitted":
        kw["exponent"] = e
    ex = 1 if e == "omitted" else e
    m = METHODS[method]
    fast_ok = ex == 1 and all(d in (None, 1) for d in dims)
    small = n <= 3
    cm = C.AUTO if comp == "omitted" else comp
    fun = getattr(dcor, name)
    label = f"{name}({m}, {cm.name}, exponent={ex}, dims={dims}, n={n})"
    must_fail = must_work = False
    if m in ("AVL", "MERGESORT"):
        must_fail = not fast_ok or cm is C.COMPILE_PARALLEL
        must_work = not must_fail and not small
    elif m == "NAIVE":
        must_fail = cm in (C.COMPILE_CPU, C.COMPILE_PARALLEL)
        must_work = not must_fail
    else:
        must_work = cm in (C.AUTO, C.NO_COMPILE) or (cm is C.COMPILE_CPU and fast_ok and not small)
        must_fail = cm is C.COMPILE_PARALLEL or (cm is C.COMPILE_CPU and not fast_ok)
    if must_fail:
        rejected(ctx, label, fun, x, y, **kw)
        return
    try:
        ctx.calls += 1
        r = fun(x, y, **kw)
    except Exception as exc:
        ctx.check(not must_work, f"{label}: {type(exc).__name__}: {exc}", x=x, y=y)
        ctx.observe((name, "small rejected"))
        return
    value(ctx, name, r, x, y, ex, label)
    ctx.observe((name, m, cm.name, ex, dims, n))


def two(x, y, z=None):
    pass


TWO = {
    **{f: (lambda x, y, z, f=f, **kw: getattr(dcor, f)(x, y, **kw)) for f in FUNCTIONS},
    "distance_correlation_af_inv": lambda x, y, z: dcor.distance_correlation_af_inv(x, y),
    "distance_correlation_af_inv_sqr": lambda x, y, z: dcor.distance_correlation_af_inv_sqr(x, y),
    "distance_covariance_test": lambda x, y, z: I.distance_covariance_test(x, y),
    "distance_covariance_test resampled": lambda x, y, z: I.distance_covariance_test(x, y, num_resamples=2, random_state=0),
    "t_statistic": lambda x, y, z: I.distance_correlation_t_statistic(x, y),
    "t_test": lambda x, y, z: I.distance_correlation_t_test(x, y),
    "partial_distance_covariance": lambda x, y, z: dcor.partial_distance_covariance(x, y, z),
    "partial_distance_correlation": lambda x, y, z: dcor.partial_distance_correlation(x, y, z),
    "partial_distance_covariance_test": lambda x, y, z: I.partial_distance_covariance_test(x, y, z, num_resamples=1, random_state=0),
    "rowwise": lambda x, y, z: dcor.rowwise(dcor.distance_covariance_sqr, [x], [y]),
    "rowwise naive": lambda x, y, z: dcor.rowwise(dcor.distance_correlation, [x], [y], rowwise_mode=dcor.RowwiseMode.NAIVE),
    "rowwise array": lambda x, y, z: dcor.rowwise(dcor.u_distance_covariance_sqr, np.stack([x, x]), np.stack([y, y])),
}
BAD_SIZES = [(4, 5), (5, 4), (6, 1), (1, 6), (8, 4), (4, 8), (5, 10), (33, 32), (64, 65), (7, 2), (2, 7), (3, 4), (5, 6)]


def sizes(ctx):
    """Paired samples of different sizes."""
    name = ctx.choose("function", list(TWO))
    s = ctx.choose("sizes", BAD_SIZES)
    dims = ctx.choose("dims", [(None, None), (1, 1), (2, 2), (None, 2), (3, 1)])
    three = name.startswith("partial")
    which = ctx.choose("odd one", ["y", "z", "x"] if three else ["y"])
    meth = ctx.choose("method", ["omitted"] + (["naive", "avl", "mergesort"] if name in FUNCTIONS else []))
    comp = ctx.choose("compile_mode", ["omitted"] + ([C.NO_COMPILE, C.COMPILE_CPU] if name in FUNCTIONS else []))
    ctx.commit()
    n, m = s
    size = {"x": (m, n, n), "y": (n, m, n), "z": (n, n, m)}[which]
    x = data.sample("irregular", size[0], dims[0])
    y = data.sample("signed", size[1], dims[1])
    z = data.sample("primes", size[2], dims[0])
    kw = {}
    if meth != "omitted":
        kw["method"] = meth
    if comp != "omitted":
        kw["compile_mode"] = comp
    rejected(ctx, f"{name} of samples of sizes {size[:3 if three else 2]} {dims} {kw}", TWO[name], x, y, z, **kw)


COMPONENTS = {
    "pairwise_distances": lambda x, y: D.pairwise_distances(x, y),
    "pairwise_distances exponent": lambda x, y: D.pairwise_distances(x, y, exponent=.5),
    "energy_distance": lambda x, y: dcor.energy_distance(x, y),
    "energy_distance U": lambda x, y: dcor.energy_distance(x, y, estimation_stat="u"),
    "energy_test_statistic": lambda x, y: H.energy_test_statistic(x, y),
    "energy_test": lambda x, y: H.energy_test(x, y),
    "energy_test 3": lambda x, y: H.energy_test(x, x, y, num_resamples=1, random_state=0),
}


def components(ctx):
    """Points with different number of components."""
    name = ctx.choose("function", list(COMPONENTS))
    dx = ctx.choose("dx", [None, 1, 2, 3, 5])
    dy = ctx.choose("dy", [None, 1, 2, 3, 5])
    n = ctx.choose("n", [2, 3, 5])
    m = ctx.choose("m", [2, 3, 5])
    rep = ctx.choose("representation", ["float64", "longdouble", "object", "int64", "strict"])
    ctx.commit()
    if (dx or 1) == (dy or 1):
        return
    x, y = data.sample("irregular", n, dx), data.sample("signed", m, dy)
    if rep == "strict":
        import array_api_strict as strict
        x, y = strict.asarray(x), strict.asarray(y)
    elif rep == "object":
        from fractions import Fraction
        f = np.vectorize(lambda v: Fraction(int(v * 4), 4), otypes=[object])
        x, y = f(x), f(y)
    else:
        x, y = x.astype(rep), y.astype(rep)
    rejected(ctx, f"{name} of points with {dx} and {dy} components ({rep})", COMPONENTS[name], x, y)


BAD_NAMES = ["", "unknown", "fast", "avl ", " avl", "a", "naiv", "merge", "merge_sort", "none", "AVLTREE", "u", "__class__"]
BAD_STATS = ["", "W", "unknown", "uv", "u ", "statistic", "U-STATISTIC", "biased", "__class__"]


def names(ctx):
    """Unknown options are rejected; the known ones, in any case, are not."""
    what = ctx.choose("option", ["method", "statistic"])
    if what == "method":
        name = ctx.choose("function", list(FUNCTIONS))
        opt = ctx.choose("value", BAD_NAMES + [s for m in ("auto", "naive", "avl", "mergesort") for s in (m, m.upper(), m.capitalize(), m.swapcase())])
        ctx.commit()
        fun = getattr(dcor, name)
        x, y = data.sample("irregular", 7), data.sample("signed", 7)
        if opt in BAD_NAMES:
            rejected(ctx, f"{name}(method={opt!r})", fun, x, y, method=opt)
        else:
            r = ctx.call(f"{name}(method={opt!r})", fun, x, y, method=opt)
            value(ctx, name, r, x, y, 1, f"{name}(method={opt!r})")
            ctx.observe((name, opt))
    else:
        fs = {"energy_distance": dcor.energy_distance, "energy_test_statistic": H.energy_test_statistic, "energy_test": H.energy_test}
        name = ctx.choose("function", list(fs))
        good = ["u", "U", "v", "V", "u_statistic", "U_STATISTIC", "V_statistic", "v_STATISTIC", "U_Statistic"]
        opt = ctx.choose("value", BAD_STATS + good)
        ctx.commit()
        x, y = data.sample("irregular", 5, 2), data.sample("signed", 7, 2)
        if opt in BAD_STATS:
            rejected(ctx, f"{name}(estimation_stat={opt!r})", fs[name], x, y, estimation_stat=opt)
        else:
            r = ctx.call(name, fs[name], x, y, estimation_stat=opt)
            g = float(r.statistic if name == "energy_test" else r)
            w = float(energy(x, y, 1, opt[0] in "uU")) * (1 if name == "energy_distance" else 35 / 12)
            ctx.close(g, w, 1e-9 * max(1, abs(w)), f"{name}(estimation_stat={opt!r})")
            ctx.observe((name, opt))


EXP = {
    **{f: (lambda x, y, z, e, f=f: getattr(dcor, f)(x, y, exponent=e)) for f in FUNCTIONS},
    **{f + " naive": (lambda x, y, z, e, f=f: getattr(dcor, f)(x, y, exponent=e, method="naive")) for f in FUNCTIONS},
    "energy_distance": lambda x, y, z, e: dcor.energy_distance(x, y, exponent=e),
    "energy_test_statistic": lambda x, y, z, e: H.energy_test_statistic(x, y, exponent=e),
    "energy_test": lambda x, y, z, e: H.energy_test(x, y, exponent=e, num_resamples=1, random_state=0),
    "distance_covariance_test": lambda x, y, z, e: I.distance_covariance_test(x, y, exponent=e, num_resamples=1, random_state=0),
    "partial_distance_covariance_test": lambda x, y, z, e: I.partial_distance_covariance_test(x, y, z, exponent=e, num_resamples=1, random_state=0),
}


def exponents(ctx):
    """A warning if and only if the exponent is not in (0, 2)."""
    name = ctx.choose("function", list(EXP))
    e = ctx.choose("exponent", [2, 2., 2.0000001, 2.5, 3, 10, 0, 0., 1, 1., .5, 1.9999999, 1.5, 1e-6, 1.99, .01])
    d = ctx.choose("d", [None, 2])
    ctx.commit()
    x, y, z = (data.sample(f, 6, d) for f in ("irregular", "signed", "primes"))
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        with np.errstate(all="ignore"):
            ctx.call(f"{name}(exponent={e})", EXP[name], x, y, z, e)
    about = [i for i in w if issubclass(i.category, UserWarning) and not issubclass(i.category, (DeprecationWarning, RuntimeWarning))
             and "exponent" in str(i.message).lower()]
    ctx.check(bool(about) == (not 0 < e < 2), f"{name}(exponent={e}): {len(about)} warnings about the exponent",
              warnings=[str(i.message) for i in w])
    ctx.observe((name, e))


def shapes(ctx):
    """Arrays that are not samples."""
    name = ctx.choose("function", list(TWO) + list(COMPONENTS))
    if name.startswith("rowwise"):
        return
    shape = ctx.choose("shape", [(5, 2, 2), (5, 1, 1), (5, 5, 1), (1, 5, 5), (4, 2, 1, 1), ()])
    both = ctx.choose("both", [True, False])
    ctx.commit()
    x = np.arange(1., 1 + np.prod(shape, dtype=int)).reshape(shape) ** 1.5
    y = x[..., None][..., 0] * 2 if both else data.sample("irregular", shape[0] if shape else 5)
    if name in TWO:
        rejected(ctx, f"{name} of arrays of shape {shape}", TWO[name], x, y, data.sample("signed", shape[0] if shape else 5))
    elif shape == ():
        return
    else:
        rejected(ctx, f"{name} of arrays of shape {shape}", COMPONENTS[name], x, y)


def nonfinite(ctx):
    """A missing or infinite value never gives a plausible number."""
    name = ctx.choose("function", list(FUNCTIONS) + ["energy_distance", "energy_test_statistic", "partial_distance_covariance"])
    v = ctx.choose("value", [np.nan, np.inf, -np.inf])
    n = ctx.choose("n", [4, 5, 8, 17])
    pos = ctx.choose("position", list(range(n)))
    side = ctx.choose("side", ["x", "y", "both"])
    d = ctx.choose("d", [None, 2])
    m, c = ctx.choose("method", [("auto", C.AUTO), ("naive", C.AUTO), ("avl", C.NO_COMPILE), ("mergesort", C.AUTO), ("mergesort", C.NO_COMPILE)]
                      if name in FUNCTIONS and d is None else [("auto", C.AUTO)])
    ctx.commit()
    x, y = data.sample("irregular", n, d), data.sample("signed", n, d)
    if side in ("x", "both"):
        (x if d is None else x[:, 1])[pos] = v
    if side in ("y", "both"):
        (y if d is None else y[:, 0])[pos] = v
    fun = {"energy_test_statistic": H.energy_test_statistic}.get(name) or getattr(dcor, name)
    args = (x, y, data.sample("primes", n, d)) if name.startswith("partial") else (x, y)
    kw = dict(method=m, compile_mode=c) if name in FUNCTIONS else {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            r = ctx.call(f"{name} with {v}", fun, *args, **kw)
    vals = [r.covariance_xy, r.correlation_xy] if isinstance(r, dcor.Stats) else [r]
    ctx.check(all(not np.isfinite(float(t)) for t in vals), f"{name} of samples with {v} in position {pos}: {r}", x=x, y=y)
    ctx.observe((name, str(v), n, d))


def matrices(ctx):
    """Centering and products need matrices of the same square shape."""
    name = ctx.choose("function", ["double_centered", "u_centered", "mean_product", "u_product", "u_projection"])
    s1 = ctx.choose("shape", [(4, 5), (5, 4), (4, 3), (6, 5)])
    s2 = ctx.choose("shape2", [(5, 5), (6, 6), (7, 7)])
    ctx.commit()
    a = np.arange(float(np.prod(s1))).reshape(s1)
    b = np.arange(float(np.prod(s2))).reshape(s2)
    f = getattr(dcor, name)
    if name.endswith("centered"):
        rejected(ctx, f"{name} of a {s1} matrix", f, a)
    elif name == "u_projection":
        rejected(ctx, f"projection of a {s2} matrix over a 4x4 one", dcor.u_projection(b[:4, :4]), b)
    else:
        rejected(ctx, f"{name} of {s1} and {s2} matrices", f, a, b)


def harnesses(tier):
    return [
        Harness("matrix", matrix, note="function x method x compile mode x exponent x dimensions x size"),
        Harness("sizes", sizes, note="paired samples of different sizes"),
        Harness("components", components, note="different number of components"),
        Harness("names", names, note="names of methods and statistics"),
        Harness("exponents", exponents, note="warnings for the exponent"),
        Harness("shapes", shapes, note="arrays that are not samples"),
        Harness("nonfinite", nonfinite, note="nan and infinite values in every position"),
        Harness("matrices", matrices, note="matrices of wrong shapes"),
    ]
