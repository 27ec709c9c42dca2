"""P03: correlation = normalised covariance; stats bundles are coherent."""
import itertools

import numpy as np

import dcor
from mc import config, data
from mc.core import Harness
from mc.props.p02 import IMPLS
from mc.ref import Ref

EPS = 1e-9


def compare(ctx, x, y, exponent, impl):
    kw = dict(IMPLS[impl])
    if exponent != 1:
        kw["exponent"] = exponent
    info = dict(x=x, y=y, kw=kw)
    n = len(x)
    r = Ref(x, y, exponent)
    s2 = ctx.call("distance_stats_sqr", dcor.distance_stats_sqr, x, y, **kw)
    s1 = ctx.call("distance_stats", dcor.distance_stats, x, y, **kw)
    c2 = ctx.call("distance_correlation_sqr", dcor.distance_correlation_sqr, x, y, **kw)
    c1 = ctx.call("distance_correlation", dcor.distance_correlation, x, y, **kw)
    v2 = ctx.call("distance_covariance_sqr", dcor.distance_covariance_sqr, x, y, **kw)
    bundle(ctx, s2, r, info, "squared stats")
    ctx.close(float(v2), float(s2.covariance_xy), r.tol, "covariance of the bundle vs alone", **info)
    # the plain bundle is the square root of the squared one
    for name, tol, cap in (("covariance_xy", r.tol, None), ("variance_x", r.tolx, None),
                           ("variance_y", r.toly, None), ("correlation_xy", None, 1)):
        a, b = float(getattr(s1, name)), float(getattr(s2, name))
        t = tol if tol is not None else r.tolcor
        if t is None:
            continue
        ctx.check(np.isfinite(a) and a >= 0, f"{name} of distance_stats is {a}", **info)
        ctx.close(a * a, max(b, 0.), 2 * t + 1e-15, f"{name}: distance_stats squared vs distance_stats_sqr", **info)
    if r.cor is not None:
        t = r.tolcor + 1e-14
        ctx.close(float(c2), r.cor, t, "squared distance correlation", **info)
        ctx.close(float(c1) ** 2, max(r.cor, 0), t, "distance correlation (squared)", **info)
        ctx.check(-EPS <= float(c2) <= 1 + EPS and 0 <= float(c1) <= 1 + EPS,
                  f"correlation out of range: {c2} {c1}", **info)
        ctx.close(float(s2.correlation_xy), float(c2), t, "correlation of the bundle vs alone", **info)
    if r.constant:
        ctx.check(float(c1) == 0 and float(c2) == 0, f"correlation with a constant is {c1} {c2}", **info)
    elif x is y and r.cor is not None:
        ctx.close(float(c1), 1, 1e-7, "correlation of a sample with itself", **info)
    if n > 3:
        u = Ref(x, y, exponent, True)
        su = ctx.call("u_distance_stats_sqr", dcor.u_distance_stats_sqr, x, y, **kw)
        cu = ctx.call("u_distance_correlation_sqr", dcor.u_distance_correlation_sqr, x, y, **kw)
        bundle(ctx, su, u, info, "unbiased stats")
        if u.cor is not None:
            t = u.tolcor + 1e-13
            ctx.close(float(cu), u.cor, t, "unbiased squared correlation", **info)
            ctx.check(abs(float(cu)) <= 1 + 1e-7, f"unbiased correlation out of range: {cu}", **info)
        if u.constant:
            ctx.check(float(cu) == 0, f"unbiased correlation with a constant is {cu}", **info)
        ctx.observe(round(float(cu), 6) if u.cor is not None else None)
    ctx.observe(round(float(c2), 7) if r.cor is not None else None)


def bundle(ctx, s, r, info, what):
    ctx.close([float(s.covariance_xy), float(s.variance_x), float(s.variance_y)],
              [r.cov, r.vx, r.vy], [r.tol, r.tolx, r.toly], what, **info)
    if r.cor is not None:
        ctx.close(float(s.correlation_xy), r.cor, r.tolcor + 1e-13, what + " correlation", **info)
    it = tuple(float(v) for v in s)
    want = tuple(float(v) for v in (s.covariance_xy, s.correlation_xy, s.variance_x, s.variance_y))
    ctx.check(len(it) == 4 and all(a == b or (a != a and b != b) for a, b in zip(it, want)),
              f"{what}: iteration order", got=it, want=want, **info)


def grid(ctx):
    n = ctx.choose("n", [2, 3, 4])
    vals = [0., 1., 3.5]
    x = ctx.choose("x", list(itertools.product(vals, repeat=n)))
    ctx.commit()
    y = ctx.choose("y", list(itertools.product(vals, repeat=n)))
    compare(ctx, np.array(x), np.array(y), 1, "auto" if n > 3 else "naive")


def binary(ctx):
    rows = list(itertools.product([0., 1.], repeat=2))
    x = ctx.choose("x", list(itertools.combinations_with_replacement(rows, 4)))
    exponent = ctx.choose("exponent", [1, .5])
    ctx.commit()
    y = ctx.choose("y", list(itertools.product(rows, repeat=4)))
    compare(ctx, np.array(x), np.array(y), exponent, "auto")


def uni(ns):
    def body(ctx):
        c = config.pair(ctx, ns, dims=[None, 1], exps=[1])
        impl = ctx.dev("impl", ["auto"] + [i for i in IMPLS if i != "auto"])
        ctx.commit()
        x, y = config.build(c)
        compare(ctx, x, y, 1, impl)
    return body


def multi(ns):
    def body(ctx):
        c = config.pair(ctx, ns)
        impl = ctx.dev("impl", ["naive", "auto", "naive/python", "auto/python"])
        ctx.commit()
        x, y = config.build(c)
        compare(ctx, x, y, c.exponent, impl)
    return body


def constants(ctx):
    """Constant samples: exact zeros, in every implementation."""
    n = ctx.choose("n", [4, 5, 7, 8, 16, 33, 100])
    value = ctx.choose("value", [0., 1., -2.5, .1, 1 / 3, 1e9 / 7, 1e-9 / 7, 1e30, -1e6 / 3])
    side = ctx.choose("side", ["x", "y", "both"])
    fam = ctx.choose("other", ["irregular", "ties3", "sorted", "outlier_last"])
    impl = ctx.choose("impl", list(IMPLS))
    ctx.commit()
    k = np.full(n, value)
    o = data.sample(fam, n)
    x, y = {"x": (k, o), "y": (o, k), "both": (k, k.copy())}[side]
    compare(ctx, x, y, 1, impl)


def independent(ctx):
    """Factorial designs: covariance and correlation vanish, rounding may leave them negative."""
    lx = ctx.choose("levels_x", list(data.LEVELS))
    ly = ctx.choose("levels_y", list(data.LEVELS))
    k = ctx.choose("sizes", [(2, 2), (2, 3), (3, 2), (3, 3), (5, 4), (8, 7)])
    impl = ctx.choose("impl", list(IMPLS))
    ctx.commit()
    reps = ctx.choose("repetitions", [1, 2])
    order = ctx.choose("order", ["row", "shuffled"])
    x, y = data.factorial(data.LEVELS[lx](k[0]), data.LEVELS[ly](k[1]), reps, order)
    compare(ctx, x, y, 1, impl)


def harnesses(tier):
    t = tier == "thorough"
    return [
        Harness("grid", grid, note="all univariate sample pairs over a 3-value grid, n<=4"),
        Harness("binary", binary, note="all bivariate binary sample pairs of size 4 up to relabelling"),
        Harness("constants", constants, note="constant samples in every implementation"),
        Harness("independent", independent, note="factorial designs: null covariance"),
        Harness("univariate", uni(data.SMALL_N + [64, 65, 100, 129, 257] + (data.MEDIUM_N if t else [])), bound=2,
                note="every method and compile mode, by deviations"),
        Harness("multivariate", multi([6, 4, 5, 7, 8, 9, 16, 17, 33, 64, 100] + ([200, 257] if t else [])),
                bound=3 if t else 2, note="dimensions, exponents, scales, by deviations"),
        Harness("tiny", multi([3, 1, 2]), bound=3 if t else 2, note="up to three observations"),
        Harness("large", uni([500, 512, 1000, 1025, 2049]), bound=1, note="large samples"),
    ]
