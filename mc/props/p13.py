"""P13: the t-test of independence."""
import math
import types
import warnings

import numpy as np
import scipy.special

import dcor
from mc import config, data
from mc.core import Harness
from mc.perm import check_result
from mc.ref import Ref, arrange, counts_ref

STAT = dcor.independence.distance_correlation_t_statistic
TEST = dcor.independence.distance_correlation_t_test


def survival(t, df):
    """P(T > t) for a Student t, through the incomplete beta function."""
    if math.isinf(t):
        return 0. if t > 0 else 1.
    if t * t < df:
        tail = .5 - .5 * scipy.special.betainc(.5, df / 2, t * t / (df + t * t))
    else:
        tail = .5 * scipy.special.betainc(df / 2, .5, df / (df + t * t))
    return float(tail if t >= 0 else 1 - tail)


def verify(ctx, x, y, ref, label):
    n = len(x)
    r = float(ref.cor)
    v = n * (n - 3) / 2
    keep = x.copy(), y.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            s = float(ctx.call("t statistic", STAT, x, y))
            t = ctx.call("t test", TEST, x, y)
    info = dict(x=keep[0], y=keep[1], correlation=r)
    ctx.check(np.array_equal(keep[0], x) and np.array_equal(keep[1], y), f"{label}: inputs modified", **info)
    ctx.check(float(t.statistic) == s or (math.isnan(s) and math.isnan(float(t.statistic))),
              f"{label}: the test reports {t.statistic}, the statistic is {s}", **info)
    p = float(t.pvalue)
    check_result(ctx, t, label, **info)
    ctx.check(0 <= p <= 1, f"{label}: p-value {p}", **info)
    want = math.sqrt(v - 1) * r / math.sqrt(max(0., 1 - r * r)) if abs(r) < 1 - 1e-9 else math.copysign(math.inf, r)
    if math.isinf(want):
        big = math.sqrt(v - 1) / math.sqrt(1e-7)
        ctx.check(math.copysign(1, s) == math.copysign(1, want) and abs(s) >= min(big, 300.) and not math.isnan(s),
                  f"{label}: statistic {s} for a correlation of {r}", **info)
        if r > 0:
            ctx.check(p <= max(1e-4, 2 * survival(min(s, 1e300), v - 1)), f"{label}: p-value {p} for a correlation of {r}", **info)
        else:
            ctx.check(p >= 1 - 1e-4, f"{label}: p-value {p} for a correlation of {r}", **info)
    else:
        # error of the correlation, amplified by 1/(1-r^2)^(3/2)
        err = ref.tolcor + 1e-13
        amp = math.sqrt(v - 1) / (1 - r * r) ** 1.5
        tol = amp * err + 1e-11 * abs(want)
        ctx.close(s, want, tol, f"{label}: statistic for a correlation of {r} and n={n}", **info)
        # the p-value is the upper tail at the reported statistic
        ps = survival(s, v - 1)
        ctx.close(p, ps, 1e-9, f"{label}: p-value of the statistic {s} with {v - 1} degrees of freedom", **info)
    ctx.observe((n, round(r, 9)))


def go(ctx, x, y, label):
    ref = Ref(x, y, 1, True)
    if ref.cor is None:       # the unbiased variance is numerically null
        return
    verify(ctx, x, y, ref, label)


def orders(ns, sort_x):
    """Every pair of order types."""
    def body(ctx):
        n = ctx.choose("n", ns)
        lx = ctx.choose("levels_x", ["irregular", "int"])
        ly = ctx.choose("levels_y", ["irregular", "nondyadic"])
        rx = ctx.choose("x", data.sorted_weak_orders(n) if sort_x else data.weak_orders(n))
        ry = ctx.choose("y", data.weak_orders(n))
        ctx.commit()
        go(ctx, data.from_ranks(rx, lx), data.from_ranks(ry, ly), "t-test")
    return body


def grid(ctx):
    """Every pair of bivariate binary samples (up to relabelling)."""
    import itertools
    rows = list(itertools.product([0., 1.], repeat=2))
    x = ctx.choose("x", list(itertools.combinations_with_replacement(rows, 5)))
    y = ctx.choose("y", list(itertools.product(rows, repeat=5)))
    ctx.commit()
    go(ctx, np.array(x), np.array(y), "t-test")


def configurations(ns):
    def body(ctx):
        c = config.pair(ctx, ns, exps=[1])
        ctx.commit()
        x, y = config.build(c)
        go(ctx, x, y, f"t-test of {c.fx}, {c.fy}")
    return body


def similar(ctx):
    """y is a similarity of x: infinite statistic, null p-value."""
    n = ctx.choose("n", [4, 5, 6, 7, 8, 10, 16, 30, 33, 50, 65, 100])
    fam = ctx.choose("family", data.FAMILY_NAMES)
    d = ctx.choose("d", [None, 1, 2, 5])
    a = ctx.choose("scale", [1., -1., 3., .1, -1e-3, 1e6])
    b = ctx.choose("shift", [0., 1., -1000.1])
    ctx.commit()
    x = data.sample(fam, n, d)
    go(ctx, x, x * a + b, "t-test of similar samples")


def sizes(ns):
    """Degrees of freedom for every sample size."""
    def body(ctx):
        n = ctx.choose("n", ns)
        fx, fy = ctx.choose("families", [("irregular", "signed"), ("squares", "irregular"), ("golden", "primes"), ("sorted", "zigzag")])
        d = ctx.choose("d", [None, 3])
        ctx.commit()
        go(ctx, data.sample(fx, n, d), data.sample(fy, n, d), "t-test")
    return body


def large(ns):
    """Large univariate samples with few values: exact table of counts."""
    def body(ctx):
        n = ctx.choose("n", ns)
        kind = ctx.choose("arrangement", ["cycle", "reversed", "blocks", "hash"] if n < 10000 else ["hash"] if n > 50000 else ["cycle", "hash"])
        ctx.commit()
        ix, iy = arrange(n, kind)
        ux, uy = np.arange(11) ** 1.5 + 1, np.arange(13) ** 1.3 - 4
        counts = np.zeros((11, 13))
        np.add.at(counts, (ix, iy), 1)
        c = float(counts_ref(ux, uy, counts)[1])
        vx = float(counts_ref(ux, ux, np.diag(counts.sum(axis=1)))[1])
        vy = float(counts_ref(uy, uy, np.diag(counts.sum(axis=0)))[1])
        ref = types.SimpleNamespace(cor=c / math.sqrt(vx * vy), tolcor=1e-9)
        verify(ctx, ux[ix], uy[iy], ref, f"t-test of {n} observations")
    return body


def harnesses(tier):
    t = tier == "thorough"
    return [
        Harness("orders4", orders([4], False), note="n=4: every pair of order types"),
        Harness("orders5", orders([5] + ([6] if t else []), True), note="n=5: every pair of order types up to relabelling"),
        Harness("grid", grid, note="bivariate binary samples of size 5"),
        Harness("similar", similar, note="similar samples"),
        Harness("sizes", sizes(list(range(4, 81 if not t else 301)) + [100, 128, 150, 200]), note="every sample size"),
        Harness("large", large([301, 513, 1025, 2049, 5000, 32769, 46343, 65537] + ([70000, 100000, 200000, 1000000] if t else [])),
                note="large samples against an exact table of counts"),
        Harness("configurations", configurations(data.SMALL_N + [64, 100] + (data.MEDIUM_N if t else [])),
                bound=3 if t else 2, note="families, dimensions, scales, offsets"),
    ]
