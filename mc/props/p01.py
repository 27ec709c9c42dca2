"""P01: distance covariance / variance equal their definition."""
import itertools

import numpy as np

import dcor
from mc import config, data
from mc.core import Harness
from mc.ref import Ref, arrange, counts_ref

SQR = dcor.distance_covariance_sqr
ROOT = dcor.distance_covariance
USQR = dcor.u_distance_covariance_sqr
METHODS = ["default", "auto", "naive", dcor.DistanceCovarianceMethod.NAIVE,
           dcor.DistanceCovarianceMethod.AUTO, "NAIVE", "Auto"]


def kw_of(method, exponent):
    kw = {}
    if method != "default":
        kw["method"] = method
    if exponent != 1:
        kw["exponent"] = exponent
    return kw


def compare(ctx, x, y, exponent, method, which):
    kw = kw_of(method, exponent)
    info = dict(x=x, y=y, kw=kw)
    if which == "u":
        r = Ref(x, y, exponent, True)
        v = ctx.call("u_distance_covariance_sqr", USQR, x, y, **kw)
        ctx.close(v, r.cov, r.tol, "unbiased squared distance covariance", **info)
    elif which == "sqr":
        r = Ref(x, y, exponent)
        v = ctx.call("distance_covariance_sqr", SQR, x, y, **kw)
        ctx.close(v, r.cov, r.tol, "squared distance covariance", **info)
    else:
        r = Ref(x, y, exponent)
        v = ctx.call("distance_covariance", ROOT, x, y, **kw)
        f = float(v)
        ctx.check(np.isfinite(f) and f >= 0, "distance covariance not a non negative number", value=f, **info)
        ctx.close(f * f, max(float(r.cov), 0), r.tol, "distance covariance (squared)", **info)
    ctx.observe((which, round(float(v), 9)))


def grid(ctx):
    """Every univariate pair of samples over a value grid."""
    n = ctx.choose("n", [1, 2, 3, 4])
    vals = [0., 1., -2.5] if n < 4 else [0., 1., 3.5]
    x = ctx.choose("x", list(itertools.product(vals, repeat=n)))
    ctx.commit()
    y = ctx.choose("y", list(itertools.product(vals, repeat=n)))
    which = ctx.choose("which", ["sqr", "root", "u"] if n > 3 else ["sqr", "root"])
    compare(ctx, np.array(x), np.array(y), 1, "default", which)


def binary(ctx):
    """Every pair of bivariate binary samples of size 4, several exponents."""
    rows = list(itertools.product([0., 1.], repeat=2))
    # up to a joint relabelling of the instances: x non decreasing
    x = ctx.choose("x", list(itertools.combinations_with_replacement(rows, 4)))
    exponent = ctx.choose("exponent", [1, .5, 1.5])
    ctx.commit()
    y = ctx.choose("y", list(itertools.product(rows, repeat=4)))
    which = ctx.choose("which", ["sqr", "u"])
    compare(ctx, np.array(x), np.array(y), exponent, "default", which)


def sizes(ns):
    def body(ctx):
        c = config.pair(ctx, ns)
        method = ctx.dev("method", METHODS)
        ctx.commit()
        which = ctx.choose("which", ["sqr", "root", "u"])
        x, y = config.build(c)
        compare(ctx, x, y, c.exponent, method, which)
    return body


def tiny(ctx):
    """Samples of one, two and three observations, of any dimension."""
    c = config.pair(ctx, [3, 1, 2])
    method = ctx.dev("method", ["default", "naive"])
    ctx.commit()
    which = ctx.choose("which", ["sqr", "root"])
    x, y = config.build(c)
    compare(ctx, x, y, c.exponent, method, which)


def xl(ns, dims):
    def body(ctx):
        c = config.pair(ctx, ns, dims=dims, scales=[1.], offsets=[0.],
                        exps=[1, .5, 1.5])
        method = ctx.dev("method", ["default", "naive"])
        ctx.commit()
        which = ctx.choose("which", ["sqr", "u"])
        x, y = config.build(c)
        compare(ctx, x, y, c.exponent, method, which)
    return body


def independent(ctx):
    """Factorial designs: the covariance vanishes and rounding may leave it negative."""
    lx = ctx.choose("levels_x", list(data.LEVELS))
    ly = ctx.choose("levels_y", list(data.LEVELS))
    k = ctx.choose("sizes", [(2, 2), (2, 3), (3, 2), (3, 3), (4, 3), (5, 4), (7, 6), (8, 8)])
    ctx.commit()
    reps = ctx.choose("repetitions", [1, 2, 3])
    order = ctx.choose("order", ["row", "shuffled", "reversed"])
    d = ctx.choose("d", [None, 2, 3])
    which = ctx.choose("which", ["sqr", "root"])
    method = ctx.choose("method", ["default", "naive"])
    x, y = data.factorial(data.LEVELS[lx](k[0]), data.LEVELS[ly](k[1]), reps, order, d)
    compare(ctx, x, y, 1, method, which)


def xxl(ns):
    """Big multivariate samples with few different rows: exact table of counts."""
    def body(ctx):
        n = ctx.choose("n", ns)
        d = ctx.choose("d", [2, 3])
        which = ctx.choose("which", ["sqr", "u"])
        kind = ctx.choose("arrangement", ["cycle", "reversed", "hash"])
        exponent = ctx.choose("exponent", [1, .5])
        ctx.commit()
        ix, iy = arrange(n, kind)
        ux, uy = data.sample("irregular", 11, d), data.sample("golden", 13, 2)
        counts = np.zeros((11, 13))
        np.add.at(counts, (ix, iy), 1)
        want = counts_ref(ux, uy, counts, exponent)[which == "u"]
        v = ctx.call(which, SQR if which == "sqr" else USQR, ux[ix], uy[iy], **kw_of("default", exponent))
        ctx.close(float(v), want, 1e-10 * 100, f"n={n} {which} {kind}")
        ctx.observe(round(float(want), 8))
    return body


def harnesses(tier):
    t = tier == "thorough"
    small = data.SMALL_N + (data.MEDIUM_N if t else [64, 65, 100, 128, 129])
    hs = [
        Harness("grid", grid, note="all univariate sample pairs over a 3-value grid, n<=4"),
        Harness("binary", binary, note="all bivariate binary sample pairs of size 4 up to relabelling"),
        Harness("independent", independent, note="factorial designs: null covariance"),
        Harness("tiny", tiny, bound=3 if t else 2, note="up to three observations"),
        Harness("configurations", sizes(small), bound=3 if t else 2,
                note="size, dimension, family, exponent, scale, offset, aliasing and method, by deviations"),
        Harness("medium", sizes([101] + data.MEDIUM_N + data.LARGE_N[:5]), bound=2 if t else 1,
                note="medium sizes"),
        Harness("large", xl([1000] + data.LARGE_N + data.XL_N, [None, 1, 2, 3]), bound=2 if t else 1,
                note="large sizes"),
    ]
    hs.append(Harness("xxl", xxl([3000, 4097] + ([4096, 5000, 8193] if t else [])),
                      note="big multivariate samples against an exact table of counts"))
    return hs
