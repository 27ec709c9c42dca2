"""P09: energy distance and the two-sample statistic."""
import itertools

import numpy as np

import dcor
from dcor import EstimationStatistic as ES
from mc import config, data
from mc.core import Harness
from mc.ref import cdist, energy

ED = dcor.energy_distance
TS = dcor.homogeneity.energy_test_statistic

STATS = {
    "default": (None, False), "V": ("V", False), "v": ("v", False),
    "v_statistic": ("v_statistic", False), "V_STATISTIC": ("V_STATISTIC", False),
    "V_Statistic": ("V_Statistic", False),
    "U": ("U", True), "u": ("u", True), "u_statistic": ("u_statistic", True),
    "U_STATISTIC": ("U_STATISTIC", True),
    "enumU": (ES.U_STATISTIC, True), "enumV": (ES.V_STATISTIC, False),
}


def trimmed(a):
    a = np.sort(np.asarray(a).ravel())
    return a[:max(1, (len(a) + 1) // 2)].mean()


AVERAGES = {"default": None, "mean": np.mean, "median": np.median, "max": np.max,
            "low_half": trimmed, "sum": np.sum}


def compare(ctx, x, y, e, stat, average):
    arg, ustat = STATS[stat]
    kw = {}
    if e != 1:
        kw["exponent"] = e
    if arg is not None:
        kw["estimation_stat"] = arg
    if average != "default":
        kw["average"] = AVERAGES[average]
    if ustat and (len(x) < 2 or len(y) < 2):
        return
    x0, y0 = x.copy(), y.copy()
    want = energy(x, y, e, ustat, AVERAGES[average])
    n, m = len(x), len(y)
    dxy = cdist(x, y, e)
    sc = max(float(dxy.max()), float(cdist(x, x, e).max()), float(cdist(y, y, e).max()))
    tol = 1e-11 * sc * (n * m if average == "sum" else 1)
    if average in ("median", "low_half", "max"):
        tol *= 100
    info = dict(x=x0, y=y0, kw=kw)
    v = ctx.call("energy_distance", ED, x, y, **kw)
    ctx.close(float(v), want, tol, "energy distance", **info)
    s = ctx.call("energy_test_statistic", TS, x, y, **kw)
    f = n * m / (n + m)
    ctx.close(float(s), want * f, tol * max(f, 1), "energy test statistic", **info)
    ctx.check(np.array_equal(x, x0) and np.array_equal(y, y0), "inputs modified", **info)
    if not ustat and average == "default" and 0 < e < 2:
        ctx.check(float(v) >= -tol, f"negative energy distance {v}", **info)
    ctx.observe(round(float(v), 9))
    return float(v), tol


def grid(ctx):
    d = ctx.choose("d", [None, 2])
    pts = [0., 1., -2.5] if d is None else list(itertools.product([0., 1.], repeat=2))
    n = ctx.choose("n", [1, 2, 3])
    x = ctx.choose("x", list(itertools.product(pts, repeat=n)))
    ctx.commit()
    m = ctx.choose("m", [1, 2, 3])
    y = ctx.choose("y", list(itertools.combinations_with_replacement(pts, m)))
    stat = ctx.choose("stat", ["default", "U"])
    compare(ctx, np.array(x), np.array(y), 1, stat, "default")


def configurations(ns, ms, dims):
    def body(ctx):
        n = ctx.dev("n", ns)
        m = ctx.dev("m", ms)
        d = ctx.dev("d", [k for k in dims if max(n, m) ** 2 * (k or 1) <= 1.2e7])
        fx = ctx.dev("fx", config.FX)
        fy = ctx.dev("fy", config.FY)
        e = ctx.dev("exponent", config.EXPONENTS)
        stat = ctx.dev("stat", list(STATS))
        avg = ctx.dev("average", list(AVERAGES))
        sx = ctx.dev("scale", [1., 1e-6, 1e6, 1e-30, 1e30])
        off = ctx.dev("offset", [0., 55.5, 1e6])
        storage = ctx.dev("storage", data.STORAGE)
        ctx.commit()
        x = data.sample(fx, n, d, sx, off * sx)
        x, y = data.store(storage, x, data.sample(fy, m, d, sx, off * sx))
        compare(ctx, x, y, e, stat, avg)
    return body


def laws(ctx):
    """Exchange, identity, relabelling, translation and scale laws."""
    n = ctx.choose("n", [1, 2, 3, 5, 8, 17])
    m = ctx.choose("m", [1, 2, 4, 9, 16])
    d = ctx.choose("d", [None, 1, 3])
    fx = ctx.choose("fx", ["irregular", "ties3", "const", "outlier_first"])
    fy = ctx.choose("fy", ["signed", "ties2", "sorted"])
    ctx.commit()
    e = ctx.choose("exponent", [1, .5, 1.5])
    u = ctx.choose("stat", ["V", "U"])
    if u == "U" and min(n, m) < 2:
        return
    x, y = data.sample(fx, n, d), data.sample(fy, m, d)
    kw = dict(exponent=e, estimation_stat=u)
    base = float(ctx.call("energy", ED, x, y, **kw))
    sc = float(max(cdist(x, y, e).max(), cdist(x, x, e).max(), cdist(y, y, e).max()))
    tol = 1e-10 * (sc or 1)
    w = float(ctx.call("energy", ED, y, x, **kw))
    ctx.close(w, base, tol, "energy distance not symmetric", x=x, y=y)
    w = float(ctx.call("energy", ED, x[::-1], np.roll(y, 1, axis=0), **kw))
    ctx.close(w, base, tol, "changes when relabelling", x=x, y=y)
    w = float(ctx.call("energy", ED, x + 31.25, y + 31.25, **kw))
    ctx.close(w, base, tol, "changes under translation", x=x, y=y)
    w = float(ctx.call("energy", ED, -4 * x, -4 * y, **kw))
    ctx.close(w, base * 4 ** e, tol * 20, "does not scale", x=x, y=y)
    w = float(ctx.call("energy", ED, np.concatenate([x, x]), np.concatenate([y, y]),
                       exponent=e, estimation_stat="V"))
    v = float(ED(x, y, exponent=e))
    ctx.close(w, v, tol, "duplicating every observation changes the V-statistic", x=x, y=y)
    w = float(ctx.call("energy", ED, x, x.copy(), exponent=e))
    ctx.close(w, 0, tol, "energy distance of equal samples", x=x)
    w = float(ctx.call("energy", ED, x, x[::-1].copy(), exponent=e))
    ctx.close(w, 0, tol, "energy distance of relabelled samples", x=x)
    ctx.observe(round(base, 8))


def harnesses(tier):
    t = tier == "thorough"
    return [
        Harness("grid", grid, note="every pair of small samples over a grid, U and V"),
        Harness("configurations", configurations(
            [6, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 64, 65, 100, 128, 129],
            [4, 1, 2, 3, 5, 6, 7, 8, 9, 16, 17, 33, 64, 65, 100, 128, 129],
            [None, 1, 2, 3, 4, 5, 8, 16, 33, 64]), bound=4 if t else 3,
            note="sizes, dimensions, exponents, statistic (enum and every spelling), averages, scales"),
        Harness("large", configurations([200] + data.MEDIUM_N + data.LARGE_N, [100, 200, 257, 513, 1000], [None, 2]),
                bound=2, note="large samples"),
        Harness("laws", laws, note="algebraic laws"),
    ]
