"""P07: projections, partial distance covariance and correlation."""
import functools
import itertools
import math

import numpy as np

import dcor
from mc import config, data
from mc.core import Harness
from mc.ref import LD, cdist, u_center

PCOV = dcor.partial_distance_covariance
PCOR = dcor.partial_distance_correlation


def inner(a, b):
    n = len(a)
    return (a * b).sum() / (n * (n - 3))


def project_out(a, c):
    cc = inner(c, c)
    return a - (inner(a, c) / cc) * c if cc > 0 else a


class Triple:
    def __init__(self, dx, dy, dz):
        self.m = [max(float(d.max()), 1e-300) for d in (dx, dy, dz)]
        # normalise: the partial covariance is bilinear in the distances
        a, b, c = (u_center(d.astype(LD) / m) for d, m in zip((dx, dy, dz), self.m))
        self.zero = [float(inner(v, v)) < 1e-9 for v in (a, b, c)]
        self.const = [not d.any() for d in (dx, dy, dz)]
        czero = self.zero[2]
        pa = a if czero else project_out(a, c)
        pb = b if czero else project_out(b, c)
        self.raw = float(inner(pa, pb))
        self.cov = self.raw * self.m[0] * self.m[1]
        self.tol = 1e-9 * self.m[0] * self.m[1]
        na, nb = float(inner(pa, pa)), float(inner(pb, pb))
        # a projection is negligible compared with the original matrix
        self.deg_a = self.zero[0] or na < 1e-7 * float(inner(a, a))
        self.deg_b = self.zero[1] or nb < 1e-7 * float(inner(b, b))
        self.cor = None if (self.deg_a or self.deg_b) else self.raw / math.sqrt(na * nb)
        self.tolcor = None if self.cor is None else 1e-7 + 1e-8 / math.sqrt(na * nb)
        self.z_tiny = czero and not self.const[2]


def compare(ctx, x, y, z, t):
    info = dict(x=x, y=y, z=z)
    if t.z_tiny:
        return   # the matrix to project out is only rounding noise
    v = float(ctx.call("partial_distance_covariance", PCOV, x, y, z))
    ctx.close(v, t.cov, t.tol, "partial distance covariance", **info)
    r = float(ctx.call("partial_distance_correlation", PCOR, x, y, z))
    if t.const[0] or t.const[1]:
        ctx.check(r == 0 and v == 0, f"with a constant: {v} {r}", **info)
    elif t.cor is not None:
        ctx.close(r, t.cor, t.tolcor, "partial distance correlation", **info)
        ctx.check(abs(r) <= 1 + 1e-6, f"partial correlation out of range: {r}", **info)
    elif not (t.deg_a and t.deg_b) and not (t.zero[0] or t.zero[1]):
        # exactly one projection vanishes: 0 up to rounding noise
        ctx.check(abs(r) <= 1e-3, f"partial correlation {r} when one projection vanishes", **info)
    ctx.observe((round(v, 9), None if t.cor is None else round(r, 6)))


@functools.lru_cache(None)
def mats(n, levels):
    pats = data.weak_orders(n)
    X = [data.from_ranks(p, levels) for p in pats]
    return X, [cdist(x, x) for x in X]


def cells(n, step_y, step_z):
    """Every triple of order types."""
    def body(ctx):
        X, DX = mats(n, "irregular")
        Y, DY = mats(n, "nondyadic")
        Z, DZ = mats(n, "int")
        srt = data.sorted_weak_orders(n)
        idx = [i for i, p in enumerate(data.weak_orders(n)) if p in srt]
        i = ctx.choose("order_type_x", idx)
        k = ctx.choose("order_type_z", range(0, len(Z), step_z))
        ctx.commit()
        j = ctx.choose("order_type_y", range(0, len(Y), step_y))
        compare(ctx, X[i].copy(), Y[j].copy(), Z[k].copy(), Triple(DX[i], DY[j], DZ[k]))
    return body


def configurations(ns, dims):
    def body(ctx):
        n = ctx.dev("n", ns)
        fx = ctx.dev("fx", config.FX)
        fy = ctx.dev("fy", config.FY)
        fz = ctx.dev("fz", config.FZ)
        ds = [d for d in dims if (d or 1) * n * n <= 6e6]
        dx, dy, dz = (ctx.dev("d" + s, ds) for s in "xyz")
        sx = ctx.dev("sx", [1., 1e-6, 1e6, 1e-12, 1e12, 1e-50, 1e50])
        sz = ctx.dev("sz", [1., 1e-6, 1e6, 1e-12, 1e12, 1e-50, 1e50])
        oy = ctx.dev("oy", [0., 300.3])
        ident = ctx.dev("identity", ["xyz", "xxz", "xyx", "xyy"] + ["xy " + k for k in data.STORAGE[1:]] + ["xz " + k for k in data.STORAGE[1:]] + ["columns"])
        ctx.commit()
        x = data.sample(fx, n, dx, sx)
        y = data.sample(fy, n, dy, 1., oy)
        z = data.sample(fz, n, dz, sz)
        if ident == "xxz":
            y = x
        elif ident == "xyx":
            z = x
        elif ident == "xyy":
            z = y
        elif ident == "columns":
            m = np.concatenate([v.reshape(n, -1) for v in (x, y, z)], axis=1)
            cuts = np.cumsum([v.reshape(n, -1).shape[1] for v in (x, y)])
            x, y, z = (p[:, 0] if q.ndim == 1 else p for p, q in zip(np.split(m, cuts, axis=1), (x, y, z)))
        elif ident[:2] == "xy" and ident != "xyz" and ident != "xyx":
            x, y = data.store(ident[3:], x, y)
        elif ident[:2] == "xz":
            x, z = data.store(ident[3:], x, z)
        t = Triple(cdist(x, x), cdist(y, y), cdist(z, z))
        keep = [v.copy() for v in (x, y, z)]
        compare(ctx, x, y, z, t)
        ctx.check(all(np.array_equal(p, q) for p, q in zip(keep, (x, y, z))), "inputs modified")
        if t.const[2]:
            # nothing to remove: the unbiased covariance and correlation
            v = float(PCOV(x, y, z))
            w = float(ctx.call("u_dcov", dcor.u_distance_covariance_sqr, x, y, method="naive"))
            ctx.close(v, w, t.tol, "with a constant z")
    return body


def symmetric_use(ctx):
    n = ctx.choose("n", [4, 5, 6, 9, 17])
    fs = ctx.choose("families", list(itertools.permutations(
        ["irregular", "ties3", "squares", "zigzag", "outlier_first", "sorted"], 3)))
    ctx.commit()
    x, y, z = (data.sample(f, n) for f in fs)
    a = float(ctx.call("pcov", PCOV, x, y, z))
    b = float(ctx.call("pcov", PCOV, y, x, z))
    sc = float(np.ptp(x) * np.ptp(y))
    ctx.close(a, b, 1e-9 * sc, "partial covariance not symmetric")
    c = float(ctx.call("pcov", PCOV, x * -3 + 2, y, z * .5 - 9))
    ctx.close(c, 3 * a, 1e-8 * sc, "partial covariance of transformed samples")
    t = Triple(cdist(x, x), cdist(y, y), cdist(z, z))
    if t.cor is not None:
        u = float(ctx.call("pcor", PCOR, x, y, z))
        v = float(ctx.call("pcor", PCOR, y, x, z))
        w = float(ctx.call("pcor", PCOR, x * 2.5 - 1, y * -4, z * 100 + 3))
        ctx.close([v, w], [u, u], 10 * t.tolcor, "partial correlation not invariant", x=x, y=y, z=z)
    ctx.observe(round(a, 8))


def projections(ctx):
    """u_projection / u_complementary_projection on pairs of U-centered matrices."""
    n = ctx.choose("n", [4, 5, 8, 17, 40])
    fa = ctx.choose("a", data.FAMILY_NAMES + ["zero"])
    fb = ctx.choose("b", data.FAMILY_NAMES + ["same", "zero"])
    ctx.commit()
    if fa == "zero":
        a = np.zeros((n, n))
    else:
        x = data.sample(fa, n)
        a = u_center(cdist(x, x)).astype(float)
    if fb == "same":
        b = a
    elif fb == "zero":
        b = np.zeros((n, n))
    else:
        y = data.sample(fb, n)
        b = u_center(cdist(y, y)).astype(float)
    a0, b0 = a.copy(), b.copy()
    aa = float(inner(a.astype(LD), a.astype(LD)))
    ma, mb = np.abs(a).max(), np.abs(b).max()
    if 0 < aa < 1e-10 * 100 ** 2 and ma < 1e-10:
        return      # numerically null, not exactly zero
    proj = ctx.call("u_projection", dcor.u_projection, a)
    comp = ctx.call("u_complementary_projection", dcor.u_complementary_projection, a)
    p, q = ctx.call("projection", proj, b), ctx.call("complementary", comp, b)
    want = (float(inner(a.astype(LD), b.astype(LD))) / aa * a0) if aa > 0 else np.zeros((n, n))
    tol = 1e-11 * max(mb, 1e-300)
    ctx.close(p, want, tol, "projection", a=a, b=b)
    ctx.close(q, b0 - want, tol, "complementary projection", a=a, b=b)
    ctx.check(np.array_equal(a, a0) and np.array_equal(b, b0), "inputs modified")
    ctx.check(not np.shares_memory(q, b) and not np.shares_memory(p, a), "the result shares memory with the input")
    # the functions can be applied again, in any order, to other matrices
    p2, q2 = ctx.call("projection", proj, p), ctx.call("complementary", comp, q)
    ctx.close(p2, want, tol * 10, "projecting twice", a=a, b=b)
    ctx.close(q2, b0 - want, tol * 10, "complementary projection twice", a=a, b=b)
    qb = ctx.call("projection", proj, 2 * b0)
    ctx.close(qb, 2 * want, tol * 10, "projection of a multiple", a=a, b=b)
    ip = float(ctx.call("u_product", dcor.u_product, q, a))
    ctx.check(abs(ip) <= 1e-9 * ma * mb + 1e-300, f"complement not orthogonal: {ip}", a=a, b=b)
    ctx.observe(round(float(np.abs(want).sum()), 6))


def scaled_projections(ctx):
    """The same with matrices of any magnitude."""
    n = ctx.choose("n", [4, 6, 17])
    fa = ctx.choose("a", ["irregular", "ties3", "squares", "clusters", "golden"])
    fb = ctx.choose("b", ["signed", "mod7", "outlier_last", "same"])
    sa = ctx.choose("scale_a", [1., 1e-8, 1e-12, 1e-20, 1e-60, 1e-140, 1e8, 1e20, 1e60, 1e140])
    sb = ctx.choose("scale_b", [1., 1e-8, 1e-12, 1e-20, 1e-60, 1e-140, 1e8, 1e20, 1e60, 1e140])
    ctx.commit()
    if abs(np.log10(sa) + np.log10(sb)) > 290:
        return
    x = data.sample(fa, n)
    a1 = u_center(cdist(x, x) / LD(np.ptp(x)))
    y = data.sample(fb, n) if fb != "same" else x
    b1 = u_center(cdist(y, y) / LD(np.ptp(y)))
    if np.abs(a1).max() < 1e-9:
        return      # numerically null
    a, b = a1.astype(float) * sa, b1.astype(float) * sb
    want = inner(a1, b1) / inner(a1, a1) * a1 * LD(sb)
    tol = 1e-10 * sb * max(1., float(np.abs(want).max()) / sb)
    p = ctx.call("projection", ctx.call("u_projection", dcor.u_projection, a), b)
    q = ctx.call("complementary", ctx.call("u_complementary_projection", dcor.u_complementary_projection, a), b)
    ctx.close(p, want, tol, f"projection of matrices of scales {sa} and {sb}")
    ctx.close(q, b1 * LD(sb) - want, tol, f"complementary projection of matrices of scales {sa} and {sb}")
    ctx.observe(round(float(want[0, 1] / sb), 8))


def similar(ctx):
    """x and y are both similar to z: both projections vanish, so 0."""
    case = ctx.choose("case", [0, 1])
    ctx.commit()
    z = np.array([1., 2., 4., 7., 11., 16.])
    if case == 0:
        x, y = z.copy(), z.copy()
        r = float(ctx.call("pcor", PCOR, x, y, z))
    else:
        ctx.known = "K1"
        z = np.array([0., 1., 2., 5., 9.]) * .1
        r = float(ctx.call("pcor", PCOR, 3 * z + .3, -2 * z + 1 / 3, z))
    ctx.check(abs(r) <= 1e-3, f"partial correlation of two samples similar to z is {r}")
    ctx.observe(r)


def harnesses(tier):
    t = tier == "thorough"
    return [
        Harness("cells4", cells(4, 1, 1), note="every triple of order types of 4 observations, x sorted"),
        Harness("cells5", cells(5, 1 if t else 5, 7 if t else 11), note="triples of order types of 5 observations"),
        Harness("configurations", configurations(
            [8, 4, 5, 6, 7, 9, 10, 16, 17, 25, 33, 50, 64, 65, 100, 128, 129] + ([200, 257, 300] if t else []),
            [None, 1, 2, 3, 5, 16]), bound=4 if t else 3, note="sizes, dimensions, families, scales, aliasing"),
        Harness("large", configurations([200, 257, 300, 500, 513] + ([1025] if t else []), [None, 2]), bound=2, note="large samples"),
        Harness("larger", configurations([600, 1025, 2049], [None]), bound=1, note="larger samples"),
        Harness("symmetric_use", symmetric_use, note="symmetry and similarity invariance"),
        Harness("projections", projections, note="projections of every pair of families"),
        Harness("scaled_projections", scaled_projections, note="projections of matrices of any magnitude"),
        Harness("similar", similar, note="x and y similar to z"),
    ]
