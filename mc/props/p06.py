"""P06: centering operations and inner products."""
import itertools

import numpy as np

import dcor
from mc import config, data
from mc.core import Harness
from mc.ref import LD, cdist, center, u_center

OUT = ["none", "in_place", "new", "nan_filled", "fortran", "strided", "view_of_bigger", "omitted",
       "view_of_input", "transposed_input"]


INPUT = ("view_of_input", "transposed_input")


def make_out(kind, a):
    n = a.shape[0]
    if kind == "new":
        return np.zeros((n, n))
    if kind == "nan_filled":
        return np.full((n, n), np.nan)
    if kind == "fortran":
        return np.full((n, n), 7., order="F")
    if kind == "strided":
        return np.full((2 * n, 3 * n), -1.)[::2, ::3]
    if kind == "view_of_bigger":
        return np.full((n + 2, n + 2), 5.)[1:-1, 1:-1]
    return None


def compare(ctx, a, which, out_kind):
    f, ref = {"double": (dcor.double_centered, center), "u": (dcor.u_centered, u_center)}[which]
    want = ref(a.astype(LD))
    before = a.copy()
    m = float(np.max(np.abs(before.astype(float)))) if a.size else 0.
    tol = 1e-12 * (m or 1.) * max(1, a.shape[0]) + 0
    info = dict(a=before, out=out_kind)
    if out_kind in ("none", "omitted"):
        r = ctx.call(which, f, a, out=None) if out_kind == "none" else ctx.call(which, f, a)
        ctx.check(r is not a and not np.shares_memory(r, a), "the result shares memory with the input", **info)
    elif out_kind == "in_place":
        if not np.issubdtype(a.dtype, np.floating) or not a.flags.writeable:
            return
        r = ctx.call(which, f, a, out=a)
        ctx.check(r is a, "the result is not the given output", **info)
    elif out_kind in INPUT:
        if not np.issubdtype(a.dtype, np.floating) or not a.flags.writeable:
            return
        o = a[:] if out_kind == "view_of_input" else a.T
        r = ctx.call(which, f, a, out=o)
        ctx.check(r is o, "the result is not the given output", **info)
    else:
        o = make_out(out_kind, a)
        base = o.base
        r = ctx.call(which, f, a, out=o)
        ctx.check(r is o, "the result is not the given output", **info)
        if base is not None and out_kind == "view_of_bigger":
            edge = base.copy()
            edge[1:-1, 1:-1] = 5.
            ctx.check((edge == 5.).all(), "memory outside the output was modified", **info)
    if out_kind != "in_place" and out_kind not in INPUT:
        ctx.check(a.dtype == before.dtype and np.array_equal(a, before), "the input was modified", **info)
    ctx.check(np.issubdtype(r.dtype, np.floating) or r.dtype == object, f"result of type {r.dtype}", **info)
    ctx.close(r, want, tol, f"{which} centered matrix", **info)
    s = np.abs(np.asarray(r, float).sum(axis=0)).max() if a.size else 0
    s2 = np.abs(np.asarray(r, float).sum(axis=1)).max() if a.size else 0
    if which == "double" or not np.diagonal(before).any():
        ctx.check(max(s, s2) <= tol * max(1, a.shape[0]), "rows or columns do not add to zero", **info)
    if which == "u":
        ctx.check((np.diagonal(r) == 0).all(), "the diagonal is not zero", **info)
    ctx.observe((which, round(float(np.asarray(r, float).ravel()[0:2].sum()), 9)))


def symmetric(n, entries, diag):
    idx = [(i, j) for i in range(n) for j in range(i, n) if diag or i != j]
    for vals in itertools.product(entries, repeat=len(idx)):
        a = np.zeros((n, n))
        for (i, j), v in zip(idx, vals):
            a[i, j] = a[j, i] = v
        yield a


def small(ctx):
    """Every small symmetric matrix over a grid."""
    kind = ctx.choose("shape", ["1", "2d", "3d", "4"])
    which = ctx.choose("which", ["double"] if kind in ("1", "2d") else ["double", "u"])
    mats = {"1": lambda: list(symmetric(1, [0., 1., -2.5], True)),
            "2d": lambda: list(symmetric(2, [0., 1., -2.5], True)),
            "3d": lambda: list(symmetric(3, [0., 1., 3.5], which == "double")),
            "4": lambda: list(symmetric(4, [0., 1., 3.5], False))}[kind]()
    if kind == "3d" and which == "u":
        mats = [m + np.diag(d) for m in mats for d in ((0., 0, 0), (1., 0, 2.))]
    k = ctx.choose("matrix", range(len(mats)))
    ctx.commit()
    out = ctx.choose("out", OUT)
    a = mats[k]
    compare(ctx, a.copy(), which, out)


DT = ["f8", "f4", "i8", "i4", "u1", "bool", ">f8", "g"]


def typed(ctx, ns=None):
    n = ctx.dev("n", ns or [5, 3, 4, 6, 7, 8, 16, 17, 33, 64, 65, 100, 128, 129, 200, 257])
    which = ctx.choose("which", ["double", "u"])
    out = ctx.choose("out", OUT)
    dt = ctx.dev("dtype", DT)
    layout = ctx.dev("layout", ["C", "F", "strided", "reversed", "readonly"])
    fam = ctx.dev("family", data.FAMILY_NAMES)
    scale = ctx.dev("scale", [1., 1e-6, 1e6, 1e100, 1e-100])
    ctx.commit()
    d = cdist(data.sample(fam, n), data.sample(fam, n)).astype(float)
    if dt in ("f8", "g", ">f8"):
        d = d * scale
    elif dt == "u1":
        d = np.minimum(np.round(d), 200)
    a = d.astype(dt)
    if layout == "F":
        a = np.asfortranarray(a)
    elif layout == "strided":
        b = np.zeros((2 * n, 3 * n), a.dtype)
        b[::2, ::3] = a
        a = b[::2, ::3]
    elif layout == "reversed":
        a = a[::-1, ::-1].copy()[::-1, ::-1]
    elif layout == "readonly":
        a.setflags(write=False)
    if dt == "f4" and out in ("none", "omitted", "in_place"):
        want = (center if which == "double" else u_center)(a.astype(LD))
        f = dcor.double_centered if which == "double" else dcor.u_centered
        keep = a.copy()
        if out == "in_place":
            if layout == "readonly":
                return
            r = ctx.call(which, f, a, out=a)
            ctx.check(r is a, "the result is not the given output")
        else:
            r = ctx.call(which, f, a)
            ctx.check(np.array_equal(a, keep), "the input was modified")
        ctx.close(r, want, 1e-5 * float(np.abs(keep).max() or 1) * n ** .5, f"{which} float32")
        return
    if dt == "f4" and out in INPUT:
        return
    if dt == "f4":
        # the sums are made in single precision
        f = dcor.double_centered if which == "double" else dcor.u_centered
        want = (center if which == "double" else u_center)(a.astype(LD))
        o = make_out(out, a)
        r = ctx.call(which, f, a, out=o)
        ctx.check(r is o, "the result is not the given output")
        ctx.close(r, want, 1e-5 * float(np.abs(a).max() or 1) * n ** .5, f"{which} float32 with output")
        return
    compare(ctx, a, which, out)


def products(ctx):
    """mean_product and u_product on every pair of small matrices."""
    shape = ctx.choose("shape", [(1, 1), (2, 2), (1, 4), (2, 1), (3, 1)])
    vals = [0., 1., -2.5]
    k = shape[0] * shape[1]
    a = np.array(ctx.choose("a", list(itertools.product(vals, repeat=k)))).reshape(shape)
    ctx.commit()
    b = np.array(ctx.choose("b", list(itertools.product(vals, repeat=k)))).reshape(shape)
    a0, b0 = a.copy(), b.copy()
    v = ctx.call("mean_product", dcor.mean_product, a, b)
    ctx.close(float(v), (a0 * b0).mean(), 1e-12 * 7, "mean product", a=a, b=b)
    if shape[0] == shape[1] != 3:
        v = ctx.call("u_product", dcor.u_product, a, b)
        n = shape[0]
        ctx.close(float(v), (a0 * b0).sum() / (n * (n - 3)), 1e-11 * 7, "u product", a=a, b=b)
    ctx.check(np.array_equal(a, a0) and np.array_equal(b, b0), "the inputs were modified")
    ctx.observe(round(float(v), 9))


def products_big(ctx, ns=None):
    n = ctx.dev("n", ns or [5, 4, 6, 7, 8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 300, 512, 513])
    fx = ctx.dev("fx", config.FX)
    fy = ctx.dev("fy", config.FY)
    sx = ctx.dev("sx", [1., 1e-8, 1e8, 1e60])
    order = ctx.dev("order", ["CC", "CF", "FC", "FF", "CS", "SC", "nonsquare"])
    dt = ctx.dev("dtype", ["f8", "i8", "i4", "bool", ">f8"])
    alias = ctx.dev("alias", [False, True])
    sym = ctx.dev("symmetric", [True, False])
    ctx.commit()
    x, y = data.sample(fx, n), data.sample(fy, n)
    a = np.round(cdist(x, x).astype(float) * 4) / 4 * sx
    b = cdist(y, y).astype(float)
    if not sym:
        w = np.arange(n * n).reshape(n, n)
        a = a * (1 + w % 7)
        b = b * (1 + w % 5) - w % 3
    if dt != "f8":
        a = np.minimum(np.round(a), 1e3).astype(dt)
    if order == "nonsquare":
        a, b = a[: n // 2], b[: n // 2]

    def lay(m, o):
        if o == "F":
            return np.asfortranarray(m)
        if o == "S":
            z = np.zeros((2 * m.shape[0], 2 * m.shape[1]), m.dtype)
            z[::2, ::2] = m
            return z[::2, ::2]
        return m
    if order != "nonsquare":
        a, b = lay(a, order[0]), lay(b, order[1])
    if alias:
        b = a
    fa, fb = a.astype(LD), b.astype(LD)
    v = ctx.call("mean_product", dcor.mean_product, a, b)
    sc = float(np.abs(fa).max()) * float(np.abs(fb).max())
    ctx.close(float(v), (fa * fb).mean() if not (dt == "bool" and alias) else (fa * fb).mean(), 1e-11 * sc, "mean product")
    if order != "nonsquare":
        u = ctx.call("u_product", dcor.u_product, a, b)
        ctx.close(float(u), (fa * fb).sum() / (n * (n - 3)), 1e-10 * sc, "u product")
    ctx.observe(round(float(v) / (sc or 1), 8))


def linked(ctx):
    """The products of centered distance matrices are the covariances."""
    n = ctx.dev("n", [6, 4, 5, 7, 9, 16, 33, 64])
    d = ctx.dev("d", [1, 2, 3])
    fx = ctx.dev("fx", config.FX)
    fy = ctx.dev("fy", config.FY)
    e = ctx.dev("exponent", config.EXPONENTS)
    ctx.commit()
    x, y = data.sample(fx, n, d), data.sample(fy, n, d)
    a = ctx.call("pairwise", dcor.distances.pairwise_distances, x, exponent=e)
    b = ctx.call("pairwise", dcor.distances.pairwise_distances, y, exponent=e)
    sc = float(a.max()) * float(b.max())
    p = ctx.call("mean_product", dcor.mean_product, dcor.double_centered(a), dcor.double_centered(b))
    c = ctx.call("dcov", dcor.distance_covariance_sqr, x, y, exponent=e)
    ctx.close(float(p), float(c), 1e-10 * sc, "product of double centered matrices vs covariance")
    p = ctx.call("u_product", dcor.u_product, dcor.u_centered(a), dcor.u_centered(b))
    c = ctx.call("u_dcov", dcor.u_distance_covariance_sqr, x, y, exponent=e)
    ctx.close(float(p), float(c), 1e-9 * sc, "product of U centered matrices vs covariance")
    ctx.observe(round(float(p), 8))


def harnesses(tier):
    t = tier == "thorough"
    return [
        Harness("small", small, note="every symmetric matrix over a grid up to 4x4, every kind of output"),
        Harness("typed", typed, bound=4 if t else 3, note="types, layouts, sizes, families, outputs"),
        Harness("products", products, note="every pair of small matrices"),
        Harness("products_big", products_big, bound=4 if t else 3, note="products of bigger matrices"),
        Harness("larger", lambda ctx: typed(ctx, [500, 513, 1025, 2049]), bound=1, note="larger matrices"),
        Harness("products_larger", lambda ctx: products_big(ctx, [1000, 1025, 2049]), bound=1, note="products of larger matrices"),
        Harness("linked", linked, bound=5 if t else 3, note="consistency with the covariances"),
    ]
