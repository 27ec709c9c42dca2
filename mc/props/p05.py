"""P05: affinely invariant distance correlation."""
import itertools

import numpy as np

import dcor
from mc import config, data
from mc.core import Harness
from mc.ref import LD, Ref, as2d

SQR = dcor.distance_correlation_af_inv_sqr
ROOT = dcor.distance_correlation_af_inv


def whiten(x):
    """Any square root of the inverse covariance gives the same distances."""
    x = as2d(x).astype(float)
    sc = np.abs(x - x.mean(axis=0)).max(axis=0)
    sc[sc == 0] = 1
    z = (x - x.mean(axis=0)) / sc
    if not z.any():
        return z
    c = z.T @ z / (len(z) - 1)
    chol = np.linalg.cholesky(c)
    return np.linalg.solve(chol, z.T).T


def condition(x):
    z = as2d(x).astype(float)
    z = z - z.mean(axis=0)
    c = z.T @ z
    w = np.linalg.eigvalsh(c)
    return np.inf if w[0] <= 0 else w[-1] / w[0]


def reference(x, y, exponent):
    return Ref(whiten(x), whiten(y), exponent)


def linear_maps(d):
    maps = []
    for p in itertools.permutations(range(d)):
        for s in itertools.product([1., -2.5], repeat=d):
            m = np.zeros((d, d))
            for i, (j, v) in enumerate(zip(p, s)):
                m[i, j] = v
            maps.append(m)
    for i in range(d):
        for j in range(d):
            if i != j:
                for v in (1., -.5):
                    m = np.eye(d)
                    m[i, j] = v
                    maps.append(m)
    return maps


def compare(ctx, x, y, exponent, kw, r):
    info = dict(x=x, y=y, kw=kw, exponent=exponent)
    k = dict(kw)
    if exponent != 1:
        k["exponent"] = exponent
    v2 = float(ctx.call("af_inv_sqr", SQR, x, y, **k))
    v1 = float(ctx.call("af_inv", ROOT, x, y, **k))
    ctx.check(np.isfinite(v2) and np.isfinite(v1), f"not finite: {v2} {v1}", **info)
    if r.cor is None:
        return
    tol = 1e-7 + 10 * r.tolcor
    ctx.check(-1e-9 <= v2 <= 1 + 1e-9 and 0 <= v1 <= 1 + 1e-9, f"out of range {v2} {v1}", **info)
    ctx.close(v2, r.cor, tol, "affinely invariant squared correlation", **info)
    ctx.close(v1 * v1, max(r.cor, 0), tol, "affinely invariant correlation (squared)", **info)
    ctx.observe(round(v2, 7))


def ok(x):
    return condition(x) < 1e6 or not np.ptp(as2d(x), axis=0).any()


def grid(ctx):
    n = ctx.choose("n", [4])
    rows = [(0., 0.), (1., 0.), (0., 1.), (2., 1.)]
    x = np.array(ctx.choose("x", list(itertools.combinations_with_replacement(rows, n))))
    ctx.commit()
    y = np.array(ctx.choose("y", list(itertools.product(rows, repeat=n))))
    if not (ok(x) and ok(y)):
        return
    compare(ctx, x, y, 1, {}, reference(x, y, 1))


def univariate(ctx):
    px = ctx.choose("order_type_x", data.sorted_weak_orders(5))
    ctx.commit()
    py = ctx.choose("order_type_y", data.weak_orders(5))
    x, y = data.from_ranks(px, "irregular"), data.from_ranks(py, "nondyadic")
    r = Ref(x, y)
    compare(ctx, x, y, 1, {}, r)


UNEVEN = ["late", "outlier_last", "early", "outlier_first", "half_const", "irregular", "squares", "organ", "one_differs"]
FAMX = ["irregular", "primes", "squares", "zigzag", "mod7", "signed", "golden", "powers"]


def configurations(ns, dims, exps, fams=FAMX):
    def body(ctx):
        n = ctx.dev("n", ns)
        d = ctx.dev("dim_x", [k for k in dims if (k or 1) < n - 1])
        e = ctx.dev("dim_y", [k for k in dims if (k or 1) < n - 1])
        fx = ctx.dev("family_x", fams)
        fy = ctx.dev("family_y", fams[1:] + fams[:1])
        sx = ctx.dev("scale_x", [1., 1e-4, 1e4, 1e-12, 1e12])
        sy = ctx.dev("scale_y", [1., 1e-4, 1e4])
        ox = ctx.dev("offset_x", [0., 1000.1, -55.5])
        exponent = ctx.dev("exponent", exps)
        method = ctx.dev("method", [{}, {"method": "naive"}, {"method": "auto"},
                                    {"compile_mode": dcor.CompileMode.NO_COMPILE}]
                         + ([{"method": "avl"}, {"method": "mergesort"},
                             {"method": "mergesort", "compile_mode": dcor.CompileMode.NO_COMPILE}]
                            if (d or 1) == (e or 1) == 1 else []))
        storage = ctx.dev("storage", data.STORAGE)
        ctx.commit()
        x = data.sample(fx, n, d, sx, ox * sx)
        x, y = data.store(storage, x, data.sample(fy, n, e, sy))
        if not (ok(x) and ok(y)):
            return
        r = reference(x, y, exponent)
        compare(ctx, x, y, exponent, method, r)
        kw = dict(method)
        if exponent != 1:
            kw["exponent"] = exponent
        if r.cor is None:
            return
        # invariance of the real code under every listed affine map
        base = float(SQR(x.copy(), y.copy(), **kw))
        maps = linear_maps(d or 1) if (d or 1) <= 3 else linear_maps(d)[::97]
        if n > 64:
            maps = maps[:6]
        for m in maps:
            xt = (as2d(x) - ox * sx) @ m + 3.75 * sx
            v = float(ctx.call("af_inv_sqr", SQR, xt, y, **kw))
            ctx.check(abs(v - base) <= 1e-6 + 10 * r.tolcor,
                      f"changes from {base} to {v} under the affine map {m.tolist()}", x=x, y=y, kw=kw)
            w = float(ctx.call("af_inv_sqr", SQR, y, xt, **kw))
            ctx.check(abs(w - base) <= 1e-6 + 10 * r.tolcor,
                      f"not symmetric: {w} instead of {base}", x=x, y=y, kw=kw)
    return body


def constants(ctx):
    n = ctx.choose("n", [4, 5, 8, 30])
    d = ctx.choose("d", [None, 1, 2, 3])
    value = ctx.choose("value", [0., 1., -2.5, .1])
    ctx.commit()
    k = np.full(n if d is None else (n, d), value)
    o = data.sample("irregular", n, 1)
    for x, y in ((k, o), (o, k), (k, k.copy())):
        for f in (SQR, ROOT):
            v = float(ctx.call(f.__name__, f, x, y))
            ctx.check(abs(v) <= 1e-9, f"{f.__name__} with a constant is {v}", x=x, y=y)
    ctx.observe(n)


def anisotropic(ctx):
    """Components of very different magnitudes."""
    n = ctx.choose("n", [9, 17, 40])
    d = ctx.choose("d", [2, 3])
    fx = ctx.choose("family_x", FAMX)
    fy = ctx.choose("family_y", ["signed", "irregular", "squares"])
    which = ctx.choose("component", [0, 1])
    ratio = ctx.choose("ratio", [1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e3, 1e5])
    rotated = ctx.choose("rotated", [False, True])
    dy = ctx.choose("dim_y", [None, 2])
    ctx.commit()
    x, y = data.sample(fx, n, d), data.sample(fy, n, dy)
    if condition(x) > 1e3 or condition(y) > 1e3:
        return
    m = np.eye(d)
    m[which, which] = ratio
    if rotated:
        q = np.eye(d)
        q[:2, :2] = [[.6, -.8], [.8, .6]]
        m = m @ q
    xt = x @ m
    r = reference(x, y, 1)
    if r.cor is None:
        return
    ref = max(ratio, 1 / ratio) ** 2
    tol = 1e-6 + 10 * r.tolcor + 1e-14 * ref * condition(x)
    if tol > .02:
        return
    v = float(ctx.call("af_inv_sqr", SQR, xt, y))
    ctx.close(v, r.cor, tol, f"components of magnitudes in ratio {ratio}", x=xt, y=y)
    w = float(ctx.call("af_inv", ROOT, y, xt))
    ctx.close(w * w, max(r.cor, 0), tol, f"components of magnitudes in ratio {ratio}", x=xt, y=y)
    ctx.observe((round(r.cor, 7), ratio))


def harnesses(tier):
    t = tier == "thorough"
    return [
        Harness("grid", grid, note="bivariate samples of 4 points of a grid"),
        Harness("univariate", univariate, note="order types of 5 observations, x sorted"),
        Harness("constants", constants, note="constant samples"),
        Harness("anisotropic", anisotropic, note="components of very different magnitudes"),
        Harness("configurations", configurations(
            [9, 5, 6, 7, 8, 10, 16, 17, 33, 64, 65, 100, 129] + ([257, 300] if t else []),
            [2, None, 1, 3, 4, 5], [1]), bound=3 if t else 2,
            note="sizes, dimensions, scales, exponents, affine maps"),
        Harness("small_configurations", configurations([9, 5, 6, 7], [2, None, 1, 3], [1]), bound=4 if t else 3,
                note="three deviations, small samples"),
        Harness("large", configurations([500, 513, 777, 1000, 1023, 1024, 1025, 1300, 1500, 2000, 2047, 2049], [2, None, 3], [1], UNEVEN),
                bound=2 if t else 1, note="large samples, stationary or not"),
        Harness("uneven", configurations([30, 9, 17, 33, 65, 129, 300], [2, None, 3], [1], UNEVEN), bound=3 if t else 2,
                note="samples with a part unlike the rest"),
    ]
