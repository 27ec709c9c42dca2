"""P04: invariances of distance covariance and correlation."""
import itertools

import numpy as np

import dcor
from mc import config, data
from mc.core import Harness
from mc.props.p02 import IMPLS
from mc.ref import tolerance

FUNS = {
    "dcov_sqr": (dcor.distance_covariance_sqr, False, False),
    "u_dcov_sqr": (dcor.u_distance_covariance_sqr, True, False),
    "dcor_sqr": (dcor.distance_correlation_sqr, False, True),
    "u_dcor_sqr": (dcor.u_distance_correlation_sqr, True, True),
    "dcov": (dcor.distance_covariance, False, False),
    "dcor": (dcor.distance_correlation, False, True),
}


def spread(x):
    x = x.reshape(len(x), -1)
    return float(np.linalg.norm(x.max(axis=0) - x.min(axis=0)))


def values(ctx, x, y, kw, funs):
    out = {}
    for name in funs:
        out[name] = float(ctx.call(name, FUNS[name][0], x, y, **kw))
    return out


def degenerate(x, y, v, unb):
    """Correlations are compared only if the variances are not negligible."""
    f = dcor.u_distance_covariance_sqr if unb else dcor.distance_covariance_sqr
    for s in (x, y):
        sp = spread(s)
        if sp == 0 or float(f(s, s, method="naive")) < 1e-6 * sp ** 2:
            return True
    return False


def same(ctx, base, other, x, y, kw, what, factor=1.):
    e = kw.get("exponent", 1)
    sc = 10 * tolerance(spread(x) ** e, spread(y) ** e, x, y, e)
    for name, v in base.items():
        _, unb, cor = FUNS[name]
        w = other[name]
        if cor:
            if degenerate(x, y, v, unb):
                continue
            tol, f = 1e-6 if name == "dcor" else 1e-8, 1.
            if name == "dcor":
                v, w, tol = v * v, w * w, 1e-8
        elif name == "dcov":
            v, w, tol, f = v * v, w * w, sc * factor, factor
        else:
            tol, f = (10 if unb else 1) * sc * factor, factor
        if not abs(w - v * f) <= tol:
            ctx.fail(f"{name} {what}: {w} instead of {v * f}", x=x, y=y, kw=kw)
        ctx.checks += 1


def kwargs(impl, exponent=1):
    kw = dict(IMPLS[impl])
    if exponent != 1:
        kw["exponent"] = exponent
    return kw


def joint_permutations(n, impls, sorted_only):
    """Relabelling the observations of both samples changes nothing."""
    def body(ctx):
        X = data.sorted_weak_orders(n) if sorted_only else data.weak_orders(n)
        px = ctx.choose("order_type_x", X)
        impl = ctx.choose("impl", impls)
        ctx.commit()
        py = ctx.choose("order_type_y", data.weak_orders(n)[::(1 if n < 5 else 7)])
        x, y = data.from_ranks(px, "irregular"), data.from_ranks(py, "nondyadic")
        kw = kwargs(impl)
        funs = ["u_dcov_sqr", "dcor_sqr"]
        base = values(ctx, x, y, kw, funs)
        for p in itertools.permutations(range(n)):
            p = list(p)
            other = values(ctx, x[p], y[p], kw, funs)
            same(ctx, base, other, x, y, kw, f"under the joint permutation {p}")
        swapped = values(ctx, y, x, kw, funs)
        same(ctx, base, swapped, x, y, kw, "with the arguments exchanged")
        ctx.observe(round(base["dcor_sqr"], 8))
    return body


def perms_of(n):
    i = np.arange(n)
    out = [i[::-1], np.roll(i, 1), np.roll(i, n // 2),
           np.concatenate([i[::2], i[1::2]])]
    step = next(s for s in range(max(2, n // 3), 2 * n + 3) if np.gcd(s, n) == 1)
    out.append((i * step + 3) % n)
    return out


def orthogonals(d):
    """Signed permutations and plane rotations with rational entries."""
    mats = []
    if d <= 3:
        for p in itertools.permutations(range(d)):
            for s in itertools.product([1., -1.], repeat=d):
                m = np.zeros((d, d))
                for i, (j, v) in enumerate(zip(p, s)):
                    m[i, j] = v
                mats.append(m)
    else:
        mats += [np.eye(d)[::-1], -np.eye(d), np.roll(np.eye(d), 1, axis=0)]
    for i in range(d - 1):
        m = np.eye(d)
        m[i, i] = m[i + 1, i + 1] = .6
        m[i, i + 1], m[i + 1, i] = -.8, .8
        mats.append(m)
    return mats


def transformations(ns, dims, exps):
    def body(ctx):
        c = config.pair(ctx, ns, dims=dims, exps=exps, scales=[1., 1e-6, 1e6],
                        offsets=[0., 300.3], alias=False)
        impls = ["auto", "naive"]
        if c.dx in (None, 1) and c.dy in (None, 1) and c.exponent == 1:
            impls += ["avl/python", "mergesort/cpu", "mergesort/python"]
        impl = ctx.dev("impl", impls)
        ctx.commit()
        kind = ctx.choose("transformation", ["exchange", "permute", "translate", "scale", "rotate"])
        x, y = config.build(c)
        kw = kwargs(impl, c.exponent)
        funs = list(FUNS)
        base = values(ctx, x, y, kw, funs)
        e = c.exponent
        if kind == "exchange":
            same(ctx, base, values(ctx, y, x, kw, funs), x, y, kw, "with the arguments exchanged")
        elif kind == "permute":
            for k, p in enumerate(perms_of(c.n)):
                same(ctx, base, values(ctx, x[p], y[p], kw, funs), x, y, kw, f"under joint permutation #{k}")
        elif kind == "translate":
            for t in (1., -17.25, 12345.678):
                ux, uy = spread(x) or 1., spread(y) or 1.
                tx, ty = t * ux, -t * uy
                if t > 1000:
                    tx, ty = 512. * ux, 700. * uy
                same(ctx, base, values(ctx, x + tx, y, kw, funs), x + tx, y, kw, f"translating x by {tx}")
                same(ctx, base, values(ctx, x, y + ty, kw, funs), x, y + ty, kw, f"translating y by {ty}")
        elif kind == "scale":
            for sx, sy in ((2., 1.), (-1., 1.), (1., -3.), (1e-4, 1e5), (-7., .3), (1e20, 1e-20)):
                same(ctx, base, values(ctx, x * sx, y * sy, kw, funs), x, y, kw,
                     f"scaling by {sx} and {sy}", factor=abs(sx * sy) ** e)
        else:
            for m in orthogonals(1 if c.dx is None else c.dx):
                xr = x * m[0, 0] if c.dx is None else x @ m
                same(ctx, base, values(ctx, xr, y, kw, funs), x, y, kw, f"transforming x by {m.tolist()}")
        ctx.observe(round(base["dcor_sqr"], 7))
    return body


def similarity(ctx):
    """dcor(x, a + b Q x) = 1."""
    n = ctx.choose("n", [4, 5, 6, 8, 17, 64, 130])
    d = ctx.choose("d", [None, 1, 2, 3])
    fam = ctx.choose("family", [f for f in data.FAMILY_NAMES if f != "const"])
    ctx.commit()
    b = ctx.choose("b", [1., -2., .5, 1e-5, -1e6])
    x = data.sample(fam, n, d)
    if d is None:
        y = 3.25 + b * x
    else:
        y = 3.25 + b * x @ orthogonals(d)[-1]
    for kw in ({}, {"method": "naive"}, {"exponent": .5}, {"exponent": 1.5}):
        v = float(ctx.call("distance_correlation", dcor.distance_correlation, x, y, **kw))
        ctx.check(abs(v - 1) < 1e-6, f"correlation of similar samples is {v}", x=x, y=y, kw=kw)
    ctx.observe(round(float(dcor.distance_covariance(x, y)), 6))


def harnesses(tier):
    t = tier == "thorough"
    impls = ["auto", "naive", "mergesort"] + (["avl/python", "mergesort/python"] if t else [])
    return [
        Harness("permute4", joint_permutations(4, impls, not t),
                note="every joint permutation of every pair of order types, n=4"),
        Harness("permute5", joint_permutations(5, ["auto", "mergesort"] if t else ["auto"], True),
                note="every joint permutation, n=5, x sorted"),
        Harness("similarity", similarity, note="similar samples have correlation one"),
        Harness("transformations", transformations(
            [6, 4, 5, 7, 8, 9, 12, 16, 17, 25, 32, 33, 64, 100, 128] + ([255, 256, 257, 300] if t else []),
            [None, 1, 2, 3, 5, 9], config.EXPONENTS), bound=2 if t else 1,
            note="exchange, permutations, translations, scalings, orthogonal maps"),
        Harness("transformations_univariate", transformations(
            [16, 4, 5, 7, 8, 10, 33, 100], [None, 1], [1]), bound=2,
            note="same, univariate, fast methods"),
        Harness("large", transformations([500, 512, 1000, 1024, 1025], [None, 2], [1]), bound=1,
                note="large samples"),
    ]
