"""P02: every method and compile mode computes the same estimator."""
import functools
import itertools

import numpy as np

import dcor
from dcor import CompileMode as CM, DistanceCovarianceMethod as M
from mc import config, data
from mc.core import Harness
from mc.ref import Ref, arrange, center, counts_ref, tolerance, u_center

IMPLS = {
    "avl/cpu": dict(method=M.AVL, compile_mode=CM.COMPILE_CPU),
    "mergesort/cpu": dict(method=M.MERGESORT, compile_mode=CM.COMPILE_CPU),
    "avl/python": dict(method=M.AVL, compile_mode=CM.NO_COMPILE),
    "mergesort/python": dict(method=M.MERGESORT, compile_mode=CM.NO_COMPILE),
    "naive": dict(method=M.NAIVE),
    "auto": dict(),
    "avl": dict(method="avl"),
    "mergesort": dict(method="mergesort"),
    "auto/cpu": dict(method="auto", compile_mode=CM.COMPILE_CPU),
    "auto/python": dict(method=M.AUTO, compile_mode=CM.NO_COMPILE),
    "naive/python": dict(method="naive", compile_mode=CM.NO_COMPILE),
}
FAST = ["avl/cpu", "mergesort/cpu", "avl/python", "mergesort/python"]
CPU = ["avl/cpu", "mergesort/cpu"]


@functools.lru_cache(None)
def table(n, levels, sorted_only=False):
    pats = data.sorted_weak_orders(n) if sorted_only else data.weak_orders(n)
    X = [data.from_ranks(p, levels) for p in pats]
    D = [np.abs(np.subtract.outer(x, x)) for x in X]
    A = np.array([center(d).ravel() for d in D])
    U = np.array([u_center(d).ravel() for d in D])
    mx = np.array([d.max() for d in D])
    va = (A * A).sum(axis=1) / n ** 2
    vu = (U * U).sum(axis=1) / (n * (n - 3))
    return X, A, U, mx, va, vu


def cells(n, lx, ly, impls, whats, sort_x):
    """Every pair of order types of n observations."""
    def body(ctx):
        X, A, U, mx, va, vu = table(n, lx, sort_x)
        Y, B, V, my, vb, vv = table(n, ly)
        i = ctx.choose("order_type_x", range(len(X)))
        ctx.commit()
        j = ctx.choose("order_type_y", range(len(Y)))
        x, y = X[i].copy(), Y[j].copy()
        cb = A[i] @ B[j] / n ** 2
        cu = U[i] @ V[j] / (n * (n - 3))
        sc = tolerance(mx[i], my[j], x, y)
        scs = np.array([sc, tolerance(mx[i], mx[i], x, x), tolerance(my[j], my[j], y, y)])
        for impl in impls:
            kw = IMPLS[impl]
            for what in whats:
                if what == "sqr":
                    got = ctx.call(impl, dcor.distance_covariance_sqr, x, y, **kw)
                    want, tol = cb, sc
                elif what == "u":
                    got = ctx.call(impl, dcor.u_distance_covariance_sqr, x, y, **kw)
                    want, tol = cu, 10 * sc
                elif what == "stats":
                    s = ctx.call(impl, dcor.distance_stats_sqr, x, y, **kw)
                    got = np.array([s.covariance_xy, s.variance_x, s.variance_y], float)
                    want = np.array([cb, va[i], vb[j]])
                    tol = scs
                else:
                    s = ctx.call(impl, dcor.u_distance_stats_sqr, x, y, **kw)
                    got = np.array([s.covariance_xy, s.variance_x, s.variance_y], float)
                    want = np.array([cu, vu[i], vv[j]])
                    tol = 10 * scs
                if not np.all(np.abs(got - want) <= tol):
                    ctx.fail(f"{impl} {what}: {got} instead of {want}", x=x, y=y)
                ctx.checks += 1
        ctx.observe((i, round(float(cb), 9)))
    return body


def compare(ctx, x, y, impls, what, ref=None):
    unb = what in ("u", "ustats")
    r = ref or Ref(x, y, 1, unb)
    for impl in impls:
        kw = IMPLS[impl]
        if what in ("sqr", "u"):
            f = dcor.u_distance_covariance_sqr if unb else dcor.distance_covariance_sqr
            v = ctx.call(impl, f, x, y, **kw)
            ctx.close(float(v), r.cov, r.tol, f"{impl} {what}", x=x, y=y)
        else:
            f = dcor.u_distance_stats_sqr if unb else dcor.distance_stats_sqr
            s = ctx.call(impl, f, x, y, **kw)
            ctx.close([float(s.covariance_xy), float(s.variance_x), float(s.variance_y)],
                      [r.cov, r.vx, r.vy], [r.tol, r.tolx, r.toly],
                      f"{impl} {what}", x=x, y=y)
    ctx.observe((what, round(float(r.cov), 8)))


def sizes(ns, impls, whats):
    def body(ctx):
        c = config.pair(ctx, ns, dims=[None, 1], exps=[1])
        ctx.commit()
        what = ctx.choose("what", whats)
        x, y = config.build(c)
        compare(ctx, x, y, impls, what)
    return body


def every_pair_of_families(ns, impls):
    def body(ctx):
        n = ctx.choose("n", ns)
        fx = ctx.choose("family_x", data.FAMILY_NAMES)
        ctx.commit()
        fy = ctx.choose("family_y", data.FAMILY_NAMES)
        what = ctx.choose("what", ["sqr", "ustats"])
        compare(ctx, data.sample(fx, n), data.sample(fy, n), impls, what)
    return body


# big samples: few distinct values, exact reference through a table of counts
ARRANGE = ["cycle", "sorted_x", "sorted_y", "reversed", "blocks", "hash"]


def big(ns, impls):
    def body(ctx):
        n = ctx.choose("n", ns)
        kind = ctx.choose("arrangement", ARRANGE)
        ctx.commit()
        impl = ctx.choose("impl", impls)
        ix, iy = arrange(n, kind)
        ux = np.array([0., 1., 1.5, 4., 4.1, 7., 9., 12., 20., 21., 33.]) - 9
        uy = np.array([-3., -1., 0., .2, .3, 2., 3., 5., 8., 13., 21., 34., 35.])
        C = np.zeros((11, 13))
        np.add.at(C, (ix, iy), 1)
        want_b, want_u = counts_ref(ux, uy, C)
        x, y = ux[ix], uy[iy]
        kw = IMPLS[impl]
        tol = 1e-9 * 42 * 38
        for f, want in ((dcor.distance_covariance_sqr, want_b),
                        (dcor.u_distance_covariance_sqr, want_u)):
            v = ctx.call(impl, f, x, y, **kw)
            ctx.close(float(v), want, tol, f"{impl} {f.__name__} n={n} {kind}")
        cx, cy = np.diag(C.sum(axis=1)), np.diag(C.sum(axis=0))
        vx, vy = counts_ref(ux, ux, cx), counts_ref(uy, uy, cy)
        for k, f in enumerate((dcor.distance_stats_sqr, dcor.u_distance_stats_sqr)):
            s = ctx.call(impl, f, x, y, **kw)
            ctx.close([float(s.covariance_xy), float(s.variance_x), float(s.variance_y)],
                      [(want_b, want_u)[k], vx[k], vy[k]], tol, f"{impl} {f.__name__} n={n} {kind}")
        ctx.observe(round(float(want_b), 8))
    return body


def harnesses(tier):
    t = tier == "thorough"
    hs = [
        Harness("cells4", cells(4, "int", "irregular", list(IMPLS), ["sqr", "u", "stats", "ustats"], False),
                note="all pairs of order types (ties included) of 4 observations, every method x compile mode"),
        Harness("cells4b", cells(4, "nondyadic", "negative", FAST, ["sqr", "ustats"], False),
                note="same, other levels"),
        Harness("cells5", cells(5, "irregular", "nondyadic", CPU, ["sqr", "ustats"], False),
                note="all pairs of order types of 5 observations, compiled fast methods"),
        Harness("cells5py", cells(5, "int", "irregular", FAST + ["auto", "naive"], ["ustats"], not t),
                note="order types of 5 observations, x sorted, interpreted fast methods"),
        Harness("every_n", every_pair_of_families(
            [5, 6, 7, 8, 9, 11, 15, 16, 17, 23, 31, 32, 33, 47, 64, 65] if not t
            else list(range(4, 140)), FAST),
            note="all pairs of structured families"),
        Harness("sizes", sizes([10] + list(range(4, 140)) + [150, 200, 255, 256, 257, 300, 400, 500, 511, 512, 513]
                               + ([600, 700, 999, 1000, 1001, 1023, 1024, 1025] if t else []),
                               list(IMPLS), ["stats", "u"]),
                bound=2 if t else 1, note="every size 4..139 and around powers of two, by deviations"),
        Harness("configurations", sizes([10, 4, 5, 7, 8, 9, 16, 17, 32, 33, 63, 100, 128], FAST + ["auto"], ["stats", "ustats"]),
                bound=3 if t else 2, note="families, scales, offsets, aliasing"),
        Harness("big", big([1000, 1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8191, 8192,
                            8193, 10000, 16384, 16385, 20000, 32768, 32769, 50000, 65535, 65536, 65537]
                           + ([100000, 131072, 131073, 200000, 262144, 262145, 500000] if t else []),
                           ["avl/cpu", "mergesort/cpu", "auto"]),
                note="big samples with few distinct values against an exact table-of-counts reference"),
        Harness("big_python", big([1000, 1025, 2048, 2049, 4097], ["avl/python", "mergesort/python"]),
                note="big samples, interpreted"),
    ]
    if t:
        hs.insert(4, Harness("cells6", cells(6, "irregular", "nondyadic", CPU + ["auto"], ["sqr", "ustats"], True),
                             note="order types of 6 observations, x sorted"))
        hs.insert(5, Harness("cells7", cells(7, "int", "irregular", CPU, ["u"], True),
                             note="order types of 7 observations, x sorted"))
        hs.insert(6, Harness("cells6py", cells(6, "int", "geometric", ["avl/python", "mergesort/python"], ["u"], True),
                             note="order types of 6 observations, x sorted, interpreted"))
    else:
        hs.insert(4, Harness("cells6", cells(6, "irregular", "nondyadic", CPU, ["u"], True),
                             note="order types of 6 observations, x sorted"))
    return hs
