"""P11: permutation tests of (partial) distance covariance."""
import functools
import itertools

import numpy as np

import dcor
from mc import config, data
from mc.core import Harness
from mc.perm import ControlledGenerator, ControlledState, check_pvalue, check_result
from mc.props.p07 import inner, project_out
from mc.props.p10 import RNG, perms
from mc.ref import cdist, center, u_center

DTEST = dcor.independence.distance_covariance_test
PTEST = dcor.independence.partial_distance_covariance_test


class DRef:
    def __init__(self, x, y, e=1):
        dx, dy = cdist(x, x, e), cdist(y, y, e)
        self.a, self.b = center(dx), center(dy)
        self.n = len(self.a)
        self.sc = float(dx.max()) * float(dy.max()) * self.n

    def stat(self, p=None):
        a = self.a if p is None else self.a[np.ix_(list(p), list(p))]
        return float((a * self.b).sum() / self.n)


class PRef:
    def __init__(self, x, y, z, e=1):
        dx, dy, dz = (cdist(v, v, e) for v in (x, y, z))
        a, b, c = u_center(dx), u_center(dy), u_center(dz)
        mz = float(dz.max())
        cc = float(inner(c, c))
        self.undefined = mz > 0 and cc < 1e-9 * mz ** 2
        self.pa = a if cc == 0 else project_out(a, c)
        self.pb = b if cc == 0 else project_out(b, c)
        self.n = len(a)
        self.sc = float(dx.max()) * float(dy.max()) * self.n

    def stat(self, p=None):
        a = self.pa if p is None else self.pa[np.ix_(list(p), list(p))]
        return float(self.n * inner(a, self.pb))


def drive(ctx, test, args, r, source, rng, kw, ref, exact, label):
    chosen = []

    def src(m):
        p = tuple(source(m))
        chosen.append(p)
        return p
    gen = RNG[rng](src)
    keep = [a.copy() for a in args]
    t = ctx.call(label, test, *args, num_resamples=r, random_state=gen, **kw)
    info = dict(samples=keep, permutations=chosen[:50], kw=kw)
    ctx.check(len(chosen) == r, f"{label}: {len(chosen)} permutations drawn for {r} resamples", **info)
    obs = ref.stat()
    ctx.close(float(t.statistic), obs, 1e-10 * ref.sc * (10 if label[0] == "p" else 1) + 1e-300, f"{label}: statistic", **info)
    cache = {}
    res = []
    for p in chosen:
        if p not in cache:
            cache[p] = ref.stat(p)
        res.append(cache[p])
    if exact:
        obs, res, tol = round(obs, 7), [round(s, 7) for s in res], 0
    else:
        tol = 1e-9 * ref.sc
    check_pvalue(ctx, t.pvalue, obs, res, tol, label, **info)
    check_result(ctx, t, label, **info)
    ctx.check(all(np.array_equal(a, b) for a, b in zip(args, keep)), "inputs modified", **info)
    ctx.observe((round(obs, 6), float(t.pvalue)))


def dcov_sequences(n, rs, sort_x, ysub):
    """Every pair of order types x every sequence of permutations.

    n = 4 with integers: every intermediate result is a dyadic rational, so
    ties are exact and the p-value is compared strictly.
    """
    def body(ctx):
        X = data.sorted_weak_orders(n) if sort_x else data.weak_orders(n)
        px = ctx.choose("x", X)
        py = ctx.choose("y", data.weak_orders(n)[::ysub])
        r = ctx.choose("resamples", rs)
        ctx.commit()
        x = data.from_ranks(px, "irregular")
        y = data.from_ranks(py, "int")
        k = [0]

        def source(m):
            k[0] += 1
            return ctx.choose(f"permutation{k[0]}", perms(m))
        drive(ctx, DTEST, [x, y], r, source, "RandomState", {}, DRef(x, y), n in (2, 4), "distance_covariance_test")
    return body


def pdcov_sequences(n, rs, subs):
    def body(ctx):
        px = ctx.choose("x", data.sorted_weak_orders(n)[::subs[0]])
        py = ctx.choose("y", data.weak_orders(n)[::subs[1]])
        pz = ctx.choose("z", data.weak_orders(n)[::subs[2]])
        r = ctx.choose("resamples", rs)
        ctx.commit()
        x = data.from_ranks(px, "irregular")
        y = data.from_ranks(py, "nondyadic")
        z = data.from_ranks(pz, "int")
        ref = PRef(x, y, z)
        if ref.undefined:
            return
        k = [0]

        def source(m):
            k[0] += 1
            return ctx.choose(f"permutation{k[0]}", perms(m))
        drive(ctx, PTEST, [x, y, z], r, source, "RandomState", {}, ref, False, "partial_distance_covariance_test")
    return body


def many(rs):
    def body(ctx):
        r = ctx.choose("resamples", rs)
        which = ctx.choose("which", ["dcov", "partial"])
        shift = ctx.choose("shift", [0, 11])
        rng = ctx.choose("rng", list(RNG))
        ctx.commit()
        x = np.array([0., 1., 3., 8.])
        y = np.array([2., 0., 2., 7.])
        z = np.array([0., 1., 1., 0.])
        ps = perms(4)
        k = [-1]

        def source(m):
            k[0] += 1
            return ps[(shift + 5 * k[0] + k[0] // 24) % 24]
        if which == "dcov":
            drive(ctx, DTEST, [x, y], r, source, rng, {}, DRef(x, y), True, "distance_covariance_test")
        else:
            drive(ctx, PTEST, [x, y, z], r, source, rng, {}, PRef(x, y, z), False, "partial_distance_covariance_test")
    return body


def configurations(ns):
    def body(ctx):
        which = ctx.choose("which", ["dcov", "partial"])
        n = ctx.dev("n", ns)
        ds = [d for d in [None, 1, 2, 3, 8, 17] if n * n * (d or 1) < 4e6]
        dx = ctx.dev("dx", ds)
        dy = ctx.dev("dy", ds)
        dz = ctx.dev("dz", ds if which == "partial" else [None])
        fx = ctx.dev("fx", config.FX)
        fy = ctx.dev("fy", config.FY)
        fz = ctx.dev("fz", config.FZ if which == "partial" else ["sorted"])
        e = ctx.dev("exponent", [1, .5, 1.5, .1, 1.9])
        r = ctx.dev("resamples", [4, 0, 1, 2, 9, 30])
        sx = ctx.dev("scale", [1., 1e-6, 1e6, 1e-12, 1e-30])
        rng = ctx.dev("rng", list(RNG))
        jobs = ctx.dev("n_jobs", ["omitted", 1, None])
        sy = ctx.dev("scale_y", [1., 1e-6, 1e6, 1e-15])
        ident = ctx.dev("storage", data.STORAGE)
        ctx.commit()
        if which == "partial" and n < 4:
            return
        x = data.sample(fx, n, dx, sx)
        x, y = data.store(ident, x, data.sample(fy, n, dy, sy))
        z = data.sample(fz, n, dz)
        step = next(s for s in range(2, 3 * n + 5) if np.gcd(s, n) == 1)
        k = [-1]

        def source(m):
            k[0] += 1
            return tuple(int(v) for v in np.roll((np.arange(m) * pow(step, k[0] + 1, m) + k[0]) % m, k[0]))
        kw = {} if e == 1 else {"exponent": e}
        if jobs != "omitted":
            kw["n_jobs"] = jobs
        if which == "dcov":
            drive(ctx, DTEST, [x, y], r, source, rng, kw, DRef(x, y, e), False, "distance_covariance_test")
        else:
            ref = PRef(x, y, z, e)
            if ref.undefined:
                return
            drive(ctx, PTEST, [x, y, z], r, source, rng, kw, ref, False, "partial_distance_covariance_test")
    return body


def harnesses(tier):
    t = tier == "thorough"
    return [
        Harness("dcov4", dcov_sequences(4, [0, 1], not t, 1),
                note="every pair of order types of 4 observations x every permutation, exact ties"),
        Harness("dcov4x2", dcov_sequences(4, [2], True, 1 if t else 9),
                note="every sequence of two permutations"),
        Harness("dcov3", dcov_sequences(3, [0, 1, 2, 3], not t, 1), note="n=3, every sequence of up to 3 permutations"),
        Harness("dcov5", dcov_sequences(5, [1], True, 7 if t else 61), note="n=5, every permutation"),
        Harness("partial4", pdcov_sequences(4, [0, 1], (1, 2, 2) if t else (1, 6, 6)), note="triples of order types of 4 x every permutation"),
        Harness("partial4x2", pdcov_sequences(4, [2], (2, 20, 20) if t else (3, 37, 30)), note="every sequence of two permutations"),
        Harness("partial5", pdcov_sequences(5, [1], (3, 40, 60) if t else (7, 140, 150)), note="n=5, every permutation"),
        Harness("many", many(list(range(0, 131)) + [150, 199, 200, 255, 256, 257, 499, 500, 512, 999, 1000]
                             if t else list(range(0, 66)) + [99, 100, 101, 127, 128, 129, 199, 200, 256, 500, 999, 1500, 2049]),
                note="number of resamples"),
        Harness("configurations", configurations([6, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 64, 65, 100, 129]),
                bound=3 if t else 2, note="sizes, dimensions, families, exponents, scales"),
        Harness("large", configurations([200, 257, 300, 500, 513, 1025]), bound=1, note="large samples"),
    ]
