"""P10: the k-sample energy test."""
import functools
import itertools

import numpy as np

import dcor
from mc import config, data
from mc.core import Harness
from mc.perm import ControlledGenerator, ControlledState, check_pvalue, check_result
from mc.ref import cdist, energy
from mc.props.p09 import AVERAGES, STATS

TEST = dcor.homogeneity.energy_test
RNG = {"RandomState": ControlledState, "Generator": ControlledGenerator}


def statistic(pooled, sizes, e=1, ustat=False, average=None):
    cuts = np.cumsum([0] + list(sizes))
    parts = [pooled[a:b] for a, b in zip(cuts, cuts[1:])]
    tot = 0.
    for p, q in itertools.combinations(parts, 2):
        n, m = len(p), len(q)
        tot = tot + n * m / (n + m) * float(energy(p, q, e, ustat, average))
    return tot


def split(pooled, sizes):
    cuts = np.cumsum([0] + list(sizes))
    return [pooled[a:b].copy() for a, b in zip(cuts, cuts[1:])]


@functools.lru_cache(None)
def perms(n):
    return list(itertools.permutations(range(n)))


@functools.lru_cache(200000)
def exact_stat(values, sizes, ustat):
    return statistic(np.array(values, float), sizes, 1, ustat)


def run(ctx, pooled, sizes, r, source, rng, kw, observed, resampled, tol, label, args=None):
    gen = RNG[rng](source)
    args = split(pooled, sizes) if args is None else args
    keep = [a.copy() for a in args]
    t = ctx.call("energy_test", TEST, *args, num_resamples=r, random_state=gen, **kw)
    info = dict(samples=keep, kw=kw, resamples=r)
    sc = float(cdist(pooled, pooled, kw.get("exponent", 1)).max()) * len(pooled)
    ctx.close(float(t.statistic), observed, 1e-10 * (sc or 1), f"{label}: statistic", **info)
    ctx.check(gen.drawn == r, f"{label}: {gen.drawn} permutations drawn for {r} resamples", **info)
    check_pvalue(ctx, t.pvalue, observed, resampled, tol, label, **info)
    check_result(ctx, t, label, **info)
    ctx.check(all(np.array_equal(a, b) for a, b in zip(args, keep)), "inputs modified", **info)
    ctx.observe((round(float(t.statistic), 9), float(t.pvalue)))


def sequences(sizes_list, rs, values, exact):
    """Every pooled sample over a grid x every sequence of permutations."""
    def body(ctx):
        sizes = ctx.choose("sizes", sizes_list)
        n = sum(sizes)
        vals = ctx.choose("pooled", list(itertools.product(values, repeat=n)))
        r = ctx.choose("resamples", rs)
        stats = ["V", "U"] if min(sizes) >= 2 else ["V"]
        stat = ctx.choose("stat", stats)
        ctx.commit()
        chosen = []

        def source(m):
            p = ctx.choose(f"permutation{len(chosen)}", perms(m))
            chosen.append(p)
            return p
        pooled = np.array(vals, float)
        u = stat == "U"
        obs = exact_stat(vals, sizes, u)
        gen = ControlledState(source)
        args = split(pooled, sizes)
        t = ctx.call("energy_test", TEST, *args, num_resamples=r, random_state=gen,
                     estimation_stat=stat)
        res = [exact_stat(tuple(vals[i] for i in p), sizes, u) for p in chosen]
        info = dict(samples=args, permutations=chosen, stat=stat)
        ctx.check(len(chosen) == r, f"{len(chosen)} permutations drawn for {r} resamples", **info)
        ctx.close(float(t.statistic), obs, 1e-9 * 100, "statistic", **info)
        ex = exact and len(sizes) == 2
        check_pvalue(ctx, t.pvalue, round(obs, 9) if ex else obs,
                     [round(s, 9) for s in res] if ex else res,
                     0 if ex else 1e-8, "energy test", **info)
        ctx.observe((round(obs, 6), t.pvalue))
    return body


def many(rs):
    """Number of resamples, with a fixed cycle of permutations."""
    def body(ctx):
        r = ctx.choose("resamples", rs)
        sizes = ctx.choose("sizes", [(2, 2), (1, 3), (2, 1, 1)])
        shift = ctx.choose("shift", [0, 7])
        rng = ctx.choose("rng", list(RNG))
        ctx.commit()
        n = sum(sizes)
        vals = (0., 12., 36., 120.)
        it = [0]
        ps = perms(n)
        seq = [ps[(shift + 5 * k + k // 24) % len(ps)] for k in range(r)]

        def source(m):
            k = it[0]
            it[0] += 1
            return seq[k] if k < r else range(m)
        pooled = np.array(vals)
        obs = round(exact_stat(vals, sizes, False), 9)
        res = [round(exact_stat(tuple(vals[i] for i in p), sizes, False), 9) for p in seq]
        run(ctx, pooled, sizes, r, source, rng, {}, obs, res, 0 if len(sizes) == 2 else 1e-8, "energy test")
    return body


SIZES = [(4, 5), (1, 1), (1, 7), (2, 2), (3, 2), (2, 9), (10, 3), (20, 13), (33, 32), (50, 51),
         (3, 4, 5), (1, 2, 3), (5, 1, 2), (2, 2, 2), (7, 3, 3), (10, 1, 20),
         (2, 3, 4, 5), (5, 4, 3, 2), (1, 1, 1, 1), (3, 3, 3, 3), (4, 1, 3, 2),
         (2, 3, 2, 3, 2), (6, 1, 2, 1, 4), (2, 2, 2, 2, 2, 2), (3, 1, 4, 1, 5, 9), (100, 60), (64, 64), (40, 30, 20),
         (1,) * 8, (2, 1, 3, 1, 2, 1, 2), (2, 1) * 5, (1, 3, 2) * 4, (1,) * 17]


def configurations(sizes_list):
    def body(ctx):
        sizes = ctx.dev("sizes", sizes_list)
        d = ctx.dev("d", [None, 1, 2, 3, 8])
        fam = ctx.dev("family", config.FX)
        e = ctx.dev("exponent", [1, .5, 1.5, .1, 1.9])
        stat = ctx.dev("stat", list(STATS))
        avg = ctx.dev("average", list(AVERAGES))
        r = ctx.dev("resamples", [5, 0, 1, 2, 9, 19, 50])
        rng = ctx.dev("rng", list(RNG))
        jobs = ctx.dev("n_jobs", ["omitted", 1, None])
        objects = ctx.dev("objects", ["copies", "first twice", "last twice", "all the same", "views", "overlapping"])
        ctx.commit()
        n = sum(sizes)
        if STATS[stat][1] and min(sizes) < 2:
            return
        pooled = data.sample(fam, n, d)
        if objects != "copies":
            args = objects_of(pooled, sizes, objects)
            sizes = tuple(len(a) for a in args)
            pooled = np.concatenate(args)
            n = len(pooled)
        else:
            args = None
        kw = {}
        if e != 1:
            kw["exponent"] = e
        if STATS[stat][0] is not None:
            kw["estimation_stat"] = STATS[stat][0]
        if avg != "default":
            kw["average"] = AVERAGES[avg]
        if jobs != "omitted":
            kw["n_jobs"] = jobs
        step = next(s for s in range(2, 3 * n + 5) if np.gcd(s, n) == 1)
        seq = [np.roll((np.arange(n) * pow(step, k + 1, n) + k) % n, k) for k in range(r)]
        it = iter(seq)
        what = (sizes, e, STATS[stat][1], AVERAGES[avg])
        obs = statistic(pooled, *what)
        res = [statistic(pooled[list(p)], *what) for p in seq]
        sc = float(cdist(pooled, pooled, e).max()) * n
        if avg == "sum":
            return run_sum(ctx, args or split(pooled, sizes), pooled, r, it, rng, kw, obs, res)
        run(ctx, pooled, sizes, r, lambda m: next(it), rng, kw, obs, res, 1e-9 * (sc or 1), "energy test", args)
    return body


def objects_of(pooled, sizes, how):
    """The same samples, some of them in the same or in related objects."""
    if how == "views":
        cuts = np.cumsum([0] + list(sizes))
        return [pooled[a:b] for a, b in zip(cuts, cuts[1:])]
    args = split(pooled, sizes)
    if how == "first twice":
        return [args[0]] + args
    if how == "last twice":
        return args + [args[-1]]
    if how == "all the same":
        return [args[0]] * len(args)
    return [args[0], args[0][:(len(args[0]) + 1) // 2]] + args[1:]


def run_sum(ctx, args, pooled, r, it, rng, kw, obs, res):
    gen = RNG[rng](lambda m: next(it))
    t = ctx.call("energy_test", TEST, *args, num_resamples=r, random_state=gen, **kw)
    sc = max(abs(obs), max([abs(s) for s in res] or [0]),
             float(cdist(pooled, pooled, kw.get("exponent", 1)).sum()) * len(pooled))
    ctx.close(float(t.statistic), obs, 1e-9 * sc + 1e-12, "statistic with another average")
    check_pvalue(ctx, t.pvalue, obs, res, 1e-8 * sc, "energy test with another average")


def two_sample(ctx):
    """Without resamples: p-value one, statistic of the two-sample function."""
    n = ctx.choose("n", [1, 2, 3, 5, 8, 30])
    m = ctx.choose("m", [1, 2, 4, 7, 31])
    fx = ctx.choose("fx", data.FAMILY_NAMES)
    ctx.commit()
    e = ctx.choose("exponent", [1, .5])
    st = ctx.choose("stat", ["V", "U"])
    if st == "U" and min(n, m) < 2:
        return
    x, y = data.sample(fx, n, 2), data.sample("signed", m, 2)
    t = ctx.call("energy_test", TEST, x, y, exponent=e, estimation_stat=st)
    s = ctx.call("energy_test_statistic", dcor.homogeneity.energy_test_statistic, x, y, exponent=e, estimation_stat=st)
    sc = float(cdist(np.concatenate([x, y]), x, e).max()) * (n + m)
    ctx.close(float(t.statistic), float(s), 1e-10 * sc, "statistic of the test vs the function")
    ctx.check(t.pvalue == 1, f"p-value {t.pvalue} without resamples")
    u = ctx.call("energy_test", TEST, y, x, exponent=e, estimation_stat=st)
    ctx.close(float(u.statistic), float(s), 1e-10 * sc, "statistic not symmetric")
    ctx.observe(round(float(s), 8))


def harnesses(tier):
    t = tier == "thorough"
    v3 = [0., 12., 36.]
    return [
        Harness("sequences4", sequences([(2, 2), (1, 3)] if not t else [(2, 2), (1, 3), (3, 1)],
                                        [0, 1, 2] if not t else [1, 2], v3 if not t else [0., 12., 36., 120.], True),
                note="pooled samples of 4 over a grid x every sequence of up to 2 permutations"),
        Harness("sequences3", sequences([(1, 1), (1, 2), (2, 1), (1, 1, 1)], [0, 1, 2, 3] + ([4] if t else []), v3, True),
                note="pooled samples of 2-3, every sequence of up to 3 permutations"),
        Harness("sequences_k", sequences([(2, 1, 1), (1, 2, 1), (1, 1, 2), (1, 1, 1, 1)], [1] + ([2] if t else []), v3, False),
                note="3 and 4 samples, every permutation"),
        Harness("sequences5", sequences([(2, 3), (3, 2), (1, 2, 2), (2, 2, 1)] if t else [(2, 3)], [1], v3 if t else [0., 12.], False),
                note="pooled samples of 5, every permutation"),
        Harness("many", many(list(range(0, 131)) + [150, 199, 200, 250, 255, 256, 257, 300, 499, 500, 512, 999, 1000]
                             if t else list(range(0, 66)) + [99, 100, 101, 127, 128, 129, 199, 200, 256, 500, 999, 1000, 1500, 2047, 2049]),
                note="number of resamples"),
        Harness("configurations", configurations(SIZES), bound=3 if t else 2,
                note="number and sizes of samples, dimensions, exponent, statistic, average"),
        Harness("large", configurations([(150, 170), (300, 257), (1, 400), (513, 512), (1100, 30), (200, 100, 150)]), bound=1, note="large samples"),
        Harness("two_sample", two_sample, note="agreement with the two-sample statistic"),
    ]
