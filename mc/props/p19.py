"""P19: exact and extended numeric types keep their exactness."""
import decimal
import warnings
from decimal import Decimal
from fractions import Fraction

import numpy as np

import dcor
from mc import data
from mc.core import Harness
from mc.ref import frac_dcov

M = dcor.DistanceCovarianceMethod
C = dcor.CompileMode
FAST = {
    "avl/python": dict(method=M.AVL, compile_mode=C.NO_COMPILE),
    "mergesort/python": dict(method=M.MERGESORT, compile_mode=C.NO_COMPILE),
    "default": {},
    "avl": dict(method="avl"),
    "mergesort": dict(method="mergesort"),
    "auto/python": dict(compile_mode=C.NO_COMPILE),
}


def obj(values):
    a = np.empty(len(values), dtype=object)
    a[:] = values
    return a


def kronecker(n, impls, whats, sort_x=True):
    """Every pair of order types, at a point that decides the whole cell.

    Within a cell (pair of order types) the estimator is a bilinear form in
    the gaps between consecutive levels.  With gaps that are powers of a large
    base its value encodes every coefficient, so that equality there is
    equality for all the real samples of the cell.
    """
    base = 10 ** 12

    def body(ctx):
        rx = ctx.choose("order_type_x", data.sorted_weak_orders(n) if sort_x else data.weak_orders(n))
        ctx.commit()
        ry = ctx.choose("order_type_y", data.weak_orders(n))
        kx, ky = max(rx) + 1, max(ry) + 1
        lx, v = [Fraction(-7)], Fraction(-7)
        for i in range(kx - 1):
            v += base ** i
            lx.append(v)
        ly, v = [Fraction(1, 3)], Fraction(1, 3)
        for j in range(ky - 1):
            v += base ** (j * kx)
            ly.append(v)
        xs, ys = [lx[r] for r in rx], [ly[r] for r in ry]
        x, y = obj(xs), obj(ys)
        for impl in impls:
            for what in whats:
                u = what == "u"
                want = frac_dcov(xs, ys, u)
                f = dcor.u_distance_covariance_sqr if u else dcor.distance_covariance_sqr
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    got = ctx.call(impl, f, x, y, **FAST[impl])
                ctx.check(isinstance(got, (Fraction, int)) and got == want,
                          f"{impl} {what}: {got!r} instead of {want!r}", x=rx, y=ry)
        ctx.observe((kx, ky, float(want) if abs(want) < 1e300 else str(want)[:40]))
    return body


def rational(family, n, how):
    v = data.sample(family, n)
    if how == "eighths":
        return [Fraction(int(round(t * 8)), 8) for t in v]
    if how == "thirds":
        return [Fraction(int(round(t * 100)), 3) for t in v]
    if how == "mixed":
        return [Fraction(int(round(t * 1000)), 7 + i % 5) for i, t in enumerate(v)]
    if how == "huge":
        return [Fraction(int(round(t * 100)) * 10 ** 60 + i * i) for i, t in enumerate(v)]
    if how == "close":          # indistinguishable as doubles
        return [1 + Fraction(int(round(t * 100)), 10 ** 40) for t in v]
    raise KeyError(how)


HOW = ["eighths", "thirds", "mixed", "huge", "close"]


def fractions(ns):
    def body(ctx):
        n = ctx.dev("n", ns)
        fx = ctx.dev("family_x", ["irregular"] + [f for f in data.FAMILY_NAMES if f != "irregular"])
        fy = ctx.dev("family_y", ["signed"] + [f for f in data.FAMILY_NAMES if f != "signed"])
        hx = ctx.dev("kind_x", HOW)
        hy = ctx.dev("kind_y", HOW)
        impl = ctx.dev("impl", list(FAST))
        col = ctx.dev("columns", ["", "x", "y", "xy"])
        what = ctx.dev("what", ["sqr", "u", "stats", "ustats"])
        ctx.commit()
        xs, ys = rational(fx, n, hx), rational(fy, n, hy)
        x = obj(xs).reshape(-1, 1) if "x" in col else obj(xs)
        y = obj(ys).reshape(-1, 1) if "y" in col else obj(ys)
        kw = FAST[impl]
        u = what[0] == "u"
        info = dict(x=xs[:10], y=ys[:10])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if what in ("sqr", "u"):
                got = ctx.call(impl, dcor.u_distance_covariance_sqr if u else dcor.distance_covariance_sqr, x, y, **kw)
                res = [(got, xs, ys)]
            else:
                s = ctx.call(impl, dcor.u_distance_stats_sqr if u else dcor.distance_stats_sqr, x, y, **kw)
                res = [(s.covariance_xy, xs, ys), (s.variance_x, xs, xs), (s.variance_y, ys, ys)]
        for got, a, b in res:
            want = frac_dcov(a, b, u)
            ctx.check(isinstance(got, (Fraction, int)) and got == want, f"{impl} {what} of {hx} and {hy} fractions: {got!r} instead of {want!r}", **info)
        ctx.observe((n, str(want)[:60]))
    return body


def dec_dist(a, b, ctxd):
    s = sum(((p - q) ** 2 for p, q in zip(a, b)), Decimal(0))
    return s.sqrt(ctxd)


def dec_ref(x, y, unbiased):
    """Distance covariance with 60 digits."""
    c60 = decimal.Context(prec=60)
    with decimal.localcontext(c60):
        n = len(x)
        d = []
        for v in (x, y):
            rows = [list(np.atleast_1d(r)) for r in v]
            d.append([[dec_dist(p, q, c60) for q in rows] for p in rows])
        a, b = d
        ab = sum(a[i][j] * b[i][j] for i in range(n) for j in range(n))
        ra, rb = [sum(r) for r in a], [sum(r) for r in b]
        rr = sum(p * q for p, q in zip(ra, rb))
        tt = sum(ra) * sum(rb)
        if unbiased:
            return (ab / (n * (n - 3)) - 2 * rr / (n * (n - 2) * (n - 3)) + tt / (n * (n - 1) * (n - 2) * (n - 3)),
                    max(map(max, a)) * max(map(max, b)))
        return ab / n ** 2 - 2 * rr / n ** 3 + tt / n ** 4, max(map(max, a)) * max(map(max, b))


def to_decimal(v):
    with decimal.localcontext(decimal.Context(prec=28)):
        f = np.vectorize(lambda t: +(Decimal(int(round(t * 1000))) / Decimal(777)), otypes=[object])
        return f(v)


def decimals(ns):
    def body(ctx):
        n = ctx.dev("n", ns)
        fx = ctx.dev("family_x", ["irregular"] + [f for f in data.FAMILY_NAMES if f != "irregular"])
        fy = ctx.dev("family_y", ["signed"] + [f for f in data.FAMILY_NAMES if f != "signed"])
        d = ctx.dev("d", [None, 1, 2, 3])
        impl = ctx.dev("impl", list(FAST) + ["naive", "naive/python"])
        what = ctx.dev("what", ["sqr", "u", "stats", "ustats", "sqrt", "sqrt stats"])
        ctx.commit()
        kw = dict(FAST.get(impl, {}))
        if impl.startswith("naive"):
            kw = dict(method="naive", compile_mode=C.NO_COMPILE if "python" in impl else C.AUTO)
        elif d not in (None, 1) and ("avl" in impl or "mergesort" in impl):
            return
        x, y = to_decimal(data.sample(fx, n, d)), to_decimal(data.sample(fy, n, d))
        u = what[0] == "u"
        sq = what.startswith("sqrt")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if what in ("sqr", "u", "sqrt"):
                f = {"sqr": dcor.distance_covariance_sqr, "u": dcor.u_distance_covariance_sqr, "sqrt": dcor.distance_covariance}[what]
                res = [(ctx.call(impl, f, x, y, **kw), x, y)]
            else:
                f = {"stats": dcor.distance_stats_sqr, "ustats": dcor.u_distance_stats_sqr, "sqrt stats": dcor.distance_stats}[what]
                s = ctx.call(impl, f, x, y, **kw)
                res = [(s.covariance_xy, x, y), (s.variance_x, x, x), (s.variance_y, y, y)]
        for got, a, b in res:
            want, sc = dec_ref(a, b, u)
            ctx.check(isinstance(got, Decimal), f"{impl} {what}: decimals give a {type(got).__name__}")
            with decimal.localcontext(decimal.Context(prec=60)):
                g = got * got if sq else got
                ctx.check(abs(g - want) <= Decimal("1e-22") * (sc or 1) * n, f"{impl} {what} of decimals: {got} instead of {want}",
                          x=x, y=y)
        ctx.observe((n, d, str(want)[:20]))
    return body


def others(ctx, ns=(4, 5, 8)):
    """Other functions that accept decimals keep their precision."""
    what = ctx.choose("what", ["energy_distance", "energy U", "pairwise", "pairwise2", "pairwise exponent 2", "pairwise exponent 3", "partial_distance_covariance", "correlation"])
    n = ctx.choose("n", ns)
    d = ctx.choose("d", [None, 1, 2, 3])
    fx = ctx.choose("family_x", ["irregular", "mod7", "golden", "squares", "outlier_last"][:5 if n < 10 else 2])
    ctx.commit()
    m = n + 1 if "energy" in what or what == "pairwise2" else n
    x, y, z = to_decimal(data.sample(fx, n, d)), to_decimal(data.sample("signed", m, d)), to_decimal(data.sample("primes", n, d))
    c60 = decimal.Context(prec=60)
    rows = lambda v: [list(np.atleast_1d(r)) for r in v]  # noqa
    with decimal.localcontext(c60):
        dist = lambda p, q: [[dec_dist(i, j, c60) for j in rows(q)] for i in rows(p)]  # noqa
        dxx, dyy, dxy = dist(x, x), dist(y, y), dist(x, y)
        mean = lambda t: sum(map(sum, t)) / (len(t) * len(t[0]))  # noqa
        if what.startswith("energy"):
            if what == "energy U":
                want = [[2 * mean(dxy) - mean(dxx) * n / (n - 1) - mean(dyy) * m / (m - 1)]]
            else:
                want = [[2 * mean(dxy) - mean(dxx) - mean(dyy)]]
        elif what == "pairwise":
            want = dxx
        elif what == "pairwise2":
            want = dxy
        elif what.startswith("pairwise exponent"):
            want = [[v ** int(what[-1]) for v in r] for r in dxx]
        elif what == "correlation":
            c, vx, vy = (dec_ref(a, b, False)[0] for a, b in ((x, y), (x, x), (y, y)))
            want = [[c / (vx * vy).sqrt(c60)]]
        else:
            mats = []
            for v in (x, y, z):
                q = dist(v, v)
                rs, tot = [sum(r) for r in q], sum(map(sum, q))
                mats.append([[q[i][j] - (rs[i] + rs[j]) / (n - 2) + tot / ((n - 1) * (n - 2)) if i != j else Decimal(0)
                              for j in range(n)] for i in range(n)])
            ip = lambda p, q: sum(p[i][j] * q[i][j] for i in range(n) for j in range(n)) / (n * (n - 3))  # noqa
            a, b, cm = mats
            den = ip(cm, cm)
            if den < Decimal("1e-9"):
                return
            want = [[ip(a, b) - ip(a, cm) * ip(b, cm) / den]]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = {"energy_distance": lambda: dcor.energy_distance(x, y),
               "energy U": lambda: dcor.energy_distance(x, y, estimation_stat="u"),
               "pairwise": lambda: dcor.distances.pairwise_distances(x),
               "pairwise exponent 2": lambda: dcor.distances.pairwise_distances(x, exponent=2),
               "pairwise exponent 3": lambda: dcor.distances.pairwise_distances(x, exponent=3),
               "pairwise2": lambda: dcor.distances.pairwise_distances(x, y),
               "correlation": lambda: dcor.distance_correlation_sqr(x, y),
               "partial_distance_covariance": lambda: dcor.partial_distance_covariance(x, y, z)}[what]
        got = ctx.call(what, got)
    got = np.array(got, dtype=object)
    want = np.array(want, dtype=object)
    if not what.startswith("pairwise"):
        want = want[0, 0]
        got = got[()]
    ctx.check(np.shape(got) == np.shape(want), f"{what}: shape {np.shape(got)}")
    with decimal.localcontext(c60):
        sc = max(max(map(max, dxx)), max(map(max, dyy))) ** (3 if "exponent 3" in what else 2) + 1
        for g, w in zip(np.ravel(got), np.ravel(want)):
            ctx.check(isinstance(g, (Decimal, int)), f"{what} of decimals gives a {type(g).__name__}")
            ctx.check(abs(g - w) <= Decimal("1e-20") * sc, f"{what} of decimals: {g} instead of {w}", x=x, y=y)
    ctx.observe((what, n, d, str(np.ravel(want)[-1])[:20]))


def extended(ctx):
    """Distances between extended precision points that are equal as doubles."""
    n = ctx.choose("n", [2, 3, 6])
    d = ctx.choose("d", [None, 1, 2])
    two = ctx.choose("two", [False, True, "mixed"])
    fx = ctx.choose("family", ["irregular", "signed", "primes", "zigzag", "golden"])
    ctx.commit()
    one = np.longdouble(1)
    eps = one / 2 ** 60
    # (as arrays: the type of a product of an array and a scalar is the one of the array)
    x = one + np.rint(data.sample(fx, n, d) * 3).astype(np.longdouble) * eps
    y = one + np.rint(data.sample("mod7", n + 1, d)).astype(np.longdouble) * eps
    assert x.dtype == np.longdouble and np.all(x == 1 + np.rint((x - 1) / eps) * eps) and np.any(x != 1)
    ix, iy = np.rint((x - 1) / eps), np.rint((y - 1) / eps)
    if two == "mixed":
        y, iy = np.ones_like(y, dtype=float), iy * 0
    b = iy if two else ix
    ix2, b2 = (v.reshape(len(v), -1) for v in (ix, b))
    want = np.sqrt(((ix2[:, None] - b2[None]) ** 2).sum(-1)) * eps
    got = ctx.call("pairwise_distances", dcor.distances.pairwise_distances, x, *([y] if two else []))
    ctx.close(got, want, eps * 1e-9, "distances between extended precision points", x=ix, y=b)
    ctx.observe((n, d, str(two), fx))


def to_long(v, k):
    """Doubles with a tail beyond their precision."""
    i = np.arange(v.size, dtype=np.longdouble).reshape(v.shape)
    return v.astype(np.longdouble) + (i * (2 * k + 3) % 11) * (np.longdouble(1) / 2 ** (52 + k))


def exact(v):
    """The same numbers as decimals of 60 digits."""
    def f(t):
        hi = float(t)
        return Decimal(hi) + Decimal(float(t - np.longdouble(hi)))
    with decimal.localcontext(decimal.Context(prec=60)):
        out = np.empty(v.shape, dtype=object)
        for i in np.ndindex(v.shape):
            out[i] = f(v[i])
    return out


def extended_statistics(ns):
    def body(ctx):
        n = ctx.dev("n", ns)
        fx = ctx.dev("family_x", ["irregular"] + [f for f in data.FAMILY_NAMES if f != "irregular"])
        fy = ctx.dev("family_y", ["signed"] + [f for f in data.FAMILY_NAMES if f != "signed"])
        d = ctx.dev("d", [None, 1, 2, 3])
        impl = ctx.dev("impl", list(FAST) + ["naive", "naive/python"])
        what = ctx.dev("what", ["sqr", "u", "stats", "ustats", "correlation", "energy", "energy U"])
        ctx.commit()
        kw = dict(FAST.get(impl, {}))
        if impl.startswith("naive"):
            kw = dict(method="naive", compile_mode=C.NO_COMPILE if "python" in impl else C.AUTO)
        elif d not in (None, 1) and ("avl" in impl or "mergesort" in impl):
            return
        x, y = data.sample(fx, n, d), data.sample(fy, n, d)
        x, y = to_long(x, 2), to_long(y, 3)
        ex, ey = exact(x), exact(y)
        u = what[0] == "u"
        c60 = decimal.Context(prec=60)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if what in ("sqr", "u"):
                f = dcor.u_distance_covariance_sqr if u else dcor.distance_covariance_sqr
                res = [(ctx.call(impl, f, x, y, **kw), *dec_ref(ex, ey, u))]
            elif what.startswith("energy"):
                if kw:
                    return
                got = ctx.call(what, dcor.energy_distance, x, y, estimation_stat="u" if what[-1] == "U" else "v")
                with decimal.localcontext(c60):
                    rows = lambda v: [list(np.atleast_1d(r)) for r in v]  # noqa
                    tot = lambda p, q: [dec_dist(i, j, c60) for i in rows(p) for j in rows(q)]  # noqa
                    k = Decimal(n) / (n - 1) if what[-1] == "U" else 1
                    dxy = tot(ex, ey)
                    want = (2 * sum(dxy) - k * sum(tot(ex, ex)) - k * sum(tot(ey, ey))) / n ** 2
                res = [(got, want, max(max(dxy), Decimal(1)))]
            elif what == "correlation":
                (c, s0), (vx, s1), (vy, s2) = (dec_ref(a, b, False) for a, b in ((ex, ey), (ex, ex), (ey, ey)))
                if vx < s1 / 1000 or vy < s2 / 1000:
                    return
                with decimal.localcontext(c60):
                    res = [(ctx.call(impl, dcor.distance_correlation_sqr, x, y, **kw), c / (vx * vy).sqrt(c60), Decimal(100))]
            else:
                s = ctx.call(impl, dcor.u_distance_stats_sqr if u else dcor.distance_stats_sqr, x, y, **kw)
                res = [(s.covariance_xy, *dec_ref(ex, ey, u)), (s.variance_x, *dec_ref(ex, ex, u)), (s.variance_y, *dec_ref(ey, ey, u))]
        for got, want, sc in res:
            with decimal.localcontext(c60):
                g = exact(np.array([got], dtype=np.longdouble))[0]
                ctx.check(abs(g - want) <= Decimal("1e-17") * max(sc, Decimal("1e-30")) * (n + 4),
                          f"{impl} {what} of extended precision samples: {got!r} instead of {want}", x=x, y=y)
        ctx.observe((n, d, str(want)[:20]))
    return body


def harnesses(tier):
    t = tier == "thorough"
    ex = ["avl/python", "mergesort/python"]
    h = [
        Harness("cells4", kronecker(4, list(FAST), ["sqr", "u"], False), note="n=4: every cell, exactly, for all real values"),
        Harness("cells5", kronecker(5, ex, ["sqr", "u"]), note="n=5: every cell up to relabelling, exactly"),
        Harness("fractions", fractions([6, 4, 5, 7, 8, 9, 16, 17, 33] + ([64, 65] if t else [])), bound=2,
                note="fractions of any magnitude: exact equality"),
        Harness("decimals", decimals([5, 4, 6, 8, 9, 12]), bound=2, note="decimals: 22 significant digits"),
        Harness("others", others, note="energy, distances, partial covariance of decimals"),
        Harness("decimals_larger", decimals([16, 15, 17, 20, 33, 40, 65]), bound=1, note="the same with larger samples"),
        Harness("others_larger", lambda ctx: others(ctx, (15, 16, 33, 65)), note="the same with larger samples"),
        Harness("fractions_larger", fractions([40, 64, 65, 100, 129]), bound=1, note="larger samples of fractions"),
        Harness("extended_larger", extended_statistics([40, 65, 100]), bound=1, note="the same with larger samples"),
        Harness("extended", extended, note="distances in extended precision"),
        Harness("extended_statistics", extended_statistics([6, 4, 5, 7, 8, 9, 12, 17, 33]), bound=2,
                note="statistics in extended precision, against 60 digits"),
    ]
    if t:
        h.append(Harness("cells6", kronecker(6, ex, ["sqr", "u"]), note="n=6: every cell up to relabelling, exactly"))
    return h
