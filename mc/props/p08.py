"""P08: pairwise distances."""
import itertools

import numpy as np

import dcor
from mc import config, data
from mc.core import Harness
from mc.ref import LD, as2d

PD = dcor.distances.pairwise_distances


def ref(x, y, e):
    x, y = as2d(x).astype(LD), as2d(y).astype(LD)
    s = np.zeros((len(x), len(y)), LD)
    for j in range(x.shape[1]):
        s += (x[:, j][:, None] - y[:, j][None, :]) ** 2
    return np.sqrt(s) ** LD(e) if e != 1 else np.sqrt(s)


def compare(ctx, x, y, e, how):
    kw = {} if e == 1 else {"exponent": e}
    x0 = np.array(x)
    if how == "omitted":
        got = ctx.call("pairwise_distances", PD, x, **kw)
        want = ref(x0, x0, e)
    elif how == "none":
        got = ctx.call("pairwise_distances", PD, x, None, **kw)
        want = ref(x0, x0, e)
    elif how == "same":
        got = ctx.call("pairwise_distances", PD, x, x, **kw)
        want = ref(x0, x0, e)
    elif how == "copy":
        got = ctx.call("pairwise_distances", PD, x, x.copy(), **kw)
        want = ref(x0, x0, e)
    elif how in data.DERIVED:
        x, y = data.store(how, x, None)
        x0, y0 = data.plain(x, y)
        got = ctx.call("pairwise_distances", PD, x, y, **kw)
        want = ref(x0, y0, e)
    elif how == "square view":
        k = min(x0.shape[0], x0.reshape(len(x0), -1).shape[1])
        x = x.reshape(len(x0), -1)[:k, :k]
        x0 = np.array(x)
        got = ctx.call("pairwise_distances", PD, x, x.T, **kw)
        want = ref(x0, x0.T, e)
    else:
        if how != "two":
            x, y = data.store(how, x, y)
        y0 = np.array(y)
        got = ctx.call("pairwise_distances", PD, x, y, **kw)
        want = ref(x0, y0, e)
        ctx.check(np.array_equal(y, y0), "y modified")
    ctx.check(np.array_equal(x, x0), "x modified")
    rel = 1e-12 * (1 + e)
    ctx.close(got, want, rel * want, f"distances ({how})", x=x0, y=y, exponent=e)
    ctx.observe(round(float(want.sum()), 8))


def grid(ctx):
    """Every pair of small point sets over a grid."""
    d = ctx.choose("d", [None, 1, 2])
    pts = [0., 1., -2.5] if d != 2 else list(itertools.product([0., 3., -1.], repeat=2))
    nx = ctx.choose("n", [1, 2] if d == 2 else [1, 2, 3])
    x = ctx.choose("x", list(itertools.product(pts, repeat=nx)))
    ctx.commit()
    ny = ctx.choose("m", [1, 2] if d == 2 else [1, 2, 3])
    y = ctx.choose("y", list(itertools.product(pts, repeat=ny)))
    X, Y = np.array(x), np.array(y)
    if d == 1:
        X, Y = X[:, None], Y[:, None]
    compare(ctx, X, Y, 1, "two")


def configurations(ns, dims, bound_budget=2e7):
    def body(ctx):
        n = ctx.dev("n", ns)
        m = ctx.dev("m", [4, 1, 2, 3, 5, 6, 7, 8, 9, 16, 17, 33, 64, 65, 100, 128, 129, 256, 257])
        d = ctx.dev("d", [k for k in dims if n * max(n, m) * (k or 1) <= bound_budget])
        how = ctx.dev("how", ["two", "omitted", "none", "same", "copy"] + [k for k in data.STORAGE[1:] if k not in ("same", "copy")] + ["square view"])
        e = ctx.dev("exponent", config.EXPONENTS + [2, 3])
        fx = ctx.dev("fx", config.FX)
        fy = ctx.dev("fy", config.FY)
        sx = ctx.dev("scale", [1., 1e-6, 1e6, 1e-40, 1e40, 1e-100, 1e100])
        off = ctx.dev("offset", [0., 1e3 + .1, 1e8, -1e12])
        layout = ctx.dev("layout", ["C", "F", "strided", "readonly"])
        ctx.commit()
        if abs(np.log10(sx)) * e > 120:
            return
        x = data.sample(fx, n, d, sx) + off * sx
        y = data.sample(fy, m, d, sx) + off * sx
        if layout == "F":
            x = np.asfortranarray(x)
        elif layout == "strided":
            z = np.zeros((2 * n,) + x.shape[1:])
            z[::2] = x
            x = z[::2]
        elif layout == "readonly":
            x.setflags(write=False)
            y.setflags(write=False)
        compare(ctx, x, y, e, how)
    return body


MAGNITUDES = [0., 1e-150, -1e-100, 1e-30, 3e-13, -1e-7, 2e-7, 1., -1.5, 1e6, 1e12, -1e12, 1e30, 1e100, 1e150]


def magnitudes(ctx):
    """Points of very different magnitudes in the same sample."""
    k = ctx.choose("points", [2, 3, 15])
    vals = ctx.choose("values", list(itertools.combinations(MAGNITUDES, k)))
    d = ctx.choose("d", [None, 1, 2, 3])
    how = ctx.choose("how", ["omitted", "two", "copy"])
    ctx.commit()
    e = ctx.choose("exponent", [1, .5, 1.5, 1.99, .01, 1 / 3])
    v = np.array(vals)
    x = v if d is None else np.stack([np.roll(v, j) for j in range(d)], 1)
    with np.errstate(all="ignore"):
        compare(ctx, x, x[::-1][: max(1, k - 1)].copy(), e, how)


def metric(ctx):
    """Symmetry, null diagonal, triangle inequality, on the real output."""
    d = ctx.choose("d", [1, 2, 3, 7])
    n = ctx.choose("n", [1, 2, 3, 5, 8, 13, 40])
    fam = ctx.choose("family", data.FAMILY_NAMES)
    off = ctx.choose("offset", [0., 1e6])
    ctx.commit()
    x = data.sample(fam, n, d, 1., off)
    a = ctx.call("pairwise_distances", PD, x)
    ctx.check(a.shape == (n, n) and (np.diagonal(a) == 0).all(), "diagonal not null", a=a)
    ctx.check(np.array_equal(a, a.T) and (a >= 0).all(), "not symmetric or negative", a=a)
    worst = (a[:, None, :] - (a[:, :, None] + a[None, :, :])).max()
    ctx.check(worst <= 1e-9 * (a.max() or 1), "triangle inequality", x=x)
    b = ctx.call("pairwise_distances", PD, x, x + 1)
    c = ctx.call("pairwise_distances", PD, x + 1, x)
    ctx.close(b, np.asarray(c).T, 1e-9 * (b.max() or 1), "exchanging the sets does not transpose")
    ctx.observe(round(float(a.sum()), 6))


def harnesses(tier):
    t = tier == "thorough"
    return [
        Harness("grid", grid, note="every pair of point sets of up to 3 points over a grid"),
        Harness("configurations", configurations(
            [5, 1, 2, 3, 4, 6, 7, 8, 9, 16, 17, 32, 33, 63, 64, 65, 100, 128, 129],
            [2, None, 1, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100, 128, 129, 200]),
            bound=4 if t else 3, note="sizes, dimensions, exponents, scales, offsets, layouts, aliasing"),
        Harness("large", configurations(data.MEDIUM_N + data.LARGE_N + (data.XL_N if t else [2049]), [2, None, 1, 3], 2e7),
                bound=2, note="large samples"),
        Harness("components", configurations([3, 1, 2, 5, 40], [257, 255, 256, 500, 512, 513, 1000, 1024, 1025, 2048, 2049, 4097, 10000, 16385, 65537]),
                bound=2 if t else 1, note="many components"),
        Harness("magnitudes", magnitudes, note="points of different magnitudes together"),
        Harness("metric", metric, note="axioms of a metric"),
    ]
