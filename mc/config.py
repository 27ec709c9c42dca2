"""Deviation-bounded space of sample configurations shared by the checks."""
from __future__ import annotations

import numpy as np

from . import data

EXPONENTS = [1, .5, 1.5, .1, .25, .75, 1.25, 1.75, 1.9, .01, .999, 1.001, 1 / 3, 1.99, 1 + 1e-6]
DIMS = [None, 1, 2, 3, 4, 5, 8, 10, 16, 17, 32, 33, 64, 100, 257, 1000]
SCALES = [1., 1e-3, 1e3, 1e-9, 1e9, 1e-30, 1e30]
OFFSETS = [0., 1000.1, -77.7, 1e6, -1e6]

FX = ["irregular"] + [f for f in data.FAMILY_NAMES if f != "irregular"]
FY = ["signed"] + [f for f in data.FAMILY_NAMES if f != "signed"]
FZ = ["primes"] + [f for f in data.FAMILY_NAMES if f != "primes"]


def dims_for(n, dims=DIMS, budget=1.3e7):
    return [d for d in dims if d is None or n * n * d <= budget] or [None]


class Cfg(dict):
    __getattr__ = dict.__getitem__


def pair(ctx, ns, dims=DIMS, exps=EXPONENTS, scales=SCALES, offsets=OFFSETS,
         fx=FX, fy=FY, alias=True, same_dim=False):
    """Choose a pair of samples by deviations from a default one."""
    n = ctx.dev("n", ns)
    c = Cfg(n=n)
    c["exponent"] = ctx.dev("exponent", exps)
    c["fx"] = ctx.dev("family_x", fx)
    c["fy"] = ctx.dev("family_y", fy)
    ds = dims_for(n, dims)
    c["dx"] = ctx.dev("dim_x", ds)
    c["dy"] = c["dx"] if same_dim else ctx.dev("dim_y", ds)
    c["sx"] = ctx.dev("scale_x", scales)
    c["sy"] = ctx.dev("scale_y", scales)
    c["ox"] = ctx.dev("offset_x", offsets)
    c["oy"] = ctx.dev("offset_y", offsets)
    c["storage"] = ctx.dev("storage", data.STORAGE) if alias else "separate"
    return c


def build(c):
    x = data.sample(c.fx, c.n, c.dx, c.sx, c.ox)
    y = None
    if c.storage not in data.DERIVED:
        y = data.sample(c.fy, c.n, c.dy, c.sy, c.oy)
    return data.store(c.storage, x, y)
