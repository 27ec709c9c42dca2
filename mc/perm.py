"""Generators of permutations under the control of the explorer."""
from __future__ import annotations

import itertools
import warnings

import numpy as np


def _order(x, source, n_expected):
    """The next permutation, with the semantics of numpy's permutation()."""
    arr = None
    if isinstance(x, (int, np.integer)):
        n = int(x)
    else:
        arr = np.asarray(x)
        n = arr.shape[0]
    p = np.array(source(n), dtype=np.int64)
    return p if arr is None else arr[p]


class ControlledState(np.random.RandomState):
    """RandomState whose permutations are given by ``source(n)``."""

    def __new__(cls, source):
        return super().__new__(cls, 0)

    def __init__(self, source):
        super().__init__(0)
        self.source = source
        self.drawn = 0

    def permutation(self, x):
        self.drawn += 1
        return _order(x, self.source, None)

    def shuffle(self, x):
        self.drawn += 1
        x[...] = _order(np.array(x), self.source, None)


class ControlledGenerator(np.random.Generator):
    def __new__(cls, source):
        return super().__new__(cls, np.random.PCG64(0))

    def __init__(self, source):
        super().__init__(np.random.PCG64(0))
        self.source = source
        self.drawn = 0

    def permutation(self, x, axis=0):
        self.drawn += 1
        return _order(x, self.source, None)

    def shuffle(self, x, axis=0):
        self.drawn += 1
        x[...] = _order(np.array(x), self.source, None)

    def permuted(self, x, *, axis=None, out=None):
        self.drawn += 1
        return _order(x, self.source, None)


def pvalue_bounds(observed, resampled, tol):
    """Possible p-values: ties within tol may be decided either way."""
    r = len(resampled)
    lo = sum(1 for s in resampled if s > observed + tol)
    hi = sum(1 for s in resampled if s > observed - tol) if tol else lo
    return (1 + lo) / (r + 1), (1 + hi) / (r + 1)


def check_pvalue(ctx, p, observed, resampled, tol, what, **info):
    lo, hi = pvalue_bounds(observed, resampled, tol)
    p = float(p)
    ctx.check(lo - 1e-12 <= p <= hi + 1e-12,
              f"{what}: p-value {p} instead of "
              + (f"{lo}" if lo == hi else f"[{lo}, {hi}]"),
              observed=observed, resampled=resampled, **info)
    r = len(resampled)
    k = p * (r + 1)
    ctx.check(abs(k - round(k)) < 1e-6 and round(k) >= 1 and p <= 1,
              f"{what}: {p} is not a possible p-value for {r} resamples", **info)


def check_result(ctx, t, what, **info):
    """Every way of reading the result of a test gives the same two values."""
    same = lambda a, b: float(a) == float(b) or (float(a) != float(a) and float(b) != float(b))  # noqa
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        p, s = t
        ctx.check(same(p, t.pvalue) and same(s, t.statistic), f"{what}: unpacked as {p}, {s}", **info)
        ctx.check(same(t.p_value, t.pvalue) and len(t) == 2, f"{what}: p_value {t.p_value}", **info)
