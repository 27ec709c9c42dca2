"""Finite alphabets of samples."""
from __future__ import annotations

import functools
import itertools
import math

import numpy as np


# --- order types -----------------------------------------------------------
@functools.lru_cache(None)
def weak_orders(n):
    """All the rank vectors of n values: every order type, with ties."""
    out = []
    for v in itertools.product(range(n), repeat=n):
        k = max(v) + 1
        if len(set(v)) == k:
            out.append(v)
    return out


@functools.lru_cache(None)
def sorted_weak_orders(n):
    """The non decreasing rank vectors (compositions of n)."""
    out = []
    for bits in itertools.product((0, 1), repeat=n - 1):
        v = [0]
        for b in bits:
            v.append(v[-1] + b)
        out.append(tuple(v))
    return out


LEVELS = {
    "int": lambda k: np.arange(k, dtype=float),
    "irregular": lambda k: np.array([0., 1., 3., 7., 12., 20., 31., 47.])[:k] - 4.,
    "nondyadic": lambda k: np.array([-.7, -.1, .3, 1.1, 1.2, 5.3, 9.9, 10.1])[:k],
    "geometric": lambda k: np.array([1e-3, 1e-2, .1, 1., 10., 100., 1e3, 1e4])[:k],
    "offset": lambda k: 1000.1 + np.array([0., .5, .7, 2., 2.1, 4., 6., 9.])[:k],
    "negative": lambda k: -np.array([50., 33., 21., 20., 8., 3., 2., .25])[:k],
}


def from_ranks(ranks, levels):
    lv = LEVELS[levels](max(ranks) + 1)
    return lv[list(ranks)]


# --- families of samples of any size -----------------------------------------
def _bitrev(n):
    b = max(1, (n - 1).bit_length())
    return np.array([int(format(i, f"0{b}b")[::-1], 2) for i in range(n)], float)


def _prime_step(n):
    return np.array([(i * 7919 + 13) % 104729 for i in range(n)], float) / 1e4


FAMILIES = {
    "irregular": lambda n: np.array([math.sin(1.0 + i * i * 0.7) * 5 + math.cos(i * 1.3) for i in range(n)]),
    "sorted": lambda n: np.arange(n, dtype=float),
    "reversed": lambda n: np.arange(n, 0, -1, dtype=float) * .5,
    "ties2": lambda n: np.array([(i * i + i // 3) % 2 for i in range(n)], float),
    "ties3": lambda n: np.array([(i * 5 + i // 4) % 3 for i in range(n)], float) * 1.7,
    "ties5sorted": lambda n: np.array([i * 5 // n for i in range(n)], float),
    "squares": lambda n: np.array([(i - n // 3) ** 2 for i in range(n)], float) / n,
    "zigzag": lambda n: np.array([(-1) ** i * (i + 1) for i in range(n)], float),
    "organ": lambda n: np.array([min(i, n - 1 - i) for i in range(n)], float),
    "bitrev": _bitrev,
    "mod7": lambda n: np.array([(i * i * 3) % 7 for i in range(n)], float),
    "outlier_first": lambda n: np.array([100. if i == 0 else i % 4 for i in range(n)], float),
    "outlier_last": lambda n: np.array([-100. if i == n - 1 else i % 5 for i in range(n)], float),
    "primes": _prime_step,
    "powers": lambda n: np.array([2. ** ((i * 3) % 11) for i in range(n)]),
    "signed": lambda n: np.array([((i * 37) % 101 - 50) / 3. for i in range(n)]),
    "half_const": lambda n: np.array([0. if i < n // 2 else float(i) for i in range(n)]),
    "neg_zero": lambda n: np.array([-0. if i % 2 else 0. if i % 3 else 1.5 for i in range(n)]),
    "one_differs": lambda n: np.array([3. if i == n // 2 else 2. for i in range(n)]),
    "const": lambda n: np.full(n, 2.5),
    "late": lambda n: np.array([math.sin(1.0 + i * i * 0.7) * (9 if i >= n - max(1, n // 5) else 1) for i in range(n)]),
    "early": lambda n: np.array([math.cos(2.0 + i * i * 0.9) * (9 if i < max(1, n // 5) else 1) + i % 3 for i in range(n)]),
    "neg_zigzag": lambda n: np.array([(-1) ** (i + 1) * (i + 1) for i in range(n)], float),
    "runs": lambda n: np.array([(i % 5) * 2 + (i // 5) * .7 for i in range(n)], float),
    "swapped": lambda n: np.array([(i ^ 1) * 1.5 for i in range(n)], float),
    "almost_sorted": lambda n: np.array([n // 3 - .5 if i == n - 1 else i for i in range(n)], float),
    "rotated": lambda n: np.array([(i + n // 3) % n for i in range(n)], float) * .25 - 1,
    "clusters": lambda n: np.array([1e6 if i % 4 == 1 else ((i * 7) % 16) * 1e-7 for i in range(n)]),
    "golden": lambda n: np.array([(i * 0.6180339887498949) % 1 for i in range(n)]),
}
FAMILY_NAMES = list(FAMILIES)


@functools.lru_cache(4096)
def _column(name, n, j):
    base = FAMILIES[name](n)
    if j:
        step = j + 1
        while math.gcd(step, n) != 1:
            step += 1
        idx = (np.arange(n) * step + j) % n
        base = base[idx] * (1 + .25 * j) + (j % 3)
    base.setflags(write=False)
    return base


def sample(name, n, d=None, scale=1., offset=0.):
    """A fresh sample; d=None is a vector, d>=1 a matrix of d columns."""
    if d is None:
        x = _column(name, n, 0).copy()
    else:
        x = np.stack([_column(name, n, j) for j in range(d)], axis=1)
    if scale != 1.:
        x = x * scale
    if offset:
        x = x + offset
    return np.array(x, order="C")


def permutations(n):
    return list(itertools.permutations(range(n)))


SMALL_N = [6, 4, 5, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21,
           22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 40, 41, 47, 48,
           49, 50, 51, 60]
MEDIUM_N = [63, 64, 65, 70, 80, 90, 96, 99, 100, 101, 110, 120, 127, 128, 129,
            130, 150, 200, 201, 250, 255, 256, 257, 300]
LARGE_N = [500, 501, 511, 512, 513, 600, 768, 999, 1000, 1001, 1023, 1024, 1025]
XL_N = [1500, 2000, 2001, 2047, 2048, 2049]


# --- how several samples share (or do not share) their storage ----------------
# the first ones keep the values of the second sample, the last ones replace it
STORAGE = ["separate", "columns", "interleaved", "blocks", "readonly",
           "same", "copy", "view", "reversed", "shifted", "transposed"]
DERIVED = STORAGE[5:]


def store(kind, x, y):
    """Samples x and y in a given storage.

    The values of x are always the given ones.  In the kinds of DERIVED the
    values of y are replaced by others taken from x.
    """
    if kind == "separate":
        return x, y
    if kind == "columns":           # columns of one matrix of observations
        if len(x) != len(y):
            return store("blocks", x, y)
        a, b = x.reshape(len(x), -1), y.reshape(len(y), -1)
        m = np.concatenate([a, b], axis=1)
        u, v = m[:, :a.shape[1]], m[:, a.shape[1]:]
        return (u[:, 0] if x.ndim == 1 else u), (v[:, 0] if y.ndim == 1 else v)
    if kind == "interleaved":       # alternate rows of one buffer
        if x.shape != y.shape:
            return store("columns", x, y)
        m = np.stack([x, y], axis=1)
        return m[:, 0], m[:, 1]
    if kind == "blocks":            # consecutive pieces of one buffer
        m = np.concatenate([y.ravel(), x.ravel()])
        return m[y.size:].reshape(x.shape), m[:y.size].reshape(y.shape)
    if kind == "readonly":
        x, y = x.copy(), y.copy()
        x.setflags(write=False)
        y.setflags(write=False)
        return x, y
    if kind == "same":
        return x, x
    if kind == "copy":
        return x, x.copy()
    if kind == "view":
        return x, x[:]
    if kind == "reversed":
        return x, x[::-1]
    if kind == "shifted":           # a series and the same series delayed
        m = np.concatenate([x, x[:1] + 1.5 * (x[1:2] - x[:1]) if len(x) > 1 else x[:1]])
        return m[:-1], m[1:]
    if kind == "transposed":        # a square matrix of values and its transpose
        if x.ndim == 2 and x.shape[0] == x.shape[1]:
            return x, x.T
        return x, x[::-1]
    raise KeyError(kind)


def plain(*arrays):
    """Contiguous copies, for the references."""
    return tuple(np.array(a, order="C", copy=True) for a in arrays)


def factorial(lx, ly, reps, order, d=None):
    """Every pair of levels the same number of times: the samples are
    independent, so the biased distance covariance is zero up to rounding."""
    i, j = (v.ravel() for v in np.indices((len(lx), len(ly))))
    i, j = np.tile(i, reps), np.tile(j, reps)
    if order == "shuffled":
        n = len(i)
        s = next(k for k in range(n // 2 + 1, 2 * n + 3) if math.gcd(k, n) == 1)
        p = np.arange(n) * s % n
        i, j = i[p], j[p]
    elif order == "reversed":
        i, j = i[::-1], j[::-1]
    x, y = lx[i], ly[j]
    if d:
        x = np.stack([x] + [lx[::-1][i] * (k + .3) ** 2 - x ** 2 for k in range(1, d)], axis=1)
        y = np.stack([y] + [ly[(j * 2 + k) % len(ly)] for k in range(1, d)], axis=1)
    return np.array(x), np.array(y)
