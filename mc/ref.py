"""Boring reference implementations, written from the definitions."""
from __future__ import annotations

import math
from fractions import Fraction

import numpy as np

LD = np.longdouble
BIG = 80


def as2d(x):
    x = np.asarray(x)
    return x[:, None] if x.ndim == 1 else x


def cdist(x, y, exponent=1.):
    x, y = as2d(x), as2d(y)
    t = LD if max(len(x), len(y)) <= BIG else np.float64
    x = x.astype(t)
    y = y.astype(t)
    if x.shape[1] == 1:
        d = np.abs(x[:, 0][:, None] - y[:, 0][None, :])
    else:
        s = np.zeros((len(x), len(y)), t)
        for j in range(x.shape[1]):
            s += (x[:, j][:, None] - y[:, j][None, :]) ** 2
        d = np.sqrt(s)
    return d if exponent == 1 else d ** t(exponent)


def center(a):
    r = a.mean(axis=1, keepdims=True)
    c = a.mean(axis=0, keepdims=True)
    return a - r - c + a.mean()


def u_center(a):
    n = len(a)
    r = a.sum(axis=1, keepdims=True) / (n - 2)
    c = a.sum(axis=0, keepdims=True) / (n - 2)
    out = a - r - c + a.sum() / ((n - 1) * (n - 2))
    np.fill_diagonal(out, 0)
    return out


def prod(a, b, unbiased):
    n = len(a)
    s = (a * b).sum()
    return s / (n * (n - 3)) if unbiased else s / (n * n)


def tolerance(mx, my, x=0., y=0., exponent=1.):
    """Rounding error admitted in the covariance of two samples.

    It is relative to their greatest distances; a constant sample may leave the
    rounding error of its translation (in the methods that translate, that is,
    with exponent one).
    """
    if mx > 0 and my > 0:
        return 1e-10 * mx * my
    if exponent != 1:
        return 0.
    return ((mx or 1e-12 * float(np.max(np.abs(x))))
            * (my or 1e-12 * float(np.max(np.abs(y)))))


class Ref:
    """Reference statistics of a pair of samples."""

    def __init__(self, x, y, exponent=1., unbiased=False):
        self.dx = cdist(x, x, exponent)
        self.dy = cdist(y, y, exponent)
        self.unbiased = unbiased
        c = u_center if unbiased else center
        self.a = c(self.dx)
        self.b = c(self.dy)
        self.cov = prod(self.a, self.b, unbiased)
        self.vx = prod(self.a, self.a, unbiased)
        self.vy = prod(self.b, self.b, unbiased)
        self.mx = float(self.dx.max())
        self.my = float(self.dy.max())
        f = 20. if unbiased else 1.
        self.tol = f * tolerance(self.mx, self.my, x, y, exponent)
        self.tolx = f * tolerance(self.mx, self.mx, x, x, exponent)
        self.toly = f * tolerance(self.my, self.my, y, y, exponent)
        den = math.sqrt(max(float(self.vx), 0.)) * math.sqrt(max(float(self.vy), 0.))
        ok = (float(self.vx) > 1e-7 * self.mx ** 2
              and float(self.vy) > 1e-7 * self.my ** 2)
        self.constant = self.mx == 0 or self.my == 0
        if self.constant:
            self.cor, self.tolcor = 0., 0.
        elif ok:
            self.cor = float(self.cov) / den
            self.tolcor = 4 * (self.tol / den
                               + self.tolx / float(self.vx)
                               + self.toly / float(self.vy))
        else:
            self.cor = None     # numerically degenerate: not specified
            self.tolcor = None


def arrange(n, kind):
    i = np.arange(n, dtype=np.int64)
    if kind == "cycle":
        return (i * 5 + i // 7) % 11, (i * i + i // 3) % 13
    if kind == "sorted_x":
        return i * 11 // n, (i * 7 + i // 5) % 13
    if kind == "sorted_y":
        return (i * 3 + i // 9) % 11, i * 13 // n
    if kind == "reversed":
        return 10 - i * 11 // n, i * 13 // n
    if kind == "blocks":
        return (i // 64) % 11, (i // 37) % 13
    return ((i * 2654435761) >> 7) % 11, ((i * 40503 + 17) >> 5) % 13


def counts_ref(ux, uy, counts, exponent=1):
    """dcov^2 (biased, unbiased) from a table of counts (exact structure)."""
    C = np.asarray(counts, dtype=LD)
    Dx, Dy = cdist(ux, ux, exponent), cdist(uy, uy, exponent)
    n = C.sum()
    first = np.trace(C.T @ Dx @ C @ Dy)
    ax = Dx @ C.sum(axis=1)
    by = Dy @ C.sum(axis=0)
    second = (C * np.outer(ax, by)).sum()
    third = (ax @ C.sum(axis=1)) * (by @ C.sum(axis=0))
    biased = first / n ** 2 - 2 * second / n ** 3 + third / n ** 4
    unb = (first / (n * (n - 3)) - 2 * second / (n * (n - 2) * (n - 3))
           + third / (n * (n - 1) * (n - 2) * (n - 3)))
    return biased, unb


def frac_dcov(x, y, unbiased=False):
    """Exact rational dcov^2 of univariate samples."""
    n = len(x)
    a = [[abs(p - q) for q in x] for p in x]
    b = [[abs(p - q) for q in y] for p in y]
    ab = sum(a[i][j] * b[i][j] for i in range(n) for j in range(n))
    ra = [sum(r) for r in a]
    rb = [sum(r) for r in b]
    rr = sum(p * q for p, q in zip(ra, rb))
    tt = sum(ra) * sum(rb)
    if unbiased:
        return (Fraction(ab) / (n * (n - 3))
                - 2 * Fraction(rr) / (n * (n - 2) * (n - 3))
                + Fraction(tt) / (n * (n - 1) * (n - 2) * (n - 3)))
    return Fraction(ab) / n ** 2 - 2 * Fraction(rr) / n ** 3 + Fraction(tt) / n ** 4


def energy(x, y, exponent=1., ustat=False, average=None):
    dxy = cdist(x, y, exponent)
    dxx = cdist(x, x, exponent)
    dyy = cdist(y, y, exponent)
    if average is None:
        average = np.mean
    if ustat:
        dxx = dxx[np.triu_indices(len(dxx), 1)]
        dyy = dyy[np.triu_indices(len(dyy), 1)]
    return 2 * average(dxy) - average(dxx) - average(dyy)


def np_float(v):
    """A python float out of any scalar-like result."""
    return float(v)
