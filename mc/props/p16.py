"""P16: concurrent calls do not interfere."""
import decimal
import os
import warnings

import numpy as np

import dcor
from mc import data
from mc.core import Harness
from mc.ops import OPS, flat
from mc.sched import Scheduler

SLICES = 8


def samples(kind, n, variant):
    d = None if kind == "v" else 2
    fams = [("irregular", "signed", "primes"), ("mod7", "irregular", "zigzag")][variant]
    return tuple(data.sample(f, n, d) for f in fams)


def solo(op, args):
    return flat(OPS[op][0](*args))


EXPECTED = {}


def expected(op, kind, n, variant):
    key = (op, kind, n, variant)
    if key not in EXPECTED:
        EXPECTED[key] = solo(op, samples(kind, n, variant))
    return EXPECTED[key]


def settings():
    return [id(f) for f in warnings.filters], str(np.geterr()), str(np.get_printoptions()), decimal.getcontext().prec


def program(ctx, progs, first, slice_, label):
    """progs: one list of (op, args, expected) per thread."""
    def body(prog):
        def go():
            return [flat(OPS[op][0](*args)) for op, args, _ in prog]
        return go
    s = Scheduler(ctx, [body(p) for p in progs], slice_, opcodes=OPCODES[0])
    env = settings()
    ctx.calls += sum(len(p) for p in progs)
    results, errors = s.run(first)
    info = dict(schedule=s.switches)
    ctx.check(settings() == env, f"{label}: the settings of the process are not restored (schedule {s.switches})", **info)
    for t, p in enumerate(progs):
        if errors[t] is not None:
            ctx.fail(f"{label}: thread {t} failed with {type(errors[t]).__name__}: {errors[t]} "
                     f"(schedule {s.switches})", **info)
        for (op, args, exp), got in zip(p, results[t]):
            tol = 1e-12 * max(1., float(np.abs(exp[np.isfinite(exp)]).max(initial=0)))
            same = got.shape == exp.shape and bool(np.all(
                (np.abs(got - exp) <= tol) | (np.isnan(got) & np.isnan(exp)) | (got == exp)))
            ctx.check(same, f"{label}: {op} in thread {t} gives {got[:6]} instead of {exp[:6]}, "
                            f"its result when it runs alone (schedule {s.switches})", **info)
    ctx.observe((label, s.points, len(s.switches)))


OPCODES = [False]


def pairs(pair_list, kinds, ns, opcodes=False, shares=("shared", "same shape", "other shape"), symmetric=True):
    def body(ctx):
        a, b = ctx.choose("operations", pair_list)
        ks = [k for k in kinds if k in OPS[a][1] and k in OPS[b][1]]
        if not ks:
            return
        kind = ctx.choose("kind", ks)
        n = ctx.choose("n", ns)
        share = ctx.choose("inputs", [s for s in shares if kind == "v" or s == "same shape" or not symmetric])
        sl = ctx.choose("slice", list(range(SLICES)))
        ctx.commit()
        # the same operation in both threads: the order is symmetric
        first = 0 if symmetric and a == b else ctx.choose("first", [0, 1])
        OPCODES[0] = opcodes
        m = n + 1 if share == "other shape" else n
        va = samples(kind, n, 0)
        vb = va if share == "shared" else samples(kind, m, 1)
        ea = expected(a, kind, n, 0)
        eb = expected(b, kind, n, 0) if share == "shared" else expected(b, kind, m, 1)
        keep = [v.copy() for v in va + vb]
        program(ctx, [[(a, va, ea)], [(b, vb, eb)]], first, (sl, SLICES), f"{a} || {b}")
        ctx.check(all(np.array_equal(u, v) for u, v in zip(keep, va + vb)),
                  f"{a} || {b}: inputs modified")
    return body


def sequences(ops, n):
    """Two threads with two operations each."""
    def body(ctx):
        a, b, c, d = ctx.choose("operations", ops)
        sl = ctx.choose("slice", list(range(SLICES)))
        ctx.commit()
        first = ctx.choose("first", [0, 1])
        OPCODES[0] = False
        va, vb = samples("v", n, 0), samples("v", n, 1)
        program(ctx, [[(a, va, expected(a, "v", n, 0)), (b, va, expected(b, "v", n, 0))],
                      [(c, vb, expected(c, "v", n, 1)), (d, vb, expected(d, "v", n, 1))]],
                first, (sl, SLICES), f"{a};{b} || {c};{d}")
    return body


def shared_projection(ctx):
    """One projection object used by two threads at once."""
    comp = ctx.choose("complementary", [False, True])
    n = ctx.choose("n", [4, 5, 6])
    sl = ctx.choose("slice", list(range(SLICES)))
    ctx.commit()
    first = ctx.choose("first", [0, 1])
    fun = dcor.u_complementary_projection if comp else dcor.u_projection
    mats = [dcor.u_centered(dcor.distances.pairwise_distances(data.sample(f, n, 2)))
            for f in ("irregular", "signed", "primes")]
    p = fun(mats[0])
    exp = [np.array(fun(mats[0])(m)) for m in mats[1:]]
    s = Scheduler(ctx, [lambda: np.array(p(mats[1])), lambda: np.array(p(mats[2]))], (sl, SLICES))
    ctx.calls += 2
    res, err = s.run(first)
    for r, e, x in zip(res, err, exp):
        ctx.check(e is None and np.allclose(r, x, rtol=1e-12, atol=1e-12),
                  f"projection shared by two threads: {e or r} instead of {x} (schedule {s.switches})")
    ctx.observe((comp, n, len(s.switches), s.points))


def three(ops, n):
    def body(ctx):
        a, b, c = ctx.choose("operations", ops)
        sl = ctx.choose("slice", list(range(SLICES)))
        ctx.commit()
        first = ctx.choose("first", [0, 1, 2])
        OPCODES[0] = False
        va, vb = samples("v", n, 0), samples("v", n, 1)
        program(ctx, [[(a, va, expected(a, "v", n, 0))], [(b, vb, expected(b, "v", n, 1))],
                      [(c, va, expected(c, "v", n, 0))]], first, (sl, SLICES), f"{a} || {b} || {c}")
    return body


LIGHT = ["dcov_naive", "dcov_exp", "dcov_merge", "u_stats_naive", "stats", "dcor", "af_inv", "partial_cov",
         "partial_cor", "energy", "energy_u", "energy_stat", "t_test", "pdist", "cdist", "center", "u_center",
         "u_product", "projection", "rowwise_cor"]


def harnesses(tier):
    t = tier == "thorough"
    names = list(OPS)
    same = [(a, a) for a in names]
    mixed = [(a, names[(i + k) % len(names)]) for i, a in enumerate(names)
             for k in ((1,) if not t else (1, 2, 3, 4, 5, 7, 11, 13))]
    small = [(a, a) for a in ("center", "u_center", "u_product", "cdist", "pdist", "energy")]
    h = [
        Harness("same_operation", pairs(same, "vm", [4] if not t else [4, 5], symmetric=not t), bound=1,
                note="each operation against itself, shared and own inputs: every line-level schedule with 1 preemption"),
        Harness("other_operation", pairs(mixed, "v" if not t else "vm", [4],
                                         shares=("same shape",) if not t else ("shared", "same shape")), bound=1,
                note="two different operations: every schedule with 1 preemption"),
        Harness("shared_projection", shared_projection, bound=3 if t else 2,
                note="a projection used by two threads: every schedule with the preemption bound"),
        Harness("two_preemptions", pairs(small if not t else same, "v", [4], shares=("same shape",)), bound=2,
                note="every schedule with 2 preemptions"),
    ]
    if t:
        h += [
            Harness("opcodes", pairs(same, "v", [4], opcodes=True, shares=("same shape",)), bound=1,
                    note="bytecode-level schedules with 1 preemption"),
            Harness("sequences", sequences([(a, b, b, a) for a, b in mixed[:40]], 4), bound=1,
                    note="two operations per thread"),
            Harness("three_threads", three([(a, a, a) for a in LIGHT if "v" in OPS[a][1]], 4), bound=2,
                    note="three threads"),
        ]
    return h
