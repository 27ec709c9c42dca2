"""Stateless explicit-state explorer for dcor.

A *harness* is a function ``body(ctx)`` that makes every nondeterministic
decision (sample values, configuration, permutation drawn by the generator,
thread to run next, operation of a history, ...) through ``ctx.choose`` /
``ctx.dev`` and then drives the real code and compares with an oracle.  The
explorer enumerates *all* the choice sequences (depth first, re-execution
based), completely for ``choose`` and up to a deviation bound for ``dev``.

The work is sharded over forked workers at the ``ctx.commit()`` point: every
worker enumerates the (cheap) choices made before the commit and executes only
its share of the commit points; the choices made after the commit are explored
by the owner only.
"""
from __future__ import annotations

import hashlib
import json
import mmap
import multiprocessing as mp
import os
import pickle
import signal
import struct
import sys
import time
import traceback

NWORKERS = int(os.environ.get("MC_WORKERS", "8"))
SLOT = 8192
STALL_S = float(os.environ.get("MC_STALL", "150"))


class Violation(Exception):
    """The property does not hold in this execution."""


class Skip(Exception):
    """This commit point belongs to other worker."""


class Divergence(Exception):
    """A replayed prefix did not offer the same choices (framework error)."""


def short(v, limit=600):
    try:
        s = repr(v)
    except Exception as e:  # noqa
        s = f"<unprintable {type(v).__name__}: {e}>"
    return s if len(s) <= limit else s[:limit] + "..."


class Ctx:
    def __init__(self, harness, shard, nshards, shared=None, bound=None):
        self.harness = harness
        self.shard = shard
        self.nshards = nshards
        self.bound = harness.bound if bound is None else bound
        self.prefix = []
        self.leaf = -1
        self.calls = 0
        self.checks = 0
        self.outcomes = set()
        self.shared = shared
        self.replaying = False

    # -- one execution -----------------------------------------------------
    def begin(self, prefix, new_leaf):
        self.prefix = prefix
        self.trace = []          # [index, n_options, cost_before, is_dev]
        self.names = []
        self.cost = 0
        self.commit_depth = None
        self.new_leaf = new_leaf
        self.known = None
        self.details = {}

    def _pick(self, name, options, is_dev):
        pos = len(self.trace)
        n = len(options)
        if n == 0:
            raise Divergence(f"no options for {name}")
        if pos < len(self.prefix):
            idx = self.prefix[pos]
            if idx >= n:
                raise Divergence(f"choice {name}: index {idx} of {n}")
        else:
            idx = 0
        self.trace.append((idx, n, self.cost, is_dev))
        if is_dev and idx:
            self.cost += 1
        value = options[idx]
        self.names.append((name, value))
        return value

    def choose(self, name, options):
        """Free choice: every option is explored."""
        return self._pick(name, options, False)

    def dev(self, name, options):
        """Deviation: option 0 is free, the others cost one unit."""
        return self._pick(name, options, True)

    def commit(self):
        if self.commit_depth is not None:
            raise Divergence("double commit")
        self.commit_depth = len(self.trace)
        if self.new_leaf:
            self.leaf += 1
        if (not self.replaying) and self.leaf % self.nshards != self.shard:
            raise Skip
        if self.shared is not None:
            self.shared.note(self.harness.index, [t[0] for t in self.trace],
                             self.prefix)

    # -- driving the code under test ----------------------------------------
    def call(self, what, fun, *args, **kwargs):
        """Run the code under test; an exception is a violation."""
        self.calls += 1
        try:
            return fun(*args, **kwargs)
        except (Violation, Skip, Divergence):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb][-4:]
            raise Violation(
                f"{what}: unexpected {type(e).__name__}: {short(str(e), 300)} "
                f"at {' > '.join(where)}",
            ) from None

    def fail(self, msg, **details):
        self.details.update({k: short(v, 4000) for k, v in details.items()})
        raise Violation(msg)

    def check(self, cond, msg, **details):
        self.checks += 1
        if not cond:
            self.fail(msg, **details)

    def close(self, actual, expected, tol, msg, **details):
        """|actual - expected| <= tol, elementwise, nan-proof."""
        import numpy as np
        self.checks += 1
        try:
            a = np.asarray(actual, dtype=np.longdouble)
        except Exception:
            a = np.asarray(_to_np(actual), dtype=np.longdouble)
        e = np.asarray(expected, dtype=np.longdouble)
        if a.shape != e.shape:
            self.fail(f"{msg}: shape {a.shape} instead of {e.shape}",
                      actual=actual, expected=expected, **details)
        ok = np.abs(a - e) <= tol
        if not np.all(ok):
            self.fail(f"{msg}: {short(actual)} instead of {short(expected)} "
                      f"(tolerance {short(tol, 80)})",
                      actual=actual, expected=expected, **details)

    def observe(self, value):
        if len(self.outcomes) < 500_000:
            self.outcomes.add(hash(value))


def _to_np(v):
    import numpy as np
    if isinstance(v, np.ndarray):
        return v.astype(np.longdouble)
    if hasattr(v, "__array__"):
        return np.asarray(v)
    if hasattr(v, "_array"):
        return v._array
    return np.array([float(t) for t in v])


class Harness:
    def __init__(self, name, body, bound=None, note=""):
        self.name = name
        self.body = body
        self.bound = bound
        self.note = note
        self.index = None

    def run_once(self, ctx, prefix, new_leaf):
        """-> ('ok'|'skip'|'violation', message)"""
        ctx.begin(prefix, new_leaf)
        try:
            self.body(ctx)
        except Skip:
            return "skip", None
        except Divergence:
            raise
        except Violation as e:
            return "violation", str(e)
        except MemoryError:
            return "violation", "MemoryError"
        except Exception as e:
            if ctx.commit_depth is None:
                raise
            tb = traceback.extract_tb(e.__traceback__)
            where = " > ".join(
                f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-4:])
            return "violation", (
                f"unusable result, {type(e).__name__}: {short(str(e), 300)} "
                f"at {where}")
        return "ok", None


def next_prefix(trace, bound):
    """Deepest admissible alternative, or None."""
    i = len(trace) - 1
    while i >= 0:
        idx, n, cost, is_dev = trace[i]
        if idx + 1 < n and (not is_dev or bound is None or cost + 1 <= bound):
            return [t[0] for t in trace[:i]] + [idx + 1], i
        i -= 1
    return None, -1


class Shared:
    """What each worker is doing now, readable after its death."""

    def __init__(self, n):
        self.mm = mmap.mmap(-1, SLOT * n)
        self.n = n

    def slot(self, w):
        return _Slot(self.mm, w)


class _Slot:
    def __init__(self, mm, w):
        self.mm = mm
        self.o = SLOT * w

    def note(self, hindex, trace, prefix):
        p = prefix if len(prefix) >= len(trace) else trace
        p = p[:1900]
        self.mm[self.o:self.o + 16 + 4 * len(p)] = (
            struct.pack("<dii", time.time(), hindex, len(p))
            + struct.pack(f"<{len(p)}i", *p))

    def beat(self):
        self.mm[self.o:self.o + 8] = struct.pack("<d", time.time())

    def idle(self):
        self.mm[self.o:self.o + 8] = struct.pack("<d", 0.0)

    def read(self):
        t, h, n = struct.unpack("<dii", self.mm[self.o:self.o + 16])
        p = list(struct.unpack(f"<{n}i", self.mm[self.o + 16:self.o + 16 + 4 * n])) if n else []
        return t, h, p


def explore(harness, ctx, deadline, slot, known, stats, on_violation):
    """Enumerate the whole tree of one harness (this worker's share)."""
    prefix, changed = [], 0
    new_leaf = True
    st = stats
    while True:
        status, msg = harness.run_once(ctx, prefix, new_leaf)
        slot.beat()
        depth = len(ctx.trace)
        pre = ctx.commit_depth if ctx.commit_depth is not None else depth
        # nodes created by this run: positions >= changed
        if ctx.shard == 0:
            st["states"] += max(0, pre - changed)
        st["states"] += max(0, depth - max(pre, changed)) if status != "skip" else 0
        if status == "ok":
            st["executions"] += 1
            if len(st["samples"]) < 2 or (st["executions"] % 977 == 0 and len(st["samples"]) < 4):
                st["samples"].append({
                    "harness": harness.name,
                    "choices": {n: short(v, 120) for n, v in ctx.names[:40]},
                })
        elif status == "violation":
            if ctx.known is not None and ctx.known in known:
                st["known"].setdefault(ctx.known, msg)
                st["executions"] += 1
            else:
                on_violation(harness, ctx, msg)
                return False
        if time.time() > deadline:
            st["capped"] = True
            return True
        prefix, i = next_prefix(ctx.trace, ctx.bound)
        if prefix is None:
            return True
        new_leaf = ctx.commit_depth is None or i < ctx.commit_depth
        changed = i


def _worker(w, nshards, harnesses, slot, conn, deadline, known, tier):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    stats_all = []
    viol = []

    def on_violation(h, ctx, msg):
        viol.append({
            "harness": h.name,
            "message": msg,
            "prefix": [t[0] for t in ctx.trace],
            "choices": [[n, short(v, 400)] for n, v in ctx.names],
            "details": dict(ctx.details),
            "worker": w, "shards": nshards, "leaf": ctx.leaf,
            "executions_before": stats_all[-1]["executions"] if stats_all else 0,
        })

    try:
        for h in harnesses:
            st = {"name": h.name, "states": 0, "executions": 0, "samples": [],
                  "known": {}, "capped": False}
            stats_all.append(st)
            ctx = Ctx(h, w, nshards, slot)
            t0 = time.time()
            go = explore(h, ctx, deadline, slot, known, st, on_violation)
            st["calls"] = ctx.calls
            st["checks"] = ctx.checks
            st["outcomes"] = ctx.outcomes
            st["wall"] = time.time() - t0
            if not go:
                break
        slot.idle()
        conn.send(pickle.dumps(("done", stats_all, viol)))
    except BaseException as e:  # framework error
        slot.idle()
        conn.send(pickle.dumps(("error", "".join(traceback.format_exception(e)), viol)))
    conn.close()
    os._exit(0)


def replay_once(harness, prefix, conn):
    ctx = Ctx(harness, 0, 1)
    ctx.replaying = True
    try:
        status, msg = harness.run_once(ctx, prefix, True)
    except Divergence as e:
        status, msg = "diverged", str(e)
    conn.send((status, msg, [[n, short(v, 400)] for n, v in ctx.names], ctx.details))
    conn.close()
    os._exit(0)


def replay(harness, prefix, timeout=200):
    """Run one recorded choice sequence in a fresh process."""
    r, s = mp.Pipe(False)
    p = mp.get_context("fork").Process(target=replay_once, args=(harness, prefix, s))
    p.start()
    s.close()
    out = ("dead", "process died", [], {})
    try:
        if r.poll(timeout):
            out = r.recv()
        else:
            out = ("hang", "no termination", [], {})
    except EOFError:
        pass
    if p.is_alive():
        p.join(5)
        if p.is_alive():
            p.kill()
    p.join()
    if out[0] == "dead":
        out = ("dead", f"process died with exit code {p.exitcode}", [], {})
    return out


def run_all(prop, harnesses, tier, deadline_s, known):
    """-> (per-harness stats list, violations list, errors list)"""
    for i, h in enumerate(harnesses):
        h.index = i
    shared = Shared(NWORKERS)
    ctxm = mp.get_context("fork")
    deadline = time.time() + deadline_s
    procs = []
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(NWORKERS):
        r, s = ctxm.Pipe(False)
        slot = shared.slot(w)
        slot.note(0, [], [])
        p = ctxm.Process(
            target=_worker,
            args=(w, NWORKERS, harnesses, slot, s, deadline, known, tier))
        p.start()
        s.close()
        procs.append([p, r, slot, w])
    pending = list(procs)
    violations, errors = [], []
    merged = {}
    stop_at = None
    while pending:
        for item in list(pending):
            p, r, slot, w = item
            msg = None
            try:
                if r.poll(0.05 if len(pending) < 3 else 0.01):
                    msg = pickle.loads(r.recv())
            except (EOFError, ConnectionError):
                p.join(10)
                t, h, pre = slot.read()
                violations.append({
                    "harness": harnesses[h].name, "prefix": pre,
                    "message": f"the process died (exit code {p.exitcode}) while running this case",
                    "choices": [], "details": {}, "worker": w,
                })
                pending.remove(item)
                continue
            if msg is not None:
                kind, data, viol = msg
                if kind == "error":
                    errors.append(data)
                else:
                    for st in data:
                        m = merged.setdefault(st["name"], {
                            "states": 0, "executions": 0, "calls": 0,
                            "checks": 0, "samples": [], "known": {},
                            "capped": False, "outcomes": set(), "wall": 0.0,
                            "workers": 0})
                        for k in ("states", "executions", "calls", "checks"):
                            m[k] += st.get(k, 0)
                        m["workers"] += 1
                        m["samples"] += st["samples"]
                        m["known"].update(st["known"])
                        m["capped"] |= st["capped"]
                        m["outcomes"] |= st.get("outcomes", set())
                        m["wall"] = max(m["wall"], st.get("wall", 0))
                violations += viol
                pending.remove(item)
                p.join(10)
                continue
            t, h, pre = slot.read()
            if t and time.time() - t > STALL_S:
                violations.append({
                    "harness": harnesses[h].name, "prefix": pre,
                    "message": f"no termination: one execution ran for more than {STALL_S:.0f} s",
                    "choices": [], "details": {}, "worker": w, "hang": True,
                })
                p.kill()
                p.join()
                pending.remove(item)
        if violations and stop_at is None:
            stop_at = time.time() + 3
        if stop_at and time.time() > stop_at:
            for p, r, slot, w in pending:
                p.kill()
                p.join()
            pending = []
    for h in harnesses:
        if h.name in merged and merged[h.name]["workers"] < NWORKERS:
            merged[h.name]["capped"] = True
    return merged, violations, errors
