"""Controlled scheduler: line-level interleavings of real Python threads.

Every line executed in a file of the package under test is a scheduling
point.  Exactly one thread runs at a time; at each point the explorer decides
(``ctx.dev``: a switch costs one unit) which thread runs next, so that all the
schedules up to the preemption bound are enumerated.  When a thread finishes,
the thread that continues is a free choice.
"""
from __future__ import annotations

import os
import sys
import threading

REPO = os.path.realpath(os.environ.get("MC_REPO", "/repo"))
PACKAGE = os.path.join(REPO, "dcor") + os.sep
BLOCKED_S = 4.0


class Scheduler:
    def __init__(self, ctx, bodies, slice_=None, opcodes=False, max_points=100000):
        """slice_ = (k, m): the first preemption only at points = k mod m."""
        self.ctx = ctx
        self.n = len(bodies)
        self.bodies = bodies
        self.slice = slice_
        self.opcodes = opcodes
        self.results = [None] * self.n
        self.errors = [None] * self.n
        self.sems = [threading.Semaphore(0) for _ in range(self.n)]
        self.alive = set(range(self.n))
        self.current = None
        self.points = 0
        self.switches = []
        self.progress = 0
        self.done = threading.Event()
        self.lock = threading.Lock()
        self.blocked = set()
        self.fatal = None
        self.max_points = max_points
        self.bound = ctx.bound

    # -- inside the threads -------------------------------------------------
    def _trace(self, tid):
        def local(frame, event, arg):
            if event == ("opcode" if self.opcodes else "line"):
                self._point(tid, frame)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(PACKAGE):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                self._point(tid, frame)
                return local
            return None
        return glob

    def _point(self, tid, frame):
        if self.fatal:
            return
        self.progress += 1
        if self.current != tid:      # it was considered blocked: wait its turn
            self._wait(tid)
        self.points += 1
        if self.points > self.max_points:
            return
        others = [t for t in sorted(self.alive) if t != tid and t not in self.blocked]
        if not others or (self.bound is not None and self.ctx.cost >= self.bound):
            return
        if (self.slice is not None and not self.switches
                and self.points % self.slice[1] != self.slice[0]):
            return
        try:
            to = self.ctx.dev(f"point{self.points}", [tid] + others)
        except BaseException as e:
            self.fatal = e
            return
        if to != tid:
            self.switches.append(
                f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno} "
                f"({frame.f_code.co_name}) {tid}->{to}")
            self.current = to
            self.sems[to].release()
            self._wait(tid)

    def _wait(self, tid):
        self.sems[tid].acquire()

    def _main(self, tid):
        self._wait(tid)
        try:
            sys.settrace(self._trace(tid))
            self.results[tid] = self.bodies[tid]()
        except BaseException as e:  # noqa
            self.errors[tid] = e
        finally:
            sys.settrace(None)
        self.progress += 1
        with self.lock:
            self.alive.discard(tid)
            self.blocked.discard(tid)
            if not self.alive:
                self.done.set()
                return
            if self.current != tid:
                return
            ready = sorted(self.alive - self.blocked) or sorted(self.alive)
            to = ready[0]
            if len(ready) > 1 and not self.fatal:
                try:
                    to = self.ctx.choose("next thread", ready)
                except BaseException as e:
                    self.fatal = e
            self.current = to
            self.sems[to].release()

    # -- driver ----------------------------------------------------------------
    def run(self, first=0):
        threads = [threading.Thread(target=self._main, args=(t,), daemon=True)
                   for t in range(self.n)]
        for t in threads:
            t.start()
        self.current = first
        self.sems[first].release()
        seen = -1
        while not self.done.wait(BLOCKED_S):
            # no scheduling point since the last look: the running thread is
            # waiting for something that another one holds
            if self.progress == seen:
                with self.lock:
                    ready = [t for t in sorted(self.alive)
                             if t != self.current and t not in self.blocked]
                    if ready:
                        self.blocked.add(self.current)
                        self.current = ready[0]
                        self.sems[ready[0]].release()
                    else:
                        self.blocked.discard(self.current)
            seen = self.progress
        for t in threads:
            t.join()
        if self.fatal:
            raise self.fatal
        return self.results, self.errors
