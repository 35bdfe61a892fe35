"""Controlled scheduler for Python threads: exactly one of the participating threads runs at a time, and control changes
hands only where the plan says so (before a given execution of a given source line) or when the running thread ends.

A thread participates from the first line of the code under test that it executes (main thread excluded) to the return of that call.
If the running thread gets blocked by something the scheduler does not control (a lock held by a paused thread), the
others are let through and the execution is counted as free-running.
"""
import os, sys, threading, time


class Sched:
    def __init__(self, n, start=0, plan=(), root=None, stall=4.0, record=False):
        self.record = record
        self.n, self.plan, self.stall = n, list(plan), stall
        self.root = root
        self.cv = threading.Condition()
        self.order, self.alive = [], []          # thread ids by arrival; still running ranks
        self.start, self.cur = start, None
        self.log = {}                            # rank -> list of (file, line) executed
        self.count = {}                          # rank -> {(file, line): executions}
        self.base = {}
        self.free, self.progress, self.switches = False, 0, 0
        self.main = threading.get_ident()
        self.begun = False

    # -- tracing
    def trace(self, frame, event, arg):
        code = frame.f_code
        if self.root not in code.co_filename: return None
        t = threading.get_ident()
        if t == self.main: return None
        self.progress += 1
        if t not in self.base:
            self.base[t] = frame
            self.arrive(t, frame)
            return self.local
        if self.record: return self.local
        if not self.plan or self.free: return None
        (f, line), _ = self.plan[0]
        if code.co_filename.endswith(f) and any(line == l for _, _, l in code.co_lines()): return self.local
        return None

    def local(self, frame, event, arg):
        t = threading.get_ident()
        if event == "line":
            self.point(t, (frame.f_code.co_filename[len(self.root):] if frame.f_code.co_filename.startswith(self.root) else frame.f_code.co_filename, frame.f_lineno))
        elif event == "return" and self.base.get(t) is frame:
            self.leave(t)
        return self.local

    def rank(self, t):
        return self.order.index(t)

    def arrive(self, t, frame):
        with self.cv:
            # rank by the index of the run if the outermost call shows one, else by arrival
            ints = [v for v in frame.f_locals.values() if type(v) is int]
            self.order.append(t); self.alive.append(len(self.order) - 1)
            r = len(self.order) - 1
            self.log[r], self.count[r] = [], {}
            self.idx = getattr(self, "idx", {}); self.idx[r] = ints[0] if ints else r
            self.cv.notify_all()
            end = time.time() + self.stall
            while not self.begun and len(self.order) < self.n and time.time() < end: self.cv.wait(0.2)
            if not self.begun:
                self.begun = True
                if len(self.order) < self.n: self.free = True
                ranks = sorted(range(len(self.order)), key=lambda r: self.idx[r])
                self.queue = ranks
                self.cur = ranks[self.start % len(ranks)]
                self.cv.notify_all()
            elif r not in self.queue:
                self.queue.append(r)             # a thread reused for another run, or arriving late
            self.wait_turn(r)

    def wait_turn(self, r):
        seen, t0 = self.progress, time.time()
        while self.cur != r and not self.free:
            self.cv.wait(0.5)
            if self.progress != seen: seen, t0 = self.progress, time.time()
            elif time.time() - t0 > self.stall:
                self.free = True; self.cv.notify_all()

    def point(self, t, loc):
        self.progress += 1
        if not self.record and (not self.plan or loc != self.plan[0][0]): return
        with self.cv:
            r = self.rank(t)
            c = self.count[r]; c[loc] = c.get(loc, 0) + 1
            if self.record: self.log[r].append(loc)
            if self.free or self.cur != r: return
            if self.plan and self.plan[0][0] == loc and self.plan[0][1] == c[loc]:
                self.plan.pop(0)
                if self.handover(r): self.wait_turn(r)

    def handover(self, r):
        others = [x for x in self.queue if x in self.alive and x != r]
        if not others: return False
        k = self.queue.index(r)
        nxt = [x for x in self.queue[k + 1:] + self.queue[:k] if x in self.alive][0]
        self.cur = nxt; self.switches += 1
        self.cv.notify_all()
        return True

    def leave(self, t):
        with self.cv:
            r = self.rank(t)
            self.alive.remove(r)
            del self.base[t]
            self.order[r] = ("done", t)
            if self.cur == r and not self.handover(r): self.cur = None
            self.cv.notify_all()

    def __enter__(self):
        threading.settrace(self.trace)
        return self

    def __exit__(self, *a):
        threading.settrace(None)
        with self.cv:
            self.was_free = self.free
            self.free = True
            self.cv.notify_all()
        return False
