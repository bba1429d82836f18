"""A cooperative scheduler for threads executing real code.

Exactly one thread runs at a time.  The points at which it can be preempted are the lines (or the calls) of the traced
modules; a plan says how many points a thread passes before the next one runs.  A thread that does not come to a point or
to its end, and passes no point, within BLOCK seconds is taken to wait for another one (for a lock), and the others go on.
"""
import sys
import threading
import time

BLOCK = 0.1
DEAD = 30.0


class Deadlock(Exception):
    pass


class _Thread:
    def __init__(self, sched, fn, calls_only):
        self.sched, self.fn, self.calls_only = sched, fn, calls_only
        self.points = 0
        self.quota = None       # pass no more than this many points
        self.where = []
        self.result = self.error = None
        self.done = False
        self.go = threading.Semaphore(0)
        self.thread = threading.Thread(target=self.run, daemon=True)

    def run(self):
        self.go.acquire()
        sys.settrace(self.enter)
        try:
            self.result = self.fn()
        except BaseException as e:
            self.error = e
        finally:
            sys.settrace(None)
            self.done = True
            self.sched.moved.release()

    def enter(self, frame, event, arg):
        f = frame.f_code.co_filename
        hit = self.sched.traced.get(f)
        if hit is None:
            hit = self.sched.traced[f] = any(x in f for x in self.sched.modules)
        if not hit:
            return None
        if self.calls_only:
            self.point(frame)
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line":
            self.point(frame)
        return self.line

    def point(self, frame):
        if self.sched.record:
            self.where.append((frame.f_code.co_filename, frame.f_lineno, frame.f_code.co_name))
        while self.quota is not None and self.points >= self.quota:
            self.sched.moved.release()
            self.go.acquire()
        self.points += 1


class Scheduler:
    def __init__(self, fns, modules=("/rsciio/",), calls_only=False, record=False):
        self.modules, self.record = modules, record
        self.traced = {}
        self.moved = threading.Semaphore(0)
        self.threads = [_Thread(self, f, calls_only) for f in fns]
        self.blocked = 0
        self.waiting = set()        # threads that were let go and did not report yet

    def step(self, i, quota):
        """Run thread i until it has passed `quota` points, ends, or blocks."""
        th = self.threads[i]
        if th.done:
            return
        th.quota = quota
        if i in self.waiting:
            # it was blocked: it goes on by itself
            pass
        else:
            th.go.release()
            self.waiting.add(i)
        end = time.monotonic() + BLOCK
        passed = th.points
        while True:
            if self.moved.acquire(timeout=max(0.0, end - time.monotonic())):
                # someone reported: this thread or one that was blocked before
                for j in list(self.waiting):
                    t = self.threads[j]
                    if t.done or (t.quota is not None and t.points >= t.quota and j != i):
                        self.waiting.discard(j)
                if th.done or (th.quota is not None and th.points >= th.quota):
                    self.waiting.discard(i)
                    return
                continue
            if th.points != passed:
                passed = th.points
                end = time.monotonic() + BLOCK
                continue
            self.blocked += 1
            return

    def run(self, plan):
        """plan: [(thread, points passed in all)]; then every thread to its end, in order."""
        for t in self.threads:
            t.thread.start()
        for i, q in plan:
            self.step(i, q)
        end = time.monotonic() + DEAD
        while not all(t.done for t in self.threads):
            for i, t in enumerate(self.threads):
                if not t.done:
                    self.step(i, None)
            if time.monotonic() > end:
                raise Deadlock("no progress: %s" % [(t.points, t.done) for t in self.threads])
        for t in self.threads:
            t.thread.join(5)
        return [(t.result, t.error) for t in self.threads]


def record(fn, **kw):
    """Points of fn executed alone."""
    s = Scheduler([fn], record=True, **kw)
    (r, e), = s.run([])
    return r, e, s.threads[0].where


def chosen(where, first, last=1):
    """Indices of the first and last few occurrences of every line: those where a preemption is tried."""
    seen, idx = {}, {}
    for k, w in enumerate(where):
        idx.setdefault(w, []).append(k)
    out = set()
    for w, ks in idx.items():
        out.update(ks[:first])
        out.update(ks[len(ks) - last:] if last else [])
    return sorted(out)
