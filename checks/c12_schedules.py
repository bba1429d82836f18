"""C12: chunk computations and independent operations under every schedule within a preemption bound.

The operations run in threads of which exactly one is awake (mc/sched.py); a schedule is given by the points (lines or
calls of the traced modules) at which a thread is preempted."""
import gc
import inspect
import itertools
import logging
import os
import shutil

import numpy as np

from checks.c13_isolation import first_diff, freeze
from mc import corpus, writers
from mc.core import Part, canon_hash
from mc.sched import Deadlock, Scheduler, chosen, record
from mc.sig import *

PROPERTY = "C12"
ASSUMPTIONS = [
    "threads are preempted at lines of rsciio (chunk tasks: also of dask.array, h5py, tifffile, imageio, zarr); what C code does in between is one step, as under the global interpreter lock",
    "of a line which is executed many times, the first and the last executions are preempted",
    "the schedule inside one computation is that of dask's synchronous scheduler"]
HEAVY = ("interrupted_acquisition.wdf", "focustrack.wdf", "trivista/map.tvf", "e-k.h5", "Synchronized data.csv", "topspin_test_B.app5")
LIBS = ("/rsciio/", "/dask/array/", "/h5py/", "/tifffile", "/imageio", "/zarr/", "/numcodecs/", "numpy/_core/memmap")
LAZY_WRITERS = ("hspy", "zspy", "emd", "blockfile", "tvips")


def read_ops(per, slow):
    out, n = [], {}
    seen = set()
    for e in sorted(corpus.entries(), key=lambda e: (e["plugin"], e["t"])):
        if isinstance(e["eager"], str) or e["t"] > slow or e["size"] > 2_000_000:
            continue
        if slow < 0.1 and e["path"].endswith(HEAVY):
            continue
        kin = (e["plugin"], str(e["eager"])[:120], os.path.splitext(e["path"])[1])
        if kin in seen or n.get(e["plugin"], 0) >= per:
            continue
        seen.add(kin)
        n[e["plugin"]] = n.get(e["plugin"], 0) + 1
        out.append(dict(kind="read", plugin=e["plugin"], path=e["path"], lazy=not isinstance(e["lazy"], str) and n[e["plugin"]] % 2 == 0))
    # a plugin with one file only is read against a copy of it
    return out


def write_ops(per):
    out, n = [], {}
    for c in writers.cases(every=False):
        if "scalebar" in c["kw"] or "output_size" in c["kw"] or n.get(c["plugin"], 0) >= (per if c["plugin"] in LAZY_WRITERS else per - 1):
            continue
        n[c["plugin"]] = n.get(c["plugin"], 0) + 1
        out.append(dict(c, kind="write", lazy=n[c["plugin"]] % 2 == 0 and c["plugin"] in LAZY_WRITERS))
    return out


def lazy_ops(slow):
    """Files whose lazily loaded data can be split into several chunks."""
    out, n = [], {}
    for e, o in corpus.options(False, pairs=1):
        if isinstance(e["eager"], str) or isinstance(e["lazy"], str) or e["t"] > slow:
            continue
        k = (e["plugin"], str(sorted(o.items())))
        if n.get(k, 0) >= 2 or (o and n.get(k)):
            continue
        n[k] = n.get(k, 0) + 1
        out.append(dict(plugin=e["plugin"], path=e["path"], opts=o))
    return out


def execute(op, d):
    m = corpus.reader(op["plugin"])
    if op["kind"] == "read":
        return freeze(m.file_reader(corpus.path(op["path"]), lazy=op["lazy"]))
    s = writers.make(op["shape"], op["nsig"], op["dtype"], lazy=op["lazy"], plugin=op["plugin"])
    if op.get("seed"):
        s["metadata"]["General"]["title"] = "other"
        s["data"] = s["data"][::-1] if op["plugin"] != "image" else s["data"]
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "out." + op["ext"])
    kw = dict(op["kw"])
    if kw.get("navigator") == "array":
        kw["navigator"] = np.arange(int(np.prod(op["shape"][:-2], dtype=int)), dtype="u1").reshape(op["shape"][:-2])
    if "show_progressbar" in inspect.signature(m.file_writer).parameters:
        kw["show_progressbar"] = False
    m.file_writer(p, s, **kw)
    if op["plugin"] == "tvips":
        p = sorted(os.path.join(d, x) for x in os.listdir(d) if x.endswith("000.tvips"))[0]
    if not hasattr(m, "file_reader"):
        with open(p, "rb") as f:
            return freeze(f.read())
    return freeze(m.file_reader(p, **{k: v for k, v in kw.items() if k == "endianness"}))


def name(op):
    return "%s %s %s" % (op["kind"], op["plugin"], op.get("path") or (op["shape"], op["dtype"], op["kw"]))


def outcome(r):
    return r[0] if r[1] is None else ["raised", type(r[1]).__name__, str(r[1])[:300]]


class Pair:
    """Two operations and their results alone."""

    def __init__(self, t, a, b):
        self.t, self.ops = t, (a, b)
        self.held = {}
        self.alone = []
        for o in self.ops:
            self.fn(o, "alone")()          # imports and caches
            shutil.rmtree(t.path("alone"), ignore_errors=True)
            self.alone.append(self.fn(o, "alone")())
            shutil.rmtree(t.path("alone"), ignore_errors=True)
        self.dirs = itertools.count()

    def fn(self, op, d):
        d = self.t.path(d)
        return lambda: execute(op, d)

    def where(self, i, **kw):
        r, e, w = record(self.fn(self.ops[i], "rec"), **kw)
        shutil.rmtree(self.t.path("rec"), ignore_errors=True)
        if e is not None:
            raise e
        return w

    def preempt(self, where, plan, **kw):
        """A function during which the other operation was found to wait (twice) holds a lock: its other lines are not tried."""
        if self.held.get(where[2], 0) < 2:
            s = self.run(plan, **kw)
            if s.blocked:
                self.held[where[2]] = self.held.get(where[2], 0) + 1

    def run(self, plan, **kw):
        k = next(self.dirs)
        s = Scheduler([self.fn(o, "s%d_%d" % (k, i)) for i, o in enumerate(self.ops)], **kw)
        self.t.op("schedule %s" % plan if k < 2 else None)
        try:
            res = s.run(plan)
        except Deadlock as e:
            self.t.fail("schedule %s: deadlock: %s" % (plan, e))
        for i, (o, want, r) in enumerate(zip(self.ops, self.alone, res)):
            r = outcome(r)
            x = first_diff(want, r)
            self.t.check(x is None, lambda: "%s, preempted as %s (thread, points passed) by %s: alone / concurrently: %s" % (
                name(o), plan, name(self.ops[1 - i]), str(x)[:300]))
        for i in range(2):
            shutil.rmtree(self.t.path("s%d_%d" % (k, i)), ignore_errors=True)
        return s


def f_lines(t, c):
    """The first operation is preempted once, before each line, by the whole second one."""
    pair = Pair(t, *c["ops"])
    w = pair.where(0)
    pts = chosen(w, c["first"], c["last"])
    for k in pts[c["slice"][0]::c["slice"][1]]:
        pair.preempt(w[k], [(0, k), (1, None)])
        t.state(w[k])
    gc.collect()


def f_calls(t, c):
    """Both are preempted once, before each call: a part of the first, a part of the second, the rest of the first, the rest of the second."""
    pair = Pair(t, *c["ops"])
    ws = [pair.where(i, calls_only=True) for i in range(2)]
    pts = [chosen(w, 1, 0) for w in ws]
    for i in pts[0][c["slice"][0]::c["slice"][1]]:
        for j in pts[1][::c["every"]]:
            pair.preempt(ws[0][i], [(0, i), (1, j), (0, None)], calls_only=True)
            t.state(ws[0][i], ws[1][j])
    gc.collect()


# ---------------------------------------------------------------- chunks of one array
def lazies(op):
    m = corpus.reader(op["plugin"])
    try:
        out = m.file_reader(corpus.path(op["path"]), lazy=True, **op["opts"])
    except (ValueError, NotImplementedError):
        if op["opts"]:  # options that do not suit the file
            return []
        raise
    return [s["data"] for s in out if hasattr(s["data"], "__dask_graph__")]


def first_chunks(x, most):
    idx = list(np.ndindex(*[len(k) for k in x.chunks]))
    return idx[: most - 1] + idx[-1:] if len(idx) > most else idx


def f_orders(t, c):
    """The chunks computed in every order (of up to four), each twice, give what they give alone."""
    for x in lazies(c)[:3]:
        idx = first_chunks(x, 4)
        alone = {i: freeze(np.asarray(lazy_block(x, i).compute())) for i in idx}
        for perm in itertools.permutations(idx):
            t.op("order %s" % (perm,))
            for i in perm:
                d = first_diff(alone[i], freeze(np.asarray(lazy_block(x, i).compute())))
                t.check(d is None, lambda: "chunk %s computed in the order %s: %s" % (i, perm, d))
        t.state(c["path"], x.shape, len(idx))
    gc.collect()


def lazy_block(x, i):
    return x.blocks[i]


def f_chunks(t, c):
    """Two chunks of an array computed in two threads, one of them preempted before every line, the other before some."""
    n = 0
    for x in lazies(c)[:2]:
        idx = first_chunks(x, 3)
        pairs = [(a, b) for a in idx for b in idx if a != b] or [(idx[0], idx[0])]
        for a, b in pairs[: c["pairs"]]:
            fns = [lambda i=i: freeze(np.asarray(lazy_block(x, i).compute())) for i in (a, b)]
            alone = [f() for f in fns]
            ws = []
            for f in fns:
                r, e, w = record(f, modules=LIBS)
                ws.append(w)
            pts = [chosen(w, 1, 1) for w in ws]
            plans = [[(0, k), (1, None)] for k in pts[0]]
            own = [[k for k in p if "/rsciio/" in w[k][0]] for p, w in zip(pts, ws)]
            plans += [[(0, i), (1, j), (0, None)] for i in own[0][: c["two"]] for j in own[1][: c["two"]]]
            for plan in plans:
                s = Scheduler(fns, modules=LIBS)
                t.op("chunks %s %s %s" % (a, b, plan) if n < 3 else None)
                n += 1
                try:
                    res = s.run(plan)
                except Deadlock as e:
                    t.fail("chunks %s and %s, schedule %s: deadlock: %s" % (a, b, plan, e))
                for i, (want, r) in enumerate(zip(alone, res)):
                    d = first_diff(want, outcome(r))
                    t.check(d is None, lambda: "chunk %s of %s computed with chunk %s, schedule %s: %s" % ((a, b)[i], x.shape, (a, b)[1 - i], plan, str(d)[:300]))
                t.state(plan and ws[0][min(plan[0][1], len(ws[0]) - 1)])
    gc.collect()


def prepare(scratch):
    import dask

    # the libraries the plugins import when they are used
    import h5py, numba, sparse, tifffile, zarr, mrcz, imageio.v3, pooch  # noqa: F401, E401
    import dask.array  # noqa: F401

    dask.config.set(scheduler="sync")
    logging.getLogger("rsciio").setLevel(logging.CRITICAL)
    logging.disable(logging.WARNING)
    corpus.prepare(scratch)


def parts(tier):
    big = tier == "thorough"
    reads = read_ops(6 if big else 2, 0.3 if big else 0.06)
    writes = write_ops(4 if big else 2)
    by = {}
    for o in reads + writes:
        by.setdefault((o["plugin"], o["kind"]), []).append(o)
    pairs, firsts = [], []
    for (plugin, kind), ops in sorted(by.items()):
        if kind == "write":
            ops = ops + [dict(ops[0], seed=1)]
        for i, a in enumerate(ops):
            for j in range(1, len(ops)) if big else [1]:
                pairs.append((a, ops[(i + j) % len(ops)]))
        firsts.append((ops[0], ops[-1]))
        if big:
            pairs.append((ops[0], ops[0]))
    for plugin in sorted({p for p, k in by if k == "write"} & {p for p, k in by if k == "read"}):
        two = [(by[plugin, "read"][0], by[plugin, "write"][0]), (by[plugin, "write"][0], by[plugin, "read"][0])]
        firsts += two
        if big:
            pairs += two
    seen, uniq = set(), []
    for p in pairs:
        if repr(p) not in seen:
            seen.add(repr(p))
            uniq.append(p)
    one = [v[0] for k, v in sorted(by.items())]
    cross = [(a, b) for a in one for b in one if a["plugin"] != b["plugin"]]
    if not big:
        n = len(one)
        cross = [(a, one[(i + d) % n]) for i, a in enumerate(one) for d in (1, n // 2) if a["plugin"] != one[(i + d) % n]["plugin"]]
    S = 4
    return [
        Part("lines", [dict(ops=p, first=3 if big else 1, last=int(big), slice=(s, S)) for p in uniq for s in range(S)], f_lines, "%d pairs of operations of one plugin; one preemption before the %s execution of every line" % (len(uniq), "first three and the last" if big else "first"), timeout=1500),
        Part("calls", [dict(ops=p, every=1 if big else 8, slice=(s, S)) for p in (uniq if big else firsts) for s in range(S)], f_calls, "two preemptions, at the first calls of every function", timeout=1500),
        Part("cross", [dict(ops=p, first=1, slice=(0, 1), every=4) for p in cross], f_cross, "%d pairs of operations of different plugins; one preemption before every function" % len(cross), timeout=1500),
        Part("orders", lazy_ops(0.3 if big else 0.12), f_orders, "every order of up to four chunks", timeout=600),
        Part("chunks", [dict(o, pairs=6 if big else 1, two=12 if big else 5) for o in lazy_ops(0.3 if big else 0.12) if big or not o["opts"]], f_chunks, "pairs of chunks; one preemption before every line of rsciio, dask.array and the I/O libraries, two before lines of rsciio", timeout=1500),
    ]


def f_cross(t, c):
    """The first operation preempted once, before the first call of every function, by the whole operation of another plugin."""
    pair = Pair(t, *c["ops"])
    w = pair.where(0, calls_only=True)
    for k in chosen(w, 1, 0):
        pair.preempt(w[k], [(0, k), (1, None)], calls_only=True)
        t.state(w[k])
    gc.collect()
