"""C13: no side effects of reading and writing, and no influence of earlier operations."""
import gc
import hashlib
import importlib
import json
import os
import pickle
import sys
import traceback

import numpy as np

from mc import corpus, writers
from mc.core import Part, Skip, canon_hash
from mc.sig import *

PROPERTY = "C13"
ASSUMPTIONS = [
    "files a format keeps beside the one named (ripple .raw, parts of a TVIPS series) belong to the file written",
    "time stamps of the moment of reading or writing are not part of the result"]


def sha(path):
    h = hashlib.sha256()
    with open(path, "rb") as f:
        for b in iter(lambda: f.read(1 << 20), b""):
            h.update(b)
    return h.hexdigest()


def listing(root, main=None):
    """Everything about the files under root that an operation might change
    (contents of the main file and of the small ones)."""
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds:
            out[os.path.relpath(os.path.join(d, n), root) + "/"] = None
        for n in fs:
            p = os.path.join(d, n)
            st = os.lstat(p)
            out[os.path.relpath(p, root)] = (st.st_size, st.st_mode, st.st_mtime_ns, sha(p) if p == main or st.st_size < 20000 else None)
    return out


def diff_listing(a, b):
    return "; ".join(["%s gone" % k for k in a if k not in b][:3] + ["%s appeared" % k for k in b if k not in a][:3] + ["%s changed" % k for k in a if k in b and a[k] != b[k]][:3])


STAMP = {"FileIO", "timestamp", "creation_time", "date_saved"}


def freeze(o):
    """A comparable, independent form of what a reader returned."""
    if isinstance(o, dict):
        return {str(k): freeze(v) for k, v in o.items() if k not in STAMP}
    if isinstance(o, (list, tuple)):
        return [type(o).__name__] + [freeze(v) for v in o]
    if hasattr(o, "__dask_graph__"):
        o = compute(o)
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ["object", list(o.shape)] + [freeze(v) for v in o.ravel()]
        return ["array", list(o.shape), str(o.dtype), hashlib.sha256(np.ascontiguousarray(o).tobytes()).hexdigest()]
    if isinstance(o, (str, int, float, bool, complex, bytes, type(None), np.generic)):
        return [type(o).__name__, repr(o)]
    if callable(o):
        return ["callable"]
    if hasattr(o, "as_dictionary"):
        return freeze(o.as_dictionary())
    return [type(o).__name__]


def first_diff(a, b, path=""):
    if type(a) is not type(b):
        return "%s: %s / %s" % (path, a, b)
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return "%s/%s only before" % (path, k)
            d = first_diff(a[k], b[k], path + "/" + k)
            if d:
                return d
        for k in b:
            if k not in a:
                return "%s/%s only after" % (path, k)
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return "%s: %d / %d items" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_diff(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    return None if a == b else "%s: %r / %r" % (path, a, b)


def spoil(o, seen):
    """Change everything reachable in place."""
    if id(o) in seen:
        return
    seen.add(id(o))
    if isinstance(o, dict):
        for k, v in list(o.items()):
            if k != "mapping":
                spoil(v, seen)
        o.clear()
        o["spoiled"] = "spoiled"
    elif isinstance(o, list):
        for v in list(o):
            spoil(v, seen)
        o[:] = ["spoiled"]
    elif isinstance(o, np.ndarray) and o.flags.writeable and o.dtype != object:
        try:
            o.view(np.uint8)[...] = 0x5A
        except (ValueError, TypeError):
            try:
                o[...] = np.zeros((), o.dtype)
            except (ValueError, TypeError):
                pass


# ---------------------------------------------------------------- reading
def f_read(t, c):
    m = corpus.reader(c["plugin"])
    p = corpus.path(c["path"])
    d = os.path.dirname(p)
    before = listing(d, p)
    cwd, env, lim = os.getcwd(), dict(os.environ), np.geterr()
    popt = np.get_printoptions()
    t.op("read")
    try:
        r = m.file_reader(p, lazy=c["lazy"])
        fz = freeze(r)
    except Exception as e:
        r, fz = None, ["raised", type(e).__name__]
    t.state(canon_hash(fz))
    t.check(os.getcwd() == cwd, "the working directory changed")
    t.check(dict(os.environ) == env, "the environment changed")
    t.check(np.geterr() == lim, "the floating point error handling of numpy changed")
    t.check(str(np.get_printoptions()) == str(popt), "the print options of numpy changed")
    # what the caller does with the result has no effect on the file or later reads
    if r is not None:
        if not c["lazy"]:
            spoil(r, set())
        else:
            for s in r:
                for k in ("axes", "metadata", "original_metadata"):
                    spoil(s.get(k), set())
    r = None
    gc.collect()
    t.op("read again")
    try:
        f2 = freeze(m.file_reader(p, lazy=c["lazy"]))
    except Exception as e:
        f2 = ["raised", type(e).__name__]
    gc.collect()
    x = first_diff(fz, f2)
    t.check(x is None, lambda: "the second read differs: %s" % x)
    y = diff_listing(before, listing(d, p))
    t.check(not y, lambda: "files changed by reading: %s" % y)


# ---------------------------------------------------------------- writing
def companions(plugin, names):
    return {"ripple": lambda n: n.startswith("out."), "tvips": lambda n: n.startswith("out"), "zspy": lambda n: n.startswith("out.zspy")}.get(plugin, lambda n: False)(names)


def neighbours(d, ext):
    for n in ("other." + ext, "out", "out.txt", "out.bak", "out2." + ext, "xout." + ext):
        with open(os.path.join(d, n), "wb") as f:
            f.write(b"neighbour " + n.encode())
    os.makedirs(os.path.join(d, "sub"))
    with open(os.path.join(d, "sub", "out." + ext), "wb") as f:
        f.write(b"sub")


def f_write(t, c):
    m = corpus.reader(c["plugin"])
    d = t.path("w")
    os.makedirs(d)
    neighbours(d, c["ext"])
    s = writers.make(c["shape"], c["nsig"], c["dtype"], c["layout"], c["lazy"], plugin=c["plugin"])
    data, want = s["data"], compute(s["data"]).copy()
    flags = str(data.flags) if isinstance(data, np.ndarray) else data.name
    axes_ids = [id(a) for a in s["axes"]]
    kw = dict(c["kw"])
    if kw.get("navigator") == "array":
        kw["navigator"] = np.arange(int(np.prod(c["shape"][:-2], dtype=int)), dtype="u1").reshape(c["shape"][:-2])
    snap, ksnap = snapshot(s), snapshot(kw)
    before = listing(d)
    p = os.path.join(d, "out." + c["ext"])
    t.op("write")
    try:
        m.file_writer(p, s, **kw)
    except Exception as e:
        t.state("refused", type(e).__name__)
        refused = e
    else:
        refused = None
    x = tree_diff({k: v for k, v in snap.items() if k != "data"}, {k: v for k, v in snapshot(s).items() if k != "data"})
    t.check(x is None, lambda: "the signal was changed by writing%s: %s" % (" (refused: %s)" % refused if refused else "", x))
    t.check(s["data"] is data, "the data of the signal were replaced")
    t.check(same_values(want, compute(data)), "the data of the signal were changed")
    t.check((str(data.flags) if isinstance(data, np.ndarray) else data.name) == flags, "the flags of the data were changed")
    t.check([id(a) for a in s["axes"]] == axes_ids, "the axes of the signal were replaced")
    x = tree_diff(ksnap, snapshot(kw))
    t.check(x is None, lambda: "the arguments were changed: %s" % x)
    gc.collect()
    after = listing(d)
    own = {n for n in after if n == "out." + c["ext"] or n.startswith("out.%s/" % c["ext"]) or n not in before and companions(c["plugin"], n)}
    y = diff_listing(before, {k: v for k, v in after.items() if k not in own or k in before})
    t.check(not y, lambda: "other files changed by writing: %s" % y)
    if refused is not None:
        t.check(not c["plain"], lambda: "the writer refuses its signal: %s: %s" % (type(refused).__name__, refused))
        return
    # written a second time, the file is the same
    t.op("write again")
    try:
        r1 = freeze(read_back(m, p, c))
        m.file_writer(p, s, **dict(overwrite_kw(m), **kw))
        r2 = freeze(read_back(m, p, c))
    except Exception as e:
        raise
    x = first_diff(r1, r2)
    t.state(canon_hash(r1))
    t.check(x is None, lambda: "written again, the file is read as: %s" % x)


def overwrite_kw(m):
    return {}


def read_back(m, p, c):
    if not hasattr(m, "file_reader"):
        return []
    if c["plugin"] == "tvips":
        f = sorted(x for x in os.listdir(os.path.dirname(p)) if x.startswith("out") and x.endswith("000.tvips"))
        if f:
            p = os.path.join(os.path.dirname(p), f[0])
    return m.file_reader(p, **{k: v for k, v in c["kw"].items() if k == "endianness"})


# ---------------------------------------------------------------- pairs
REP = []        # representative operations, filled by prepare
ALONE = {}


def run_op(op, d):
    """Execute one operation; the frozen result."""
    try:
        m = corpus.reader(op["plugin"])
        if op["kind"] == "read":
            return freeze(m.file_reader(corpus.path(op["path"]), lazy=op["lazy"], **op["opts"]))
        s = writers.make(op["shape"], op["nsig"], op["dtype"], lazy=op["lazy"], plugin=op["plugin"])
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "out." + op["ext"])
        m.file_writer(p, s, **op["kw"])
        out = [freeze(read_back(m, p, op))]
        return out
    except Exception as e:
        return ["raised", type(e).__name__, str(e).replace(d, "")[:200]]


def in_child(ops, d):
    """Results of the operations, executed one after the other in a process of their own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.makedirs(d, exist_ok=True)
            out = [run_op(o, os.path.join(d, str(i))) for i, o in enumerate(ops)]
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        buf = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(buf) if buf else [["process died"]] * len(ops)


def representatives(deep):
    out, seen = [], set()
    for e, o in corpus.options(False, pairs=1):
        if isinstance(e["eager"], str) or e["t"] > (0.5 if deep else 0.12) or e["size"] > 2_000_000:
            continue
        for lazy in (False, True):
            if lazy and isinstance(e["lazy"], str):
                continue
            k = (e["plugin"], lazy, str(sorted(o.items()))) if deep else (e["plugin"], e["plugin"] in ("hspy", "zspy", "digitalmicrograph", "tvips", "tiff") and lazy, bool(o) and e["plugin"] in ("jeol", "emd", "tvips", "nexus"))
            if k in seen or (not deep and lazy and not k[1]):
                continue
            seen.add(k)
            out.append(dict(kind="read", plugin=e["plugin"], path=e["path"], lazy=lazy, opts=o))
    done = set()
    for c in writers.cases(every=False):
        if not deep and c["plugin"] in done:
            continue
        done.add(c["plugin"])
        if "scalebar" in c["kw"] or "output_size" in c["kw"]:
            continue
        out.append(dict(c, kind="write"))
    return out


def f_pair(t, c):
    ops = [REP[i] for i in c["ops"]]
    for o in ops:
        t.op("%s %s" % (o["kind"], o["plugin"]))
    res = in_child(ops, t.path("pair"))
    for o, i, r in zip(ops, c["ops"], res):
        x = first_diff(ALONE[i], r)
        t.check(x is None, lambda: "%s %s %s after %s: alone / after: %s" % (o["kind"], o["plugin"], o.get("path", o.get("shape")), [(q["kind"], q["plugin"]) for q in ops], str(x)[:300]))
    t.state(canon_hash(res[-1]))


def prepare(scratch):
    import resource

    import dask
    # imported once, before the operations are executed in processes of their own
    import h5py, numba, sparse, tifffile, zarr  # noqa: F401, E401
    import dask.array  # noqa: F401

    hard = resource.getrlimit(resource.RLIMIT_NOFILE)[1]
    resource.setrlimit(resource.RLIMIT_NOFILE, (hard, hard))
    dask.config.set(scheduler="sync")
    corpus.prepare(scratch)
    global SCRATCH
    SCRATCH = scratch


def alone():
    """What each of the representative operations gives in a process of its own."""
    for o in REP:
        corpus.reader(o["plugin"])
    for i, o in enumerate(REP):
        ALONE[i] = in_child([o], os.path.join(SCRATCH, "alone%d" % i))[0]


def parts(tier):
    deep = tier == "thorough"
    REP[:] = representatives(deep)
    alone()
    rd = []
    for e in corpus.entries():
        if e["path"].endswith("rawdata.ASW") and not deep:
            continue
        for lazy in (False, True):
            rd.append(dict(plugin=e["plugin"], path=e["path"], lazy=lazy, whole=True))
    wr = [dict(c, plain=True) for c in writers.cases()]
    wr += [dict(c, plain=False) for c in writers.cases(layouts=LAYOUTS[1:] if deep else ("F", "readonly"), every=deep)]
    wr += [dict(c, plain=False) for c in writers.cases(lazies=(True,), every=deep)]
    n = len(REP)
    pairs = [dict(ops=[i, j]) for i in range(n) for j in range(n)]
    return [
        Part("reading", rd, f_read, bounds="every file of the corpus, eagerly and lazily, read twice", timeout=300),
        Part("writing", wr, f_write, bounds="every writer on its signals, layouts, lazy or not, with neighbouring files", timeout=120),
        Part("pairs", pairs, f_pair, bounds="every ordered pair of %d representative operations, each pair in a new process" % n, timeout=300),
    ]
