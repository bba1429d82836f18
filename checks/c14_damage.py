"""C14: truncated files, failing reads and failing writes, at every point."""
import gc
import os
import resource
import shutil

import numpy as np

from mc import corpus, writers
from mc.core import Part, Skip, canon_hash
from mc.sig import *

PROPERTY = "C14"
ASSUMPTIONS = [
    "values of a part that is missing are fill values (0 or NaN), or the part is left out; counts of an event stream are at most those of the intact one",
    "libraries which do not report a failing write (HDF5, buffered writes of numpy) are not made to",
    "a number of a text file that is cut in the middle is read as far as it is there",
    "handles are looked at after a collection of garbage: an exception being handled keeps its frames alive"]

EVENTS = ("jeol",)
# the HDF5 library itself may crash or stay silent when its writes fail: writers
# of these formats are only killed
HDF5 = ("hspy", "nexus", "emd", "usid")
TEXT = ("msa", "protochips", "dens", "impulse", "quadstar", "ripple")


# ---------------------------------------------------------------- oracle
def intact(m, p, lazy, opts):
    r = m.file_reader(p, lazy=lazy, **opts)
    return [(np.asarray(compute(s["data"])) if "data" in s else None) for s in r]


def plain(a):
    """Values as one array of numbers or bytes."""
    if a.dtype.fields:
        return np.ascontiguousarray(a).view(np.uint8)
    return a


def number(x):
    try:
        return float(x)
    except ValueError:
        return float("nan")


def agrees(got, full, plugin):
    """None, or what is wrong with data of the damaged file."""
    if got.dtype == object or full.dtype == object:
        return None if got.dtype == full.dtype else "dtype %s, intact %s" % (got.dtype, full.dtype)
    if got.dtype != full.dtype:
        # columns of tables have the type that fits what is there
        if got.dtype.kind in "US" and plugin in TEXT:
            got = np.array([number(x) for x in got.ravel()]).reshape(got.shape)
        if got.dtype.fields or full.dtype.fields or got.dtype.kind not in "iufcb" or full.dtype.kind not in "iufcb":
            return "dtype %s, intact %s" % (got.dtype, full.dtype)
    g, f = plain(got), plain(full)
    if g.size == 0:
        return None
    if g.ndim == f.ndim and g.shape != f.shape and all(x <= y for x, y in zip(g.shape, f.shape)):
        part = f[tuple(slice(0, x) for x in g.shape)]
        if same(g, part, plugin):
            return None
    if g.shape != f.shape:
        # the leading part, in the order of the file
        if g.size > f.size:
            return "shape %s, intact %s" % (got.shape, full.shape)
        n = g.size
        for order in "CF":
            if same(g.ravel(order), f.ravel(order)[:n], plugin):
                return None
        return "shape %s of %s with other values" % (got.shape, full.shape)
    if same(g, f, plugin):
        return None
    bad = np.argwhere(~okay(g, f, plugin))
    return "%d values of %d are neither those of the intact file nor missing, e.g. %s at %s instead of %s" % (
        len(bad), g.size, g[tuple(bad[0])], tuple(int(i) for i in bad[0]), f[tuple(bad[0])])


def okay(g, f, plugin):
    if g.dtype.kind in "US":
        return (g == f) | (g == "")
    with np.errstate(all="ignore"):
        ok = (g == f) | ((g != g) & (f != f)) | (g == 0) | (g != g)
        if plugin in EVENTS:
            ok |= (g <= f)
    return ok


def same(g, f, plugin):
    ok = okay(g, f, plugin)
    bad = int(ok.size - np.count_nonzero(ok))
    return bad == 0 or (plugin in TEXT and bad == 1)


def handles(root):
    out = []
    for n in os.listdir("/proc/self/fd"):
        try:
            x = os.readlink("/proc/self/fd/" + n)
        except OSError:
            continue
        if x.startswith(root + "/") and not x.endswith(" (deleted)"):
            out.append(os.path.relpath(x, root))
    return sorted(out)


def stand_in(src, d, name=None):
    """A directory with everything beside src as links and a copy of src (name)."""
    os.makedirs(d)
    here = os.path.dirname(src)
    for n in os.listdir(here):
        os.symlink(os.path.join(here, n), os.path.join(d, n))
    return d


def companions(p):
    """Files which belong together: of the same stem."""
    here, base = os.path.split(p)
    stem = os.path.splitext(base)[0]
    out = [base]
    for n in sorted(os.listdir(here)):
        if n != base and os.path.isfile(os.path.join(here, n)) and (os.path.splitext(n)[0] == stem or n.startswith(stem + "_")):
            out.append(n)
    return out


def points(size, k):
    """Lengths: all around the ends, every power of two and its neighbours, and k evenly spread."""
    out = set(range(0, min(size, 9))) | {size - i for i in range(1, 9) if i <= size}
    i = 16
    while i < size:
        out |= {i - 1, i, i + 1}
        i *= 2
    out |= {size * j // k for j in range(k)} | {size * j // k + 1 for j in range(k)}
    return sorted(x for x in out if 0 <= x < size)


def damaged_read(t, m, p, c, want, what, root):
    """Read a damaged file; what is returned agrees with the intact one and no handle stays open."""
    t.op("%s" % what)
    r = None
    try:
        r = m.file_reader(p, lazy=c["lazy"], **c.get("opts", {}))
        got = [np.asarray(compute(s["data"])) for s in r if "data" in s]
    except Exception as e:
        got = None
        t.state(c["plugin"], "raised", type(e).__name__)
    if got is not None:
        t.state(c["plugin"], [g.shape for g in got])
        t.check(len(got) <= len(want), lambda: "%s: %d signals, %d in the intact file" % (what, len(got), len(want)))
        for i, g in enumerate(got):
            x = [agrees(g, f, c["plugin"]) for f in want if f is not None]
            t.check(None in x, lambda: "%s: signal %d: %s" % (what, i, x[min(i, len(x) - 1)]))
    failed = got is None
    r = got = None
    gc.collect()
    if failed:
        h = handles(root)
        t.check(not h, lambda: "%s: files left open after the failure: %s" % (what, h))


def f_truncate(t, c):
    m = corpus.reader(c["plugin"])
    src = corpus.path(c["path"])
    d = stand_in(src, t.path("d"))
    base = os.path.basename(src)
    name = c.get("file", base)
    p = os.path.join(d, base)
    for n in {base, name}:
        os.unlink(os.path.join(d, n))
        shutil.copyfile(os.path.join(os.path.dirname(src), n), os.path.join(d, n))
    victim = os.path.join(d, name)
    with open(victim, "rb") as f:
        whole = f.read()
    t.op("intact")
    want = intact(m, p, c["lazy"], c.get("opts", {}))
    gc.collect()
    for n in c["points"]:
        os.unlink(victim)
        with open(victim, "wb") as f:
            f.write(whole[:n])
        damaged_read(t, m, p, c, want, "%s cut to %d of %d bytes" % (name, n, len(whole)), d)
    os.unlink(victim)
    with open(victim, "wb") as f:
        f.write(whole)
    t.op("intact again")
    again = intact(m, p, c["lazy"], c.get("opts", {}))
    t.check(len(again) == len(want) and all(same_values(a, b) for a, b in zip(want, again)), "the intact file is read otherwise after the failures")


# ---------------------------------------------------------------- failing calls
OPEN, READ, WRITE, TRUNC, RENAME, MMAP = 1, 2, 4, 8, 16, 32
ONCE, ON, SHORT, EXIT = 0, 1, 2, 3
LIB = None


def lib():
    global LIB
    if LIB is None:
        import ctypes

        LIB = ctypes.CDLL(None)
        LIB.fault_disarm.restype = ctypes.c_long
        LIB.fault_fired.restype = ctypes.c_long
    return LIB


class fault:
    """Within the block, the n-th call of the given kinds on files below root fails."""

    def __init__(self, root, n, err=5, kinds=63, mode=ONCE):
        self.a = (root.encode() + b"/", n, err, kinds, mode)

    def __enter__(self):
        import ctypes

        a = self.a
        lib().fault_arm(a[0], ctypes.c_long(a[1]), a[2], a[3], a[4])
        return self

    def __exit__(self, *a):
        self.calls = lib().fault_disarm()
        self.fired = lib().fault_fired()


def pick(n, most):
    """All of 1..n, or the first and last and evenly spread ones between them."""
    if n <= most:
        return list(range(1, n + 1))
    h = most // 3
    mid = {h + (n - 2 * h) * j // (most - 2 * h) for j in range(most - 2 * h)}
    return sorted(set(range(1, h + 1)) | set(range(n - h + 1, n + 1)) | {x for x in mid if 1 <= x <= n})


def f_readfault(t, c):
    """Every call which opens or reads the file (or one beside it) fails."""
    m = corpus.reader(c["plugin"])
    src = corpus.path(c["path"])
    d = stand_in(src, t.path("d"))
    base = os.path.basename(src)
    for n in companions(src):
        os.unlink(os.path.join(d, n))
        shutil.copyfile(os.path.join(os.path.dirname(src), n), os.path.join(d, n))
    p = os.path.join(d, base)
    t.op("intact")
    intact(m, p, c["lazy"], c.get("opts", {}))
    with fault(d, -1, kinds=OPEN | READ | MMAP) as f:
        want = intact(m, p, c["lazy"], c.get("opts", {}))
    gc.collect()
    # hspy keeps the files of lazy signals open on purpose
    open_before = len(handles(d))
    t.state(c["plugin"], f.calls)
    for n in pick(f.calls, c["most"]):
        for mode in c["modes"]:
            r = got = None
            what = "call %d of %d fails (%s)" % (n, f.calls, ("once", "from then on")[mode])
            t.op(what)
            with fault(d, n, kinds=OPEN | READ | MMAP, mode=mode) as g:
                try:
                    r = m.file_reader(p, lazy=c["lazy"], **c.get("opts", {}))
                    got = [np.asarray(compute(s["data"])) for s in r if "data" in s]
                except Exception as e:
                    got = None
                    t.state(c["plugin"], "raised", type(e).__name__)
            failed = got is None
            if not failed:
                for i, a in enumerate(got):
                    x = [agrees(a, b, c["plugin"]) for b in want if b is not None]
                    t.check(None in x, lambda: "%s: signal %d: %s" % (what, i, x[min(i, len(x) - 1)]))
            r = got = None
            gc.collect()
            if failed:
                h = handles(d)
                t.check(len(h) <= open_before, lambda: "%s: files left open after the failure: %s" % (what, h))
            t.op("again")
            again = intact(m, p, c["lazy"], c.get("opts", {}))
            t.check(len(again) == len(want) and all(same_values(a, b) for a, b in zip(want, again)), lambda: "%s: afterwards, the intact file is read otherwise" % what)
            again = None
            gc.collect()
            open_before = len(handles(d))


def written(d, c):
    p = os.path.join(d, "out." + c["ext"])
    if c["plugin"] == "tvips":
        f = sorted(x for x in os.listdir(d) if x.startswith("out") and x.endswith("000.tvips")) if os.path.isdir(d) else []
        if f:
            p = os.path.join(d, f[0])
    return p


def ropts(c):
    return {k: v for k, v in c["kw"].items() if k == "endianness"}


def read_torn(t, m, d, c, want, what):
    """What an interrupted writer leaves behind is refused or read as far as it was written."""
    p = written(d, c)
    if not os.path.exists(p):
        return
    r = None
    try:
        r = m.file_reader(p, **ropts(c))
        got = [np.asarray(compute(s["data"])) for s in r if "data" in s]
    except Exception as e:
        t.state(c["plugin"], "torn", type(e).__name__)
        r = None
        gc.collect()
        return
    t.state(c["plugin"], "torn", [g.shape for g in got])
    for i, g in enumerate(got):
        x = [agrees(g, f, c["plugin"]) for f in want]
        t.check(None in x, lambda: "%s: what was written so far is read as: signal %d: %s" % (what, i, x[min(i, len(x) - 1)]))
    r = got = None
    gc.collect()


def f_writefault(t, c):
    """A writer whose n-th call fails, or which may not write more than so many bytes, or which is killed."""
    m = corpus.reader(c["plugin"])

    def new():
        s = writers.make(c["shape"], c["nsig"], c["dtype"], c["layout"], c["lazy"], plugin=c["plugin"])
        kw = dict(c["kw"])
        if kw.get("navigator") == "array":
            kw["navigator"] = np.arange(int(np.prod(c["shape"][:-2], dtype=int)), dtype="u1").reshape(c["shape"][:-2])
        return s, kw

    d = t.path("ref")
    os.makedirs(d)
    s, kw = new()
    with fault(d, -1, kinds=OPEN | WRITE | TRUNC | RENAME | MMAP) as f:
        m.file_writer(os.path.join(d, "out." + c["ext"]), s, **kw)
    want = intact(m, written(d, c), False, ropts(c))
    size = max(os.path.getsize(os.path.join(a, x)) for a, _, b in os.walk(d) for x in b)
    t.state(c["plugin"], f.calls, size)
    cases = [("killed in call %d of %d" % (n, f.calls), n, EXIT) for n in pick(f.calls, c["most"])]
    if c["plugin"] not in HDF5:
        cases += [("call %d of %d fails once" % (n, f.calls), n, ONCE) for n in pick(f.calls, c["most"])]
        cases += [("all calls from %d of %d fail" % (n, f.calls), n, ON) for n in pick(f.calls, c["most"])]
        cases += [("call %d of %d writes a part" % (n, f.calls), n, SHORT) for n in pick(f.calls, c["most"])]
        cases += [("files of %d bytes at most, %d needed" % (n, size), n, None) for n in points(size, c["bytes"])]
    for k, (what, n, mode) in enumerate(cases):
        d = t.path("f%d" % k)
        os.makedirs(d)
        p = os.path.join(d, "out." + c["ext"])
        s, kw = new()
        snap = snapshot(s)
        t.op(what)
        err = None
        if mode == EXIT:
            pid = os.fork()
            if pid == 0:
                try:
                    with fault(d, n, kinds=OPEN | WRITE | TRUNC | RENAME | MMAP, mode=EXIT):
                        m.file_writer(p, s, **kw)
                finally:
                    os._exit(0)
            status = os.waitpid(pid, 0)[1]
            t.check(os.waitstatus_to_exitcode(status) in (0, 77), lambda: "%s: exit status %s" % (what, status))
            err = status
        elif mode is None:
            soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))
            try:
                m.file_writer(p, s, **kw)
            except Exception as e:
                err = type(e).__name__
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        else:
            with fault(d, n, err=28, kinds=OPEN | WRITE | TRUNC | RENAME | MMAP, mode=mode) as f:
                try:
                    m.file_writer(p, s, **kw)
                except Exception as e:
                    err = type(e).__name__
        t.state(c["plugin"], str(err))
        if mode != EXIT:
            gc.collect()
            h = handles(d)
            if err is not None:
                t.check(not h, lambda: "%s: files left open after the failure: %s" % (what, h))
            x = tree_diff(snap, snapshot(s))
            t.check(x is None, lambda: "%s: the signal was changed: %s" % (what, x))
        read_torn(t, m, d, c, want, what)
        t.op("write again")
        s, kw = new()
        try:
            m.file_writer(p, s, **kw)
            got = intact(m, written(d, c), False, ropts(c))
        except Exception as e:
            t.fail("%s: afterwards, writing again: %s: %s" % (what, type(e).__name__, e))
        t.check(len(got) == len(want) and all(same_values(a, b) for a, b in zip(got, want)), lambda: "%s: writing again over the remains gives other data" % what)
        got = None
        shutil.rmtree(d)


def prepare(scratch):
    import dask
    import h5py, numba, sparse, tifffile, zarr  # noqa: F401, E401

    dask.config.set(scheduler="sync")
    corpus.prepare(scratch)
    for e in corpus.entries():
        corpus.reader(e["plugin"])
    gc.collect()
    gc.freeze()


def parts(tier):
    deep = tier == "thorough"
    cut, seen = [], {}
    for e in sorted(corpus.entries(), key=lambda e: e["size"]):
        if isinstance(e["eager"], str) or e["t"] > 0.3 or e["size"] > 3 << 20 or os.path.isdir(os.path.join(corpus.DATA, e["path"])):
            continue
        k = (e["plugin"], str([(len(s), x) for s, x in e["eager"]])[:200], os.path.splitext(e["path"])[1])
        seen[k] = seen.get(k, 0) + 1
        if seen[k] > (3 if deep else 1):
            continue
        for lazy in (False, True):
            if isinstance(e["lazy"], str) and lazy:
                continue
            cut.append((e, lazy))
    out = []
    for e, lazy in cut:
        pts = points(e["size"], 200 if deep else 16)
        for i in range(0, len(pts), 24):
            out.append(dict(plugin=e["plugin"], path=e["path"], lazy=lazy, points=pts[i:i + 24]))
    rf = [dict(plugin=e["plugin"], path=e["path"], lazy=lazy, most=200 if deep else 12, modes=[ONCE, ON]) for e, lazy in cut if e["t"] < (0.3 if deep else 0.1)]
    wf, done = [], set()
    for w in writers.cases(every=False):
        if not deep and (w["plugin"], str(w["kw"])) in done or w["plugin"] == "digitalsurf" and w["kw"]:
            continue
        done.add((w["plugin"], str(w["kw"])))
        wf.append(dict(w, most=300 if deep else 10, bytes=60 if deep else 6))
    return [Part("failing reads", rf, f_readfault, bounds="each call that opens, reads or maps a file fails", timeout=300),
        Part("failing writes", wf, f_writefault, bounds="each call that opens, writes, sizes or renames a file fails or ends the process, every limit of bytes", timeout=300),
        Part("truncation", out, f_truncate, bounds="%d files, eagerly and lazily" % len(seen), timeout=120)]
