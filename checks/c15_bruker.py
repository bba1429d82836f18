"""C15: hypermaps of Bruker bcf files, for both decoders and every option."""
import importlib.util
import itertools
import os
import shutil
import subprocess
import sys
import sysconfig
from math import ceil

import numpy as np

from mc import bruker as B
from mc.core import Part, product
from mc.sig import *

PROPERTY = "C15"
ASSUMPTIONS = [
    "pixels are packed as in files of the vendor: 16 or 12 bit events, or blocks of 0, 1, 2, 4 (8) half bytes with a base value, with additional events",
    "the number of channels of a pixel is that of its last channel, blocks of counts lie within one block of the container",
    "the sum spectrum has a peak at least as high as the highest count times the number of pixels (the reference peak), unless stated",
    "the compiled decoder is built from the source in /repo in a scratch directory"]
SCALE, OFFSET = 0.5, -0.5
A = None
BUILD = "/tmp"


def build(d):
    """Compile unbcf_fast.pyx of the working tree and install it as the module in use."""
    import rsciio

    # before rsciio.bruker is imported, which would take the installed one
    assert not any(m.startswith("rsciio.bruker") for m in sys.modules)
    src = os.path.join(os.path.dirname(rsciio.__file__), "bruker", "unbcf_fast.pyx")
    os.makedirs(d, exist_ok=True)
    shutil.copy(src, d + "/unbcf_fast.pyx")
    subprocess.run([sys.executable, "-m", "cython", "-3", "unbcf_fast.pyx"], cwd=d, check=True, stdout=subprocess.DEVNULL)
    so = d + "/unbcf_fast.so"
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-I" + sysconfig.get_paths()["include"], "unbcf_fast.c", "-o", so], cwd=d, check=True)
    spec = importlib.util.spec_from_file_location("rsciio.bruker.unbcf_fast", so)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    sys.modules["rsciio.bruker.unbcf_fast"] = m


def prepare(scratch):
    global A
    import dask

    dask.config.set(scheduler="sync")
    build(scratch + "/unbcf")
    import rsciio.bruker._api as api

    assert api.fast_unbcf and sys.modules["rsciio.bruker.unbcf_fast"].__file__.startswith(scratch)
    api.warn_once = False
    A = api


def read(p, fast, **o):
    A.fast_unbcf = fast
    try:
        r = A.file_reader(p, **o)
        for s in r:
            s["data"] = np.asarray(compute(s["data"]))
        return r
    finally:
        A.fast_unbcf = True


def reduced(full, ds, n):
    """Sums over blocks of pixels, the first n channels (zeros behind the last one)."""
    h, w, c = full.shape
    out = np.zeros((ceil(h / ds), ceil(w / ds), n), "i8")
    k = min(c, n)
    for y in range(h):
        for x in range(w):
            out[y // ds, x // ds, :k] += full[y, x, :k]
    return out


def last(s):
    return int(np.nonzero(s)[0][-1])


def channels(sums, cutoff, hv, ampl=8000.0, OFFSET=OFFSET, SCALE=SCALE):
    if cutoff is None:
        return len(sums)
    if cutoff == "zealous":
        return last(sums) + 1
    if cutoff == "auto":
        return int(round((hv - OFFSET) / SCALE)) if 0 < hv < ampl / 1000 else len(sums)
    return int(round((cutoff - OFFSET) / SCALE))


def sums_of(full):
    s = full.sum((0, 1))
    s[0] = max(s[0], full.max() * full.shape[0] * full.shape[1])
    return s


def same(t, r, want, ds, what, dx=0.25, dy=0.75, OFFSET=OFFSET, SCALE=SCALE):
    d = r["data"]
    t.check(d.shape == want.shape, lambda: "%s: shape %s, expected %s" % (what, d.shape, want.shape))
    t.check(np.array_equal(d, want), lambda: "%s: %s" % (what, describe(d, want)))
    t.check(d.dtype.kind == "u", lambda: "%s: dtype %s" % (what, d.dtype))
    ax = r["axes"]
    t.check([a["size"] for a in ax] == list(want.shape), lambda: "%s: sizes of the axes" % what)
    t.check(np.allclose([a["scale"] for a in ax], [dy * ds, dx * ds, SCALE], rtol=1e-12) and np.allclose([a["offset"] for a in ax], [0, 0, OFFSET]),
        lambda: "%s: scales and offsets of the axes: %s" % (what, ax))


# pixels which use every kind of packing
PIX = [
    None,
    ("16", [3, 15, 3]),
    ("12", [9]),
    ("12", [0, 3, 3, 7, 15]),
    ("i", [(1, [1, 2, 15], 0), (0, 5, 0), (1, [7, 0], 3)]),
    ("i", [(0, 2, 0), (2, [1, 250, 0], 0), (1, [4], 200)], [3, 3, 4]),
    ("i", [(2, [5], 300), (4, [60000, 1], 2), (0, 4, 0), (1, [1], 0)], [7], 3),
    ("i", [(0, 15, 0), (8, [70000], 5)]),
    ("i", [(1, [6, 2], 1), (0, 1, 0)], [5, 2], 2, 4),
]
CUT = [None, 0.5, 3.0, 7.5, 12.0, "zealous", "auto"]


def f_pixels(t, c):
    shape = tuple(c["shape"])
    n = shape[0] * shape[1]
    for k, px in enumerate(itertools.product(range(len(PIX)), repeat=n - len(c["head"]))):
        px = [PIX[i] for i in list(c["head"]) + list(px)]
        p = t.path("m%d.bcf" % k)
        hv = (5.0, 20.0)[k % 2]
        full = B.write(p, [px], shape)[0]
        if not full.any():
            continue
        sums = sums_of(full)
        B.write(p, [px], shape, sums=[sums], hv=hv, compressed=k % 3 == 0)
        t.state(full.tobytes())
        for ds, cut, fast in itertools.product((1, 2, 3) if n > 1 else (1,), CUT, (True, False)):
            lazy = (ds + len(str(cut)) + k) % 2 == 0
            what = "downsample=%d cutoff_at_kV=%s compiled=%s lazy=%s" % (ds, cut, fast, lazy)
            t.op("%s %s" % (px, what))
            r = read(p, fast, downsample=ds, cutoff_at_kV=cut, lazy=lazy, select_type="spectrum_image")
            t.check(len(r) == 1, lambda: "%s: %d signals" % (what, len(r)))
            same(t, r[0], reduced(full, ds, channels(sums, cut, hv)), ds, what)
        os.unlink(p)


EVENTS = [list(x) for n in range(1, 8) for x in [range(n), [15] * n, [(i * 5) % 16 for i in range(n)], [15 - i for i in range(n)]]]


def f_packing(t, c):
    """Every number of events, every block size, number of values, extreme value and base of instructed pixels."""
    px = []
    if c["kind"] in ("16", "12"):
        px = [(c["kind"], e) for e in EVENTS]
    else:
        size = c["size"]
        top = (1 << (4 * size)) - 1
        top = min(top, 0xFFFFFF)
        for n in range(1, 9):
            for v in ([top] * n, [i % 16 for i in range(n)], [(top - i) for i in range(n)]):
                for gain in {0, 1, 255, (1 << 8 * min(size, 3)) - 1 & 0xFFFFFF} if size > 1 else (0, 1, 255):
                    for skip in (0, 3, 7):
                        b = ([(0, skip, 0)] if skip else []) + [(size, v, gain)]
                        px.append(("i", b, [0, skip] if n % 2 else []))
    for k in range(0, len(px), 12):
        q = px[k:k + 12]
        q += [None] * (12 - len(q))
        p = t.path("p%d.bcf" % k)
        full = B.write(p, [q], (3, 4))[0]
        sums = sums_of(full)
        B.write(p, [q], (3, 4), sums=[sums])
        t.state(full.tobytes())
        for ds, fast in itertools.product((1, 2), (True, False)):
            what = "downsample=%d compiled=%s" % (ds, fast)
            t.op("%s %s" % (q, what))
            same(t, read(p, fast, downsample=ds, select_type="spectrum_image")[0], reduced(full, ds, B.N), ds, what)
        os.unlink(p)


def f_blocks(t, c):
    """Pixels at every position with respect to the blocks of the container."""
    shape = (4, 5)
    px = [PIX[(3 * i + c["seed"]) % len(PIX)] for i in range(20)]
    if c["seed"] % 2:
        px[-1] = ("16", [1] * c["pad"]) if c["pad"] else None
    p = t.path("b.bcf")
    full = B.write(p, [px], shape)[0]
    sums = sums_of(full)
    for block in c["blocks"]:
        if c["compressed"]:
            B.write(p, [px], shape, sums=[sums], compressed=True, block=block)
        else:
            B.write(p, [px], shape, sums=[sums], chunk=block + 32)
        for fast in (True, False):
            what = "blocks of %d, compiled=%s" % (block, fast)
            t.op(what)
            same(t, read(p, fast, select_type="spectrum_image")[0], full, 1, what)
        t.state(block, c["seed"], c["pad"])


def f_depth(t, c):
    """Counts around the limits of the types, summed over pixels."""
    h, w = c["shape"]
    v = c["value"]
    px = []
    for i in range(h * w):
        x = v - (i % 2 if c["vary"] and v > 1 else 0)
        s = 2 if x < 256 else 4 if x < 65536 else 8
        px.append(("i", [(0, 2, 0), (s, [x], 0)]))
    p = t.path("d.bcf")
    full = B.write(p, [px], (h, w))[0]
    t.state(h, w, v, c["vary"])
    for ds, fast, cut in itertools.product((1, 2, 3, 5), (True, False), (None, 5.0)):
        if ds > max(h, w) + 1:
            continue
        what = "downsample=%d compiled=%s cutoff_at_kV=%s" % (ds, fast, cut)
        t.op(what)
        r = read(p, fast, downsample=ds, cutoff_at_kV=cut, select_type="spectrum_image")[0]
        same(t, r, reduced(full, ds, 16 if cut is None else 11), ds, what)


def f_peak(t, c):
    """All counts in one pixel."""
    h, w = c["shape"]
    px = [None] * (h * w)
    s = 2 if c["value"] < 256 else 4 if c["value"] < 65536 else 8
    px[-1] = ("i", [(0, 2, 0), (s, [c["value"]], 0)])
    p = t.path("d.bcf")
    full = B.write(p, [px], (h, w))[0]
    t.op("read")
    t.state(h, w, c["value"])
    same(t, read(p, c["fast"], select_type="spectrum_image")[0], full, 1, "one pixel of %d" % c["value"])


def f_maps(t, c):
    """Several maps in one file, selected by index."""
    shape = (2, 3)
    maps = [[PIX[(i * (m + 2) + m + 1) % len(PIX)] for i in range(6)] for m in range(c["maps"])]
    p = t.path("m.bcf")
    fulls = B.write(p, maps, shape)
    sums = [sums_of(f) for f in fulls]
    calib = [(-0.5 - 0.25 * m, 0.5 + 0.25 * m) for m in range(c["maps"])]
    B.write(p, maps, shape, sums=sums, version=c["version"], compressed=c["compressed"], calib=calib)
    img = np.arange(1, 7).reshape(shape)
    for index, fast, lazy, sel, ds, cut in itertools.product([None, "all"] + list(range(c["maps"])), (True, False), (False, True), (None, "image", "spectrum_image"), (1, 2), (None, 3.0, "zealous")):
        what = "index=%s compiled=%s lazy=%s select_type=%s downsample=%d cutoff_at_kV=%s" % (index, fast, lazy, sel, ds, cut)
        t.op(what)
        r = read(p, fast, index=index, lazy=lazy, select_type=sel, downsample=ds, cutoff_at_kV=cut)
        idx = [] if sel == "image" else [0] if index is None else list(range(c["maps"])) if index == "all" else [index]
        im, si = [x for x in r if x["data"].ndim == 2], [x for x in r if x["data"].ndim == 3]
        t.check(len(im) == (sel != "spectrum_image") and len(si) == len(idx), lambda: "%s: %d images, %d maps" % (what, len(im), len(si)))
        for x in im:
            t.check(np.array_equal(x["data"], img), lambda: "%s: image" % what)
        for x, i in zip(si, idx):
            o, k = calib[i]
            same(t, x, reduced(fulls[i], ds, channels(sums[i], cut, 20.0, OFFSET=o, SCALE=k)), ds, what, OFFSET=o, SCALE=k)
    t.state(c["maps"], c["version"])
    for bad in (c["maps"], -1, 1.0, "x"):
        t.op("index=%r" % (bad,))
        try:
            A.file_reader(p, index=bad)
        except (IndexError, TypeError):
            continue
        t.fail("index=%r was accepted" % (bad,))


def blob(n, seed=0):
    i = np.arange(n, dtype=np.uint32)
    return ((i * 2654435761 + seed * 97 >> 13) ^ (i >> 3)).astype("u1").tobytes()


def f_container(t, c):
    """Files of every number of chunks around the capacity of the tables, in trees of every number of entries."""
    chunk, comp = c["chunk"], c["compressed"]
    use = chunk - 32
    sizes = [k * use + d for k in c["chunks"] for d in c["delta"] if k * use + d > 0]
    files = {"f%d" % i: blob(n, i) for i, n in enumerate(sizes)}
    for i in range(c["extra"]):
        files["x%d" % i] = blob(5 + i, 100 + i)
    if c["dirs"]:
        files["sub"] = None
        k = len(files)  # its place in the tree (the first entry is EDSDatabase)
        files[(k, "inner")] = blob(17, 7)
        files[(k, "deep")] = None
        files[(k + 2, "x0")] = blob(29, 8)
    p = t.path("c.sfs")
    B.sfs(p, files, chunk, comp, block=c.get("block", 700))
    t.op("open")
    r = A.SFS_reader(p)
    for name, data in files.items():
        if data is None:
            continue
        if isinstance(name, tuple):
            path = "EDSDatabase/sub/" + (name[1] if name[1] == "inner" else "deep/" + name[1])
        else:
            path = "EDSDatabase/" + name
        t.op("read " + path)
        it = r.get_file(path)
        got = it.get_as_BytesIO_string().getvalue()
        t.check(got == data, lambda: "%s of %d bytes (%d chunks) read as %d bytes, first difference at %s" % (
            path, len(data), -(-len(data) // use), len(got), next((i for i, (a, b) in enumerate(zip(got, data)) if a != b), None)))
        if not comp:
            edges = [e for k in {0, 1, len(data) // use} for e in (k * use - 1, k * use, k * use + 1) if 0 <= e <= len(data)]
            for a in edges:
                for b in edges:
                    if a < b:
                        t.check(it.read_piece(a, b - a) == data[a:b], lambda: "%s bytes %d to %d" % (path, a, b))
    t.state(c)


def parts(tier):
    deep = tier == "thorough"
    pix = [dict(shape=s, head=h) for s, d in [((1, 1), 0), ((1, 2), 0), ((2, 1), 0), ((1, 3), 1)] + ([((2, 2), 2), ((3, 1), 1)] if deep else [((2, 2), 4)])
           for h in itertools.product(range(len(PIX)), repeat=min(d, s[0] * s[1]))]
    if not deep:
        pix = [c for c in pix if len(c["head"]) < 4 or sum((i + 1) * x for i, x in enumerate(c["head"])) % 8 == 0]
    pk = [dict(kind="16"), dict(kind="12")] + [dict(kind="i", size=s) for s in (1, 2, 4, 8)]
    blk = []
    for comp in (False, True):
        lo = 0x1D0 if comp else 512
        sizes = list(range(lo, lo + (120 if deep else 60)))
        for seed in range(8 if deep else 4):
            for pad in (0, 1, 2, 3):
                if pad and not seed % 2:
                    continue
                for k in range(0, len(sizes), 15):
                    blk.append(dict(compressed=comp, seed=seed, pad=pad, blocks=sizes[k:k + 15]))
    big = [1000, 1024, 1500, 1536, 1600, 2048, 4064]
    blk.append(dict(compressed=False, seed=0, pad=0, blocks=big))
    dep = list(product(shape=[(1, 1), (2, 2), (3, 2), (5, 5), (4, 7)], value=[1, 7, 63, 64, 127, 128, 255, 256, 4095, 16383, 16384, 32767, 32768, 65535, 65536, 70000, 1 << 20], vary=[False, True]))
    cont = []
    for chunk in (544, 1056, 4096) if deep else (544, 4096):
        per = (chunk - 32) // 4
        for comp in (False, True):
            for near in ([1, 2], [per - 1], [per], [per + 1], [chunk // 4], [chunk // 4 + 1], [2 * per], [2 * per + 1], [3 * per + 1]):
                if chunk == 4096 and near[0] > chunk // 4 + 1:
                    continue
                for d in (-1, 0, 1):
                    cont.append(dict(chunk=chunk, compressed=comp, chunks=near, delta=[d], extra=1, dirs=False))
            for extra in range(0, 36 if deep else 20):
                for dirs in (False, True):
                    cont.append(dict(chunk=chunk, compressed=comp, chunks=[1], delta=[0], extra=extra, dirs=dirs))
    return [Part("container", cont, f_container, bounds="number of chunks around the capacity of one to three table chunks, trees of 1 to 20 entries, directories, compressed or not"),
        Part("pixels", pix, f_pixels, bounds="all assignments of %d packings to up to %d pixels" % (len(PIX), 4 if deep else 3), timeout=600),
        Part("packing", pk, f_packing, bounds="1-7 events; blocks of each size with 1-8 values, extreme values and bases", timeout=300),
        Part("blocks", blk, f_blocks, bounds="every block size in a range, so every alignment", timeout=300),
        Part("depth", dep, f_depth, bounds="counts around the limits of 8, 16 and 32 bits, downsampling 1, 2, 3, 5", timeout=120),
        Part("one pixel", list(product(shape=[(2, 2), (5, 5)], value=[50, 400, 70000], fast=[True, False])), f_peak, bounds="all counts in one pixel"),
        Part("maps", list(product(maps=[1, 2, 3], version=[1, 2], compressed=[False, True])), f_maps, bounds="1-3 maps in a file, all options", timeout=120)]
