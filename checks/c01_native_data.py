"""C01: hspy/zspy data and axes round trip."""
import itertools
import os

import numpy as np

from mc.core import Part, product
from mc.sig import *

PROPERTY = "C01"
ASSUMPTIONS = [
    "0-dimensional arrays, datetime arrays and numpy string arrays are outside the property: "
    "the writers refuse or document their conversion",
    "byte order of the dtype is not part of the property (values and native dtype are)"]

RGB = [("R", "u1"), ("G", "u1"), ("B", "u1")]
RGBA16 = [("R", "<u2"), ("G", "<u2"), ("B", "<u2"), ("A", "<u2")]
DTYPES = ["?", "i1", "u1", "<i2", ">i2", "<u2", ">u2", "<i4", ">i4", "<u4", ">u4",
          "<i8", ">i8", "<u8", ">u8", "<f2", ">f2", "<f4", ">f4", "<f8", ">f8",
          "<c8", ">c8", "<c16", ">c16", "g", RGB, RGBA16, [("a", "<i2"), ("b", ">f8")]]
SHAPES = [(1,), (3,), (1, 1), (2, 3), (1, 4), (3, 1), (2, 3, 4), (1, 2, 1), (2, 1, 3, 2)]
EMPTY = [(0,), (0, 3), (2, 0), (2, 0, 3)]
STORES = ["hspy", "zspy", "zspy-zip", "zspy-store"]


def plugin(store):
    from rsciio import hspy, zspy

    return hspy if store == "hspy" else zspy


def write(t, store, sig, **kw):
    fn = t.path("f." + store[:4])
    m = plugin(store)
    if store == "zspy-zip":
        kw["store_type"] = "zip"
    target = fn
    if store == "zspy-store":
        import zarr
        target = zarr.storage.DirectoryStore(fn) if not kw.pop("_mem", False) else zarr.storage.MemoryStore()
    t.op("write " + store)
    m.file_writer(target, sig, show_progressbar=False, **kw)
    return target


def read(t, store, fn, lazy, **kw):
    t.op("read lazy=%s" % lazy)
    r = plugin(store).file_reader(fn, lazy=lazy, **kw)
    t.check(len(r) == 1, lambda: "one signal written, %d read" % len(r))
    return r[0]


AXKEYS = ("size", "scale", "offset", "name", "units", "navigate", "is_binned", "_type")


def verify(t, store, fn, data, axes, lazies=(False, True), dtype="exact"):
    for lazy in lazies:
        r = read(t, store, fn, lazy)
        what = "%s lazy=%s" % (store, lazy)
        t.check(hasattr(r["data"], "__dask_keys__") == lazy, what + ": lazy flag not honoured")
        expect_array(t, data, r["data"], what, dtype)
        d = tree_diff([dict(a) for a in axes], [dict(a) for a in r["axes"]])
        t.check(d is None, lambda: what + ": axes " + str(d))
        t.check(r["attributes"]["_lazy"] == lazy, what + ": attributes._lazy")
        if lazy:
            import dask.array as da

            # each block alone gives the block of the whole
            for blk in itertools.product(*[range(n) for n in r["data"].numblocks]):
                if sum(r["data"].numblocks) > 40:
                    break
                t.op("compute block")
                sl = tuple(slice(sum(c[:i]), sum(c[:i + 1])) for i, c in zip(blk, r["data"].chunks))
                if data.dtype != object:
                    t.check(same_values(data[sl], compute(r["data"].blocks[blk])),
                            lambda: what + ": block %s differs from the whole" % (blk,))


def f_dtype(t, c):
    data = layout(fill(c["shape"], c["dtype"]), c["layout"])
    n = data.ndim
    src = data
    if c["src"] == "dask":
        import dask.array as da
        src = da.from_array(data, chunks=c.get("chunks", -1))
    sig = signal(src, nsig=min(n, c.get("nsig", 1)))
    before = snapshot(data)
    fn = write(t, c["store"], sig)
    t.check(same_values(before, data), "writing changed the source array")
    verify(t, c["store"], fn, np.asarray(data), sig["axes"])


def f_chunks(t, c):
    import dask.array as da
    data = layout(fill(c["shape"], c["dtype"]), c.get("layout", "C"))
    src = da.from_array(data, chunks=c["src"]) if c["src"] else data
    sig = signal(src, nsig=c["nsig"])
    kw = dict(c.get("kw", {}))
    if c["chunks"]:
        kw["chunks"] = c["chunks"]
    fn = write(t, c["store"], sig, **kw)
    verify(t, c["store"], fn, data, sig["axes"])


def f_axes(t, c):
    shape = c["shape"]
    data = fill(shape, "<i4")
    axes = []
    for i, (k, s) in enumerate(zip(c["kinds"], shape)):
        nav = i < c["nnav"]
        if k == "uniform":
            a = uaxis(s, nav, "ax%d" % i, "µm", 0.25 * (i + 1), -3.5 * i)
        elif k == "bare":
            a = uaxis(s, nav)
        elif k == "int":
            a = uaxis(s, nav, "n/a", "", 2, -3, is_binned=True)
        elif k == "np":
            a = uaxis(s, nav, "np", "nm", np.float32(0.1), np.float64(-0.1))
        elif k == "data":
            a = dict(_type="DataAxis", name="d", units="eV", navigate=nav, is_binned=False,
                     axis=np.arange(s) ** 2 + 0.5)
        elif k == "func":
            a = dict(_type="FunctionalDataAxis", name="f", units="eV", navigate=nav, is_binned=False,
                     expression="a * x + b", parameters=None, a=3.0, b=0.5,
                     x=uaxis(s, nav, "x", None, 0.5, 1.0), size=s)
            a.pop("parameters")
        axes.append(a)
    sig = signal(data, axes=axes)
    fn = write(t, c["store"], sig)
    verify(t, c["store"], fn, data, axes)


def ragged(shape, inner, kind):
    out = np.empty(shape, object)
    for j, i in enumerate(np.ndindex(*shape)):
        m = inner[j % len(inner)]
        if kind == "str":
            out[i] = np.array(["w%d_%d" % (j, q) for q in range(int(np.prod(m)))], dtype="U6").reshape(m)
        else:
            out[i] = (np.arange(int(np.prod(m))) + 10 * j).astype(kind).reshape(m)
    return out


def f_ragged(t, c):
    import dask.array as da
    data = ragged(c["shape"], c["inner"], c["kind"])
    for i in np.ndindex(*c["shape"]):
        data[i] = layout(data[i], c.get("layout", "C"))
    src = data
    if c["src"]:
        src = da.from_array(data, chunks=c["src"])
    n = len(c["shape"])
    axes = axes_for(c["shape"], 0)
    sig = signal(src, axes=axes)
    sig["attributes"]["ragged"] = True
    refused = c["store"] == "hspy" and c["src"] and n == 1
    try:
        fn = write(t, c["store"], sig)
    except ValueError as e:
        t.check(refused, lambda: "ragged write refused: %s" % e)
        t.state("refused", c["store"])
        return
    for lazy in (False, True):
        r = read(t, c["store"], fn, lazy)
        got = compute(r["data"])
        t.state(lazy, got)
        t.check(got.shape == data.shape and got.dtype == object, "ragged shape/dtype")
        for i in np.ndindex(*data.shape):
            t.check(isinstance(got[i], np.ndarray) and same_values(data[i], got[i]),
                    lambda: "lazy=%s element %s: expected %r got %r" % (lazy, i, data[i], got[i]))
            if c["kind"] == "str":
                t.check(np.asarray(got[i]).dtype.kind == "U", "string element kind")
            else:
                t.check(got[i].dtype == data[i].dtype, lambda: "lazy=%s element %s dtype %s -> %s" % (
                    lazy, i, data[i].dtype, got[i].dtype))
        d = tree_diff(axes, [dict(a) for a in r["axes"]])
        t.check(d is None, lambda: "axes " + str(d))


def parts(tier):
    th = tier == "thorough"
    out = []
    out.append(Part("dtypes", product(
        store=STORES if th else STORES[:3], dtype=DTYPES, layout=["C"], src=["numpy", "dask"],
        shape=SHAPES if th else [(1,), (3,), (2, 3), (1, 2, 1), (2, 3, 4)]),
        f_dtype, "all numeric/bool/structured dtypes in both byte orders x shapes x numpy/dask"))
    out.append(Part("layouts", product(
        store=STORES[:3], layout=LAYOUTS, dtype=["u1", "<i4", ">f8", "<c8", RGB] if not th else DTYPES,
        shape=[(4,), (3, 2), (2, 3, 4), (2, 1, 3, 2)], src=["numpy", "dask"],
        nsig=[1, 2] if th else [1]), f_dtype, "memory layouts"))
    out.append(Part("empty", product(
        store=STORES[:3], dtype=["u1", "<f8", ">i4"], layout=["C"], src=["numpy", "dask"], shape=EMPTY),
        f_dtype, "arrays without elements"))
    cases = []
    shapes = [(5,), (3, 4), (2, 3, 4)] + ([(7, 3), (3, 1, 5), (2, 3, 2, 3)] if th else [])
    for store in STORES[:3]:
        for sh in shapes:
            for nsig in range(0, min(3, len(sh)) + 1):
                srcs = [None] + chunkings(sh)
                for src in srcs:
                    for ch in [None, True] + chunkings(sh):
                        if not th and src and ch and ch is not True and (sum(src) + sum(ch)) % 3:
                            continue
                        cases.append(dict(store=store, shape=sh, nsig=nsig, src=src, chunks=ch, dtype="<i4"))
    # irregular dask chunks
    for store in STORES[:3]:
        for sh, irr in (((5,), ((1, 3, 1),)), ((5,), ((3, 1, 1),)), ((5, 4), ((1, 4), (3, 1))),
                        ((5, 4), ((4, 1), (1, 1, 2))), ((2, 7), ((1, 1), (2, 4, 1))), ((4,), ((0, 3, 1),)),
                        ((3, 4), ((3,), (0, 4)))):
            for ch in (None, True):
                for lay in ("C", "F"):
                    cases.append(dict(store=store, shape=sh, nsig=1, src=irr, chunks=ch, dtype=">u2", layout=lay))
    out.append(Part("chunks", cases, f_chunks, "signal dimension x dask chunks x chunks option"))
    # automatic chunk planning: sizes around the 1 MB / 100 MB targets
    big = []
    for store, shs in (("hspy", [(3, 1000, 700), (5, 7, 100, 100), (11, 13, 61, 53), (2, 300, 40, 30),
                                  (1, 501, 1000), (997, 1009), (2, 3, 5, 7, 80, 90), (1200001,), (3, 1200001)]),
                       ("zspy", [(5, 7, 100, 100), (2, 3, 5, 7, 80, 90)])):
        for sh in shs:
            for nsig in (0, 1, 2) + ((3,) if len(sh) > 2 else ()):
                if nsig <= len(sh):
                    for dt in ("u1", "<f8") if th else ("u1",):
                        big.append(dict(store=store, shape=sh, nsig=nsig, src=None, chunks=None, dtype=dt))
    out.append(Part("autochunks", big, f_chunks, "sizes around the chunk-size targets"))
    comp = [dict(store="hspy", shape=sh, nsig=1, src=src, chunks=None, dtype=dt, kw=kw)
            for sh in ((3,), (3, 4)) for src in (None, (2,) * len(sh)) for dt in ("u1", ">f4", RGB)
            for kw in ({"compression": None}, {"compression": "gzip", "compression_opts": 9},
                       {"compression": "lzf"}, {"shuffle": False}, {"compression": None, "shuffle": False},
                       {"fletcher32": True}, {"close_file": True})]
    import numcodecs
    comp += [dict(store=st, shape=sh, nsig=1, src=src, chunks=None, dtype=dt, kw={"compressor": co})
             for st in ("zspy", "zspy-zip") for sh in ((3,), (3, 4)) for src in (None, (2,) * len(sh))
             for dt in ("u1", ">f4", RGB)
             for co in (None, numcodecs.Zlib(1), numcodecs.Blosc("lz4", 5, 0), numcodecs.Zstd(3))]
    out.append(Part("compression", comp, f_chunks, "compression options"))
    ax = []
    kinds = ["uniform", "bare", "int", "np", "data", "func"]
    for store in STORES[:2]:
        for n in (1, 2, 3):
            for ks in itertools.product(kinds, repeat=n):
                if n == 3 and not th and len(set(ks)) < 2:
                    continue
                for nnav in range(n + 1) if (th or n < 3) else (n - 1,):
                    ax.append(dict(store=store, shape=(2, 3, 4)[:n], kinds=ks, nnav=nnav))
        for n in (9, 11, 12):
            ax.append(dict(store=store, shape=(1, 2) + (1,) * (n - 3) + (2,), kinds=("uniform",) * n, nnav=n - 2))
    out.append(Part("axes", ax, f_axes, "axis kinds in every position, 1-12 dimensions"))
    rg = []
    for store in STORES[:3] if th else STORES[:2]:
        for sh in ((1,), (3,), (2, 3), (2, 1, 2)):
            for kind in ("<i4", "<f8", "u1", "<f4", "?", "str"):
                for inner in ([(2,)], [(1,), (3,), (2,)], [(2, 2), (3, 2)], [(2,), (1, 2)], [(3,), (0,)]):
                    for src in (None, -1, 1):
                        if kind == "str" and (src or (0,) in inner):
                            continue  # lazy ragged strings are refused by both writers
                        rg.append(dict(store=store, shape=sh, kind=kind, inner=inner, src=src))
                        if inner in ([(2, 2), (3, 2)], [(1,), (3,), (2,)]) and kind != "str" and (th or kind == "<i4"):
                            for lay in LAYOUTS:
                                if lay != "C":
                                    rg.append(dict(store=store, shape=sh, kind=kind, inner=inner, src=src, layout=lay))
    out.append(Part("ragged", rg, f_ragged, "object arrays of arrays"))
    return out
