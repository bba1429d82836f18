"""C11: memmap_distributed against one plain memory map of the whole file."""
import itertools
import os

import numpy as np

from mc.core import Part, Skip, product
from mc.sig import *

PROPERTY = "C11"
ASSUMPTIONS = [
    "position lists are used with plain dtypes and the two frame axes unchunked (the function "
    "refuses other chunk specifications)",
    "dask may exceed the block-size limit by its documented tolerance of 1.25 and never splits "
    "below one element per axis"]
SDT = {
    "frames": [("data", "<u2", (2, 3)), ("sec", "<u4")],
    "head": [("h", "S5"), ("data", ">i4", (3,)), ("pad", "u1")],
    "scalar": [("x", "u1"), ("data", "<f4"), ("z", "<u8")],
    "cube": [("sec", "u1"), ("data", "<i2", (2, 2, 2))],
    "sub": [("i", "<u2"), ("data", [("a", "u1"), ("b", "<f8")])],
}


def fn():
    from rsciio.utils import file

    return file.memmap_distributed


def make_file(t, offset, dtype, count, tail=7):
    dt = np.dtype(dtype)
    p = t.path("m.bin")
    n = dt.itemsize * count
    body = (np.arange(n, dtype=np.uint64) * 167 + 13).astype(np.uint8).tobytes()
    if dt.kind == "f":
        body = (np.arange(count) * 1.5 - 4).astype(dt).tobytes()
    elif dt.kind == "c":
        body = (np.arange(count) * (1.5 - 2j)).astype(dt).tobytes()
    elif dt.names:
        a = np.frombuffer(body, dt, count).copy()
        for k in dt.names:
            f = a[k]
            if f.dtype.kind == "f":
                f[...] = (np.arange(f.size) * 0.5).reshape(f.shape)
            elif f.dtype.kind == "V":
                f["b"] = np.arange(f["b"].size).reshape(f["b"].shape)
        body = a.tobytes()
    with open(p, "wb") as f:
        f.write(b"\xee" * offset + body + b"\xdd" * tail)
    return p


def plan_ok(t, what, got, shape, chunks, limit, itemsize):
    import dask

    ch = got.chunks
    t.check(tuple(sum(c) for c in ch) == tuple(shape) and all(x >= 0 for c in ch for x in c),
            lambda: "%s: chunks %s do not partition %s" % (what, ch, shape))
    spec = chunks
    if isinstance(spec, (int, np.integer)) or spec == "auto":
        spec = (spec,) * len(shape)
    auto = []
    for i, (s, c) in enumerate(zip(spec, ch)):
        if isinstance(s, str):
            auto.append(i)
        elif isinstance(s, tuple):
            t.check(tuple(c) == s, lambda: "%s: axis %d chunks %s requested %s" % (what, i, c, s))
        elif s in (-1, None):
            t.check(tuple(c) == (shape[i],), lambda: "%s: axis %d chunks %s requested whole" % (what, i, c))
        else:
            k = min(s, shape[i])
            exp = (k,) * (shape[i] // k) + ((shape[i] % k,) if shape[i] % k else ())
            t.check(tuple(c) == exp, lambda: "%s: axis %d chunks %s requested %s" % (what, i, c, s))
    if auto and limit is not None:
        big = np.prod([max(c) for c in ch]) * itemsize
        t.check(big <= 1.25 * limit or all(max(ch[i]) == 1 for i in auto),
                lambda: "%s: block of %d bytes for a limit of %d" % (what, big, limit))


def blocks_ok(t, what, want, got):
    """every block computed alone, then the whole"""
    t.check(got.shape == want.shape, lambda: "%s: shape %s expected %s" % (what, got.shape, want.shape))
    t.check(got.dtype == want.dtype, lambda: "%s: dtype %s expected %s" % (what, got.dtype, want.dtype))
    starts = [np.concatenate([[0], np.cumsum(c)]).astype(int) for c in got.chunks]
    for blk in itertools.product(*[range(n) for n in got.numblocks]):
        sl = tuple(slice(int(s[i]), int(s[i + 1])) for s, i in zip(starts, blk))
        t.op("compute block")
        b = compute(got.blocks[blk])
        t.check(same_values(want[sl], b),
                lambda: "%s: block %s: %s" % (what, blk, describe(want[sl], b)))
    t.op("compute whole")
    w = compute(got)
    t.state(w)
    t.check(same_values(want, w) and w.dtype == want.dtype, lambda: "%s: %s" % (what, describe(want, w)))
    # any computation through the dask graph: a slice and a reversed order
    if want.ndim:
        s = compute(got[::-1])
        t.check(same_values(want[::-1], s), lambda: what + ": reversed slice differs")


def f_plain(t, c):
    shape, dt = tuple(c["shape"]), np.dtype(c["dtype"])
    count = int(np.prod(shape))
    p = make_file(t, c["offset"], dt, count)
    want = np.array(np.memmap(p, dt, "r", offset=c["offset"], shape=shape, order=c["order"]))
    t.op("memmap_distributed")
    kw = {} if c.get("limit") is None else {"block_size_limit": c["limit"]}
    got = fn()(p, dt, offset=c["offset"], shape=shape, order=c["order"], chunks=c["chunks"], **kw)
    plan_ok(t, "plan", got, shape, c["chunks"], c.get("limit"), dt.itemsize)
    blocks_ok(t, "plain", want, got)


def f_struct(t, c):
    shape, dt = tuple(c["shape"]), np.dtype(SDT[c["dt"]])
    count = int(np.prod(shape))
    p = make_file(t, c["offset"], dt, count)
    ref = np.memmap(p, dt, "r", offset=c["offset"], shape=shape, order=c["order"])
    for key in dt.names:
        want = np.array(ref[key])
        if want.dtype.kind == "V" and c["order"] == "F":
            continue
        ch = c["chunks"]
        if isinstance(ch, tuple):
            ch = (ch * 5)[:want.ndim]
        t.op("memmap_distributed key=" + key)
        got = fn()(p, dt, offset=c["offset"], shape=shape, order=c["order"], chunks=ch, key=key)
        plan_ok(t, "plan " + key, got, want.shape, ch, None, want.dtype.itemsize)
        blocks_ok(t, "field " + key, want, got)


def f_noshape(t, c):
    dt = np.dtype(c["dtype"])
    p = make_file(t, c["offset"], dt, c["n"], tail=0)
    want = np.fromfile(p, dt, offset=c["offset"])
    t.op("memmap_distributed")
    got = fn()(p, dt, offset=c["offset"], chunks=c["chunks"])
    blocks_ok(t, "no shape", want, got)
    got = fn()(p, dt, offset=c["offset"], shape=c["n"], chunks=c["chunks"])
    blocks_ok(t, "integer shape", want, got)


def f_positions(t, c):
    nav, sig, dt = c["nav"], c["sig"], np.dtype(c["dtype"])
    pos = [tuple(p) for p in c["pos"]]
    nf = len(pos)
    p = make_file(t, c["offset"], dt, nf * int(np.prod(sig)))
    frames = np.array(np.memmap(p, dt, "r", offset=c["offset"], shape=(nf,) + sig))
    want = np.zeros(nav + sig, dt)
    for i, q in enumerate(pos):
        want[q] = frames[i]
    t.op("memmap_distributed positions")
    arg = np.array(pos) if c["as"] == "array" else [list(q) for q in pos]
    got = fn()(p, dt, positions=arg, offset=c["offset"], shape=nav + sig, chunks=c["chunks"])
    if c["chunks"] != "auto":
        plan_ok(t, "plan", got, nav + sig, c["chunks"], None, dt.itemsize)
    t.check(tuple(sum(x) for x in got.chunks) == nav + sig, "positions: chunks do not partition the shape")
    blocks_ok(t, "positions", want, got)


def f_struct_positions(t, c):
    """Frames which are a field of a structured dtype, at arbitrary positions."""
    nav, pos = c["nav"], c["pos"]
    dt = np.dtype([("head", "u1", (3,)), ("data", c["dtype"], (2, 3)), ("tail", "<u2")]) if c["kind"] == "frame" else np.dtype(
        [("data", c["dtype"], (2,)), ("tail", "u1")])
    extra = () if c["kind"] == "frame" else (3,)
    nf = len(pos)
    p = make_file(t, c["offset"], dt, nf * int(np.prod(extra, dtype=int)))
    frames = np.array(np.memmap(p, dt, "r", offset=c["offset"], shape=(nf,) + extra)["data"])
    want = np.zeros(nav + frames.shape[1:], frames.dtype)
    for i, q in enumerate(pos):
        want[tuple(q)] = frames[i]
    t.op("memmap_distributed structured positions")
    got = fn()(p, dt, positions=[list(q) for q in pos], offset=c["offset"], shape=nav + extra, chunks=c["chunks"], key="data")
    blocks_ok(t, "structured positions", want, got)


def specs(shape, th):
    """chunk specifications: auto, ints, whole, mixed and explicit tuples."""
    out = ["auto", 1, 2, -1]
    per = []
    for s in shape:
        o = [1, -1, "auto"]
        if s > 2:
            o.append(2)
            o.append((1, s - 1))
        if s > 3 and th:
            o.append((s - 2, 2))
        per.append(o)
    out += list(itertools.product(*per))
    # every way to cut the axes
    cuts = list(itertools.product(*[compositions(s) for s in shape]))
    if len(cuts) <= (600 if th else 40):
        out += [c for c in cuts if c not in out]
    return out


def compositions(n):
    """every way to cut a length into blocks"""
    return [tuple(np.diff([0] + [i + 1 for i in range(n - 1) if m >> i & 1] + [n]).tolist()) for m in range(2 ** (n - 1))]


def parts(tier):
    th = tier == "thorough"
    out = []
    shapes = [(1,), (5,), (6,), (2, 3), (1, 4), (3, 4), (2, 3, 4), (1, 1, 3), (2, 1, 3, 2)] + (
        [(4, 3), (3, 1, 5), (2, 2, 2, 3), (2, 1, 2, 1, 3)] if th else [])
    cs = []
    for sh in shapes:
        for k, ch in enumerate(specs(sh, th)):
            for order in "CF":
                for off in (0, 3):
                    cs.append(dict(shape=sh, dtype=("<i2", ">f4")[k % 2], offset=off, order=order, chunks=ch))
    out.append(Part("chunks", cs, f_plain, "shape x order x offset x every chunk specification per axis"))
    out.append(Part("dtypes", product(shape=[(2, 3)], dtype=["?", "u1", "i1", "<u2", ">u2", "<i4", ">i4", "<u8", "<f4",
                                                              ">f8", "<c8", "S3"], offset=[0, 1, 512, 4097], order="CF",
                                      chunks=["auto", 1, (1, -1)]), f_plain, "dtype x offset (beyond a memory page)"))
    lim = [dict(shape=sh, dtype=dt, offset=2, order="C", chunks=ch, limit=l)
           for sh in [(6, 7), (3, 8, 8), (2, 3, 8, 8)] for dt in ("u1", "<f4", "<f8")
           for l in (1, 16, 64, 200, 1000, "64B", "1kB")
           for ch in ["auto", ("auto",) * (len(sh) - 1) + (-1,), ("auto",) * (len(sh) - 2) + (2, -1)]
           if not isinstance(l, str)]
    out.append(Part("limits", lim, f_plain, "block-size limit x auto chunks"))
    out.append(Part("structured", product(shape=[(4,), (2, 3), (1, 2, 2)], dt=list(SDT), offset=[0, 5], order="CF",
                                          chunks=["auto", 1, 2, -1, (1, 2), (2, -1), (-1, 1), ("auto", 1)]),
                    f_struct, "fields with sub-arrays x chunk specifications"))
    out.append(Part("no-shape", product(dtype=["u1", "<f4", ">i2"], n=[1, 2, 7], offset=[0, 1, 4, 8, 13], chunks=["auto", 1, 2, -1]), f_noshape,
                    "shape taken from the file size"))
    sp = [dict(kind=k, nav=nav, pos=[list(q) for q in seq], dtype=d, offset=o, chunks="auto") for k in ("frame", "line") for d in ("u1", "<u2", "<f4") for o in (0, 5)
          for nav in ((2,), (3,), (2, 2), (1, 3)) for n in range(1, int(np.prod(nav)) + 1)
          for seq in itertools.permutations(list(np.ndindex(nav)), n)]
    out.append(Part("structured-positions", sp, f_struct_positions, "fields of structured dtypes x every ordered list of positions"))
    ps = []
    navs = [(2,), (3,), (1,), (2, 2), (1, 3), (3, 1)] + ([(2, 3)] if th else [])
    for nav in navs:
        cells = list(itertools.product(*[range(n) for n in nav]))
        seqs = list(itertools.permutations(cells)) if len(cells) <= 4 else [tuple(cells), tuple(cells[::-1]), tuple(cells[1:] + cells[:1])]
        seqs += [x for r in range(1, len(cells)) for x in itertools.permutations(cells, r)] if len(cells) <= 4 else [
            tuple(cells[:3]), tuple(cells[2:])]
        if len(cells) <= 3 or th and len(cells) <= 4:
            seqs += [x for x in itertools.product(cells, repeat=len(cells)) if len(set(x)) < len(x)]
        navch = ["auto"] + [tuple(k) + (-1, -1) for k in itertools.product(*[sorted({1, n, "auto"}, key=str) for n in nav])]
        for pos in dict.fromkeys(seqs):
            for ch in navch:
                ps.append(dict(nav=nav, sig=(2, 3), dtype="<u2", pos=pos, chunks=ch, offset=3, **{"as": "array"}))
    for pos in [((1, 1), (0, 0)), ((0, 1), (1, 0), (0, 0), (1, 1))]:
        for dt in ("u1", ">i2", "<f4", "<c8"):
            for sig in ((1, 1), (1, 3), (3, 2)):
                ps.append(dict(nav=(2, 2), sig=sig, dtype=dt, pos=pos, chunks="auto", offset=0, **{"as": "list"}))
    out.append(Part("positions", ps, f_positions, "every order, subset and repetition of scan positions x chunks"))
    return out
