"""C17: spectrum streams of Velox EMD files, for every frame range and option."""
import itertools

import numpy as np

from mc import velox
from mc.core import Part, product
from mc.sig import *

PROPERTY = "C17"
ASSUMPTIONS = [
    "a number below the number of channels is an event, 65535 ends a pixel; the last mark of a stream may be left out",
    "counts fit the type which is asked for",
    "the channels of a rebinned spectrum are those of the sum of adjacent ones; the offset of its axis is not claimed",
    "without a number of frames in the file, images have at least two pixels"]
MARK = 65535


def M():
    from rsciio.emd import file_reader

    return file_reader


def decode(stream, shape, nch, frames):
    """The counts a stream encodes: (frame, y, x, channel)."""
    n = shape[0] * shape[1]
    out = np.zeros((frames, n, nch), "i8")
    k = 0
    for v in stream:
        if v == MARK:
            k += 1
        elif k < frames * n:
            out[k // n, k % n, v] += 1
    return out.reshape((frames,) + tuple(shape) + (nch,))


def reduced(full, first, last, sum_frames, rebin):
    x = full[first:last]
    if sum_frames:
        x = x.sum(0)
    return x.reshape(x.shape[:-1] + (x.shape[-1] // rebin, rebin)).sum(-1)


def expect(t, sig, want, dtype, c, what):
    a = compute(sig["data"])
    t.check(isinstance(a, np.ndarray), lambda: "%s: %s" % (what, type(a)))
    t.check(a.shape == want.shape, lambda: "%s: shape %s, expected %s" % (what, a.shape, want.shape))
    t.check(np.array_equal(a, want), lambda: "%s: %s, expected %s" % (what, describe(a, want), ""))
    if dtype is not None:
        t.check(a.dtype == np.dtype(dtype), lambda: "%s: dtype %s, expected %s" % (what, a.dtype, dtype))
    t.check([x["size"] for x in sig["axes"]] == list(want.shape), lambda: "%s: axes of sizes %s" % (what, [x["size"] for x in sig["axes"]]))
    t.check([bool(x["navigate"]) for x in sig["axes"]] == [True] * (want.ndim - 1) + [False], lambda: "%s: navigation axes" % what)
    e = sig["axes"][-1]
    t.check(abs(e["scale"] - 0.01 * c.get("rebin", 1)) < 1e-9, lambda: "%s: scale of the energies %s" % (what, e["scale"]))


def ranges(frames):
    return [(a, b) for a in range(frames) for b in [None] + list(range(a + 1, frames + 1))]


def read(t, p, o, what):
    t.op(what)
    return M()(p, **o)


def f_stream(t, c):
    shape, frames = tuple(c["shape"]), c["frames"]
    n = shape[0] * shape[1]
    for k, px in enumerate(itertools.product(c["pixels"], repeat=n * frames - len(c["head"]))):
        px = list(c["head"]) + list(px)
        s = velox.encode(px)
        tail = ("mark", "bare", "more")[k % 3]
        if tail == "bare":
            s = s[:-1]
        elif tail == "more":
            s = s + [2]
        if not s:
            continue
        p = t.path("s%d.emd" % k)
        velox.write(p, [s], shape, 4, frames=frames if c["stated"] else None, version=c["version"])
        full = decode(s, shape, 4, frames)
        t.state(full.tobytes(), tail)
        for (a, b), sf, rebin, lazy in itertools.product(ranges(frames), (True, False), (1, 2, 4), (False, True)):
            o = dict(first_frame=a, last_frame=b, sum_frames=sf, rebin_energy=rebin, lazy=lazy, select_type="spectrum_image")
            what = "%s %s" % (s, o)
            r = read(t, p, o, what)
            t.check(len(r) == 1, lambda: "%s: %d signals" % (what, len(r)))
            expect(t, r[0], reduced(full, a, b, sf, rebin), "u2", dict(rebin=rebin), what)
            r = None


def pattern(n, seed, nch):
    """Pixels with different events: none, one, several and repeated ones, out of order."""
    out = []
    for i in range(n):
        k = (i * 7 + seed * 3) % 11
        out.append([(k + j * j + seed) % nch for j in range(k % 4)] + [seed % nch] * (i % 3))
    return out


def f_file(t, c):
    shape, frames, nd, nch = tuple(c["shape"]), c["frames"], c["detectors"], c["channels"]
    n = shape[0] * shape[1]
    streams = [velox.encode(pattern(n * frames, d, nch)) for d in range(nd)]
    if c["bare"]:
        streams = [s[:-1] for s in streams]
    fulls = [decode(s, shape, nch, frames) for s in streams]
    p = t.path("a.emd")
    velox.write(p, streams, shape, nch, frames=frames if c["stated"] else None, version=c["version"], images=2, stack=frames)
    t.state(shape, frames, nd, nch)
    rebins = [r for r in (1, 2, 3, 4, 8) if nch % r == 0]
    for (a, b), sf, rebin, lazy, sd, dt in itertools.product(ranges(frames), (True, False), rebins, (False, True), (True, False), (None, "u1", "u4", "f4")):
        if dt is not None and (rebin != rebins[-1] or (a, b) not in ((0, None), (frames - 1, frames))):
            continue
        o = dict(first_frame=a, last_frame=b, sum_frames=sf, rebin_energy=rebin, lazy=lazy, sum_EDS_detectors=sd, SI_dtype=dt)
        si = ("select_type", "images")[0]
        sel = (None, "spectrum_image")[(a + rebin) % 2]
        what = "%s %s" % (o, sel)
        r = read(t, p, dict(o, select_type=sel), what)
        im, r = [x for x in r if x["data"].ndim == 2], [x for x in r if x["data"].ndim > 2]
        t.check(len(im) == (0 if sel else 2), lambda: "%s: %d images" % (what, len(im)))
        t.check(len(r) == (1 if sd else nd), lambda: "%s: %d spectrum images" % (what, len(r)))
        if sd:
            expect(t, r[0], reduced(sum(fulls), a, b, sf, rebin), dt or "u2", dict(rebin=rebin), what)
        else:
            for i, (x, full) in enumerate(zip(r, fulls)):
                expect(t, x, reduced(full, a, b, sf, rebin), dt or "u2", dict(rebin=rebin), "%s detector %d" % (what, i))
        om = r[0]["original_metadata"]["ImportedDataParameter"]
        t.check((om["First_frame"], om["Last_frame"], om["Rebin_energy"]) == (a, frames if b is None else b, rebin), lambda: "%s: %s" % (what, om))
        r = None
    # stacks of images do not change the spectrum image
    for lazy, st in product(lazy=[False, True], st=[False, True]) and itertools.product((False, True), (False, True)):
        what = "load_SI_image_stack=%s lazy=%s" % (st, lazy)
        r = read(t, p, dict(load_SI_image_stack=st, lazy=lazy), what)
        for i in range(2):
            a = np.arange(n * frames).reshape((frames,) + shape) + 7 * i
            want = a if st and frames > 1 else a[0]
            t.check(np.array_equal(compute(r[i]["data"]), want), lambda: "%s: image %d" % (what, i))
        expect(t, r[2], reduced(sum(fulls), 0, None, True, 1), "u2", {}, what)
        r = None
    if not c["stated"]:
        return
    for o in (dict(last_frame=frames + 1), dict(rebin_energy=nch - 1 if nch > 2 else 3)):
        t.op("refused %s" % o)
        try:
            M()(p, **o)
        except ValueError:
            continue
        t.fail("%s was accepted" % o)


def f_survey(t, c):
    """Images of another shape in the file do not change the spectrum image."""
    shape = (2, 3)
    s = velox.encode(pattern(12, 1, 4))
    p = t.path("a.emd")
    velox.write(p, [s], shape, 4, frames=2, images=2, shapes={c["which"]: tuple(c["other"])})
    want = reduced(decode(s, shape, 4, 2), 0, None, True, 1)
    for lazy in (False, True):
        r = read(t, p, dict(lazy=lazy, select_type=c["select"]), "lazy=%s" % lazy)
        expect(t, r[-1], want, "u2", {}, "lazy=%s" % lazy)


def f_func(t, c):
    """Every sequence of events and marks."""
    from rsciio.utils._fei_stream_readers import array_to_stream, stream_to_array, stream_to_sparse_COO_array

    shape = tuple(c["shape"])
    n = shape[0] * shape[1]
    for rest in itertools.product((0, 1, 3, MARK), repeat=c["length"] - len(c["head"])):
        s = list(c["head"]) + list(rest)
        arr = np.array(s, "u2")
        gates = s.count(MARK)
        frames = max(1, -(-gates // n))
        full = decode(s, shape, 4, frames)
        for (a, b), sf, rebin in itertools.product(ranges(frames), (True, False), (1, 2)):
            b = frames if b is None else b
            want = reduced(full, a, b, sf, rebin)
            kw = dict(spatial_shape=shape, channels=4, first_frame=a, last_frame=b, rebin_energy=rebin, sum_frames=sf)
            t.op("%s %s" % (s, kw))
            got = stream_to_array(arr, dtype="uint16", **kw)
            t.check(got.shape == want.shape and np.array_equal(got, want), lambda: "dense %s %s: %s" % (s, kw, got.tolist()))
            if c["sparse"]:
                got = stream_to_sparse_COO_array(arr, **kw).compute()
                got = got.todense() if hasattr(got, "todense") else got
                t.check(got.shape == want.shape and np.array_equal(got, want), lambda: "sparse %s %s: %s" % (s, kw, got.tolist()))
        t.state(full.tobytes())


def f_encode(t, c):
    """array_to_stream is inverted by both readers."""
    from rsciio.utils._fei_stream_readers import array_to_stream, stream_to_array, stream_to_sparse_COO_array

    shape = tuple(c["shape"])
    size = int(np.prod(shape))
    for v in itertools.product((0, 1, 2), repeat=size):
        a = np.array(v, "u2").reshape(shape)
        if not a.any() and shape[:-1] == (1, 1, 1):
            continue
        t.op("%s" % a.tolist())
        t.state(a.tobytes())
        s = array_to_stream(a)
        kw = dict(spatial_shape=shape[1:3], channels=shape[3], first_frame=0, last_frame=shape[0], sum_frames=False)
        x = stream_to_array(s, **kw)
        t.check(np.array_equal(x, a), lambda: "dense %s read as %s" % (a.tolist(), x.tolist()))
        if a.any():
            y = stream_to_sparse_COO_array(s, **kw).compute()
            y = y.todense() if hasattr(y, "todense") else y
            t.check(np.array_equal(y, a), lambda: "sparse %s read as %s" % (a.tolist(), y.tolist()))


def prepare(scratch):
    import dask
    import h5py, numba, sparse  # noqa: F401, E401

    dask.config.set(scheduler="sync")
    p = scratch + "/warm.emd"
    velox.write(p, [[0, MARK, 1, MARK, 2]], (1, 2), 4, frames=2)
    for sf, lazy, dt in itertools.product((True, False), (False, True), (None, "u1", "u4", "f4")):
        if lazy and dt:
            continue
        r = M()(p, sum_frames=sf, lazy=lazy, SI_dtype=dt)
        for s in r:
            compute(s["data"])


def parts(tier):
    deep = tier == "thorough"
    st = []
    P = [(), (0,), (1, 1), (3, 0)] + ([(2,), (0, 3, 0)] if deep else [])
    for shape, frames in [((1, 2), 2), ((2, 1), 2), ((2, 2), 1), ((1, 1), 3)] + ([((1, 2), 3), ((3, 1), 2)] if deep else []):
        n = shape[0] * shape[1] * frames
        h = max(0, n - 2)
        for k, head in enumerate(itertools.product(P, repeat=h)):
            st.append(dict(shape=shape, frames=frames, head=head, pixels=P, stated=k % 2 == 0 or shape == (1, 1), version=("10", "11")[k // 2 % 2]))
    if deep:
        st = st[:3000]
    files = list(product(shape=[(1, 1), (1, 3), (2, 1), (2, 3)] + ([(3, 1), (2, 2), (3, 2)] if deep else []), frames=[1, 2, 3] + ([4] if deep else []), detectors=[1, 2, 3, 4] if deep else [1, 3],
                         channels=[4, 6] + ([8] if deep else []), bare=[False, True], stated=[True, False], version=["10", "11"]))
    files = [f for f in files if (f["stated"] or f["shape"] != (1, 1))]
    if not deep:
        files = [f for k, f in enumerate(files) if (f["version"] == "11") == (f["bare"] == f["stated"])]
    fn = []
    for shape in [(1, 1), (1, 2), (2, 1), (2, 2)]:
        for n in range(1, 11 if deep else 8):
            h = max(0, n - 5)
            for head in itertools.product((0, 1, 3, MARK), repeat=h):
                fn.append(dict(shape=shape, length=n, head=head, sparse=n <= (7 if deep else 5)))
    enc = [dict(shape=s) for s in [(1, 1, 1, 3), (1, 1, 2, 2), (2, 1, 1, 2), (1, 2, 1, 3), (2, 1, 2, 2), (1, 2, 2, 2)]]
    return [Part("streams", st, f_stream, bounds="pixels with %d contents, up to %d pixels" % (len(P), 6 if deep else 4), timeout=300),
        Part("files", files, f_file, bounds="shapes, numbers of frames, detectors and channels; all options", timeout=300),
        Part("other images", list(product(other=[(1, 1), (4, 4), (3, 2)], which=[0, 1], select=[None, "spectrum_image"])), f_survey, bounds="an image of another shape beside the spectrum image"),
        Part("sequences", fn, f_func, bounds="all sequences of events and marks of up to %d" % (10 if deep else 7), timeout=300),
        Part("inverse", enc, f_encode, bounds="all arrays of 0, 1, 2 of up to 8 values", timeout=300)]
