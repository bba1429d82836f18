"""C19: DigitalMicrograph files decode to the tags and images they contain.

Files are written by mc/dm.py from trees of tags, the expected result is computed from the same trees."""
import itertools
import logging
import os
import struct

import numpy as np

from mc import dm
from mc.core import Part, product
from mc.sig import *

PROPERTY = "C19"
ASSUMPTIONS = [
    "dots and brackets may be removed from the names of tags, unnamed tags are numbered separately for data and groups, names among siblings do not collide",
    "arrays of 16-bit characters are text unless they are empty; single characters (type 9) are bytes",
    "text is UTF-8 or else Latin-1",
    "the tag `Data` of a group `ImageData` is pixel data, which is not returned as a tag",
    "missing dimension calibrations are 0, 1 and without units, as documented in the code",
    "RGBA images cannot be loaded lazily, as the documented error says",
    "RGBA pixels are 32-bit integers 0xAARRGGBB in the byte order of the file",
    "old packed complex images are square of even size"]
VARIANTS = [(3, "<"), (3, ">"), (4, "<"), (4, ">")]


def prepare(scratch):
    import dask

    dask.config.set(scheduler="sync")
    logging.getLogger("rsciio").setLevel(logging.CRITICAL)


def reader():
    from rsciio.digitalmicrograph import file_reader

    return file_reader


def call(t, what, path, **kw):
    t.op("%s %s %r" % (what, os.path.basename(path), kw))
    return reader()(path, **kw)


# ---------------------------------------------------------------- expected values
def f32(v):
    return struct.unpack("<f", struct.pack("<f", v))[0]


def value(code, v):
    return struct.pack("b", v) if code == 9 else f32(v) if code == 6 else v


def string(b):
    try:
        return b.decode("utf8")
    except UnicodeDecodeError:
        return b.decode("latin-1")


def plain(name):
    return "".join(c for c in name if c not in ".[]")


def renamed(v):
    """The names of tags without dots and brackets, if the reader keeps some of them."""
    return {plain(k): renamed(x) for k, x in v.items()} if isinstance(v, dict) else v


def seq(code, vs):
    if code == 4 and vs:
        return "".join(chr(v) for v in vs)
    return [value(code, v) for v in vs]


# A leaf is ("simple", code, v) | ("string", b) | ("array", code, vs) | ("struct", codes, vs) | ("structs", codes, rows)
#         | ("strings", rows) | ("arrays", code, rows);   a group is ("group", [(name, node)])
def node(spec):
    k = spec[0]
    if k == "group":
        return dm.Group([(n, node(s)) for n, s in spec[1]])
    return {"simple": dm.simple, "string": dm.string, "array": dm.array, "struct": dm.structure, "structs": dm.structures, "strings": dm.strings, "arrays": dm.arrays}[k](*spec[1:])


def expected(spec):
    k = spec[0]
    if k == "group":
        out, nd, ng = {}, 0, 0
        for n, s in spec[1]:
            n = plain(string(n if isinstance(n, bytes) else n.encode()))
            if not n and s[0] == "group":
                n, ng = "TagGroup%i" % ng, ng + 1
            elif not n:
                n, nd = "Data%i" % nd, nd + 1
            if n in out:
                raise RuntimeError("colliding names in the harness")
            out[n] = expected(s)
        return out
    if k == "simple":
        return value(spec[1], spec[2])
    if k == "string":
        return string(spec[1])
    if k == "array":
        return seq(spec[1], spec[2])
    if k == "struct":
        return tuple(value(c, v) for c, v in zip(spec[1], spec[2]))
    if k == "structs":
        return [tuple(value(c, v) for c, v in zip(spec[1], r)) for r in spec[2]]
    if k == "strings":
        return [string(r) for r in spec[1]]
    return [seq(spec[1], r) for r in spec[2]]


def same(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, float) and isinstance(b, float) and a != a:
        return b != b
    return type(a) is type(b) and a == b and (not isinstance(a, float) or np.signbit(a) == np.signbit(b))


PIX = np.arange(6, dtype="u2").reshape(2, 3) * 257


def check_tags(t, before, tags, after, version, end):
    root = [(n, node(s)) for n, s in before]
    img = dm.image(10, 4, (3, 2), PIX.astype(end + "u2").tobytes(), 6, name="im", tags=[(n, node(s)) for n, s in tags])
    root.append(("ImageList", dm.Group([("", img)])))
    root += [(n, node(s)) for n, s in after]
    p = t.path("f.dm%d" % version)
    with open(p, "wb") as f:
        f.write(dm.encode(dm.Group(root), version, end))
    out = call(t, "read", p)
    t.check(len(out) == 1, "%d images" % len(out))
    om = renamed(out[0]["original_metadata"])
    if om.get("root") == {}:  # the reader adds an empty group
        del om["root"]
    want = expected(("group", list(before) + [("ImageList", ("string", b""))] + list(after)))
    t.state(want, om.keys())
    t.check(list(om) == list(want) if not after else sorted(om) == sorted(want), "root tags %r instead of %r" % (list(om), list(want)))
    for k in want:
        if k != "ImageList":
            t.check(same(om[k], want[k]), "root tag %r is %r instead of %r" % (k, om[k], want[k]))
    got = om["ImageList"]["TagGroup0"]["ImageTags"]
    want = expected(("group", list(tags)))
    t.check(same(got, want), "image tags are %r instead of %r" % (got, want))
    t.check(np.array_equal(out[0]["data"], PIX), "pixels changed")
    t.check(om["ImageList"]["TagGroup0"]["Name"] == "im" and out[0]["metadata"]["General"]["title"] == "im", "name")


# ---------------------------------------------------------------- parts
KINDS = {
    "i2": ("simple", 2, -2), "i4": ("simple", 3, -70000), "u2": ("simple", 4, 65), "u4": ("simple", 5, 4000000000), "f4": ("simple", 6, 0.1),
    "f8": ("simple", 7, -0.1), "bool": ("simple", 8, 1), "char": ("simple", 9, 66), "byte": ("simple", 10, -3), "i8": ("simple", 11, -2**40), "u8": ("simple", 12, 2**63 + 5),
    "str": ("string", "né".encode()), "lat": ("string", "né".encode("latin-1")), "nostr": ("string", b""),
    "arr": ("array", 3, (1, -2, 3)), "text": ("array", 4, (65, 233, 8364)), "noarr": ("array", 4, ()), "chars": ("array", 9, (65, -1)),
    "struct": ("struct", (2, 7, 8), (-1, 0.5, 7)), "structs": ("structs", (6, 3), ((0.5, 1), (-1.5, -2))), "nostructs": ("structs", (6, 3), ()),
    "strings": ("strings", (b"ab", "é".encode())), "arrays": ("arrays", 3, ((1, 2, 3), (4, 5, 6))), "texts": ("arrays", 4, ((65, 66), (67, 68))), "noarrays": ("arrays", 5, ()),
    "nogroup": ("group", []), "group": ("group", [("x", ("simple", 3, 9)), ("", ("array", 5, (1, 2)))]), "ugroup": ("group", [("", ("group", [("", ("simple", 2, 4))])), ("", ("simple", 2, 5))]),
}
NAMES = ["", "a", "A b", "a.b", ".", "é", b"\xe9\xff", "x" * 300, "keys", "to_dict", "_box_config", "a[0]", "Pixel [um]", "[1]b", "a]b[", "0", "Data", "TagGroup0x", "Data7", "ImageData", "source", "(%s) {}", "a-b", "a_b", "\u00b5m (\u00c5)", "None", "class"]


def one(t, kind, name, version, end, place):
    """One tag of each kind with each name, before or after the images or among the tags of the image, followed by another tag."""
    tag = [(name, KINDS[kind]), ("zz", ("simple", 3, 12345))]
    check_tags(t, tag if place == "before" else (), tag if place == "image" else (), tag if place == "after" else (), version, end)


def pairs(t, first, version, end, unnamed):
    for second in KINDS:
        tags = [("" if unnamed & 1 else "p", KINDS[first]), ("" if unnamed & 2 else "q", KINDS[second])]
        check_tags(t, (), tags, (), version, end)


SHORT = ["i2", "u8", "text", "struct", "strings", "arrays", "nogroup", "ugroup"]


def triples(t, first, second, version, end):
    for third in SHORT:
        for un in range(8):
            tags = [("" if un >> i & 1 else "n%d" % i, KINDS[k]) for i, k in enumerate((first, second, third))]
            check_tags(t, (), tags, (), version, end)


def level(nodes):
    """Every group of at most two of the nodes."""
    for n in range(3):
        for c in itertools.product(nodes, repeat=n):
            yield ("group", [(nm + (str(i) if nm else ""), s) for i, (nm, s) in enumerate(c)])


LEAVES = [("", ("simple", 2, 1)), ("d", ("array", 5, (2, 3))), ("", ("group", [])), ("e", ("group", []))]
T1 = [(n, g) for g in level(LEAVES) for n in ("", "g")]


def trees2(t, i, version, end):
    """Every tree of depth two whose first branch is T1[i] and whose second is any of T1 or none."""
    a = T1[i]
    for b in [None] + T1:
        g = [(a[0] and "g0", a[1])] + ([] if b is None else [(b[0] and "g1", b[1])])
        check_tags(t, (), g, (), version, end)


def trees3(t, i, version, end):
    """Depth three: a group of (leaf, T1[i], T1[j]) nested in a group with a leaf before and/or after it."""
    a = T1[i]
    for b in T1[::3]:
        inner = ("group", [LEAVES[i % 4], (a[0] and "g0", a[1]), (b[0] and "g1", b[1])])
        for nm in ("", "h"):
            for un in range(4):
                g = ([LEAVES[0]] if un & 1 else []) + [(nm, inner)] + ([("", ("group", [("", ("simple", 3, 5))]))] if un & 2 else [])
                check_tags(t, g if un == 3 else (), g, (), version, end)


def bounds(code):
    ch = dm.SIMPLE[code][0]
    if ch == "f":
        return [0.0, -0.0, 1.5, f32(3.4028234e38), f32(1e-45), float("inf"), float("-inf"), float("nan"), f32(0.1)]
    if ch == "d":
        return [0.0, -0.0, 0.1, 1.7976931348623157e308, 5e-324, float("inf"), float("nan")]
    n = 8 * dm.SIMPLE[code][1]
    v = [0, 1, 2, 2**(n - 1) - 1, 65, 10]
    return v + ([-1, -2**(n - 1), -2] if ch in "hibq" else [2**n - 1, 2**(n - 1)])


def values(t, code, version, end):
    """Boundary values of every simple type alone, and in arrays, structures, arrays of structures and arrays of arrays of up to three."""
    vs = bounds(code)
    tags = [("s%d" % i, ("simple", code, v)) for i, v in enumerate(vs)]
    if code == 4:  # characters: surrogates are allowed
        vs = vs + [0xD800, 0xFFFF]
    k = 0
    for n in range(3):
        for c in itertools.product(vs, repeat=n):
            tags.append(("a%d" % k, ("array", code, c)))
            if n:
                tags.append(("t%d" % k, ("struct", (code,) * n + (3,), c + (7,))))
                tags.append(("u%d" % k, ("structs", (8, code), tuple((1, v) for v in c))))
                tags.append(("v%d" % k, ("arrays", code, (c, c[::-1], c))))
            k += 1
    check_tags(t, (), tags, (), version, end)


def structs(t, codes, version, end):
    """Structures of every sequence of three simple types, alone and in arrays."""
    v = {2: -5, 3: -6, 4: 7, 5: 8, 6: 0.25, 7: -0.125, 8: 1, 9: 67, 10: -7, 11: -2**33, 12: 2**34}
    row = tuple(v[c] for c in codes)
    check_tags(t, (), [("s", ("struct", codes, row)), ("r", ("structs", codes, (row,) * 3)), ("z", ("simple", 3, 1))], (), version, end)


# ---------------------------------------------------------------- images
TYPES = {1: ("i2", 2), 2: ("f4", 6), 3: ("c8", (6, 6)), 6: ("u1", 10), 7: ("i4", 3), 9: ("i1", 9), 10: ("u2", 4), 11: ("u4", 5), 12: ("f8", 7), 13: ("c16", (7, 7)), 14: ("?", 8), 8: ("rgba", 3), 23: ("rgba", 3)}
SHAPES = [(1,), (5,), (1, 1), (3, 2), (1, 4), (4, 1), (2, 3, 4), (1, 3, 2), (3, 2, 1), (2, 1, 3, 2), (2, 3, 2, 2), (1, 1, 1, 1)]
RGBA = np.dtype([("R", "u1"), ("G", "u1"), ("B", "u1"), ("A", "u1")])


def pixels(code, n, end):
    """(values in the order of the file, bytes)"""
    kind = TYPES[code][0]
    i = np.arange(n)
    if kind == "rgba":
        v = np.zeros(n, RGBA)
        for k, f in enumerate("RGBA"):
            v[f] = (i * 7 + 60 * k + 1) % 256
        word = (v["A"].astype("u4") << 24) | (v["R"].astype("u4") << 16) | (v["G"].astype("u4") << 8) | v["B"]
        return v, word.astype(end + "u4").tobytes()
    if kind == "?":
        v = i % 3 == 1
    elif kind in ("c8", "c16"):
        v = ((i - 2.5) * 1.25 + 1j * (i * 0.5 + 100)).astype(kind)
    elif kind in ("f4", "f8"):
        v = ((i - 1.5) * 0.375).astype(kind)
    else:
        info = np.iinfo(kind)
        v = np.array([(int(info.min) + 40503 * int(j) * (1 if info.bits > 8 else 7)) % 2**info.bits for j in i], dtype="u%d" % (info.bits // 8)).view(kind)
    return v, v.astype(v.dtype.newbyteorder(end)).tobytes()


def write(t, images, version, end, thumbs=None, name="f", root=()):
    p = t.path("%s.dm%d" % (name, version))
    top = [("ImageList", dm.Group([("", im) for im in images]))]
    if thumbs is not None:
        top.append(("Thumbnails", dm.Group([("", dm.Group([("ImageIndex", dm.simple(5, i))])) for i in thumbs])))
    with open(p, "wb") as f:
        f.write(dm.encode(dm.Group(top), version, end))
    return p


def load(t, p, lazy, op="read", **kw):
    out = call(t, op, p, lazy=lazy, **kw)
    for d in out:
        if lazy:
            import dask.array as da

            t.check(isinstance(d["data"], da.Array), "data read lazily are a %s" % type(d["data"]))
            t.check(tuple(map(int, d["data"].shape)) == tuple(a["size"] for a in d["axes"]), "lazy shape %s" % (d["data"].shape,))
            want = d["data"].dtype
            d["data"] = d["data"].compute()
            t.check(d["data"].dtype == want, "declared dtype %s, computed %s" % (want, d["data"].dtype))
        else:
            t.check(isinstance(d["data"], np.ndarray), "data are a %s" % type(d["data"]))
    return out


def equal(t, got, want, what):
    t.check(got.dtype.newbyteorder("=") == want.dtype.newbyteorder("="), "%s: dtype %s instead of %s" % (what, got.dtype, want.dtype))
    t.check(got.shape == want.shape, "%s: shape %s instead of %s" % (what, got.shape, want.shape))
    t.check(bool(np.all(got == want)), "%s: values %s instead of %s" % (what, got.tolist()[:8], want.tolist()[:8]))


def images(t, code, dims, version, end):
    n = int(np.prod(dims))
    v, raw = pixels(code, n, end)
    p = write(t, [dm.image(code, TYPES[code][1], dims, raw, n, name="t")], version, end)
    shape = tuple(dims)[::-1]
    for order in (None, "C", "F"):
        want = v.reshape(shape, order=order or "C")
        out = load(t, p, False, order=order)
        t.state(code, dims, order)
        t.check(len(out) == 1 and [a["size"] for a in out[0]["axes"]] == list(shape), "axes")
        equal(t, out[0]["data"], want, "order %s" % order)
        if TYPES[code][0] == "rgba":
            try:
                call(t, "read", p, lazy=True)
            except ValueError:
                continue
            t.fail("RGBA image read lazily")
        for chunks in ["auto", tuple(1 for _ in shape), tuple(max(1, s - 1) for s in shape)]:
            out = load(t, p, True, order=order, chunks=chunks)
            equal(t, out[0]["data"], want, "lazy order %s chunks %s" % (order, chunks))


def calibration(t, ndim, ncal, version, end, signal):
    """Offsets, scales and units of the dimensions, of which only the first `ncal` are calibrated; signal types and navigation."""
    dims = (2, 3, 4, 2)[:ndim]
    n = int(np.prod(dims))
    scales = [0.5, -2.0, 3.0, 0.25][:ncal]
    origins = [1.5, 0.0, -4.0, 7.0][:ncal]
    units = ["nm", "", "eV", "1/nm"][:ncal]
    tags = []
    if signal == "spim":
        tags = [("spim", dm.Group([("eels", dm.Group())]))]
    elif signal:
        md = [(k, dm.text(v)) for k, v in zip(("Format", "Signal"), signal) if v]
        tags = [("Meta Data", dm.Group(md))]
    v, raw = pixels(10, n, end)
    p = write(t, [dm.image(10, 4, dims, raw, n, name="cal", scales=scales, origins=origins, units=units, tags=tags, brightness=(2.0, 0.5, "e-"))], version, end)
    for lazy in (False, True):
        d = load(t, p, lazy)[0]
        equal(t, d["data"], v.reshape(dims[::-1]), "pixels")
        pad = ndim - ncal
        s = (scales + [1.0] * pad)[::-1]
        o = (origins + [0.0] * pad)[::-1]
        u = (units + [""] * pad)[::-1]
        for k, a in enumerate(d["axes"]):
            t.check(a["size"] == dims[::-1][k] and a["index_in_array"] == k, "axis %d: %r" % (k, a))
            t.check(a["scale"] == s[k] and a["offset"] == -o[k] * s[k] and a["units"] == u[k], "axis %d: %r instead of scale %s, offset %s, units %r" % (k, a, s[k], -o[k] * s[k], u[k]))
        names = [a["name"] for a in d["axes"]]
        fmt, sig = ("Spectrum image", "EELS") if signal == "spim" else signal or (None, None)
        t.check(d["metadata"]["Signal"]["signal_type"] == {"X-ray": "EDS_TEM"}.get(sig, sig or ""), "signal type %r" % d["metadata"]["Signal"])
        want = ["x", "y", "z"]
        energy = {"EELS": "eV", "X-ray": "keV", "CL": "nm"}.get(sig)
        label = {"EELS": "Energy loss", "CL": "Wavelength"}.get(sig)
        e = u.index(energy) if label and energy in u else None
        left = [k for k in range(ndim) if k != e][::-1]
        wn = [None] * ndim
        if e is not None:
            wn[e] = label
        for k, nm in zip(left, want):
            wn[k] = nm
        t.check(names == wn, "axis names %r instead of %r" % (names, wn))
        nav = [True] * ndim
        if ndim == 1 or (ndim == 2 and fmt in ("Spectrum image", "Spectrum")):
            nav[-1] = False
        else:
            nav[-2:] = [False, False]
        t.check([a["navigate"] for a in d["axes"]] == nav, "navigation %r instead of %r" % ([a["navigate"] for a in d["axes"]], nav))
        t.check(len(d["post_process"]) == (2 if fmt == "Spectrum image" and ndim > 2 else 1), "post processing")
        b = d["original_metadata"]["ImageList"]["TagGroup0"]["ImageData"]["Calibrations"]["Brightness"]
        t.check(b == {"Origin": 2.0, "Scale": 0.5, "Units": "e-"}, "brightness %r" % b)
        t.state(ndim, ncal, signal, names)


def several(t, codes, thumbs, version, end):
    """Several images and thumbnails: every image which is not a thumbnail, in order, with its own tags and calibration."""
    ims, want = [], []
    for i, code in enumerate(codes):
        dims = [(3, 2), (4,), (2, 2, 3)][(i + code) % 3]
        n = int(np.prod(dims))
        v, raw = pixels(code, n, end)
        ims.append(dm.image(code, TYPES[code][1], dims, raw, n, name="im%d" % i, scales=[i + 1.0] * len(dims), tags=[("own", dm.simple(3, 100 + i)), ("k%d" % i, dm.text("é%d" % i))]))
        want.append((v.reshape(dims[::-1]), i))
    p = write(t, ims, version, end, thumbs)
    want = [w for w in want if w[1] not in (thumbs or ())]
    for lazy in (False, True):
        if lazy and any(TYPES[codes[i]][0] == "rgba" for _, i in want):
            continue
        out = load(t, p, lazy)
        t.check(len(out) == len(want), "%d images instead of %d" % (len(out), len(want)))
        for d, (v, i) in zip(out, want):
            equal(t, d["data"], v, "image %d" % i)
            im = d["original_metadata"]["ImageList"]["TagGroup0"]
            t.check(list(d["original_metadata"]["ImageList"]) == ["TagGroup0"], "images in the tags of image %d" % i)
            t.check(im["ImageTags"] == {"own": 100 + i, "k%d" % i: "é%d" % i} and im["Name"] == "im%d" % i, "tags of image %d: %r" % (i, im["ImageTags"]))
            t.check(d["metadata"]["General"]["title"] == "im%d" % i and d["axes"][0]["scale"] == i + 1.0, "title or scale of image %d" % i)
        t.state(codes, thumbs, len(out))


def no_images(t, version, end, how):
    """A file without images has no signals."""
    p = t.path("f.dm%d" % version)
    top = [("a", dm.simple(3, 1))]
    if how == "empty list":
        top.append(("ImageList", dm.Group()))
    elif how == "only thumbnails":
        v, raw = pixels(10, 6, end)
        top.append(("ImageList", dm.Group([("", dm.image(10, 4, (3, 2), raw, 6))])))
        top.append(("Thumbnails", dm.Group([("", dm.Group([("ImageIndex", dm.simple(5, 0))]))])))
    with open(p, "wb") as f:
        f.write(dm.encode(dm.Group(top), version, end))
    for lazy in (False, True):
        out = call(t, "read", p, lazy=lazy)
        t.check(list(out) == [], "%d signals" % len(out))


# ---------------------------------------------------------------- packed complex
def hermitian(n):
    """A Fourier transform of a real n x n image, zero frequency in the middle."""
    im = (np.arange(n * n).reshape(n, n) * 7919 % 31).astype(float)
    a = np.fft.fft2(im)
    a = (a + np.conj(a[np.ix_(-np.arange(n), -np.arange(n))])) / 2  # exactly
    return np.fft.fftshift(a).astype("c8")


def pack_old(a):
    """Half of the transform as float32 numbers: rows of N complex numbers from the column of the zero frequency on; the real numbers of
    the first column of rows 0 and N take the place of imaginary parts."""
    n = a.shape[0] // 2
    out = np.zeros((2 * n, n), "c8")
    out[:, 1:] = a[:, n + 1:]
    out[1:n, 0] = a[n + 1:, 0]
    out[n + 1:, 0] = a[n + 1:, n]
    out[0, 0] = complex(a[n, 0].real, a[0, 0].real)
    out[n, 0] = complex(a[n, n].real, a[0, n].real)
    return out


def packed_old(t, half, version, end):
    a = hermitian(2 * half)
    raw = pack_old(a).view("f4").astype(end + "f4").tobytes()
    p = write(t, [dm.image(5, 6, a.shape, raw, a.size)], version, end)
    for lazy in (False, True):
        for order in (None, "C", "F"):
            out = load(t, p, lazy, order=order)
            got = out[0]["data"]
            t.state(half, lazy, order)
            t.check(got.dtype.newbyteorder("=") == np.dtype("c8") and got.shape == a.shape, "%s %s" % (got.dtype, got.shape))
            t.check(bool(np.all(got == a)), "packed complex image (lazy %s, order %s): %s instead of %s" % (lazy, order, got.tolist()[:2], a.tolist()[:2]))


def packed_new(t, w, h, code, version, end, symmetric):
    """Rows of w//2 + 1 complex numbers from the zero frequency on."""
    m = w // 2 + 1
    c = {27: "c8", 28: "c16"}[code]
    i = np.arange(h * m).reshape(h, m)
    P = (i * 1.25 + 3 + 1j * (i - 7) * 0.5).astype(c)
    mid = h // 2
    rows = {r: (2 * mid - r) % h if h % 2 == 0 else 2 * mid - r for r in range(h)}  # opposite frequency
    if symmetric:
        for r in range(mid):
            P[rows[r]] = P[r]
    for col in [0] + ([m - 1] if w % 2 == 0 else []):  # frequencies which are their own opposite
        for r in range(h):
            if rows[r] == r:
                P[r, col] = P[r, col].real
            elif rows[r] > r:
                P[rows[r], col] = P[r, col] = P[r, col].real if symmetric else P[r, col]
                if not symmetric:
                    P[rows[r], col] = np.conj(P[r, col])
    raw = P.view(P.real.dtype).astype(P.real.dtype.newbyteorder(end)).tobytes()
    p = write(t, [dm.image(code, {27: 6, 28: 7}[code], (w, h), raw, 2 * P.size)], version, end)
    for lazy in (False, True):
        for order in (None, "F"):
            got = load(t, p, lazy, order=order)[0]["data"]
            t.state(w, h, code, lazy, order)
            t.check(got.dtype.newbyteorder("=") == np.dtype(c) and got.shape == (h, w), "%s %s" % (got.dtype, got.shape))
            left = np.array_equal(got[:, w // 2::-1], P)
            right = np.array_equal(got[:, w // 2:], np.conj(P[:, :w - w // 2]))
            t.check(left or right, "packed numbers are not in the image (lazy %s)" % lazy)
            for r in range(h):
                for k in range(w):
                    k2 = (2 * (w // 2) - k) % w if w % 2 == 0 else 2 * (w // 2) - k
                    if got[r, k] != np.conj(got[rows[r], k2]):
                        t.fail("packed complex image is not the transform of a real image: element (%d, %d) is not the conjugate of element (%d, %d)" % (r, k, rows[r], k2))


def kw(fn):
    def run(t, case):
        fn(t, **case)
    run.__doc__ = fn.__doc__
    return run


def parts(tier):
    big = tier == "thorough"
    V = [dict(version=v, end=e) for v, e in VARIANTS]
    vv = [dict(version=4, end="<"), dict(version=3, end=">")]
    one_c = [dict(kind=k, name=n, place=p, **v) for k in KINDS for n in (NAMES if big or k in ("i4", "text", "group", "struct") else NAMES[:7]) for p in ("before", "image", "after") for v in V]
    out = [
        Part("one tag", one_c, kw(one), "%d kinds of tags, %d names, 3 places, versions 3 and 4, both byte orders" % (len(KINDS), len(NAMES))),
        Part("pairs", [dict(first=k, unnamed=u, **v) for k in KINDS for u in range(4) for v in (V if big else vv)], kw(pairs), "every pair of %d kinds, named or not" % len(KINDS)),
        Part("triples", [dict(first=a, second=b, **v) for a in SHORT for b in SHORT for v in (V if big else vv)], kw(triples), "every triple of %d kinds, named or not" % len(SHORT)),
        Part("trees2", [dict(i=i, **v) for i in range(len(T1)) for v in (V if big else vv)], kw(trees2), "every pair of the %d trees of depth 1 and width <= 2, named or not" % len(T1)),
        Part("trees3", [dict(i=i, **v) for i in range(0, len(T1), 1 if big else 2) for v in (V if big else V[1:3])], kw(trees3), "trees of depth 3"),
        Part("values", [dict(code=c, **v) for c in dm.SIMPLE for v in V], kw(values), "boundary values of all 11 simple types in every container, up to two elements"),
        Part("structures", [dict(codes=c, **v) for n in (1, 2, 3) for c in itertools.product(dm.SIMPLE, repeat=n) for v in (V if big else vv)], kw(structs), "every structure of up to three fields"),
        Part("images", [dict(code=c, dims=d, **v) for c in TYPES for d in SHAPES for v in V], kw(images), "13 data types, %d shapes of 1-4 dimensions, orders, eager and lazy with three chunkings" % len(SHAPES)),
        Part("calibration", [dict(ndim=n, ncal=k, signal=s, **v) for n in range(1, 5) for k in range(n + 1) for s in [None, ("Spectrum image", "EELS"), ("Spectrum", "X-ray"), ("Spectrum image", None), ("Image", "CL"), (None, "EELS"), "spim"] for v in V], kw(calibration), "1-4 dimensions of which any number is calibrated, 7 signal kinds"),
        Part("several", [dict(codes=c, thumbs=th, **v) for c in itertools.product((10, 3, 23), repeat=3) for th in (None, (), (0,), (1,), (2,), (0, 2), (0, 1)) for v in (V if big else vv)], kw(several), "three images of 3 types, any of them thumbnails"),
        Part("imageless", [dict(how=h, **v) for h in ("no list", "empty list", "only thumbnails") for v in V], kw(no_images), "files without images"),
        Part("packed old", [dict(half=h, **v) for h in range(1, 9 if big else 6) for v in V], kw(packed_old), "square images of even size up to %d" % (16 if big else 10)),
        Part("packed new", [dict(w=w, h=h, code=c, symmetric=s, **v) for w in range(2, 9) for h in range(1, 8) for c in (27, 28) for s in (True, False) for v in (V if big else vv)], kw(packed_new), "widths 2-8, heights 1-7, with and without vertical symmetry"),
    ]
    return out
