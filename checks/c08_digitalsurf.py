"""C08: Digital Surf files."""
import os
import warnings

import numpy as np

from mc import surf
from mc.core import Part, Skip, canon_hash, product
from mc.sig import *

PROPERTY = "C08"
ASSUMPTIONS = [
    "header numbers (scales, offsets) are stored in single precision, names and units in latin-1 in fields of 16 (13) characters with surrounding blanks removed",
    "values are finite, or NaN flagged as not measured (is_special=True)",
    "a spectrum series of one spectrum is the same file as a single spectrum",
    "a signal without signal axes is stored as the profile, surface or image of the same shape"]

E32 = 2.0 ** -23


def ds():
    from rsciio import digitalsurf as m

    return m


AX = {"X": ("wid", "nm", 0.5, -2.0), "Y": ("hei", "µm", 0.25, 3.0), "T": ("ser", "s", 2.0, 10.0), "E": ("Wavelength", "nm", 1.5, 300.0)}


def axis(k, size, nav, name=None):
    n, u, s, o = AX[k]
    return uaxis(size, nav, name=name or n, units=u, scale=s, offset=o)


# kind: (dimensions as axis letters, navigation flags, dimensions accepted)
KINDS = {
    "profile": ("X", (0,)), "profile-nav": ("X", (1,)), "spectrum": ("E", (0,)), "surface": ("YX", (0, 0)),
    "surface-nav": ("YX", (1, 1)), "profiles": ("TX", (1, 0)), "spectra": ("YE", (1, 0)), "surfaces": ("TYX", (1, 0, 0)),
    "hyper": ("YXT", (1, 1, 0)), "hyper-e": ("YXE", (1, 1, 0)),
}


def make(kind, shape, data):
    dims, nav = KINDS[kind]
    return signal(data, axes=[axis(k, n, bool(v)) for k, n, v in zip(dims, shape, nav)])


def values(shape, dtype, pat):
    dt = np.dtype(dtype)
    n = int(np.prod(shape))
    i = np.arange(n, dtype=np.int64)
    if dt.kind == "b":
        a = (i % 3 == 0) if pat == "ramp" else np.zeros(n, bool) if pat == "zero" else np.ones(n, bool)
        return a.reshape(shape)
    if dt.kind in "iu":
        inf = np.iinfo(dt)
        if pat == "ramp":
            a = i * 7 % 120
        elif pat == "full":
            a = np.where(i % 3 == 0, int(inf.max) - i, np.where(i % 3 == 1, int(inf.min) + i, i % 50))
        elif pat == "zero":
            a = i * 0
        elif pat == "const":
            a = i * 0 + 5
        elif pat == "odd":
            a = (16777217 if dt.itemsize == 4 else 101) + i
        return a.astype(dt).reshape(shape)
    a = {"ramp": lambda: 0.1 + i * 1.37, "zero": lambda: i * 0.0, "const": lambda: i * 0.0 + 5, "constfrac": lambda: i * 0.0 - 0.3,
         "unitscale": lambda: np.where(i % 2 == 0, 0.0, 4294967295.0) + (i // 2) * 17.0 * (1 - 2 * (i % 2)),
         "evenscale": lambda: (np.where(i % 2 == 0, 0.0, 4294967295.0) + (i // 2) * 17.0 * (1 - 2 * (i % 2))) * 2 - 8,
         "full": lambda: np.where(i % 2 == 0, -1.0, 1.0) * (1e3 + i), "tiny": lambda: (i + 1) * 1e-9,
         "huge": lambda: (1 - i) * 1e30,
         "nan": lambda: np.where(i % 3 == 1, np.nan, i * 1.5 - 1), "allnan": lambda: i * np.nan,
         "nanconst": lambda: np.where(i % 2 == 1, np.nan, 4.0)}[pat]()
    with np.errstate(over="ignore"):
        return a.astype(dt).reshape(shape)


IPAT = ["ramp", "full", "zero", "const", "odd"]
FPAT = ["ramp", "zero", "const", "constfrac", "unitscale", "evenscale", "full", "tiny", "huge"]
SPAT = ["nan", "allnan", "nanconst"]


def close(t, want, got, what, per_object=None):
    """Values equal up to the rounding of the stored integers and of scale and offset (single precision)."""
    t.state(what, np.asarray(got))
    t.checks += 1
    want, got = np.asarray(want), np.asarray(got)
    if want.shape != got.shape:
        t.fail("%s: shape %s, expected %s" % (what, got.shape, want.shape))
    w, g = want.astype(float), got.astype(float)
    if not np.array_equal(np.isnan(w), np.isnan(g)):
        t.fail("%s: NaN at other points, expected %s got %s" % (what, w.ravel()[:6], g.ravel()[:6]))
    for wi, gi in (zip(w, g) if per_object else [(w, g)]):
        if wi.size == 0 or np.isnan(wi).all():
            continue
        lo, hi = np.nanmin(wi), np.nanmax(wi)
        if per_object == "exact" or want.dtype.kind in "b":
            tol = 0
        elif want.dtype.kind in "iu":
            tol = abs(lo) * E32 / 2
        else:
            tol = (hi - lo) * (E32 + 1 / (2.0 ** 32 - 2)) + abs(lo) * E32 + 1e-45
        bad = np.nanmax(np.abs(wi - gi))
        if bad > tol:
            k = int(np.nanargmax(np.abs(wi - gi)))
            t.fail("%s: %s value %r read as %r (largest accepted difference %g)" % (what, want.dtype, float(wi.ravel()[k]), float(gi.ravel()[k]), tol))


def expect_axes(t, want, got, what, nav=None):
    t.check(len(want) == len(got), "%s: %d axes, expected %d" % (what, len(got), len(want)))
    for i, (a, b) in enumerate(zip(want, got)):
        for k in ("size", "name", "units", "navigate", "scale", "offset"):
            if k == "navigate" and nav == "any":
                continue
            w, g = a[k], b[k]
            if k in ("scale", "offset"):
                w, g = float(np.float32(w)), float(g)
            if k in ("name", "units"):
                w = (w or "").strip()
            t.check(w == g, "%s: axis %d %s is %r, expected %r" % (what, i, k, g, w))
        t.check(b.get("index_in_array", i) == i, "%s: axis %d has index %r" % (what, i, b.get("index_in_array")))


def write(t, s, name="a.sur", **kw):
    p = t.path(name)
    before = canon_hash(snapshot(s))
    t.op("write")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ds().file_writer(p, s, **kw)
    t.check(canon_hash(snapshot(s)) == before, "writing changed the signal passed in")
    return p


def read(t, p, post=False):
    t.op("read")
    (d,) = ds().file_reader(p)
    t.check(d["data"].flags.writeable, "the data read cannot be changed")
    if post:
        import hyperspy.api as hs

        s = hs.signals.BaseSignal(**{k: d[k] for k in ("data", "axes", "metadata", "original_metadata")})
        for f in d["post_process"]:
            s = f(s)
        d = dict(d, data=s.data, axes=[dict(a, name=a["name"], units=a["units"]) for a in s._to_dictionary()["axes"]])
    return d


def objects(kind, data):
    return list(data) if kind in ("profiles", "surfaces") else [data]


def check_file(t, p, s, kind, data, special):
    """The file, decoded independently: stored integers and headers."""
    objs = surf.decode(open(p, "rb").read())
    want = objects(kind, data)
    t.check(len(objs) == len(want), "%d objects in the file, expected %d" % (len(objs), len(want)))
    for o, w in zip(objs, want):
        pts = o["points"].astype(float)
        v = (pts - o["zmin"]) * (o["dz"] / o["rz"]) + o["z0"]
        if special:
            v[o["points"] == o["zmin"] - 2] = np.nan
        close(t, w.ravel(), v, "file")
        t.check(o["nobj"] == len(want), "number of objects %d" % o["nobj"])


def f_kinds(t, c):
    shape, dtype = c["shape"], c["dtype"]
    data = layout(values(shape, dtype, c["pat"]), c["layout"])
    s = make(c["kind"], shape, data)
    kw = dict(compressed=c["compressed"], is_special=c["special"])
    p = write(t, s, **kw)
    check_file(t, p, s, c["kind"], data, c["special"])
    d = read(t, p)
    axes = s["axes"]
    if c["kind"] == "spectra" and shape[0] == 1:
        axes, data = axes[1:], data[0]
    per = None
    if c["kind"] in ("surface", "surface-nav", "surfaces") and np.dtype(dtype).kind in "iu":
        per = "exact"
    elif c["kind"] in ("profiles", "surfaces"):
        per = "each"
    if per == "exact" and data.ndim < 3:
        close(t, data[None], d["data"][None], "read", per)
    else:
        close(t, data, d["data"], "read", per)
    expect_axes(t, axes, d["axes"], "read", nav="any" if c["kind"].endswith("-nav") else None)
    h = d["original_metadata"]
    t.check(len(h) == len(objects(c["kind"], s["data"])), "original metadata of %d objects" % len(h))


def kind_cases(tier):
    # several points or several of them: mapping from kinds to shapes
    shapes = {1: [(1,), (2,), (7,), (40,)], 2: [(1, 1), (1, 5), (4, 1), (3, 4), (2, 9)],
              3: [(1, 2, 3), (2, 1, 3), (2, 3, 1), (3, 2, 4), (1, 1, 1), (2, 1, 1), (2, 2, 2)]}
    out = []

    def add(kind, shape, dtype, pat, layout, compressed, special):
        out.append(dict(kind=kind, shape=shape, dtype=dtype, pat=pat, layout=layout, compressed=compressed, special=special))

    dtypes = ["i1", "i2", "i4", "u1", "u2", "f2", "f4", "f8", "b1"]
    for kind, (dims, nav) in KINDS.items():
        for shape in shapes[len(dims)]:
            for dtype in dtypes:
                k = np.dtype(dtype).kind
                if k == "b" and kind in ("surface", "surface-nav"):
                    continue
                pats = ["ramp", "zero", "one"] if k == "b" else IPAT if k in "iu" else FPAT + SPAT
                for pat in pats:
                    if dtype == "f2" and pat in ("huge", "unitscale", "evenscale", "tiny"):
                        continue
                    if dtype == "i1" and pat == "odd":
                        continue
                    for special in (False, True):
                        if pat in SPAT and not special:
                            continue
                        for compressed in (True, False):
                            if tier == "quick" and shape not in (shapes[len(dims)][0], shapes[len(dims)][3]) and (
                                    pat not in ("ramp", "full", "nan", "zero") or not compressed):
                                continue
                            add(kind, shape, dtype, pat, "C", compressed, special)
    # byte orders and memory layouts
    for kind, (dims, nav) in KINDS.items():
        shape = shapes[len(dims)][3]
        for dtype in [">i2", ">i4", ">u2", ">f4", ">f8", "<i4", "f4"]:
            for lay in (LAYOUTS if tier == "thorough" or dtype in (">i4", "f4") else ["C", "F"]):
                for compressed in (True, False):
                    add(kind, shape, dtype, "ramp", lay, compressed, False)
    return out


# colour and binary images

def f_images(t, c):
    shape, kind = c["shape"], c["kind"]
    n = len(shape)
    ch = {"rgb8": ("R", "G", "B"), "rgb16": ("R", "G", "B"), "rgba8": ("R", "G", "B", "A"), "rgba16": ("R", "G", "B", "A")}
    if kind == "binary":
        i = np.arange(int(np.prod(shape)))
        data = {"mixed": i % 3 == 0, "zero": i < 0, "ones": i >= 0}[c["pat"]].reshape(shape)
    else:
        base = np.dtype("u1" if kind.endswith("8") else "u2")
        data = np.zeros(shape, dtype=[(k, base) for k in ch[kind]])
        i = np.arange(int(np.prod(shape))).reshape(shape)
        for j, k in enumerate(ch[kind]):
            m = np.iinfo(base).max
            data[k] = {"ramp": lambda: (i * 3 + 50 * j) % 251, "full": lambda: np.where((i + j) % 2, m - i - j, i + j), "zero": lambda: i * 0,
                       "white": lambda: i * 0 + m, "half": lambda: np.where((i + j) % 2, m // 2 + 1 + i, i + j)}[c["pat"]]()
    nav = {"image": (0, 0), "transposed": (1, 1), "series": (1, 0, 0)}[c["how"]]
    dims = "TYX"[-n:]
    s = signal(layout(data, c["layout"]), axes=[axis(k, m, bool(v)) for k, m, v in zip(dims, shape, nav)])
    p = write(t, s, compressed=c["compressed"])
    d = read(t, p, post=True)
    t.state(d["data"])
    if kind == "binary":
        t.check(d["data"].dtype == bool and d["data"].shape == shape and np.array_equal(d["data"], data), "binary image read as %s %s" % (d["data"].dtype, d["data"].ravel()[:8]))
    else:
        t.check(d["data"].dtype.names is not None and d["data"].shape == shape, "colour image of shape %s read as %s %s" % (shape, d["data"].dtype, d["data"].shape))
        for k in "RGB":
            t.check(np.array_equal(d["data"][k], data[k]), "channel %s %s read as %s" % (k, data[k].ravel()[:8], d["data"][k].ravel()[:8]))
    expect_axes(t, s["axes"], d["axes"], "read", nav="any" if c["how"] != "series" else None)


def image_cases(tier):
    out = []
    for kind in ("rgb8", "rgb16", "rgba8", "rgba16", "binary"):
        for how, shapes in [("image", [(3, 4), (1, 5), (4, 1), (1, 1), (16, 17)]), ("transposed", [(3, 4), (1, 5)]), ("series", [(1, 3, 4), (2, 3, 4), (3, 1, 5), (4, 2, 1)])]:
            if kind == "binary" and how == "series":
                continue
            for shape in shapes:
                for pat in (["mixed", "zero", "ones"] if kind == "binary" else ["ramp", "full", "zero", "white", "half"]):
                    for lay in (["C", "F", "strided"] if shape == shapes[0] else ["C"]):
                        for compressed in (True, False):
                            out.append(dict(kind=kind, how=how, shape=shape, pat=pat, layout=lay, compressed=compressed))
    return out


# texts of the header

TEXTS = ["", "x", "Height", "a b", "µm", "Å", "1/nm", "é" * 4, "n" * 13]


def f_texts(t, c):
    kind, where, field, v = c["kind"], c["where"], c["field"], c["text"]
    dims, nav = KINDS[kind]
    shape = (3, 2, 4)[:len(dims)]
    data = values(shape, "f8", "ramp")
    s = make(kind, shape, data)
    if where == "axis":
        for i, a in enumerate(s["axes"]):
            if i == c["axis"]:
                a[field] = v
    p = write(t, s, compressed=c["compressed"])
    d = read(t, p)
    close(t, data, d["data"], "read", "each" if kind in ("profiles", "surfaces") else None)
    expect_axes(t, s["axes"], d["axes"], "read")


def text_cases():
    return [dict(kind=k, where="axis", axis=i, field=f, text=v, compressed=c)
            for k, (dims, nav) in KINDS.items() if not k.endswith("-nav") for i in range(len(dims)) for f in ("name", "units") for v in TEXTS + [None]
            for c in (True, False) if not (dims[i] == "E" and f == "name" and len(dims) < 3)]


CAL = [0.0, 1.0, -0.5, 1e-9, 1e9, 0.1, 16777217.0]


def f_calibration(t, c):
    kind = c["kind"]
    dims, nav = KINDS[kind]
    shape = (3, 2, 4)[:len(dims)]
    data = values(shape, "f4", "ramp")
    s = make(kind, shape, data)
    s["axes"][c["axis"]].update(scale=c["scale"], offset=c["offset"])
    p = write(t, s, compressed=False)
    d = read(t, p)
    close(t, data, d["data"], "read", "each" if kind in ("profiles", "surfaces") else None)
    expect_axes(t, s["axes"], d["axes"], "read")


# comments and zones

SECT = [{}, {"a": 1}, {"a": 1.5, "b": "two"}, {"S": {"a": 1}}, {"S": {"a": 1, "b": -2.5}, "T": {"a": "x"}},
        {"S": {"L": 3, "L_units": "nm"}}, {"S": {"L": 3, "L_units": "nm", "M": 4}, "T": {"L": 5}},
        {"S": {"Grating": "150"}}, {"S": {"f": "y=x"}}, {"S": {"name with blanks": 7}}, {"S": {"v": "é"}}, {"S": {"k": True}},
        {"S": {"n": None}}, {"S T": {"a": "a,b;c"}}]


def parsed(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            out[k] = v
        else:
            out.setdefault("UNTITLED", {})[k] = v
    return out


def f_comments(t, c):
    kind = c["kind"]
    dims, nav = KINDS[kind]
    shape = (3, 2, 4)[:len(dims)]
    data = values(shape, "f8", "ramp")
    s = make(kind, shape, data)
    com = SECT[c["sect"]]
    kw = {}
    if c["how"] == "custom":
        kw = dict(set_comments="custom", comments=com)
    elif c["how"] == "raw":
        s["original_metadata"] = com
        kw = dict(set_comments="raw")
    elif c["how"] == "auto":
        s["original_metadata"] = com
    elif c["how"] == "auto-parsed":
        s["original_metadata"] = {"Object_0_Channel_0": {"Header": {"H01": 1}, "Parsed": com}}
    elif c["how"] == "off":
        s["original_metadata"] = com
        kw = dict(set_comments="off")
    p = write(t, s, compressed=c["compressed"], **kw)
    d = read(t, p)
    close(t, data, d["data"], "read", "each" if kind in ("profiles", "surfaces") else None)
    want = {} if c["how"] == "off" else parsed(com)
    om = d["original_metadata"]
    got = om["Object_0_Channel_0"].get("Parsed", {})
    t.state(got)
    t.check(got == want, "comments %r read as %r" % (want, got))
    t.check(sorted(om) == sorted("Object_%d_Channel_0" % i for i in range(len(objects(kind, data)))), "objects %s" % sorted(om))
    # what was read writes the same comments again
    d["axes"] = s["axes"]
    p2 = write(t, d, "b.sur", compressed=c["compressed"])
    got2 = read(t, p2)["original_metadata"]["Object_0_Channel_0"].get("Parsed", {})
    t.check(got2 == want, "comments %r after a second round trip: %r" % (want, got2))


def f_lengths(t, c):
    """Comments and zones of every length near the limits do not move the points."""
    data = values((3, 4), "f8", "ramp")
    s = make("surface", (3, 4), data)
    kw = {}
    ch = c.get("char", "a")
    if c["field"] == "comment":
        kw = dict(set_comments="custom", comments={"k": ch * c["n"]})
    elif c["field"] == "private":
        kw = dict(private_zone=(bytes(range(256)) * 129)[:c["n"]])
    elif c["field"] == "client":
        kw = dict(client_zone=(bytes(range(1, 256)) * 2)[:c["n"]])
    else:
        kw = {c["field"]: ch * c["n"]}
    p = write(t, s, compressed=c["compressed"], **kw)
    d = read(t, p)
    close(t, data, d["data"], "read")
    (o,) = surf.decode(open(p, "rb").read())
    h = d["original_metadata"]["Object_0_Channel_0"]["Header"]
    if c["field"] == "comment":
        got = d["original_metadata"]["Object_0_Channel_0"]["Parsed"]["UNTITLED"]["k"] if c["n"] else ""
        want = ch * c["n"]
        over = 2 ** 15 - 1 - len("$k = ")
        t.check(got == want[:over], "comment of %d characters read as %d" % (len(want), len(got)))
    elif c["field"] == "private":
        want = kw["private_zone"][:2 ** 15 - 1]
        t.check(o["private"] == want, "private zone of %d bytes stored as %d bytes %r" % (len(want), len(o["private"]), o["private"][:12]))
    elif c["field"] == "client":
        want = kw["client_zone"][:128].ljust(128, b"\0")
        t.check(o["client"] == want and h["H52_Client_zone"] == want, "client zone %r" % h["H52_Client_zone"])
    elif c["field"] == "operator_name":
        t.check(d["metadata"]["General"]["authors"] == (ch * c["n"])[:30], "operator %r" % d["metadata"]["General"]["authors"])
    else:
        t.check(h["H06_Object_Name"] == (ch * c["n"])[:30], "object name %r" % h["H06_Object_Name"])


def length_cases(tier):
    out = []
    near = [2 ** 15 + k for k in range(-12, 4)] if tier == "thorough" else [2 ** 15 + k for k in (-9, -8, -7, -6, -5, -2, -1, 0, 1)]
    for comp in (True, False):
        for n in [0, 1, 2, 100, 255, 256, 4096] + near:
            for ch in "aé":
                out.append(dict(field="comment", n=n, char=ch, compressed=comp))
        for n in [0, 1, 2, 9, 300, 2 ** 15 - 2, 2 ** 15 - 1, 2 ** 15, 2 ** 15 + 5]:
            out.append(dict(field="private", n=n, compressed=comp))
        for n in [0, 1, 127, 128, 129, 200]:
            out.append(dict(field="client", n=n, compressed=comp))
        for f in ("operator_name", "object_name"):
            for n in [0, 1, 29, 30, 31, 60]:
                out.append(dict(field=f, n=n, char="é", compressed=comp))
    return out


# metadata

def f_metadata(t, c):
    data = values((3, 4), "f8", "ramp")
    s = make("surface", (3, 4), data)
    if c["quantity"] is not None:
        s["metadata"]["Signal"]["quantity"] = c["quantity"]
    for k in ("date", "time"):
        if c[k]:
            s["metadata"]["General"][k] = c[k]
    p = write(t, s)
    d = read(t, p)
    g, sg = d["metadata"]["General"], d["metadata"]["Signal"]
    q = " ".join((c["quantity"] or "").split())
    t.state(g, sg)
    t.check(sg["quantity"] == q, "quantity %r read as %r" % (c["quantity"], sg["quantity"]))
    if c["date"]:
        t.check(g["date"] == c["date"], "date %r read as %r" % (c["date"], g["date"]))
        if c["time"] and c["time"] != "00:00:00":
            t.check(g["time"] == c["time"], "time %r read as %r" % (c["time"], g["time"]))
    else:
        t.check(g["date"] == "", "date %r" % g["date"])


# files not written here

def f_foreign(t, c):
    """Objects encoded independently: number of streams, sizes, special points, several objects and channels."""
    ny, nx, w = c["ny"], c["nx"], c["w"]
    kind = c["kind"]
    bits, special = c["bits"], c["special"]
    typ, nobj, psize, follow = {"surface": (2, 1, 1, 2), "series": (5, 3, 1, 2), "profile": (1, 1, 1, 1), "profiles": (4, 3, 1, 1), "spectrum": (20, 1, 1, 20),
                                "hyper": (21, 1, 1, 21), "layers": (8, 2, 1, 2), "rgb": (12, 1, 3, 10), "rgbs": (18, 2, 3, 10), "rgbsurface": (16, 1, 4, 10),
                                "intensity": (10, 1, 1, 10), "binary": (3, 1, 1, 3)}[kind]
    if kind in ("profile", "profiles"):
        ny = 1
    zmin, dz, z0 = c["z"]
    n = ny * nx * (w if kind == "hyper" else 1)
    buf, vals = b"", []
    for k in range(max(nobj, 1) * psize):
        i = np.arange(n)
        pts = zmin + (i * 5 + k * 3) % 120
        if kind == "binary":
            pts = i % 2
        if special:
            pts = np.where(i % 4 == 1, zmin - 2, pts)
        ty = typ if k == 0 else 12 if kind == "rgbs" and k % 3 == 0 else follow
        com = ("$_S\n$n = %d\n" % k).encode() + b"$p = " + b"q" * c["comment"]
        kw = dict(client=b"c%d" % k)
        buf += surf.encode(pts, comment=com, private=b"pp\0" * k, streams=c["streams"], type=ty, nobj=c.get("nobj0", nobj), psize=c.get("psize0", psize),
                           special=int(special), bits=bits, zmin=zmin, zmax=zmin + 120, nx=nx, ny=ny, wsize=w if kind == "hyper" else c["wz"], dz=dz, z0=z0,
                           dx=0.5, dy=0.25, x0=-2, y0=3, dt=2.0, t0=10, tname="ser", tunit="s", xname="wid", yname="hei", xunit="nm", yunit="um", **kw)
        v = (pts - zmin) * dz + z0
        if special:
            v = np.where(i % 4 == 1, np.nan, v.astype(float))
        vals.append(pts.astype(bool) if kind == "binary" else v)
    p = t.path("f.sur")
    with open(p, "wb") as f:
        f.write(buf)
    d = read(t, p)
    shp = (ny, nx)
    want = {"surface": lambda: vals[0].reshape(shp), "intensity": lambda: vals[0].reshape(shp), "binary": lambda: vals[0].reshape(shp),
            "series": lambda: np.stack(vals).reshape(-1, ny, nx), "layers": lambda: np.stack(vals).reshape(-1, ny, nx),
            "rgb": lambda: np.stack(vals).reshape(-1, ny, nx), "rgbsurface": lambda: np.stack(vals).reshape(-1, ny, nx),
            "rgbs": lambda: np.moveaxis(np.stack(vals).reshape(-1, 3, ny, nx), 1, 3), "profile": lambda: vals[0], "profiles": lambda: np.stack(vals),
            "spectrum": lambda: vals[0].reshape(shp) if ny > 1 else vals[0], "hyper": lambda: vals[0].reshape(ny, nx, w)}[kind]()
    got = d["data"]
    t.state(got)
    t.check(got.shape == want.shape, "shape %s, expected %s" % (got.shape, want.shape))
    if kind == "binary":
        t.check(np.array_equal(got.astype(bool), want), "values")
    else:
        scaled = kind in ("rgb", "rgbs", "rgbsurface", "intensity")
        tol = 0.5001 if scaled else abs(dz) * 1e-4 + abs(z0) * E32
        t.check(np.array_equal(np.isnan(want), np.isnan(got.astype(float))), "special points %s, expected %s" % (got.ravel()[:6], want.ravel()[:6]))
        bad = np.nanmax(np.abs(want - got.astype(float)), initial=0)
        t.check(bad <= tol, "values %s, expected %s" % (got.ravel()[:6], want.ravel()[:6]))
    AXN = {"surface": "YX", "intensity": "YX", "binary": "YX", "series": "TYX", "layers": "TYX", "rgb": "TYX", "rgbsurface": "TYX", "rgbs": "TYXC",
           "profile": "X", "profiles": "TX", "spectrum": "YX" if ny > 1 else "X", "hyper": "YXT"}[kind]
    A = {"X": ("wid", "nm", 0.5, -2), "Y": ("hei", "um", 0.25, 3), "T": ("ser", "s", 2.0, 10), "C": ("ser", "s", 2.0, 10)}
    t.check(len(d["axes"]) == len(AXN), "%d axes" % len(d["axes"]))
    for i, (a, k, m) in enumerate(zip(d["axes"], AXN, want.shape)):
        t.check((a["name"], a["units"], a["scale"], a["offset"]) == A[k] and a["size"] == m, "axis %d: %r" % (i, a))
    om = d["original_metadata"]
    keys = ["Object_%d_Channel_%d" % (i, j) for i in range(max(nobj, 1)) for j in range(psize)]
    t.check(sorted(om) == sorted(keys), "original metadata of %s" % sorted(om))
    for k, key in enumerate(keys):
        t.check(om[key]["Header"]["H52_Client_zone"].rstrip(b"\0") == b"c%d" % k, "%s has the header of object %r" % (key, om[key]["Header"]["H52_Client_zone"].rstrip(b"\0")))
        t.check(om[key]["Parsed"]["S"]["n"] == k, "%s has the comment of object %r" % (key, om[key]["Parsed"]["S"]["n"]))


def foreign_cases(tier):
    out = []
    for kind in ("surface", "series", "profile", "profiles", "spectrum", "hyper", "layers", "rgb", "rgbs", "rgbsurface", "intensity", "binary"):
        for bits in (16, 32):
            for special in (False, True):
                if special and kind in ("rgb", "rgbs", "rgbsurface", "intensity", "binary"):
                    continue
                for z in [(-5, 0.25, 1.5), (0, 1.0, 0.0), (3, 1.0, 3.0), (-7, 2.0, 4.0), (10, 1.0, -3.0), (2, 1.0, 0.5)]:
                    if kind in ("rgb", "rgbs", "rgbsurface", "intensity") and z[1] != 1.0:
                        continue
                    for streams in ([None, 1, 2, 3, 8] if tier == "thorough" or z[0] in (-5, 3) else [None, 2]):
                        for (ny, nx) in [(1, 1), (1, 5), (3, 1), (2, 3), (3, 7)]:
                            out.append(dict(kind=kind, bits=bits, special=special, z=z, streams=streams, ny=ny, nx=nx, w=4, wz=nx % 2, comment=nx * 10))
        for extra in (dict(psize0=0), dict(nobj0=0)):
            if kind in ("surface", "profile", "spectrum", "hyper", "binary", "intensity") or kind in ("series", "layers", "profiles") and "psize0" in extra:
                out.append(dict(kind=kind, bits=16, special=False, z=(3, 1.0, 3.0), streams=None, ny=2, nx=3, w=4, wz=0, comment=3, **extra))
    return out


def f_streams(t, c):
    from rsciio.digitalsurf import _api

    # the number of streams is not an option of the writer
    fn = getattr(getattr(_api, "DigitalSurfHandler", None), "_compress_data", None)
    if fn is None:
        raise Skip("no function for the compression alone")
    a = values((c["n"],), c["dtype"], "ramp")
    t.op("compress")
    b = fn(a, nstreams=c["k"])
    p = t.path("s.sur")
    bits = 8 * a.itemsize
    raw = surf.encode(a, bits=bits, nx=c["n"], type=1, sig="DSCOMPRESSED", csize=len(b))
    raw = raw[:len(raw) - a.nbytes] + b
    with open(p, "wb") as f:
        f.write(raw)
    (o,) = surf.decode(raw)
    t.check(np.array_equal(o["points"], a), "the streams hold other points")
    d = read(t, p)
    close(t, a, d["data"], "read")


def f_second(t, c):
    """Reading twice, writing over and writing with one handler class leave nothing behind."""
    from itertools import permutations

    sigs = {"a": make("surface", (3, 4), values((3, 4), "f8", "ramp")), "b": make("surfaces", (2, 2, 3), values((2, 2, 3), "i2", "ramp")),
            "c": make("profile", (5,), values((5,), "f4", "nan")), "d": make("hyper", (2, 3, 4), values((2, 3, 4), "i4", "odd"))}
    kws = {"a": dict(set_comments="custom", comments={"S": {"n": 1}}, private_zone=b"xyz"), "b": {}, "c": dict(is_special=True), "d": dict(compressed=False)}
    base = {}
    for k in sigs:
        p = write(t, sigs[k], k + ".sur", **kws[k])
        base[k] = open(p, "rb").read()
    got = {}
    for k in sigs:
        got[k] = canon_hash(snapshot(read(t, t.path(k + ".sur"))))
    q = t.path("same.sur")
    for k in c["seq"]:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ds().file_writer(q, sigs[k], **kws[k])
        t.op("write")
        t.check(open(q, "rb").read() == base[k], "%s written after other signals differs" % k)
        d = read(t, t.path(k + ".sur"))
        t.check(canon_hash(snapshot(d)) == got[k], "%s read after other signals differs" % k)


def parts(tier):
    import itertools

    return [
        Part("kinds", kind_cases(tier), f_kinds, "every object kind x shape x dtype x value pattern x special x compressed, byte orders and memory layouts"),
        Part("images", image_cases(tier), f_images, "RGB, RGBA and binary images and series"),
        Part("texts", text_cases(), f_texts, "names and units of every axis of every kind"),
        Part("calibration", [dict(kind=k, axis=i, scale=a, offset=b) for k, (dims, nav) in KINDS.items() if not k.endswith("-nav") for i in range(len(dims)) for a in CAL if a for b in CAL], f_calibration,
             "scales and offsets of every axis of every kind"),
        Part("comments", product(kind=["profile", "surface", "surfaces", "spectra", "hyper"], how=["custom", "raw", "auto", "auto-parsed", "off"], sect=range(len(SECT)), compressed=[True, False]), f_comments,
             "sections and values x method"),
        Part("lengths", length_cases(tier), f_lengths, "comments, private and client zones and names of every length around the limits"),
        Part("metadata", product(quantity=[None, "", "Height", "Height (nm)", "CL Intensity (arb.)", "Counts", "Current density (A/m2)", "I (µA)"], date=["", "2024-06-30", "1999-12-31"], time=["", "13:29:10", "00:00:00", "23:59:59", "00:00:07"]), f_metadata,
             "quantity x date x time"),
        Part("foreign", foreign_cases(tier), f_foreign, "files encoded independently: kind x size x streams x scale x special points"),
        Part("streams", product(n=[1, 2, 3, 7, 8, 9, 16, 17, 120], k=range(1, 9), dtype=["i2", "i4"]), f_streams, "number of points x number of streams"),
        Part("histories", [dict(seq=q) for r in (1, 2, 3) for q in itertools.product("abcd", repeat=r)], f_second, "every sequence of up to three writes and reads over four signals"),
    ]
