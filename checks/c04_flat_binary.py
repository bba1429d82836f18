"""C04: ripple, semper, npy, mrcz and prz round trips."""
import itertools
import json
import os

import numpy as np

from mc.core import Part, Skip, product
from mc.sig import *

PROPERTY = "C04"
ASSUMPTIONS = [
    "arrays of numbers with at least one element and at least one dimension",
    "dimensions of size 1 are squeezed by the ripple, semper and npy readers and, for index "
    "axes, by the prz reader (their documented behaviour); all other sizes must come back",
    "ripple, semper and prz axis names are compared only where the format stores them",
    "mrcz stores one unit for all axes and reads it back as nm; mrcz stores double precision as "
    "single precision (documented by the mrcz library); blosc is not installed, so its "
    "compressed variants cannot be explored here",
]

DT = ["?", "i1", "u1", "<i2", ">i2", "<u2", ">u2", "<i4", ">i4", "<u4", ">u4", "<i8", ">i8",
      "<u8", ">u8", "<f2", ">f2", "<f4", ">f4", "<f8", ">f8", "<c8", ">c8", "<c16", ">c16"]
EXT = {"ripple": "rpl", "semper": "unf", "numpy": "npy", "mrcz": "mrc", "pantarhei": "prz"}
# dtypes and dimensions each writer documents as supported: a refusal there is a failure
ACCEPT = {
    "ripple": ({"u1", "u2", "i4", "i8", "f4", "f8"}, {1, 2, 3}),
    "semper": ({"i1", "i2", "i4", "f4", "c8"}, {1, 2, 3}),
    "numpy": ({np.dtype(d).str[1:] for d in DT}, {1, 2, 3, 4}),
    "mrcz": ({"i1", "i2", "u2", "f4", "c8"}, {2, 3}),
    "pantarhei": ({np.dtype(d).str[1:] for d in DT}, {1, 2, 3, 4}),
}
SHAPES = [(1,), (5,), (1, 1), (3, 4), (1, 5), (5, 1), (2, 3, 4), (1, 3, 4), (3, 1, 4), (3, 4, 1),
          (1, 1, 5), (1, 5, 1), (5, 1, 1), (1, 1, 1), (2, 2, 3, 2)]


def mod(fmt):
    import importlib

    return importlib.import_module("rsciio." + fmt)


def must_accept(fmt, data, nsig, source="numpy"):
    dts, dims = ACCEPT[fmt]
    return (np.dtype(data.dtype).str[1:] in dts and data.ndim in dims and nsig in (1, 2)
            and source == "numpy")


def write(t, fmt, sig, accept, **kw):
    fn = t.path("f." + EXT[fmt])
    t.op("write " + fmt)
    try:
        mod(fmt).file_writer(fn, sig, **kw)
    except Exception as e:
        if accept:
            t.fail("%s writer refuses a supported array: %s: %s" % (fmt, type(e).__name__, e))
        raise Skip("refused: " + type(e).__name__)
    made = [f for f in (fn, fn[:-3] + "raw") if os.path.exists(f)]
    if not made:
        if accept:
            t.fail("%s writer wrote no file" % fmt)
        raise Skip("refused: nothing written")
    return fn


def read(t, fmt, fn, lazy, **kw):
    t.op("read %s lazy=%s" % (fmt, lazy))
    try:
        r = mod(fmt).file_reader(fn, lazy=lazy, **kw)
    except Exception as e:
        t.fail("%s file written without error cannot be read (lazy=%s): %s: %s"
               % (fmt, lazy, type(e).__name__, e))
    t.check(len(r) == 1, "one signal written, %d read" % len(r))
    return r[0]


def none(u):
    return None if u in ("", None) else u


def check_axes(t, what, want, got, data, keys, rtol=0.0):
    """want: list of axis dicts for the dimensions of data as read."""
    t.check(len(got) == data.ndim, lambda: "%s: %d axes for %d dimensions" % (what, len(got), data.ndim))
    got = sorted(got, key=lambda a: a.get("index_in_array", 0)) if all("index_in_array" in a for a in got) else got
    for i, (w, g) in enumerate(zip(want, got)):
        t.check(g["size"] == data.shape[i] == w["size"],
                lambda: "%s: axis %d size %s for dimension %s" % (what, i, g["size"], data.shape[i]))
        if g.get("index_in_array") is not None:
            t.check(g["index_in_array"] == i, lambda: "%s: index_in_array %s at %d" % (what, g["index_in_array"], i))
        for k in keys:
            a, b = w[k], g.get(k)
            if k in ("scale", "offset"):
                ok = b is not None and abs(float(a) - float(b)) <= rtol * max(abs(a), abs(float(b)))
            elif k == "units":
                ok = none(a) == none(b)
            else:
                ok = a == b
            t.check(ok, lambda: "%s: axis %d %s written %r read %r" % (what, i, k, a, b))


def roundtrip(t, fmt, data, nsig, axes, source="numpy", wkw=None, rkw=None, lazies=(False, True),
              chunks=None, title="", signal_type="", extra=None):
    import dask.array as da

    src = data if source == "numpy" else da.from_array(data, chunks=source)
    sig = signal(src, nsig, axes, title=title, signal_type=signal_type, metadata=extra)
    before = data.copy()
    fn = write(t, fmt, sig, must_accept(fmt, data, nsig, source), **(wkw or {}))
    t.check(same_values(before, data), "%s: writing changed the caller's array" % fmt)
    want = data
    if fmt == "mrcz" and data.dtype.str[1:] in ("f8", "c16"):
        with np.errstate(all="ignore"):
            want = data.astype({"f8": "f4", "c16": "c8"}[data.dtype.str[1:]])
    if fmt == "semper" and data.dtype.str[1:] == "f2":
        want = data.astype("f4")
    waxes = list(axes)
    if fmt in ("ripple", "semper", "numpy"):
        waxes = [a for a in axes if a["size"] > 1]
        want = want.squeeze()
    if fmt == "mrcz" and want.ndim == 2:
        # images are stored as a stack of one image
        want = want[None]
        waxes = [dict(waxes[0], size=1, scale=1.0, name="z", navigate=True)] + waxes
    keys = {"ripple": ("scale", "offset", "units"), "semper": ("scale", "offset", "units"),
            "numpy": (), "mrcz": ("scale",), "pantarhei": ()}[fmt]
    rtol = 1e-6 if fmt in ("semper", "mrcz") else 0.0
    variants = [{}]
    if fmt == "pantarhei":
        variants = [dict(allow_restricted_pickle=True), {}]
    for lazy in lazies:
        for v in variants:
            kw = dict(rkw or {}, **v)
            if lazy and chunks is not None:
                kw["chunks"] = chunks
            what = "%s lazy=%s%s" % (fmt, lazy, " unpickle" if v else "")
            d = read(t, fmt, fn, lazy, **kw)
            w, wa = want, waxes
            if fmt == "pantarhei":
                w, wa = prz_squeeze(data, axes, d)
            got = compute(d["data"])
            t.state(fmt, got)
            t.checks += 1
            if not same_values(w, got):
                t.fail("%s: array differs: %s" % (what, describe(w, got)))
            t.check(native(got.dtype) == native(w.dtype),
                    lambda: "%s: dtype %s read as %s" % (what, w.dtype, got.dtype))
            if hasattr(d["data"], "dask"):
                t.check(d["data"].dtype.kind == got.dtype.kind and d["data"].shape == got.shape,
                        what + ": declared dtype or shape of the lazy array is wrong")
            check_axes(t, what, wa, d["axes"], got, keys, rtol)
            # a signal dimension of size 1 leaves the kind of record open
            if fmt == "ripple" and nsig in (1, 2) and all(k > 1 for k in data.shape[-nsig:]):
                nav = [a["navigate"] for a in wa]
                t.check([a["navigate"] for a in d["axes"]] == nav,
                        lambda: "%s: navigate flags written %s read %s" % (what, nav, [a["navigate"] for a in d["axes"]]))
            if fmt == "pantarhei" and v and not signal_type:
                nav = [a["navigate"] for a in wa]
                if nsig in (1, 2) and all(a["name"] != "y!" for a in wa):
                    t.check([a["navigate"] for a in d["axes"]] == nav,
                            lambda: "%s: navigate flags written %s read %s" % (
                                what, nav, [a["navigate"] for a in d["axes"]]))
    return fn


def prz_squeeze(data, axes, d):
    """Dimensions of size 1 of index axes may be dropped by the prz reader."""
    n = d["data"].ndim
    drop = []
    for i, a in enumerate(axes):
        if data.ndim - len(drop) > n and a["size"] == 1:
            drop.append(i)
    return (np.squeeze(data, axis=tuple(drop)) if drop else data,
            [a for i, a in enumerate(axes) if i not in drop])


def f_shape(t, c):
    data = layout(fill(c["shape"], c["dtype"]), c["layout"])
    if c["nsig"] > data.ndim:
        raise Skip("more signal than array dimensions")
    axes = axes_for(data.shape, c["nsig"], c["calibrated"])
    if c["fmt"] == "mrcz":
        for a in axes:
            a["units"] = "nm"
    roundtrip(t, c["fmt"], data, c["nsig"], axes)


def f_source(t, c):
    data = fill(c["shape"], c["dtype"])
    axes = axes_for(data.shape, c["nsig"])
    if c["fmt"] == "mrcz":
        for a in axes:
            a["units"] = "nm"
    src = c["source"]
    if src != "numpy":
        src = tuple(s if src == "whole" else max(1, s // 2) for s in data.shape)
    roundtrip(t, c["fmt"], data, c["nsig"], axes, source=src, chunks=c["chunks"])


def f_chunks(t, c):
    data = fill(c["shape"], c["dtype"])
    if c["order"] == "F":
        data = np.asfortranarray(data)
    axes = axes_for(data.shape, c["nsig"])
    roundtrip(t, c["fmt"], data, c["nsig"], axes, chunks=c["chunks"], lazies=(True,))


def f_sizes(t, c):
    """Axis sizes around the byte boundaries of the headers."""
    data = fill(c["shape"], c["dtype"])
    axes = axes_for(data.shape, c["nsig"])
    if c["fmt"] == "mrcz":
        for a in axes:
            a["units"] = "nm"
    roundtrip(t, c["fmt"], data, c["nsig"], axes)


def f_calib(t, c):
    shape = c["shape"]
    data = fill(shape, c["dtype"])
    axes = axes_for(shape, c["nsig"])
    for a, s, o, u in zip(axes, c["scales"], c["offsets"], c["units"]):
        a.update(scale=s, offset=o, units=u)
    roundtrip(t, c["fmt"], data, c["nsig"], axes, title=c.get("title", ""))


def f_ripple_meta(t, c):
    """ripple: header keys of the signal types and free texts never disturb the data."""
    data = fill((2, 3, 4), "<f4")
    axes = axes_for(data.shape, c["nsig"])
    md = {"Acquisition_instrument": {c["mic"]: {
        "beam_energy": 200.5, "convergence_angle": 10.25, "Stage": {"tilt_alpha": -12.5},
        "Detector": {"EELS": {"collection_angle": 5.5},
                     "EDS": {"elevation_angle": 18.5, "azimuth_angle": -20.5, "live_time": 3.25,
                             "energy_resolution_MnKa": 130.5}}}},
        "General": {"date": "2020-02-29", "time": "12:00:01"}}
    fn = roundtrip(t, "ripple", data, c["nsig"], axes, title=c["title"], signal_type=c["st"], extra=md,
                   wkw={"encoding": c["encoding"]}, rkw={"encoding": c["encoding"]})
    r = read(t, "ripple", fn, False, encoding=c["encoding"])["metadata"]
    t.check(r["Signal"]["signal_type"] == c["st"], "ripple: signal type")
    t.check(r["General"]["title"] == c["title"], lambda: "ripple: title %r read %r" % (c["title"], r["General"]["title"]))
    t.check(r["General"]["date"] == "2020-02-29" and r["General"]["time"] == "12:00:01", "ripple: date")
    tem = r.get("Acquisition_instrument", {}).get("SEM" if c["st"] == "EDS_SEM" else "TEM", {})
    if c["st"] == "EELS":
        t.check(tem.get("beam_energy") == 200.5 and tem.get("convergence_angle") == 10.25
                and tem["Detector"]["EELS"]["collection_angle"] == 5.5,
                lambda: "ripple: EELS metadata read as %s" % tem)
    elif c["st"].startswith("EDS"):
        e = tem["Detector"]["EDS"]
        t.check(tem.get("beam_energy") == 200.5 and tem["Stage"]["tilt_alpha"] == -12.5
                and e == {"elevation_angle": 18.5, "azimuth_angle": -20.5, "live_time": 3.25,
                          "energy_resolution_MnKa": 130.5},
                lambda: "ripple: EDS metadata read as %s" % tem)


RKEYS = [("beam_energy", 200.5), ("convergence_angle", 10.25), ("Stage.tilt_alpha", -12.5), ("Detector.EELS.collection_angle", 5.5),
         ("Detector.EDS.elevation_angle", 18.5), ("Detector.EDS.azimuth_angle", -20.5), ("Detector.EDS.live_time", 3.25),
         ("Detector.EDS.energy_resolution_MnKa", 130.5)]
SAVED = {"EELS": (0, 1, 3), "EDS_TEM": (0, 2, 4, 5, 6, 7), "EDS_SEM": (0, 2, 4, 5, 6, 7), "": ()}


def put(d, path, v):
    for k in path.split(".")[:-1]:
        d = d.setdefault(k, {})
    d[path.split(".")[-1]] = v


def f_ripple_subsets(t, c):
    """Every subset of the metadata the format knows."""
    data = fill((2, 3, 4), "<f4")
    for bits in range(c["start"], c["stop"]):
        have = [RKEYS[i] for i in range(len(RKEYS)) if bits >> i & 1]
        md = {}
        for k, v in have:
            put(md, k, v)
        gen = {k: v for k, v in (("date", "2020-02-29"), ("time", "12:00:01")) if k in c["general"]}
        extra = {"General": gen}
        if md:
            extra["Acquisition_instrument"] = {"TEM" if c["st"] != "EDS_SEM" else "SEM": md}
        sig = signal(data, c["nsig"], axes_for(data.shape, c["nsig"]), signal_type=c["st"], metadata=extra)
        for f in ("a.rpl", "a.raw"):
            if os.path.exists(t.path(f)):
                os.unlink(t.path(f))
        fn = write(t, "ripple", sig, True)
        d = read(t, "ripple", fn, False)
        t.check(same_values(data, compute(d["data"])), "ripple: data")
        got = d["metadata"].get("Acquisition_instrument", {}).get("SEM" if c["st"] == "EDS_SEM" else "TEM", {})
        want = {}
        for i, (k, v) in enumerate(RKEYS):
            if bits >> i & 1 and i in SAVED[c["st"]]:
                put(want, k, v)
        t.state(want)
        t.check(deep_equal(want, plain(got)), lambda: "ripple %s: metadata %s read as %s" % (c["st"], md, got))
        g = d["metadata"]["General"]
        t.check(g.get("date", "") == gen.get("date", "") and g.get("time", "") == gen.get("time", ""), lambda: "ripple: %s" % g)


def plain(d):
    return {k: plain(v) for k, v in d.items()} if isinstance(d, dict) else d


def f_semper_meta(t, c):
    """Title, units, and dates complete or not."""
    data = fill((3, 4), "<f4")
    axes = axes_for(data.shape, 2)
    for a in axes:
        a["units"] = c["units"]
    gen = {k: c[k] for k in ("date", "time") if c[k] is not None}
    fn = roundtrip(t, "semper", data, 2, axes, title=c["title"], extra={"General": gen})
    g = read(t, "semper", fn, False)["metadata"]["General"]
    t.check(g["title"] == c["title"], lambda: "semper: title %r read %r" % (c["title"], g["title"]))
    if c["date"] and c["time"]:
        t.check(g["date"] == c["date"] and g["time"] == (c["time"].split(".")[0] + ":00")[:8], lambda: "semper: date %s %s read %s %s" % (
            c["date"], c["time"], g["date"], g["time"]))


def f_ripple_raw(t, c):
    """A raw file read with an explicit rpl_info: offset, byte order, record-by."""
    w, h, d = c["whd"]
    kinds = {"signed": "i", "unsigned": "u", "float": "f"}
    bo = {"little-endian": "<", "big-endian": ">", "dont-care": "="}[c["order"]]
    dt = np.dtype("%s%s%d" % (bo, kinds[c["type"]], c["length"]))
    shape = {"vector": (h, w, d), "image": (d, h, w), "dont-care": (h, w)}[c["by"]]
    data = fill(shape, dt)
    fn = t.path("r.rpl")
    with open(t.path("r." + c["rawext"]), "wb") as f:
        f.write(b"\xa5" * c["offset"] + data.tobytes())
    info = {"width": w, "height": h, "depth": d if c["by"] != "dont-care" else 1, "offset": c["offset"],
            "data-type": c["type"], "data-length": str(c["length"]), "byte-order": c["order"],
            "record-by": c["by"]}
    if c["how"] == "arg":
        kw = {"rpl_info": info}
    else:
        with open(fn, "w") as f:
            f.write(";comment\nkey\tvalue\n")
            for k, v in info.items():
                if c["how"] == "bruker" and k == "data-length":
                    k = "data-Length"
                f.write("%s\t%s%s\n" % (k, v, " ;note" if c["how"] == "comments" else ""))
        kw = {}
    want = data.squeeze()
    for lazy in (False, True):
        r = read(t, "ripple", fn, lazy, **dict(kw, **({"rpl_info": dict(info)} if kw else {})))
        got = compute(r["data"])
        t.state(got)
        t.check(same_values(want, got), lambda: "ripple raw lazy=%s: %s" % (lazy, describe(want, got)))
        names = {"vector": ("height", "width", "depth"), "image": ("depth", "height", "width"),
                 "dont-care": ("height", "width")}[c["by"]]
        exp = [(n, s) for n, s in zip(names, shape) if s > 1]
        t.check([(a["name"], a["size"]) for a in r["axes"]] == exp,
                lambda: "ripple raw: axes %s expected %s" % ([(a["name"], a["size"]) for a in r["axes"]], exp))


def f_numpy_files(t, c):
    """npy files of every format version, order and navigation split."""
    data = fill(c["shape"], c["dtype"])
    if c["order"] == "F":
        data = np.asfortranarray(data)
    fn = t.path("a.npy")
    with open(fn, "wb") as f:
        np.lib.format.write_array(f, data, version=c["version"])
    nav = c["nav"]
    for lazy in (False, True):
        d = read(t, "numpy", fn, lazy, navigation_axes=None if nav is None else list(nav),
                 **({"chunks": c["chunks"]} if lazy else {}))
        got = compute(d["data"])
        t.state(got)
        w = data.squeeze()
        t.check(same_values(w, got), lambda: "npy lazy=%s: %s" % (lazy, describe(w, got)))
        t.check(got.dtype == data.dtype, "npy dtype")
        exp = [(s, i in (nav or ())) for i, s in enumerate(data.shape) if s > 1]
        t.check([(a["size"], a["navigate"]) for a in d["axes"]] == exp,
                lambda: "npy axes %s expected %s" % (d["axes"], exp))


def f_mrcz(t, c):
    data = layout(fill(c["shape"], c["dtype"]), c["layout"])
    axes = axes_for(data.shape, 2)
    factor = {"nm": 1.0, "Å": 0.1, "\\AA": 0.1, "µm": 1000.0, "\\mum": 1000.0, "pm": 1e-3}[c["units"]]
    for a, s in zip(axes, c["scales"]):
        a.update(units=c["units"], scale=s, offset=0.0)
    sig = signal(data, 2, axes)
    fn = write(t, "mrcz", sig, True, endianness=c["endianness"])
    for lazy in (False, True):
        r = read(t, "mrcz", fn, lazy, endianness=c["endianness"])
        got = np.asarray(r["data"])
        t.state(got)
        t.check(same_values(data, got), lambda: "mrcz lazy=%s: %s" % (lazy, describe(data, got)))
        for i, (a, s) in enumerate(zip(r["axes"], c["scales"])):
            t.check(a["size"] == data.shape[i] and a["index_in_array"] == i, "mrcz: axis sizes")
            t.check(abs(a["scale"] - s * factor) < 1e-5 * s * factor and a["units"] == "nm",
                    lambda: "mrcz: axis %d written %s %s read %s %s" % (i, s, c["units"], a["scale"], a["units"]))


PRZ_TYPES = ["ScanY", "ScanX", "Index", "PlotIndex", "CameraY", "CameraX", "Energy", "Pixel", None]
PRZ_RANK = {k: i for i, k in enumerate(
    ["ScanY", "ScanX", "Index", "PlotIndex", "CameraY", "CameraX", "Pixel", "Energy"])}


def f_prz_read(t, c):
    """prz files as written by the acquisition software: content types in any order."""
    types = c["types"]  # numpy order
    shape = tuple(range(2, 2 + len(types)))
    data = fill(shape, "<f4")
    calib = [{"value": 0.5 * (i + 1), "offset": 2.0 - i, "unit": "u%d" % i} for i in range(len(types))]
    md = {"content.types": list(types)[::-1], "device.calib": calib[::-1],
          "size": list(shape)[::-1], "ref_size": list(shape)[::-1]}
    if c["eels"]:
        md["filter.mode"] = "EELS"
    fn = t.path("p.prz")
    save = np.savez_compressed if c["compressed"] else np.savez
    arr = np.asfortranarray(data) if c["order"] == "F" else data
    with open(fn, "wb") as f:
        save(f, data=arr, meta_data_json=json.dumps([md]), file_format_version=2)
    rank = [PRZ_RANK.get(x, 99) for x in types]
    order = sorted(range(len(types)), key=lambda i: rank[i])
    want = np.transpose(data, order)
    flip = [i for i, k in enumerate(order) if types[k] == "Energy"] if c["eels"] else []
    if flip:
        want = np.flip(want, tuple(flip))
    for lazy in (False, True):
        kw = {"chunks": c["chunks"]} if lazy and c["chunks"] else {}
        d = read(t, "pantarhei", fn, lazy, **kw)
        got = compute(d["data"])
        t.state(got)
        t.check(same_values(want, got), lambda: "prz lazy=%s: %s" % (lazy, describe(want, got)))
        for i, k in enumerate(order):
            a = d["axes"][i]
            off = calib[k]["offset"] * calib[k]["value"]
            if i in flip:
                off = -(off + (want.shape[i] - 1) * calib[k]["value"])
            nav = types[k] in ("ScanY", "ScanX", "Index", "PlotIndex")
            t.check(a["size"] == want.shape[i] and a["scale"] == calib[k]["value"] and abs(a["offset"] - off) < 1e-9
                    and a["units"] == calib[k]["unit"] and a["navigate"] == nav,
                    lambda: "prz lazy=%s: axis %d (%s) is %s" % (lazy, i, types[k], a))
            if types[k] is not None:
                t.check(a["name"] == types[k], "prz: axis name")
    # saved and loaded again: nothing changes
    d = read(t, "pantarhei", fn, False)
    om = copy_json(d["original_metadata"])
    sig = signal(np.ascontiguousarray(compute(d["data"])), None, d["axes"], metadata=d["metadata"],
                 original_metadata=om)
    fn2 = t.path("q.prz")
    t.op("write again")
    mod("pantarhei").file_writer(fn2, sig)
    for lazy in (False, True):
        d2 = read(t, "pantarhei", fn2, lazy, allow_restricted_pickle=True)
        got = compute(d2["data"])
        t.check(same_values(want, got), lambda: "prz re-saved lazy=%s: %s" % (lazy, describe(want, got)))
        for a, b in zip(d["axes"], d2["axes"]):
            for k in ("size", "navigate", "scale", "offset", "units"):
                t.check(a.get(k) == b.get(k), lambda: "prz re-saved: axis %s was %s is %s" % (k, a, b))


def copy_json(x):
    import copy

    return copy.deepcopy(x)


def f_prz_names(t, c):
    names = c["names"]
    shape = tuple(range(2, 2 + len(names)))
    data = fill(shape, "<f4")
    axes = axes_for(shape, c["nsig"])
    for a, n in zip(axes, names):
        a["name"] = n
    roundtrip(t, "pantarhei", data, c["nsig"], axes, signal_type=c["st"])


def parts(tier):
    th = tier == "thorough"
    shapes = SHAPES + ([(2, 3, 4, 5), (7, 1, 3), (1, 2, 1, 3), (6, 7)] if th else [])
    out = []
    cases = []
    for fmt in EXT:
        for sh in shapes:
            for dt in DT:
                for nsig in (1, 2):
                    for lay in LAYOUTS:
                        if lay != "C" and not th and (dt not in ("u1", "<i4", ">i2", "<f4", "<c8", "i1") or nsig == 1
                                                      and len(sh) != 3):
                            continue
                        for cal in (True, False):
                            if not cal and (lay != "C" or dt not in ("<f4", "<i4")):
                                continue
                            if nsig > len(sh):
                                continue
                            if len(sh) == 4 and fmt in ("ripple", "semper") and dt not in ("<f4", "<i4"):
                                continue
                            cases.append(dict(fmt=fmt, shape=sh, dtype=dt, nsig=nsig, layout=lay, calibrated=cal))
    out.append(Part("arrays", cases, f_shape, "format x shape (sizes 1 and >1 in every position) x dtype x memory "
                    "layout x signal dimension x calibrated"))
    ch = ["auto", 1, 2, -1]
    out.append(Part("source", product(fmt=list(EXT), shape=[(3, 4), (2, 3, 4)], dtype=["<f4", "<i4"], nsig=[1, 2],
                                      source=["whole", "half"], chunks=[None]), f_source,
                    "dask sources: refused or faithful"))
    out.append(Part("chunks", [c for fmt in ("ripple", "numpy", "pantarhei")
                               for c in product(fmt=[fmt], shape=[(5,), (3, 4), (2, 3, 4)], dtype=["<f4", ">i4"],
                                                nsig=[1], order="CF", chunks=ch)] +
                    [c for fmt in ("ripple", "numpy", "pantarhei")
                     for c in product(fmt=[fmt], shape=[(2, 3, 5)], dtype=["<f4"], nsig=[1, 2], order="CF",
                                      chunks=chunkings((2, 3, 5)))], f_chunks, "chunks option of the lazy readers"))
    sizes = [127, 128, 255, 256, 257] + ([300, 511, 512, 513, 1000] if th else [])
    big = []
    for fmt, dts in (("ripple", ["u1", "<i4"]), ("semper", ["i1", "<i2"]), ("numpy", ["u1"]), ("mrcz", ["i1"]),
                     ("pantarhei", ["u1"])):
        for n in sizes:
            shs = [(n, 2, 3), (2, n, 3), (2, 3, n)] + ([(n,), (n, 3), (3, n)] if fmt != "mrcz" else [])
            for sh in shs:
                for dt in dts:
                    big.append(dict(fmt=fmt, shape=sh, dtype=dt, nsig=min(2, len(sh))))
    for n in (32767, 32768, 65535, 65536, 65537, 70000):
        for fmt in ("ripple", "numpy", "semper", "pantarhei"):
            big.append(dict(fmt=fmt, shape=(n,), dtype="i1" if fmt == "semper" else "u1", nsig=1))
            big.append(dict(fmt=fmt, shape=(1, n), dtype="i1" if fmt == "semper" else "u1", nsig=2))
    if not th:
        big = [b for b in big if not (b["fmt"] == "semper" and b["shape"][0] > 30000)]
    ACCEPT_BIG.update({})
    out.append(Part("sizes", big, f_size_big, "one axis at the byte boundaries of the header fields"))
    vals = [0.1, 1e-9, 2.5e7, -0.25]
    units = [("nm", "µm", "s"), (None, "nm", "eV"), ("nm", None, "eV"), ("", "nm", None), ("A", "BB", "1/nm")]
    cal = []
    for fmt, dt in (("ripple", "<f4"), ("semper", "<f4")):
        for sh, nsig in [((2, 3, 4), 1), ((2, 3, 4), 2), ((3, 4), 1), ((3, 4), 2), ((5,), 1), ((1, 3, 4), 1),
                         ((3, 1, 4), 1), ((3, 4, 1), 1), ((3, 1, 4), 2), ((3, 4, 1), 2), ((1, 3, 4), 2)]:
            for k in range(4):
                for u in units:
                    cal.append(dict(fmt=fmt, dtype=dt, shape=sh, nsig=nsig,
                                    scales=tuple((vals[k:] + vals[:k])[:len(sh)]),
                                    offsets=tuple((vals[k + 1:] + vals[:k + 1])[:len(sh)]), units=u[-len(sh):]))
    for ti in ["", "a", "title with spaces", "é", "日本", "x" * 99, "x" * 144]:
        cal.append(dict(fmt="semper", dtype="i1", shape=(3, 3), nsig=2, scales=(1., 2.), offsets=(0., 1.),
                        units=("nm", "nm"), title=ti))
    out.append(Part("calibration", cal, f_calib, "scale, offset and units of every axis permuted; titles"))
    out.append(Part("ripple-meta", [c for c in product(
        nsig=[1, 2], mic=["TEM", "SEM"], st=["", "EELS", "EDS_TEM", "EDS_SEM"],
        title=["", "abc", "a b", "tabbed"], encoding=["latin-1", "utf-8"])
        if not (c["st"].startswith("EDS") and not c["st"].endswith(c["mic"])) and not (c["st"] == "EELS" and c["mic"] == "SEM")],
        f_ripple_meta, "signal types x header keys"))
    raw = [c for c in product(whd=[(4, 3, 2), (1, 3, 2), (4, 1, 2), (4, 3, 1), (4, 1, 1), (5, 5, 5)],
                              type=["signed", "unsigned", "float"], length=[1, 2, 4, 8],
                              order=["little-endian", "big-endian", "dont-care"], by=["vector", "image", "dont-care"],
                              offset=[0, 1, 512], rawext=["raw", "RAW"], how=["arg", "file", "comments", "bruker"])
           if not (c["type"] == "float" and c["length"] < 4) and (c["length"] == 1) <= (c["order"] == "dont-care")
           and not (c["by"] != "dont-care" and c["whd"][2] == 1 and c["how"] != "arg")
           and (th or (c["offset"] != 512 or c["whd"] == (4, 3, 2)) and (c["rawext"] == "raw" or c["offset"] == 1)
                and (c["how"] in ("arg", "file") or c["whd"] == (4, 3, 2)))]
    out.append(Part("ripple-subsets", [dict(c, start=i, stop=i + 16) for c in product(
        st=list(SAVED), nsig=[1, 2], general=[(), ("date",), ("time",), ("date", "time")]) for i in range(0, 256, 16)],
        f_ripple_subsets, "subsets of the metadata keys x signal type"))
    out.append(Part("semper-meta", product(title=["", "a", "abc def", "x" * 72, "y" * 100, "z" * 144, "né", "日本"], units=["", "nm", "1/nm"],
                                           date=[None, "", "2020-02-29", "1900-01-01", "1999-12-31", "2100-06-07", "1850-01-02"],
                                           time=[None, "", "12:00:01", "00:00:00", "23:59:59.123456", "01:02"]),
                    f_semper_meta, "titles x units x dates"))
    out.append(Part("ripple-raw", raw, f_ripple_raw, "rpl header keys for foreign raw files"))
    npy = [c for c in product(shape=[(5,), (3, 4), (1, 4), (3, 1), (2, 3, 4), (1, 3, 1, 2)], dtype=["<f4", ">i2", "u1", "<c16", "?"],
                              order="CF", version=[(1, 0), (2, 0), (3, 0)], nav=[None, (0,), (0, 1), (1,), (2,)],
                              chunks=["auto", 1]) if c["nav"] is None or max(c["nav"]) < len(c["shape"])]
    out.append(Part("npy-files", npy, f_numpy_files, "npy versions x order x navigation axes"))
    out.append(Part("mrcz-options", product(shape=[(2, 3, 4), (1, 3, 4), (4, 1, 3), (3, 4, 1)], dtype=["i1", "<i2", "<u2", "<f4", "<c8"],
                                            layout=["C", "F", "reversed"], units=["nm", "Å", "\\AA", "µm", "\\mum", "pm"],
                                            scales=[(0.5, 2.0, 3.0), (3.0, 0.25, 1.0)], endianness="<>"),
                    f_mrcz, "mrcz endianness x units"))
    prz = []
    for n in (1, 2, 3, 4):
        for types in itertools.permutations(PRZ_TYPES, n):
            if n == 4 and not th and not ({"ScanX", "ScanY"} <= set(types)):
                continue
            if n == 1 and types[0] in ("Index", "PlotIndex"):
                pass
            prz.append(types)
    prz += [(None, None), (None, None, "Index"), ("Index", None, None), ("ScanY", "ScanX", None, None)]
    pc = []
    for i, types in enumerate(dict.fromkeys(prz)):
        for eels in (False, True):
            if eels and "Energy" not in types:
                continue
            opts = list(product(compressed=[False, True], order="CF", chunks=[None, 1]))
            if not th:
                opts = [o for o in opts if len(types) <= 2 or (o["compressed"], o["order"], o["chunks"]) in
                        ((False, "C", None), (True, "F", 1), (False, "F", 1))][: 8 if len(types) < 4 else 1]
            for o in opts:
                pc.append(dict(types=types, eels=eels, **o))
    out.append(Part("prz-content", pc, f_prz_read, "content types in every order x EELS flip x storage"))
    nm = []
    for names, nsig in [(("Energy",), 1), (("Energy loss",), 1), (("ScanX", "Energy"), 1), (("ScanY", "Energy loss"), 1),
                        (("ScanY", "ScanX", "Energy"), 1), (("y", "x", "Energy loss"), 1), (("y", "Energy"), 1),
                        (("ScanY", "ScanX", "ky", "kx"), 2), (("Index", "y", "x"), 2), (("z", "y", "x"), 2),
                        (("z", "y", "x"), 1), (("y", "x"), 2), (("x", "E"), 1), ((None, None, None), 1), ((None, None, None), 2)]:
        for st in ("", "EELS"):
            nm.append(dict(names=names, nsig=nsig, st=st))
    out.append(Part("prz-names", nm, f_prz_names, "axis names known to the format"))
    return out


ACCEPT_BIG = {}


def f_size_big(t, c):
    if max(c["shape"]) > 32767 and c["fmt"] == "semper":
        # the 16-bit header field may refuse; the label could hold it
        data = fill(c["shape"], c["dtype"])
        axes = axes_for(data.shape, c["nsig"])
        global must_accept
        keep = must_accept
        try:
            globals()["must_accept"] = lambda *a, **k: False
            roundtrip(t, "semper", data, c["nsig"], axes)
        finally:
            globals()["must_accept"] = keep
        return
    f_sizes(t, c)
