"""C06: NeXus, EMD (NCEM) and USID."""
import itertools
import json
import os
import subprocess
import sys

import numpy as np

from mc.core import Part, Skip, VERIF, product
from mc.sig import *

PROPERTY = "C06"
ASSUMPTIONS = [
    "NeXus stores the coordinates of named axes: the calibration of unnamed axes and the scale of axes of size 1 are not part of the file",
    "axis names within a signal are distinct and are not 'data'; titles are group names without '/'",
    "USID files are written with pyUSID, which only runs in the numpy 1 environment of this sandbox (/opt/venv-usid); "
    "USID has no dimensions of size 1 and no complex or string data in the alphabet"]


def nx():
    from rsciio import nexus

    return nexus


def emd():
    from rsciio import emd

    return emd


CAL = {
    "plain": [(0.5, -2.0), (2.0, 1.0), (0.25, 10.0), (1.0, 0.0)],
    "negative": [(-0.5, 3.0), (-2.0, 0.0), (-1.0, -1.0), (-0.1, 5.0)],
    "small": [(1e-10, 2e-9), (3e-12, -1e-10), (1e-9, 0.0), (2e-10, 0.0)],
    "large": [(1e6, 1e9), (2.5e7, -1e8), (1e5, 0.0), (1.0, 1e4)],
    "int": [(2, 5), (1, 0), (3, -1), (1, 1)],
}


def cal_axes(shape, nsig, cal, names=("t", "y", "x", "E"), units=("s", "nm", "µm", "eV")):
    n = len(shape)
    return [uaxis(int(s), i < n - nsig, name=names[4 - n + i], units=units[4 - n + i], scale=CAL[cal][i][0], offset=CAL[cal][i][1])
            for i, s in enumerate(shape)]


def check_nexus_axes(t, want, d, nav=True):
    ax = {}
    for a in d["axes"]:
        t.check(a["index_in_array"] not in ax, "two axes for the same dimension")
        ax[a["index_in_array"]] = a
    t.check(sorted(ax) == list(range(len(want))), lambda: "axes for dimensions %s" % sorted(ax))
    for i, w in enumerate(want):
        a = ax[i]
        t.check(a["size"] == w["size"] == d["data"].shape[i], "axis %d size" % i)
        if nav:
            t.check(a["navigate"] == w["navigate"], "axis %d navigate is %s" % (i, a["navigate"]))
        if w["name"] is None:
            continue
        t.check(a.get("name") == w["name"], "axis %d name %r expected %r" % (i, a.get("name"), w["name"]))
        t.check((a.get("units") or "") == (w["units"] or ""), lambda: "axis %d units %r expected %r" % (i, a.get("units"), w["units"]))
        keys = ("offset",) if w["size"] == 1 else ("scale", "offset")
        for k in keys:
            t.check(np.isclose(float(a[k]), w[k], rtol=1e-6, atol=1e-9 * abs(w["scale"])),
                    lambda: "axis %d %s %r expected %r (size %d)" % (i, k, a[k], w[k], w["size"]))


def f_nexus(t, c):
    import dask.array as da

    m = nx()
    shape, nsig = c["shape"], c["nsig"]
    a = fill(shape, c["dtype"])
    src = layout(a, c["layout"])
    data = da.from_array(src, chunks=c["chunks"]) if c["chunks"] else src
    axes = cal_axes(shape, nsig, c["cal"])
    for i in c["unnamed"]:
        if i < len(axes):
            axes[i].update(name=None, units=None)
    for i in c.get("unitless", ()):
        if i < len(axes):
            axes[i]["units"] = None
    s = signal(data, axes=[dict(x) for x in axes], title="sig one")
    p = t.path("a.nxs")
    t.op("write")
    m.file_writer(p, s, compression=c.get("compression", "gzip"), use_default=c.get("use_default", False))
    for lazy in (False, True):
        for kw in ({"nxdata_only": True}, {"dataset_key": "sig one"}, {"dataset_path": "/entry1/sig one"}, {"use_default": True, "nxdata_only": True}):
            t.op("read")
            r = [d for d in m.file_reader(p, lazy=lazy, **kw) if "mapping" in d]
            t.check(len(r) == 1, lambda: "%d signals read with %s" % (len(r), kw))
            d = r[0]
            expect_array(t, a, d["data"], "nexus lazy=%s %s" % (lazy, kw))
            # all axes are navigation axes if the dimension of the signal is not 1 or 2
            check_nexus_axes(t, axes, d, nav=nsig in (1, 2))
            t.check(d["metadata"]["General"]["title"] == "sig one", "title")


MD = [
    {},
    {"Acquisition_instrument": {"TEM": {"beam_energy": 200.0, "Detector": {"EDS": {"live_time": 3, "name": "det µ"}}}}},
    {"Sample": {"elements": np.array([1.5, 2.5]), "thickness": np.float32(0.5), "n": np.int64(-3), "flag": True, "empty": ""},
     "General": {"date": "2020-01-02", "time": "03:04:05", "notes": "näme", "original_filename": "x.emd"}},
    {"a": {"b": {"c": {"d": {"e": 1}}}, "m": np.arange(12.0).reshape(3, 4), "list": [1, 2, 3], "t": (1.5, 2.5)}},
    {"Stack": {"values": list(range(12)), "one": np.array([1, 2])}},
    {"Units": {"l": ["µm", "nm"], "ascii": ["a", "bcd"], "c": 1 + 2j, "f": False, "b": np.bool_(True), "zero": 0, "arr0": np.array(2.5)}},
    {"Empty": {"list": [], "arr": np.zeros(0), "dict": {}, "s": ""}, "u8": np.uint8(200), "neg": -2**40, "bools": [True, False], "mixed": (1, 2.5), "d2": [[1, 2], [3, 4]]},
]


def norm(v):
    """What NeXus documents: arrays of length 1 are values, sequences are arrays."""
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        v = np.array(v)
    if isinstance(v, np.ndarray) and v.dtype.kind == "U":
        v = np.char.encode(v, "utf-8")
    if isinstance(v, np.ndarray) and v.shape in ((1,), ()):
        v = v.ravel()
        return v[0]
    return v


def f_nexus_md(t, c):
    m = nx()
    md, om = MD[c["md"]], MD[c["om"]]
    s = signal(fill((3, 4), "f4"), nsig=1, metadata=md, original_metadata=om, title=c["title"])
    p = t.path("a.nxs")
    keep = snapshot(s)
    t.op("write")
    kw = {}
    if not c["save_om"]:
        kw["save_original_metadata"] = False
    m.file_writer(p, s, **kw)
    d1 = tree_diff(keep["metadata"], s["metadata"]) or tree_diff(keep["original_metadata"], s["original_metadata"])
    t.check(d1 is None, "writer changed the signal: %s" % d1)
    for lazy in (False, True):
        t.op("read")
        d = m.file_reader(p, lazy=lazy, nxdata_only=True)[0]
        want = norm(s["metadata"])
        title = c["title"]
        if not title:
            title = "unnamed__0"
        want["General"]["title"] = title.replace("/", "_")
        got = {k: v for k, v in d["metadata"].items() if k != "attrs"}
        t.state(repr(got))
        diff = tree_diff(want, got, seq_strict=False)
        t.check(diff is None, lambda: "metadata lazy=%s: %s" % (lazy, diff))
        if c["save_om"] and om:
            got = {k: v for k, v in d["original_metadata"].items() if k != "attrs"}
            diff = tree_diff(norm(om), got, seq_strict=False)
            t.check(diff is None, lambda: "original metadata lazy=%s: %s" % (lazy, diff))


def f_nexus_multi(t, c):
    """Several signals of one file stay separate."""
    import dask.array as da

    m = nx()
    sigs = []
    for i, (shape, nsig, lazy) in enumerate(c["signals"]):
        a = fill(shape, "f4", seed=100 * i)
        s = signal(da.from_array(a, chunks=shape) if lazy else a, axes=cal_axes(shape, nsig, ["plain", "large", "plain"][i % 3]),
                   title=c["titles"][i], metadata={"Sample": {"n": i}}, original_metadata={"om": {"k": 10 * i}})
        sigs.append((a, s))
    p = t.path("a.nxs")
    t.op("write", len(sigs))
    m.file_writer(p, [s for _, s in sigs], use_default=c["default"])
    for lazy in (False, True):
        r = m.file_reader(p, lazy=lazy, nxdata_only=True)
        t.op("read")
        t.check(len(r) == len(sigs), lambda: "%d signals written, %d read" % (len(sigs), len(r)))
        for i, ((a, s), d) in enumerate(zip(sigs, r)):
            expect_array(t, a, d["data"], "signal %d" % i)
            check_nexus_axes(t, s["axes"], d)
            t.check(d["metadata"]["General"]["title"] == (c["titles"][i] or "unnamed__%d" % i), lambda: "title %r" % d["metadata"]["General"]["title"])
            t.check(d["metadata"]["Sample"]["n"] == i, "metadata of another signal")
            t.check(d["original_metadata"]["om"]["k"] == 10 * i, "original metadata of another signal")
        # everything, then each signal alone
        r2 = [d for d in m.file_reader(p, lazy=lazy) if "mapping" in d]
        t.check(len(r2) == len(sigs), "reading everything")
        for i, (a, s) in enumerate(sigs):
            t.op("read one")
            r1 = m.file_reader(p, lazy=lazy, nxdata_only=True, dataset_path="/entry%d/%s" % (i + 1, c["titles"][i] or "unnamed__%d" % i))
            t.check(len(r1) == 1, "dataset_path selects %d signals" % len(r1))
            expect_array(t, a, r1[0]["data"], "signal %d alone" % i)
            r1 = m.file_reader(p, lazy=lazy, nxdata_only=True, dataset_key="entry%d" % (i + 1))
            t.check(len(r1) == 1, "dataset_key selects %d signals" % len(r1))
            expect_array(t, a, r1[0]["data"], "signal %d alone" % i)
        if c["default"]:
            r1 = m.file_reader(p, lazy=lazy, use_default=True)
            t.check(len(r1) == 1, "use_default returns %d signals" % len(r1))
            expect_array(t, sigs[0][0], r1[0]["data"], "default signal")


# files of other programs: groups, links and defaults
NODES = {
    "nx": ("/entry/data", "NX"), "nx2": ("/entry/data2", "NX"), "other": ("/entryB/data", "NX"), "deep": ("/entry/instrument/det/data", "NX"),
    "raw": ("/entry/raw", "DS"), "rawroot": ("/raw", "DS"), "small": ("/entry/one", "DS1"), "text": ("/entry/text", "TXT"),
    "soft": ("/entry/lnx", "/entry/data"), "softds": ("/entry/lraw", "/entry/raw"), "softroot": ("/zlink", "/entry/data"), "ext": ("/entry/ext", "EXT"), "extgroup": ("/xg", "EXTG"),
}
SIZES = {"/entry/data": (2, 3), "/entry/data2": (3, 2), "/entryB/data": (4,), "/entry/instrument/det/data": (2, 2, 2)}


def build_nexus(p, names, default, seed=0):
    """The file and the datasets in it: (path, kind, shape of the array, is a link)."""
    import h5py

    def nx_group(g, shape, k):
        g.attrs["NX_class"] = "NXdata"
        g.attrs["signal"] = "counts"
        g["counts"] = fill(shape, "i4", seed=k)
        g.attrs["axes"] = ["ax%d" % i for i in range(len(shape))]
        for i, n in enumerate(shape):
            g["ax%d" % i] = np.arange(n) * (0.5 + i) + 2

    found = []

    def nx_found(path, shape, k, link):
        found.append((path, "NX", fill(shape, "i4", seed=k), link))
        for i, n in enumerate(shape):
            if n > 1:
                found.append(("%s/ax%d" % (path, i), "DS", np.arange(n) * (0.5 + i) + 2, link))

    with h5py.File(p, "w") as f:
        f.attrs["creator"] = "x"
        if "entry" in str(names) or True:
            e = f.create_group("entry")
            e.attrs["NX_class"] = "NXentry"
        for k, nm in enumerate(NODES):
            if nm not in names:
                continue
            path, kind = NODES[nm]
            if kind == "NX":
                nx_group(f.require_group(path), SIZES[path], 10 * k)
                nx_found(path, SIZES[path], 10 * k, False)
            elif kind == "DS":
                f[path] = fill((5,), "f4", seed=k)
                found.append((path, "DS", fill((5,), "f4", seed=k), False))
            elif kind == "DS1":
                f[path] = np.array([4.0])
            elif kind == "TXT":
                f[path] = ["a", "bc"]
                found.append((path, "DS", np.array([b"a", b"bc"], object), False))
            elif kind in ("EXT", "EXTG"):
                q = os.path.join(os.path.dirname(p), "other.h5")
                if not os.path.exists(q):
                    with h5py.File(q, "w") as o:
                        o["d"] = fill((6,), "i2")
                        nx_group(o.create_group("g"), (3,), 77)
                if kind == "EXT":
                    f[path] = h5py.ExternalLink("other.h5", "/d")
                    found.append((path, "DS", fill((6,), "i2"), True))
                else:
                    f[path] = h5py.ExternalLink("other.h5", "/g")
                    nx_found(path, (3,), 77, True)
            elif kind in f:
                f[path] = h5py.SoftLink(kind)
                for q, kk, a, _ in list(found):
                    if q == kind or q.startswith(kind + "/"):
                        found.append((path + q[len(kind):], kk, a, True))
        if default == "root" and "nx" in names:
            f.attrs["default"] = "entry"
            e.attrs["default"] = "data"
        elif default == "entry" and "nx" in names:
            e.attrs["default"] = "data"
        elif default == "missing":
            f.attrs["default"] = "nowhere"
    return found


def f_nexus_select(t, c):
    m = nx()
    p = t.path("s.nxs")
    found = build_nexus(p, c["names"], c["default"])
    nxroots = {x[0] for x in found if x[1] == "NX"}
    roots = {x[0].split("/")[1] for x in found if "/" + x[0].split("/")[1] not in nxroots} | {"entry"}
    for only, hard, use, sel in itertools.product((False, True), (False, True), (False, True), SELECT):
        key, path = sel
        t.op("read")
        kw = dict(nxdata_only=only, hardlinks_only=hard, use_default=use, dataset_key=key, dataset_path=path)
        keep = repr(kw)
        r = m.file_reader(p, lazy=(len(keep) + len(found)) % 2 == 0, **kw)
        t.check(repr(kw) == keep, "arguments changed")
        ks, ps = [key] if isinstance(key, str) else key, [path] if isinstance(path, str) else path
        hasdef = "nx" in c["names"] and (c["default"] == "root" or c["default"] == "entry" and roots == {"entry"})
        if use and hasdef:
            want = [x for x in found if x[0] == "/entry/data"]
        else:
            want = [x for x in found if not (hard and x[3])]
            if ks is not None or ps is not None:
                want = [x for x in want if (ks is not None and any(s in x[0] for s in ks)) or (ps is not None and x[0] in ps)]
        if only:
            want = [x for x in want if x[1] == "NX"]
        got = sorted((str(np.asarray(compute(d["data"])).tolist()), "mapping" in d) for d in r)
        exp = sorted((str(x[2].tolist()), x[1] == "NX") for x in want)
        t.check(got == exp, lambda: "%s: %d datasets, expected %s" % (kw, len(r), [x[0] for x in want]))
        # the order is that of the file, data groups first
        titles = [d["metadata"]["General"]["title"] for d in r]
        order = sorted([x for x in want if x[1] == "NX"], key=lambda x: x[0].split("/")) + sorted([x for x in want if x[1] != "NX"], key=lambda x: x[0].split("/"))
        exp = [x[0].split("/")[-1] if x[1] == "NX" else x[0][1:].replace("/", "_") for x in order]
        t.check(titles == exp, lambda: "%s: titles %s expected %s" % (kw, titles, exp))
        for d, x in zip(r, order):
            t.check(np.array_equal(compute(d["data"]), x[2]), lambda: "%s: data of %s" % (kw, x[0]))
            if x[1] == "NX":
                t.check([(a["name"], a["size"], a["scale"], a["offset"]) for a in d["axes"]] == [("ax%d" % i, n, 0.5 + i, 2) for i, n in enumerate(x[2].shape) if True],
                    lambda: "%s: axes of %s: %s" % (kw, x[0], d["axes"]))
    t.state(c["names"], c["default"])


SELECT = [(None, None), ("data", None), (["data2", "raw"], None), ("nothing", None), ([], None), (None, "/entry/data"), (None, ["/entry/raw", "/raw"]), (None, ["/entry/dat"]),
    ("B", ["/entry/raw"]), ("lnx", "/entry/lraw"), ("ax0", None)]


def f_nexus_axes(t, c):
    """The axes of a data group as described by its attributes."""
    import h5py

    m = nx()
    p = t.path("a.nxs")
    shape = (2, 3, 4)[:c["ndim"]]
    a = fill(shape, "f4")
    perm = c["order"]
    with h5py.File(p, "w") as f:
        g = f.create_group("entry/d")
        g.attrs["NX_class"] = c["nxclass"]
        g.attrs["signal"] = c["signal"]
        g["data"] = a
        names = []
        for k, i in enumerate(perm):
            if i is None:
                names.append(".")
                continue
            g["n%d" % i] = np.arange(shape[i]) * (i + 1.5) - i
            if c["units"]:
                g["n%d" % i].attrs["units"] = c["units"] * (i + 1)
            if c["indices"] == "scalar":
                g.attrs["n%d_indices" % i] = i
            elif c["indices"] == "array":
                g.attrs["n%d_indices" % i] = [i]
            names.append("n%d" % i)
        g.attrs["axes"] = names if c["axes"] == "list" else np.array(names, "S") if c["axes"] == "bytes" else ",".join(names)
        if c["inter"]:
            g.attrs["interpretation"] = c["inter"]
    for lazy in (False, True):
        t.op("read")
        r = m.file_reader(p, lazy=lazy, nxdata_only=True)
        t.check(len(r) == 1, "signals")
        d = r[0]
        expect_array(t, a, d["data"], "nexus")
        ax = {x["index_in_array"]: x for x in d["axes"]}
        t.check(sorted(ax) == list(range(len(shape))), lambda: "axes of dimensions %s" % [x["index_in_array"] for x in d["axes"]])
        for i, n in enumerate(shape):
            x = ax[i]
            t.check(x["size"] == n, lambda: "size of axis %d" % i)
            if i in perm:
                t.check((x["name"], x["scale"], x["offset"], x["units"]) == ("n%d" % i, i + 1.5, -i, c["units"] * (i + 1)), lambda: "axis %d: %s" % (i, x))
            if c["inter"] and perm == tuple(range(len(shape))):
                t.check(x["navigate"] == (i < len(shape) - {"spectrum": 1, "image": 2}[c["inter"]]), "navigation flags")
    t.state(c)


def subtree(tree, keys, root=""):
    """Entries whose path contains one of the keys, at their place."""
    out = {}
    for k, v in tree.items():
        path = root + "/" + k if root else k
        if any(s in path for s in keys):
            out[k] = v
        elif isinstance(v, dict):
            sub = subtree(v, keys, path)
            if sub:
                out[k] = sub
    return out


def f_nexus_mdkey(t, c):
    m = nx()
    om = {"inst": {"Fe": 1, "n": {"Fe2": "x", "y": 2.5}}, "arr": np.arange(3), "Mn": {"arr2": [1, 2], "z": 0}, "keys": 3, "keysB": {"keys_c": 1}, "s": "text"}
    p = t.path("m.nxs")
    t.op("write")
    m.file_writer(p, signal(fill((3, 4), "f4"), nsig=1, metadata={"Sample": {"n": 1}}, original_metadata=om, title="s"), **({"skip_metadata_key": c["skip"]} if c["skip"] else {}))
    sk = [c["skip"]] if isinstance(c["skip"], str) else c["skip"] or []

    def drop(v):
        return {k: drop(x) for k, x in v.items() if k not in sk} if isinstance(v, dict) else v

    def fixed(v):
        return {"fix_" + k if k.startswith("keys") else k: fixed(x) for k, x in v.items()} if isinstance(v, dict) else norm(v)

    def noarr(v):
        return {k: noarr(x) for k, x in v.items() if not isinstance(x, np.ndarray)} if isinstance(v, dict) else v

    want = fixed(drop(om))
    if c["noarray"]:
        want = noarr(want)
    if c["key"]:
        want = subtree(want, [c["key"]] if isinstance(c["key"], str) else c["key"])
    for lazy in (False, True):
        t.op("read")
        d = m.file_reader(p, lazy=lazy, nxdata_only=True, metadata_key=c["key"], skip_array_metadata=c["noarray"])[0]
        got = {k: v for k, v in d["original_metadata"].items() if k != "attrs"}
        df = tree_diff(want, got, seq_strict=False)
        t.check(df is None, lambda: "original metadata lazy=%s: %s" % (lazy, df))
        t.state(repr(got))


# ------------------------------------------------------------------ EMD
def f_emd(t, c):
    import dask.array as da

    m = emd()
    shape, nsig = c["shape"], c["nsig"]
    a = fill(shape, c["dtype"])
    src = layout(a, c["layout"])
    data = da.from_array(src, chunks=c["chunks"]) if c["chunks"] else src
    axes = cal_axes(shape, nsig, c["cal"])
    for i in c["unnamed"]:
        if i < len(axes):
            axes[i].update(name=None, units=None)
    om = {"microscope": {"name": "Titan", "ht": 200}, "user": {"name": "me"}, "sample": {}, "comments": {"a": "b"}}
    s = signal(data, axes=[dict(x) for x in axes], title=c["title"], original_metadata=om)
    p = t.path("a.emd")
    t.op("write")
    kw = {}
    if c.get("wchunks") is not None:
        kw["chunks"] = c["wchunks"]
    m.file_writer(p, s, **kw)
    for lazy in (False, True):
        for kw in ({}, {"stack_group": False}, {"dataset_path": "/signals/%s/data" % (c["title"] or "__unnamed__")},
                   {"dataset_path": ["/signals/%s/data" % (c["title"] or "__unnamed__")]}):
            t.op("read")
            r = m.file_reader(p, lazy=lazy, **kw)
            t.check(len(r) == 1, "%d signals read" % len(r))
            d = r[0]
            want = a.astype("S") if False else a
            expect_array(t, want, d["data"], "emd lazy=%s" % lazy)
            t.check([x["index_in_array"] for x in d["axes"]] == list(range(a.ndim)), "axis order")
            for w, g in zip(axes, d["axes"]):
                t.check(g["size"] == w["size"], "size")
                t.check((g["name"] or None) == w["name"], lambda: "name %r expected %r" % (g["name"], w["name"]))
                t.check((g["units"] or None) == w["units"], lambda: "units %r expected %r" % (g["units"], w["units"]))
                for k in ("scale", "offset"):
                    t.check(np.isclose(g[k], w[k], rtol=1e-6, atol=1e-9 * abs(w["scale"])), lambda: "%s %r expected %r" % (k, g[k], w[k]))
            t.check(d["metadata"]["General"]["title"] == (c["title"] or "__unnamed__"), lambda: "title %r" % d["metadata"]["General"]["title"])
            for k, v in om.items():
                t.check(deep_equal(dict(d["original_metadata"].get(k, {})), v), lambda: "original metadata %s: %r" % (k, d["original_metadata"].get(k)))


UNITS_EMD = ["nm", "µm", "Å", "eV", "keV", "1/nm", "s", "", "mm", "mrad", "px", "°", "a.u."]


def f_emd_units(t, c):
    from rsciio.utils._units import _UREG

    m = emd()
    ax = [uaxis(3, False, name="x", units=c["units"], scale=0.5)]
    p = t.path("a.emd")
    t.op("write")
    m.file_writer(p, signal(np.arange(3.0), axes=ax))
    d = m.file_reader(p)[0]
    t.op("read")
    g = d["axes"][0]["units"] or ""
    t.state(g)
    ok = g.replace(" ", "") == c["units"].replace(" ", "")
    if not ok:
        try:
            ok = _UREG(g) == _UREG(c["units"]) and _UREG(g).units == _UREG(c["units"]).units
        except Exception:
            ok = False
    t.check(ok, "units %r read as %r" % (c["units"], g))


def build_emd(p, layout_, groups, shape):
    """NCEM files of several groups, of the old (dim1, transposed) or the new (dim0) kind."""
    import h5py

    out = []
    with h5py.File(p, "w") as f:
        f.attrs["version_major"] = 0
        f.attrs["version_minor"] = 2 if layout_ == "old" else 5
        for i, g in enumerate(groups):
            a = fill(shape, "u2", seed=1000 * i)
            grp = f.create_group(g)
            grp.attrs["emd_group_type"] = 1
            grp.create_dataset("data", data=a.T if layout_ == "old" else a)
            for k in range(len(shape)):
                o = k + 1 if layout_ == "old" else k
                # dimK describes dimension K of the stored array
                j = len(shape) - 1 - k if layout_ == "old" else k
                dim = grp.create_dataset("dim%d" % o, data=1.5 + i + (j + 1) * 0.5 * np.arange(shape[j]))
                dim.attrs["name"] = "axis%d" % j
                dim.attrs["units"] = "[n_m]"
            out.append(a)
    return out


def f_emd_groups(t, c):
    m = emd()
    p = t.path("g.emd")
    arrs = build_emd(p, c["layout"], c["groups"], c["shape"])
    base = {}
    for g, a in zip(c["groups"], arrs):
        base[g] = a

    def axes_ok(d, i, lead):
        for j, x in enumerate(d["axes"][lead:]):
            t.check(x["name"] == "axis%d" % j and x["size"] == c["shape"][j], "axis name")
            if c["shape"][j] > 1:
                t.check(np.isclose(x["scale"], (j + 1) * 0.5) and np.isclose(x["offset"], 1.5 + i), "axis calibration")

    for lazy in (False, True):
        t.op("read")
        r = m.file_reader(p, lazy=lazy, stack_group=False)
        got = {d["metadata"]["General"]["title"]: d for d in r}
        t.check(len(r) == len(arrs), lambda: "%d groups read as %d signals" % (len(arrs), len(r)))
        for i, g in enumerate(c["groups"]):
            d = got[os.path.basename(g)]
            expect_array(t, base[g], d["data"], "group %s" % g)
            axes_ok(d, i, 0)
        for i, g in enumerate(c["groups"]):
            t.op("read path")
            d = m.file_reader(p, lazy=lazy, dataset_path=g + "/data")[0]
            expect_array(t, base[g], d["data"], "group %s by path" % g)
        sel = [g + "/data" for g in c["groups"]][::-1]
        keep = list(sel)
        r = m.file_reader(p, lazy=lazy, dataset_path=sel)
        t.check(sel == keep, "list of paths changed")
        t.check(len(r) == len(sel), "paths read")
        for g, d in zip(c["groups"][::-1], r):
            expect_array(t, base[g], d["data"], "group %s by list" % g)


def f_prismatic(t, c):
    """Simulations with slices at several depths: stored x first, one group per depth."""
    import h5py

    m = emd()
    p = t.path("p.emd")
    kinds = {"annular_detector": ((3, 2), "realslice"), "virtual_detector": ((2, 3, 4), "realslice"), "DPC_CoM": ((3, 2, 2), "realslice"), "CBED_array": ((2, 3, 2, 4), "datacube")}
    arrs = {}
    with h5py.File(p, "w") as f:
        f.attrs["version_major"], f.attrs["version_minor"] = 0, 5
        sim = f.create_group("4DSTEM_simulation/metadata/metadata_0/original/simulation_parameters")
        for k, v in (("ns", c["slices"]), ("s", 2.0), ("zs", c["start"]), ("t", np.array([1, 1, 4 if c["regular"] else 5])), ("c", np.array([c["depths"] * c["slices"] * 2.0 / 4, 1.0, 1.0]))):
            sim.attrs[k] = v
        for j, kind in enumerate(c["kinds"]):
            shape, ds = kinds[kind]
            base = "4DSTEM_simulation/data/%s/" % ("datacubes" if ds == "datacube" else "realslices")
            for d in range(c["depths"]):
                a = fill(shape, "f4", seed=1000 * j + 100 * d)
                g = f.create_group("%s%s_depth%04d" % (base, kind, d))
                g.attrs["emd_group_type"] = 1
                g.create_dataset(ds, data=a, chunks=shape if c["chunked"] else None)
                for i, n in enumerate(shape):
                    dim = g.create_dataset("dim%d" % (i + 1), data=0.5 + j + (i + 1) * 0.25 * np.arange(n))
                    dim.attrs["name"], dim.attrs["units"] = "R_%d" % i, "[n_m]"
                arrs.setdefault(kind, []).append(a)
        if c["potential"]:
            g = f.create_group("4DSTEM_simulation/data/realslices/ppotential")
            g.attrs["emd_group_type"] = 1
            a = fill((2, 3, 4), "f4", seed=9)
            g["realslice"] = a
            for i, n in enumerate(a.shape):
                dim = g.create_dataset("dim%d" % (i + 1), data=0.5 + (i + 1) * 0.25 * np.arange(n))
                dim.attrs["name"], dim.attrs["units"] = "R_%d" % i, "[n_m]"
            arrs["ppotential"] = [a]
    n = c["depths"]
    for lazy, stack in itertools.product((False, True), (None, True, False)):
        t.op("read")
        r = m.file_reader(p, lazy=lazy, stack_group=stack)
        want = []
        for kind, al in arrs.items():
            tr = [a if kind == "CBED_array" else a.transpose() for a in al]
            if stack is False or n == 1 or kind == "ppotential":
                want += [(kind, x, False) for x in tr]
            else:
                want.append((kind, np.stack(tr), True))
        t.check(len(r) == len(want), lambda: "stack_group=%s: %d signals expected %d" % (stack, len(r), len(want)))
        for kind, a, stacked in want:
            d = next((d for d in r if d["data"].shape == a.shape and np.array_equal(compute(d["data"]), a)), None)
            t.check(d is not None, lambda: "stack_group=%s: the slices of %s are not among the signals" % (stack, kind))
            ttl = kind if stack is not False or kind == "ppotential" else None
            if ttl:
                t.check(d["metadata"]["General"]["title"] == ttl, lambda: "title %r expected %r" % (d["metadata"]["General"]["title"], ttl))
            t.check(d["metadata"]["Signal"]["signal_type"] == ("electron_diffraction" if kind == "CBED_array" else ""), "signal type")
            ax = d["axes"]
            t.check([x["index_in_array"] for x in ax] == list(range(a.ndim)) and [x["size"] for x in ax] == list(a.shape), "axes")
            if stacked:
                reg = c["regular"]
                step = c["slices"] * 2.0
                e = (step, c["start"] or step, "Å") if reg else (1, 0, None)
                t.check((ax[0]["scale"], ax[0]["offset"], ax[0]["units"], ax[0]["navigate"]) == e + (True,), lambda: "depth axis %s expected %s" % (ax[0], e))
                ax = ax[1:]
            j = 0 if kind == "ppotential" else c["kinds"].index(kind)
            k = len(ax)
            for i, x in enumerate(ax):
                q = i if kind == "CBED_array" else k - 1 - i
                t.check(x["name"] == "R_%d" % q and np.isclose(x["scale"], (q + 1) * 0.25) and np.isclose(x["offset"], 0.5 + j) and x["units"] == "nm", lambda: "axis %d of %s: %s" % (i, kind, x))
                t.check(x["navigate"] == ((q < 2) if kind == "CBED_array" else q >= 2), lambda: "axis %d of %s navigate" % (i, kind))
    t.state(c)


# ------------------------------------------------------------------ USID
def f_usid(t, c):
    """Batches of cases run by the interpreter which has a working pyUSID."""
    env = dict(os.environ, PYTHONPATH="%s:%s" % (VERIF, "/repo"))
    r = subprocess.run(["/opt/venv-usid/bin/python", "-W", "ignore", os.path.join(VERIF, "mc", "usid_helper.py"), t.dir],
                       input=json.dumps(c["batch"]), capture_output=True, text=True, env=env)
    line = [x for x in r.stdout.splitlines() if x.startswith("RESULT ")]
    t.check(bool(line), lambda: "USID interpreter failed: " + r.stderr[-800:])
    res = json.loads(line[-1][7:])
    t.op("usid", res["ops"])
    for h in res["states"]:
        t.state(h)
    t.checks += res["checks"]
    if res["bad"]:
        t.fail("%d of %d: %s" % (len(res["bad"]), len(c["batch"]), "; ".join("%s: %s" % (b[0], b[1]) for b in res["bad"][:3])))


NSETS = [x for k in (1, 2) for x in itertools.combinations(["nx", "nx2", "other", "deep", "raw", "ext", "extgroup"], k)] + [
    ("nx", "nx2", "raw", "soft", "softds"), ("nx", "soft", "softroot", "small", "text"), ("raw", "softds", "rawroot"), tuple(NODES), ("nx", "softroot"), ("nx", "other", "deep", "ext", "softds", "raw")]
NAXES = [dict(ndim=n, order=o, axes=k, indices=ix, units=u, inter=it, nxclass=cl, signal=sg)
    for n in (1, 2, 3) for o in itertools.product([None, 0, 1, 2][:n + 1], repeat=n) if len(set(o) - {None}) == sum(x is not None for x in o) and (None not in o or all(x in (None, i) for i, x in enumerate(o)))
    for k in ("list", "bytes", "comma") for ix in ("none", "scalar", "array") if not (ix == "none" and any(x is not None and x != i for i, x in enumerate(o)))
    for u, it in (("nm", None), ("", "spectrum"), ("eV", "image")) if not (it == "image" and n < 2)
    for cl, sg in ((("NXdata", "data"),) if k != "list" else (("NXdata", "data"), (b"NXdata", "1"), ("NXdata", b"data")))]


def parts(tier):
    th = tier == "thorough"
    dts = ["u1", "i2", ">i4", "u8", "f4", "f8", ">f8", "c8", "c16", "bool", "i8"]
    shapes = [((5,), 1), ((1,), 1), ((2,), 0), ((3, 4), 1), ((3, 4), 2), ((3, 4), 0), ((1, 4), 1), ((4, 1), 1), ((1, 1), 2), ((2, 3, 4), 1), ((2, 3, 4), 2), ((2, 3, 4), 3),
              ((1, 3, 2), 2), ((3, 3, 3), 1), ((2, 3, 2, 3), 2), ((2, 2, 2, 2), 1), ((2, 1, 3, 1), 2)]
    nxc, emc = [], []
    for shape, nsig in shapes:
        for dt in dts if th or len(shape) == 2 else ["u2", "f4", ">f8"]:
            for cal in CAL:
                for lay in ("C", "F", "reversed") if cal == "plain" else ("C",):
                    nxc.append(dict(shape=shape, nsig=nsig, dtype=dt, cal=cal, layout=lay, chunks=None, unnamed=()))
                    emc.append(dict(shape=shape, nsig=nsig, dtype=dt, cal=cal, layout=lay, chunks=None, unnamed=(), title="t1"))
        n = len(shape)
        for un in [x for k in range(1, n + 1) for x in itertools.combinations(range(n), k)]:
            nxc.append(dict(shape=shape, nsig=nsig, dtype="f4", cal="plain", layout="C", chunks=None, unnamed=un))
            nxc.append(dict(shape=shape, nsig=nsig, dtype="f4", cal="plain", layout="C", chunks=None, unnamed=(), unitless=un))
            emc.append(dict(shape=shape, nsig=nsig, dtype="f4", cal="plain", layout="C", chunks=None, unnamed=un, title=""))
        for ch in chunkings(shape):
            nxc.append(dict(shape=shape, nsig=nsig, dtype="u2", cal="plain", layout="C", chunks=ch, unnamed=()))
            emc.append(dict(shape=shape, nsig=nsig, dtype="u2", cal="plain", layout="C", chunks=ch, unnamed=(), title="a title"))
            emc.append(dict(shape=shape, nsig=nsig, dtype="u2", cal="plain", layout="C", chunks=None, unnamed=(), title="a title", wchunks=ch))
        emc.append(dict(shape=shape, nsig=nsig, dtype="u2", cal="plain", layout="C", chunks=None, unnamed=(), title="a", wchunks=True))
    for comp in (None, "lzf"):
        nxc.append(dict(shape=(3, 4), nsig=1, dtype="u2", cal="plain", layout="C", chunks=None, unnamed=(), compression=comp, use_default=True))
    sg = [((3, 4), 1, False), ((3, 4), 1, True), ((5,), 1, False), ((2, 3, 4), 2, False)]
    multi = [dict(signals=list(x), titles=ti[:k], default=de) for k in (1, 2, 3) for x in itertools.product(sg, repeat=k) if th or k < 3 or x[0] == sg[0]
             for ti in (["a", "b", "c"], ["same", "same", "same"], ["", "", ""], ["x", "xy", "y"]) for de in (False, True)]
    us = []
    for shape, nsig in [((5,), 1), ((3, 4), 1), ((3, 4), 2), ((3, 4), 0), ((2, 3, 4), 1), ((2, 3, 4), 2), ((3, 3, 3), 1), ((2, 3, 2, 3), 2), ((2, 3, 4, 2), 1)]:
        for dt in ["u1", "i2", "f4", "f8", "i8"]:
            for cal in ("plain", "negative", "large", "int"):
                us.append(dict(shape=shape, nsig=nsig, dtype=dt, cal=cal, lazy=False, times=1))
        us.append(dict(shape=shape, nsig=nsig, dtype="f4", cal="plain", lazy=True, times=1))
        us.append(dict(shape=shape, nsig=nsig, dtype="f4", cal="plain", lazy=False, times=3))
    k = 8
    return [
        Part("nexus", nxc, f_nexus, "shape/split x dtype x calibration x layout x unnamed axes x chunks x reader options"),
        Part("nexus-metadata", product(md=range(len(MD)), om=range(len(MD)), title=["t", "", "a/b"], save_om=[True, False]), f_nexus_md,
             "metadata trees x original metadata trees x title"),
        Part("nexus-multi", multi, f_nexus_multi, "1-3 signals x titles x default x lazy x selection"),
        Part("nexus-select", [dict(names=n, default=d) for n in NSETS for d in (None, "root", "entry", "missing")], f_nexus_select,
             "files with NXdata groups, datasets, soft and external links x default x every selection option"),
        Part("nexus-axes", NAXES, f_nexus_axes, "attributes which describe the axes: kind of list, order, missing names, indices, interpretation"),
        Part("nexus-metadata-keys", product(key=[None, "Fe", ["Fe", "arr"], "inst", "nothing", ["z", "keys"]], skip=[None, "inst", ["arr", "z"]], noarray=[False, True]), f_nexus_mdkey,
             "metadata_key x skip_metadata_key x skip_array_metadata"),
        Part("emd", emc, f_emd, "shape/split x dtype x calibration x layout x unnamed axes x chunks x reader options"),
        Part("emd-units", product(units=UNITS_EMD), f_emd_units, "units"),
        Part("emd-groups", product(layout=["old", "new"], shape=[(3,), (2, 3), (2, 3, 4), (2, 2, 2)],
                                   groups=[["a"], ["a", "b"], ["s/a", "s/b", "t/c"], ["g/group0000", "g/group0001", "g/group0002"]]), f_emd_groups,
             "NCEM files of several groups x selection"),
        Part("emd-prismatic", list(product(kinds=[x for k in (1, 2) for x in itertools.permutations(["annular_detector", "virtual_detector", "DPC_CoM", "CBED_array"], k)], depths=[1, 2, 11],
                                      slices=[2, 3], start=[0.0, 4.0], regular=[True, False], potential=[False, True], chunked=[False, True]))[:: 1 if th else 5], f_prismatic,
             "prismatic simulations: detectors x number of depths x regular depth x stack_group x lazy"),
        Part("usid", [dict(batch=us[i::k]) for i in range(k)], f_usid, "shape/split x dtype x calibration x lazy x appended datasets", timeout=600),
    ]
