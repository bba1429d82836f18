"""C18: frame ranges, scan shapes and detector layouts of pixelated-detector and stack formats."""
import itertools
import logging
import os
import struct

import numpy as np

from mc.core import Part, product
from mc.sig import *

PROPERTY = "C18"
ASSUMPTIONS = [
    "Merlin: a scan shape of more frames than the file has is an interrupted scan, of which the completed lines are read; one of more frames than the range asked for falls back to a stack; one of fewer reads the first ones",
    "dimensions of size one are left out of the arrays, as documented by the tests",
    "without a header file the lines of a Merlin scan are recognised by their longer pauses",
    "MRC: FEI extended headers are recognised by their length",
    "Arina: rebinning is the mean over blocks, truncated for integers; frames are in the order of the data sets, the first scan dimension being the slow one"]


def prepare(scratch):
    import dask

    dask.config.set(scheduler="sync")
    logging.getLogger("rsciio").setLevel(logging.CRITICAL)


def R(name):
    import importlib

    return importlib.import_module("rsciio." + name).file_reader


# ---------------------------------------------------------------- Merlin
KIND = {"U08": ">u1", "U16": ">u2", "U32": ">u4"}


def stamp(k, gap, every):
    ns = k * 1000000 + (k // every) * gap if every else k * 1000000
    return "2021-05-07T16:51:%02d.%09dZ" % (10 + ns // 10**9, ns % 10**9)


def frames_of(n, h, w, kind):
    a = np.arange(n * h * w).reshape(n, h, w)
    top = np.iinfo(KIND[kind]).max
    return ((a * (251 if kind == "U08" else 65521) + a) % top).astype(KIND[kind])


def mib(path, n, h, w, kind="U16", layout="1x1", every=0, extra=0, hdr=None, gap=7000000):
    head = 768 if layout == "2x2" else 384
    data = frames_of(n, h, w, kind)
    out = []
    for k in range(n):
        s = "MQ1,%06d,%05d,%s,%04d,%04d,%s,%6s,%s,2021-05-07 16:51:10.905800928,0.002000,0,0,0,1.2E+2," % (
            k + 1, head, "04" if layout == "2x2" else "01", w, h, kind, layout, "0F" if layout == "2x2" else "01")
        s += "5.110000E+2,0.0E+0,0,0,0,0,0,0,3RX,175,511,000," + ("MQ1A," * 40 if layout == "2x2" else "") + "%s,%dns,12,0" % (stamp(k, gap, every), 1000000 + 1000 * k)
        out.append(s.encode().ljust(head, b" ") + data[k].tobytes())
    raw = b"".join(out)
    if extra:
        raw += out[0][:extra]
    with open(path, "wb") as f:
        f.write(raw)
    if hdr:
        with open(os.path.splitext(path)[0] + ".hdr", "w") as f:
            f.write("HDR,\t\nTime and Date Stamp (day, mnth, yr, hr, min, s):\t07/05/2021 16:51:10\nFrames in Acquisition (Number):\t%d\nFrames per Trigger (Number):\t%d\nEnd\t                                              \n" % hdr)
    return data, raw


def select(full, first, last, nav):
    """The arrays which may be returned, before dimensions of size one are left out."""
    n = len(full)
    s = full[slice(first, last)]
    m = len(s)
    if nav is None:
        return [s]
    p = int(np.prod(nav))
    if p <= m:
        return [s[:p].reshape(tuple(nav[::-1]) + s.shape[1:])]
    if p <= n:
        return [s]
    if len(s) and len(nav) > 1 and slice(first, last).indices(n)[0] == 0:
        k = m // nav[0]
        lines = [s[:k * nav[0]].reshape((k, nav[0]) + s.shape[1:])]
        return lines if m == n else lines + [s]
    return [s]


def is_one_of(t, got, wanted, what, squeeze=True):
    got = np.asarray(compute(got))
    for w in wanted:
        if got.size == w.size == 0 or squeeze and (got.size == w.size and np.array_equal(got.squeeze(), w.squeeze())) or np.array_equal(got, w):
            return
    t.fail("%s: %s" % (what, describe(wanted[0].squeeze() if squeeze else wanted[0], got)))


NONE = [None]


def f_mib(t, c):
    from rsciio.quantumdetector import load_mib_data, parse_exposures, parse_timestamps

    read = R("quantumdetector")
    n, kind = c["n"], c["kind"]
    p = t.path("a.mib")
    full, raw = mib(p, n, 4, 3, kind, c["layout"], extra=c["extra"])
    navs = [None] + [(a,) for a in range(1, n + 2)] + [(a, b) for a in range(1, n + 1) for b in range(1, n + 2) if a * b <= n + 3] + [(2, 1, 2), (2, 2, 2)]
    firsts = NONE + list(range(-n - 1, n + 1))
    for first, last in itertools.product(firsts, firsts):
        m = len(range(n)[slice(first, last)])
        for nav in navs:
            want = select(full, first, last, nav)
            empty = any(w.size == 0 for w in want)
            o = dict(navigation_shape=nav, first_frame=first, last_frame=last)
            for how in ("read", "lazy", "mmap", "buffer"):
                if how == "lazy" and (nav is not None and len(nav) > 1 and (first, last) != (None, None)) and c["extra"]:
                    continue
                what = "%s of %d frames, %s" % (how, n, o)
                t.op(what)
                try:
                    if how in ("read", "lazy"):
                        r = read(p, lazy=how == "lazy", **o)[0]
                        d = compute(r["data"])
                    else:
                        d, h = load_mib_data(p if how == "mmap" else raw, return_headers=True, **o)
                except (ValueError, OSError) as e:
                    # nothing to read, which is refused
                    t.check(empty, lambda: "%s raised %s" % (what, e))
                    continue
                t.state(first, last, nav, how)
                if how in ("read", "lazy"):
                    is_one_of(t, d, [w[..., ::-1, :] for w in want], what)
                    t.check([a["size"] for a in r["axes"]] == list(d.shape), lambda: "%s: axes" % what)
                    t.check([a["navigate"] for a in r["axes"]] == [True] * (d.ndim - 2) + [False] * 2, lambda: "%s: navigation axes" % what)
                else:
                    is_one_of(t, d, want, what, squeeze=False)
                    t.check(h.shape == d.shape[:-2], lambda: "%s: headers of shape %s" % (what, h.shape))
                    hs = [x for x in h.ravel()]
                    ids = range(n)[slice(first, last)][:len(hs)]
                    for k in (-1, 1, 2, n, n + 5):
                        e = ids if k == -1 else ids[:k]
                        t.check(parse_exposures(hs, max_index=k) == [(1000000 + 1000 * i) / 1e6 for i in e], lambda: "%s: exposures with max_index=%d" % (what, k))
                        t.check(parse_timestamps(hs, max_index=k) == [stamp(i, 0, 0) for i in e], lambda: "%s: timestamps with max_index=%d" % (what, k))
        if m == 0:
            t.state("empty", first, last)


def f_mib_guess(t, c):
    """The scan shape from the header file or the pauses."""
    read = R("quantumdetector")
    n, x = c["n"], c["x"]
    p = t.path("a.mib")
    full, raw = mib(p, n, 4, 3, c["kind"], every=x, hdr=c["hdr"], gap=c["gap"])
    full = full[:, ::-1]
    if c["hdr"] and 0 in c["hdr"]:
        wanted = lambda f, l: [full[slice(f, l)]]
    else:
        # pauses between lines
        line = x if x and n > x else 1
        number = n
        if c["hdr"]:
            number = c["hdr"][0]
            if c["hdr"][1] > 1:
                line = c["hdr"][1]
        nav = (line, number // line)
        wanted = lambda f, l: select(full, f, l, nav)
    for first, last in [(None, None), (0, n), (1, None), (None, -1), (2, 3), (0, 3)]:
        for lazy in (False, True):
            what = "frames %s:%s of %d, lines of %s, header file %s, lazy=%s" % (first, last, n, x, c["hdr"], lazy)
            want = wanted(first, last)
            t.op(what)
            try:
                r = read(p, lazy=lazy, first_frame=first, last_frame=last)[0]
            except (ValueError, OSError) as e:
                t.check(any(w.size == 0 for w in want), lambda: "%s raised %s" % (what, e))
                continue
            t.state(n, x, c["hdr"], first, last)
            is_one_of(t, r["data"], want, what)
            t.check(r["metadata"]["General"]["date"] == "2021-05-07" and abs(r["metadata"]["Acquisition_instrument"]["dwell_time"] - 1e-3) < 1e-12, lambda: "%s: metadata %s" % (what, r["metadata"]))


def f_mib_name(t, c):
    """The header file which belongs to a file is found by its name."""
    d = t.path(c["dir"])
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, c["name"])
    full, raw = mib(p, 6, 4, 3, hdr=(6, 2) if c["hdr"] else None)
    t.op("read %s" % c)
    r = R("quantumdetector")(p)[0]
    t.state(c)
    is_one_of(t, r["data"], [full[:, ::-1].reshape((3, 2, 4, 3) if c["hdr"] else (6, 4, 3))], str(c))
    t.check(("hdr_file" in r["original_metadata"]) == c["hdr"], "header file")
    t.check(r["metadata"]["General"]["original_filename"] == c["name"], "original_filename")


# ---------------------------------------------------------------- MRC
MODE = {0: "u1", 1: "i2", 2: "f4", 4: "c8", 6: "u2", 12: "f2"}


def mrc(path, data, end="<", ext=0, lens=(10.0, 20.0, 30.0), origin=(1.0, 2.0, 3.0), pixel=2e-9):
    """data: (z, y, x)."""
    mode = [k for k, v in MODE.items() if np.dtype(v) == data.dtype][0]
    z, y, x = data.shape
    b = struct.pack(end + "10I", x, y, z, mode, 0, 0, 0, x, y, z) + struct.pack(end + "6f", *(lens + (90.0,) * 3)) + struct.pack(end + "3I", 1, 2, 3)
    b += struct.pack(end + "3f", 0, 1, 0.5) + struct.pack(end + "2HI", 0, 0, ext)
    b = b.ljust(196, b"\0") + struct.pack(end + "3f", *origin) + b"MAP " + (b"DA\0\0" if end == "<" else b"\x11\x11\0\0")
    b = b.ljust(1024, b"\0")
    if ext == 131072:
        for k in range(1024):
            b += struct.pack(end + "13f", 1.5 * k, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, pixel, 1000.0).ljust(128, b"\0")
    else:
        b += bytes(range(1, 252)) * (ext // 251) + bytes(ext % 251)
    with open(path, "wb") as f:
        f.write(b + data.astype(data.dtype.newbyteorder(end)).tobytes())


def content(shape, dtype):
    n = int(np.prod(shape))
    a = np.arange(n).reshape(shape)
    if np.dtype(dtype).kind == "c":
        return (a + 1j * (n - a)).astype(dtype)
    if np.dtype(dtype).kind == "f":
        return (a / 4 - 7).astype(dtype)
    return (a * 77 % (np.iinfo(dtype).max - 3) + (np.iinfo(dtype).min // 2)).astype(dtype)


def f_mrc(t, c):
    read = R("mrc")
    z, y, x = c["shape"]
    full = content(c["shape"], MODE[c["mode"]])
    p = t.path("a.mrc")
    mrc(p, full, c["end"], c["ext"])
    navs = [None] + [v for v in itertools.chain([(a,) for a in range(1, z + 2)], itertools.product(range(1, z + 1), repeat=2), itertools.product((1, 2, 3), repeat=3)) if np.prod(v) <= z + 1]
    for nav, lazy, chunks in itertools.product(navs, (False, True), ("auto", "whole")):
        k = int(np.prod(nav)) if nav else z
        want = full[:k].reshape(tuple(nav[::-1] if nav else (z,)) + (y, x)) if k <= z else None
        what = "navigation_shape=%s lazy=%s chunks=%s" % (nav, lazy, chunks)
        o = {"chunks": (want.shape if chunks == "whole" else "auto")} if want is not None else {}
        t.op(what)
        try:
            r = read(p, lazy=lazy, endianness=c["end"], navigation_shape=nav, **o)[0]
            d = compute(r["data"])
        except (ValueError, OSError) as e:
            t.check(want is None, lambda: "%s raised %s" % (what, e))
            continue
        t.check(want is not None, lambda: "%s: %d frames from a file of %d" % (what, k, z))
        t.state(c["shape"], nav, lazy)
        w = want.squeeze()
        t.check(d.shape == w.shape and same_values(w, d), lambda: "%s: %s" % (what, describe(w, d)))
        names = [""] * (want.ndim - 3) + ["z", "y", "x"]
        scale = [1] * (want.ndim - 3) + ([3.0 / z, 2.0 / y, 1.0 / x] if c["ext"] != 131072 else [1, 2, 2])
        offset = [0] * (want.ndim - 3) + ([0.3, 0.2, 0.1] if c["ext"] != 131072 else [0, 0, 0])
        keep = [i for i, s in enumerate(want.shape) if s > 1]
        got = [(a["size"], a["name"], a["navigate"], a["index_in_array"]) for a in r["axes"]]
        exp = [(want.shape[i], names[i], i < want.ndim - 2, n) for n, i in enumerate(keep)]
        t.check(got == exp, lambda: "%s: axes %s, expected %s" % (what, got, exp))
        if nav is None:
            t.check(np.allclose([a["scale"] for a in r["axes"]], [scale[i] for i in keep], rtol=1e-5) and np.allclose([a["offset"] for a in r["axes"]], [offset[i] for i in keep], rtol=1e-5),
                lambda: "%s: calibration %s" % (what, [(a["scale"], a["offset"]) for a in r["axes"]]))


def de_info(path, **kw):
    with open(path, "w") as f:
        for k, v in kw.items():
            f.write("%-60s = %s\n" % (k.replace("__", " - ").replace("_", " "), v))


def f_raster(t, c):
    """Scans with a metadata file of Direct Electron."""
    read = R("mrc")
    sx, sy, ky, kx = c["scan"] + c["sig"]
    full = content((sx * sy, ky, kx), "u2")
    p = t.path("a.mrc")
    mrc(p, full)
    info = t.path("i.txt")
    with open(info, "w") as f:
        roi = c["roi"]
        L = {"Scan - Enable": "Enable", "Scan - Type": "Raster", "Scan - ROI Enable": "Enable" if roi else "Disable", "Scan - Size X": sx if not roi else 97, "Scan - Size Y": sy if not roi else 98,
            "Scan - ROI Size X": sx, "Scan - ROI Size Y": sy, "Image Size X (pixels)": kx, "Image Size Y (pixels)": ky}
        if c["px"]:
            L.update({"Specimen Pixel Size X (nanometers)": 0.5, "Specimen Pixel Size Y (nanometers)": 0.25, "Diffraction Pixel Size X": 0.125, "Diffraction Pixel Size Y": 2})
        elif c["px"] is None:
            L.update({"Specimen Pixel Size X (nanometers)": -1, "Specimen Pixel Size Y (nanometers)": -1, "Diffraction Pixel Size X": -1, "Diffraction Pixel Size Y": -1})
        for k, v in L.items():
            f.write("%-60s = %s\n" % (k, v))
    n = sx * sy
    for nav, lazy in itertools.product([None] + [(a, n // a) for a in range(1, n + 1) if n % a == 0] + [(n,)], (False, True)):
        s = nav or (sx, sy)
        want = full.reshape(tuple(s[::-1]) + (ky, kx))
        what = "scan of %s, navigation_shape=%s lazy=%s" % (c["scan"], nav, lazy)
        t.op(what)
        r = read(p, lazy=lazy, metadata_file=info, navigation_shape=nav)[0]
        d = compute(r["data"])
        t.state(c["scan"], nav)
        w = want.squeeze()
        t.check(d.shape == w.shape and np.array_equal(d, w), lambda: "%s: %s" % (what, describe(w, d)))
        names = (["y", "x"] if len(s) == 2 else ["x"]) + ["ky", "kx"]
        scale = ([0.25, 0.5, 2, 0.125] if c["px"] else [1] * 4)[-len(names):]
        if len(s) == 1:
            scale[0] = 0.5 if c["px"] else 1
        keep = [i for i, k in enumerate(want.shape) if k > 1]
        got = [(a["size"], a["name"], a["navigate"], float(a["scale"])) for a in r["axes"]]
        exp = [(want.shape[i], names[i], i < want.ndim - 2, float(scale[i])) for i in keep]
        t.check(got == exp, lambda: "%s: axes %s, expected %s" % (what, got, exp))


def f_scan(t, c):
    """Scans along a path given in a file: every frame at its position."""
    read = R("mrc")
    pts = [(i // 2, i % 2) for i in c["points"]]  # (x, y) of a 3x2 grid
    n = len(pts)
    full = content((n, 4, 3), "u2") + 1
    p = t.path("a.mrc")
    mrc(p, full)
    with open(t.path("s.csv"), "w") as f:
        for x, y in pts:
            f.write("%d,%d\n" % (x, y))
    info = t.path("i.txt")
    with open(info, "w") as f:
        f.write("Scan - Enable = Enable\nScan - Type = XY File\nImage Size X (pixels) = 3\nImage Size Y (pixels) = 4\n")
    w, h = max(x for x, y in pts) + 1, max(y for x, y in pts) + 1
    rep = max(pts.count(q) for q in pts)
    want = np.zeros((h, w, rep, 4, 3), "u2")
    seen = {}
    for k, (x, y) in enumerate(pts):
        want[y, x, seen.get((x, y), 0)] = full[k]
        seen[x, y] = seen.get((x, y), 0) + 1
    for lazy in (False, True):
        what = "points %s lazy=%s" % (pts, lazy)
        t.op(what)
        r = read(p, lazy=lazy, metadata_file=info, scan_file=t.path("s.csv"))[0]
        d = compute(r["data"])
        t.state(pts)
        v = want.squeeze()
        t.check(d.shape == v.shape and np.array_equal(d, v), lambda: "%s: %s" % (what, describe(v, d)))
        ax = r["axes"]
        t.check([a["size"] for a in ax] == list(d.shape), lambda: "%s: sizes of the axes %s, shape %s" % (what, [a["size"] for a in ax], d.shape))
        names = ["y", "x", None, "ky", "kx"]
        for a, i in zip(ax, [i for i, k in enumerate(want.shape) if k > 1]):
            t.check(names[i] is None and a["name"] not in ("x", "y", "kx", "ky") or a["name"] == names[i], lambda: "%s: axis %s is named %s" % (what, i, a["name"]))
            t.check(a["navigate"] == (i < 3), lambda: "%s: navigation axes" % what)


# ---------------------------------------------------------------- EMPAD, Arina, Impulse
def f_empad(t, c):
    p, raw = t.path("e.xml"), t.path(c["raw"])
    nav = c["nav"]
    n = int(np.prod(nav))
    a = np.zeros((n, 130, 128), "<f4")
    a[:] = np.arange(n)[:, None, None] * 1000 + np.arange(130)[:, None] + np.arange(128)[None] / 128
    if c["nan"]:
        a[:, 5, 7] = np.nan
    a.tofile(raw)
    x = "<root><raw_file filename='%s'/>" % c["raw"]
    if len(nav) == 1:
        x += "<scan_parameters><series_count>%d</series_count></scan_parameters>" % nav[0]
    elif c["old"]:
        x += "<pix_x>%d</pix_x><pix_y>%d</pix_y>" % nav[::-1]
    x += "<timestamp isoformat='2019-06-07T12:13:14'/></root>"
    open(p, "w").write(x)
    want = a[:, :128].reshape(nav + (128, 128))
    for lazy, rm in itertools.product((False, True), (False, True)):
        what = "scan of %s lazy=%s remove_nans=%s" % (nav, lazy, rm)
        t.op(what)
        r = R("empad")(p, lazy=lazy, remove_nans=rm, q_calibration=0.25)[0]
        d = compute(r["data"])
        w = (np.nan_to_num(want) if rm else want).squeeze()
        t.state(nav, rm, c["old"])
        t.check(d.shape == w.shape and np.array_equal(d, w, equal_nan=True), lambda: "%s: %s" % (what, describe(w, d)))
        names = (["series_count"] if len(nav) == 1 else ["scan_y", "scan_x"])
        got = [(q["name"], q["size"], q["navigate"], q["scale"]) for q in r["axes"]]
        exp = [(m, s, True, 1) for m, s in zip(names, nav) if s > 1] + [("height", 128, False, 0.25), ("width", 128, False, 0.25)]
        t.check(got == exp, lambda: "%s: axes %s" % (what, got))


def f_arina(t, c):
    import h5py

    p = t.path("a_master.h5")
    n, (h, w) = sum(c["parts"]), c["sig"]
    full = content((n, h, w), c["dtype"]) if c["dtype"] != "u4" else content((n, h, w), "u2").astype("u4")
    with h5py.File(p, "w") as f:
        k = 0
        for i, m in enumerate(c["parts"]):
            f["entry/data/data_%06d" % (i + 1)] = full[k:k + m]
            k += m
    ff = np.ones((h, w), "f4") * 2
    ff[0, 1], ff[-1, 0] = 4, 0
    root = int(np.sqrt(n))
    navs = [None] + [(a, n // a) for a in range(1, n + 1) if n % a == 0] + [("auto", 2), (2, "auto"), 2, (n + 1, 1), (1, n - 1)]
    for nav, reb, dt, flat in itertools.product(navs, (1, 2, 3), (None, "f4", "u4"), (False, True)):
        if nav is None:
            s = (root, root)
        elif nav == 2:
            s = (2, n // 2)
        else:
            s = tuple(n // nav[1 - i] if v == "auto" else v for i, v in enumerate(nav))
        what = "%d frames, navigation_shape=%s rebin_diffraction=%d dtype=%s flatfield=%s" % (n, nav, reb, dt, flat)
        ok = s[0] * s[1] == n and h % reb == 0 and w % reb == 0
        t.op(what)
        try:
            with np.errstate(divide="ignore"):
                r = R("arina")(p, navigation_shape=nav, rebin_diffraction=reb, dtype=dt, flatfield=ff if flat else None)[0]
        except ValueError as e:
            t.check(not ok, lambda: "%s raised %s" % (what, e))
            continue
        t.check(ok, lambda: "%s was accepted" % what)
        out = np.dtype("f4") if flat else np.dtype(dt) if dt else np.dtype("u2") if c["dtype"] == "u4" else np.dtype(c["dtype"])
        x = full.astype(out).astype("f8")
        if flat:
            g = np.where(ff == 0, 1, np.median(ff) / np.where(ff == 0, 1, ff))
            x = x * g
        x = x.reshape(n, h // reb, reb, w // reb, reb).mean((2, 4)).astype(out).reshape(s + (h // reb, w // reb))
        d = r["data"]
        t.state(n, nav, reb, dt, flat)
        t.check(d.dtype == out, lambda: "%s: dtype %s" % (what, d.dtype))
        t.check(d.shape == x.shape and np.allclose(d, x, rtol=1e-5), lambda: "%s: %s" % (what, describe(x, d)))
        t.check([a["size"] for a in r["axes"]] == list(d.shape), lambda: "%s: axes" % what)


def f_impulse(t, c):
    p = t.path("x_Synchronized data.csv")
    cols = ["TimeStamp", "Experiment time", "Pressure (mbar)", "MFC1 Setpoint (ml/min)", "%O2", "# Label"][:c["cols"]]
    rows = c["rows"]
    with open(p, "w") as f:
        f.write(",".join(cols) + "\n")
        for i in range(rows):
            f.write(",".join(["2021-03-16 13:51:%02d" % i, "%.3f" % (i * 0.5)][:2] + ["%.2f" % (1.25 * i + k) for k in range(c["cols"] - 2)]) + "\n")
    with open(t.path("x_Metadata.log"), "w") as f:
        f.write("Experiment date,2021-03-16\nExperiment time,13:51:00\nLive notes,none\n")
    t.op("%d columns, %d rows" % (c["cols"], rows))
    t.state(c["cols"], rows)
    r = R("impulse")(p)
    t.check([s["metadata"]["General"]["title"] for s in r] == cols[2:] if "Experiment time" not in cols[2:] else True, lambda: "titles")
    for k, s in enumerate(r):
        t.check(s["data"].shape == (rows,) and np.allclose(s["data"], [1.25 * i + k for i in range(rows)]), lambda: "column %d: %s" % (k, s["data"]))
        a = s["axes"][0]
        t.check(a["size"] == rows and (np.isclose(a["scale"], 0.5) if rows > 1 else np.isfinite(a["scale"])), lambda: "axis %s of %d rows" % (a, rows))


def parts(tier):
    deep = tier == "thorough"
    guess = []
    for n in range(2, 9 if deep else 8):
        for x in [0] + list(range(2, n + 1)):
            for hdr in [None, (n, 1), (n + 2, 1), (0, 1), (0, 0), (n, 0)] + ([(n, x), (n + 3, x), (n - 1, x)] if x else []):
                guess.append(dict(n=n, x=x, hdr=hdr, kind="U08", gap=7000000 if (n + x) % 2 else 900000))
    pts = [list(q) for k in range(1, 5 if deep else 4) for q in itertools.product(range(6), repeat=k)]
    return [
        Part("merlin", list(product(n=[1, 2, 3, 4, 5] + ([6, 7] if deep else []), kind=["U08", "U16", "U32"], layout=["1x1", "2x2"], extra=[0, 100])) + ([] if deep else [dict(n=6, kind="U16", layout="1x1", extra=100)]), f_mib, timeout=900,
            bounds="1-%d frames; all first/last frames and scan shapes of up to 3 more frames than there are; reading, lazy, memory map, buffer" % (7 if deep else 6)),
        Part("merlin shapes", guess, f_mib_guess, timeout=120, bounds="2-7 frames, all line lengths, header files that agree or not"),
        Part("merlin names", list(product(dir=["a", "x.mib", "y.hdr"], name=["f.mib", "f.mib.mib", "f.MIB", "f.hdr.mib"], hdr=[True, False])), f_mib_name),
        Part("mrc", list(product(shape=[(1, 3, 4), (2, 3, 4), (4, 2, 3), (6, 3, 2), (3, 1, 4), (4, 3, 1), (1, 1, 5)], mode=sorted(MODE), end=["<", ">"], ext=[0, 128, 131072])), f_mrc, timeout=300,
            bounds="all scan shapes of up to one frame more than there are"),
        Part("raster", list(product(scan=[(2, 3), (3, 2), (1, 4), (4, 1), (3, 3), (2, 2)], sig=[(4, 3), (2, 2)], roi=[False, True], px=[False, True, None])), f_raster, timeout=120,
            bounds="all scan shapes of as many frames"),
        Part("path", [dict(points=q) for q in pts], f_scan, timeout=60, bounds="all paths of up to %d points on a grid of 6" % (4 if deep else 3)),
        Part("empad", [c for c in product(nav=[(1,), (2,), (5,), (1, 1), (1, 3), (3, 1), (2, 3)], old=[True, False], nan=[False, True], raw=["scan_x%d_y%d.raw", "s.raw"])
            if not (len(c["nav"]) == 2 and not c["old"] and c["raw"] == "s.raw") and not (len(c["nav"]) == 1 and "%" in c["raw"])], lambda t, c: f_empad(
                t, dict(c, raw=c["raw"] % c["nav"][::-1] if "%" in c["raw"] else c["raw"])), timeout=60, bounds="stacks and scans of up to 6 frames"),
        Part("arina", list(product(parts=[[4], [1, 3], [3, 2, 1], [9], [2, 2, 2]], sig=[(6, 6), (6, 12), (4, 2)], dtype=["u1", "u2", "u4"])), f_arina, timeout=300,
            bounds="4-9 frames in 1-3 data sets; all scan shapes, rebinning, types, flat fields"),
        Part("impulse", list(product(cols=[3, 4, 6], rows=[1, 2, 3, 4, 5, 9])), f_impulse, bounds="1-9 rows"),
    ]
