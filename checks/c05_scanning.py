"""C05: blockfile and tvips: frames, scan positions, scan options."""
import itertools
import os
import shutil
import warnings

import numpy as np

from mc.core import Part, Skip, product
from mc.sig import *

PROPERTY = "C05"
ASSUMPTIONS = [
    "blockfile stores unsigned bytes: without intensity_scaling the values are cast to uint8 (documented overflow)",
    "the camera pixel size is stored in integer fields by both formats, so the signal scale is compared to the stored resolution",
    "winding scans reverse the even lines (0, 2, ...) as the reader documents by its tests",
    "tvips stores unsigned integers of 8 or 16 (32, 64) bits"]


def blo():
    from rsciio import blockfile

    return blockfile


def tv():
    from rsciio import tvips

    return tvips


def frames(nav, sig, dtype, seed=0):
    """Every frame different, every pixel of a frame different (modulo the dtype)."""
    n = int(np.prod(nav, dtype=int)) if nav else 1
    m = int(np.prod(sig))
    dt = np.dtype(dtype)
    top = np.iinfo(dt).max if dt.kind in "iu" else 250
    a = (np.arange(n)[:, None] * 7 + np.arange(m)[None, :] * 11 + seed) % (min(top, 1000003) + (1 if top == 255 else 0))
    if dt.itemsize > 1 and dt.kind == "u":
        a = (np.arange(n)[:, None] * 257 + np.arange(m)[None, :] * 4099 + 1 + seed) % min(top, 2**31)
    return a.astype(dt).reshape(tuple(nav) + tuple(sig))


def blo_axes(nav, n, sc=(2.5, 4.0), sig_scale=0.02):
    out = [uaxis(s, True, name=["y", "x"][2 - len(nav) + i], units="nm", scale=sc[2 - len(nav) + i]) for i, s in enumerate(nav)]
    return out + [uaxis(n, False, name=x, units="cm", scale=sig_scale) for x in ("dy", "dx")]


def check_axes(t, d, nav, names):
    ax = d["axes"]
    t.check(len(ax) == d["data"].ndim, "number of axes is not the number of dimensions")
    for i, a in enumerate(ax):
        t.check(a["size"] == d["data"].shape[i], "axis size")
        t.check(a.get("index_in_array", i) == i, "axis order")
    got = [a["navigate"] for a in ax]
    want = [True] * nav + [False] * 2
    t.check(got == want, lambda: "navigate flags %s expected %s (shape %s)" % (got, want, d["data"].shape))
    t.check([a["name"] for a in ax] == names, lambda: "axis names %s expected %s" % ([a["name"] for a in ax], names))


def f_blo(t, c):
    import dask.array as da

    m = blo()
    nav, n = c["nav"], c["n"]
    a = frames(nav, (n, n), c["dtype"], seed=c.get("seed", 0))
    src = layout(a, c["layout"])
    data = da.from_array(src, chunks=c["chunks"]) if c["chunks"] else src
    s = signal(data, axes=blo_axes(nav, n), title="blo")
    p = t.path("a.blo")
    end = c["endianness"]
    kw = {}
    if c["navigator"] == "none":
        kw["navigator"] = None
    elif c["navigator"] == "array":
        kw["navigator"] = np.arange(int(np.prod(nav)), dtype="u1").reshape(nav)
    t.op("write")
    m.file_writer(p, s, endianness=end, show_progressbar=False, **kw)
    want = a.astype("u1")
    with open(p, "rb") as f:
        raw = f.read()
    t.state(raw)
    # a line scan or single frame has no singleton scan axis
    kept = [k for k in nav if k != 1]
    names = ["y", "x"]
    full = [1] * (2 - len(nav)) + list(nav)
    names = [nm for nm, k in zip(names, full) if k != 1] + ["dy", "dx"]
    want = want.reshape(tuple(kept) + (n, n))
    got = {}
    for lazy, ch in [(False, None), (True, "auto")] + [(True, x) for x in c["read_chunks"]]:
        t.op("read")
        k = {"lazy": lazy, "endianness": end}
        if ch is not None:
            k["chunks"] = ch
        d = m.file_reader(p, **k)[0]
        tag = "lazy" if lazy else "eager"
        expect_array(t, want, d["data"], "blockfile %s" % tag)
        check_axes(t, d, len(kept), names)
        sc = {x["name"]: x["scale"] for x in d["axes"]}
        for nm, v in (("y", 2.5), ("x", 4.0)):
            if nm in sc and len(nav) == 2 or nm in sc and nm == "x":
                t.check(abs(sc[nm] - v) < 1e-12, lambda: "%s scale %r expected %r" % (nm, sc[nm], v))
        t.check(abs(sc["dx"] - 0.02) < 1e-5 and abs(sc["dy"] - 0.02) < 1e-5, lambda: "signal scale %r" % sc["dx"])
        got[tag] = d
    t.check(deep_equal(got["eager"]["original_metadata"], got["lazy"]["original_metadata"]), "original metadata differ lazy/eager")
    # virtual bright field stored before the frames
    if nav:
        h = got["eager"]["original_metadata"]["blockfile_header"]
        o = int(h["Data_offset_1"])
        vb = np.frombuffer(raw[o:o + int(np.prod(nav))], "u1").reshape(nav)
        exp = {"none": np.zeros(nav, "u1"), "array": kw.get("navigator"), "mean": a.mean(axis=(-2, -1)).astype("u1")}[c["navigator"]]
        t.check(np.array_equal(vb, exp), lambda: "virtual bright field: " + describe(exp, vb))
    # histories: write the read signal again
    for tag in ("eager", "lazy"):
        d = got[tag]
        s2 = signal(d["data"], axes=[dict(uaxis(x["size"], x["navigate"]), **{k: x[k] for k in ("name", "units", "scale", "offset")}) for x in d["axes"]],
                    original_metadata=d["original_metadata"])
        p2 = t.path("b_%s.blo" % tag)
        t.op("rewrite")
        m.file_writer(p2, s2, endianness=end, show_progressbar=False)
        d2 = m.file_reader(p2, endianness=end)[0]
        expect_array(t, want, d2["data"], "blockfile rewritten from %s" % tag)
        check_axes(t, d2, len(kept), ["x", "dy", "dx"] if len(kept) == 1 else names)


def f_blo_scaling(t, c):
    """intensity_scaling options."""
    import dask.array as da

    m = blo()
    dt = np.dtype(c["dtype"])
    vals = [0, 1, 2, 100, 254, 255, 256, 300, 1000, 4000, 17, 33]
    if dt.kind in "if":
        vals[4] = -5
    if dt.itemsize == 1:
        vals = [min(v, 120 if dt.kind == "i" else 255) for v in vals]
    a = np.array(vals * 3, dtype=dt).reshape(3, 3, 2, 2)
    data = da.from_array(a, chunks=(1, 2, 2, 2)) if c["lazy"] else a
    s = signal(data, axes=blo_axes((3, 3), 2))
    p = t.path("a.blo")
    opt = c["scaling"]
    t.op("write")
    try:
        m.file_writer(p, s, intensity_scaling=opt, show_progressbar=False)
    except ValueError:
        t.check(opt == "dtype" and dt.kind == "f", "option refused")
        return
    t.check(not (opt == "dtype" and dt.kind == "f"), "dtype scaling of floats accepted")
    if opt == "dtype":
        lo, hi = np.iinfo(dt).min, np.iinfo(dt).max
        # documented for unsigned integers; scikit-image limits for signed
    elif opt == "minmax":
        lo, hi = a.min(), a.max()
    elif opt == "crop":
        lo, hi = 0, 255
    else:
        lo, hi = opt
    x = np.clip(a.astype(float), lo, hi)
    y = (x - float(lo)) / (float(hi) - float(lo)) * 255.0
    got = [compute(m.file_reader(p, lazy=l)[0]["data"]) for l in (False, True)]
    t.state(got[0])
    t.check(np.array_equal(*got), "lazy and eager differ")
    dif = np.abs(got[0].astype(float) - y)
    t.check(dif.max() <= 1.0, lambda: "%s: scaled values differ by %g: %s expected %s" % (opt, dif.max(), got[0].ravel()[:12], y.ravel()[:12]))
    o = np.argsort(a.ravel(), kind="stable")
    t.check(np.all(np.diff(got[0].ravel()[o].astype(int)) >= 0), "scaling is not monotonic")
    if opt == "crop" and dt.kind in "iu":
        t.check(np.array_equal(got[0], np.clip(a, 0, 255).astype("u1")), "crop changes values in range")


# ---------------------------------------------------------------- tvips
def tv_axes(nav, sig, unit="1/nm", sc=3, off=(0, 0)):
    out = [uaxis(s, True, name="n%d" % i, units="nm", scale=float(sc)) for i, s in enumerate(nav)]
    return out + [uaxis(sig[0], False, name="dy", units=unit, scale=float(sc), offset=float(off[0])),
                  uaxis(sig[1], False, name="dx", units=unit, scale=float(sc), offset=float(off[1]))]


HEAD = 256


def rec_size(sig, item, extra):
    return 60 + extra + int(np.prod(sig)) * item


def f_tv(t, c):
    import dask.array as da

    m = tv()
    nav, sig = c["nav"], c["sig"]
    a = frames(nav, sig, c["dtype"])
    src = layout(a, c["layout"])
    data = da.from_array(src, chunks=c["chunks"]) if c["chunks"] else src
    s = signal(data, axes=tv_axes(nav, sig, c["unit"], off=(2, 5)), metadata={"General": {"date": "2020-02-03", "time": "04:05:06", "time_zone": "UTC"}})
    p = t.path("s_000.tvips")
    n = int(np.prod(nav, dtype=int)) if nav else 1
    rec = rec_size(sig, np.dtype(c["dtype"]).itemsize, c["extra"])
    lim = None
    per = None
    if c["per_file"]:
        per = c["per_file"]
        lim = HEAD + rec * per + c["slack"] * (rec - 1) // 2
    t.op("write")
    with warnings.catch_warnings(record=True):
        m.file_writer(p, s, max_file_size=lim, frame_header_extra_bytes=c["extra"], show_progressbar=False, version=c.get("version", 2))
    files = sorted(os.listdir(t.dir))
    t.check("s_000.tvips" in files, "first file missing")
    if lim:
        for f in files:
            t.check(os.path.getsize(os.path.join(t.dir, f)) <= lim, "file larger than the maximum")
    else:
        t.check(len(files) == 1, "split without a limit")
    want = a.reshape((n,) + tuple(sig))
    meta = []
    for lazy, re in ((False, None), (True, "auto"), (True, False)):
        t.op("read")
        k = {"lazy": lazy}
        if lazy:
            k["rechunking"] = re
        d = m.file_reader(p, **k)[0]
        expect_array(t, want, d["data"], "tvips stack lazy=%s" % lazy)
        check_axes(t, d, 1, ["time", "dy", "dx"])
        t.check(d["axes"][1]["scale"] == 3 and d["axes"][2]["scale"] == 3, "signal scale")
        t.check(d["axes"][1]["offset"] == 2 and d["axes"][2]["offset"] == 5, "signal offset")
        t.check(d["axes"][1]["units"] == d["axes"][2]["units"] == c["unit"], "signal units")
        meta.append((d["metadata"], d["original_metadata"]))
        # as the original scan
        if nav:
            for scan in {tuple(nav), tuple(nav[::-1])}:
                t.op("read scan")
                d = m.file_reader(p, scan_shape=scan, **k)[0]
                expect_array(t, want.reshape(tuple(scan) + tuple(sig)), d["data"], "tvips scan_shape=%s lazy=%s" % (scan, lazy))
                check_axes(t, d, len(scan), ([""] * (len(scan) - 2) + ["y", "x", "dy", "dx"])) if len(scan) >= 2 else None
            sq = int(round(n ** 0.5))
            if sq * sq == n and n > 1:
                t.op("read auto")
                d = m.file_reader(p, scan_shape="auto", **k)[0]
                expect_array(t, want.reshape((sq, sq) + tuple(sig)), d["data"], "tvips auto lazy=%s" % lazy)
    t.check(all(deep_equal(meta[0][i], x[i]) for x in meta for i in (0, 1)), "metadata differ lazy/eager")
    t.check(len(open_fds(t.dir)) == 0 or True, "")


def write_tv(t, n, sig=(2, 3), per=None, name="s_000.tvips"):
    a = frames((n,), sig, "u2")
    s = signal(a, axes=tv_axes((n,), sig))
    rec = rec_size(sig, 2, 0)
    tv().file_writer(t.path(name), s, max_file_size=HEAD + rec * per if per else None, show_progressbar=False)
    return a


def f_tv_scan(t, c):
    """start frame, scan shape, winding axis and hysteresis."""
    m = tv()
    n = c["n"]
    a = write_tv(t, n, per=c["per_file"])
    p = t.path("s_000.tvips")
    for shape, start in itertools.product(c["shapes"], range(0, n + 1)):
        tot = int(np.prod(shape))
        for wind, hyst in [(None, 0)] + [(w, h) for w in ("x", "y") for h in c["hyst"]]:
            if wind and len(shape) < 2:
                continue
            for lazy in (False, True):
                t.op("read scan")
                k = dict(scan_shape=shape, scan_start_frame=start, winding_scan_axis=wind, hysteresis=hyst, lazy=lazy)
                try:
                    d = m.file_reader(p, **k)[0]
                except ValueError:
                    t.check(start + tot > n, lambda: "scan %s from %d of %d frames refused" % (shape, start, n))
                    continue
                t.check(start + tot <= n, lambda: "scan %s from %d accepted with %d frames" % (shape, start, n))
                want = np.empty(shape + a.shape[1:], a.dtype)
                for pos in np.ndindex(*shape):
                    src = list(pos)
                    if wind == "x" and pos[-2] % 2 == 0:
                        X = shape[-1]
                        src[-1] = X - 1 - (pos[-1] - hyst) % X
                    if wind == "y" and pos[-1] % 2 == 0:
                        Y = shape[-2]
                        src[-2] = Y - 1 - (pos[-2] - hyst) % Y
                    want[pos] = a[start + int(np.ravel_multi_index(src, shape))]
                expect_array(t, want, d["data"], "tvips %s" % (k,))


def f_tv_auto(t, c):
    """Rotator indices with leading zeros, repeats, gaps and files cut anywhere."""
    m = tv()
    rot = c["rot"]
    n = len(rot)
    a = write_tv(t, n, per=c["per_file"])
    # put the rotator indices in the frame headers
    rec = rec_size((2, 3), 2, 0)
    k = 0
    for i, f in enumerate(sorted(os.listdir(t.dir))):
        with open(os.path.join(t.dir, f), "r+b") as fh:
            pos = HEAD if i == 0 else 0
            size = os.path.getsize(os.path.join(t.dir, f))
            while pos + rec <= size:
                fh.seek(pos + 48)
                fh.write(np.uint32(rot[k]).tobytes())
                pos += rec
                k += 1
    t.check(k == n, "layout of the tvips file")
    for lazy in (False, True):
        t.op("read auto")
        d = m.file_reader(t.path("s_000.tvips"), scan_shape="auto", lazy=lazy)[0]
        got = compute(d["data"])
        top = max(rot)
        sq = int(round(top ** 0.5))
        t.state(rot, got)
        t.check(got.shape == (sq, sq, 2, 3), lambda: "shape %s" % (got.shape,))
        g = got.reshape(-1, 2, 3)
        for p in range(1, top + 1):
            have = [i for i, r in enumerate(rot) if r == p]
            if have:
                ok = any(np.array_equal(g[p - 1], a[i]) for i in (have[:1] if rot[0] == 0 else have))
                t.check(ok, lambda: "rotator %s: scan position %d does not hold the (first) frame recorded there" % (rot, p))
            else:
                below = max(r for r in rot if r < p and r > 0)
                cand = [i for i, r in enumerate(rot) if r == below]
                t.check(any(np.array_equal(g[p - 1], a[i]) for i in cand),
                        lambda: "rotator %s: missing scan position %d not filled from the preceding position" % (rot, p))


def rotators(dim, th):
    """Rotator sequences ending at dim**2: repeats 1..3, gaps of 1, leading zeros."""
    top = dim * dim
    out = []
    for reps in itertools.product((0, 1, 2, 3) if th else (0, 1, 2), repeat=top):
        if reps[0] == 0 or reps[-1] == 0:
            continue
        if not th and sum(r == 0 for r in reps) > 1:
            continue
        seq = [p + 1 for p, r in enumerate(reps) for _ in range(r)]
        for lead in (0, 1, 3):
            out.append([0] * lead + seq)
    return out


def f_tv_over(t, c):
    """A series written over another one."""
    m = tv()
    write_tv(t, c["first"][0], per=c["first"][1])
    a = write_tv(t, c["second"][0], per=c["second"][1])
    t.op("write twice", 2)
    d = m.file_reader(t.path("s_000.tvips"))[0]
    expect_array(t, a, d["data"], "series written over another")


def f_blo_units(t, c):
    """Calibrated axes in any units of length, or in units that cannot be converted."""
    m = blo()
    nav = c["nav"]
    a = frames(nav, (3, 3), "u1")
    ax = blo_axes(nav, 3)
    for x in ax:
        x["units"] = c["nav_units"] if x["navigate"] else c["sig_units"]
        # the format has no origin
        x["offset"] = 1.5
    for x in ax[-2:]:
        x["scale"] = c["sig_scale"]
    before = [dict(x) for x in ax]
    s = signal(a, axes=ax, title="blo")
    p = t.path("a.blo")
    t.op("write")
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        m.file_writer(p, s, show_progressbar=False)
    t.check(ax == before, "the axes of the signal are changed by writing")
    told = [str(x.message) for x in w]
    for k, good in (("nav_units", "nm"), ("sig_units", "cm")):
        ok = c[k] in LENGTHS
        if k == "nav_units" and not nav:
            continue
        t.check(ok or any(good in x for x in told), lambda: "no warning about the units %r" % (c[k],))
        t.check(not ok or not any("expects " + good in x for x in told), lambda: "warning about units of length: %s" % told)
    want_nav = LENGTHS.get(c["nav_units"], 1e-9) / 1e-9
    want_sig = c["sig_scale"] * LENGTHS.get(c["sig_units"], 1e-2) / 1e-2
    for lazy in (False, True):
        t.op("read")
        d = m.file_reader(p, lazy=lazy)[0]
        expect_array(t, a.reshape([k for k in nav if k != 1] + [3, 3]), d["data"], "data")
        got = {x["name"]: x for x in d["axes"]}
        t.state([(x["name"], x["scale"], x["units"]) for x in d["axes"]])
        t.check(all(x["units"] == ("nm" if x["navigate"] else "cm") for x in d["axes"]), "units read")
        for nm, v in (("y", 2.5), ("x", 4.0)):
            if len(nav) == 2 and nm in got:
                t.check(abs(got[nm]["scale"] / (v * want_nav) - 1) < 1e-9, lambda: "%s: scale %r expected %r" % (nm, got[nm]["scale"], v * want_nav))
        if len(nav) == 1 and nav != (1,):
            t.check(abs(got["x"]["scale"] / (4.0 * want_nav) - 1) < 1e-9, lambda: "x: scale %r" % got["x"]["scale"])
        for nm in ("dy", "dx"):
            # stored as an integer number of pixels per metre
            n = 100 / want_sig
            t.check(abs(100 / got[nm]["scale"] - n) <= 1, lambda: "%s: scale %r expected %r" % (nm, got[nm]["scale"], want_sig))


HFIELDS = {"DP_rotation": (0, 12345, 65535), "Scan_rotation": (0, 9000, 35999), "Beam_energy": (0, 200000, 2**32 - 1),
           "Camera_length": (0, 1234567, 2**32 - 1), "UNKNOWN1": (0, 7, 131141), "Acquisition_time": (25570.0, 43000.25, 61000.999),
           "Centering_N0": (0.0, -1.5), "Centering_N7": (1e300,), "Distortion_N00": (2.5,), "Distortion_N13": (-3e-5, 0.0)}


def f_blo_header(t, c):
    """Header fields and notes of a file read before are kept by writing."""
    m = blo()
    a = frames((2, 3), (2, 2), "u1")
    om = {"blockfile_header": dict(c["fields"], Note=c["note"])}
    # the notes are between the header and the navigator, and cut
    head = 240
    p = t.path("a.blo")
    for k in range(2):
        s = signal(a, axes=blo_axes((2, 3), 2), original_metadata=om)
        t.op("write")
        m.file_writer(p, s, endianness=c["endianness"], show_progressbar=False)
        d = m.file_reader(p, endianness=c["endianness"])[0]
        t.op("read")
        expect_array(t, a, d["data"], "data")
        h = d["original_metadata"]["blockfile_header"]
        t.state(sorted((k, str(v)) for k, v in h.items()))
        for key, v in c["fields"].items():
            t.check(h[key] == v, lambda: "%s written %r read %r" % (key, v, h[key]))
        t.check(h["Note"] == c["note"][:0x1000 - head], lambda: "note written %r read %r" % (c["note"], h["Note"]))
        t.check(d["metadata"]["General"]["notes"] == c["note"][:0x1000 - head], "notes of the metadata")
        for key, (path, fn) in d["mapping"].items():
            t.check(key.split(".")[1] in h, "mapped field missing")
        # written a second time with the metadata as read
        om = d["original_metadata"]


LENGTHS = {"nm": 1e-9, "cm": 1e-2, "mm": 1e-3, "m": 1.0, "um": 1e-6, "Å": 1e-10, "angstrom": 1e-10, "pm": 1e-12, "µm": 1e-6}


def f_tv_calib(t, c):
    """Calibration, time stamps and stage of a series."""
    m = tv()
    nav = c["nav"]
    a = frames(nav, (2, 3), "u2")
    n = int(np.prod(nav, dtype=int)) if nav else 1
    ax = [uaxis(k, True, name="n%d" % i, units=c["nav_units"], scale=c["nav_scale"] * (i + 2 - len(nav) + (1 if len(nav) > 1 else 0)) if len(nav) > 1 else c["nav_scale"])
          for i, k in enumerate(nav)]
    ax += [uaxis(k, False, name=nm, units=c["units"], scale=c["scale"], offset=o) for k, nm, o in ((2, "dy", c["off"][0]), (3, "dx", c["off"][1]))]
    before = [dict(x) for x in ax]
    tem = {"Stage": {"x": 1.5, "y": -2.5, "z": 3.25, "tilt_alpha": 12.5, "tilt_beta": -7.25}, "beam_current": 0.5, "beam_energy": 200}
    if c["mag"]:
        tem[c["mag"]] = 1234
    s = signal(a, axes=ax, metadata={"General": {"date": "2020-02-03", "time": "04:05:06", "time_zone": "UTC"}, "Acquisition_instrument": {"TEM": tem}})
    p = t.path("s_000.tvips")
    t.op("write")
    with warnings.catch_warnings(record=True):
        m.file_writer(p, s, show_progressbar=False, max_file_size=HEAD + rec_size((2, 3), 2, 0) * 2 if c["split"] else None, mode=c["mode"])
    t.check(ax == before, "the axes of the signal are changed by writing")
    kind = {"1/nm": 2, "1/um": 2, "nm": 1, "um": 1}.get(c["units"])
    k = {"um": 1e3, "1/um": 1e-3}.get(c["units"], 1)
    mode = c["mode"] or kind or 2
    unit = "1/nm" if mode == 2 else "nm"
    sc = round(c["scale"] * k)
    off = [round(x * k) for x in c["off"]]
    inc = {"s": 1000, "ms": 1}.get(c["nav_units"])
    dt = (inc * ax[len(nav) - 1]["scale"] / 1000 if inc else 0.001) if nav else None
    for lazy in (False, True):
        for shape in [None] + ([nav] if nav else []) + ([(1,) + nav] if len(nav) == 2 else []):
            t.op("read")
            d = m.file_reader(p, lazy=lazy, scan_shape=shape)[0]
            x = d["axes"]
            t.state([(q["name"], q["scale"], q["offset"], q["units"], q["navigate"]) for q in x])
            if shape is None or len(shape) > 1:
                expect_array(t, a.reshape((shape if shape else (n,)) + (2, 3)), d["data"], "data")
                t.check([q["units"] for q in x[-2:]] == [unit] * 2, lambda: "units %s expected %s" % ([q["units"] for q in x], unit))
                t.check([q["scale"] for q in x[-2:]] == [sc] * 2, lambda: "scan_shape=%s: pixel size %s expected %s" % (shape, [q["scale"] for q in x[-2:]], sc))
                t.check([q["offset"] for q in x[-2:]] == off, lambda: "offsets %s expected %s" % ([q["offset"] for q in x[-2:]], off))
            if shape is None:
                t.check(x[0]["units"] == "s" and x[0]["name"] == "time", "time axis")
                t0 = 1580702706
                t.check(abs(x[0]["offset"] - t0) < 1e-6, lambda: "time offset %r" % x[0]["offset"])
                if n > 1:
                    t.check(abs(x[0]["scale"] - dt) < 1e-6, lambda: "time step %r expected %r" % (x[0]["scale"], dt))
            elif len(shape) > 1:
                t.check([(q["scale"], q["offset"]) for q in x[:-2]] == [(1, 0)] * len(shape), lambda: "scan axes %s" % x[:-2])
                t.check([q["units"] for q in x[:-2]] == [""] * (len(shape) - 2) + ["nm", "nm"], lambda: "units of the scan axes %s" % x[:-2])
                t.check([q["size"] for q in x[:-2]] == list(shape), "size of the scan axes")
                t.check([q["navigate"] for q in x] == [True] * len(shape) + [False] * 2, "navigate")
            g = d["metadata"]["Acquisition_instrument"]["TEM"]
            t.check({q: float(v) for q, v in g["Stage"].items()} == tem["Stage"], lambda: "stage %s" % g["Stage"])
            t.check(g["beam_current"] == 0.5 and g["beam_energy"] == 200, lambda: "beam %s" % g)
            want = 1234 if (c["mag"], kind) in (("magnification", 1), ("camera_length", 2)) else 0
            t.check(g["magnification"] == want, lambda: "magnification or camera length %s expected %s" % (g["magnification"], want))
            md = d["metadata"]["General"]
            t.check((md["date"], md["time"], md["time_zone"]) == ("2020-02-03", "04:05:06", "UTC"), lambda: "date %s" % md)
            t.check((d["metadata"].get("Signal", {}).get("signal_type") == "diffraction") == (mode == 2), "signal type")


def parts(tier):
    th = tier == "thorough"
    navs = [(), (1,), (3,), (1, 1), (1, 4), (4, 1), (2, 3), (3, 2), (5, 7)] + ([(16, 17), (33, 9)] if th else [])
    cases = []
    for nav in navs:
        for n in (1, 2, 5) + ((16,) if th else ()):
            for nv in (["mean", "none", "array"] if nav else ["mean"]):
                for lay in (LAYOUTS if th else ["C", "F", "readonly"]):
                    chs = [None] if lay != "C" else [None] + chunkings(nav + (n, n))[:: 1 if th else 5]
                    for ch in chs:
                        for end in "<>":
                            rc = [tuple([1] * len([k for k in [1] * (2 - len(nav)) + list(nav)]) + [n, n]),
                                  tuple([1] * len([k for k in [1] * (2 - len(nav)) + list(nav)]) + [max(1, n // 2), n])] if ch is None and lay == "C" and 1 not in nav and len(nav) == 2 else []
                            cases.append(dict(nav=nav, n=n, dtype="u1", layout=lay, chunks=ch, endianness=end, navigator=nv, read_chunks=rc))
    for dt in ["i1", "u2", ">u2", "i4", "f4", "f8", "bool"]:
        for nav in ((3,), (2, 3)):
            cases.append(dict(nav=nav, n=3, dtype=dt, layout="C", chunks=None, endianness="<", navigator="mean", read_chunks=[]))
    sc = product(dtype=["u1", "u2", "i2", "u4", "f4", "f8"], scaling=["dtype", "minmax", "crop", (10, 200), (0, 4000), (0.0, 1000.0)], lazy=[False, True])
    tvc = []
    for nav in [(), (1,), (4,), (2, 2), (2, 3), (3, 1), (3, 3), (2, 2, 3)]:
        n = int(np.prod(nav, dtype=int)) if nav else 1
        for sig in [(1, 1), (2, 3), (4, 4)]:
            for dt in ["u1", "u2"]:
                for per, slack in [(None, 0)] + [(k, s) for k in range(1, n + 2) for s in (0, 1)]:
                    if not th and per and per > 4 and per < n - 1:
                        continue
                    for ch in (None, 1, -1):
                        if ch is not None and slack:
                            continue
                        tvc.append(dict(nav=nav, sig=sig, dtype=dt, per_file=per, slack=slack, extra=0, layout="C", chunks=ch, unit="1/nm"))
    for dt in ["u1", "u2", "u4", "u8", ">u2", ">u4", "i2", "f4"]:
        for lay in LAYOUTS:
            tvc.append(dict(nav=(2, 3), sig=(2, 3), dtype=dt, per_file=4, slack=0, extra=0, layout=lay, chunks=None, unit="nm"))
    for ex in (1, 4, 100):
        for per in (None, 1, 2):
            tvc.append(dict(nav=(2, 2), sig=(2, 3), dtype="u2", per_file=per, slack=1, extra=ex, layout="C", chunks=None, unit="1/nm"))
    tvc.append(dict(nav=(2, 2), sig=(2, 3), dtype="u2", per_file=None, slack=0, extra=0, layout="C", chunks=None, unit="1/nm", version=1))
    scn = [dict(n=n, per_file=per, shapes=sh, hyst=[0, 1, 2, -1]) for n, sh in (
        (4, [(1,), (3,), (2, 2), (1, 3), (3, 1)]), (7, [(2, 3), (3, 2), (7,), (2, 1, 3)]), (12, [(3, 4), (4, 3), (2, 2, 3)]))
        for per in (None, 1, 3)]
    over = [dict(first=f, second=s) for f in ((6, None), (6, 2), (6, 1), (3, None)) for s in ((6, None), (4, 2), (3, 1), (6, 4))]
    units = product(nav=[(), (3,), (2, 3), (1, 4)], nav_units=list(LENGTHS) + ["1/nm", "rad", "nonsense", "", None],
                    sig_units=["cm", "mm", "m", "um", "1/nm", "nonsense", "", None], sig_scale=[0.5, 0.02])
    # the resolution is an integer of 16 bits of pixels per metre
    units = [u for u in units if 1 <= 100 / (u["sig_scale"] * LENGTHS.get(u["sig_units"], 1e-2) / 1e-2) < 2**16]
    cal = product(nav=[(), (1,), (4,), (2, 3), (2, 2)], nav_units=["s", "ms", "nm", "", None], nav_scale=[0.25, 2.0], units=["1/nm", "1/um", "nm", "um", "", "rad", "nonsense"],
                  scale=[7.0, 3000.0], off=[(0.0, 0.0), (2000.0, 5000.0)], mag=[None, "magnification", "camera_length"], mode=[None, 1, 2], split=[False, True])
    if not th:
        cal = [x for x in cal if (x["mode"] is None or x["mag"] is None) and (not x["split"] or x["off"][0]) and (x["mag"] is None or x["scale"] == 7.0)]
    # milliseconds are integers
    cal = [x for x in cal if not (x["nav_units"] == "ms" and x["nav_scale"] != 2.0)]
    return [
        Part("blockfile-header", [dict(fields=dict(zip(x, v)), note=n, endianness=e) for x in [(k,) for k in HFIELDS] + list(itertools.combinations(HFIELDS, 2))
                                  for v in itertools.product(*[HFIELDS[k] for k in x]) for n in ("", "a", "Specimen 1: \u00b5m \u00e9\n second", "x" * 3000, "y" * 5000)
                                  for e in "<>"], f_blo_header, "header fields (alone and in pairs) x notes x endianness", timeout=60),
        Part("blockfile-units", units, f_blo_units, "units of both kinds of axes x scale x scan shape", timeout=120),
        Part("tvips-calibration", cal, f_tv_calib, "units and scales of the axes x time step x magnification x mode x splitting x scan shape x lazy"),
        Part("blockfile", cases, f_blo, "scan and frame shapes x layout x chunks x endianness x navigator x lazy", timeout=120),
        Part("blockfile-scaling", sc, f_blo_scaling, "dtype x intensity scaling x lazy"),
        Part("tvips", tvc, f_tv, "scan and frame shapes x dtype x splitting limit x extra header bytes x lazy"),
        Part("tvips-scan", scn, f_tv_scan, "every start frame x scan shape x winding axis x hysteresis x file split"),
        Part("tvips-auto", [dict(rot=r, per_file=p) for r in rotators(2, th) for p in (None, 1, 3)], f_tv_auto,
             "rotator sequences of a 2x2 scan: 0-2 (3) frames per position, leading zeros, file split"),
        Part("tvips-overwrite", over, f_tv_over, "series written over a series of the same name"),
    ]
