"""C26: vendor spectrum, map and log readers (EDAX, TIA, Hamamatsu, Jobin Yvon, DENS):
files built by independent encoders decode to the data, axes and metadata put in them."""
import datetime
import itertools
import os
import struct

import numpy as np

from mc import vendors as V
from mc.core import Part, Skip, product
from mc.sig import *

PROPERTY = "C26"
ASSUMPTIONS = [
    "the encoders of mc/vendors.py follow the format descriptions (EDAX PDF descriptions, Boothroyd's TIA description, HPD-TA manual, "
    "LabSpec XML) and the layout of the vendors' files in the test data; the repository's example files are read by C10, C14 and C20",
    "TIA: every element is followed by its tag; dimension arrays fastest first; maps have at least two columns and two elements acquired (the order of the "
    "dimensions is guessed from the positions of the first two)",
]


def R(name):
    import importlib

    return importlib.import_module("rsciio." + name).file_reader


def w(t, name, b):
    p = t.path(name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(b)
    return p


def one(t, r):
    t.check(isinstance(r, list) and len(r) == 1, "one signal expected")
    return r[0]


def axes_ok(t, d):
    sh = d["data"].shape
    t.check(len(d["axes"]) == len(sh), lambda: "%d axes for shape %s" % (len(d["axes"]), sh))
    for i, a in enumerate(d["axes"]):
        n = len(a["axis"]) if "axis" in a else a["size"]
        t.check(n == sh[i], lambda: "axis %d has size %s, data %s" % (i, n, sh))
        t.check(int(a.get("index_in_array", i)) % len(sh) == i, lambda: "axis %d has index %s" % (i, a["index_in_array"]))


def axis(t, a, what, **kw):
    for k, v in kw.items():
        g = a.get(k)
        ok = np.isclose(float(g), v, rtol=1e-6, atol=0) if isinstance(v, float) and g is not None else g == v or (not v and not g and v in (None, "") and g in (None, ""))
        t.check(ok, lambda: "%s: %s is %r, expected %r" % (what, k, g, v))


def close(t, got, want, what):
    ok = got is not None and (np.isclose(float(got), want, rtol=1e-6) if isinstance(want, float) else got == want)
    t.check(ok, lambda: "%s is %r, expected %r" % (what, got, want))


SPC = dict(ev=5, e0=0.125, live=12.5, tilt=3.5, reso=129.25, azim=-42.0, elev=35.5, kv=22.0)
ELEMS = {(): None, (26,): ["Fe"], (29, 6, 13): ["Al", "C", "Cu"]}


def spc_meta(t, d, elems):
    sem = d["metadata"]["Acquisition_instrument"]["SEM"]
    e = sem["Detector"]["EDS"]
    for k, v in dict(azimuth_angle=-42.0, elevation_angle=35.5, energy_resolution_MnKa=129.25, live_time=12.5).items():
        close(t, e[k], v, k)
    close(t, sem["beam_energy"], 22.0, "beam energy")
    close(t, sem["Stage"]["tilt_alpha"], 3.5, "tilt")
    got = d["metadata"].get("Sample", {}).get("elements")
    t.check(got == ELEMS[elems], lambda: "elements %s expected %s" % (got, ELEMS[elems]))


def f_spc(t, c):
    n, end = c["n"], c["end"]
    counts = [(i * 7919 + 3) % 70001 + (2**31 if i == 1 else 0) for i in range(n)]
    p = w(t, "a.spc", V.spc(counts, end=end, version=c["version"], elems=c["elems"], start=c["start"], **SPC))
    t.op(c)
    for lazy in [False, True]:
        d = one(t, R("edax")(p, lazy=lazy, endianness=end, load_all_spc=c["all"]))
        t.check((type(d["data"]) is np.ndarray) != lazy, "laziness")
        expect_array(t, np.array(counts, "u4"), d["data"], "spectrum")
        axes_ok(t, d)
        axis(t, d["axes"][0], "energy", name="Energy", scale=0.005, offset=0.125, units="keV", navigate=False)
        spc_meta(t, d, c["elems"])
        h = d["original_metadata"]["spc_header"]
        close(t, h["numPts"], n, "numPts")
        close(t, h["startEnergy"], 0.125, "startEnergy")
        if c["all"]:
            close(t, h["collectDateYear"], 2014, "year")
            close(t, float(h["fVersion"]), float(np.float32(c["version"])), "version")


def spd_data(shape, nb):
    n = int(np.prod(shape))
    return (np.arange(n) * (1 if nb == 1 else 257 if nb == 2 else 16909319) + 1).astype(np.int64).reshape(shape) % (256 ** nb)


def f_spd(t, c):
    end, nb = c["end"], c["nb"]
    shape = c["nav"] + (c["nz"],)
    a = spd_data(shape, nb)
    p = w(t, "d/map.spd", V.spd(a, end=end, nbytes=nb, offset=c["offset"]))
    kw = {}
    elems = (29, 6, 13)
    if c["spc"]:
        f = w(t, "d/map.spc" if c["spc"] == "default" else "e/other.spc", V.spc([1] * 16, end=end, elems=elems, **SPC))
        if c["spc"] != "default":
            kw["spc_fname"] = f
            w(t, "d/map.spc", V.spc([1] * 16, end=end, ev=10, e0=9.0))  # must not be taken
    if c["ipr"]:
        f = w(t, "d/C:\\x\\map.ipr" if c["ipr"] == "default" else "e/other.ipr", V.ipr(c["iv"], end=end))
        if c["ipr"] != "default":
            kw["ipr_fname"] = f
    t.op(c)
    for lazy, chunks in [(False, None), (True, "auto"), (True, (1,) * 3), (True, shape)]:
        if lazy:
            kw["chunks"] = chunks
        d = one(t, R("edax")(p, lazy=lazy, endianness=end, **kw))
        t.check((type(d["data"]) is np.ndarray) != lazy, "laziness")
        expect_array(t, a.astype("u%d" % nb), d["data"], "map")
        axes_ok(t, d)
        u = "µm" if c["ipr"] else None
        y, x, e = d["axes"]
        axis(t, y, "y", name="y", scale=0.5 if c["ipr"] else 1, offset=0, units=u, navigate=True)
        axis(t, x, "x", name="x", scale=0.25 if c["ipr"] else 1, offset=0, units=u, navigate=True)
        if c["spc"]:
            axis(t, e, "energy", name="Energy", scale=0.005, offset=0.125, units="keV", navigate=False)
            spc_meta(t, d, elems)
        else:
            axis(t, e, "energy", name="Energy", scale=1, units=None, navigate=False)
        if c["ipr"]:
            h = d["original_metadata"]["ipr_header"]
            for k, v in dict(version=c["iv"], accV=200, mag=1500, wd=10, takeoff=35, nTextLines=1, mppX=0.25, mppY=0.5).items():
                close(t, h[k], v, k)
            t.check([x.rstrip(b"\0") for x in h["charText"]] == [b"one", b"two", b"", b"four"], lambda: "comments %s" % h["charText"])
        t.check(d["metadata"]["General"]["title"] == "EDS Spectrum Image" and d["metadata"]["General"]["original_filename"] == "map.spd", "general")


def f_lsd(t, c):
    n, ns, nz, nb, end = c["n"], c["n"] - c["missing"], c["nz"], c["nb"], c["end"]
    if ns < 1:
        raise Skip
    a = spd_data((1, n, nz), nb)
    p = w(t, "line.lsd", V.spd(a, end=end, nbytes=nb, nspectra=ns))
    kw = {}
    dist = [1.5 + 2.25 * i for i in range(ns)]
    if c["csv"]:
        f = w(t, "line.csv" if c["csv"] != "explicit" else "sub/o.csv", V.lsd_csv(dist, bom=c["csv"] == "bom"))
        if c["csv"] == "explicit":
            kw["csv_fname"] = f
    t.op(c)
    for lazy in [False, True]:
        d = one(t, R("edax")(p, lazy=lazy, endianness=end, **kw))
        expect_array(t, a[0, :ns].astype("u%d" % nb), d["data"], "line")
        axes_ok(t, d)
        x = d["axes"][0]
        axis(t, x, "x", name="x", navigate=True, units="nm" if c["csv"] else None)
        if c["csv"]:
            axis(t, x, "x", offset=1.5)
            if ns > 1:
                axis(t, x, "x", scale=2.25)
            h = d["original_metadata"]["csv_header"]
            t.check(h.get("Sample") == "a, b" and h.get("Key8") == "8" and h.get("Line Scan Data") is None, lambda: "header of the csv file: %s" % dict(h))
        t.check(d["metadata"]["General"]["title"] == "EDS Line Scan", "title")


# ------------------------------------------------------------------ TIA
def tia_values(i, shape, dt):
    n = int(np.prod(shape))
    d = np.dtype(dt)
    v = (np.arange(n) * 7 + 11 * i + 1)
    if d.kind in "iu":
        return (v % 120 * (1 if d.itemsize == 1 else 257) - (0 if d.kind == "u" else 60)).astype(d).reshape(shape)
    return (v * 0.25 + (1j * v if d.kind == "c" else 0)).astype(d).reshape(shape)


def nm(u, x):
    return x * 1e9 if u == "meters" else x / 1e9 if u == "1/meters" else x


def f_ser(t, c):
    kind, nav, sig = c["kind"], c["nav"], c["sig"]
    dt = V.TIA[c["dt"]]
    n = int(np.prod(nav))
    valid = n - c["missing"]
    if valid < 1 or (len(nav) == 2 and (nav[1] < 2 or valid < 2)):
        raise Skip  # the order of the dimensions of a map is guessed from the positions of its first two elements
    els = [tia_values(i, sig, dt) for i in range(valid)]
    el = c["el"]
    cal = ((400.0, 2.5, el), (0.0, 1.0, 0)) if kind == "spectrum" else ((-2e-8, 1e-9, el), (3e-8, 2e-9, 2 * el))
    # stored dimensions: fastest first; nav is (y, x) or (n,)
    nd = [(s, 1e-7 * (k + 1), 3e-9 * (k + 1), 0, "dim", c["units"]) for k, s in enumerate(nav[::-1])]
    pos = [(1e-7 + 3e-9 * (i % nav[-1]), 2e-7 + 6e-9 * (i // nav[-1])) for i in range(n)]
    b = V.ser(els, kind, nd, version=c["version"], total=n, cal=cal, positions=pos[:valid], dtype=c["dt"], pad=c["pad"])
    p = w(t, "a_1.ser", b)
    t.op(c)
    for only, lazy in itertools.product([True, False], [False, True]):
        d = one(t, R("tia")(p, lazy=lazy, only_valid_data=only))
        t.check((type(d["data"]) is np.ndarray) != lazy, "laziness")
        data = np.array(els)
        if kind == "image":
            data = data[:, ::-1]
        shp, dims = list(nav), [(s, nd[len(nav) - 1 - k]) for k, s in enumerate(nav)]
        if c["missing"] and len(nav) == 1 and only:
            shp = [valid] if valid > 1 else []
            dims = [(valid, dims[0][1])] if valid > 1 else []
        elif c["missing"]:
            full = np.zeros((n,) + data.shape[1:], data.dtype)
            if data.dtype.kind == "f":
                full[:] = np.nan
            full[:valid] = data
            data = full
        if kind == "image":
            keep = [k for k, s in enumerate(shp) if s != 1]
            shp, dims = [shp[k] for k in keep], [dims[k] for k in keep]
        want = data.reshape(tuple(shp) + tuple(sig))
        expect_array(t, want.astype(native(want.dtype)), d["data"], "only_valid_data=%s lazy=%s" % (only, lazy))
        axes_ok(t, d)
        ax = d["axes"]
        for a, (s, q) in zip(ax, dims):
            axis(t, a, "navigation", scale=nm(q[5], q[2]), offset=nm(q[5], q[1]), units={"meters": "nm"}.get(q[5], q[5]), navigate=True)
        if c["units"] == "meters" and len(nav) == 2 and len(dims) == 2:
            t.check([a["name"] for a in ax[:2]] == ["y", "x"], lambda: "names %s" % [a["name"] for a in ax])
        if kind == "spectrum":
            axis(t, ax[-1], "energy", name="Energy", units="eV", scale=2.5, offset=400.0 - 2.5 * el, navigate=False)
        else:
            axis(t, ax[-2], "y", name="y", units="nm", scale=2.0, offset=30.0 - 2 * el * 2.0, navigate=False)
            axis(t, ax[-1], "x", name="x", units="nm", scale=1.0, offset=-20.0 - el, navigate=False)
        h = d["original_metadata"]["ser_header_parameters"]
        tm = np.atleast_1d(h["Time"])
        t.check(list(tm) == [1400000000 + i for i in range(valid)], lambda: "times %s" % tm)
        t.check(np.allclose(np.atleast_1d(h["PositionX"]), [q[0] for q in pos[:valid]]), "positions")


def f_emi(t, c):
    """Several ser files next to an emi file: every one gets its own object."""
    k = c["files"]
    objs, dates = [], []
    for i in range(c["objects"]):
        objs.append(V.emi_object(date="Tue Apr %02d 18:21:%02d 2014" % (8 + i, i), mode=["STEM nP SA Zoom Imaging", "TEM uP SA Zoom Diffraction", "TEM uP SA Zoom Image"][(i + c["mode"]) % 3],
                                 camera="BM-UltraScan" if c["camera"] else None,
                                 data=(("High tension", str(300 - i), "kV"), ("Camera length", "0.0775", "m"), ("Stage A", "1.5", "deg"), ("Stage X", "2.5", "um"), ("Magnification", "5000", "x"))))
    w(t, "s.emi", V.emi(objs))
    for i in range(k):
        w(t, "s_%d.ser" % (i + 1), V.ser([tia_values(i, (2, 3), "u2")], "image", [(1, 0.0, 1.0, 0, "Number", "")], dtype="2", cal=((0.0, 1e-9, 0), (0.0, 2e-9, 0))))
    w(t, "s_x.ser", b"other")
    t.op(c)
    r = R("tia")(t.path("s.emi"), lazy=c["lazy"])
    t.check(len(r) == k, lambda: "%d signals, %d files" % (len(r), k))
    for i, d in enumerate(r):
        expect_array(t, tia_values(i, (2, 3), "u2")[::-1], d["data"], "file %d" % i)
        g = d["metadata"]["General"]
        if i < c["objects"]:
            t.check((g.get("date"), g.get("time")) == ("2014-04-%02d" % (8 + i), "18:21:%02d" % i), lambda: "file %d: date %s %s" % (i, g.get("date"), g.get("time")))
            e = d["original_metadata"]["ObjectInfo"]["ExperimentalDescription"]
            close(t, e["High tension_kV"] if "High tension_kV" in e else e.get("High_tension_kV"), 300.0 - i, "high tension of file %d" % i)
            mode = (i + c["mode"]) % 3
            diff = mode == 1 or (mode == 0 and c["camera"])
            axis(t, d["axes"][-1], "x of file %d" % i, units="1 / nm" if diff else "nm", scale=1e-18 if diff else 1.0)
            import hyperspy.api as hs

            t.check(d["mapping"]["ObjectInfo.ExperimentalDescription.Camera length_m"][1](0.0775) == 77.5, "camera length")


# ------------------------------------------------------------------ Hamamatsu
SECT = {"Application": [("Enconding", "UTF-8"), ("Date", '"20/01/2023"'), ("Time", '"11:34:55.147"'), ("Software", '"HPD-TA, x=1"')],
        "Acquisition": [("NrExposure", "60"), ("ExposureTime", "5 s"), ("AcqMode", "4"), ("pntBinning", '"2,4"'), ("BacksubCorr", "-1"), ("ShadingCorr", "0"), ("ZAxisLabel", "Intensity"), ("ZAxisUnit", "Count")],
        "Streak camera": [("DeviceName", '"C10910"'), ("Time Range", '"2 us"'), ("MCP Gain", '"50"')],
        "Spectrograph": [("DeviceName", '"Andor"'), ("Wavelength", '"500.5"'), ("Grating", '"150 g/mm"'), ("Blaze", '"500"'), ("Ruling", '"150"'), ("Side Ent. Slitw.", '"10"')]}


def f_img(t, c):
    h, wd = c["shape"]
    kind = c["type"]
    a = (np.arange(h * wd).reshape(h, wd) * {0: 3, 2: 911, 3: 40000007}[kind] + 1) % {0: 256, 2: 65536, 3: 2**32}[kind]
    x = y = None
    if c["x"]:
        x = np.float32(300.5 + np.arange(wd) * 1.25 + (np.arange(wd) ** 2 * 0.5 if c["x"] == "bent" else 0))
        if c["x"] == "down":
            x = x[::-1]
    if c["y"]:
        y = np.float32(np.arange(h) * 0.5 + (np.arange(h) ** 2 * 0.25 if c["y"] == "bent" else 0))
    sect = {k: [q for q in v] for k, v in SECT.items()}
    sect["Application"][1] = ("Date", '"%s"' % c["date"])
    if "ms" in c["exposure"]:
        sect["Acquisition"][1] = ("ExposureTime", c["exposure"])
    p = w(t, "img.img", V.img(a, kind, x, y, sections=sect))
    t.op(c)
    for uni in [False, True]:
        d = one(t, R("hamamatsu")(p, use_uniform_signal_axes=uni))
        want = a[:, ::-1] if c["x"] == "down" else a
        t.check(compute(d["data"]).dtype.kind in "iu", "type")
        expect_array(t, want.astype("i8"), d["data"], "image", dtype=None)
        axes_ok(t, d)
        ya, xa = d["axes"]
        axis(t, ya, "y", name="Time" if c["y"] else "Vertical CCD Position", units="µs" if c["y"] else "px", navigate=False)
        axis(t, xa, "x", name="Wavelength" if c["x"] else "Uncalibrated X axis", units="nm" if c["x"] else "px", navigate=False)
        for ax, v in ((ya, y), (xa, x)):
            if v is None:
                axis(t, ax, "uncalibrated", scale=1, offset=0)
                continue
            v = np.sort(v)
            if not uni:
                t.check(np.array_equal(ax["axis"], v), lambda: "axis %s expected %s" % (ax["axis"], v))
            else:
                s, o = np.polyfit(np.arange(v.size), v.astype(float), 1)
                t.check(np.isclose(ax["scale"], s, rtol=1e-4) and np.isclose(ax["offset"], o, rtol=1e-4, atol=1e-5), lambda: "uniform axis %s expected %s %s" % (ax, s, o))
        m = d["metadata"]
        day, mon, yr = 20, 1, 2023
        t.check(m["General"]["date"] == "2023-01-20" and m["General"]["time"] == "11:34:55", lambda: "date %s" % m["General"])
        t.check(m["Signal"]["quantity"] == "Intensity (Counts)", "quantity")
        det = m["Acquisition_instrument"]["Detector"]
        close(t, det["integration_time"], 60 * (0.5 if "ms" in c["exposure"] else 5.0), "integration time")
        t.check(det["binning"] == (2, 4) and det["processing"] == {"shading_correction": False, "background_correction": True}, lambda: "detector %s" % det)
        t.check((det["time_range"], det["time_range_units"], det["mcp_gain"], det["acquisition_mode"], det["frames"]) == (2.0, "µs", 50.0, "analog_integration", 60), lambda: "detector %s" % det)
        sp = m["Acquisition_instrument"]["Spectrometer"]
        t.check(sp["Grating"] == {"blazing_wavelength": 500.0, "groove_density": 150.0} and sp["central_wavelength"] == 500.5 and sp["entrance_slit_width"] == 10.0, lambda: "spectrometer %s" % sp)
        om = d["original_metadata"]
        t.check(om["Comment"]["Application"]["Software"] == "HPD-TA, x=1", lambda: "comment %s" % om["Comment"]["Application"])
        t.check((om["image_width_px"], om["image_height_lines"]) == (wd, h), "size")


# ------------------------------------------------------------------ Jobin Yvon
SETUP = {"Acq. time (s)": "1.5", "Accumulations": "2", "Range": "Off", "Detector temperature (°C)": "-70", "Laser (nm)": ("633 ", "632.817"), "Grating": ("150 (gr/mm)", "150"),
         "ND Filter": ("1%", "1"), "Hole": "100", "Objective": ("x50", "50"), "Spectro (nm)": ("530", "530.125"), "Instrument": "LabRAM HR", "Detector": "Symphony"}


def f_jy(t, c):
    n1, n2, m = c["n1"], c["n2"], c["m"]
    k = max(n1, 1) * max(n2, 1)
    rows = (np.arange(k)[:, None] * 100.0 + np.arange(m)[None, :] * 1.5 + 0.25)
    sig = 500.0 + 2.0 * np.arange(m) + (np.arange(m) ** 2 * 0.75 if c["bent"] else 0)
    if c["down"]:
        sig = sig[::-1]
    x = -3.0 + 1.5 * np.arange(n1)
    y = 7.0 - 2.5 * np.arange(n2)
    setup = {k: v for k, v in SETUP.items() if k != c["without"]}
    b = V.jy_xml(rows, sig, sunit=c["unit"], nav1=("X", "µm", x) if n1 else None, nav2=("Y", "µm", y) if n2 else None, setup=setup,
                 date={"Acquired": "2022-08-17 09:42:01"}, info={"Sample": "s & t", "Remark": "r"}, title="the title", angle=0.5 if c["angle"] else None)
    p = w(t, "a.xml", b)
    t.op(c)
    for uni in [False, True]:
        d = one(t, R("jobinyvon")(p, use_uniform_signal_axis=uni))
        nav = ([n2] if n2 > 1 else []) + ([n1] if n1 > 1 else [])
        want = rows.reshape(tuple(nav) + (m,))
        if c["down"]:
            want = want[..., ::-1]
        expect_array(t, want, d["data"], "data")
        axes_ok(t, d)
        ax = list(d["axes"])
        if n2 > 1:
            axis(t, ax.pop(0), "y", name="Y", units="µm", scale=-2.5, offset=7.0, navigate=True)
        if n1 > 1:
            axis(t, ax.pop(0), "x", name="X", units="µm", scale=1.5, offset=-3.0, navigate=True)
        s = np.sort(sig)
        name, unit = {"nm": ("Wavelength", "nm"), "1/cm": ("Raman Shift", "1/cm"), "1/cm abs": ("Wavenumber", "1/cm"), "eV": ("Energy", "eV")}[c["unit"]]
        axis(t, ax[0], "signal", name=name, units=unit, navigate=False)
        if uni:
            sc, off = np.polyfit(np.arange(m), s, 1)
            axis(t, ax[0], "signal", size=m)
            t.check(np.isclose(ax[0]["scale"], sc) and np.isclose(ax[0]["offset"], off), lambda: "uniform axis %s expected %s %s" % (ax[0], off, sc))
        else:
            t.check(np.array_equal(ax[0]["axis"], s), lambda: "axis %s" % ax[0]["axis"])
        g, inst = d["metadata"]["General"], d["metadata"]["Acquisition_instrument"]
        t.check((g["title"], g["date"], g["time"], g["notes"]) == ("the title", "2022-08-17", "09:42:01", "r") and d["metadata"]["Sample"]["description"] == "s & t", lambda: "general %s" % g)
        t.check(d["metadata"]["Signal"]["quantity"] == "Intensity (Counts/s)", "quantity")
        las, spe, det = inst["Laser"], inst["Spectrometer"], inst["Detector"]
        wanted = [("Laser (nm)", las.get("wavelength"), 632.817), ("Objective", las.get("objective_magnification"), 50.0), ("ND Filter", las["Filter"].get("optical_density"), 0.01),
                  ("Hole", spe.get("entrance_slit_width"), 1.0), ("Hole", spe.get("pinhole"), 1.0), ("Grating", spe["Grating"].get("groove_density"), 150.0),
                  ("Spectro (nm)", spe.get("central_wavelength"), 530.125), ("Acq. time (s)", det.get("exposure_per_frame"), 1.5), ("Accumulations", det.get("frames"), 2.0),
                  ("Detector temperature (°C)", det.get("temperature"), -70.0), ("Instrument", spe.get("model"), "LabRAM HR")]
        for key, got, v in wanted:
            if key == c["without"]:
                t.check(got is None, lambda: "%s is %r, nothing in the file" % (key, got))
            else:
                close(t, got, v, key)
        if c["without"] in ("Acq. time (s)", "Accumulations"):
            t.check("integration_time" not in det, "integration time")
        else:
            close(t, det["integration_time"], 3.0, "integration time")
        ra = inst["Spectral_image"].get("rotation_angle")
        t.check(np.isclose(ra, np.rad2deg(0.5)) if c["angle"] else ra is None, lambda: "rotation %s" % ra)


# ------------------------------------------------------------------ DENS
def f_dens(t, c):
    n = c["n"]
    start = c["start"]  # seconds of the day
    tm = [start + 0.5 * i for i in range(n)]
    rows = []
    for i, s in enumerate(tm):
        s = s % 86400
        ts = "%02d:%02d:%06.3f" % (s // 3600, s // 60 % 60, s % 60) if c["clock"] else "%.3f" % (0.5 * i)
        rows.append("%d\t%s\t%.2f\t%.2f\t1\t2\t3\t4\t5" % (i, ts, 100 + i, 20.5 + 1.25 * i))
    txt = "\n" * c["blank"] + "%02d/%02d/'%02d %02d:%02d\tDigiheater 3.1\nR0=31.5\ta=0.1\tb=0.2\tc=0.3\ndelta_t\n" % (c["date"])
    txt += "sample\ttime\tTset[C]\tTmeas[C]\tRheat[ohm]\tVheat[V]\tIheat[mA]\tPheat [mW]\tc\n" + "\n".join(rows) + "\n"
    p = w(t, "a.dens", txt.encode())
    t.op(c)
    d = one(t, R("dens")(p))
    expect_array(t, np.array([20.5 + 1.25 * i for i in range(n)]), d["data"], "temperature")
    axes_ok(t, d)
    a = d["axes"][0]
    axis(t, a, "time", name="Time", units="s", navigate=False)
    t.check(np.isclose(a["scale"], 0.5, rtol=1e-6) and np.isclose(a["offset"], start if c["clock"] else 0, atol=1e-6), lambda: "time axis %s" % a)
    dd = c["date"]
    g = d["metadata"]["General"]
    t.check((g["date"], g["time"]) == ("20%02d-%02d-%02d" % (dd[2], dd[1], dd[0]), "%02d:%02d:00" % dd[3:]), lambda: "date %s" % g)


# ------------------------------------------------------------------ Protochips
def f_proto(t, c):
    n, k = c["n"], c["k"]
    names = ["Channel A Temperature", "Channel A Current", "Channel B Voltage"][:k]
    head = (["Calibration file = E:\\cal\\AD21.cal"] if c["cal"] else []) + ["Date (yyyy.mm.dd) = 2014.12.03", "Time (hh:mm:ss.ms) = 17:15:37.192", "Time units = Milliseconds", "Temperature units = Degrees C",
            "Current units = Amps", "Voltage units = Volts", "Resistance units = Ohms"] + (["User agreeing to terms = user"] if c["user"] else [])
    sep = ", " if c["space"] else ","
    val = lambda i, j: 25.25 + 1.5 * i + 100 * j
    lines = [sep.join(["Time", "Notes"] + names)]
    lines += [sep.join(["0", h] + ["%g" % val(0, j) for j in range(k)]) for h in head]
    notes = {i: "note %d" % i for i in range(n) if c["notes"] and i % 3 == 2}
    lines += [sep.join(["%d" % (100 * i), notes.get(i, "")] + ["%g" % val(i, j) for j in range(k)]) for i in range(n)]
    p = w(t, "a.csv", ("\n".join(lines) + "\n").encode("latin1"))
    t.op(c)
    r = R("protochips")(p)
    t.check(len(r) == k, lambda: "%d signals of %d" % (len(r), k))
    unit = ["Degrees C", "Amps", "Volts"]
    first = 0
    if not c["user"] and len(r[0]["data"]) == n - 1:
        # known finding, reported by the part "protochips first sample": here the other samples are checked
        t.check(not c.get("all"), "first sample lost")
        first = 1
    notes = {i: v for i, v in notes.items() if i >= first}
    for j, d in enumerate(r):
        expect_array(t, np.array([val(i, j) for i in range(first, n)]), d["data"], names[j], dtype=None)
        axes_ok(t, d)
        axis(t, d["axes"][0], "time", name="Time", units="s", scale=0.1, offset=0, navigate=False)
        g = d["metadata"]["General"]
        t.check((g["date"], g["time"][:12], g["title"]) == ("2014-12-03", "17:15:37.192", "%s (%s)" % (names[j], unit[j])), lambda: "general %s" % g)
        t.check(d["metadata"]["Signal"]["quantity"] == "%s (%s)" % (names[j].split()[-1], unit[j]), lambda: "quantity %s" % d["metadata"]["Signal"])
        h = d["original_metadata"]["Protochips_header"]
        t.check(h.get("User") == ("user" if c["user"] else None), lambda: "user %s" % h.get("User"))
        if c["cal"]:
            t.check(h["Calibration file path"] == "E:\\cal\\AD21.cal" and d["mapping"]["Protochips_header.Calibration file path"][1](h["Calibration file path"]) == "Calibration file name: AD21.cal", "calibration file")
        got = [(int(float(a)), b.strip()) for a, b in np.asarray(h["Original notes"]).T if b.strip()]
        t.check(got == [(100 * i, v) for i, v in notes.items()], lambda: "notes %s expected %s" % (got, notes))
        t.check(list(h["Time axis"]["value"]) == [100 * i for i in range(first, n)] and h["Time units"] == "Milliseconds", "time axis")


def parts(tier):
    deep = tier == "thorough"
    base = dict(end="<", nb=2, nav=(2, 3), nz=4, offset=1168, spc="default", ipr="default", iv=333)
    vary = dict(end=["<", ">"], nb=[1, 2, 4], nav=[(1, 1), (1, 3), (3, 1), (2, 3), (3, 2)], nz=[1, 2, 4], offset=[1168, 1300], spc=[None, "default", "explicit"], ipr=[None, "default", "explicit"], iv=[333, 334])
    lsd = product(n=[1, 2, 3, 5], missing=[0, 1, 2], nz=[1, 3], nb=[1, 2, 4], end=["<", ">"], csv=[None, "default", "explicit", "bom"])
    ser = []
    for kind, sigs in (("spectrum", [(1,), (5,)]), ("image", [(2, 3), (3, 2), (2, 2), (1, 3)])):
        for nav, sig in itertools.product([(1,), (2,), (4,), (1, 1), (1, 3), (3, 1), (2, 3), (3, 2)] + ([(5, 4), (7,)] if deep else []), sigs):
            for dt in ["2", "7"] if not deep else sorted(V.TIA):
                for missing, units, version, el, pad in itertools.product([0, 1, 2], ["meters", ""], [528, 544], [0, 1], [0, 16] if deep else [0]):
                    if units == "" and len(nav) == 2 and not deep and missing == 2:
                        continue
                    ser.append(dict(kind=kind, nav=nav, sig=sig, dt=dt, missing=missing, units=units, version=version, el=el, pad=pad))
    ser += [dict(kind=k, nav=(2, 2), sig=s, dt=dt, missing=m, units="meters", version=544, el=0, pad=16) for (k, s), dt, m in itertools.product((("spectrum", (3,)), ("image", (2, 3))), sorted(V.TIA), [0, 1])]
    jb = dict(n1=0, n2=0, m=3, down=False, bent=False, unit="nm", angle=False, without=None)
    jy = [dict(jb, n1=a, n2=b, m=m, down=dn) for a, b, m, dn in product_([0, 1, 2, 3], [0, 1, 2, 3], [2, 3, 5], [False, True])]
    jy += [dict(jb, n1=2, n2=3, unit=u, down=dn, bent=be, angle=an) for u, dn, be, an in product_(["nm", "1/cm", "1/cm abs", "eV"], [False, True], [False, True], [False, True])]
    jy += [dict(jb, without=k) for k in SETUP]
    return [
        Part("edax spectrum", list(product(n=[1, 2, 7, 4096], end=["<", ">"], version=[0.61, 0.7], elems=sorted(ELEMS), start=[3840], all=[False, True])), f_spc,
            bounds="1-4096 channels, both byte orders and versions, 0-3 elements, whole or short header"),
        Part("edax map", list(product(**vary)) if deep else [c for c in product(**vary) if c["offset"] == 1168 or c["nav"] == (2, 3)], f_spd,
            bounds="all maps of up to 2x3 pixels, 1-4 channels of 1-4 bytes, both byte orders, side files absent, by name or given"),
        Part("edax line", list(lsd), f_lsd, bounds="1-5 spectra, 0-2 of them missing"),
        Part("tia", ser, f_ser, bounds="spectra and images in all stacks and maps of up to 6 elements, up to 2 elements not acquired; offsets of 4 and 8 bytes; calibration at element 0 and 1"),
        Part("emi", list(product(files=[1, 2, 3], objects=[1, 2, 3], mode=[0, 1, 2], camera=[False, True], lazy=[False, True])), f_emi, bounds="1-3 files and objects"),
        Part("hamamatsu", list(product(shape=[(2, 3), (3, 2), (4, 4)] + ([(5, 7), (1, 3), (3, 1)] if deep else []), type=[0, 2, 3], x=[None, "up", "down", "bent"], y=[None, "up", "bent"], date=["20/01/2023", "20.01.2023"], exposure=["5 s", "500 ms"])), f_img,
            bounds="images of up to 4x4 pixels, all types, calibrated axes up, down, not uniform"),
        Part("jobinyvon", jy, f_jy, bounds="spectra, lines and maps of up to 3x3 spectra; every entry of the setup left out in turn"),
        Part("dens", list(product(n=[2, 3, 5, 9], start=[0, 3723.5, 86398.5, 86399.5], clock=[True, False], blank=[0, 2], date=[(7, 12, 19, 8, 5), (1, 2, 99, 23, 59) if False else (31, 1, 20, 23, 59)])), f_dens, bounds="2-9 samples, midnight at every position"),
        Part("protochips", list(product(n=[5, 6, 8], k=[1, 2, 3], cal=[True, False], user=[True, False], space=[True, False], notes=[True, False])), f_proto, bounds="5-8 samples of 1-3 quantities"),
        Part("protochips first sample", [dict(n=n, k=1, cal=False, user=False, space=True, notes=False, all=True) for n in (5, 8)], f_proto),
    ]


def product_(*a):
    return itertools.product(*a)
