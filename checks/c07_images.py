"""C07: TIFF and images."""
import itertools
import os
import warnings

import numpy as np

from mc.core import Part, Skip, product
from mc.sig import *

PROPERTY = "C07"
ASSUMPTIONS = [
    "TIFF stores the calibration of images and stacks of images (the dimensions the plugin declares); "
    "scales are positive and at least 1e-8 (the writer refuses others)",
    "dimensions of size 1 of a stack are not kept by tiff files, nor are the navigation dimensions of 4D data (which the plugin does not declare)",
    "an RGB(A) image whose channels are all equal (and opaque) is read as a grey image by the image plugin (documented in the code)",
    "lossless image formats: PNG (8 and 16 bit), BMP (8 bit)"]
KINDS = ["rgb8", "rgb16", "rgba8", "rgba16"]


def tif():
    from rsciio import tiff

    return tiff


def img():
    from rsciio import image

    return image


def rgb_fill(kind, shape, gray=None):
    from rsciio.utils import rgb

    dt = rgb.RGB_DTYPES[kind]
    a = np.zeros(shape, dt)
    n = int(np.prod(shape))
    top = np.iinfo(dt[0]).max
    for j, nm in enumerate(dt.names):
        a[nm] = ((np.arange(n) * (13 + 2 * j) + 40 * j + 1) % top).reshape(shape)
    if gray:
        for dst, src in gray:
            a[dst] = a[src]
    return a


CAL = {"plain": (0.5, 2.0, 0.25), "unequal": (1.0, 0.001, 12.5), "fine": (3.0, 0.00025, 0.00125)}
OFF = {"plain": (0.0, 0.0, 0.0), "unequal": (-3.0, 2.5, -0.5), "fine": (1.0, 0.0, 7.0)}


def axes_of(shape, nnav, cal, units):
    n = len(shape)
    names = ["a", "b", "z", "height", "width"]
    out = []
    for i, s in enumerate(shape):
        k = 3 - (n - i)
        out.append(uaxis(s, i < nnav, name=names[5 - n + i], units=units[k % 3], scale=CAL[cal][k % 3], offset=OFF[cal][k % 3]))
    return out


def write_read(t, s, reads, **kw):
    m = tif()
    p = t.path("a.tif")
    t.op("write")
    m.file_writer(p, s, **kw)
    out = []
    for k in reads:
        t.op("read")
        out.append((k, m.file_reader(p, **k)))
    return p, out


def f_tiff(t, c):
    import dask.array as da

    shape, nnav = c["shape"], c["nnav"]
    a = rgb_fill(c["dtype"], shape) if c["dtype"] in KINDS else fill(shape, c["dtype"])
    src = layout(a, c["layout"])
    data = da.from_array(src, chunks=c["chunks"]) if c["chunks"] else src
    axes = axes_of(shape, nnav, c["cal"], c["units"])
    s = signal(data, axes=[dict(x) for x in axes], title="t", metadata={"General": {"date": "2020-02-03", "time": "04:05:06"}} if c.get("date") else None)
    p, res = write_read(t, s, [{"lazy": False}, {"lazy": True}, {"lazy": False, "multipage_as_list": True}, {"lazy": True, "multipage_as_list": True},
                               {"lazy": False, "force_read_resolution": True}], export_scale=c["scale"])
    for k, r in res:
        tag = "tiff %s" % k
        if len(shape) > 2 and (1 in shape[:-2] or 1 in shape and c["dtype"] not in KINDS) or len(shape) > 3 and c["scale"]:
            # dimensions of size 1 of stacks and the dimensions of stacks of stacks are not kept
            got = [compute(d["data"]) for d in r]
            t.state(*got)
            t.check(np.array_equal(np.concatenate([g.ravel() for g in got]), a.ravel()), "%s: values" % tag)
            t.check(all(list(d["data"].shape) == [x["size"] for x in d["axes"]] for d in r), "%s: sizes" % tag)
            continue
        if k.get("multipage_as_list"):
            want = a.reshape((-1,) + shape[-2:]) if len(shape) > 2 else a[None]
            t.check(len(r) == len(want), lambda: "%s: %d pages for %d images" % (tag, len(r), len(want)))
            for w, d in zip(want, r):
                expect_array(t, w, d["data"], tag)
            continue
        t.check(len(r) == 1, lambda: "%s: %d signals" % (tag, len(r)))
        d = r[0]
        expect_array(t, a, d["data"], tag)
        t.check(len(d["axes"]) == a.ndim and [x["size"] for x in d["axes"]] == list(shape), lambda: "%s: sizes of axes" % tag)
        if c.get("date"):
            t.check(d["metadata"]["General"].get("date") == "2020-02-03" and d["metadata"]["General"].get("time") == "04:05:06", "date and time")
        if "force_read_resolution" in k or not c["scale"] or nnav > 1 or len(shape) - nnav != 2:
            continue
        nav = [x["navigate"] for x in d["axes"]]
        t.check(nav == [x["navigate"] for x in axes], lambda: "navigate %s" % nav)
        for i, (w, g) in enumerate(zip(axes, d["axes"])):
            t.check(np.isclose(g["scale"], w["scale"], rtol=1e-4, atol=1e-8), lambda: "%s axis %d scale %r expected %r" % (tag, i, g["scale"], w["scale"]))
            t.check(np.isclose(g["offset"], w["offset"]), lambda: "%s axis %d offset %r expected %r" % (tag, i, g["offset"], w["offset"]))
            t.check((g["units"] or None) == (w["units"] or None), lambda: "%s axis %d units %r expected %r" % (tag, i, g["units"], w["units"]))
    # files may be written again and again from what was read
    for k, r in res[:2]:
        if len(shape) > 3 or len(shape) > 2 and 1 in shape:
            continue
        d = r[0]
        s2 = signal(d["data"], axes=[dict(uaxis(x["size"], x["navigate"]), **{q: x[q] for q in ("name", "units", "scale", "offset")}) for x in d["axes"]],
                    metadata=d["metadata"], original_metadata={})
        q = t.path("b.tif")
        t.op("rewrite")
        tif().file_writer(q, s2, export_scale=c["scale"])
        d2 = tif().file_reader(q)[0]
        expect_array(t, a, d2["data"], "second generation")
        for x, y in zip(d["axes"], d2["axes"]):
            t.check(np.isclose(x["scale"], y["scale"], rtol=1e-6) and np.isclose(x["offset"], y["offset"]) and (x["units"] or None) == (y["units"] or None),
                    lambda: "second generation axis: %s then %s" % (x, y))


def f_tiff_options(t, c):
    """Options of the writer and files of several series or pages, written by tifffile."""
    import tifffile

    m = tif()
    p = t.path("m.tif")
    arrs = []
    with tifffile.TiffWriter(p, bigtiff=c["big"], byteorder=c["order"]) as w:
        for i, shape in enumerate(c["series"]):
            a = fill(shape, c["dtype"], seed=31 * i)
            arrs.append(a)
            w.write(a, photometric="minisblack", compression=c["comp"], contiguous=False, metadata={"axes": "QZYX"[-len(shape):]} if c["axes"] else {})
    for lazy in (False, True):
        t.op("read")
        r = m.file_reader(p, lazy=lazy)
        t.check(len(r) == len(arrs), lambda: "%d series read as %d signals" % (len(arrs), len(r)))
        for a, d in zip(arrs, r):
            expect_array(t, a, d["data"], "series")
            t.check([x["size"] for x in d["axes"]] == list(a.shape), "axes sizes")
            t.check([x["navigate"] for x in d["axes"]] == [True] * (a.ndim - 2) + [False, False], "navigate")
        t.op("read pages")
        r = m.file_reader(p, lazy=lazy, multipage_as_list=True)
        pages = [x for a in arrs for x in a.reshape((-1,) + a.shape[-2:])]
        t.check(len(r) == len(pages), lambda: "%d pages read as %d signals" % (len(pages), len(r)))
        for a, d in zip(pages, r):
            expect_array(t, a, d["data"], "page")
            t.check([x["size"] for x in d["axes"]] == list(a.shape), "axes sizes of a page")


def f_tiff_resolution(t, c):
    """Resolution tags, only read when forced."""
    import tifffile

    m = tif()
    p = t.path("m.tif")
    a = fill(c["shape"], "u1")
    rx, ry = c["res"]
    tifffile.imwrite(p, a, photometric="minisblack", resolution=(rx, ry), resolutionunit=c["unit"], metadata=None)
    f = {"INCH": 25400.0, "CENTIMETER": 10000.0}.get(c["unit"])
    for lazy, force in itertools.product((False, True), (False, True)):
        t.op("read")
        d = m.file_reader(p, lazy=lazy, force_read_resolution=force)[0]
        expect_array(t, a, d["data"], "resolution")
        h, w = d["axes"][-2], d["axes"][-1]
        if force and f:
            t.check(np.isclose(w["scale"], f / rx, rtol=1e-5) and w["units"] == "µm", lambda: "width %s" % w)
            t.check(np.isclose(h["scale"], f / ry, rtol=1e-5) and h["units"] == "µm", lambda: "height %s" % h)
        else:
            t.check((w["scale"], h["scale"], w["units"], h["units"]) == (1.0, 1.0, None, None), lambda: "%s %s" % (w, h))


def f_tiff_tags(t, c):
    """Custom tags and free keywords do not disturb the data."""
    m = tif()
    a = fill((3, 4), "u2")
    s = signal(a, axes=axes_of((3, 4), 0, "plain", [None, "nm", "nm"]))
    kw = dict(c["kw"])
    p = t.path("a.tif")
    t.op("write")
    keep = list(kw["extratags"]) if isinstance(kw.get("extratags"), list) else None
    m.file_writer(p, s, **kw)
    if keep is not None:
        t.check(kw["extratags"] == keep, "extratags changed by the writer")
    d = m.file_reader(p)[0]
    t.op("read")
    expect_array(t, a, d["data"], "with %s" % sorted(kw))
    for tag in kw.get("extratags") or []:
        t.check(d["original_metadata"].get("Number_%d" % tag[0], d["original_metadata"].get(str(tag[0]))) == tag[3], lambda: "custom tag: %s" % d["original_metadata"])


INTENSITY = [None, "", "Counts", "e\u00b5"]


def f_tiff_intensity(t, c):
    """The unit and the gain of the intensity are stored for DigitalMicrograph."""
    m = tif()
    a = fill(c["shape"], "u2")
    md = {}
    if c["quantity"] is not None:
        md["quantity"] = c["quantity"]
    if c["noise"]:
        md["Noise_properties"] = {"Variance_linear_model": dict(c["noise"])}
    s = signal(a, axes=axes_of(c["shape"], len(c["shape"]) - 2, "unequal", [None, "nm", "nm"]), metadata={"Signal": md})
    _, rs = write_read(t, s, [dict(lazy=False), dict(lazy=True)])
    for k, (d,) in rs:
        expect_array(t, a, d["data"], "with an intensity")
        got = d["metadata"]["Signal"]
        t.state(sorted(map(str, got.items())))
        t.check(got.get("quantity", "") == (c["quantity"] or ""), lambda: "quantity %r read %r" % (c["quantity"], got.get("quantity")))
        v = got.get("Noise_properties", {}).get("Variance_linear_model")
        want = c["noise"]
        if want and "gain_factor" in want and "gain_offset" in want:
            t.check(v == {"gain_factor": want["gain_factor"], "gain_offset": want["gain_offset"]}, lambda: "gain %s read %s" % (want, v))
        elif not want:
            t.check(v is None, lambda: "gain made up: %s" % v)
        # the axes are not disturbed
        t.check(abs(d["axes"][-1]["scale"] - CAL["unequal"][2]) < 1e-9 and abs(d["axes"][-2]["scale"] - CAL["unequal"][1]) < 1e-9, "scale")


def vendor_tiff(p, a, v, sx, sy, variant):
    """A tiff file with the private tags of a vendor; returns the scale and units expected for (height, width) and mapped metadata."""
    import tifffile

    kw = dict(photometric="minisblack", metadata=None)
    h, w = a.shape[-2:]
    tags = []
    exp = {}
    if v == "fei":
        txt = "[User]\r\nDate=02/29/2020\r\nTime=03:04:05 PM\r\nUser=me\r\n[System]\r\nSystemType=Helios\r\n[Beam]\r\nHV=5000\r\n[EBeam]\r\nBeamCurrent=2.5e-11\r\n"
        txt += "[Stage]\r\nStageX=0.001\r\nStageY=-0.002\r\nStageZ=0.003\r\nStageR=1.5\r\nStageT=0.25\r\nWorkingDistance=0.004\r\n"
        if variant % 2 == 0:
            txt += "[Scan]\r\nPixelWidth=%r\r\nPixelHeight=%r\r\nDwelltime=1e-06\r\n" % (sx * 1e-9, sy * 1e-9)
        else:
            txt += "[IRBeam]\r\nHFW=%r\r\nVFW=%r\r\n[Image]\r\nResolutionX=%d\r\nResolutionY=%d\r\n" % (sx * 1e-9 * w, sy * 1e-9 * h, w, h)
        tags = [(34680 if variant < 2 else 34682, "s", 0, txt, True)]
        exp = dict(units="m", scale=(sy * 1e-9, sx * 1e-9))
        exp["mapped"] = {"Acquisition_instrument.SEM.beam_energy": 5.0, "Acquisition_instrument.SEM.Stage.x": 0.001, "Acquisition_instrument.SEM.Stage.y": -0.002,
                         "Acquisition_instrument.SEM.Stage.z": 0.003, "Acquisition_instrument.SEM.Stage.rotation": 1.5, "Acquisition_instrument.SEM.Stage.tilt": 0.25,
                         "Acquisition_instrument.SEM.working_distance": 4.0, "Acquisition_instrument.SEM.beam_current": 2.5e-2,
                         "Acquisition_instrument.SEM.microscope": "Helios", "General.date": "2020-02-29", "General.time": "15:04:05", "General.authors": "me"}
        if variant % 2 == 0:
            exp["mapped"]["Acquisition_instrument.SEM.dwell_time"] = 1e-6
    elif v == "zeiss":
        # the scale of the display, 1024 pixels wide, is the fourth number
        txt = "0\r\n1\r\n2\r\n%r\r\n5\r\n" % (sx * 1e-9)
        txt += "AP_ACTUALKV\r\nEHT = 20.0 kV\r\nAP_MAG\r\nMag = 150\r\nAP_WD\r\nWD = 8.5 mm\r\nAP_STAGE_AT_X\r\nX = 1500.0 \xb5m\r\nAP_STAGE_AT_Y\r\nY = 2.5 mm\r\n"
        txt += "AP_STAGE_AT_Z\r\nZ = -3.5 mm\r\nAP_STAGE_AT_R\r\nR = 7.5 deg\r\nAP_STAGE_AT_T\r\nT = 0.5 deg\r\nDP_DWELL_TIME\r\nDwell = 100 ns\r\nAP_IPROBE\r\nI = 50.0 pA\r\n"
        txt += "DP_DETECTOR_TYPE\r\nDetector = SE2\r\nSV_SERIAL_NUMBER\r\nSN = Merlin-1\r\nAP_DATE\r\nDate :29 Feb 2020\r\nAP_TIME\r\nTime :15:04:05\r\nSV_USER_NAME\r\nUser = me\r\n"
        tags = [(34118, "s", 0, txt.encode("latin1"), True)]
        q = sx * 1e-9 * 1024 / w
        A = "Acquisition_instrument.SEM."
        exp = dict(units="m", scale=(q, q), mapped={
            A + "beam_energy": 20.0, A + "magnification": 150.0, A + "working_distance": 8.5, A + "Stage.x": 1.5, A + "Stage.y": 2.5, A + "Stage.z": -3.5,
            A + "Stage.rotation": 7.5, A + "Stage.tilt": 0.5, A + "dwell_time": 1e-7, A + "beam_current": 0.05, A + "Detector.detector_type": "SE2",
            A + "microscope": "Merlin-1", "General.date": "2020-02-29", "General.time": "15:04:05", "General.authors": "me"})
    elif v == "tvips":
        v1, v2 = (np.zeros(1, [x if len(x) == 2 and not x[1][0].isdigit() else (x[0], x[1]) for x in hd]) for hd in (tifffile.TIFF.TVIPS_HEADER_V1, tifffile.TIFF.TVIPS_HEADER_V2))
        v1["Version"] = 1 + (variant % 2 == 0)
        v2["Magic"] = 0xAAAAAAAA
        v2["PixelSizeX"], v2["PixelSizeY"] = sx, sy
        v2["TemMode"] = 3 if variant == 2 else 1
        v2["TemMagnification"] = 5000
        v2["ExposureTime"] = 250
        v2["TemHighTension"] = 200000
        v2["Time"] = 45296
        v2["TemStagePosition"] = [1, -2, 3, 4.5, -5.5]
        for key, text in (("Comment", "hello"), ("CameraType", "F416")):
            v2[key] = np.void(text.encode("utf-16-le").ljust(v2.dtype[key].itemsize, b"\0"))
        raw = v1.tobytes() + (v2.tobytes() if v1["Version"][0] == 2 else b"")
        tags = [(37706, "B", len(raw), raw, True)]
        A = "Acquisition_instrument.TEM."
        if v1["Version"][0] == 2:
            exp = dict(units="nm", scale=(sy, sx), mapped={
                A + ("camera_length" if variant == 2 else "magnification"): 5000, A + "Detector.Camera.name": "F416", A + "Detector.Camera.exposure": 0.25,
                A + "beam_energy": 200.0, "General.notes": "hello", "General.time": "12:34:56",
                A + "Stage": {"x": 1e3, "y": -2e3, "z": 3e3, "tilt_alpha": 4.5, "tilt_beta": -5.5}})
        else:
            kw["resolution"] = (2 / sx, 4 / sy)
            kw["resolutionunit"] = "CENTIMETER"
            exp = dict(units="m", scale=(1e-2 * sy / 4, 1e-2 * sx / 2))
    elif v == "olympus":
        body = np.zeros(1, "V112")
        import struct

        head = struct.pack("<4s6xhhhhh6x32sH", b"SIS0", 4, 15, 29, 1, 120, b"name", 1)
        # the block of general data is put behind the image, its address is patched in below
        tags = [(33560, "B", len(head) + 8, head + struct.pack("<hhI", 1, 1, 0x7fabcdef), True)]
        exp = dict(units="m", scale=(sy * 1e-9, sx * 1e-9), mapped={"Acquisition_instrument.TEM.magnification": 300.0, "Acquisition_instrument.TEM.Detector.Camera.name": "Veleta"})
    elif v == "streak":
        names = ["#%07d,%05d" % (1111111, w), "#%07d,%05d" % (2222222, h)]
        if variant == 1:
            names[0] = "Other"
        if variant == 2:
            names[1] = "Focus mode"
        desc = '[Application],Date="29/02/2020",Software="HPD-TA"\r\n[Scaling],ScalingXType=1,ScalingXScale=1,ScalingXUnit="nm",ScalingXScalingFile="%s",ScalingYType=2,ScalingYScale=1,ScalingYUnit="us",ScalingYScalingFile="%s"' % (
            names[0].split(",")[0], names[1].split(",")[0])
        tags = [(315, "s", 0, "Copyright Hamamatsu GmbH, 2020", True), (270, "s", 0, desc, True)]
        kw["software"] = "HPD-TA 9.5"
    elif v == "sightx":
        diff = variant % 2 == 1
        xml = "<?xml version='1.0'?><TemReporter><Instruments>ARM</Instruments><DateTime>2020-02-29T15:04:05.1234567+09:00</DateTime>"
        xml += "<ElectronGun><AccelerationVoltage>200000</AccelerationVoltage><BeamCurrent>12</BeamCurrent></ElectronGun>"
        xml += "<Eos><EosMode>eosTEM</EosMode></Eos><IlluminationSystem><ImageField>BrightField</ImageField></IlluminationSystem>"
        xml += "<GonioStage><MZ>5000000</MZ><StagePosition><TX>1.5</TX><TY>-2.5</TY></StagePosition></GonioStage>"
        xml += "<ImageFormingSystem><ImageFormingMode>modeMAG</ImageFormingMode><ModeString>%s</ModeString><SelectorString>X</SelectorString><SelectorValue>%s</SelectorValue><SelectorUnitString>%s</SelectorUnitString></ImageFormingSystem></TemReporter>" % (
            "DIFF" if diff else "MAG", {0: 8000, 1: 80, 2: 8000, 3: 800}[variant], {0: "X", 1: "cm", 2: "X", 3: "mm"}[variant])
        tags = [(271, "s", 0, "JEOL Ltd.", True), (270, "s", 0, xml, True)]
        kw.update(resolution=(2 / sx, 4 / sy), resolutionunit="INCH" if variant >= 2 else "CENTIMETER", datetime="2020:02:29 15:04:05")
        f = 0.0254 if variant >= 2 else 0.01
        if diff:
            # Bragg's law for small angles: pixel / camera length / wave length (2.5079 pm at 200 kV)
            g = f / (0.8 * 2.507934e-3)
            exp = dict(units="1 / nm", scale=(sy / 4 * g, sx / 2 * g))
        else:
            g = f / 8000 * 1e9
            exp = dict(units="nm", scale=(sy / 4 * g, sx / 2 * g))
        A = "Acquisition_instrument.TEM."
        exp["mapped"] = {A + "beam_energy": 200.0, A + "microscope": "ARM", A + "beam_current": 0.012, A + "Stage.tilt_alpha": "1.5", A + "Stage.tilt_beta": "-2.5",
                         A + "Stage.z": 5.0, A + "acquisition_mode": "TEM"}
        exp["mapped"] = {k: (float(q) if isinstance(q, str) and k.startswith(A + "Stage") else q) for k, q in exp["mapped"].items()}
    tifffile.imwrite(p, a, extratags=tags, **kw)
    if v == "olympus":
        raw = open(p, "rb").read()
        pos = len(raw)
        raw = raw.replace(struct.pack("<I", 0x7fabcdef), struct.pack("<I", pos))
        raw += struct.pack("<10xhdd8xd2x34s32s", -9, sx, sy, 300.0, b"Veleta", b"type") + b"\0" * 8
        open(p, "wb").write(raw)
    if v == "streak":
        raw = open(p, "rb").read()
        raw += b"\0" * (-len(raw) % 4)
        xax = (500 + sx * np.arange(w)).astype("f4")
        yax = (0.5 + sy * np.arange(h) + 0.01 * np.arange(h) ** 2 + (0.001 * np.arange(h) ** 3)).astype("f4")
        raw = raw.replace(b"#1111111", b"#%07d" % len(raw)).replace(b"#2222222", b"#%07d" % (len(raw) + xax.nbytes)) + xax.tobytes() + yax.tobytes()
        open(p, "wb").write(raw)
        exp = dict(x=np.arange(w) if variant == 1 else xax, y=np.arange(h) if variant == 2 else yax)
    return exp


def look(d, path):
    for k in path.split("."):
        if not hasattr(d, "keys") or k not in d:
            return None
        d = d[k]
    return d


def f_tiff_vendor(t, c):
    """Calibration and metadata in the private tags of the vendors."""
    m = tif()
    a = fill(c["shape"], c["dtype"])
    p = t.path("v.tif")
    sx, sy = c["scale"]
    exp = vendor_tiff(p, a, c["vendor"], sx, sy, c["variant"])
    for lazy in (False, True):
        for kind in (["uniform", "data", "functional", None] if c["vendor"] == "streak" else [None]):
            t.op("read")
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                d = m.file_reader(p, lazy=lazy, **({"hamamatsu_streak_axis_type": kind} if kind else {}))[0]
            expect_array(t, a, d["data"], "%s lazy=%s" % (c["vendor"], lazy))
            ax = d["axes"]
            t.check(len(ax) == 2, lambda: "axes %s" % ax)
            t.state([sorted((k, str(v)) for k, v in x.items()) for x in ax])
            if c["vendor"] == "streak":
                h, w = ax
                t.check(h["name"] == "height" and w["name"] == "width" and w["units"] == "nm" and h["units"] == "us", lambda: "axes %s" % ax)
                t.check(w["size"] == a.shape[1] and np.allclose(w["offset"] + w["scale"] * np.arange(w["size"]), exp["x"], rtol=1e-4), lambda: "width axis %s expected %s" % (w, exp["x"]))
                n = np.arange(a.shape[0])
                y = exp["y"].astype(float)
                if kind == "data":
                    t.check(np.array_equal(h["axis"], exp["y"]), lambda: "height axis %s expected %s" % (h, exp["y"]))
                elif kind == "functional":
                    x = h["x"]["offset"] + h["x"]["scale"] * np.arange(h["x"]["size"])
                    t.check(h["expression"].replace(" ", "") == "a*x**3+b*x**2+c*x+d" and np.allclose(
                        h["a"] * x**3 + h["b"] * x**2 + h["c"] * x + h["d"], y, atol=1e-3), lambda: "height axis %s expected %s" % (h, y))
                else:
                    # the least squares line
                    b = ((n - n.mean()) * (y - y.mean())).sum() / ((n - n.mean()) ** 2).sum()
                    t.check(h["size"] == len(n) and abs(h["scale"] - b) < 1e-4 * abs(b) and abs(h["offset"] - (y.mean() - b * n.mean())) < 1e-3, lambda: "height axis %s" % h)
                continue
            for x, name, sc in zip(ax, ("height", "width"), exp["scale"]):
                t.check(x["name"] == name and x["units"] == exp["units"], lambda: "axis %s expected units %s" % (x, exp["units"]))
                t.check(abs(x["scale"] / sc - 1) < 2e-4, lambda: "%s %s: scale %r expected %r" % (c["vendor"], name, x["scale"], sc))
                t.check(x["offset"] == 0, "offset")
            om = d["original_metadata"]
            got = {}
            for key, (path, fn) in d["mapping"].items():
                v = look(om, key)
                if v is not None:
                    got[path] = fn(v) if fn else v
            for path, v in exp.get("mapped", {}).items():
                g = got.get(path)
                if isinstance(v, float) and isinstance(g, str):
                    g = float(g)
                same = abs(g - v) <= 1e-6 * abs(v) if isinstance(v, float) and isinstance(g, (int, float)) else g == v
                t.check(same, lambda: "%s: %s is %r expected %r" % (c["vendor"], path, g, v))


def f_img(t, c):
    import dask.array as da

    m = img()
    shape = c["shape"]
    if c["dtype"] in KINDS:
        a = rgb_fill(c["dtype"], shape, c.get("gray"))
        want = a
        if c.get("collapse"):
            want = a["R"]
    else:
        a = want = fill(shape, c["dtype"])
    src = layout(a, c["layout"])
    s = signal(da.from_array(src, chunks=-1) if c["lazy_in"] else src, axes=[uaxis(x, False, name=n) for x, n in zip(shape, "yx")])
    p = t.path("a." + c["ext"])
    t.op("write")
    try:
        m.file_writer(p, s)
    except (TypeError, OSError, ValueError, KeyError) as e:
        raise Skip("not accepted by the format: %s" % e)
    for lazy in (False, True):
        t.op("read")
        r = m.file_reader(p, lazy=lazy)
        t.check(len(r) == 1, "one image")
        d = r[0]
        t.check((not isinstance(d["data"], np.ndarray)) == lazy, "lazy=%s returns %s" % (lazy, type(d["data"]).__name__))
        expect_array(t, want, d["data"], "%s lazy=%s" % (c["ext"], lazy))
        ax = d["axes"]
        t.check([(x["name"], x["size"], x["scale"], x["offset"]) for x in ax] == [("y", shape[0], 1.0, 0), ("x", shape[1], 1.0, 0)], lambda: "axes %s" % ax)


def parts(tier):
    th = tier == "thorough"
    shapes = [((3, 4), 0), ((1, 4), 0), ((4, 1), 0), ((1, 1), 0), ((2, 3, 4), 1), ((3, 2, 3), 1), ((4, 3, 3), 1), ((1, 3, 4), 1), ((3, 1, 4), 1), ((2, 3, 1), 1), ((5, 4, 3), 1),
              ((5, 4, 4), 1), ((3, 3, 4), 1), ((4, 5, 3), 1), ((2, 3, 4, 5), 2), ((2, 2, 3, 3), 2), ((1, 2, 3, 4), 2), ((2, 1, 3, 4), 2)]
    dts = ["u1", "u2", "u4", "i1", "i2", "i4", "f4", "f8", ">u2", ">f4", "f2", "u8", "c8", "bool"]
    tf = []
    for (shape, nnav), dt in itertools.product(shapes, dts):
        for sc in (True, False):
            tf.append(dict(shape=shape, nnav=nnav, dtype=dt, layout="C", chunks=None, cal="plain", units=[None, None, None], scale=sc))
    for shape, nnav in shapes:
        for cal in CAL:
            for un in ([None, "nm", "nm"], ["s", "µm", "µm"], ["nm", "Å", "Å"], ["eV", "1/nm", "1/nm"], ["", "", ""], ["nm", "nm", "µm"], ["s", "mm", "s"], [None, None, "µm"]):
                tf.append(dict(shape=shape, nnav=nnav, dtype="u2", layout="C", chunks=None, cal=cal, units=un, scale=True, date=cal == "plain"))
        for lay in LAYOUTS:
            tf.append(dict(shape=shape, nnav=nnav, dtype="i2", layout=lay, chunks=None, cal="plain", units=[None, "nm", "nm"], scale=True))
        for ch in chunkings(shape)[:: 1 if th else 3]:
            tf.append(dict(shape=shape, nnav=nnav, dtype="u1", layout="C", chunks=ch, cal="plain", units=[None, "nm", "nm"], scale=True))
    for kind in KINDS:
        for shape, nnav in [((3, 4), 0), ((3, 3), 0), ((4, 4), 0), ((1, 4), 0), ((4, 1), 0), ((1, 1), 0), ((2, 3, 4), 1), ((3, 4, 4), 1), ((1, 3, 4), 1), ((2, 3, 3, 4), 2)]:
            for ch in (None, shape):
                for sc in (True, False):
                    tf.append(dict(shape=shape, nnav=nnav, dtype=kind, layout="C", chunks=ch, cal="plain", units=[None, "nm", "nm"], scale=sc))
    ser = [[(3, 4)], [(3, 4), (5, 6)], [(3, 4), (3, 4)], [(2, 3, 4)], [(2, 3, 4), (5, 6)], [(2, 3, 4, 5)], [(4, 3, 3), (2, 2), (3, 2, 2)]]
    op = product(series=ser, dtype=["u1", "u2", "f4", "i4"], big=[False, True], order=["<", ">"], comp=[None, "zlib"], axes=[False, True])
    tags = [{}, {"extratags": [(65000, "s", 1, "Random metadata", False)]}, {"extratags": [(65000, "s", 1, "ab", False), (65001, "s", 1, "cd", False)]},
            {"compression": "zlib"}, {"bigtiff": True}, {"byteorder": ">"}, {"description": "text", "export_scale": False}, {"description": "text"}, {"export_scale": False},
            {"extratags": None}, {"metadata": {"axes": "YX"}}]
    im = []
    for ext, lay, lz in itertools.product(["png", "bmp"], ["C", "F", "reversed", "readonly"], [False, True]):
        for shape in [(3, 4), (4, 3), (3, 3), (4, 4), (1, 5), (5, 1), (1, 1), (2, 2), (1, 3), (1, 4), (3, 1), (4, 1), (2, 7)]:
            for dt in ["u1", "u2", ">u2"] if ext == "png" else ["u1"]:
                im.append(dict(ext=ext, shape=shape, dtype=dt, layout=lay, lazy_in=lz))
            for kind in ["rgb8", "rgba8"] if ext == "png" else ["rgb8"]:
                im.append(dict(ext=ext, shape=shape, dtype=kind, layout=lay, lazy_in=lz))
    for gray, col in ([[("G", "R"), ("B", "R")], True], [[("B", "G")], False], [[("G", "R")], False], [[("B", "R")], False]):
        im.append(dict(ext="png", shape=(3, 5), dtype="rgb8", layout="C", lazy_in=False, gray=gray, collapse=col))
    im.append(dict(ext="png", shape=(3, 5), dtype="rgba8", layout="C", lazy_in=False, gray=[("B", "R"), ("G", "R")]))
    im.append(dict(ext="png", shape=(3, 5), dtype="rgba8", layout="C", lazy_in=False, gray=[("B", "G")]))
    return [
        Part("tiff", tf, f_tiff, "shape x dtype (incl. RGB) x layout x chunks x calibration x units x reader options x second generation"),
        Part("tiff-pages", op, f_tiff_options, "series x pages x byte order x bigtiff x compression x lazy"),
        Part("tiff-resolution", product(shape=[(3, 4), (4, 3), (2, 3, 4)], unit=["INCH", "CENTIMETER", "NONE"],
                                        res=[(72, 72), (300, 150), (1e5, 2e5), (0.5, 0.25), (96.25, 1000)]), f_tiff_resolution,
             "resolution unit x resolution x forced x lazy"),
        Part("tiff-intensity", product(shape=[(3, 4), (2, 3, 4)], quantity=INTENSITY, noise=[None, {}, {"gain_factor": 2.5, "gain_offset": -1.5}, {"gain_factor": 1.0, "gain_offset": 0.0},
                                                                                         {"gain_factor": 2.0}, {"gain_factor": 2.0, "gain_offset": 3.0, "correlation_factor": 4.0}]),
             f_tiff_intensity, "quantity x noise model"),
        Part("tiff-vendor", product(vendor=["fei", "zeiss", "tvips", "olympus", "sightx"], variant=[0, 1, 2, 3], shape=[(3, 4), (4, 3), (4, 4)], dtype=["u1", "u2"],
                                    scale=[(2.0, 2.0), (2.0, 5.0), (0.25, 0.125)])
             + product(vendor=["streak"], variant=[0, 1, 2], shape=[(5, 8), (8, 5), (6, 6)], dtype=["u2"], scale=[(2.0, 5.0), (0.5, 0.25)]),
             f_tiff_vendor, "vendor x variant of the private tags x shape x non-square pixels x lazy"),
        Part("tiff-tags", [dict(kw=k) for k in tags], f_tiff_tags, "writer options"),
        Part("image", im, f_img, "format x shape x dtype x RGB kinds x layout x lazy"),
    ]
