"""Encoders of vendor formats, written from the format descriptions (not from the readers)."""
import struct
from xml.sax.saxutils import escape

import numpy as np


# ------------------------------------------------------------------ EDAX
def spd(data, end="<", nbytes=2, offset=1168, fname=b"C:\\x\\map.bmp", nspectra=None, npoints=None, nlines=None, frames=7):
    ny, nx, nz = data.shape
    h = struct.pack("16s", b"MAPSPECTRA_DATA")
    h += struct.pack(end + "iiiIIIII", 1, ny * nx if nspectra is None else nspectra, nx if npoints is None else npoints,
                     ny if nlines is None else nlines, nz, nbytes, offset, frames)
    h += struct.pack("120s", fname)
    h += b"\x5a" * (offset - len(h))
    return h + data.astype("%su%d" % (end, nbytes)).tobytes()


def spc(counts, end="<", version=0.61, start=3840, ev=5, e0=0.125, live=12.5, tilt=3.5, reso=129.25, azim=-42.0, elev=35.5, kv=22.0, elems=(), date=(2014, 4, 7, 16, 10, 51)):
    b = bytearray(b"\x00" * 20736)
    b += b"\x00" * (60 + 4 + 2 + 192)

    def put(fmt, off, *v):
        struct.pack_into(end + fmt, b, off, *v)

    put("ff", 0, version, 1.0)
    put("hbb", 16, date[0], date[2], date[1])
    put("i", 24, len(b))
    put("i", 28, start)
    put("h", 32, len(counts))
    put("i", 384, ev)
    put("ff", 448, e0, e0 + ev * len(counts) / 1000)
    put("fff", 456, live, tilt, 33.0)
    put("f", 472, reso)
    put("ff", 508, azim, elev)
    put("f", 532, kv)
    put("h", 638, len(elems))
    put("%dH" % len(elems), 640, *elems) if elems else None
    put("%dI" % len(counts), start, *counts)
    return bytes(b)


def ipr(version=333, end="<", mx=0.25, my=0.5, accv=200, mag=1500, wd=10):
    b = bytearray()

    def put(fmt, *v):
        b.extend(struct.pack(end + fmt, *v))

    put("HH8sHHHH", version, 1, b"SEI", 1, 4000, 0, 1)
    put("I", 200)
    put("HHhHHhhHhHHH", 0, 1, 0, 0, 0, 0, 0, 1, 0, 8, 1, 1)
    put("f", 0.0)
    put("HhhIH", accv, 0, 35, mag, wd)
    put("ff", mx, my)
    put("H", 1)
    put("32s32s32s32s", b"one", b"two", b"", b"four")
    put("4f", 0, 0, 0, 0)
    put("H", 0)
    put("16H", *([0] * 16))
    if version >= 334:
        put("fff", 1.0, 0, 0)
    return bytes(b)


def lsd_csv(dist, bom=False):
    head = ["Line Scan Data", "Sample,a, b", "kV,20", "", "Mag,500"] + ["Key%d,%d" % (i, i) for i in range(9)]
    rows = ["Point, Distance (nm), C K"] + ["%d, %r, %d" % (i, d, 10 * i) for i, d in enumerate(dist)]
    return (b"\xef\xbb\xbf" if bom else b"") + ("\n".join(head + rows) + "\n").encode()


# ------------------------------------------------------------------ TIA
TIA = {"1": "u1", "2": "u2", "3": "u4", "4": "i1", "5": "i2", "6": "i4", "7": "f4", "8": "f8", "9": "c8", "10": "c16"}


def ser(elements, kind, dims, tag_xy=True, version=544, total=None, cal=((0.0, 1.0, 0), (0.0, 1.0, 0)), positions=None, times=None, dtype=None, pad=0):
    """elements: list of arrays; dims: [(size, offset, delta, element, description, units)] as stored (fastest first)."""
    wide = version > 528
    total = len(elements) if total is None else total
    h = struct.pack("<HHHIIII", 0x4949, 0x0197, version, 0x4120 if kind == "spectrum" else 0x4122, 0x4142 if tag_xy else 0x4152, total, len(elements))
    d = b""
    for size, off, delta, el, desc, units in dims:
        d += struct.pack("<IddI", size, off, delta, el)
        d += struct.pack("<I", len(desc)) + desc.encode() + struct.pack("<I", len(units)) + units.encode()
    table = len(h) + (8 if wide else 4) + 4 + len(d)
    h += struct.pack("<Q" if wide else "<I", table) + struct.pack("<I", len(dims)) + d
    w = 8 if wide else 4
    pos = table + 2 * w * total + pad
    offs, tags, body = [], [], b"\x77" * pad
    for i, a in enumerate(elements):
        offs.append(pos)
        e = b""
        for k in range(1 if kind == "spectrum" else 2):
            e += struct.pack("<ddI", *cal[k])
        e += struct.pack("<H", int(dtype))
        e += struct.pack("<I", a.shape[0]) if kind == "spectrum" else struct.pack("<II", a.shape[1], a.shape[0])
        e += a.astype("<" + TIA[str(dtype)]).tobytes()
        tags.append(pos + len(e))
        x, y = positions[i] if positions else (0.0, 0.0)
        t = times[i] if times else 1400000000 + i
        e += struct.pack("<HHIdd", 0x4142, 0, t, x, y) if tag_xy else struct.pack("<HHI", 0x4152, 0, t)
        body += e
        pos += len(e)
    z = [0] * (total - len(elements))
    f = "<%d%s" % (total, "Q" if wide else "I")
    return h + struct.pack(f, *(offs + z)) + struct.pack(f, *(tags + z)) + body


def emi(objects):
    out = b"JUNK\x00\x01\x02<Object"
    for o in objects:
        out += b"\x00\x13bin" + o.encode() + b"\x00\xff"
    return out


def emi_object(date="Tue Apr 08 18:21:02 2014", mode="STEM nP SA Zoom Diffraction", camera=None, data=(("High tension", "300", "kV"), ("Camera length", "0.0775", "m"), ("Stage A", "1.5", "deg"), ("Stage X", "2.5", "um"))):
    acq = "<AcquireInfo>%s<DwellTimePath>0.5</DwellTimePath></AcquireInfo>" % ("<CameraNamePath>%s</CameraNamePath>" % camera if camera else "")
    rows = "".join("<Data><Label>%s</Label><Value>%s</Value><Unit>%s</Unit></Data>" % r for r in (("Microscope", "Microscope Titan 300 kV", ""), ("User", "me", ""), ("Mode", mode, "")) + tuple(data))
    return "<ObjectInfo><AcquireDate>%s</AcquireDate><Manufacturer>FEI (ISL)</Manufacturer>%s<ExperimentalDescription><Root>%s</Root></ExperimentalDescription></ObjectInfo>" % (date, acq, rows)


# ------------------------------------------------------------------ Hamamatsu
def img(data, kind, x_axis=None, y_axis=None, xunit="nm", yunit="us", sections=None, offsets=(0, 0)):
    """x_axis/y_axis: calibration values or None (uncalibrated)."""
    h, w = data.shape
    end = data.astype({0: "<u1", 2: "<u2", 3: "<u4"}[kind]).tobytes()

    def comment(ax, ay):
        s = dict(sections or {})
        s["Scaling"] = [("ScalingXType", "2" if x_axis is not None else "1"), ("ScalingXScale", "1"), ("ScalingXUnit", '"%s"' % (xunit if x_axis is not None else "No unit")),
                        ("ScalingXScalingFile", '"%s"' % ax), ("ScalingYType", "2" if y_axis is not None else "1"), ("ScalingYScale", "1"),
                        ("ScalingYUnit", '"%s"' % (yunit if y_axis is not None else "No unit")), ("ScalingYScalingFile", '"%s"' % ay)]
        return "\r\n".join("[%s],%s" % (k, ",".join("%s=%s" % kv for kv in v)) for k, v in s.items()).encode()

    n = len(comment("#0000000,0000", "#0000000,0000"))
    p0 = 64 + n + len(end)
    ax = "#%07d,%04d" % (p0, w) if x_axis is not None else "Other"
    ay = "#%07d,%04d" % (p0 + (4 * w if x_axis is not None else 0), h) if y_axis is not None else "Focus mode"
    c = comment(ax, ay).ljust(n, b" ")
    c = c[:n]
    assert len(c) == n
    head = b"IM" + struct.pack("<hhhhhhihhd", n, w, h, offsets[0], offsets[1], kind, 0, 0, 0, 0.0) + b"\x00" * 4 + b"\x00" * 30
    assert len(head) == 64, len(head)
    out = head + c + end
    if x_axis is not None:
        out += np.asarray(x_axis, "<f4").tobytes()
    if y_axis is not None:
        out += np.asarray(y_axis, "<f4").tobytes()
    return out


# ------------------------------------------------------------------ Jobin Yvon
def jy_xml(rows, sig, sunit="nm", nav1=None, nav2=None, setup=None, date=None, info=None, title="map", kind="Map", angle=None, stype="Intens", units="Cnt/sec"):
    """rows: 2D array of spectra in file order (x fastest); nav: (name, unit, values)."""
    def arr(v):
        return "\n".join(" ".join(repr(float(q)) for q in v[i:i + 3]) + " " for i in range(0, len(v), 3))

    def axis(i, name, unit, v):
        return ('<LSX Format="9" ID="0x%d" Size="3">\n<LSX Format="6" ID="0x7D6CD4DB" Size="%d">\n%s\n</LSX><LSX Format="7" ID="0x6D707974">%s</LSX>'
                '<LSX Format="7" ID="0x7C696E75">%s</LSX></LSX>\n' % (i, len(v), arr(v), name, unit))

    def entries(d):
        s = ""
        for k, v in d.items():
            two = isinstance(v, tuple)
            s += '<LSX Format="9" ID="0x123" Size="3"><LSX Format="7" ID="0x6D6D616E">%s</LSX>' % escape(k)
            if v is not None:
                s += '<LSX Format="7" ID="0x7D6C61DB">%s</LSX>' % escape(str(v[0] if two else v))
            if two:
                s += '<LSX Format="5" ID="0x8736F70">%s</LSX>' % v[1]
            s += "</LSX>\n"
        return s

    x = '<?xml version="1.0" encoding="UTF-8"?>\n<LSX_Data>\n<LSX_Tree Format="9" ID="0x69746164" Size="8">\n'
    x += '<LSX Format="7" ID="0x6D707974">%s</LSX><LSX Format="8" ID="0x6C7469D9">%s</LSX>\n' % (kind, escape(title))
    if angle is not None:
        x += '<LSX Format="9" ID="0x6C676EC6" Size="1"><LSX Format="5" ID="0x0">%r</LSX></LSX>' % angle
    x += '<LSX Format="9" ID="0x7A74D9D6" Size="1"><LSX Format="9" ID="0x7B697861" Size="2">\n'
    x += '<LSX Format="9" ID="0x0" Size="2"><LSX Format="7" ID="0x6D707974">%s</LSX><LSX Format="7" ID="0x7C696E75">%s</LSX></LSX>\n' % (stype, units)
    x += axis(1, "Spectr", sunit, sig)
    if nav1:
        x += axis(2, *nav1)
    if nav2:
        x += axis(3, *nav2)
    x += "</LSX></LSX>\n"
    x += '<LSX Format="9" ID="0x6C62D4D9" Size="3"><LSX Format="9" ID="0x8716361" Size="9">%s</LSX>\n' % entries(setup or {})
    x += '<LSX Format="9" ID="0x7CECDBD7" Size="2">%s</LSX>\n<LSX Format="9" ID="0x7C73E2D2" Size="2">%s</LSX></LSX>\n</LSX_Tree>\n' % (entries(date or {}), entries(info or {}))
    x += '<LSX_Matrix Format="5" ID="0x6D6C7470" Size="%d">\n' % len(rows)
    for r in rows:
        x += '<LSX_Row Format="6" Size="%d">\n%s\n</LSX_Row>\n' % (len(r), arr(r))
    return (x + "</LSX_Matrix>\n</LSX_Data>\n").encode()
