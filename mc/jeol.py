"""Independent encoder of JEOL Analysis Station .pts files (header records and event stream)."""

import struct

COEF_A, COEF_B, DIGZ, SCAN, MAG, DWELL = 0.01, -0.002, 96, 200.0, 1000, 4.0


def record(name, value=None, children=()):
    n = name.encode() + b"\0"
    out = struct.pack("<bi", 1, len(n)) + n
    if value is None:
        out += struct.pack("<ii", 0, 0)
    elif isinstance(value, str):
        v = value.encode() + b"\0"
        out += struct.pack("<ii", 20, len(v)) + v
    elif isinstance(value, int):
        out += struct.pack("<iii", 3, 4, value)
    elif isinstance(value, float):
        out += struct.pack("<iid", 5, 8, value)
    else:
        raise TypeError(value)
    return out + b"".join(children) + struct.pack("<b", -1)


def tree(d):
    return [record(k, None, tree(v)) if isinstance(v, dict) else v if isinstance(v, bytes) else record(k, v) for k, v in d.items()]


def header(width, height, sweep, hv=200.0):
    page = lambda v, d: record("PARAMPAGE%d" % (0 if v == "SEM" else 1), v, tree(d))
    d = {
        "PTTD Param": {"Params": {
            "a": page("SEM", {"ScanSize": SCAN, "DirAng": 0.0, "DetT": "EX", "ElevAng": 20.0, "MnKaRES": 138.0}),
            "b": page("EDXRF", {"Tpl": {"T3": {"DigZ": DIGZ}}}),
        }},
        "PTTD Data": {"AnalyzableMap MeasData": {
            "Meas Cond": {"Pixels": "%dx%d" % (width, height), "Tpl": "T3"},
            "Doc": {"CoefA": COEF_A, "CoefB": COEF_B, "DwellTime(msec)": DWELL, "Sweep": sweep, "RealTime": 10.0},
            "MeasCond": {"Mag": MAG, "AccKV": hv},
        }},
    }
    return b"".join(tree(d)) + struct.pack("<b", -1)


def events(frames, width, height, em=False, ticks=True):
    """frames: {(y, x): [channels]} with the image value of pixel (y, x) in frame f being image(f, y, x).

    Returns a list of (word, meaning), meaning being ("line", f, y), ("pixel", f, y, x), ("em", f, y, x, value),
    ("count", f, y, x, channel) or None for the clock ticks.
    """
    out = []
    n = 0
    for f, frame in enumerate(frames):
        for y in range(height):
            out.append((0x9000 | y * (4096 // height), ("line", f, y)))
            for x in range(width):
                ch = frame.get((y, x), ())
                if em or len(ch):
                    out.append((0x8000 | x * (4096 // width), ("pixel", f, y, x)))
                for k, c in enumerate(ch):
                    if em and k == 1:
                        out.append((0xA000 | image(f, y, x), ("em", f, y, x, image(f, y, x))))
                    out.append((0xB000 | c, ("count", f, y, x, c)))
                if em and len(ch) < 2:
                    out.append((0xA000 | image(f, y, x), ("em", f, y, x, image(f, y, x))))
                n += 1
                if ticks and n % 3 == 0:
                    out.append((0x6000, None))
                if ticks and n % 4 == 0:
                    out.append((0x7000, None))
    return out


def image(f, y, x):
    return (4095 - 97 * f - 13 * y - 3 * x) if (f + x + y) % 2 else 11 * f + 5 * y + x


def write(path, words, width, height, sweep, hv=200.0):
    h = header(width, height, sweep, hv)
    head_pos, data_pos = 0x130, 0x130 + 12 + len(h)
    data_pos += data_pos % 2
    raw = struct.pack("<%dH" % len(words), *words)
    b = struct.pack("<I8s6I", 304, b"JED-2200", 131072, 1, head_pos, len(h), data_pos, len(raw))
    b += b"group".ljust(128, b"\0") + b"memo".ljust(132, b"\0") + struct.pack("<d", 41000.25)
    b = b.ljust(head_pos + 12, b"\0") + h
    with open(path, "wb") as fh:
        fh.write(b.ljust(data_pos, b"\0") + raw)
