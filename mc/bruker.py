"""Small Bruker bcf files with given hypermaps: SFS container, header and packed pixels."""
import base64
import struct
import zlib

import numpy as np

N = 16  # channels recorded


# --------------------------------------------------------------- pixels
def pack16(chs):
    return (max(chs) + 1, 0, 0, len(chs), b"".join(struct.pack("<H", c) for c in chs), b"")


def pack12(chs):
    bits = "".join("{:012b}".format(c) for c in chs)
    bits += "0" * (-len(bits) % 16)
    raw = b"".join(struct.pack("<H", int(bits[i:i + 16], 2)) for i in range(0, len(bits), 16))
    return (max(chs) + 1, 0, 1, len(chs), raw, b"")


def instructed(blocks, extra=(), flag=2, pad=0):
    """blocks: (size, values, gain); size 0: so many empty channels; pad: channels behind the last block."""
    raw, n = b"", 0
    for size, v, gain in blocks:
        if size == 0:
            raw += struct.pack("<BB", 0, v)
            n += v
            continue
        raw += struct.pack("<BB", size, len(v)) + gain.to_bytes(size, "little")
        if size == 1:
            w = list(v) + [0] * (len(v) % 2)
            raw += bytes(w[i] | (w[i + 1] << 4) for i in range(0, len(w), 2))
        else:
            raw += b"".join(int(x).to_bytes(size // 2, "little") for x in v)
        n += len(v)
    add = b"".join(struct.pack("<H", c) for c in extra)
    return (n + pad, n, flag, len(extra), raw, struct.pack("<I", len(add)) + add)


def counts(kind, *a, **k):
    """The spectrum that a packed pixel stands for."""
    out = [0] * N
    if kind in ("16", "12"):
        for c in a[0]:
            out[c] += 1
        return out
    x = []
    for size, v, gain in a[0]:
        x += [0] * v if size == 0 else [i + gain for i in v]
    for i, v in enumerate(x):
        out[i] = v
    for c in (a[1] if len(a) > 1 else ()):
        out[c] += 1
    return out


MAKE = {"16": pack16, "12": pack12, "i": instructed}


def stream(rows, width):
    """rows: for each line, {x: packed pixel}."""
    out = struct.pack("<ii", len(rows), width)
    out += b"\0" * (0x1A0 - len(out))
    for r in rows:
        out += struct.pack("<I", len(r))
        for x, (c1, c2, flag, n, raw, tail) in r:
            size = len(raw) + (4 if flag > 1 else 0)
            out += struct.pack("<IHHIHHHI", x, c1, c2, 786432, flag, len(raw) & 0xFFFF, n, size) + raw + tail
    return out


# --------------------------------------------------------------- container
def sfs(path, files, chunk=4096, compressed=False, block=1 << 16):
    """files: name (in the directory EDSDatabase) -> bytes."""
    use = chunk - 32
    chunks = {}
    nxt = [1]

    def new():
        nxt[0] += 1
        return nxt[0] - 1

    items = [(b"EDSDatabase", 0, 0, -1, 1)]
    for name, data in files.items():
        parent = 0
        if isinstance(name, tuple):  # (index of the directory in the tree, name); data None: a directory
            parent, name = name
        if data is None:
            items.append((name.encode(), 0, 0, parent, 1))
            continue
        if compressed:
            bl = [data[i:i + block] for i in range(0, len(data), block)]
            raw = struct.pack("<IIII", 0x53434141, block, 0, len(bl))
            raw += b"\0" * (0x80 - len(raw))
            for b in bl:
                z = zlib.compress(b)
                raw += struct.pack("<IIII", len(z), block, 0, len(z) + 16) + z
            data = raw
        parts = [data[i:i + use] for i in range(0, len(data), use)]
        # data chunks in reverse order: their order is that of the table
        where = [new() for _ in parts][::-1]
        for w, p in zip(where, parts):
            chunks[w] = (0, p)
        per = use // 4
        tabs = [where[i:i + per] for i in range(0, len(where), per)]
        ids = [new() for _ in tabs]
        for k, tb in enumerate(tabs):
            chunks[ids[k]] = (ids[k + 1] if k + 1 < len(ids) else 0, b"".join(struct.pack("<I", x) for x in tb))
        items.append((name.encode(), ids[0], len(data), parent, 0))
    per = use // 0x200
    rows = []
    for name, ptr, size, parent, isdir in items:
        rows.append(struct.pack("<iQQQQIi176s?3s256s32s", ptr, size, 0, 0, 0, 0, parent, b"", bool(isdir), b"", name, b""))
        assert len(rows[-1]) == 0x200
    tabs = [rows[i:i + per] for i in range(0, len(rows), per)]
    ids = [new() for _ in tabs]
    for k, tb in enumerate(tabs):
        chunks[ids[k]] = (ids[k + 1] if k + 1 < len(ids) else 0, b"".join(tb))
    out = bytearray(0x118 + chunk * nxt[0])
    out[:8] = b"AAMVHFSS"
    struct.pack_into("<fI", out, 0x124, 2.6, chunk)
    struct.pack_into("<III", out, 0x140, ids[0], len(items), nxt[0])
    for k, (link, p) in chunks.items():
        struct.pack_into("<I", out, chunk * k + 0x118, link)
        out[chunk * k + 0x138:chunk * k + 0x138 + len(p)] = p
    with open(path, "wb") as f:
        f.write(out)


LAYERS = base64.b64encode(zlib.compress(b"<L><Layer0 Atom='5' Thickness='1'/></L>")).decode()


def spectrum(values, offset=-0.5, scale=0.5, hv=20.0, ampl=8000.0):
    return (
        "<ClassInstance Type='TRTSpectrum'><TRTHeaderedClass>"
        "<ClassInstance Type='TRTSpectrumHardwareHeader'><RealTime>1000</RealTime><LifeTime>900</LifeTime><Amplification>%s</Amplification></ClassInstance>"
        "<ClassInstance Type='TRTDetectorHeader'><Type>XFlash</Type><DetLayers>%s</DetLayers></ClassInstance>"
        "<ClassInstance Type='TRTESMAHeader'><PrimaryEnergy>%s</PrimaryEnergy><ElevationAngle>35</ElevationAngle><AzimutAngle>45</AzimutAngle></ClassInstance>"
        "</TRTHeaderedClass><ClassInstance Type='TRTSpectrumHeader'><Date>10.3.2017</Date><Time>11:4:32</Time><ChannelCount>%d</ChannelCount>"
        "<CalibAbs>%s</CalibAbs><CalibLin>%s</CalibLin></ClassInstance><Channels>%s</Channels></ClassInstance>"
        % (ampl, LAYERS, hv, len(values), offset, scale, ",".join(str(int(v)) for v in values)))


def header(spectra, shape, hv=20.0, version=1, dx=0.25, dy=0.75, calib=None, **kw):
    """calib: the offset and scale of each spectrum."""
    h, w = shape
    calib = calib or [(-0.5, 0.5)] * len(spectra)
    img = np.arange(1, h * w + 1, dtype="<u2")
    return (
        "<?xml version='1.0' encoding='WINDOWS-1252' standalone='yes'?><TRTSpectrumDatabase><RTHeader/>"
        "<ClassInstance Type='TRTSpectrumDatabase' Name='Map'><Header><Date>10.3.2017</Date><Time>11:4:32</Time><FileVersion>%d</FileVersion></Header>"
        "<ClassInstance Type='TRTSEMData'><HV>%s</HV><WD>5.0</WD><Mag>54.5</Mag><DX>%s</DX><DY>%s</DY></ClassInstance>"
        "<ClassInstance Type='TRTSEMStageData'><X>1</X><Y>2</Y></ClassInstance>"
        "<ClassInstance Type='TRTDSPConfiguration'><ImageWidth>%d</ImageWidth><ImageHeight>%d</ImageHeight><PixelAverage>8</PixelAverage>"
        "<LineAverage>1</LineAverage><TiltAngle>0</TiltAngle><PixelTime>1</PixelTime></ClassInstance>"
        "<ClassInstance Type='TRTImageData'><ItemSize>2</ItemSize><Width>%d</Width><Height>%d</Height><PlaneCount>1</PlaneCount>"
        "<Plane0><Description>BSE</Description><Data>%s</Data><Size>%d</Size></Plane0></ClassInstance>"
        "<LineCounter>%s</LineCounter><ChCount>4096</ChCount><DetectorCount>1</DetectorCount>%s</ClassInstance></TRTSpectrumDatabase>"
        % (version, hv, dx, dy, w, h, w, h, base64.b64encode(img.tobytes()).decode(), 2 * h * w, ",".join(["1"] * h) if h > 1 else "1,",
           "".join("<SpectrumData%d>%s</SpectrumData%d>" % (i, spectrum(s, *calib[i], hv=hv, **kw), i) for i, s in enumerate(spectra)))).encode("cp1252")


def write(path, maps, shape, sums=None, chunk=4096, compressed=False, block=1 << 16, **kw):
    """maps: a list of lists of pixels (None or (kind, arguments)); returns the counts of each map."""
    h, w = shape
    full, files = [], {}
    for m in maps:
        f = np.zeros((h * w, N), "i8")
        rows = []
        for y in range(h):
            r = []
            for x in range(w):
                p = m[y * w + x]
                if p is not None:
                    r.append((x, MAKE[p[0]](*p[1:])))
                    f[y * w + x] = counts(*p)
            rows.append(r)
        files[len(full)] = stream(rows, w)
        full.append(f.reshape(h, w, N))
    s = [f.sum((0, 1)) for f in full] if sums is None else sums
    d = {"HeaderData": header(s, shape, **kw)}
    for k, v in files.items():
        d["SpectrumData%d" % k] = v
    sfs(path, d, chunk, compressed, block)
    return full
