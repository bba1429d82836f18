"""Independent encoder and decoder of Digital Surf .sur/.pro objects (after the published layout)."""
import struct
import zlib

FIELDS = [
    ("sig", "12s"), ("fmt", "h"), ("nobj", "H"), ("version", "h"), ("type", "h"), ("oname", "30s"), ("operator", "30s"),
    ("psize", "h"), ("acq", "h"), ("range", "h"), ("special", "h"), ("absolute", "h"), ("gauge", "f"), ("wsize", "I"),
    ("bits", "h"), ("zmin", "i"), ("zmax", "i"), ("nx", "i"), ("ny", "i"), ("ntot", "i"), ("dx", "f"), ("dy", "f"),
    ("dz", "f"), ("xname", "16s"), ("yname", "16s"), ("zname", "16s"), ("xunit", "16s"), ("yunit", "16s"),
    ("zunit", "16s"), ("xlunit", "16s"), ("ylunit", "16s"), ("zlunit", "16s"), ("rx", "f"), ("ry", "f"), ("rz", "f"),
    ("imprint", "h"), ("inverted", "h"), ("levelled", "h"), ("obs1", "12s"), ("s", "h"), ("mi", "h"), ("h", "h"),
    ("d", "h"), ("mo", "h"), ("y", "h"), ("dow", "h"), ("duration", "f"), ("csize", "I"), ("obs2", "6s"),
    ("ncomment", "h"), ("nprivate", "h"), ("client", "128s"), ("x0", "f"), ("y0", "f"), ("z0", "f"), ("dt", "f"),
    ("t0", "f"), ("tname", "13s"), ("tunit", "13s")]
HEADER = struct.calcsize("<" + "".join(f for _, f in FIELDS))


def encode(points, comment=b"", private=b"", streams=None, **kw):
    """One object: ``points`` are the stored integers (numpy array), ``streams`` the number of compressed
    streams (None: not compressed)."""
    h = dict(sig="DIGITAL SURF" if streams is None else "DSCOMPRESSED", nobj=1, version=1, type=2, psize=1, bits=16, nx=1,
             ny=1, dx=1.0, dy=1.0, dz=1.0, rx=1.0, ry=1.0, rz=1.0, xname="X", yname="Y", zname="Z", xunit="um", yunit="um",
             zunit="um", ncomment=len(comment), nprivate=len(private))
    h.update(kw)
    h.setdefault("ntot", h["nx"] * h["ny"])
    raw = points.astype("<i2" if h["bits"] == 16 else "<i4").tobytes()
    if streams is None:
        body = raw
    else:
        item = h["bits"] // 8
        n = -(-(len(raw) // item) // streams) * item
        parts = [raw[i * n:(i + 1) * n] for i in range(streams)]
        z = [zlib.compress(p) for p in parts]
        body = struct.pack("<I", streams) + b"".join(struct.pack("<II", len(p), len(q)) for p, q in zip(parts, z)) + b"".join(z)
        h["csize"] = len(body)
    out = b""
    for name, f in FIELDS:
        v = h.get(name, b"" if f.endswith("s") else 0)
        if f.endswith("s"):
            v = v.encode("latin-1") if isinstance(v, str) else v
            if name not in ("obs1", "obs2", "client"):
                v = v.ljust(int(f[:-1]))
        out += struct.pack("<" + f, v)
    return out + comment + private + body


def decode(buf):
    """All objects of a file: list of dict with the header fields, ``comment``, ``private`` and ``points`` (stored integers)."""
    import numpy as np

    out, p = [], 0
    while p < len(buf):
        h = {}
        q = p
        for name, f in FIELDS:
            n = struct.calcsize("<" + f)
            h[name] = struct.unpack("<" + f, buf[q:q + n])[0]
            q += n
        h["comment"] = buf[q:q + h["ncomment"]]
        q += h["ncomment"]
        h["private"] = buf[q:q + h["nprivate"]]
        q += h["nprivate"]
        item = h["bits"] // 8
        n = h["ntot"] * max(h["wsize"], 1) * item
        if h["sig"] == b"DSCOMPRESSED":
            start = q
            (k,) = struct.unpack("<I", buf[q:q + 4])
            q += 4
            sizes = [struct.unpack("<II", buf[q + 8 * i:q + 8 * i + 8]) for i in range(k)]
            q += 8 * k
            raw = b""
            for r, z in sizes:
                d = zlib.decompress(buf[q:q + z])
                assert len(d) == r, "stream of %d bytes announced as %d" % (len(d), r)
                raw += d
                q += z
            assert q - start == h["csize"], "compressed size %d announced as %d" % (q - start, h["csize"])
        else:
            assert h["sig"] == b"DIGITAL SURF", h["sig"]
            raw = buf[q:q + n]
            q += n
        assert len(raw) == n, "%d bytes of points, expected %d" % (len(raw), n)
        h["points"] = np.frombuffer(raw, "<i2" if item == 2 else "<i4")
        out.append(h)
        p = q
    return out
