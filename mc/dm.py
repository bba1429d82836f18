"""Writes DigitalMicrograph files (versions 3 and 4) from a tree of tags."""
import struct

# code: (struct character, size)
SIMPLE = {2: ("h", 2), 3: ("i", 4), 4: ("H", 2), 5: ("I", 4), 6: ("f", 4), 7: ("d", 8), 8: ("B", 1), 9: ("b", 1), 10: ("b", 1), 11: ("q", 8), 12: ("Q", 8)}


class Group(list):
    """[(name, node)]"""


class Val:
    def __init__(self, info, fmt, values, raw=None):
        self.info, self.fmt, self.values, self.raw = info, fmt, values, raw

    def data(self, end):
        return self.raw if self.raw is not None else struct.pack(end + self.fmt, *self.values)


def simple(code, v):
    return Val([code], SIMPLE[code][0], [v])


def string(b):
    return Val([18, len(b)], None, None, b)


def array(code, vs):
    return Val([20, code, len(vs)], "%d%s" % (len(vs), SIMPLE[code][0]), list(vs))


def raw_array(code, n, raw):
    return Val([20, code, n], None, None, raw)


def structure(codes, vs):
    return Val([15, 0, len(codes)] + [x for k in codes for x in (0, k)], "".join(SIMPLE[k][0] for k in codes), list(vs))


def structures(codes, rows):
    return Val([20, 15, 0, len(codes)] + [x for k in codes for x in (0, k)] + [len(rows)], "".join(SIMPLE[k][0] for k in codes) * len(rows), [v for r in rows for v in r])


def strings(rows):
    return Val([20, 18, len(rows[0]) if rows else 0, len(rows)], None, None, b"".join(rows))


def arrays(code, rows):
    return Val([20, 20, code, len(rows[0]) if rows else 0, len(rows)], "%d%s" % (sum(map(len, rows)), SIMPLE[code][0]), [v for r in rows for v in r])


def text(s):
    """Text as DigitalMicrograph stores it: an array of 16-bit characters."""
    return array(4, [ord(ch) for ch in s])


def encode(root, version=4, end="<"):
    q = ">q" if version == 4 else ">i"

    def group(g):
        out = [bytes([1, 0]), struct.pack(q, len(g))]
        for name, node in g:
            n = name.encode("utf-8") if isinstance(name, str) else name
            if isinstance(node, Group):
                body = group(node)
                head = bytes([20])
            else:
                body = b"%%%%" + struct.pack(q, len(node.info)) + b"".join(struct.pack(q, x) for x in node.info) + node.data(end)
                head = bytes([21])
            out.append(head + struct.pack(">H", len(n)) + n + (struct.pack(">q", len(body)) if version == 4 else b"") + body)
        return b"".join(out)
    body = group(root)
    return struct.pack(">i", version) + struct.pack(q, len(body)) + struct.pack(">i", int(end == "<")) + body + bytes(8)


def image(datatype, element, dims, raw, count, name=None, scales=None, origins=None, units=None, tags=(), order=None, brightness=(0.0, 1.0, "")):
    """dims: x, y, z..."""
    n = len(dims) if scales is None else len(scales)
    cal = Group([("Brightness", Group([("Origin", simple(6, brightness[0])), ("Scale", simple(6, brightness[1])), ("Units", text(brightness[2]))])),
        ("Dimension", Group([("", Group([("Origin", simple(6, origins[i] if origins else 0.0)), ("Scale", simple(6, scales[i] if scales else 1.0)), ("Units", text(units[i] if units else ""))])) for i in range(n)]))])
    data = Group([("Calibrations", cal), ("Data", raw_array(element, count, raw) if not isinstance(element, tuple) else
        Val([20, 15, 0, len(element)] + [x for k in element for x in (0, k)] + [count], None, None, raw)), ("DataType", simple(5, datatype)), ("Dimensions", Group([("", simple(5, d)) for d in dims])), ("PixelDepth", simple(5, max(1, len(raw) // max(1, count))))])
    g = Group([("ImageData", data), ("ImageTags", Group(tags))])
    if name is not None:
        g.append(("Name", text(name)))
    return g
