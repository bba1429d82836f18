"""C09: EMSA/MSA spectra."""
import itertools
import multiprocessing
import os
import pickle

import numpy as np

from mc.core import Part, canon_hash, product
from mc.sig import *

PROPERTY = "C09"
ASSUMPTIONS = [
    "EDS signals: EDS_TEM with a beam energy above 30 kV, EDS_SEM with at most 30 kV or none (the format has no microscope type; the reader decides by the beam energy)",
    "the signal types WDS, AES, PES, XRF and GAM are kept in the original metadata only",
    "texts are representable in the encoding and contain no line breaks; leading and trailing spaces of texts are not significant",
    "separators are those the reader documents (comma and white space)",
    "time of day is kept to the second"]


def msa():
    from rsciio import msa as m

    return m


def spectrum(n, dtype, vals="count"):
    i = np.arange(n)
    if vals == "count":
        return (i * 7 % 101).astype(dtype)
    if vals == "large":
        return (1234567 + 1001 * i).astype(dtype)
    if vals == "neg":
        return (-3 - 5 * i).astype(dtype)
    if vals == "frac":
        return (0.1 + i / 3).astype(dtype)
    if vals == "tiny":
        return (1.25e-9 * (i + 1)).astype(dtype)
    if vals == "huge":
        return (1.25e21 * (i + 1)).astype(dtype)
    raise ValueError(vals)


def sg(data, stype="", om=None, md=None, scale=1.0, offset=0.0, units="eV", name="Energy", title="t"):
    m = {"General": {"title": title}, "Signal": {"signal_type": stype}}
    for k, v in (md or {}).items():
        d = m
        *ks, last = k.split(".")
        for q in ks:
            d = d.setdefault(q, {})
        d[last] = v
    ax = uaxis(len(data), False, name=name, units=units, scale=scale, offset=offset)
    return signal(data, axes=[ax], metadata=m, original_metadata=om or {})


def wr(t, s, name="a.msa", read=None, **kw):
    p = t.path(name)
    before = canon_hash(snapshot(s))
    t.op("write")
    msa().file_writer(p, s, **kw)
    t.check(canon_hash(snapshot(s)) == before, "writing modified the signal")
    t.op("read")
    r = msa().file_reader(p, **(read or {}))
    t.check(len(r) == 1, "one signal")
    return p, r[0]


def f_layout(t, c):
    a = layout(spectrum(c["n"], c["dtype"], c["vals"]), c["layout"])
    kw = {}
    if c["sep"] is not None:
        kw["separator"] = c["sep"]
    kw["format"] = c["fmt"]
    enc = {} if c["enc"] is None else {"encoding": c["enc"]}
    s = sg(a, scale=c["scale"], offset=c["offset"], units=c["units"])
    p, d = wr(t, s, read=enc, **kw, **enc)
    got = np.asarray(d["data"])
    t.state(got)
    t.check(got.shape == (c["n"],), lambda: "%s points read, %d written" % (got.shape, c["n"]))
    want = np.asarray(a, dtype="float64")
    t.check(np.array_equal(got.astype(c["dtype"]), a) if a.dtype.kind == "f" else np.array_equal(got, want), lambda: "counts %s expected %s" % (got[:4], want[:4]))
    x = d["axes"][0]
    t.check(len(d["axes"]) == 1 and x["size"] == c["n"] and x["scale"] == c["scale"] and x["offset"] == c["offset"] and x["units"] == c["units"]
            and x["name"] == "Energy" and not x["navigate"], lambda: "axis %s" % x)
    # what was read can be calibrated (or cropped) and written again
    s3 = {k: d[k] for k in ("metadata", "original_metadata")}
    s3["data"] = d["data"][1:] if c["n"] > 1 else d["data"]
    s3["axes"] = [uaxis(len(s3["data"]), False, name="other", units="px", scale=c["scale"] * 3, offset=c["offset"] + 2.5)]
    q, d3 = wr(t, s3, "c.msa", read=enc, format=c["fmt"], **enc)
    y = d3["axes"][0]
    t.check((y["size"], y["scale"], y["offset"], y["units"], y["name"]) == (len(s3["data"]), c["scale"] * 3, c["offset"] + 2.5, "px", "other"),
            lambda: "axis of a calibrated spectrum %s" % y)
    t.check(np.array_equal(d3["data"], s3["data"]), "counts of a calibrated spectrum")
    # what was read can be written again, in the layout of the file and in both others
    for fmt in (None, "Y", "XY"):
        s2 = {k: d[k] for k in ("data", "axes", "metadata", "original_metadata")}
        s2["axes"] = [uaxis(x["size"], False, name=x["name"], units=x["units"], scale=x["scale"], offset=x["offset"])]
        q, d2 = wr(t, s2, "b.msa", read=enc, format=fmt, **enc)
        t.check(np.array_equal(d2["data"], d["data"]), lambda: "second generation counts (%s)" % fmt)
        t.check(all(d2["axes"][0][k] == x[k] for k in ("size", "scale", "offset", "units", "name")), "second generation axis")
        t.check(d2["original_metadata"]["DATATYPE"] == (fmt or c["fmt"] or "Y"), "layout of the second generation")
        ign = {"DATATYPE"}
        o1 = {k: v for k, v in d["original_metadata"].items() if k not in ign}
        o2 = {k: v for k, v in d2["original_metadata"].items() if k not in ign}
        t.check(o1 == o2, lambda: "second generation keywords: %s" % tree_diff(o1, o2))


# keyword -> path in the metadata ("M" is TEM or SEM)
MAPPED = {
    "BEAMKV": "Acquisition_instrument.M.beam_energy", "PROBECUR": "Acquisition_instrument.M.beam_current",
    "CONVANGLE": "Acquisition_instrument.M.convergence_angle", "THICKNESS": "Sample.thickness",
    "XTILTSTGE": "Acquisition_instrument.M.Stage.tilt_alpha",
    "INTEGTIME": "Acquisition_instrument.M.Detector.EELS.exposure", "DWELLTIME": "Acquisition_instrument.M.Detector.EELS.dwell_time",
    "COLLANGLE": "Acquisition_instrument.M.Detector.EELS.collection_angle",
    "ELEVANGLE": "Acquisition_instrument.M.Detector.EDS.elevation_angle", "AZIMANGLE": "Acquisition_instrument.M.Detector.EDS.azimuth_angle",
    "SOLIDANGLE": "Acquisition_instrument.M.Detector.EDS.solid_angle", "LIVETIME": "Acquisition_instrument.M.Detector.EDS.live_time",
    "REALTIME": "Acquisition_instrument.M.Detector.EDS.real_time", "FWHMMNKA": "Acquisition_instrument.M.Detector.EDS.energy_resolution_MnKa",
    "EDSDET": "Acquisition_instrument.M.Detector.EDS.EDS_det"}
STYPES = ["", "EELS", "CL", "EDS_TEM", "EDS_SEM", "WDS", "AES", "PES", "XRF", "GAM"]


UNMAPPED = STYPES[5:]


def value_of(key, stype):
    if key == "EDSDET":
        return "SIWLS"
    if key == "BEAMKV":
        return 15.0 if stype == "EDS_SEM" else 200.0
    return 1.5 + 0.25 * sorted(MAPPED).index(key)


def get(tree, path):
    for k in path.split("."):
        if not isinstance(tree, dict) or k not in tree:
            return None
        tree = tree[k]
    return tree


def f_meta(t, c):
    st, keys = c["stype"], list(c["keys"])
    if st == "EDS_TEM" and "BEAMKV" not in keys:
        keys.append("BEAMKV")
    M = "SEM" if st == "EDS_SEM" else "TEM"
    md = {MAPPED[k].replace(".M.", ".%s." % M): value_of(k, st) for k in keys}
    if c["date"]:
        md["General.date"] = "2021-03-04"
    if c["time"]:
        md["General.time"] = c["time"]
    title = c["title"]
    s = sg(spectrum(4, "float64"), st, md=md, title=title)
    for gen in range(3):
        p, d = wr(t, s, "a%d.msa" % gen, format=c["fmt"])
        g = d["metadata"]
        t.state({k: v for k, v in g.items() if k != "General"}, g["General"].get("title"))
        t.check(g["Signal"]["signal_type"] == (st if st not in UNMAPPED else ""), lambda: "generation %d: signal type %r read as %r" % (gen, st, g["Signal"]["signal_type"]))
        t.check(gen or st not in UNMAPPED or d["original_metadata"]["SIGNALTYPE"] == st, "SIGNALTYPE")
        t.check((g["General"].get("title") or "") == title, lambda: "generation %d: title %r read as %r" % (gen, title, g["General"].get("title")))
        for path, v in md.items():
            t.check(get(g, path) == v, lambda: "generation %d: %s: %r read as %r" % (gen, path, v, get(g, path)))
        other = get(g, "Acquisition_instrument.%s" % ("TEM" if M == "SEM" else "SEM"))
        t.check(not other, lambda: "values of a %s in the branch of the other instrument: %s" % (M, other))
        if not c["date"]:
            t.check("date" not in g["General"], "a date out of nothing")
        if not c["time"]:
            t.check("time" not in g["General"], "a time out of nothing")
        s = {"data": d["data"], "axes": s["axes"], "metadata": g, "original_metadata": d["original_metadata"], "attributes": s.get("attributes", {})}
        if gen == 1:
            # changed by the user: what is written is what the signal says now
            for path in md:
                dd = g
                *ks, last = path.split(".")
                for q in ks:
                    dd = dd[q]
                md[path] = {"General.date": "1999-12-31", "General.time": "23:58:00"}.get(path, "other" if path.endswith("det") else md[path] if path.endswith("energy") else 77.5)
                dd[last] = md[path]
            title = c["title2"]
            g["General"]["title"] = title


def f_text(t, c):
    """Files of other programs: how the keywords are laid out does not matter."""
    pad, gap, nl, cols, comma, xy = c["pad"], c["gap"], c["nl"], c["cols"], c["comma"], c["xy"]
    vals = [float(i * i) + 0.5 for i in range(7)]
    xs = [100.0 + 2 * i for i in range(7)]
    head = [("FORMAT", "EMSA/MAS Spectral Data File"), ("VERSION", "1.0"), ("TITLE", c["title"]), ("DATE", "01-OCT-1991"), ("TIME", c["time"]), ("OWNER", ""),
            ("NPOINTS", "7."), ("NCOLUMNS", "%d." % (cols if not xy else cols)), ("XUNITS", "eV"), ("YUNITS", "Intensity"), ("DATATYPE", "XY" if xy else "Y"),
            ("XPERCHAN", "2.0"), ("OFFSET", "100."), ("SIGNALTYPE", "ELS"), ("XLABEL", "Energy"), ("YLABEL", "Counts"),
            ("BEAMKV" + c["unit"], c["beam"]), ("#A-B" + c["tail"], "3 cm"), ("#NOTE", "see: page 3: left")]
    lines = []
    for k, v in head:
        lines.append("#" + k.ljust(12 if pad else 0) + gap + v)
    if c["blank"]:
        lines.insert(3, c["blank"] if c["blank"] != "empty" else "")
    lines.append("#SPECTRUM    : Spectral Data Starts Here")
    sep = ", " if comma else "  "
    if xy:
        rows = [sep.join("%r%s%r" % (x, sep, y) for x, y in zip(xs[i:i + cols], vals[i:i + cols])) for i in range(0, 7, cols)]
    else:
        rows = [sep.join("%r" % y for y in vals[i:i + cols]) + (sep if comma else "") for i in range(0, 7, cols)]
    lines += rows
    if c["tailblank"]:
        lines.append("")
    lines.append("#ENDOFDATA   : ")
    text = nl.join(lines) + nl
    p = t.path("x.msa")
    with open(p, "wb") as f:
        f.write(text.encode("latin-1"))
    outs = []
    t.op("read")
    outs.append(msa().file_reader(p)[0])
    t.op("parse")
    outs.append(msa().parse_msa_string(text)[0])
    t.op("parse lines")
    outs.append(msa().parse_msa_string(text.splitlines(True) if False else text.replace("\r\n", "\n"))[0])
    for d in outs:
        t.check(list(d["data"]) == vals, lambda: "counts %s" % list(d["data"]))
        x = d["axes"][0]
        t.check((x["size"], x["scale"], x["offset"], x["units"], x["name"]) == (7, 2.0, 100.0, "eV", "Energy"), lambda: "axis %s" % x)
        g = d["metadata"]
        t.check(g["General"]["title"].strip() == c["title"].strip(), lambda: "title %r" % g["General"]["title"])
        t.check(g["General"]["date"] == "1991-10-01", "date")
        t.check(g["General"]["time"] == {"12:00": "12:00:00", "12:00:07": "12:00:07"}[c["time"]], "time")
        t.check(g["Signal"]["signal_type"] == "EELS" and g["Signal"]["quantity"] == "Counts (Intensity)", "signal")
        inst = g["Acquisition_instrument"]["TEM"]
        t.check(inst["beam_energy"] == 120.0, lambda: "beam energy %r" % inst["beam_energy"])
        if c["unit"]:
            t.check(inst.get("beam_energy_units") == "kV", "units of the beam energy")
        o = d["original_metadata"]
        t.check(o.get("NOTE") == "see: page 3: left", lambda: "user keyword %r" % o.get("NOTE"))
        t.state(o)


# ------------------------------------------------------------------ histories
HEAD = "#FORMAT      : EMSA/MAS Spectral Data File\r\n#VERSION     : 1.0\r\n#TITLE       : f\r\n#DATE        : 01-JAN-2001\r\n#TIME        : 10:11\r\n#OWNER       : me\r\n#NPOINTS     : 2\r\n#NCOLUMNS    : 1\r\n#DATATYPE    : Y\r\n#XPERCHAN    : 1\r\n#OFFSET      : 0\r\n"
FILES = {
    "read-sem": HEAD + "#SIGNALTYPE  : EDS\r\n#BEAMKV      : 20\r\n#LIVETIME    : 3\r\n#SPECTRUM    : \r\n1, \r\n2, \r\n#ENDOFDATA   : ",
    "read-tem": HEAD + "#SIGNALTYPE  : EDS\r\n#BEAMKV   -kV: 200\r\n#LIVETIME    : 3\r\n#SPECTRUM    : \r\n1, \r\n2, \r\n#ENDOFDATA   : ",
    "read-eels": HEAD + "#SIGNALTYPE  : ELS\r\n#BEAMKV      : 200\r\n#COLLANGLE   : 3\r\n#CUSTOM      : x\r\n#SPECTRUM    : \r\n1, \r\n2, \r\n#ENDOFDATA   : "}


def hist_signal(op):
    if op == "write-sem":
        return sg(spectrum(3, "float32"), "EDS_SEM", md={"Acquisition_instrument.SEM.beam_energy": 20.0, "Acquisition_instrument.SEM.Detector.EDS.live_time": 2.0})
    if op == "write-tem":
        return sg(spectrum(3, "float64"), "EDS_TEM", md={"Acquisition_instrument.TEM.beam_energy": 200.0, "Acquisition_instrument.TEM.Detector.EDS.live_time": 2.0}, title="")
    if op == "write-cl":
        return sg(spectrum(2, "int16"), "CL_SEM", md={"Acquisition_instrument.SEM.beam_energy": 5.0, "General.date": "2020-01-01"}, units="nm")
    if op == "write-eels":
        return sg(spectrum(4, "float64"), "EELS", md={"Acquisition_instrument.TEM.beam_energy": 300.0})
    if op == "write-old":
        return sg(spectrum(3, "float64"), "EELS", om={"FORMAT": "EMSA/MAS Spectral Data File", "VERSION": "1.0", "OWNER": "you", "DATATYPE": "XY", "CUSTOM": "7", "COMMENT": "c"},
                  md={"Acquisition_instrument.TEM.beam_energy": 300.0})
    raise ValueError(op)


OPS = ["write-sem", "write-tem", "write-cl", "write-eels", "write-old", "write-old-None", "write-eels-XY"] + sorted(FILES)


def perform(op, path, sigs):
    """Result of one operation: bytes written, or trees read."""
    m = msa()
    if op in FILES:
        with open(path, "w", newline="") as f:
            f.write(FILES[op])
        d = m.file_reader(path)[0]
        d["metadata"]["General"].pop("original_filename", None)
        return (d["data"].tolist(), d["axes"], d["metadata"], d["original_metadata"])
    base = "-".join(op.split("-")[:2])
    kw = {"format": {"None": None}.get(op.split("-")[2], op.split("-")[2])} if op.count("-") == 2 else {}
    if base not in sigs:
        sigs[base] = hist_signal(base)
    m.file_writer(path, sigs[base], **kw)
    with open(path, "rb") as f:
        return f.read()


def _first(op, path, conn):
    conn.send_bytes(pickle.dumps(perform(op, path, {})))


BASE = {}


def prepare(scratch):
    """What every operation gives when it is the first one of a process."""
    ctx = multiprocessing.get_context("fork")
    for op in OPS:
        a, b = ctx.Pipe(False)
        pr = ctx.Process(target=_first, args=(op, os.path.join(scratch, "base.msa"), b))
        pr.start()
        b.close()
        try:
            BASE[op] = pickle.loads(a.recv_bytes())
        except EOFError:
            BASE[op] = None
        pr.join()


def f_history(t, c):
    sigs = {}
    before = {}
    for i, op in enumerate(c["ops"]):
        t.op(op)
        base = "-".join(op.split("-")[:2])
        if op not in FILES and base not in sigs:
            sigs[base] = hist_signal(base)
            before[base] = canon_hash(snapshot(sigs[base]))
        r = perform(op, t.path("h%d.msa" % i), sigs)
        t.check(BASE[op] is not None, "%s fails in a new process" % op)
        t.check(r == BASE[op], lambda: "%s after %s differs from %s alone" % (op, c["ops"][:i], op))
        for k, v in before.items():
            t.check(canon_hash(snapshot(sigs[k])) == v, lambda: "%s modified the signal of %s" % (op, k))
    t.state(c["ops"][-1])


LONG = "abcdefgh" * 8
TITLES = ["", "t", "a: b", "time 10:20: x", "#1 # 2", LONG[:63], LONG, LONG + "x", LONG[:63] + " y", LONG[:62] + "  zz", LONG + " " + LONG[:63] + " " + "end", "x" * 30 + ": " + "y" * 60,
          LONG[:63] + ": after", LONG[:62] + ": after", "\u00b5m \u00e9", "a, b;c\td", "a-b"]


def parts(tier):
    deep = tier == "thorough"
    lay = []
    for c in product(n=[1, 2, 3, 8] + ([5, 64, 257] if deep else []), dtype=["float64", "float32", "int16", "uint8", "int64"] + ([">f8", "uint32"] if deep else []),
                     vals=["count", "large", "neg", "frac", "tiny", "huge"], fmt=["Y", "XY", None], sep=[None, ",", " ", "\t", " , "],
                     enc=[None, "utf8", "utf-16"], cal=[0, 1, 2], layout=["C", "strided"]):
        dt = np.dtype(c["dtype"])
        if dt.kind != "f" and c["vals"] in ("frac", "tiny", "huge") or dt.itemsize < 4 and c["vals"] == "large" or dt.kind == "u" and c["vals"] == "neg":
            continue
        if not deep and (c["layout"] == "strided") != (c["enc"] == "utf-16"):
            continue
        if not deep and c["enc"] == "utf8" and c["cal"] != 1:
            continue
        c["scale"], c["offset"], c["units"] = [(1.0, 0.0, "eV"), (0.1, -12.3456789, "" if c["enc"] is None else "\u00b5m"), (1.0 / 3, 1e-7, "keV")][c.pop("cal")]
        lay.append(c)
    meta = []
    names = sorted(MAPPED)
    subsets = [()] + [(k,) for k in names] + list(itertools.combinations(names, 2)) + [tuple(names)]
    if deep:
        subsets += list(itertools.combinations(names, 3))
    for st, ks in itertools.product(STYPES, subsets):
        meta.append({"stype": st, "keys": ks, "title": "t", "title2": "u", "date": True, "time": "12:34:00", "fmt": "Y"})
    for st, ti, ti2, date, time, fmt in itertools.product(STYPES if deep else ["", "EELS", "EDS_SEM"], TITLES, ["u", ""] + TITLES[7:9], [False, True], [None, "12:34:00", "12:34:56"], ["Y", "XY", None]):
        meta.append({"stype": st, "keys": ("LIVETIME",), "title": ti, "title2": ti2, "date": date, "time": time, "fmt": fmt})
    text = list(product(pad=[True, False], gap=[": ", " : "], nl=["\r\n", "\n"], cols=[1, 2, 3, 7], comma=[True, False], xy=[True, False], title=["T", "a: b", "  spaced"],
                        time=["12:00", "12:00:07"], unit=["", "-kV", "   -kV"], tail=["", "-C"], beam=["120.", "120", "1.2 E+02", "1.2e2"], blank=[None, "empty", "   "], tailblank=[False, True]))
    if not deep:
        text = [c for i, c in enumerate(text) if sum([c["title"] != "T", c["time"] != "12:00", c["tail"] != "", c["beam"] != "120.", c["blank"] is not None, c["tailblank"], c["nl"] == "\n"]) <= 2]
    text = [c for c in text if not (c["xy"] and c["cols"] not in (1, 2))]
    depth = 4 if deep else 3
    hist = [{"ops": list(h)} for n in range(1, depth + 1) for h in itertools.product(OPS, repeat=n)]
    return [
        Part("layout", lay, f_layout, bounds="lengths up to %d, %d dtypes, 6 kinds of values, 3 formats, 5 separators, 3 encodings, 3 calibrations; three layouts of second generation" % (257 if deep else 8, 7 if deep else 5)),
        Part("metadata", meta, f_meta, bounds="10 signal types x all keyword subsets up to %d of 15; %d titles, dates and times; three generations with a change by the user" % (3 if deep else 2, len(TITLES))),
        Part("text", text, f_text, bounds="layouts of keywords, columns and blank lines of files of other programs"),
        Part("histories", hist, f_history, bounds="every history of %d operations over %d kinds, against each operation in a new process" % (depth, len(OPS))),
    ]
