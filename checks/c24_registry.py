"""C24: what the plugin registry declares against what the plugins do."""
import importlib
import inspect
import os
import re
import subprocess
import sys

import numpy as np

from mc import corpus, writers
from mc.core import Part, Skip, product
from mc.sig import *

PROPERTY = "C24"
ASSUMPTIONS = [
    "True for 'writes' of formats that have fixed kinds of objects (TVIPS: images, DigitalSurf: surfaces, series and spectra, stated beside the declaration and in the "
    "documentation) promises those kinds; the number of dimensions declared in a list is that of (signal, navigation) axes",
    "USID is written in the environment with the older numpy only (C06) and is left out of the writing part"]

ATTRS = {"name": str, "name_aliases": list, "description": str, "full_support": bool, "file_extensions": list, "default_extension": int,
         "non_uniform_axis": bool, "api": str}
FRIENDLY = {"blockfile": "u1", "image": "u1", "tvips": "u2", "digitalsurf": "i4", "msa": "f4", "mrcz": "f4", "semper": "f4"}
# the kinds of objects of the formats which cannot declare their dimensions
KINDS = {"tvips": [(2, 0), (2, 1), (2, 2), (2, 3)], "digitalsurf": [(1, 0), (1, 1), (1, 2), (2, 0), (2, 1)],
         "emd": [(s, n) for s in (1, 2) for n in (0, 1, 2, 3)]}


def spec(plugin):
    import rsciio

    return next(s for s in rsciio.IO_PLUGINS if s["api"].split(".")[1] == plugin)


def norm(s):
    return re.sub(r"[\s_]+", "", s.lower())


def f_registry(t, c):
    import rsciio

    P = rsciio.IO_PLUGINS
    t.op("registry")
    dirs = sorted(d for d in os.listdir("/repo/rsciio") if os.path.exists("/repo/rsciio/%s/specifications.yaml" % d))
    t.check(sorted(s["api"] for s in P) == ["rsciio." + d for d in dirs], "the registry lists other plugins than there are")
    names = [s["name"] for s in P]
    t.check(len(set(names)) == len(names), "two formats of the same name")
    owner = {}
    for s in P:
        for n in [s["name"]] + list(s["name_aliases"]):
            # every name leads to one plugin, however it is spelt
            t.check(owner.setdefault(norm(n), s["name"]) == s["name"], lambda: "%r is a name of %s and of %s" % (n, owner[norm(n)], s["name"]))
            t.state(n)
    t.check(dirs and all(norm(s["name"]) == s["api"].split(".")[1] for s in P), "the module of a plugin is not named like its format")


def f_plugin(t, c):
    s = spec(c["plugin"])
    t.op("import")
    for k, ty in ATTRS.items():
        t.check(k in s and type(s[k]) is ty, lambda: "%s is %r" % (k, s.get(k)))
    t.check("writes" in s, "no writes")
    ext = s["file_extensions"]
    t.check(bool(ext) and all(isinstance(e, str) and e and not e.startswith(".") for e in ext), lambda: "file extensions %s" % ext)
    t.check(len(set(ext)) == len(ext), "an extension is given twice")
    t.check(0 <= s["default_extension"] < len(ext), "the default extension does not exist")
    m = importlib.import_module(s["api"])
    t.check(callable(getattr(m, "file_reader", None)), "no reader")
    a = inspect.signature(m.file_reader).parameters
    t.check(list(a)[0] == "filename" and ("lazy" in a or any(p.kind is p.VAR_KEYWORD for p in a.values())), lambda: "reader takes %s" % list(a))
    if "lazy" in a:
        t.check(a["lazy"].default is False, "lazy is not False by default")
    w = callable(getattr(m, "file_writer", None))
    t.check(w == bool(s["writes"]), "has a writer: %s, declared: %s" % (w, s["writes"]))
    t.check(("file_writer" in dir(m)) == w and "file_reader" in dir(m), lambda: "dir() gives %s" % dir(m))
    if w:
        a = inspect.signature(m.file_writer).parameters
        t.check(list(a)[:2] == ["filename", "signal"], lambda: "writer takes %s" % list(a))
        need = [k for k, p in list(a.items())[2:] if p.default is p.empty and p.kind is p.POSITIONAL_OR_KEYWORD]
        t.check(not need, lambda: "writer needs %s" % need)
    if isinstance(s["writes"], list):
        t.check(s["writes"] and all(isinstance(q, list) and len(q) == 2 and all(type(v) is int and v >= 0 for v in q) for q in s["writes"]), lambda: "writes %s" % s["writes"])
    for n in dir(m):
        t.check(hasattr(m, n), lambda: "%s is listed and missing" % n)
    t.state(c["plugin"], w, str(s["writes"]))


def doc_rows():
    import rsciio

    rows = {}
    for line in open("/repo/doc/supported_formats/supported_formats.rst", encoding="utf8"):
        f = [x.strip() for x in line.strip().strip("|").split("|")]
        if len(f) == 6 and f[0].startswith(":ref:"):
            rows[re.search(r"<(.*)>", f[0]).group(1)] = f
    return rows


# documentation entries of plugins whose entry is not named like them
DOC = {"app5-format": "topspin", "elid-format": "phenom", "dens_impulse-format": "impulse", "dens_heater-format": "dens", "emd_ncem-format": "emd"}


def f_documented(t, c):
    """Write and Lazy of the table of formats."""
    s = spec(c["plugin"])
    t.op("documented")
    t.check((c["write"] == "Yes") == bool(s["writes"]), lambda: "documented Write: %s, declared %s" % (c["write"], s["writes"]))
    m = importlib.import_module(s["api"])
    seen = 0
    for e in corpus.entries(plugin=c["plugin"]):
        if isinstance(e["eager"], str) or e["size"] > 3_000_000 or not c["ref"].split("-")[0] in ("bruker",) and e["path"].endswith(".spx"):
            continue
        if c["plugin"] == "tofwerk" or c["plugin"] == "jeol" and not e["path"].endswith(".pts"):
            continue
        t.op("lazy")
        try:
            r = m.file_reader(corpus.path(e["path"]), lazy=True)
        except NotImplementedError:
            t.check(c["lazy"] == "No", lambda: "%s: lazy reading is documented and not implemented" % e["path"])
            seen += 1
        except ValueError as x:
            t.check("RGB" in str(x), lambda: "%s: %s" % (e["path"], x))
        else:
            d = [hasattr(q["data"], "__dask_graph__") for q in r if "data" in q]
            if c["lazy"] == "No":
                t.check(not any(d), lambda: "%s: lazy reading is implemented and documented not to be" % e["path"])
                seen += 1
            else:
                seen += any(d)
        t.state(e["path"], c["lazy"])
        if seen >= 4:
            break
    if not seen:
        raise Skip("no file to tell")


def sig_of(plugin, sd, nd, dtype=None):
    n = 4
    shape = (2, 3, 2)[:nd] + ((n, n + (plugin != "blockfile"), 2)[:sd])
    md = dict(writers.MD)
    s = writers.make(shape, sd, dtype or FRIENDLY.get(plugin, "f4"), md=md)
    if plugin == "tvips":
        for a in s["axes"][-2:]:
            a["offset"] = 0.0
    return s


def f_dims(t, c):
    s = spec(c["plugin"])
    m = importlib.import_module(s["api"])
    sd, nd = c["dims"]
    sig = sig_of(c["plugin"], sd, nd)
    d = t.path("w")
    os.makedirs(d)
    p = os.path.join(d, "out." + c["ext"])
    t.op("write")
    m.file_writer(p, sig)
    f = p
    if not os.path.exists(f):
        cand = sorted(os.path.join(d, x) for x in os.listdir(d))
        t.check(bool(cand), "nothing was written")
        f = cand[0]
    t.check(f == p or c["plugin"] == "tvips", lambda: "wrote %s" % f)
    t.op("read")
    r = m.file_reader(f)
    got = compute(r[0]["data"])
    want = sig["data"]
    sq = tuple(x for x in want.shape if x != 1)
    t.state(c["plugin"], c["dims"], got.shape)
    if c["plugin"] == "blockfile":
        # the virtual image comes first or second
        got = next((compute(q["data"]) for q in r if q["data"].ndim >= want.ndim), got)
    if c["plugin"] in ("image", "pantarhei", "nexus") and got.shape != want.shape:
        t.check(sorted(got.shape) == sorted(want.shape), lambda: "read back with shape %s, written %s" % (got.shape, want.shape))
    else:
        t.check(tuple(x for x in got.shape if x != 1) == sq or c["plugin"] in ("tvips",) and got.size == want.size, lambda: "read back with shape %s, written %s" % (got.shape, want.shape))
    if c["plugin"] not in ("image",):
        t.check(sorted(np.asarray(got, float).ravel().tolist()) == sorted(np.asarray(want, float).ravel().tolist()), "other values are read back")


def f_ext(t, c):
    """Files with every declared extension are written under that name and read."""
    s = spec(c["plugin"])
    m = importlib.import_module(s["api"])
    sd, nd = c["dims"]
    sig = sig_of(c["plugin"], sd, nd)
    d = t.path("w")
    os.makedirs(d)
    p = os.path.join(d, "out." + c["ext"])
    t.op("write")
    m.file_writer(p, sig)
    names = os.listdir(d)
    t.check("out." + c["ext"] in names or c["plugin"] == "tvips" and all(n.endswith(c["ext"]) for n in names), lambda: "%s: wrote %s" % (c["ext"], names))
    if c["plugin"] == "tvips":
        p = os.path.join(d, sorted(names)[0])
    t.op("read")
    r = m.file_reader(p)
    t.check(any(np.size(q["data"]) == sig["data"].size or c["plugin"] == "image" for q in r), "read back otherwise")
    t.state(c["plugin"], c["ext"])


def f_nonuniform(t, c):
    """Writers which declare non-uniform axes keep them."""
    m = importlib.import_module("rsciio." + c["plugin"])
    sig = sig_of(c["plugin"], c["sd"], c["nd"])
    i = c["axis"]
    n = sig["axes"][i]["size"]
    v = np.array([0.5, 0.75, 2.0, 7.0, 9.0][:n])
    sig["axes"][i] = dict(_type="DataAxis", name="q", units="nm", navigate=sig["axes"][i]["navigate"], is_binned=False, size=n, axis=v)
    p = t.path("out." + c["plugin"])
    t.op("write")
    m.file_writer(p, sig)
    t.op("read")
    r = m.file_reader(p)[0]
    t.check(same_values(np.asarray(r["axes"][i]["axis"]), v), lambda: "axis %s" % r["axes"][i])
    t.state(c["plugin"], i)


def f_isolated(t, c):
    """Each plugin is imported and listed alone, whatever the order of imports."""
    code = "import rsciio, importlib\nm = importlib.import_module(%r)\nassert callable(m.file_reader)\n" % c["api"]
    code += "from rsciio import IO_PLUGINS\nassert any(s['api'] == %r for s in IO_PLUGINS)\n" % c["api"]
    t.op("import alone")
    r = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, cwd=t.path(""))
    t.check(r.returncode == 0, lambda: r.stderr[-600:])
    t.state(c["api"])


def prepare(scratch):
    import dask

    dask.config.set(scheduler="sync")
    corpus.prepare(scratch)


def parts(tier):
    import rsciio

    P = [s["api"].split(".")[1] for s in rsciio.IO_PLUGINS]
    W = [s for s in rsciio.IO_PLUGINS if s["writes"]]
    dims, exts = [], []
    for s in W:
        p = s["api"].split(".")[1]
        if p == "usid":
            continue
        decl = [tuple(q) for q in s["writes"]] if isinstance(s["writes"], list) else KINDS.get(p) or [(a, b) for a in range(4) for b in range(4) if a + b]
        for q in decl:
            if sum(q):
                dims.append(dict(plugin=p, dims=q, ext=s["file_extensions"][s["default_extension"]]))
        q = (2, 0) if (2, 0) in decl else (2, 1) if (2, 1) in decl else decl[0]
        for e in s["file_extensions"]:
            if p == "image" and e in ("msp", "spi", "pcx", "xbm", "pbm"):
                continue
            exts.append(dict(plugin=p, dims=q, ext=e))
    docs = []
    rows = doc_rows()
    for ref, f in rows.items():
        p = DOC.get(ref) or ref.split("-")[0]
        if p in P and not f[0].startswith(":ref:`Bruker single"):
            docs.append(dict(plugin=p, ref=ref, write=f[3], lazy=f[4]))
    nu = [dict(plugin=s["api"].split(".")[1], sd=sd, nd=nd, axis=i) for s in W if s["non_uniform_axis"] for sd, nd in ((1, 0), (1, 1), (2, 1), (1, 2), (2, 2)) for i in range(sd + nd)]
    return [
        Part("registry", [dict(all=True)], f_registry, bounds="all plugins, names and aliases"),
        Part("plugin", [dict(plugin=p) for p in P], f_plugin, bounds="every declared attribute of every plugin"),
        Part("documented", docs, f_documented, bounds="every row of the table of formats, files of the corpus", timeout=200),
        Part("dimensions", dims, f_dims, bounds="every declared (signal, navigation) dimension of every writer"),
        Part("extensions", exts, f_ext, bounds="every declared extension of every writer"),
        Part("non-uniform", nu, f_nonuniform, bounds="every axis of signals up to 2+2 dimensions"),
        Part("alone", [dict(api="rsciio." + p) for p in P], f_isolated, bounds="every plugin in a process of its own", timeout=120),
    ]
