"""C20: every signal dictionary returned for every file of the corpus, option combination and mode is well formed."""
import datetime
import numbers
import os
import re

import numpy as np

from mc import corpus
from mc.core import Part, Skip
from mc.sig import *

PROPERTY = "C20"
ASSUMPTIONS = [
    "offsets and scales are numbers; sizes are those of the data; the file name is the name of the file read or of the one of its group that holds the data"]
def is_dask(x):
    return hasattr(x, "__dask_graph__")


def real(x):
    return isinstance(x, (numbers.Real, np.generic, np.ndarray)) and not isinstance(x, (bool, np.bool_)) and np.ndim(x) == 0 and np.asarray(x).dtype.kind in "iuf"


def plain(o, where, depth=0):
    """First entry of a tree that a metadata tree may not hold, or None."""
    if isinstance(o, dict):
        for k, v in o.items():
            if not isinstance(k, str):
                return "%s: key %r is %s" % (where, k, type(k).__name__)
            r = plain(v, where + "/" + k, depth + 1)
            if r:
                return r
    return None


def check_axis(t, tag, i, a, n):
    t.check(isinstance(a, dict), lambda: "%s is %s" % (tag, type(a).__name__))
    if "axis" in a:
        v = np.asarray(a["axis"])
        t.check(v.ndim == 1 and len(v) == n, lambda: "%s: %s values along a dimension of %d" % (tag, v.shape, n))
        t.check(v.dtype.kind in "iuf", lambda: "%s: values of dtype %s" % (tag, v.dtype))
        if len(v) > 1:
            s = np.diff(v.astype(float))
            t.check(bool((s > 0).all() or (s < 0).all()), lambda: "%s: values are not strictly ordered" % tag)
        t.check(a.get("size", n) == n, lambda: "%s: size %s of %d values" % (tag, a.get("size"), n))
    elif "expression" not in a:
        t.check("size" in a, lambda: "%s: neither size nor values" % tag)
        t.check(isinstance(a["size"], (int, np.integer)) and not isinstance(a["size"], bool), lambda: "%s: size %r is %s" % (tag, a["size"], type(a["size"]).__name__))
        t.check(a["size"] == n, lambda: "%s: size %s along a dimension of %d" % (tag, a["size"], n))
        for k, dflt in (("scale", 1.0), ("offset", 0.0)):
            v = a.get(k, dflt)
            t.check(real(v), lambda: "%s: %s is %r" % (tag, k, v))
            t.check(bool(np.isfinite(v)), lambda: "%s: %s is %r" % (tag, k, v))
        t.check(a.get("scale", 1.0) != 0, lambda: "%s: scale is 0" % tag)
    nav = a.get("navigate", False)
    t.check(isinstance(nav, (bool, np.bool_)), lambda: "%s: navigate is %r" % (tag, nav))
    for k in ("name", "units"):
        v = a.get(k)
        t.check(v is None or isinstance(v, str) or type(v).__name__ in ("Undefined", "_Undefined", "UndefinedType"), lambda: "%s: %s is %r (%s)" % (tag, k, v, type(v).__name__))


def check_signal(t, tag, d, path, lazy, plugin):
    t.check(isinstance(d, dict), lambda: "%s is %s" % (tag, type(d).__name__))
    if set(d) == {"data"} or "axes" not in d and "data" not in d:
        t.check(False, lambda: "%s: keys %s" % (tag, sorted(d)))
    for k in ("data", "axes", "metadata", "original_metadata"):
        t.check(k in d, lambda: "%s: no %s" % (tag, k))
    x = d["data"]
    t.check(isinstance(x, np.ndarray) or (lazy and is_dask(x)), lambda: "%s: data is %s (lazy=%s)" % (tag, type(x).__name__, lazy))
    axes = d["axes"]
    t.check(isinstance(axes, (list, tuple)), lambda: "%s: axes are %s" % (tag, type(axes).__name__))
    ax = list(axes)
    if not ax:
        # NeXus files which describe no axes give none
        t.check(x.shape in ((), (1,)) or plugin == "nexus", lambda: "%s: no axes for data of shape %s" % (tag, x.shape))
    else:
        t.check(len(ax) == x.ndim, lambda: "%s: %d axes for data of shape %s" % (tag, len(ax), x.shape))
        for i, a in enumerate(ax):
            check_axis(t, "%s: axis %d (%s)" % (tag, i, a.get("name")), i, a, x.shape[i])
        index = [a.get("index_in_array") for a in ax]
        if set(index) == set(range(len(ax))):
            # those who read the dictionaries may order the axes by it
            t.check(index == list(range(len(ax))), lambda: "%s: index_in_array of the axes: %s" % (tag, index))
        ids = [id(a) for a in ax]
        t.check(len(set(ids)) == len(ids), tag + ": one axis dictionary is used twice")
    md = d["metadata"]
    t.check(isinstance(md, dict) or hasattr(md, "as_dictionary"), lambda: "%s: metadata is %s" % (tag, type(md).__name__))
    md = md if isinstance(md, dict) else md.as_dictionary()
    om = d["original_metadata"]
    t.check(isinstance(om, dict) or hasattr(om, "as_dictionary") or hasattr(om, "items"), lambda: "%s: original_metadata is %s" % (tag, type(om).__name__))
    p = plain(md, "metadata")
    t.check(p is None, lambda: "%s: %s" % (tag, p))
    g = md.get("General", {})
    t.check(isinstance(g, dict), lambda: "%s: General is %r" % (tag, g))
    for k in ("title", "original_filename", "date", "time", "time_zone", "notes", "authors", "doi"):
        v = g.get(k)
        t.check(v is None or isinstance(v, str) or type(v).__name__ == "Undefined", lambda: "%s: General.%s is %r" % (tag, k, v))
    f = g.get("original_filename")
    if f and plugin not in ("hspy", "zspy", "nexus", "usid"):
        # the formats above keep the metadata of the signal that was written
        base = os.path.basename(path.rstrip("/"))
        t.check(f == base or plugin == "tia" and f.startswith(os.path.splitext(base)[0] + "_") or (base.endswith(".ASW") and os.path.basename(f) == f), lambda: "%s: original_filename %r, read from %r" % (tag, f, base))
    if g.get("date") and plugin not in ("jobinyvon", "impulse"):
        # (these two give the date as written in the file)
        try:
            datetime.date.fromisoformat(g["date"])
        except ValueError:
            t.fail("%s: date %r" % (tag, g["date"]))
    if g.get("time"):
        try:
            datetime.time.fromisoformat(g["time"])
        except ValueError:
            t.fail("%s: time %r" % (tag, g["time"]))
    sg = md.get("Signal", {})
    t.check(isinstance(sg, dict), lambda: "%s: Signal is %r" % (tag, sg))
    for k in ("signal_type", "quantity"):
        t.check(isinstance(sg.get(k, ""), (str, type(None))) or type(sg.get(k)).__name__ == "Undefined", lambda: "%s: Signal.%s is %r" % (tag, k, sg.get(k)))
    mp = d.get("mapping", {})
    t.check(isinstance(mp, dict) and all(isinstance(k, str) and isinstance(v, (tuple, list)) and len(v) == 2 and isinstance(v[0], str) and (v[1] is None or callable(v[1])) for k, v in mp.items()),
            lambda: "%s: mapping %s" % (tag, str(mp)[:200]))
    pp = d.get("post_process")
    t.check(pp is None or (isinstance(pp, (list, tuple)) and all(callable(q) for q in pp)), lambda: "%s: post_process" % tag)
    at = d.get("attributes", {})
    t.check(isinstance(at, dict), tag + ": attributes")


def f_case(t, c):
    m = corpus.reader(c["plugin"])
    p = corpus.path(c["path"])
    t.op("read")
    try:
        r = m.file_reader(p, lazy=c["lazy"], **c["opts"])
    except Exception as e:
        if isinstance(c["expect"], str) or c["opts"]:
            t.state("refused", type(e).__name__)
            return
        raise
    t.check(isinstance(r, list), lambda: "returns %s" % type(r).__name__)
    t.check(bool(c["opts"]) or len(r) == len(c["expect"]), lambda: "%d signals" % len(r))
    for i, d in enumerate(r):
        if set(d) <= {"models", "package_info"} and "models" in d:
            continue
        check_signal(t, "signal %d" % i, d, p, c["lazy"], c["plugin"])
        t.state(d["data"].shape, str(d["data"].dtype), [(a.get("name"), a.get("units"), a.get("navigate")) for a in d["axes"]])
    # dictionaries of axes are not shared between signals
    ids = [id(a) for d in r for a in d.get("axes", ())]
    t.check(len(set(ids)) == len(ids) or c["plugin"] in SHARED, "axis dictionaries are shared between signals")


SHARED = ()


def prepare(scratch):
    import dask

    dask.config.set(scheduler="sync")
    corpus.prepare(scratch)


def parts(tier):
    out = []
    for e, o in corpus.options(tier == "thorough", pairs=1):
        for lazy in (False, True):
            x = e["lazy" if lazy else "eager"]
            out.append(dict(plugin=e["plugin"], path=e["path"], lazy=lazy, opts=o, expect=x))
    return [Part("corpus", out, f_case, bounds="every file of the corpus with every single option value, eagerly and lazily", timeout=300)]
