"""C10: lazy reading against eager reading, over every file of the corpus and every combination of options."""
import gc
import itertools
import os

import numpy as np

from mc import corpus
from mc.core import Part, Skip, product
from mc.sig import *

PROPERTY = "C10"
ASSUMPTIONS = [
    "a reader that documents that lazy loading is not supported refuses it (NotImplementedError), DigitalMicrograph refuses RGB images",
    "the items _lazy and (for Bruker, netCDF...) no others of the signal dictionary may differ between the two modes"]


def is_dask(x):
    return hasattr(x, "__dask_graph__")


def undask(o):
    """Trees may hold lazy arrays in the lazy mode: compare their values."""
    if is_dask(o):
        return compute(o)
    if isinstance(o, dict):
        # the time of reading is recorded by some readers
        return {k: undask(v) for k, v in o.items() if k != "FileIO"}
    if isinstance(o, (list, tuple)):
        return type(o)(undask(v) for v in o)
    return o


def blocks(x, most=24):
    n = int(np.prod([len(c) for c in x.chunks]))
    idx = list(np.ndindex(*[len(c) for c in x.chunks]))
    if n > most:
        step = max(1, n // most)
        idx = idx[::step] + [idx[-1]]
    return idx


def f_case(t, c):
    m = corpus.reader(c["plugin"])
    p = corpus.path(c["path"])
    kw = c["opts"]
    if not os.path.exists(p):
        raise RuntimeError("the corpus is gone")
    t.op("eager")
    try:
        E = m.file_reader(p, lazy=False, **kw)
    except Exception as e:
        E = e
    t.op("lazy")
    try:
        L = m.file_reader(p, lazy=True, **kw)
    except NotImplementedError as e:
        t.check(c["lazy"] == "unsupported" or isinstance(E, Exception) or c["path"] == "tofwerk/raw.h5" and kw, lambda: "lazy reading not implemented: %s" % e)
        t.state("unsupported")
        return
    except Exception as e:
        if c["lazy"] == "refused":
            t.state("refused")
            return
        t.check(isinstance(E, Exception), lambda: "lazy reading raises %s: %s; eager reading %s" % (
            type(e).__name__, e, "raises %s" % E if isinstance(E, Exception) else "does not"))
        if not kw:
            t.check(isinstance(c["eager"], str), "a file of the corpus cannot be read any more: %s" % e)
        t.state("both raise", type(e).__name__)
        return
    if isinstance(E, Exception):
        # an error which is found when the data are read may be raised on computing
        try:
            for l in L:
                compute(l["data"])
        except Exception as e:
            t.check(type(e) is type(E), lambda: "eager reading raises %s: %s; computing %s: %s" % (type(E).__name__, E, type(e).__name__, e))
            t.state("both raise", type(e).__name__)
            return
        t.fail("eager reading raises %s: %s; lazy reading does not" % (type(E).__name__, E))
    t.check(c["lazy"] in ("ok", "unknown"), "lazy reading of a reader documented not to support it")
    t.check(len(E) == len(L), lambda: "%d signals eagerly, %d lazily" % (len(E), len(L)))
    if not kw and not isinstance(c["eager"], str):
        t.check([list(np.shape(e["data"])) for e in E] == [s for s, _ in c["eager"]], "shapes of the signals")
    late = None
    order = range(len(L)) if not c.get("reverse") else range(len(L) - 1, -1, -1)
    for i in order:
        e, l = E[i], L[i]
        tag = "signal %d" % i
        t.check(not is_dask(e["data"]) and isinstance(e["data"], np.ndarray), lambda: "%s: eager data is %s" % (tag, type(e["data"]).__name__))
        x = l["data"]
        t.check(isinstance(x, np.ndarray) or is_dask(x), lambda: "%s: lazy data is %s" % (tag, type(x).__name__))
        if c["dask"] and len(c["dask"]) == len(L) and c["dask"][i]:
            t.check(is_dask(x), lambda: "%s: data is read although lazy=True" % tag)
        if is_dask(x):
            t.check(l.get("attributes", {}).get("_lazy", True) is True, tag + ": _lazy attribute")
        t.check(tuple(x.shape) == tuple(e["data"].shape), lambda: "%s: shape %s lazily, %s eagerly" % (tag, x.shape, e["data"].shape))
        if x.dtype != e["data"].dtype:
            late = late or "%s: dtype %s lazily, %s eagerly" % (tag, x.dtype, e["data"].dtype)
        t.check(not is_dask(x) or tuple(sum(q) for q in x.chunks) == tuple(x.shape), tag + ": chunks do not cover the data")
        t.op("compute")
        got = compute(x)
        t.state(tag, got.shape, str(got.dtype), got if got.size < 4096 else got.ravel()[:: max(1, got.size // 512)])
        t.check(got.dtype == x.dtype and got.shape == e["data"].shape, lambda: "%s: lazy data computes to %s %s, announced %s %s" % (tag, got.dtype, got.shape, x.dtype, x.shape))
        t.check(same_values(e["data"], got), lambda: "%s: %s" % (tag, describe(e["data"], got)))
        # every block on its own is the part of the data it stands for
        starts = [] if not is_dask(x) else [np.concatenate([[0], np.cumsum(q)]).astype(int) for q in x.chunks]
        for b in [] if not is_dask(x) else blocks(x, 24 if c["size"] < 300000 else 6):
            sl = tuple(slice(s[j], s[j + 1]) for s, j in zip(starts, b))
            t.op("block")
            t.check(same_values(e["data"][sl], compute(x.blocks[b])), lambda: "%s: block %s" % (tag, b))
        for k in ("axes", "metadata", "original_metadata"):
            d = tree_diff(undask(e.get(k)), undask(l.get(k)))
            t.check(d is None, lambda: "%s: %s: eager / lazy: %s" % (tag, k, str(d)[:300]))
        for k in set(e) | set(l):
            if k in ("data", "axes", "metadata", "original_metadata"):
                continue
            a, b = undask(e.get(k)), undask(l.get(k))
            if k == "attributes":
                a = {q: v for q, v in (a or {}).items() if q != "_lazy"}
                b = {q: v for q, v in (b or {}).items() if q != "_lazy"}
            if k in ("mapping", "post_process"):
                a, b = len(a or ()) if k == "post_process" else set(a or ()), len(b or ()) if k == "post_process" else set(b or ())
            d = tree_diff(a, b)
            t.check(d is None, lambda: "%s: %s: eager / lazy: %s" % (tag, k, str(d)[:300]))
    # the other signals do not depend on those that were dropped
    if len(L) > 1:
        for keep in (0, len(L) - 1):
            t.op("reopen")
            x = m.file_reader(p, lazy=True, **kw)[keep]["data"]
            gc.collect()
            t.check(same_values(E[keep]["data"], compute(x)), "signal %d alone" % keep)
    t.check(late is None, late)


def prepare(scratch):
    import dask

    import resource

    # files stay open as long as lazy data live; what is left open is judged by C13
    hard = resource.getrlimit(resource.RLIMIT_NOFILE)[1]
    resource.setrlimit(resource.RLIMIT_NOFILE, (hard, hard))
    dask.config.set(scheduler="sync")
    corpus.prepare(scratch)


def parts(tier):
    deep = tier == "thorough"
    base, more = [], []
    for e, o in corpus.options(deep):
        lz = e["lazy"]
        kind = "ok" if not isinstance(lz, str) else "unsupported" if lz.startswith("NotImpl") and not isinstance(e["eager"], str) else "refused" if "RGBA images is not supported" in lz else "unknown"
        c = dict(plugin=e["plugin"], path=e["path"], lazy=kind, dask=None if isinstance(lz, str) else [q[2] for q in lz], eager=e["eager"], size=e["size"], opts=o)
        (more if o else base).append(c)
        if not o and isinstance(lz, list) and len(lz) > 1:
            base.append(dict(c, reverse=True))
    return [
        Part("corpus", base, f_case, bounds="%d files of %d instruments" % (len(base), len({c["plugin"] for c in base})), timeout=300),
        Part("options", more, f_case, bounds="combinations of the options of the readers (%s)" % ("all" if deep else "up to two away from the defaults"), timeout=300),
    ]
