"""C03: histories of operations on native files, against a reference model."""
import copy
import gc
import itertools
import os

import numpy as np

from mc.core import Part, product
from mc.sig import *

PROPERTY = "C03"
ASSUMPTIONS = [
    "after a full write whose data source failed the content of that file is unspecified until the next full write",
    "a metadata-only update keeps the entries it does not mention (merge)",
    "an operation may be refused with an exception while the user still holds an open lazy handle of the file, "
    "provided the file is left unchanged; data of a handle whose file was overwritten may become unreadable (hspy) "
    "or undefined (zspy), but never silently wrong for hspy",
    "writing lazily loaded data transformed in an order-changing way onto its own file is outside the alphabet"]


class Boom(Exception):
    pass


MD = {
    "a": {"General": {"title": "t", "note": "w0"}, "Signal": {"signal_type": "EELS"}, "N": {"k": 1, "q": [1, None, "x"]}},
    "b": {"General": {"title": "t", "note": "w1"}, "Signal": {"signal_type": ""}, "N": {"k": [1, 2], "q": None, "d": {"e": 1}}},
    "c": {"General": {"title": "u"}, "Signal": {"signal_type": ""}, "M": {"arr": np.arange(3)}},
    "d": {"General": {"title": "t", "note": "wd"}, "Signal": {"signal_type": ""}, "N": {"k": np.arange(2)}},
    "e": {"General": {"title": "t"}, "Signal": {"signal_type": ""}, "M": 3},
    "f": {"General": {"title": "t"}, "Signal": {"signal_type": ""}},
    "r": {"General": {"title": "t"}, "Signal": {"signal_type": "r"}, "N": {"q": 1.5}},
    "ua": {"General": {"title": "t", "note": "ua"}, "Signal": {"signal_type": "EDS"}, "N": {"k": None, "q": ["only", 2.5, None, "y"], "new": 5}},
    "ub": {"General": {"title": "t", "note": ""}, "Signal": {"signal_type": "x"}, "N": {"k": {"sub": [1, None, 2]}, "q": (), "d": 7}},
    "uc": {"General": {"title": "t", "note": None}, "Signal": {"signal_type": "x"}, "N": {"k": "str", "q": np.arange(4.0), "d": [3, 4]}},
}


def ragged(*shapes):
    a = np.empty(len(shapes), dtype=object)
    for i, sh in enumerate(shapes):
        a[i] = fill(sh, "<f4", i)
    return a


def data_of(k):
    if k == "r":
        return ragged((2,), (3,))
    return {"d": fill((2, 3), "<i2", 3), "e": fill((4,), "<f4", 2), "f": fill((2, 3), "<f8", 7), "a": fill((2, 3), "<i4"), "b": fill((3, 2), "<f8", 5), "c": fill((2, 3), "u1", 9)}[k]


def make(k, data=None, shape=(2, 3)):
    d = data if data is not None else (data_of(k) if len(k) == 1 else np.zeros(shape, "<i4"))
    s = signal(d, nsig=0 if k == "r" else 1, original_metadata={"om": k})
    s["metadata"] = copy.deepcopy(MD[k])
    for i, a in enumerate(s["axes"]):
        a["name"] = k + str(i)
        a["offset"] = float(len(k) + i)
    return s


def failing(k, at):
    """dask source of signal k whose block number ``at`` raises."""
    import dask.array as da

    d = data_of(k)
    x = da.from_array(d, chunks=(1, d.shape[1]))

    def f(block, block_info=None):
        if block_info is not None and block_info[0]["chunk-location"][0] == at:
            raise Boom()
        return block

    return x.map_blocks(f, dtype=d.dtype, meta=np.empty((0, 0), d.dtype))


def merge(old, new):
    out = dict(old)
    for k, v in new.items():
        if isinstance(v, dict) and isinstance(out.get(k), dict):
            out[k] = merge(out[k], v)
        else:
            out[k] = v
    return out


class World:
    def __init__(self, t, store):
        import rsciio.hspy, rsciio.zspy
        self.t, self.store = t, store
        self.m = rsciio.hspy if store == "hspy" else rsciio.zspy
        self.files = {"F": None, "G": None}  # None | "broken" | {title: dict(data, axes, md, om)}
        self.version = {"F": 0, "G": 0}
        self.handles = []

    def path(self, f):
        return self.t.path(f + "." + self.store)

    def put(self, f, sig, new_file=True):
        title = sig["metadata"]["General"]["title"]
        content = dict(data=np.array(compute(sig["data"])), axes=copy.deepcopy(sig["axes"]),
                       md=snapshot(sig["metadata"]), om=snapshot(sig["original_metadata"]))
        if new_file or not isinstance(self.files[f], dict):
            self.files[f] = {}
        self.files[f][title] = content
        self.version[f] += 1

    def write(self, f, sig, **kw):
        self.m.file_writer(self.path(f), sig, show_progressbar=False, **kw)

    def live(self, f):
        return [h for h in self.handles if h["file"] == f and not h["closed"]]

    def verify(self, f, where, states=True):
        """The file holds what the model says."""
        t, want = self.t, self.files[f]
        p = self.path(f)
        if want == "broken":
            return
        if want is None:
            t.check(not os.path.exists(p), lambda: where + ": file appeared")
            return
        try:
            r = self.m.file_reader(p)
        except Exception as e:
            t.fail("%s: file %s cannot be read any more: %s: %s" % (where, f, type(e).__name__, e))
        got = {x["metadata"]["General"]["title"]: x for x in r}
        t.check(len(r) == len(want) and set(got) == set(want),
                lambda: "%s: signals %s expected, %s read" % (where, sorted(want), [x["metadata"]["General"]["title"] for x in r]))
        for k, w in want.items():
            g = got[k]
            if states:
                t.state(self.store, k, g["data"], repr(w["md"]))
            t.check(g["data"].dtype == w["data"].dtype and same_values(w["data"], g["data"]),
                    lambda: "%s: data of %r: %s" % (where, k, describe(w["data"], g["data"])))
            d = tree_diff(w["md"], g["metadata"])
            t.check(d is None, lambda: "%s: metadata of %r: %s" % (where, k, d))
            d = tree_diff([dict(a) for a in w["axes"]], [dict(a) for a in g["axes"]])
            t.check(d is None, lambda: "%s: axes of %r: %s" % (where, k, d))
            d = tree_diff(w["om"], g["original_metadata"])
            t.check(d is None, lambda: "%s: original metadata of %r: %s" % (where, k, d))


def enabled(w, op):
    F = w.files["F"]
    ok = isinstance(F, dict)
    if op in ("Ua", "Ub", "Uc"):
        return ok and "t" in F and F["t"]["data"].shape == (2, 3)
    if op in ("LR", "LA"):
        return ok and len(w.handles) < 2
    if op[0] == "A":
        return w.store == "hspy" and (ok or F is None) and not w.live("F")
    if op in ("CH", "SO", "CL"):
        return bool(w.handles)
    if op in ("SSd", "SSh", "SSU", "SSL"):
        return bool(w.handles) and w.handles[-1]["fresh"](w)
    return True


def from_handle(w, h, tmp):
    r = h["sig"]
    s = dict(r)
    s["metadata"] = copy.deepcopy(h["content"]["md"])
    s["axes"] = copy.deepcopy(h["content"]["axes"])
    s["original_metadata"] = copy.deepcopy(h["content"]["om"])
    s["learning_results"] = {}
    s["models"] = {}
    s["package_info"] = {"package": "p", "package_version": "1"}
    s["attributes"] = {"_lazy": True, "ragged": False}
    s["tmp_parameters"] = {}
    if tmp:
        s["tmp_parameters"] = dict(original_folder=w.t.dir, original_filename="F", original_extension="." + w.store)
    return s


def step(w, op):
    t, hs = w.t, w.store == "hspy"
    t.op(op)
    tag = "after " + "-".join(t.history)
    if op[0] == "W":
        k = op[1]
        s = make(k)
        if op.endswith("d"):
            import dask.array as da
            s = make(k, da.from_array(data_of(k), chunks=(1, 2)))
        w.write("F", s)
        w.put("F", s)
    elif op[0] == "U":
        s = make(op.lower())
        try:
            w.write("F", s, write_dataset=False)
        except OSError:
            t.check(hs and w.live("F"), lambda: tag + ": metadata-only update refused without open handle")
            return
        old = w.files["F"]["t"]
        w.files["F"]["t"] = dict(data=old["data"], axes=s["axes"], md=merge(old["md"], snapshot(s["metadata"])),
                                 om=merge(old["om"], s["original_metadata"]))
    elif op[0] == "A":
        # add to the file; a signal of the same title is replaced
        s = make(op[1])
        w.write("F", s, mode="a")
        old = dict(w.files["F"] or {})
        w.put("F", s)
        title = s["metadata"]["General"]["title"]
        new = w.files["F"][title]
        if title in old:
            new["md"] = merge(old[title]["md"], new["md"])
            new["om"] = merge(old[title]["om"], new["om"])
        old[title] = new
        w.files["F"] = old
    elif op in ("XB", "XM"):
        kw = dict(write_dataset="no") if op == "XB" else dict(write_dataset=False, mode="w")
        if op == "XM" and not hs:
            kw = dict(store_type="nonsense")
        try:
            w.write("F", make("b"), **kw)
        except Exception:
            return
        t.fail(tag + ": invalid options accepted")
    elif op[0] == "X":
        s = make(op[1], failing(op[1], int(op[2])))
        try:
            w.write("F", s)
        except Boom:
            w.files["F"] = "broken"
            w.version["F"] += 1
            return
        t.fail(tag + ": failure of the data source not reported")
    elif op in ("LR", "LA"):
        kw = {"mode": "a"} if op == "LA" else {}
        try:
            r = w.m.file_reader(w.path("F"), lazy=True, **kw)
        except OSError:
            t.check(hs and w.live("F"), lambda: tag + ": lazy open refused")
            return
        r = next((x for x in r if x["metadata"]["General"]["title"] == "t"), r[0])
        title = r["metadata"]["General"]["title"]
        h = dict(sig=r, file="F", version=w.version["F"], mode="a" if op == "LA" else "r", closed=False,
                 content=copy.deepcopy(w.files["F"][title]))
        h["fresh"] = lambda w, h=h: w.version["F"] == h["version"] and not h["closed"]
        w.handles.append(h)
    elif op == "CH":
        h = w.handles[-1]
        if h["closed"] or (not hs and not h["fresh"](w)):
            return
        try:
            got = compute(h["sig"]["data"])
        except Exception as e:
            t.check(not h["fresh"](w), lambda: tag + ": lazy data unreadable: %r" % e)
            return
        t.check(same_values(h["content"]["data"], got), lambda: tag + ": lazy data: " + describe(h["content"]["data"], got))
        # one block alone
        blk = compute(h["sig"]["data"].blocks[(0,) * got.ndim])
        t.check(same_values(got[tuple(slice(0, n) for n in blk.shape)], blk), tag + ": first block")
    elif op == "CL":
        h = w.handles.pop()
        if hs:
            from rsciio.utils.file import get_file_handle
            f = get_file_handle(h["sig"]["data"], warn=False)
            t.check(f is not None or not h["fresh"](w), tag + ": handle of lazy data not found")
            if f is not None:
                t.check(os.path.samefile(f.filename, w.path("F")), tag + ": handle of another file")
                f.close()
    elif op == "SO":
        h = w.handles[-1]
        s = from_handle(w, h, True)
        if not hs and not h["fresh"](w):
            return
        try:
            w.write("G", s)
        except Exception as e:
            # lazy ragged data are refused by the writer
            t.check(not h["fresh"](w) or h["content"]["data"].dtype == object, lambda: tag + ": saving lazy data elsewhere failed: %r" % e)
            w.files["G"] = "broken"
            return
        s["data"] = h["content"]["data"]
        w.put("G", s)
    elif op in ("SSd", "SSh", "SSL"):
        # save the lazily loaded signal onto the file it was read from
        h = w.handles[-1]
        s = from_handle(w, h, op == "SSh")
        s["metadata"]["General"]["note"] = "self"
        path = w.path("F")
        if op == "SSL":  # same file, other spelling of its name
            path = os.path.join(w.t.dir, ".", "lnk." + w.store)
            if not os.path.lexists(path):
                os.symlink(w.path("F"), path)
        try:
            w.m.file_writer(path, s, show_progressbar=False)
        except Exception:
            t.check(not (hs and h["mode"] == "a") or h["content"]["data"].dtype == object, lambda: tag + ": in-place save refused although opened in mode a")
            return  # refused: verify() finds out whether the file survived
        s["data"] = h["content"]["data"]
        if hs:
            h["closed"] = True
            old = dict(w.files["F"])
            present = old[s["metadata"]["General"]["title"]]
            w.put("F", s)
            title = s["metadata"]["General"]["title"]
            old[title] = w.files["F"][title]
            old[title]["md"] = merge(present["md"], old[title]["md"])
            w.files["F"] = old
        else:
            w.put("F", s)
    elif op == "SSU":
        h = w.handles[-1]
        s = from_handle(w, h, True)
        s["metadata"]["General"]["note"] = "selfupdate"
        try:
            w.write("F", s, write_dataset=False)
        except OSError:
            t.check(hs and (h["mode"] == "r" or len(w.live("F")) > 1), lambda: tag + ": update through lazy signal refused")
            return
        title = s["metadata"]["General"]["title"]
        old = w.files["F"][title]
        w.files["F"][title] = dict(data=old["data"], axes=s["axes"], md=merge(old["md"], snapshot(s["metadata"])),
                                   om=merge(old["om"], s["original_metadata"]))
        if hs:
            h["closed"] = True
    else:
        raise ValueError(op)


def f_history(t, c):
    w = World(t, c["store"])
    hist = c["history"]
    for i, op in enumerate(hist):
        if not enabled(w, op):
            from mc.core import Skip
            raise Skip("not enabled")
        step(w, op)
        if i == len(hist) - 1:
            # handles of the user may forbid some operations, never reading
            w.verify("F", "after " + "-".join(hist))
            w.verify("G", "after " + "-".join(hist))
    # release all user handles: nothing else may stay open, and a full write works
    had = bool(w.handles)
    for h in w.handles:
        if c["store"] == "hspy":
            from rsciio.utils.file import get_file_handle
            f = get_file_handle(h["sig"]["data"], warn=False)
            if f is not None:
                f.close()
    w.handles.clear()
    gc.collect()
    left = open_fds(t.dir)
    t.check(not left, lambda: "after %s: files left open: %s" % ("-".join(hist), left))
    s = make("b")
    w.write("F", s)
    w.put("F", s)
    w.verify("F", "full write after " + "-".join(hist), states=False)


OPS = ["Wa", "Wb", "Wc", "Wad", "Aa", "Ac", "Ad", "Ae", "Af", "Ar", "Ua", "Ub", "Uc", "XB", "XM", "Xa0", "Xa1", "LR", "LA", "CH", "SO", "SSd", "SSh", "SSL", "SSU", "CL"]


OPS4 = ["Wb", "Wc", "Ad", "Ar", "Ua", "Ub", "Xa1", "LR", "LA", "CH", "SO", "SSd", "SSh", "SSU", "CL"]


def cheap_enabled(hist):
    """Prune histories that are certainly not enabled (exact enabling is decided at run time)."""
    nh, ok = 0, False
    for op in hist:
        if op[0] == "W":
            ok = True
        elif op[0] == "X" and op not in ("XB", "XM"):
            ok = False
        elif op in ("LR", "LA"):
            if not ok or nh == 2:
                return False
            nh += 1
        elif op in ("CH", "SO", "SSd", "SSh", "SSL", "SSU", "CL"):
            if nh == 0:
                return False
            if op == "CL":
                nh -= 1
        elif op in ("Ua", "Ub", "Uc") and not ok:
            return False
    return True


def parts(tier):
    th = tier == "thorough"
    out = []
    for store in ("hspy", "zspy"):
        cs = []
        for n in range(1, (5 if th else 4) + 1):
            firsts = OPS if n < 4 else ["Wa", "Wc"] if th and n == 4 else ["Wa"]
            ops = OPS if th or n < 4 else OPS4
            for h in itertools.product(firsts, *[ops] * (n - 1)):
                if cheap_enabled(h) and not (store == "zspy" and any(o[0] == "A" for o in h)):
                    cs.append(dict(store=store, history=list(h)))
        out.append(Part(store, cs, f_history, "all histories of up to %d operations over %d operations" % (
            5 if th else 4, len(OPS))))
    return out
