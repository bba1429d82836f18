"""C02: hspy/zspy metadata trees round trip."""
import itertools

import numpy as np

from checks.c01_native_data import plugin, read, write
from mc.core import Part, product
from mc.sig import *

PROPERTY = "C02"
ASSUMPTIONS = [
    "numbers are compared by value and kind (a Python int may come back as a numpy integer); inside one "
    "homogeneous numeric sequence numpy's usual promotion (bool->int->float) is accepted",
    "documented conversions are part of the model: a flat sequence mixing text and numbers comes back as text, byte strings without a null byte come back as str, "
    "numpy byte-string arrays as unicode arrays",
    "keys are identifiers-like strings: '/' and the reserved prefixes (_list_, _tuple_, _bs_, _sig_, "
    "_datetime_, _ragged_shapes_) are outside the property"]


def arr(dtype, shape=(2, 3)):
    return fill(shape, dtype)


LEAVES = [1, 0, -7, 2 ** 40, True, False, 1.5, float("nan"), float("inf"), 1e-300, 2 + 3j, "", "s", "a string",
          "µ∆ 名", "None", "nan", "1", "0.5", "x" * 300, "line\nbreak\ttab", None, b"a\x00b", b"\x00", b"\x00\xff\x00", np.int16(-3), np.uint8(255),
          np.float32(0.25), np.bool_(True), np.str_("np"), np.int64(5), np.float64(-2.5),
          [], (), {}]
ARRAYS = [arr("?"), arr("<i4"), arr(">i2"), arr("u1", (4,)), arr("<f8", (1, 2, 3)), arr(">f4"), arr("<c8"),
          np.arange(3), np.arange(0), np.zeros((0, 2)), np.array(["a", "bcd", ""]), np.array([["ab", "c"], ["d", "efg"]]),
          np.array([True, False]), np.array([1.5]), np.ones((1, 1, 1), "<f2"), np.asfortranarray(arr("<i8")),
          arr("<i4", (4, 6))[::2, ::3]]


def elem(kind, i):
    return {
        "int": i + 1, "float": i + 0.5, "bool": i % 3 == 0, "str": "s%d" % i, "uni": "é%d" % i,
        "none": None, "dict": {"i": i, "n": "v%d" % i}, "list": [i, i + 1], "tuple": (i, "t%d" % i),
        "array": np.arange(3) + i, "rag": np.arange(i + 1), "emptylist": [], "strlist": ["a%d" % i, "b"],
        "nested": [[i], [i, i + 1]], "mixnone": None if i % 2 else i, "mixstr": i if i % 2 else "s%d" % i,
        "strnone": None if i % 3 == 0 else "s%d" % i, "mixseq": i if i % 2 else [i, i + 1],
        "mixdict": i if i % 2 else {"i": i}, "numstr": str(i), "complex": i + 1j, "npint": np.int32(i),
        "emptystr": "" if i % 2 else "x%d" % i, "long": "l" * (i + 1) * 30, "boolstr": True if i % 2 else "t",
        "floatint": i if i % 2 else i + 0.5}[kind]


KINDS = ["int", "float", "bool", "str", "uni", "none", "dict", "list", "tuple", "array", "rag", "emptylist", "strlist",
         "nested", "mixnone", "mixstr", "strnone", "mixseq", "mixdict", "numstr", "complex", "npint", "emptystr", "long",
         "boolstr", "floatint"]
PLACES = ["metadata", "original_metadata", "attributes", "learning_results", "metadata-deep", "axes"]
LENGTHS = {"quick": [0, 1, 2, 3, 9, 10, 11, 12, 13], "thorough": list(range(0, 14)) + [25, 101]}


def expected(v):
    """The documented conversions."""
    if isinstance(v, dict):
        return {k: expected(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)) and any(isinstance(x, str) for x in v) and all(
            isinstance(x, (str, bool, int, float, complex)) for x in v):
        return type(v)(np.array(v).tolist())  # one dataset of text
    if isinstance(v, list):
        return [expected(x) for x in v]
    if isinstance(v, tuple):
        return tuple(expected(x) for x in v)
    if isinstance(v, bytes) and b"\x00" not in v:
        return v.decode()
    return v


def numeric_seq(v):
    return isinstance(v, (list, tuple)) and len(v) > 0 and all(
        isinstance(x, (bool, int, float, complex, np.number, np.bool_)) for x in v)


def diff(a, b, path=""):
    """tree_diff with promotion allowed inside numeric sequences."""
    b = compute(b) if hasattr(b, "compute") else b
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in b:
                return "%s/%s lost" % (path, k)
            if k not in a:
                return "%s/%s appeared (%r)" % (path, k, b[k])
            d = diff(a[k], b[k], path + "/" + k)
            if d:
                return d
        return None
    if numeric_seq(a) and type(a) is type(b) and len(a) == len(b):
        try:
            if all(x == y or (x != x and y != y) for x, y in zip(a, b)):
                return None
        except Exception:
            pass
        return "%s: expected %r got %r" % (path, a, b)
    if isinstance(a, (list, tuple)) and type(a) is type(b) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    return tree_diff(a, b, path)


def put(sig, place, value):
    if place == "metadata":
        sig["metadata"]["Node"] = {"before": 1, "v": value, "z_after": "z"}
    elif place == "metadata-deep":
        sig["metadata"]["A"] = {"B": {"C": {"D": {"v": value}, "e": 2}}, "B2": {"v": value}}
    elif place == "axes":
        sig["axes"][0]["v"] = value
    elif place == "models":
        sig["models"] = {"m": {"v": value}}
    else:
        sig[place]["v"] = value
        sig[place]["w"] = {"v": value}


def view(sig, place):
    if place.startswith("metadata"):
        return sig["metadata"]
    if place == "axes":
        return {"axes": [dict(a) for a in sig["axes"]]}
    if place == "learning_results":
        return sig.get(place) or sig["attributes"].get(place, {})
    if place == "attributes":
        return {k: v for k, v in sig[place].items() if k not in ("_lazy", "learning_results")}
    return sig[place]


def f_tree(t, c):
    sig = signal(fill((2, 3), "<i4"), nsig=1)
    place = c["place"]
    put(sig, place, c["value"])
    want = expected(snapshot(view(sig, place)))
    fn = write(t, c["store"], sig)
    for lazy in (False, True) if c.get("both", True) else (False,):
        r = read(t, c["store"], fn, lazy)
        got = view(r, place)
        d = diff(want, got)
        t.checks += 1
        t.state(lazy, place, repr(want))
        t.check(d is None, lambda: "%s lazy=%s %s" % (c["store"], lazy, d))
        t.check(same_values(sig["data"], compute(r["data"])), "data changed")


def f_seq(t, c):
    seq = [elem(c["kind"], i) for i in range(c["n"])]
    if c["type"] == "tuple":
        seq = tuple(seq)
    f_tree(t, dict(store=c["store"], place=c["place"], value=seq))


def f_full(t, c):
    """Models, nested signals, titles, package info."""
    sig = signal(fill((2, 3), "<i4"), nsig=1, title=c["title"])
    if c["models"]:
        sig["models"] = {"m%d" % i: {"components": {"c": {"v": i, "n": None}}, "date": "d"} for i in range(c["models"])}
    sig["package_info"] = {"package": c["pkg"], "package_version": "1.2"}
    if c["nested"]:
        inner = signal(fill((2,) * c["nested"], "<f8"), nsig=1, title="inner")
        inner["axes"] = axes_for((2,) * c["nested"], 1)
        inner.pop("package_info")
        sig["metadata"]["Noise"] = {"_sig_variance": inner, "gain": 1.5}
    fn = write(t, c["store"], sig)
    for lazy in (False, True):
        r = read(t, c["store"], fn, lazy)
        t.state(lazy, c)
        t.check(r["metadata"]["General"]["title"] == c["title"], "title %r read as %r" % (
            c["title"], r["metadata"]["General"]["title"]))
        t.check(r["package"] == c["pkg"] and r["package_version"] == "1.2", "package info")
        d = diff(sig["models"], {k: {a: b for a, b in v.items()} for k, v in r["models"].items()})
        t.check(d is None, lambda: "models " + str(d))
        if c["nested"]:
            n = r["metadata"]["Noise"]
            t.check(n["gain"] == 1.5, "sibling of nested signal")
            g = n["_sig_variance"]
            expect_array(t, inner["data"], g["data"], "nested signal", "exact")
            d = diff(inner["metadata"], g["metadata"])
            t.check(d is None, lambda: "nested signal metadata " + str(d))
            d = diff([dict(a) for a in inner["axes"]], [dict(a) for a in g["axes"]])
            t.check(d is None, lambda: "nested signal axes " + str(d))


def trees(depth, leaves, maxw):
    """All trees over the leaves with dict/list/tuple nodes of width <= maxw."""
    level = list(leaves)
    allt = list(level)
    for _ in range(depth):
        nxt = []
        base = allt if depth < 2 else allt[:40]
        for w in range(1, maxw + 1):
            for combo in itertools.product(base, repeat=w):
                nxt.append(dict(zip("ab", combo)))
                nxt.append(list(combo))
                nxt.append(tuple(combo))
        allt = allt + nxt
    return allt


def parts(tier):
    th = tier == "thorough"
    out = [Part("values", [dict(store=s, place=p, value=v) for s in ("hspy", "zspy") for p in PLACES
                           for v in LEAVES + ARRAYS if not (p == "axes" and isinstance(v, bytes))], f_tree, "leaf values x place x store x lazy")]
    out.append(Part("sequences", [dict(store=s, place=p, kind=k, type=ty, n=n)
                                  for s in ("hspy", "zspy") for p in (PLACES if th else ("metadata", "original_metadata"))
                                  for ty in ("list", "tuple") for k in KINDS for n in LENGTHS[tier]],
                    f_seq, "sequence kind x length x list/tuple"))
    leaves = [1, "s", None] if not th else [1, "s", None, 2.5, True]
    cs = []
    for s in ("hspy", "zspy"):
        for tr in trees(1, leaves + [[], {}, np.arange(2)], 2) + trees(2, leaves[:3], 2)[: (20000 if th else 1200)]:
            cs.append(dict(store=s, place="metadata", value=tr, both=th))
    out.append(Part("trees", cs, f_tree, "all trees of depth <= 3, width <= 2"))
    keys = ["a", "A", "_x", "0", "10", "2", "with space", "dot.ted", "µ", "data", "axis-0", "metadata", "list_", "title",
            "-", "a-b", "ragged", "_type", "None", "x" * 100]
    out.append(Part("keys", [dict(store=s, place=p, value={k: v, k + "2": w}) for s in ("hspy", "zspy")
                             for p in ("metadata", "original_metadata") for k in keys
                             for v, w in ((1, {"q": 2}), ({"q": 2}, [1, 2]), ([1, None], "s"), (np.arange(2), np.arange(3)),
                                          (None, ("a", "b")), ([], ()))], f_tree, "key alphabet"))
    out.append(Part("whole", product(store=["hspy", "zspy"], title=["", "t", "a title", "a/b", "µ", "1"],
                                     models=[0, 1, 2, 12], pkg=["hyperspy", ""], nested=[0, 1, 2, 3, 11]),
                    f_full, "titles, models, nested signals"))
    return out
