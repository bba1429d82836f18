"""C21: incremental file names, append2pathname, overwrite policy, file handles of lazy data."""
import builtins
import itertools
import os
from pathlib import Path

import numpy as np

from mc.core import Part, Skip, product
from mc.sig import *

PROPERTY = "C21"
ASSUMPTIONS = [
    "the user answering an overwrite question is replaced by a scripted input(); a script that "
    "runs out raises EOFError as a closed terminal does"]
NAMES = ["f.hspy", "f", "f.", ".hidden", ".hidden.txt", "a.b.c", "f-1.hspy", "f-9.txt", "sp ace.tif", "é.msa", "-1", "x-1-1.b"]


def P():
    from rsciio.utils import path

    return path


def listing(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = open(p, "rb").read()
        for x in ds:
            out[os.path.relpath(os.path.join(r, x), d) + "/"] = None
    return out


def f_incr(t, c):
    """Every subset of the candidate names exists beforehand."""
    d = Path(t.dir) / "d"
    d.mkdir()
    name = c["name"]
    p = Path(name)
    cand = [name] + [p.stem + "-%d" % i + p.suffix for i in range(1, 5)]
    for k, kind in zip(cand, c["exist"]):
        if kind == "f":
            (d / k).write_bytes(b"x")
        elif kind == "d":
            (d / k).mkdir()
    before = listing(d)
    arg = {"str": str, "path": Path}[c["as"]](d / name)
    t.op("incremental_filename")
    r = P().incremental_filename(arg, **c["kw"])
    t.state(str(r))
    r = Path(r)
    t.check(not r.is_file(), lambda: "existing file %s returned" % r.name)
    t.check(r.parent == d, "directory changed")
    t.check(r.suffix == p.suffix or not p.suffix, lambda: "extension of %s is %s" % (r.name, r.suffix))
    t.check(listing(d) == before, "file system changed")
    if not (d / name).is_file():
        t.check(r == d / name, lambda: "free name %s replaced by %s" % (name, r.name))
    else:
        i = c["kw"].get("i", 1)
        exp = next(k for k in (p.stem + "-%d" % j + p.suffix for j in itertools.count(i)) if not (d / k).is_file())
        t.check(r.name == exp, lambda: "%s expected, %s returned" % (exp, r.name))
    # create it and ask again: always new, never a collision
    seen = {r}
    for _ in range(3):
        if r.exists():
            break
        r.write_bytes(b"new")
        t.op("incremental_filename again")
        r = Path(P().incremental_filename(d / name, **c["kw"]))
        t.check(r not in seen and not r.is_file(), "name given twice")
        seen.add(r)


def f_append(t, c):
    base, name, app = c["dir"], c["name"], c["app"]
    full = os.path.join(base, name) if base else name
    t.op("append2pathname")
    r = P().append2pathname(full, app)
    t.state(str(r))
    p = Path(full)
    t.check(isinstance(r, Path), "not a Path")
    t.check(r.parent == p.parent, "directory changed")
    t.check(r.name == p.stem + app + p.suffix, lambda: "append %r to %r gives %r" % (app, name, r.name))


def f_overwrite(t, c):
    d = Path(t.dir) / "w"
    d.mkdir()
    target = d / c["name"]
    kind = c["kind"]
    if kind == "file":
        target.write_bytes(b"old")
    elif kind == "dir":
        target.mkdir()
        (target / "x").write_bytes(b"old")
    answers = list(c["answers"])
    asked = []

    def fake(msg=""):
        asked.append(msg)
        if not answers:
            raise EOFError
        a = answers.pop(0)
        if a == "!":
            raise RuntimeError("no terminal")
        if a == "^C":
            raise EOFError
        return a

    keep = builtins.input
    builtins.input = fake
    before = listing(d)
    try:
        t.op("overwrite")
        r = P().overwrite({"str": str, "path": Path}[c["as"]](target))
    finally:
        builtins.input = keep
    exists = kind == "file" or kind == "dir" and c["name"].endswith(".zspy")
    t.state(r, len(asked))
    t.check(listing(d) == before, "overwrite() touched the file system")
    if not exists:
        t.check(r is True and not asked, lambda: "nothing to overwrite, result %r asked %d" % (r, len(asked)))
        return
    exp = {False}
    for k, a in enumerate(c["answers"]):
        if a in ("!", "^C"):
            exp = {False}
            break
        if a in ("y", "n") or k == 0 and a in ("Y", "N"):
            exp = {a.lower() == "y"}
            break
        if a in ("Y", "N"):
            # a repeated question may insist on a lower case answer
            rest = [x for x in c["answers"][k + 1:]]
            exp = {a == "Y", bool(rest) and rest[0] == "y"}
            if any(x in ("Y", "N") for x in rest):
                exp = {True, False}
            break
    t.check(asked, "existing file, user was not asked")
    t.check(r in exp and isinstance(r, bool), lambda: "answers %s: %r returned" % (c["answers"], r))


def f_ensure(t, c):
    d = Path(t.dir) / "e"
    d.mkdir()
    (d / "file").write_bytes(b"1")
    (d / "have").mkdir()
    (d / "have" / "k").write_bytes(b"2")
    before = listing(d)
    t.op("ensure_directory")
    arg = {"str": str, "path": Path}[c["as"]](d / c["path"])
    P().ensure_directory(arg)
    t.op("ensure_directory")
    P().ensure_directory(arg)
    after = listing(d)
    for k, v in before.items():
        t.check(after.get(k, 0) == v, lambda: "%s changed" % k)
    if c["path"] not in ("file",):
        t.check((d / c["path"]).is_dir(), "directory missing")
    else:
        t.check(after == before, "a file path changed the file system")


# ------------------------------------------------------------ writers ask before overwriting
def f_writer(t, c):
    """The overwrite policy seen through the writers that have one (hspy, zspy, nexus, usid)
    is exercised in C03; here: a writer given a fresh incremental name touches nothing else."""
    import importlib

    d = Path(t.dir) / "o"
    d.mkdir()
    m = importlib.import_module("rsciio." + c["mod"])
    sig = signal(fill((3, 4), "<f4"), 2)
    for a in sig["axes"]:
        a["units"] = "nm"
    seen = {}
    for k in range(c["n"]):
        fn = P().incremental_filename(d / ("f" + c["ext"]))
        t.check(str(fn) not in seen, "name given twice")
        t.op("write " + c["mod"])
        m.file_writer(str(fn), sig)
        now = listing(d)
        for p, v in seen.items():
            t.check(now.get(p) == v, lambda: "file %s was changed by writing %s" % (p, fn.name))
        seen = {k2: v for k2, v in now.items()}
    t.state(sorted(seen))


# ------------------------------------------------------------ handles
def f_handle(t, c):
    import h5py

    from rsciio.utils.file import get_file_handle
    import importlib

    m = importlib.import_module("rsciio." + c["mod"])
    want, arrays = {}, []
    for k in range(c["n"]):
        fn = t.path("h%d.%s" % (k, c["ext"]))
        sig = signal(fill((3, 4, 5), "<f4", seed=100 * k), 2)
        t.op("write " + c["mod"])
        m.file_writer(fn, sig)
        arrays.append((fn, m.file_reader(fn, lazy=True)[0]["data"]))
    chain = {"plain": lambda x: x, "slice": lambda x: x[1:], "arith": lambda x: (x + 1) * 2, "rechunk": lambda x: x.rechunk(1),
             "transpose": lambda x: x.T, "reshape": lambda x: x.reshape(-1)}[c["op"]]
    for fn, x in arrays:
        t.op("get_file_handle")
        h = get_file_handle(chain(x), warn=False)
        if c["mod"] == "numpy" or c["mod"] == "ripple":
            t.check(h is None, "handle found for a memory-mapped file")
            continue
        if h is None and c["mod"] != "hspy":
            t.state("no handle")
            continue
        t.check(h is not None, "no handle found")
        name = h.filename if isinstance(h, h5py.File) else h.name
        t.check(os.path.samefile(name, fn), lambda: "handle of %s returned for data of %s" % (name, fn))
    import dask.array as da

    t.check(get_file_handle(da.zeros((3, 3)), warn=False) is None, "handle for data in memory")
    for fn, x in arrays:
        h = get_file_handle(x, warn=False)
        if h is not None:
            h.close()


def parts(tier):
    th = tier == "thorough"
    out = []
    out.append(Part("incremental", [dict(name=n, exist=e, kw=kw, **{"as": a}) for n in NAMES
                                    for e in itertools.product("-fd" if th else "-f", repeat=5 if th else 4)
                                    for kw in ({}, {"i": 1}, {"i": 3}) for a in ("str", "path")]
                    + [dict(name=n, exist=e, kw={}, **{"as": "str"}) for n in NAMES[:3] for e in itertools.product("-fd", repeat=4)],
                    f_incr, "name x every subset of existing candidates x start index"))
    out.append(Part("append", product(dir=["", "d", "/abs/x", "a.b/c"], name=NAMES, app=["", "-1", "_x", ".y", "é"]), f_append,
                    "names x suffixes"))
    alpha = ["y", "n", "Y", "N", "", "yes", "no", "!", "^C"]
    ans = [s for r in range(0, 4 if th else 3) for s in itertools.product(alpha, repeat=r)]
    out.append(Part("overwrite", [dict(name=n, kind=k, answers=a, **{"as": s}) for n in ("f.hspy", "f.zspy", "f.zarr", "f")
                                  for k in ("none", "file", "dir") for a in ans for s in ("str", "path")], f_overwrite,
                    "every answer sequence"))
    out.append(Part("ensure", product(path=["file", "have", "new", "new/deep/er", "have/sub", "a.b"], **{"as": ["str", "path"]}), f_ensure,
                    "existing and new directories"))
    out.append(Part("writers", [dict(mod=m, ext=e, n=3) for m, e in
                                [("hspy", ".hspy"), ("nexus", ".nxs"), ("ripple", ".rpl"), ("semper", ".unf"), ("numpy", ".npy"),
                                 ("tiff", ".tif"), ("emd", ".emd"), ("pantarhei", ".prz"), ("digitalsurf", ".sur")]], f_writer,
                    "one folder, three writes with generated names"))
    out.append(Part("handles", product(mod=["hspy"], ext=["hspy"], n=[1, 3], op=["plain", "slice", "arith", "rechunk", "transpose", "reshape"])
                    + product(mod=["emd"], ext=["emd"], n=[1, 3], op=["plain", "slice", "arith", "rechunk"])
                    + product(mod=["nexus"], ext=["nxs"], n=[1, 3], op=["plain", "slice", "arith", "rechunk"])
                    + product(mod=["tiff"], ext=["tif"], n=[1, 3], op=["plain", "slice", "arith", "rechunk"])
                    + product(mod=["numpy"], ext=["npy"], n=[2], op=["plain", "slice"]), f_handle,
                    "files open at the same time x operations on the lazy array"))
    return out
