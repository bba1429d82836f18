"""C27: opening a file never executes what is stored in it."""
import io
import itertools
import os
import re
import struct
import sys
import types
import zipfile

import numpy as np

from mc import corpus, writers
from mc.core import Part, Skip, product
from mc.sig import *

PROPERTY = "C27"
ASSUMPTIONS = [
    "executing is observed from inside: audit events of resolving names while unpickling, of running code objects that mention the planted text, and calls of the planted function",
    "the names that may be resolved are those documented in rsciio.pantarhei: constructors of numpy arrays and _codecs.encode",
    "decoding of third party libraries which are not installed is out of reach"]

LOG = []
ON = [False]
STRICT = [False]
MARK = "verif_trap"
PAY = "__import__('verif_trap').boom()"
ALLOWED = {(m, n) for m in ("numpy._core.multiarray", "numpy.core.multiarray") for n in ("_reconstruct", "scalar")} | {("numpy", "ndarray"), ("numpy", "dtype"), ("_codecs", "encode")}


def mentions(code, depth=0):
    if any(MARK in str(x) for x in code.co_names) or "boom" in code.co_names:
        return True
    return any(isinstance(k, str) and MARK in k or isinstance(k, types.CodeType) and mentions(k) for k in code.co_consts)


def hook(event, args):
    if not ON[0]:
        return
    if event == "pickle.find_class":
        # dask and zarr copy their own objects by pickling them
        if tuple(args) not in ALLOWED and (STRICT[0] or MARK in args[0]):
            LOG.append("the name %s.%s is resolved while unpickling" % tuple(args))
    elif event == "exec":
        if isinstance(args[0], types.CodeType) and mentions(args[0]):
            LOG.append("text of the file is run as code")
    elif event == "import" and args[0] == MARK:
        LOG.append("a module named by the file is imported")


def boom(*a, **k):
    LOG.append("the function named by the file is called")
    return "boom"


def prepare(scratch):
    import dask
    import logging

    dask.config.set(scheduler="sync")
    logging.getLogger("rsciio").setLevel(logging.CRITICAL)
    corpus.prepare(scratch)
    m = types.ModuleType(MARK)
    m.boom = boom
    sys.modules[MARK] = m
    import copyreg

    copyreg.add_extension(MARK, "boom", 77)
    copyreg.add_extension("builtins", "eval", 78)
    sys.addaudithook(hook)


def watch(t, what, fn, strict=False):
    LOG.clear()
    ON[0], STRICT[0] = True, strict
    try:
        r = fn()
        out = "read"
    except Exception as e:
        r, out = e, type(e).__name__
    finally:
        ON[0] = False
    t.check(not LOG, lambda: "%s: %s" % (what, LOG[0]))
    return r, out


def values(r):
    """Everything which is computed late is computed."""
    for s in r:
        compute(s["data"])
    return r


def R(name):
    import importlib

    return importlib.import_module("rsciio." + name).file_reader


# ---------------------------------------------------------------- pickles
def npy_header(descr, shape):
    b = io.BytesIO()
    np.lib.format.write_array_header_1_0(b, {"descr": descr, "fortran_order": False, "shape": shape})
    return b.getvalue()


def plain(a):
    b = io.BytesIO()
    np.save(b, a)
    return b.getvalue()


def prz(path, program):
    with zipfile.ZipFile(path, "w") as z:
        z.writestr("data.npy", plain(np.zeros((2, 2))))
        z.writestr("data_type.npy", plain(np.array("")))
        z.writestr("meta_data.npy", npy_header("|O", (1,)) + program)


def U(s):
    return b"\x8c" + struct.pack("B", len(s)) + s.encode()


def G(m, n):
    return b"c" + m.encode() + b"\n" + n.encode() + b"\n"


# name, code, (what it takes from the stack), (what it leaves), where m is a mark, f something to call, t a tuple and x anything
OPS = [
    ("GLOBAL trap", G(MARK, "boom"), "", "f"), ("GLOBAL ndarray", G("numpy", "ndarray"), "", "f"), ("GLOBAL _reconstruct", G("numpy._core.multiarray", "_reconstruct"), "", "f"),
    ("GLOBAL encode", G("_codecs", "encode"), "", "f"), ("GLOBAL dtype", G("numpy", "dtype"), "", "f"),
    ("STACK_GLOBAL", b"\x93", "ss", "f"), ("trap", U(MARK), "", "s"), ("boom", U("boom"), "", "s"), ("numpy", U("numpy"), "", "s"), ("ndarray", U("ndarray"), "", "s"),
    ("INST", b"i" + MARK.encode() + b"\nboom\n", "m*", "x"), ("OBJ", b"o", "mf*", "x"), ("NEWOBJ", b"\x81", "ft", "x"), ("NEWOBJ_EX", b"\x92", "ftd", "x"), ("REDUCE", b"R", "ft", "x"),
    ("BUILD", b"b", "aa", "x"), ("MARK", b"(", "", "m"), ("TUPLE", b"t", "m*", "t"), ("EMPTY_TUPLE", b")", "", "t"), ("TUPLE1", b"\x85", "a", "t"), ("EMPTY_DICT", b"}", "", "d"),
    ("EXT1", b"\x82\x4d", "", "f"), ("EXT1 eval", b"\x82\x4e", "", "f"), ("BINPERSID", b"Q", "a", "f"), ("PERSID", b"P" + MARK.encode() + b".boom\n", "", "f"), ("MEMO", b"\x94", "a", "="), ("GET", b"h\0", "", "?"),
]


def step(stack, memo, op):
    name, code, take, leave = op
    s = list(stack)
    if take == "ss":
        if s[-2:] != ["s", "s"]:
            return None
        del s[-2:]
    elif take.startswith("m"):
        if "m" not in s:
            return None
        i = len(s) - 1 - s[::-1].index("m")
        if take == "mf*" and (len(s) == i + 1 or s[i + 1] not in "fx"):
            return None
        del s[i:]
    elif take in ("ft", "ftd"):
        if len(s) < len(take) or s[-len(take)] not in "fx" or s[-len(take) + 1] not in "tx" or take == "ftd" and s[-1] not in "dx":
            return None
        del s[-len(take):]
    elif take == "aa":
        if len(s) < 2 or "m" in s[-2:]:
            return None
        s.pop()
        s.pop()
    elif take == "a":
        if not s or s[-1] == "m":
            return None
        if leave == "=":
            return (s, s[-1]) if memo is None else None
        s.pop()
    if leave == "?":
        if memo is None:
            return None
        leave = memo
    return (s + [leave], memo) if leave else (s, memo)


def programs(first, second, depth):
    """All programs of up to `depth` instructions that begin with instruction `first` and leave something on the stack, and which name something."""
    def go(stack, memo, code, names, n):
        for k, op in enumerate(OPS):
            if not names and k != first or len(names) == 1 and op[0] != second:
                continue
            q = step(stack, memo, op)
            if q is None:
                continue
            ns = names + [op[0]]
            c = code + op[1]
            if q[0] and q[0][-1] != "m":
                yield ns, c
            if n > 1:
                yield from go(q[0], q[1], c, ns, n - 1)
    yield from go([], None, b"", [], depth)


def acts(names):
    """Programs that end by pushing something do nothing which those without it do not."""
    return any(n.split()[0] in ("STACK_GLOBAL", "INST", "REDUCE", "NEWOBJ", "NEWOBJ_EX", "OBJ", "EXT1", "BUILD", "PERSID", "BINPERSID") or n == "GLOBAL trap" for n in names[-1:])


def f_machine(t, c):
    p = t.path("a.prz")
    read = R("pantarhei")
    seen = set()
    for names, code in programs(c["first"], c["second"], c["depth"]):
        if not acts(names) or c["second"] and len(names) == 1:
            continue
        for proto in (b"", b"\x80\x04") if len(names) < 4 else (b"\x80\x04",):
            prz(p, proto + code + b".")
            t.op()
            _, out = watch(t, "unpickling %s" % " ".join(names), lambda: read(p, allow_restricted_pickle=True), True)
            seen.add((names[-1], out))
    for s in seen:
        t.state(s)


MODS = ["numpy", "numpy._core.multiarray", "numpy.core.multiarray", "_codecs", "codecs", "builtins", "__builtin__", "os", "posix", "nt", "subprocess", "sys", "importlib", "pickle", "copyreg", "copy_reg",
    "runpy", "shutil", "numpy.lib", "numpy._core", "numpy.core", "numpy.testing", "numpy.f2py", "operator", "types", "functools", "ctypes", "numba", "dask", "rsciio.utils.file", MARK]


def f_names(t, c):
    """Every name of a module, in each way it can be given."""
    import importlib

    p = t.path("a.prz")
    read = R("pantarhei")
    m = c["module"]
    try:
        names = dir(importlib.import_module({"__builtin__": "builtins", "copy_reg": "copyreg", "nt": "posix"}.get(m, m)))
    except ImportError:
        names = []
    names = sorted(set(names) | {"system", "eval", "exec", "boom", "ndarray", "dtype", "_reconstruct", "scalar", "encode", "decode", "load", "ndarray.__reduce__", "dtype.type", "ndarray.dump", "encode.__self__.lookup",
        "Ndarray", "ndarray ", "dtype_", "_reconstruct.__self__", ""})
    for n in names:
        if "\n" in n:
            continue
        for how, code in (("GLOBAL", G(m, n)), ("GLOBAL 4", b"\x80\x04" + G(m, n)), ("STACK_GLOBAL", b"\x80\x04" + U(m) + U(n) + b"\x93"), ("GLOBAL 2", b"\x80\x02" + G(m, n)), ("space", G(" " + m, n)), ("dot", G(m + ".", n))):
            prz(p, code + b".")
            t.op()
            _, out = watch(t, "%s %s.%s" % (how, m, n), lambda: read(p, allow_restricted_pickle=True), True)
            if (m, n) in ALLOWED and how in ("GLOBAL", "STACK_GLOBAL"):
                t.check(out != "InvalidPickleError", lambda: "%s.%s is refused" % (m, n))
            if (m, n) not in ALLOWED or how in ("space", "dot"):
                t.check(out != "read", lambda: "%s %s.%s is accepted" % (how, m, n))
            t.state(m, n, how)


class Evil:
    def __reduce__(self):
        return boom_ref(), ()


def boom_ref():
    return sys.modules[MARK].boom


def evil(protocol=2):
    return b"\x80\x02" + G(MARK, "boom") + b")R."


def f_arrays(t, c):
    """Arrays of objects where arrays are expected."""
    where, fmt = c["where"], c["fmt"]
    obj = npy_header("|O", c["shape"]) + evil()
    if fmt == "npy":
        p = t.path("a.npy")
        open(p, "wb").write(obj)
        run = [lambda o=o: values(R("numpy")(p, **o)) for o in (dict(lazy=False), dict(lazy=True), dict(lazy=False, chunks="auto"))]
    elif fmt == "raw":
        # a pickle or an archive under the name of an array
        p = t.path("a.npy")
        if where == "pickle":
            open(p, "wb").write(evil())
        else:
            with zipfile.ZipFile(p, "w") as z:
                z.writestr("arr_0.npy", obj)
        run = [lambda o=o: values(R("numpy")(p, **o)) for o in (dict(lazy=False), dict(lazy=True))]
    else:
        p = t.path("a.prz")
        with zipfile.ZipFile(p, "w") as z:
            for n, a in (("data.npy", np.zeros((2, 2))), ("data_type.npy", np.array("")), ("meta_data.npy", np.array("{}")), ("file_format_version.npy", np.array(1)), ("data_model.npy", np.array(1))):
                z.writestr(n, obj if n == where + ".npy" else plain(a))
        run = [lambda o=o: values(R("pantarhei")(p, **o)) for o in (dict(), dict(allow_restricted_pickle=True), dict(lazy=True))]
    for i, f in enumerate(run):
        t.op("%s of objects in a %s file, %d" % (where, fmt, i))
        r, out = watch(t, "%s of objects in a %s file" % (where, fmt), f)
        t.state(fmt, where, i, out)


def zspy_nodes(path):
    import zarr

    out = []
    zarr.open_group(path, mode="r").visititems(lambda n, o: out.append((n, isinstance(o, zarr.Array))))
    return out


def f_zspy(t, c):
    """Any array of a zspy file stored as pickles."""
    import numcodecs
    import zarr

    sig = writers.make((3, 4), 2, "f4")
    sig["metadata"]["Extra"] = {"array": np.arange(3.0), "list": ["a", "b"], "text": "t", "numbers": [1, 2], "tuple": (1.5, "x"), "nested": {"array": np.arange(4)}}
    if c["ragged"]:
        a = np.empty((2,), object)
        a[0], a[1] = np.arange(3), np.arange(2)
        sig["data"] = a
        sig["axes"] = sig["axes"][:1]
        sig["axes"][0].update(size=2, navigate=True)
    p = t.path("a.zspy")
    from rsciio.zspy import file_writer
    file_writer(p, sig)
    nodes = [n for n, isarray in zspy_nodes(p) if isarray]
    nodes += ["Experiments/%s/metadata/%s" % (sig["metadata"]["General"]["title"], x) for x in ("new", "_list_new", "_tuple_new", "_sig_new")]
    for n in nodes:
        for how in ("object_codec", "filters", "compressor", "nested"):
            q = t.path("b.zspy")
            import shutil

            shutil.rmtree(q, ignore_errors=True)
            shutil.copytree(p, q)
            g = zarr.open_group(zarr.storage.NestedDirectoryStore(q), mode="a")
            shape = g[n].shape if n in g else (2,)
            attrs = dict(g[n].attrs) if n in g else {}
            if n in g:
                del g[n]
            k = int(np.prod(shape))
            if how == "object_codec":
                d = g.create_dataset(n, shape=shape, chunks=shape or None, dtype=object, object_codec=numcodecs.Pickle(), compressor=None)
            elif how == "filters":
                d = g.create_dataset(n, shape=shape, chunks=shape or None, dtype="f8", filters=[numcodecs.Pickle()], compressor=None)
            elif how == "compressor":
                d = g.create_dataset(n, shape=shape, chunks=shape or None, dtype="f8", compressor=numcodecs.Pickle())
            else:
                d = g.create_dataset(n, shape=shape, chunks=shape or None, dtype="f8", filters=[numcodecs.Delta("f8"), numcodecs.Pickle()], compressor=None)
            d.attrs.update(attrs)
            d[...] = np.zeros(shape)
            base = os.path.join(q, n)
            chunk = [f for r, _, fs in os.walk(base) for f in [os.path.join(r, x) for x in fs] if not os.path.basename(f).startswith(".")]
            if not chunk:
                # zero may be left out as the fill value
                chunk = [os.path.join(base, *["0"] * max(1, len(shape)))]
                os.makedirs(os.path.dirname(chunk[0]), exist_ok=True)
            for f in chunk:
                with open(f, "wb") as o:
                    o.write(evil())
            for lazy in (False, True):
                t.op("%s of %s lazy=%s" % (how, n, lazy))
                _, out = watch(t, "zspy: %s of %s lazy=%s" % (how, n, lazy), lambda: deep(R("zspy")(q, lazy=lazy)))
                t.state(n, how, lazy, out)


def deep(r):
    """Compute the lazy arrays anywhere."""
    def go(o):
        if isinstance(o, dict):
            for v in o.values():
                go(v)
        elif isinstance(o, (list, tuple)):
            for v in o:
                go(v)
        elif hasattr(o, "__dask_graph__"):
            compute(o)
    go(r)
    return r


# ---------------------------------------------------------------- text
FORMS = [PAY, "(%s)" % PAY, "[%s]" % PAY, "f(%s,)" % PAY, "1+%s" % PAY, "c%s\nboom\n(tR." % MARK, "{'a': %s}" % PAY]
TOKEN = re.compile(r"[^\s<>=\"',;:/\\(){}\[\]#|$]+")


def decode(raw):
    if raw[:2] in (b"\xff\xfe", b"\xfe\xff"):
        return raw.decode("utf-16"), "utf-16"
    for e in ("utf-8", "latin-1"):
        try:
            s = raw.decode(e)
        except UnicodeDecodeError:
            continue
        if "\0" in s or sum(ord(ch) < 9 for ch in s):
            return None, None
        return s, e
    return None, None


def f_text(t, c):
    """Each word of a text file is replaced by code."""
    p = corpus.path(c["text"])
    raw = open(p, "rb").read()
    s, enc = decode(raw)
    if s is None:
        raise Skip("not a text")
    m = R(c["plugin"])
    words, seen = [], {}
    for w in TOKEN.finditer(s):
        # numbers of a table are alike: the first and the last of those in the same kind of line
        key = re.sub(r"[\d.eE+-]+", "0", w.group())
        line = s[s.rfind("\n", 0, w.start()) + 1:w.start()][-24:]
        key = (key, re.sub(r"[\d.eE+-]+", "0", line))
        seen[key] = seen.get(key, 0) + 1
        if seen[key] <= c["most"]:
            words.append(w.span())
    words = words[c["part"]::c["of"]]
    try:
        for a, b in words:
            for form in c["forms"]:
                x = form
                if p.endswith(("xml", "spx", "tvf")):
                    x = x.replace("<", "&lt;")
                with open(p, "wb") as f:
                    f.write((s[:a] + x + s[b:]).encode(enc, "ignore"))
                t.op()
                _, out = watch(t, "%s with %r at %d of %s" % (c["path"], form[:12], a, c["text"]), lambda: deep(m(corpus.path(c["path"]), lazy=False)))
                t.state(c["text"], a, out)
    finally:
        with open(p, "wb") as f:
            f.write(raw)


def f_hdf(t, c):
    """Each text of a file of the HDF5 kind is replaced by code."""
    import h5py
    import shutil

    src = corpus.path(c["path"])
    p = t.path(os.path.basename(src))
    m = R(c["plugin"])
    places = []

    def attrs(name, o):
        for k in o.attrs:
            if k in ("DIMENSION_LABELS", "DIMENSION_LIST", "CLASS", "REFERENCE_LIST", "NAME"):
                # of the HDF5 library, which does not survive what is not its own
                continue
            dt = o.attrs.get_id(k).dtype
            if dt.kind == "O" and not h5py.check_string_dtype(dt):
                continue
            v = o.attrs[k]
            if isinstance(v, (str, bytes, np.bytes_)) or isinstance(v, np.ndarray) and v.dtype.kind in "SO" and v.size < 50:
                places.append((name, k))

    def visit(name, o):
        attrs(name, o)
        if isinstance(o, h5py.Dataset) and o.dtype.kind in "SO" and o.size and o.size < 50:
            places.append((name, None))
    with h5py.File(src, "r") as f:
        attrs("/", f)
        f.visititems(visit)
    for name, key in places[c["part"]::c["of"]]:
        for form in c["forms"]:
            shutil.copy(src, p)
            try:
                with h5py.File(p, "a") as f:
                    o = f[name]
                    old = o[()] if key is None else o.attrs[key]
                    vlen = h5py.check_string_dtype((o if key is None else o.attrs.get_id(key)).dtype)
                    if vlen is None and isinstance(old, np.ndarray) and old.dtype.kind == "O":
                        continue
                    new = form if not isinstance(old, np.ndarray) else np.full(old.shape, form.encode())
                    if key is None:
                        at = {k: o.attrs[k] for k in o.attrs if o.attrs.get_id(k).dtype.kind != "O" or h5py.check_string_dtype(o.attrs.get_id(k).dtype)}
                        del f[name]
                        d = f.create_dataset(name, data=new, dtype=h5py.string_dtype() if vlen is None or vlen.length is None else None) if isinstance(new, str) else f.create_dataset(name, data=new)
                        for k, v in at.items():
                            # references to other objects are left out
                            if isinstance(v, (str, bytes, int, float, np.number)):
                                d.attrs[k] = v
                    else:
                        o.attrs[key] = new
            except (TypeError, ValueError, OSError, KeyError):
                continue
            t.op()
            _, out = watch(t, "%s with %r at %s %s" % (c["path"], form[:12], name, key), lambda: deep(m(p, lazy=False)))
            t.state(c["path"], name, key, out)


def f_written(t, c):
    """Code wherever a signal can hold text, written and read again."""
    import importlib

    m = importlib.import_module("rsciio." + c["plugin"])
    form = c["form"]
    sig = writers.make(c["shape"], c["nsig"], c["dtype"], plugin=c["plugin"])
    md = sig["metadata"]
    w = c["where"]
    if w == "title":
        md["General"]["title"] = form
    elif w == "general":
        md["General"].update(notes=form, date=form, time=form, time_zone=form, authors=form, original_filename=form)
    elif w == "signal":
        md["Signal"].update(signal_type=form, quantity=form)
    elif w == "axes":
        for a in sig["axes"]:
            a.update(name=form, units=form)
    elif w == "original":
        sig["original_metadata"] = {"a": form, form: form, "list": [form, (form, 1)], "_datetime_date": form, "_datetime_time_x": form, "_list_0_": form, "bytes": form.encode()}
    elif w == "metadata":
        md["Extra"] = {"a": form, "_datetime_date": form, "_datetime_time": "time" + form, "_bs_x": form, "list": [form, [form]], "tuple": (form,), "bytes": form.encode(), form.replace("/", ""): 1}
    p = t.path("a." + c["ext"])
    t.op("write")
    try:
        m.file_writer(p, sig)
    except Exception as e:
        raise Skip("refused: %s" % type(e).__name__)
    t.op("read")
    _, out = watch(t, "%s with %r in the %s" % (c["plugin"], form[:12], w), lambda: deep(m.file_reader(p)))
    t.state(c["plugin"], w, out)


def parts(tier):
    deep_ = tier == "thorough"
    depth = 6 if deep_ else 5
    machine = [dict(first=k, second=o[0], depth=depth) for k in range(len(OPS)) for o in OPS] + [dict(first=k, second=None, depth=1) for k in range(len(OPS))]
    few = FORMS if deep_ else FORMS[:2] + FORMS[5:6]
    texts, hdfs = [], []
    for e in corpus.entries():
        p = e["path"]
        if isinstance(e["eager"], str) or e["t"] > 1.5:
            continue
        near = []
        if e["plugin"] in ("hspy", "emd", "nexus", "usid", "arina", "delmic", "tofwerk") and p.endswith(("hspy", "emd", "h5", "nxs", "hdf5")):
            if e["size"] < 3e6:
                n = 4
                hdfs += [dict(plugin=e["plugin"], path=p, part=i, of=n, forms=FORMS[:3] if deep_ else FORMS[:1]) for i in range(n)]
            continue
        texts.append((e["plugin"], p, e["t"], e["size"]))
    tt, seen = [], set()
    root = corpus.DATA
    for plugin, p, sec, size in texts:
        d = os.path.dirname(p)
        for x in sorted(os.listdir(os.path.join(root, d))) if os.path.isdir(os.path.join(root, d)) else []:
            q = os.path.join(d, x)
            if not (q == p or os.path.splitext(x)[0] == os.path.splitext(os.path.basename(p))[0] or os.path.splitext(x)[1] in (".log", ".txt", ".xml", ".hdr", ".csv", ".aux") and plugin in ("impulse", "empad", "mrc", "jeol", "quantumdetector")):
                continue
            f = os.path.join(root, q)
            if not os.path.isfile(f) or os.path.getsize(f) > (400000 if deep_ else 60000) or (plugin, q) in seen or x.endswith((".raw", ".npy", ".zip", ".gz", ".h5", ".mrc")):
                continue
            if decode(open(f, "rb").read())[0] is None:
                continue
            if (sum(k[0] == plugin for k in seen) >= 8) and not deep_:
                continue
            seen.add((plugin, q))
            n = 1 if os.path.getsize(f) < 3000 else 4
            tt += [dict(plugin=plugin, path=p, text=q, part=i, of=n, most=2 if deep_ else 1, forms=few) for i in range(n)]
    written = []
    for plugin, ext, sigs, kws in writers.WRITERS:
        shape, nsig, dtype = sigs[0]
        written += [dict(plugin=plugin, ext=ext, shape=shape, nsig=nsig, dtype=dtype, where=w, form=f) for w in ("title", "general", "signal", "axes", "original", "metadata") for f in FORMS]
    return [
        Part("pickle programs", machine, f_machine, timeout=600, bounds="all programs of up to %d instructions out of %d that end with resolving, calling or building something" % (depth, len(OPS))),
        Part("names", [dict(module=m) for m in MODS], f_names, timeout=600, bounds="all names of %d modules, six encodings" % len(MODS)),
        Part("objects", [dict(fmt="npy", where="array", shape=s) for s in ((1,), (), (2, 2))] + [dict(fmt="raw", where=w, shape=(1,)) for w in ("pickle", "archive")]
            + [dict(fmt="prz", where=w, shape=s) for w in ("data", "data_type", "meta_data", "file_format_version", "data_model") for s in ((1,), ())], f_arrays),
        Part("zspy", [dict(ragged=r) for r in (False, True)], f_zspy, timeout=300, bounds="every array of two files, four ways of storing pickles"),
        Part("words", tt, f_text, timeout=600, bounds="each distinct word of %d text files, %d forms of code" % (len({x["text"] for x in tt}), len(few))),
        Part("texts", hdfs, f_hdf, timeout=600, bounds="each text of %d files of the HDF5 kind" % len({x["path"] for x in hdfs})),
        Part("written", written, f_written, bounds="all writers, places of text and forms of code"),
    ]
