"""Signals, alphabets and comparisons shared by the checks."""
import copy
import os

import numpy as np


def uaxis(size, navigate, name=None, units=None, scale=1.0, offset=0.0, **kw):
    d = dict(_type="UniformDataAxis", name=name, units=units, navigate=navigate,
             is_binned=False, size=size, scale=scale, offset=offset)
    d.update(kw)
    return d


NAMES = ["t", "z", "y", "x", "E"]
UNITS = ["s", "µm", "nm", "nm", "eV"]


def axes_for(shape, nsig, calibrated=True, index=False):
    n = len(shape)
    out = []
    for i, s in enumerate(shape):
        k = (5 - n + i) % 5
        a = uaxis(int(s), i < n - nsig)
        if calibrated:
            a.update(name=NAMES[k] + ("2" if i < n - 5 else ""), units=UNITS[k], scale=0.5 * (i + 1),
                     offset=-2.0 + 3 * i)
        if index:
            a["index_in_array"] = i
        out.append(a)
    return out


def signal(data, nsig=None, axes=None, title="", lazy=None, metadata=None,
           original_metadata=None, signal_type="", calibrated=True, **kw):
    import dask.array as da

    if nsig is None:
        nsig = min(data.ndim, 2)
    if lazy is None:
        lazy = isinstance(data, da.Array)
    md = {"General": {"title": title}, "Signal": {"signal_type": signal_type}}
    for k, v in (metadata or {}).items():
        md.setdefault(k, {}).update(v) if isinstance(v, dict) else md.__setitem__(k, v)
    d = dict(data=data, axes=axes if axes is not None else axes_for(
        data.shape, nsig, calibrated), metadata=md,
        original_metadata=copy.deepcopy(original_metadata or {}),
        tmp_parameters={}, learning_results={}, models={},
        attributes={"_lazy": bool(lazy), "ragged": data.dtype == object},
        package_info={"package": "hyperspy", "package_version": "2.5.0"})
    d.update(kw)
    return d


def fill(shape, dtype, seed=0):
    """Every element different as far as the dtype allows; extreme values included."""
    dt = np.dtype(dtype)
    n = int(np.prod(shape, dtype=int)) if len(shape) else 1
    if dt.names:
        a = np.zeros(n, dt)
        for j, nm in enumerate(dt.names):
            a[nm] = fill((n,), dt[nm].newbyteorder("=") if dt[nm].byteorder in "<>" else dt[nm], seed + 7 * j)
        return a.reshape(shape)
    i = np.arange(n, dtype=np.int64) + seed
    if dt.kind == "b":
        a = ((i * 5 // 3 + i // 2) % 2).astype(bool)
    elif dt.kind in "iu":
        info = np.iinfo(dt)
        span = int(info.max) - int(info.min) + 1
        vals = [int(info.max) - int(k // 2) if k % 2 else int(info.min) + (int(k) * 37 + int(k) // 2) % span
                for k in i]
        vals = [min(max(v, int(info.min)), int(info.max)) for v in vals]
        a = np.array(vals, dtype=dt.newbyteorder("="))
    elif dt.kind == "f":
        a = (i * 1.25 - 3).astype(dt.newbyteorder("="))
        if n > 2:
            a[1] = np.finfo(dt).max
            a[2] = np.finfo(dt).tiny
    elif dt.kind == "c":
        a = (i * 1.25 - 3 + 1j * (i * 0.5 + 1)).astype(dt.newbyteorder("="))
    elif dt.kind == "U":
        a = np.array(["s%dé"[: dt.itemsize // 4 or 4] % k if False else ("s%d" % k) for k in i], dtype=dt)
    elif dt.kind == "S":
        a = np.array([b"s%d" % k for k in i], dtype=dt)
    elif dt.kind in "mM":
        a = i.astype("int64").astype(dt)
    else:
        raise TypeError(dt)
    return a.astype(dt).reshape(shape)


def layout(a, how):
    """Same values, other memory layout."""
    if a.ndim == 0:
        return a.copy()
    if how == "C":
        return np.ascontiguousarray(a)
    if how == "F":
        return np.asfortranarray(a)
    if how == "strided":
        b = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
        sl = tuple(slice(None, None, 2) for _ in a.shape)
        b[sl] = a
        return b[sl]
    if how == "reversed":
        b = np.ascontiguousarray(a[tuple(slice(None, None, -1) for _ in a.shape)])
        return b[tuple(slice(None, None, -1) for _ in a.shape)]
    if how == "readonly":
        b = np.ascontiguousarray(a).copy()
        b.flags.writeable = False
        return b
    if how == "offset":
        b = np.zeros(a.size * a.itemsize + 3, np.uint8)
        v = b[3:].view(a.dtype).reshape(a.shape)
        v[...] = a
        return v
    raise ValueError(how)


LAYOUTS = ["C", "F", "strided", "reversed", "readonly", "offset"]


def chunkings(shape, most=None):
    """Every regular chunk tuple of the shape made of 1, a non-dividing size, full."""
    import itertools

    opts = []
    for s in shape:
        o = {1, s}
        if s >= 3:
            o.add(2)
        if s >= 7:
            o.add(s - 2)
        opts.append(sorted(x for x in o if x >= 1) or [s])
    out = list(itertools.product(*opts))
    return out if most is None else out[:most]


def compute(x):
    import dask

    if hasattr(x, "compute"):
        return x.compute(scheduler="synchronous")
    return np.asarray(x) if not isinstance(x, np.ndarray) else x


def same_values(a, b):
    """Bitwise-ish equality of values independent of byte order."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object:
        return all(deep_equal(x, y) for x, y in zip(a.ravel(), b.ravel()))
    if a.dtype.names:
        return a.dtype.names == b.dtype.names and all(
            same_values(a[n], b[n]) for n in a.dtype.names)
    if a.dtype.kind in "fc" and b.dtype.kind in "fc":
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.array_equal(a, b))


def describe(a, b):
    a, b = np.asarray(a), np.asarray(b)
    s = "expected shape %s dtype %s, got shape %s dtype %s" % (a.shape, a.dtype, b.shape, b.dtype)
    if a.shape == b.shape and a.dtype != object and not a.dtype.names:
        try:
            bad = np.argwhere(~((a == b) | ((a != a) & (b != b))))
            if len(bad):
                k = tuple(bad[0])
                s += "; %d elements differ, first at %s: expected %r got %r" % (
                    len(bad), tuple(int(x) for x in k), a[k], b[k])
        except Exception:
            pass
    return s


def native(dt):
    return np.dtype(dt).newbyteorder("=")


def expect_array(t, want, got, what, dtype="native"):
    got = compute(got)
    t.state(what.split(":")[0], got)
    t.checks += 1
    if not same_values(want, got):
        t.fail("%s: array differs: %s" % (what, describe(want, got)))
    if dtype == "exact":
        ok = got.dtype == want.dtype
    elif dtype == "native":
        ok = native(got.dtype) == native(want.dtype)
    elif dtype == "kind":
        ok = got.dtype.kind == want.dtype.kind
    else:
        ok = True
    if not ok:
        t.fail("%s: dtype %s read as %s" % (what, want.dtype, got.dtype))
    return got


def deep_equal(a, b, seq_strict=True):
    """Equality of metadata values: numpy scalars equal python scalars of the same
    kind; lists and tuples are distinguished when seq_strict."""
    if a is b:
        return True
    if hasattr(a, "compute"):
        a = compute(a)
    if hasattr(b, "compute"):
        b = compute(b)
    if isinstance(a, dict) or isinstance(b, dict):
        return (isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b)
                and all(deep_equal(a[k], b[k], seq_strict) for k in a))
    if isinstance(a, np.ndarray) and a.ndim == 0:
        a = a[()]
    if isinstance(b, np.ndarray) and b.ndim == 0:
        b = b[()]
    sa, sb = isinstance(a, (list, tuple)), isinstance(b, (list, tuple))
    na, nb = isinstance(a, np.ndarray), isinstance(b, np.ndarray)
    if sa or sb or na or nb:
        if na != nb:
            if seq_strict or not (na or sa) or not (nb or sb):
                return False
        if sa and sb and seq_strict and isinstance(a, list) != isinstance(b, list):
            return False
        if na and nb:
            if a.dtype.names or b.dtype.names:
                return same_values(a, b)
            return a.shape == b.shape and same_values(a, b) and (
                a.dtype.kind == b.dtype.kind)
        if len(a) != len(b):
            return False
        return all(deep_equal(x, y, seq_strict) for x, y in zip(a, b))
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        return type(a) in (str, np.str_) and type(b) in (str, np.str_) and str(a) == str(b) \
            or isinstance(a, bytes) and isinstance(b, bytes) and bytes(a) == bytes(b)
    isb = lambda v: isinstance(v, (bool, np.bool_))
    if isb(a) != isb(b):
        return False
    try:
        if a != a and b != b:
            return True
        isint = lambda v: isinstance(v, (int, np.integer)) and not isb(v)
        if isint(a) != isint(b) and not isb(a):
            return False
        return bool(a == b)
    except Exception:
        return False


def tree_diff(a, b, path="", seq_strict=True):
    """First difference between two trees, or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return "%s/%s lost" % (path, k)
            d = tree_diff(a[k], b[k], "%s/%s" % (path, k), seq_strict)
            if d:
                return d
        for k in b:
            if k not in a:
                return "%s/%s appeared (%r)" % (path, k, b[k])
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) \
            and (isinstance(a, list) == isinstance(b, list) or not seq_strict):
        for i, (x, y) in enumerate(zip(a, b)):
            d = tree_diff(x, y, "%s[%d]" % (path, i), seq_strict)
            if d:
                return d
        return None
    if not deep_equal(a, b, seq_strict):
        return "%s: expected %r (%s) got %r (%s)" % (
            path, a, type(a).__name__, compute(b) if hasattr(b, "compute") else b, type(b).__name__)
    return None


def snapshot(x):
    """Deep copy that also freezes arrays (dask arrays by identity and name)."""
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    if isinstance(x, list):
        return [snapshot(v) for v in x]
    if isinstance(x, tuple):
        return tuple(snapshot(v) for v in x)
    if hasattr(x, "__dask_keys__"):
        return ("dask", x.name, x.shape, str(x.dtype))
    if isinstance(x, np.ndarray):
        return x.copy()
    try:
        return copy.deepcopy(x)
    except Exception:
        return x


def open_fds(root):
    """Paths under root that this process has open."""
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if p.startswith(root):
            out.append(p)
    return sorted(out)


def same_axes(want, got, keys=("size", "scale", "offset", "name", "units", "navigate"), rtol=0):
    if len(want) != len(got):
        return "axes: expected %d got %d" % (len(want), len(got))
    for i, (w, g) in enumerate(zip(want, got)):
        for k in keys:
            if k not in w:
                continue
            a, b = w[k], g.get(k, "<absent>")
            if isinstance(a, float) or isinstance(b, float):
                try:
                    ok = bool(np.isclose(float(a), float(b), rtol=rtol, atol=0))
                except (TypeError, ValueError):
                    ok = False
            else:
                ok = a == b or (a in (None, "") and b in (None, ""))
            if not ok:
                return "axis %d %s: expected %r got %r" % (i, k, a, b)
    return None
