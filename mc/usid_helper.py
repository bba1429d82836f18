"""Run by /opt/venv-usid/bin/python: USID round trips (cases as JSON on stdin)."""
import contextlib
import io
import json
import os
import sys

import numpy as np

from mc.core import canon_hash
from mc.sig import *


def one(c, d, out):
    import dask.array as da

    from rsciio.usid import file_reader, file_writer
    from checks.c06_hdf5_interchange import cal_axes

    shape = tuple(c["shape"])
    p = os.path.join(d, "a.h5")
    if os.path.exists(p):
        os.remove(p)
    arrs = []
    for k in range(c["times"]):
        a = fill(shape, c["dtype"], seed=50 * k)
        a = np.nan_to_num(a)
        s = signal(da.from_array(a, chunks=shape) if c["lazy"] else a, axes=cal_axes(shape, c["nsig"], c["cal"]), title="t%d" % k,
                   original_metadata={"k": k})
        file_writer(p, s)
        out["ops"] += 1
        arrs.append((a, s))
    for lazy in (False, True):
        r = file_reader(p, lazy=lazy)
        out["ops"] += 1
        if len(r) != len(arrs):
            return "%d datasets read, %d written" % (len(r), len(arrs))
        for k, ((a, s), g) in enumerate(zip(arrs, r)):
            if lazy != (not isinstance(g["data"], np.ndarray)):
                return "lazy=%s gives %s" % (lazy, type(g["data"]))
            b = np.asarray(g["data"])
            out["checks"] += 3
            out["states"].append(canon_hash(b))
            if not same_values(a, b):
                return "dataset %d lazy=%s: %s" % (k, lazy, describe(a, b))
            if native(a.dtype) != native(b.dtype):
                return "dtype %s read as %s" % (a.dtype, b.dtype)
            if len(g["axes"]) != a.ndim:
                return "%d axes" % len(g["axes"])
            for w, x in zip(s["axes"], g["axes"]):
                for key in ("size", "name", "units"):
                    if x[key] != w[key]:
                        return "axis %s: %r expected %r" % (key, x[key], w[key])
                for key in ("scale", "offset"):
                    if not np.isclose(x[key], w[key], rtol=1e-5, atol=1e-6 * abs(w["scale"])):
                        return "axis %s: %r expected %r" % (key, x[key], w[key])
        del r
        for k, (a, s) in enumerate(arrs):
            path = "/Measurement_%03d/Channel_000/Raw_Data" % k
            r = file_reader(p, lazy=lazy, dataset_path=path)
            if len(r) != 1 or not same_values(a, np.asarray(r[0]["data"])):
                return "dataset %s selected by path differs" % path
            om = r[0]["original_metadata"]
            if om["dataset_path"] != path:
                return "dataset_path %r" % om["dataset_path"]
            del r
    return None


def main():
    d = sys.argv[1]
    cases = json.load(sys.stdin)
    out = {"ops": 0, "checks": 0, "states": [], "bad": []}
    for c in cases:
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                e = one(c, d, out)
            except Exception as ex:
                import traceback

                e = "%s: %s %s" % (type(ex).__name__, ex, traceback.format_exc()[-400:])
        if e:
            out["bad"].append([json.dumps(c), e])
    print("RESULT " + json.dumps(out, default=str))


main()
