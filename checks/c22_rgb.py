"""C22: RGB(A) structured arrays <-> arrays with a channel axis."""
import itertools

import numpy as np

from mc.core import Part, Skip, product
from mc.sig import *

PROPERTY = "C22"
ASSUMPTIONS = ["structured dtypes are the four of RGB_DTYPES (rgb8, rgb16, rgba8, rgba16)",
               "masked arrays are not enumerated"]
KINDS = ["rgb8", "rgb16", "rgba8", "rgba16"]
SHAPES = [(), (1,), (3,), (1, 1), (2, 3), (3, 1), (2, 1, 3), (2, 2, 3, 2), (0,), (2, 0), (3,), (4,), (4, 3), (3, 4), (3, 3)]


def M():
    from rsciio.utils import rgb

    return rgb


def f_round(t, c):
    import dask.array as da

    m = M()
    dt = m.RGB_DTYPES[c["kind"]]
    nch, item = len(dt.names), dt.itemsize // len(dt.names)
    base = "u%d" % item
    reg = fill(c["shape"] + (nch,), base, seed=3)
    st = np.zeros(c["shape"], dt)
    for j, n in enumerate("RGBA"[:nch]):
        st[n] = reg[..., j]
    # structured -> regular
    src = layout(st, c["layout"]) if st.size else st
    keep = src.copy()
    arg = da.from_array(src, chunks=1) if c["lazy"] and st.ndim and st.size else src
    t.op("rgbx2regular_array")
    got = m.rgbx2regular_array(arg, show_progressbar=False)
    t.state(compute(got))
    t.check(got.shape == reg.shape and got.dtype == reg.dtype and np.array_equal(compute(got), reg),
            lambda: "structured to regular: " + describe(reg, compute(got)))
    t.check(np.array_equal(keep, src), "conversion changed its argument")
    # regular -> structured
    rsrc = layout(reg, c["layout"]) if reg.size else reg
    keep = rsrc.copy()
    t.op("regular_array2rgbx")
    if c["lazy"] and reg.size:
        try:
            back = m.regular_array2rgbx(da.from_array(rsrc, chunks=rsrc.shape))
            back = compute(back)
        except (AttributeError, TypeError, ValueError):
            back = m.regular_array2rgbx(rsrc)
    else:
        back = m.regular_array2rgbx(rsrc)
    t.check(back.shape == st.shape and back.dtype == st.dtype, lambda: "regular to structured: %s %s expected %s %s" % (
        back.shape, back.dtype, st.shape, st.dtype))
    for n in st.dtype.names:
        t.check(np.array_equal(back[n], st[n]), lambda: "regular to structured: channel %s: %s" % (n, describe(st[n], back[n])))
    t.check(np.array_equal(keep, rsrc), "conversion changed its argument")
    # both compositions are the identity
    a = m.rgbx2regular_array(m.regular_array2rgbx(rsrc))
    t.check(a.dtype == reg.dtype and np.array_equal(a, reg), "regular->structured->regular is not the identity")
    b = m.regular_array2rgbx(m.rgbx2regular_array(src))
    t.check(b.dtype == st.dtype and b.shape == st.shape and np.array_equal(b, st), "structured->regular->structured is not the identity")
    # predicates
    for x in (src, back, arg):
        t.check(m.is_rgbx(x) is True and m.is_rgb(x) is (nch == 3) and m.is_rgba(x) is (nch == 4), "predicates")
    for x in (rsrc, a):
        t.check(not m.is_rgbx(x) and not m.is_rgb(x) and not m.is_rgba(x), "predicates on regular arrays")
    # plot friendly
    t.op("plot friendly")
    pf = m.rgbx2regular_array(src, plot_friendly=True)
    if item == 1:
        t.check(pf.dtype == reg.dtype and np.array_equal(pf, reg), "plot friendly changes 8-bit data")
    else:
        t.check(pf.dtype == np.float64 and np.array_equal(np.rint(pf * 65535), reg) and (not pf.size or (pf.min() >= 0 and pf.max() <= 1)),
                "plot friendly is not the normalised array")
    t.check(np.array_equal(keep, rsrc), "plot friendly changed its argument")


def f_other(t, c):
    """Arrays which are not RGB are left alone or refused."""
    m = M()
    dt = np.dtype([(n, c["fmt"]) for n in c["names"]]) if c["names"] else np.dtype(c["fmt"])
    a = np.zeros(c["shape"], dt)
    known = dt in list(m.RGB_DTYPES.values())
    t.op("predicates")
    t.check(bool(m.is_rgbx(a)) == known, lambda: "is_rgbx(%s) is %s" % (dt, m.is_rgbx(a)))
    t.check(m.is_rgb(a) + m.is_rgba(a) == int(known), "is_rgb and is_rgba are exclusive and cover is_rgbx")
    if not known:
        t.op("rgbx2regular_array")
        r = m.rgbx2regular_array(a)
        t.check(r.dtype == dt and r.shape == a.shape, "array which is not RGB was changed")
    if dt.names is None:
        ok = dt in (np.dtype("u1"), np.dtype("u2")) and a.ndim and a.shape[-1] in (3, 4)
        t.op("regular_array2rgbx")
        try:
            r = m.regular_array2rgbx(a)
        except (ValueError, IndexError):
            t.check(not ok, "convertible array refused")
        else:
            t.check(ok, lambda: "array of %s and shape %s accepted as RGB" % (dt, a.shape))


def parts(tier):
    th = tier == "thorough"
    shapes = SHAPES + ([(5, 7), (2, 3, 4), (1, 1, 1, 1), (2, 1, 2, 1, 2), (3, 0, 2)] if th else [])
    return [
        Part("inverse", product(kind=KINDS, shape=sorted(set(shapes)), layout=LAYOUTS, lazy=[False, True]), f_round,
             "kind x shape x memory layout x lazy"),
        Part("others", [c for c in product(
            names=[None, "RGB", "RGBA", "BGR", "ABGR", "RG", "rgb", "RGBX", "RGBAB"[:4], "ARGB"],
            fmt=["u1", "u2", "i1", "<i2", ">u2", "u4", "f4", "?"],
            shape=[(3,), (2, 3), (2, 4), (2, 2), (2, 5), (1, 1), ()])], f_other,
            "other dtypes, names and channel counts")]
