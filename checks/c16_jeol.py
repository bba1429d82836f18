"""C16: event streams of JEOL pts files, for every option, frame list and shift."""
import itertools
import logging

import numpy as np

from mc import jeol as J
from mc.core import Part, product
from mc.sig import *

PROPERTY = "C16"
ASSUMPTIONS = [
    "a frame begins where the line number decreases, hence has at least two lines",
    "a frame is complete if its last line was started and, where the scanned image is recorded, its last pixel",
    "incomplete frames are left out unless only_valid_data=False, also when frames are summed (as the existing tests have it)",
    "widths and heights divide 4096; shifts are in pixels and channels of the result",
    "the type of lazily loaded data is not claimed (C10)"]
R = None
MS = J.DWELL / 1e3


def prepare(scratch):
    global R
    import dask

    dask.config.set(scheduler="sync")
    logging.getLogger("rsciio").setLevel(logging.ERROR)
    from rsciio.jeol import file_reader

    R = file_reader
    # compile for the types which are used, once
    import os

    p = os.path.join(scratch, "w.pts")
    w = J.events([{(0, 0): [1]}, {}], 2, 2, True)
    J.write(p, [x[0] for x in w], 2, 2, 2)
    for t in ("u1", "u2", "i4", "i1"):
        R(p, SI_dtype=np.dtype(t).type, only_valid_data=False)
    R(p, frame_list=[1, 0])
    R(p, True, frame_list=[1])
    J.write(p, [x[0] for x in w], 2, 2, 20)
    R(p)
    R(p, lazy=True)


def truth(meanings, w, h):
    """Per frame: counts, image and completeness, from the events which are in the file."""
    out = {}
    for m in meanings:
        if m is None:
            continue
        f = out.setdefault(m[1], {"n": [], "em": [], "line": -1, "pixel": -1, "has": False})
        if m[0] == "line":
            f["line"], f["pixel"] = m[2], -1
        elif m[0] == "pixel":
            f["pixel"] = m[3]
        elif m[0] == "em":
            f["em"].append(m[2:])
            f["has"] = True
        else:
            f["n"].append(m[2:])
    for f in out.values():
        f["complete"] = f["line"] == h - 1 and (f["pixel"] == w - 1 or not f["has"])
    return out


def expected(tr, w, h, sweep, frame_list=None, shifts=None, rebin_energy=1, downsample=1, cutoff_at_kV=None, sum_frames=True, only_valid_data=True, **kw):
    dw, dh = (downsample if isinstance(downsample, (tuple, list)) else (downsample, downsample))
    nch = 4096 // rebin_energy
    if cutoff_at_kV is not None:
        off, sc = J.COEF_B - J.COEF_A * J.DIGZ, J.COEF_A * rebin_energy
        nch = int(np.round((cutoff_at_kV - off) / sc))
    fl = frame_list if frame_list else range(sweep + 1)
    fl = [f for f in fl if 0 <= f <= sweep and (shifts is None or f < len(shifts))]
    sh = np.zeros((max(fl) + 1, 3), int) if shifts is None else np.array([list(s) + [0] * (3 - len(s)) for s in shifts])
    top, low = sh[fl].max(0), sh[fl].min(0)
    oh, ow = h // dh - (top - low)[0], w // dw - (top - low)[1]
    data, em = [], []
    for f in fl:
        if f not in tr or not (tr[f]["complete"] or not only_valid_data):
            continue
        d, e = np.zeros((oh, ow, nch), "i8"), np.zeros((oh, ow), "i8")
        dy, dx, dz = sh[f] - [top[0], top[1], 0]
        for y, x, c in tr[f]["n"]:
            k = (y // dh + dy, x // dw + dx, c // rebin_energy + dz)
            if 0 <= k[0] < oh and 0 <= k[1] < ow and 0 <= k[2] < nch:
                d[k] += 1
        for y, x, v in tr[f]["em"]:
            k = (y // dh + dy, x // dw + dx)
            if 0 <= k[0] < oh and 0 <= k[1] < ow:
                e[k] += v
        data.append(d)
        em.append(e)
    n = len(data)
    data = np.array(data).reshape((n, oh, ow, nch))
    em = np.array(em).reshape((n, oh, ow))
    if sum_frames:
        data, em = data.sum(0), em.sum(0)
    ys, xs = J.SCAN / J.MAG * 1e3 / (h // dh), J.SCAN / J.MAG * 1e3 / (w // dw)
    ax = [("y", oh, top[0] * ys, ys), ("x", ow, top[1] * xs, xs)]
    if not sum_frames:
        ax.insert(0, ("Frame", n, 0, MS * h * w))
    return data, em, ax, (nch, J.COEF_B - J.COEF_A * J.DIGZ, J.COEF_A * rebin_energy)


def compare(t, p, tr, w, h, sweep, what="", em=False, offsets=True, **o):
    what = "%s %s" % (what, o)
    sh = o.get("frame_shifts")
    want, wem, ax, en = expected(tr, w, h, sweep, shifts=sh, **{k: v for k, v in o.items() if k != "frame_shifts"})
    t.op(what)
    try:
        r = R(p, read_em_image=em, **o)
    except ValueError:
        # counts which do not fit are refused, also those of an incomplete frame, which is left out afterwards
        every = expected(tr, w, h, sweep, shifts=sh, **dict({k: v for k, v in o.items() if k != "frame_shifts"}, only_valid_data=False))[0]
        t.check(not o.get("lazy") and every.size and every.max() >= np.iinfo(o.get("SI_dtype", np.uint8)).max, lambda: "%s is refused" % what)
        return
    fl = o.get("frame_list") or range(sweep + 1)
    seen = any(tr[f]["has"] for f in fl if f in tr and f <= sweep)
    # whether an image comes without any frame that has one is not claimed
    t.check(len(r) in ((2,) if em and seen and (wem.size and wem.any()) else (1, 2) if em else (1,)), lambda: "%s: %d signals" % (what, len(r)))
    s = r[0]
    d = compute(s["data"])
    t.check(d.shape == want.shape, lambda: "%s: shape %s, expected %s" % (what, d.shape, want.shape))
    t.check(np.array_equal(d, want), lambda: "%s: %s" % (what, describe(want, d)))
    if not o.get("lazy"):
        t.check(d.dtype == np.dtype(o.get("SI_dtype", np.uint8)), lambda: "%s: dtype %s" % (what, d.dtype))

    def axes(got, wanted, what):
        t.check([a["name"] for a in got] == [a[0] for a in wanted], lambda: "%s: axes %s" % (what, [a["name"] for a in got]))
        t.check([a["size"] for a in got] == [a[1] for a in wanted], lambda: "%s: sizes %s" % (what, [a["size"] for a in got]))
        t.check(np.allclose([a["scale"] for a in got], [a[3] for a in wanted], rtol=1e-9), lambda: "%s: scales %s, expected %s" % (what, [a["scale"] for a in got], [a[3] for a in wanted]))
        if offsets:
            t.check(np.allclose([a["offset"] for a in got], [a[2] for a in wanted], rtol=1e-9), lambda: "%s: offsets %s, expected %s" % (what, [a["offset"] for a in got], [a[2] for a in wanted]))

    axes(s["axes"], ax + [("Energy", en[0], en[1], en[2])], what)
    if len(r) == 2:
        e = compute(r[1]["data"])
        t.check(e.shape == wem.shape, lambda: "%s: shape of the image %s, expected %s" % (what, e.shape, wem.shape))
        t.check(np.array_equal(e, wem), lambda: "%s: image %s" % (what, describe(wem, e)))
        axes(r[1]["axes"], ax, what + ": image")
    return s


PIXELS = [(), (0,), (5, 5, 4095), (300, 299)]


def f_streams(t, c):
    """All assignments of events to the pixels of a 2x2 image; the second frame is the first one turned."""
    p = t.path("s.pts")
    for k, tail in enumerate(itertools.product(range(len(PIXELS)), repeat=2)):
        px = [PIXELS[i] for i in list(c["head"]) + list(tail)]
        frames = [dict(zip(itertools.product((0, 1), (0, 1)), px[-i:] + px[:-i] if i else px)) for i in range(c["frames"])]
        for em in (False, True):
            ev = J.events(frames, 2, 2, em, ticks=k % 2 == 0)
            J.write(p, [e[0] for e in ev], 2, 2, len(frames))
            tr = truth([e[1] for e in ev], 2, 2)
            t.state(tuple(px), em, len(frames))
            for i, (s, l) in enumerate(itertools.product((True, False), (True, False))):
                # the large arrays are reduced in turn
                o = [dict(rebin_energy=16), dict(cutoff_at_kV=2.5), dict(rebin_energy=512, downsample=2), dict(downsample=(2, 1), cutoff_at_kV=1)][(i + k) % 4]
                compare(t, p, tr, 2, 2, len(frames), "events %s" % (px,), em=em, sum_frames=s, lazy=l, **o)


def f_cuts(t, c):
    """A measurement which is interrupted after any event."""
    w, h = c["shape"]
    frames = [{(y, x): [7 + f + 3 * y, 40] * ((x + y + f) % 3) for y in range(h) for x in range(w)} for f in range(2)]
    ev = J.events(frames, w, h, c["em"])
    p = t.path("s.pts")
    for n in range(1, len(ev) + 1):
        J.write(p, [e[0] for e in ev[:n]], w, h, c["sweep"])
        tr = truth([e[1] for e in ev[:n]], w, h)
        t.state(n, c["em"], w, h)
        for only, s, l in itertools.product((True, False), (True, False), (True, False)):
            compare(t, p, tr, w, h, c["sweep"], "first %d of %d events" % (n, len(ev)), em=c["em"], only_valid_data=only, sum_frames=s, lazy=l,
                    downsample=c["down"], cutoff_at_kV=0.4, rebin_energy=4)


def three(w, h, em, cut):
    frames = [{(y, x): [7 + f + 3 * y, 40, 40] * ((x + y + f) % 3) for y in range(h) for x in range(w)} for f in range(3)]
    ev = J.events(frames, w, h, em)
    if cut:
        ev = ev[:len(ev) - 2 * w]
    return ev


def f_lists(t, c):
    """Every list of frames, by itself and after another one has provided the positions of frames."""
    ev = three(2, 4, c["em"], c["cut"])
    p = t.path("s.pts")
    sweep = 3 - (c["cut"] and c["short"])
    J.write(p, [e[0] for e in ev], 2, 4, sweep)
    tr = truth([e[1] for e in ev], 2, 4)
    pos = [0] + [i for i, e in enumerate(ev) if e[1] and e[1][0] == "line" and e[1][1:] in ((1, 0), (2, 0))]
    for n in (1, 2, 3):
        for fl in itertools.product(range(5), repeat=n):
            if c["first"] is not None and n == 3:
                continue
            if min(fl) > sweep:
                continue
            t.state(fl, c["em"], c["cut"], sweep)
            for only, s, l in itertools.product((True, False), (True, False), (True, False)):
                o = {}
                if c["first"] is not None:
                    r = R(p, frame_list=list(c["first"]), cutoff_at_kV=0.4)[0]
                    idx = r["original_metadata"]["jeol_pts_frame_start_index"]
                    t.check(all(i == -1 or i == k for i, k in zip(idx, pos)) and idx[0] == 0, lambda: "positions %s, expected %s" % (idx, pos))
                    o["frame_start_index"] = list(idx)
                x = compare(t, p, tr, 2, 4, sweep, "frames %s" % (fl,), em=c["em"], frame_list=list(fl), only_valid_data=only, sum_frames=s, lazy=l, cutoff_at_kV=0.4, **{})
                if o:
                    y = R(p, frame_list=list(fl), only_valid_data=only, sum_frames=s, lazy=l, cutoff_at_kV=0.4, **o)[0]
                    t.check(np.array_equal(compute(x["data"]), compute(y["data"])), lambda: "frames %s differ if their positions are given: %s" % (fl, o))


def f_options(t, c):
    w, h = c["shape"]
    ev = three(w, h, True, c["cut"])
    p = t.path("s.pts")
    J.write(p, [e[0] for e in ev], w, h, 3)
    tr = truth([e[1] for e in ev], w, h)
    for ds in [1, 2, (1, 2), (2, 1), (2, 2), [4, 2], 4, (w, h)]:
        a, b = ds if not isinstance(ds, int) else (ds, ds)
        if w % a or h % b:
            t.op("not a divisor")
            try:
                R(p, downsample=ds)
            except ValueError:
                continue
            t.fail("downsample=%s of %dx%d pixels was accepted" % (ds, w, h))
        for reb, cut in itertools.product((1, 4, 64), (None, -0.5, 0.0, 1.0, 3.3, 20)):
            if reb == 1 and cut is None and w * h > 16 and c["dtype"] != "u1":
                continue
            t.state(ds, reb, cut, w, h)
            for s, l in itertools.product((True, False), (True, False)):
                compare(t, p, tr, w, h, 3, em=True, downsample=ds, rebin_energy=reb, cutoff_at_kV=cut, sum_frames=s, lazy=l, SI_dtype=np.dtype(c["dtype"]).type)


def f_shifts(t, c):
    """Every combination of shifts of two frames."""
    w, h = 4, 4
    frames = [{(y, x): [1 + f + 3 * y + x, 40] for y in range(h) for x in range(w)} for f in range(2)]
    ev = J.events(frames, w, h, True)
    p = t.path("s.pts")
    J.write(p, [e[0] for e in ev], w, h, 2)
    tr = truth([e[1] for e in ev], w, h)
    for b in itertools.product((-2, 0, 1), (-1, 0, 2), *([(-1, 0, 3)] if len(c["first"]) == 3 else [])):
        sh = [list(c["first"]), list(b)]
        t.state(sh)
        for s, l in itertools.product((True, False), (True, False)):
            compare(t, p, tr, w, h, 2, em=True, frame_shifts=sh, sum_frames=s, lazy=l, cutoff_at_kV=0.0)
        a = np.array(sh)
        compare(t, p, tr, w, h, 2, "shifts in an array", em=True, frame_shifts=a, cutoff_at_kV=0.0)
        t.check(a.tolist() == sh, lambda: "the array of shifts %s was changed to %s" % (sh, a.tolist()))
        compare(t, p, tr, w, h, 2, "one frame", em=True, frame_shifts=sh, frame_list=[1], cutoff_at_kV=0.0)
        compare(t, p, tr, w, h, 2, "one shift", em=True, frame_shifts=sh[:1], cutoff_at_kV=0.0)


def f_counts(t, c):
    """Counts around the limits of the type: exact, or refused."""
    p = t.path("s.pts")
    dt = np.dtype(c["dtype"]).type
    for n in c["counts"]:
        half = n // 2
        frames = [{(0, 1): [9] * half}, {(0, 1): [9] * (n - half)}]
        ev = J.events(frames, 2, 2)
        J.write(p, [e[0] for e in ev], 2, 2, 2)
        tr = truth([e[1] for e in ev], 2, 2)
        t.state(n)
        t.op("%d counts" % n)
        try:
            r = R(p, SI_dtype=dt, cutoff_at_kV=0.0)[0]
        except ValueError:
            t.check(n >= np.iinfo(dt).max, lambda: "%d counts are refused" % n)
        else:
            t.check(r["data"][0, 1, 9] == n, lambda: "%d counts: %s" % (n, r["data"][0, 1, 9]))
        if n < 65536:
            compare(t, p, tr, 2, 2, 2, lazy=True, cutoff_at_kV=0.0)


def f_images(t, c):
    """Sums of the scanned image do not overflow."""
    w, h = c["shape"]
    n = c["frames"]
    J_image, J.image = J.image, lambda f, y, x: 4095 - (y + x) % 2
    try:
        ev = J.events([{} for i in range(n)], w, h, True, ticks=False)
    finally:
        J.image = J_image
    p = t.path("s.pts")
    J.write(p, [e[0] for e in ev], w, h, n)
    tr = truth([e[1] for e in ev], w, h)
    for s, l in itertools.product((True, False), (True, False)):
        t.state(w, h, n, s, c["down"])
        compare(t, p, tr, w, h, n, em=True, downsample=c["down"], sum_frames=s, lazy=l, cutoff_at_kV=-0.9)


def parts(tier):
    deep = tier == "thorough"
    sh = list(product(first=list(itertools.product((-2, 0, 1), (-1, 0, 2), (-1, 0, 3))) + list(itertools.product((-2, 0, 1), (-1, 0, 2)))))
    return [
        Part("streams", list(product(head=list(itertools.product(range(4), repeat=2)), frames=[1, 2])), f_streams, timeout=300,
            bounds="all assignments of %d event strings to 4 pixels, 1-2 frames, with and without image" % len(PIXELS)),
        Part("interrupted", list(product(shape=[(2, 2), (4, 2), (2, 4)] + ([(4, 4), (8, 2)] if deep else []), em=[False, True], sweep=[2, 1], down=[1, 2])), f_cuts, timeout=300,
            bounds="two frames cut after every event"),
        Part("frames", list(product(em=[False, True], cut=[False, True], short=[False, True], first=[None, [0], [1], [2], [2, 0]])), f_lists, timeout=600,
            bounds="all lists of up to 3 of 5 frame numbers; all pairs of lists for given positions"),
        Part("options", list(product(shape=[(2, 2), (4, 2), (2, 4), (4, 4), (8, 4)], cut=[False, True], dtype=["u1", "u2", "i4"])), f_options, timeout=600,
            bounds="all combinations of downsampling, rebinning, cutoff, summing, laziness and types"),
        Part("shifts", sh, f_shifts, timeout=300, bounds="all pairs of shifts of -2..3 in two or three directions"),
        Part("counts", [dict(dtype="u1", counts=list(range(250, 262)) + [511, 512, 513]), dict(dtype="i1", counts=list(range(120, 135)) + [255, 256, 257]),
                        dict(dtype="u2", counts=[255, 256, 65534, 65535, 65536, 65537, 65538]), dict(dtype="i2", counts=[32766, 32767, 32768, 32769])], f_counts, timeout=300,
            bounds="numbers of counts around the limits of the types"),
        Part("images", list(product(shape=[(2, 2), (4, 4), (8, 4)], frames=[1, 2, 3, 5, 15, 16, 17, 20], down=[1, 2, (2, 4), (4, 4)])), lambda t, c: f_images(t, c) if not any(
            a % b for a, b in zip(c["shape"], c["down"] if isinstance(c["down"], tuple) else (c["down"],) * 2)) else t.op("no divisor"), timeout=120,
            bounds="1-20 frames of the largest values, summed over up to 16 pixels"),
    ]
