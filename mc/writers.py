"""One small signal (or more) for every writer, with keyword arguments."""
import numpy as np

from mc.sig import axes_for, fill, layout, signal

MD = {"General": {"title": "Tïtle", "date": "2024-02-03", "time": "04:05:06", "time_zone": "UTC", "notes": "n"},
      "Signal": {"signal_type": "", "quantity": "Intensity (Counts)"},
      "Acquisition_instrument": {"TEM": {"beam_energy": 200.0, "magnification": 5000.0, "camera_length": 110.0, "beam_current": 0.5,
                                         "Stage": {"tilt_alpha": 1.5, "x": 0.1}, "Detector": {"EDS": {"live_time": 2.5, "elevation_angle": 20.0}}}},
      "Sample": {"elements": ["Al", "Fe"], "weights": np.array([1.5, 2.5])}}
OM = {"a": {"b": [1, 2, 3], "c": "text", "d": np.arange(4.0)}, "e": (1.5, "x")}

# plugin, extension, [(shape, signal dimension, dtype)], [keyword arguments]
WRITERS = [
    ("blockfile", "blo", [((3, 4, 4), 2, "u1"), ((2, 3, 4, 4), 2, "u1"), ((4, 4), 2, "u1")], [{}, dict(navigator="array"), dict(endianness=">")]),
    ("blockfile", "blo", [((2, 3, 4, 4), 2, "u2")], [dict(intensity_scaling="minmax")]),
    ("digitalsurf", "sur", [((3, 4), 2, "f4"), ((3, 4), 2, "i2"), ((5,), 1, "f8"), ((2, 3, 4), 1, "f4"), ((2, 3, 4), 2, "i4")], [{}, dict(set_comments="off"), dict(compressed=False)]),
    ("emd", "emd", [((3, 4), 2, "f4"), ((2, 3, 4), 2, "u2"), ((5,), 1, "f8"), ((2, 3, 4, 5), 2, "i4")], [{}]),
    ("hspy", "hspy", [((3, 4), 2, "f4"), ((2, 3, 4), 1, "u2"), ((5,), 1, "c16"), ((2, 3), 0, "U4"), ((2, 3), 2, "rgb8")], [{}, dict(compression=None), dict(chunks=(1, 2))]),
    ("zspy", "zspy", [((3, 4), 2, "f4"), ((2, 3, 4), 1, "u2"), ((5,), 1, "c16")], [{}]),
    ("image", "png", [((3, 4), 2, "u1"), ((3, 4), 2, "rgb8"), ((3, 4), 2, "u2")], [{}, dict(scalebar=True), dict(output_size=16)]),
    ("image", "jpg", [((8, 8), 2, "u1")], [{}]),
    ("mrcz", "mrcz", [((3, 4), 2, "f4"), ((2, 3, 4), 2, "i2"), ((3, 4), 2, "c8")], [{}, dict(endianness=">")]),
    ("msa", "msa", [((6,), 1, "f4"), ((6,), 1, "f8"), ((3,), 1, "i4")], [{}, dict(format="XY"), dict(separator=",")]),
    ("nexus", "nxs", [((3, 4), 2, "f4"), ((2, 3, 4), 1, "u2")], [{}, dict(save_original_metadata=False), dict(use_default=True)]),
    ("numpy", "npy", [((3, 4), 2, "f4"), ((2, 3, 4), 1, "u2")], [{}]),
    ("pantarhei", "prz", [((3, 4), 2, "f4"), ((2, 3, 4), 1, "u2"), ((5,), 1, "f8")], [{}]),
    ("ripple", "rpl", [((5,), 1, "f4"), ((3, 4), 2, "u2"), ((2, 3, 4), 1, "i4"), ((2, 3, 4), 2, "f8")], [{}]),
    ("ripple", "rpl", [((4,), 1, "f4")], [dict(encoding="utf8")]),
    ("semper", "unf", [((5,), 1, "f4"), ((3, 4), 2, "i1"), ((2, 3, 4), 1, "f4"), ((3, 4), 2, "i4"), ((2, 3, 4), 2, "c8")], [{}]),
    ("tiff", "tif", [((3, 4), 2, "f4"), ((2, 3, 4), 2, "u2"), ((3, 4), 2, "rgb8")], [{}, dict(compression="zlib"), dict(description="d")]),
    ("tvips", "tvips", [((3, 4, 4), 2, "u2"), ((2, 2, 4, 4), 2, "u1"), ((4, 4), 2, "u2")], [{}, dict(max_file_size=1500), dict(version=2)]),
]
RGB8 = np.dtype([("R", "u1"), ("G", "u1"), ("B", "u1")])


def make(shape, nsig, dtype, lay="C", lazy=False, md=None, plugin=None):
    import copy

    import dask.array as da

    a = layout(fill(shape, RGB8 if dtype == "rgb8" else dtype), lay)
    if a.dtype.kind == "f":
        a = layout((np.arange(a.size, dtype=a.dtype).reshape(shape) * a.dtype.type(1.25) - 3), lay)
    if lazy:
        a = da.from_array(a, chunks=tuple(max(1, s // 2) for s in shape))
    axes = axes_for(shape, nsig)
    if plugin == "tvips":
        # offsets are stored as unsigned numbers
        for x in axes:
            x["offset"] = abs(x["offset"])
    if plugin == "image":
        # a scale bar needs the same calibration along both axes
        for x in axes[-2:]:
            x.update(scale=0.5, units="nm")
    return signal(a, nsig, axes, metadata=copy.deepcopy(MD if md is None else md), original_metadata=OM)


def cases(layouts=("C",), lazies=(False,), every=True):
    for plugin, ext, sigs, kws in WRITERS:
        for i, (shape, nsig, dtype) in enumerate(sigs):
            for j, kw in enumerate(kws):
                if i and j and not every:
                    continue
                if "chunks" in kw and len(shape) != 2:
                    continue
                if ("scalebar" in kw or "output_size" in kw) and dtype == "rgb8":
                    pass
                for lay in layouts:
                    for lazy in lazies:
                        yield dict(plugin=plugin, ext=ext, shape=shape, nsig=nsig, dtype=dtype, kw=kw, layout=lay, lazy=lazy)
