"""Files of every supported instrument: those of the repository's test data
(copied to the scratch directory, archives unpacked) and some that are
generated.  corpus.json lists what is read from each of them, as found out once
by tools/mkcorpus.py; it does not depend on the code under test at run time."""
import glob
import gzip
import importlib.util
import json
import os
import shutil
import zipfile

import numpy as np

from mc.core import product

HERE = os.path.dirname(os.path.abspath(__file__))
DATA = "/repo/rsciio/tests/data"
ROOT = None


def build(dst):
    """Lay out the corpus in dst."""
    shutil.copytree(DATA, dst, ignore=lambda d, n: [x for x in n if x == "unzipped" or x.endswith((".npy", ".pyc"))])
    for z in glob.glob(os.path.join(glob.escape(dst), "**", "*.zip"), recursive=True):
        if ".zspy" in z:
            continue
        try:
            with zipfile.ZipFile(z) as f:
                f.extractall(os.path.dirname(z))
            os.unlink(z)
        except (zipfile.BadZipFile, OSError):
            pass
    for g in glob.glob(os.path.join(glob.escape(dst), "tiff", "*.gz")):
        with gzip.open(g) as f, open(g[:-3], "wb") as o:
            shutil.copyfileobj(f, o)
        os.unlink(g)
    for name, n in (("series_x10.raw", 166400), ("scan_x4_y4.raw", 4 * 4 * 130 * 128)):
        np.arange(n, dtype="float32").tofile(os.path.join(dst, "empad", name))
    g = "/repo/rsciio/tests/generate_tofwerk_test_files.py"
    os.makedirs(os.path.join(dst, "tofwerk"), exist_ok=True)
    spec = importlib.util.spec_from_file_location("gen_tofwerk", g)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    m.make_raw_fixture(os.path.join(dst, "tofwerk", "raw.h5"), 2, 3, 4, 5, 64)
    m.make_opened_fixture(os.path.join(dst, "tofwerk", "opened.h5"), 2, 3, 4, 5, 64)
    for root, ds, fs in os.walk(dst):
        for x in fs:
            os.chmod(os.path.join(root, x), 0o644)
    return dst


def prepare(scratch):
    global ROOT
    ROOT = build(os.path.join(scratch, "_corpus"))


def path(rel):
    return os.path.join(ROOT, rel)


def entries(**want):
    with open(os.path.join(HERE, "corpus.json")) as f:
        out = json.load(f)
    return [e for e in out if all(e[k] == v for k, v in want.items())]


def reader(plugin):
    return importlib.import_module("rsciio." + plugin)


CH = ()


def opts_of(plugin, path, shapes):
    """Every combination of the options of a reader (those which matter for the file)."""
    B = [False, True]
    P = {
        "bruker": dict(select_type=[None, "spectrum_image", "image"], downsample=[1, 2, 3], cutoff_at_kV=[None, 5], index=[None, 0, "all"]),
        "emd": dict(first_frame=[0, 1], last_frame=[None, 2], sum_frames=B, sum_EDS_detectors=B, rebin_energy=[1, 4], load_SI_image_stack=B, select_type=[None, "image", "single_spectrum", "spectrum_image"]) if "velox" in path or "SI" in path or "Test" in path else {},
        "tia": dict(only_valid_data=B),
        "jeol": dict(rebin_energy=[1, 4], sum_frames=B, downsample=[1, 2, [1, 2]], only_valid_data=B, read_em_image=B, cutoff_at_kV=[None, 3]),
        "digitalmicrograph": dict(order=[None, "C", "F"], optimize=B, chunks=CH),
        "tiff": dict(force_read_resolution=B, multipage_as_list=B),
        "renishaw": dict(use_uniform_signal_axis=B, load_unmatched_metadata=B),
        "trivista": dict(use_uniform_signal_axis=B, glued_data_as_stack=B, filter_original_metadata=B),
        "jobinyvon": dict(use_uniform_signal_axis=B),
        "mrc": dict(chunks=CH),
        "delmic": dict(signal=["cl", "survey", "SE", "anchor"]),
        "tvips": dict(scan_shape=[None, "auto"], winding_scan_axis=[None, "x", "y"], hysteresis=[0, 1, -1], scan_start_frame=[0, 1], rechunking=["auto", None]),
        "blockfile": dict(chunks=CH),
        "hamamatsu": dict(use_uniform_signal_axes=B),
        "quantumdetector": dict(chunks=CH, first_frame=[None, 1], last_frame=[None, -1]),
        "ripple": dict(chunks=CH),
        "empad": dict(remove_nans=B),
        "numpy": dict(chunks=CH),
        "pantarhei": dict(chunks=["auto"]),
        "nexus": dict(nxdata_only=B, use_default=B, skip_array_metadata=B, hardlinks_only=B),
        "topspin": dict(),
        "tofwerk": dict(signal=["sum_spectrum", "tic", "peak_data", "event_list", "fib_images", "all"], chunks=["auto", -1]),
        "mrcz": dict(mmap_mode=["c", "r"]),
        "quadstar": dict(use_uniform_signal_axis=B),
    }.get(plugin, {})
    if P.get("chunks") is CH:
        # a block for every part of the first dimension, where that makes sense
        n = shapes[0][0] if len(shapes) == 1 and shapes[0] else []
        P["chunks"] = ["auto", -1] + ([tuple([max(1, n[0] // 3)] + n[1:])] if n else [])
    return list(product(**P)) if P else [{}]


def options(deep, slow_s=0.15, pairs=2):
    """(entry, options that differ from the defaults): each file with the defaults
    first; files alike are read with one option at a time after the first of them."""
    seen = set()
    for e in entries():
        kin = (e["plugin"], str(e["eager"])[:200])
        most = 1 if e.get("t", 0) > slow_s or kin in seen or e["plugin"] in ("digitalmicrograph", "ripple") else pairs
        seen.add(kin)
        if e["path"].endswith("rawdata.ASW") and not deep:
            yield e, {}
            continue
        combos = opts_of(e["plugin"], e["path"], [] if isinstance(e["eager"], str) else e["eager"])
        for o in combos:
            diff = {k: v for k, v in o.items() if v != combos[0][k] or type(v) is not type(combos[0][k])}
            if deep or len(diff) <= most:
                yield e, diff
