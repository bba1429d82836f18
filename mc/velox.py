"""Small Velox EMD files with given spectrum streams."""
import json

import h5py
import numpy as np

UNIX = "1500000000"
NAMES = ["SuperXG1", "SuperXG2", "SuperXG3", "SuperXG4"]


def _meta(index, name, shape, n=1):
    d = dict(
        Core={"MetadataDefinitionVersion": "7.9"},
        Instrument={"InstrumentClass": "Talos"},
        Acquisition={"AcquisitionStartDatetime": {"DateTime": UNIX}},
        Optics={"AccelerationVoltage": "200000", "CameraLength": "0.1"},
        Stage={"AlphaTilt": "0.1", "BetaTilt": "0.2", "Position": {"x": "1e-5", "y": "2e-5", "z": "3e-5"}},
        Scan={"ScanSize": {"width": str(shape[1]), "height": str(shape[0])}, "FrameTime": "2.5"},
        Detectors={"Detector-%d" % i: {"DetectorName": x, "Dispersion": "10", "OffsetEnergy": "-250", "ElevationAngle": "0.3",
                                       "AzimuthAngle": "0.7", "LiveTime": "1.5", "RealTime": "2.5", "Gain": "1", "Offset": "0"}
                   for i, x in enumerate(NAMES)},
        BinaryResult={"DetectorIndex": str(index), "Detector": "SuperX", "PixelSize": {"width": "2e-9", "height": "3e-9"},
                      "Offset": {"x": "-4e-9", "y": "-6e-9"}, "PixelUnitX": "m", "PixelUnitY": "m"},
        CustomProperties={"StemMagnification": {"value": "1000"}})
    raw = json.dumps(d).encode()
    a = np.zeros((4096, n), "u1")
    for i in range(n):
        a[:len(raw), i] = np.frombuffer(raw, "u1")
    return a


def _str(g, name, s):
    g.create_dataset(name, data=np.array([s if isinstance(s, str) else json.dumps(s)], dtype=object), dtype=h5py.string_dtype())


def write(path, streams, shape, bincount, frames=None, images=1, dtype="uint16", version="11", stack=None, shapes=None):
    """streams: one list of numbers per detector; frames: as stated in the settings (None: not stated)."""
    with h5py.File(path, "w") as f:
        _str(f, "Version", {"format": "Velox", "version": version})
        d = f.create_group("Data")
        g = d.create_group("Image")
        for i in range(images):
            sh = (shapes or {}).get(i, shape)
            s = g.create_group("%032x" % (i + 1))
            n = stack or 1
            a = np.arange(sh[0] * sh[1] * n, dtype="u2").reshape((n,) + tuple(sh)) + 7 * i
            s.create_dataset("Data", data=np.moveaxis(a, 0, 2), chunks=tuple(sh) + (1,))
            s.create_dataset("Metadata", data=_meta(0, "HAADF", sh))
        si = d.create_group("SpectrumImage").create_group("a" * 32)
        if frames is not None:
            _str(si, "SpectrumImageSettings", {"startFramePosition": "1", "endFramePosition": str(frames)})
        st = d.create_group("SpectrumStream")
        for i, x in enumerate(streams):
            s = st.create_group("%032x" % (i + 0x100))
            s.create_dataset("Data", data=np.array(x, "u2").reshape(-1, 1))
            s.create_dataset("Metadata", data=_meta(i, NAMES[i], shape))
            _str(s, "AcquisitionSettings", {"encoding": "uint16", "bincount": str(bincount), "StreamEncoding": dtype})
        if int(version) >= 11:
            r = f.create_group("SharedProperties")
            q = f.create_group("Displays/ImageDisplay")
            k = r.create_group("ImageSeriesDataReference")
            for i in range(images):
                _str(k, "%032x" % (0x200 + i), {"dataPath": "/Data/Image/%032x" % (i + 1)})
                _str(q, "%032x" % (0x300 + i), {"data": "/SharedProperties/ImageSeriesDataReference/%032x" % (0x200 + i), "id": "HAADF%d" % i, "title": "x"})
            _str(r.create_group("EDSSpectrumQuantificationSettings"), "e" * 32, {"elementSelection": ["26", "8"]})
        else:
            q = f.create_group("Presentation/Displays/ImageDisplay")
            o = f.create_group("Operations/StemInputOperation")
            for i in range(images):
                _str(q, "%032x" % (0x300 + i), {"dataPath": "/Data/Image/%032x" % (i + 1), "display": {"label": "HAADF%d" % i}})
                _str(o, "%032x" % (0x400 + i), {"dataPath": "/Data/Image/%032x" % (i + 1), "detector": "HAADF%d" % i})
            _str(f.create_group("Operations/ImageQuantificationOperation"), "e" * 32, {"elementSelection": ["26", "8"]})


def encode(full):
    """Stream of a list of pixels, each a list of channels (without the final mark)."""
    out = []
    for p in full:
        out += list(p) + [65535]
    return out
