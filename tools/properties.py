"""Writes /verif/properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Native HDF5/Zarr files return the array and axes that were written",
  "Writing a signal to the native hspy or zspy format and reading it back, eagerly or lazily, returns an array with the same values, dtype and shape, and the same list of axes with every axis attribute and the same order. This holds for every numeric, boolean, string, structured or ragged (object) array, every memory layout and byte order, and whatever chunking, compression, store type or dask chunking was requested.",
  ["inputs", "configurations"],
  "every (container, dtype, shape up to 4 dimensions including empty and single-element ones, memory layout, numpy/dask source and its chunking, chunks option, compression option, lazy or eager read)",
  "The tests write a handful of shapes with one or two dtypes each; combinations of layout, chunks, byte order and source kind are sampled once.",
  ["rsciio/_hierarchical.py", "rsciio/hspy/_api.py", "rsciio/zspy/_api.py"],
  [("overwrite_dataset / _store_data / get_signal_chunks", "rsciio/_hierarchical.py"), ("flatten_data / unflatten_data", "rsciio/_hierarchical.py"), ("group2signaldict axes loop", "rsciio/_hierarchical.py")],
  observe=["hspy.file_writer/file_reader", "zspy.file_writer/file_reader"])
p("C02", "Native files return the metadata trees that were written",
  "A metadata, original metadata, attribute or learning-results tree made of nested dictionaries, lists, tuples, strings, bytes, numbers, booleans, None and arrays is returned by reading a native hspy or zspy file with the same keys, the same nesting, the same order of every sequence and equal values. No entry is lost, duplicated, merged with a sibling or reordered; the only conversions are numpy's (mixed text and numbers in one flat sequence become text, byte strings without null become text).",
  ["inputs"],
  "every tree built from the value alphabet up to nesting depth 3, sequences of length 0 to 13, in every position (metadata, original metadata, attributes, learning results, axes, models)",
  "The tests check a few hand-written trees; element order in long sequences, and combinations of container types, are never enumerated.",
  ["rsciio/_hierarchical.py"],
  [("dict2group / parse_structure key encodings", "rsciio/_hierarchical.py"), ("_group2dict decodings", "rsciio/_hierarchical.py")],
  observe=["hspy.file_reader", "zspy.file_reader"])
p("C03", "Native files always hold the result of the last acknowledged operations",
  "After any sequence of native hspy or zspy writes, whole-file overwrites, metadata-only updates, lazy opens, partial computations of lazily opened data and refused or failing writes, reading the file returns exactly the data and axes of the last acknowledged full write with the metadata of the acknowledged updates. A refused operation leaves the file as it was, and no operation leaves a handle behind that makes a later acknowledged operation fail.",
  ["histories", "fault_sequences"],
  "every operation sequence up to depth 4 over two files and two signals of equal and different shapes, with a failing data source injected at every chunk",
  "The tests run fixed two-step histories; interleavings of open lazy handles, overwrites, metadata-only updates and failures are not reachable by them.",
  ["rsciio/hspy/_api.py", "rsciio/zspy/_api.py", "rsciio/_hierarchical.py", "rsciio/utils/file.py"],
  [("lazy handle registry", "rsciio/hspy/_api.py:_lazy_file_handles"), ("mode selection and read-only refusal", "rsciio/hspy/_api.py:file_writer"), ("handle discovery in the dask graph", "rsciio/utils/file.py:get_file_handle")],
  state=[("_lazy_file_handles", "open handles by absolute path", "rsciio/hspy/_api.py")],
  observe=["hspy", "zspy"])
p("C04", "Flat binary formats round-trip every supported array with its axes",
  "Every array that the ripple, semper, numpy, mrcz or prz (PantaRhei) writer accepts is returned by the corresponding reader with the same shape, values and number kind, whether read lazily or eagerly, together with axis sizes, and, where the format stores them, offsets, scales and units attributed to the same axis. An array the format cannot represent is refused, never stored altered (mrcz stores double precision as single precision, as its library documents; dimensions of size 1 may be squeezed). Titles, dates and the metadata for which a format has a field come back under the key they had.",
  ["inputs", "configurations"],
  "every (format, dtype of either byte order, shape up to 3-4 dimensions, memory layout, navigation/signal split, calibrated or uncalibrated axes, lazy or eager source and read)",
  "The tests use one or two shapes and native contiguous arrays per format.",
  ["rsciio/ripple/_api.py", "rsciio/semper/_api.py", "rsciio/numpy/_api.py", "rsciio/mrcz/_api.py", "rsciio/pantarhei/_api.py"],
  [("ripple header keys and data order", "rsciio/ripple/_api.py"), ("semper label/row blocks", "rsciio/semper/_api.py"), ("npy header parsing for lazy reads", "rsciio/numpy/_api.py")],
  observe=["file_writer then file_reader"])
p("C05", "Scanning-diffraction files round-trip frames, order and scan geometry",
  "Every stack of frames that the blockfile or tvips writer accepts is returned by the reader with the same frames in the same scan positions, eager or lazy, for every scan shape, frame shape, dtype, number of files the series is split into and reader scan option. Reordering and cropping options return exactly the corresponding permutation and sub-block of the full read. Calibrations, time stamps, stage positions, header fields and notes come back with the values they were written with.",
  ["inputs", "configurations"],
  "every (scan shape, frame shape, dtype, endianness, version, file-splitting limit, scan shape/start/hysteresis/winding option, lazy or eager) in the bounds",
  "The tests read a few stored files; splitting, offsets, winding and hysteresis are checked for single values and seldom combined.",
  ["rsciio/blockfile/_api.py", "rsciio/tvips/_api.py", "rsciio/utils/_distributed.py"],
  [("block offset and 6-byte frame headers", "rsciio/blockfile/_api.py"), ("file splitting and scan start/stop detection", "rsciio/tvips/_api.py")],
  observe=["file_writer then file_reader"])
p("C06", "HDF5 interchange formats round-trip data, axes and metadata",
  "Signals written to the NeXus, EMD (NCEM) or USID format are returned by the corresponding reader with the same values, shape, dtype and per-axis size, scale, offset, name and units, eager or lazy and for any chunking, and several signals written to one file stay separate. Metadata stored with the signal comes back at the place the reader documents with equal values. Reader options that select datasets or metadata by key, path or kind of link return exactly the matching ones.",
  ["inputs", "configurations"],
  "every (format, dtype, shape/navigation split, calibrated axes, chunks option, lazy source, lazy read, number of signals) in the bounds",
  "The tests write one small signal per option.",
  ["rsciio/nexus/_api.py", "rsciio/emd/_emd_ncem.py", "rsciio/usid/_api.py"],
  [("axes to NXdata indices", "rsciio/nexus/_api.py"), ("dim datasets", "rsciio/emd/_emd_ncem.py"), ("dimension order and reshaping to 2-D main dataset", "rsciio/usid/_api.py")],
  observe=["file_writer then file_reader"])
p("C07", "TIFF and image files round-trip pixels, axes order and calibration",
  "A stack, image or RGB(A) image written to TIFF, or to a lossless image format for the dtypes it accepts, is returned by the reader with the same pixel values, shape, axis order and, where the file stores it, calibration, eager or lazy. Reading options that select pages or return several datasets return the corresponding parts of the full file. Calibration and settings in the private tags of vendors are assigned to the axis and quantity they describe.",
  ["inputs", "configurations"],
  "every (dtype incl. RGB types, shape up to 4 dimensions, axes order and calibration, export options, lazy or eager, multi-page options) in the bounds",
  "The tests use single shapes with a few dtypes.",
  ["rsciio/tiff/_api.py", "rsciio/image/_api.py", "rsciio/utils/rgb.py"],
  [("axes string and ImageDescription/hyperspy tags", "rsciio/tiff/_api.py"), ("rgb conversion and lazy loading", "rsciio/image/_api.py")],
  observe=["file_writer then file_reader"])
p("C08", "Digital Surf files round-trip surfaces, series and spectra",
  "Every signal that the Digital Surf writer accepts is returned by the reader with values equal up to one quantisation step of the stored integer size and with the same shape, axis sizes, offsets, scales, units and names. Compressed and uncompressed files, any number of objects in a series and any comment length decode to the same signal.",
  ["inputs", "configurations"],
  "every (object kind, dtype, shape, special values, compressed or not, saturated or not, metadata/comment length) in the bounds",
  "The tests cover one shape per object kind.",
  ["rsciio/digitalsurf/_api.py"],
  [("normalisation and bitpacking of points", "rsciio/digitalsurf/_api.py"), ("compressed stream layout", "rsciio/digitalsurf/_api.py")],
  observe=["digitalsurf.file_writer/file_reader"])
p("C09", "EMSA/MSA spectra round-trip and parse independently of layout and history",
  "A one-dimensional signal written to an MSA file in any supported layout and encoding is read back with equal counts, axis offset, scale, size and units and the same mapped metadata. What is read or written does not depend on which signals or files were processed earlier, and writing does not modify the signal passed in.",
  ["inputs", "configurations", "histories"],
  "every (length, dtype, layout XY/Y, separator, encoding, signal type, mapped keyword subset) in the bounds and every ordered history of up to three read/write operations over signals of different kinds",
  "Tests use one spectrum per option in a fixed order within one process.",
  ["rsciio/msa/_api.py"],
  [("keyword mapping table", "rsciio/msa/_api.py:keywords"), ("parse_msa_string", "rsciio/msa/_api.py")],
  observe=["msa.file_writer/file_reader"])
p("C10", "Lazy reading returns the same data, axes and metadata as eager reading",
  "For every reader that supports lazy loading, every file and every combination of its options, computing the lazily loaded data (a reader may read small parts of a file at once) gives the array that eager loading returns, with the same dtype, shape, axes and metadata, whatever chunking is requested and whichever part of the lazy array is computed first or alone.",
  ["inputs", "configurations"],
  "every (corpus or synthetic file of every lazy reader, option set, chunking specification, sub-block order) in the bounds",
  "Tests compare lazy and eager for some files with the default chunks only.",
  ["rsciio/utils/_distributed.py", "rsciio/digitalmicrograph/_api.py", "rsciio/edax/_api.py", "rsciio/mrc/_api.py", "rsciio/empad/_api.py", "rsciio/tia/_api.py", "rsciio/bruker/_api.py", "rsciio/tvips/_api.py", "rsciio/quantumdetector/_api.py"],
  [("memmap_distributed", "rsciio/utils/_distributed.py"), ("per-plugin lazy branches", "rsciio/*/_api.py")],
  observe=["file_reader(lazy=True) vs file_reader(lazy=False)"])
p("C11", "Distributed memory mapping equals plain memory mapping for any chunking",
  "Mapping a binary file as a lazy array with any offset, shape, dtype (including structured fields), memory order, chunk specification and position list gives the same array as mapping the whole file at once and taking the same positions. Chunk planning always yields a partition of the requested shape that respects the requested specification and the block-size limit.",
  ["inputs", "configurations"],
  "every (shape up to 4 dimensions, dtype, structured key, order, offset, chunks specification, block-size threshold, positions table) in the bounds",
  "The tests use three shapes with fixed chunks.",
  ["rsciio/utils/_distributed.py"],
  [("get_chunk_slice / slice_memmap / memmap_distributed", "rsciio/utils/_distributed.py")],
  observe=["utils.distributed functions", "readers with chunks="])
p("C12", "Lazy chunks and independent operations give the same result on every schedule",
  "Whatever the interleaving of threads that compute chunks of lazily loaded data, or that read and write independent files concurrently, every operation returns the result it returns when run alone. In particular no chunk task and no reader or writer observes a file position, cache or table that another one changed.",
  ["schedules"],
  "all interleavings with at most the stated number of preemptions of two or three concurrent operations (chunk computations of one lazy array, or reads and writes of distinct files)",
  "Tests run with whichever schedule the OS picks on tiny files.",
  ["rsciio/utils/_distributed.py", "rsciio/image/_api.py", "rsciio/tia/_api.py", "rsciio/tiff/_api.py", "rsciio/bruker/_api.py", "rsciio/msa/_api.py", "rsciio/hspy/_api.py", "rsciio/utils/file.py"],
  [("per-task file opening", "rsciio/utils/_distributed.py:slice_memmap"), ("lazy handle registry lock", "rsciio/hspy/_api.py"), ("module-level tables", "rsciio/msa/_api.py")],
  observe=["computed arrays and returned dictionaries"])
p("C13", "Reading and writing have no side effects on inputs, files or later calls",
  "Reading never changes the file read, and writing never changes the signal dictionary passed in (data, axes or metadata) nor any file other than the one named. The result of every read or write is the same whatever other operations of any plugin were executed before it in the same process.",
  ["histories", "inputs"],
  "every writer on every signal of the alphabet, every reader on every corpus file, and every ordered pair of operations over the representative set",
  "Tests never compare inputs before and after, and run operations in one fixed order.",
  ["rsciio/*/_api.py", "rsciio/_hierarchical.py", "rsciio/utils"],
  [("copies of metadata and axes", "rsciio/*/_api.py")],
  observe=["signal dictionary before/after", "file hash before/after", "results in different histories"])
p("C14", "Damaged or interrupted input is contained",
  "When a file is truncated or an I/O error occurs while it is read, the reader either raises an ordinary exception or returns data that agree with the intact file wherever that part of the file is present; it never hangs, crashes or returns other values. Missing parts are left out or given as fill values (0 or NaN), and the counts of an event stream that is cut short are at most those of the intact one. After a failed read or write no file handle of that file stays open (once the exception is dropped), the signal being written is unchanged, and a subsequent read of the intact file, or writing once more over the remains, succeeds with the full result. An interrupted writer leaves something that is refused or read as far as it was written.",
  ["fault_sequences", "crash_points"],
  "every truncation point of small files of each format up to a stride, and an I/O failure at every call to the file layer",
  "Tests contain two or three hand-made damaged files.",
  ["rsciio/blockfile/_api.py", "rsciio/tia/_api.py", "rsciio/mrc/_api.py", "rsciio/digitalmicrograph/_api.py", "rsciio/msa/_api.py", "rsciio/ripple/_api.py", "rsciio/semper/_api.py"],
  [("size checks and context managers", "rsciio/*/_api.py")],
  observe=["exceptions, arrays, /proc/self/fd"])
p("C15", "Bruker hypermaps decode exactly, compiled or not, under every option",
  "The hypermap decoded from a Bruker spectrum-image stream equals the counts the stream encodes for every packing the stream can use, and the compiled and pure-Python decoders give the same array. Energy cutoff, integer downsampling and lazy options return exactly the corresponding truncation, block sum or deferred version of the full map, without overflow.",
  ["inputs", "configurations"],
  "every stream built from the pixel-packing alphabet on small maps, times (downsample, cutoff, lazy) options, for both decoders",
  "Tests decode four stored maps with fixed options.",
  ["rsciio/bruker/_api.py", "rsciio/bruker/unbcf_fast.pyx"],
  [("bin_to_numpy / parse_to_numpy", "rsciio/bruker/unbcf_fast.pyx"), ("py_parse_hypermap", "rsciio/bruker/_api.py")],
  observe=["bruker.file_reader", "decoders"])
p("C16", "JEOL event streams decode exactly and options commute with slicing",
  "The spectrum image decoded from a JEOL event stream counts every X-ray event in exactly its pixel, energy channel and frame, and each scanned-image event likewise. Summing or listing frames, rebinning energy, downsampling pixels, cutting off the energy, restricting to available frames, and lazy loading return exactly the corresponding reduction of the fully decoded data.",
  ["inputs", "configurations"],
  "every event sequence up to a small length over the event alphabet and every option combination",
  "Tests decode a few stored files with a few option sets.",
  ["rsciio/jeol/_api.py"],
  [("_readcube / _readcube_lazy / frame scanning", "rsciio/jeol/_api.py")],
  observe=["jeol.file_reader"])
p("C17", "Velox spectrum streams decode exactly for every frame and rebin option",
  "The spectrum image decoded from a Velox stream counts every event in its pixel, channel and frame. Dense and sparse (lazy) decoding agree, and the first-frame, last-frame, frame-summing, energy-rebinning, dtype and detector-summing options return exactly the corresponding reduction of the fully decoded data.",
  ["inputs", "configurations"],
  "every event stream up to a small length over the stream alphabet, times all frame ranges and options",
  "Tests decode a few stored files; the large ones are absent here.",
  ["rsciio/utils/_fei_stream_readers.py", "rsciio/emd/_emd_velox.py"],
  [("dense and sparse stream readers", "rsciio/utils/_fei_stream_readers.py"), ("FeiSpectrumStream", "rsciio/emd/_emd_velox.py")],
  observe=["utils._fei_stream_readers", "emd.file_reader"])
p("C18", "Frame-range and scan-shape options select exactly the named frames",
  "For pixelated-detector and stack formats, reading with a frame range, scan shape, detector layout or memory-mapping option returns exactly the frames of the full read that the option names, arranged in the requested scan shape, for every detector depth and chip layout. An option that does not fit the file is refused or handled as documented, never by returning frames from other positions.",
  ["inputs", "configurations"],
  "every (frame count, header kind, bit depth, chip layout, first/last frame, navigation shape, lazy, memory-map) in the bounds",
  "Tests use a few stored files and ranges.",
  ["rsciio/quantumdetector/_api.py", "rsciio/mrc/_api.py", "rsciio/empad/_api.py", "rsciio/arina/_api.py", "rsciio/impulse/_api.py"],
  [("MIBProperties / load_mib_data / parse_exposures", "rsciio/quantumdetector/_api.py"), ("read_de_metadata_file / navigation_shape", "rsciio/mrc/_api.py")],
  observe=["file_reader, load_mib_data"])
p("C19", "DigitalMicrograph files decode to the tags and images they contain",
  "For every DM3 or DM4 file in either byte order, each tag is returned at its place with its encoded value, and every image with its encoded pixels, shape, complex/RGB/packed layout and calibration, eagerly or lazily.",
  ["inputs"],
  "every synthetic file over the tag alphabet (types, nesting, empty groups, unnamed tags) up to depth 3 and every image data type with 1-4 dimensions",
  "Tests use stored files of single shapes.",
  ["rsciio/digitalmicrograph/_api.py"],
  [("DigitalMicrographReader tag parser", "rsciio/digitalmicrograph/_api.py"), ("ImageObject data reading", "rsciio/digitalmicrograph/_api.py")],
  observe=["digitalmicrograph.file_reader"])
p("C20", "Every reader returns well-formed signals",
  "Every dictionary returned by any reader has data whose shape matches its axes one to one and in order, well-formed axes (integer sizes, finite scales and offsets or explicit axis vectors, names, units, navigation flags; indices in the array, where given for all axes, in order), and metadata that name the file read without its directory. Dates and times are ISO formatted where they are given so. Every selected signal, option combination and lazy mode satisfies this.",
  ["inputs", "configurations"],
  "every file of the corpus and of the synthetic alphabets, times the reader's option combinations",
  "Tests check these facts for some readers only.",
  ["rsciio/*/_api.py"],
  [("axes construction in each reader", "rsciio/*/_api.py")],
  observe=["file_reader"])
p("C21", "Path helpers never lose, collide with or overwrite files unasked",
  "Generated filenames are new, keep the extension and directory and differ from every existing file; an existing file is replaced only when the caller asked for it or the user agreed. Handles found for lazy data belong to the file that holds the data.",
  ["histories", "inputs"],
  "every directory state over a small set of names and every sequence of helper calls up to depth 4",
  "Tests use one or two names.",
  ["rsciio/utils/path.py", "rsciio/utils/file.py"],
  [("incremental_filename, append2pathname, overwrite, ensure_directory", "rsciio/utils/path.py")],
  observe=["rsciio.utils.path"])
p("C22", "RGB conversions are inverse on every array",
  "Converting between structured RGB(A) arrays and arrays with a trailing channel axis, in either direction, preserves every channel value, the array shape and the byte depth for every layout, eager or lazy, and the predicates describing such arrays agree with it.",
  ["inputs"],
  "every (channel count, depth, byte order, shape up to 4 dimensions, memory layout, eager/lazy and chunks)",
  "Tests check one or two shapes.",
  ["rsciio/utils/rgb.py"],
  [("regular_array2rgbx / rgbx2regular_array", "rsciio/utils/rgb.py")],
  observe=["rsciio.utils.rgb"])
p("C23", "Date and time conversions are inverse and zone-correct",
  "Converting metadata date and time to a serial date, ISO string or datetime64 and back returns the same date and time to the precision of the representation, for every date the formats can hold, with or without a time zone. Acquisition times read from files are those of the acquisition whatever the local time zone of the reading computer.",
  ["inputs"],
  "every date in the boundary set (leap years, month and epoch boundaries) times times-of-day and zones",
  "Tests check a couple of dates.",
  ["rsciio/utils/_date_time.py"],
  [("serial/ISO conversions", "rsciio/utils/_date_time.py")],
  observe=["rsciio.utils.date_time_tools"])
p("C24", "The plugin registry describes exactly what the plugins can do",
  "Every registered plugin exposes a reader, and a writer exactly when it is declared writable, under the declared module; what is declared (extensions, lazy support, writable dimensions) is accepted by calls on that plugin. Format names, aliases and lookups are unambiguous.",
  ["configurations", "inputs"],
  "every plugin, declared attribute, dimension combination (signal/navigation 0-3) and extension",
  "Tests check the presence of fields but not that calls agree with them.",
  ["rsciio/__init__.py", "rsciio/*/specifications.yaml"],
  [("IO_PLUGINS", "rsciio/__init__.py")],
  observe=["rsciio.IO_PLUGINS", "file_reader/file_writer of each plugin"])
p("C25", "XML metadata trees are converted without loss",
  "Converting an XML document to a dictionary keeps every element, attribute and text at its place, repeated elements in their order, with values translated as documented for every option of the converter, and formatting the inverse direction is consistent with it.",
  ["inputs", "configurations"],
  "every XML tree up to depth 3 and 3 children over a small tag/attribute/text alphabet times all converter options",
  "Tests convert two documents.",
  ["rsciio/utils/_xml.py", "rsciio/utils/xml.py"],
  [("XmlToDict", "rsciio/utils/_xml.py")],
  observe=["rsciio.utils.xml"])
p("C26", "Vendor spectra, maps and logs decode to the data and calibration they contain",
  "EDAX spectra, maps and line scans (with their side files), TIA series (.ser, .emi), Hamamatsu streak images, Jobin Yvon spectra and maps, DENS and Protochips logs are returned with every encoded value at its place, the encoded scale, offset, units and order of every axis, and the encoded dates and instrument settings. Acquisitions that were stopped early, side files that are absent, and either byte order or file version give the same values for the part that is present.",
  ["inputs", "configurations"],
  "every file built by independent encoders over the alphabets of shapes, types, byte orders, versions, side files and missing entries in the bounds",
  "Tests read a few stored files (those of EDAX and most of TIA only with a network).",
  ["rsciio/edax/_api.py", "rsciio/tia/_api.py", "rsciio/hamamatsu/_api.py", "rsciio/jobinyvon/_api.py", "rsciio/dens/_api.py", "rsciio/protochips/_api.py"],
  [("si_reader / spc_reader", "rsciio/edax/_api.py"), ("ser_reader / emi_reader", "rsciio/tia/_api.py"), ("IMGReader", "rsciio/hamamatsu/_api.py"), ("JobinYvonXMLReader", "rsciio/jobinyvon/_api.py")],
  observe=["file_reader"])
p("C27", "Opening an untrusted file never executes code stored in it",
  "Reading a file with any plugin never resolves or calls a function named by the file's content beyond the fixed list of array constructors, and never evaluates text from the file as code. Files that attempt it are refused or read as plain data, with no side effect.",
  ["inputs"],
  "every pickle opcode sequence up to the bound over the global-resolving opcodes for PantaRhei and npy/npz files, and payload text in every evaluated text field",
  "Tests try one or two malicious pickles.",
  ["rsciio/pantarhei/_restricted_unpickling.py", "rsciio/numpy/_api.py", "rsciio/netcdf/_api.py", "rsciio/msa/_api.py", "rsciio/ripple/_api.py"],
  [("restricted unpickler allow-list", "rsciio/pantarhei/_restricted_unpickling.py"), ("allow_pickle=False", "rsciio/numpy/_api.py")],
  observe=["file_reader"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
