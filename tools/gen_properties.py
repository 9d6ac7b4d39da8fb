"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": ["karabo_data/" + f for f in files],
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [{"name": n, "where": "karabo_data/" + w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None},
    })

prop("C01", "Per-train reading returns exactly the stored data of that train",
 "For every well-formed run, train_from_id, train_from_index and trains() return, for each selected source and key, exactly the values recorded for that train (a single entry without the leading axis, several entries stacked in order), and nothing at all for a key with no entry in that train; each source dict also carries its name and train ID as metadata. "
 "The three access paths agree with each other, trains() visits every selected train exactly once in ascending order, and asking for a train ID which is not in the data raises an error rather than returning other data. "
 "The devices / train_range arguments give the same result as selecting first.",
 ["inputs", "configurations"],
 "every run layout: numbers of sequence files and aggregators, train ID gaps, per-train entry counts 0/1/many, first/count and first/last/status indexes, both metadata versions, zero padding, dtypes and shapes",
 "Tests read a few fixed mock runs (constant counts, 480 consecutive trains, two sequence files split at one point) and look at a handful of trains; any offset error for uneven counts, gaps or other splits goes unseen.",
 ["reader.py"],
 [("DataCollection.train_from_id / train_from_index", "reader.py"), ("TrainIterator", "reader.py"), ("FileAccess.get_index", "reader.py")],
 ["return values of train_from_id, train_from_index, trains()"],
 [("index", "first/count of entries per train", "INDEX/<source>/<group>")])

prop("C02", "get_array returns every selected entry once, in order, correctly labelled",
 "get_array(source, key) returns the entries of the selected trains, each exactly once, in ascending train order and stored order within a train, with dtype and entry shape unchanged, and a trainId coordinate naming the train of every entry. "
 "Passing roi=by_index[...] gives exactly what NumPy indexing of the per-entry dimensions would give, and extra_dims names the remaining dimensions. A field whose entry shape or dtype differs between the selected files is refused rather than converted.",
 ["inputs", "configurations"],
 "every run layout and every train selection (contiguous, strided, lists, empty), every source kind, dtype, entry shape, and every integer/slice/ellipsis ROI",
 "Tests compare a few arrays of regular mock data; only two ROIs and no uneven counts or strided selections are exercised.",
 ["reader.py", "read_machinery.py"],
 [("DataCollection.get_array", "reader.py"), ("DataCollection._find_data_chunks", "reader.py"), ("contiguous_regions", "read_machinery.py")],
 ["DataArray values, dims, dtype and trainId coordinate"])

prop("C03", "get_dask_array computes to the same data as get_array",
 "For every source and key, computing get_dask_array(source, key), or any slice of it, gives exactly the values, dtype and shape which get_array (or direct HDF5 reading) gives for the same selection of trains, including selections for which some or all files have no entries.",
 ["inputs", "configurations"],
 "every run layout and train selection as for get_array",
 "One test with regular data and one selection compares shape and train IDs for a single source.",
 ["reader.py"],
 [("DataCollection.get_dask_array", "reader.py")],
 ["computed dask array"])

prop("C04", "Series and data frames hold each scalar once, on the right train and column",
 "get_series returns, for a one-dimensional field, each entry of the selected trains exactly once, indexed by its train ID (and by pulse ID where there are several entries per train), in ascending train order. "
 "get_dataframe returns one column for each selected one-dimensional field (without .timestamp fields unless asked), aligned on the train ID, with missing values exactly where a field has no entry.",
 ["inputs", "configurations"],
 "every run layout and selection restricted to 1-D fields (and per-pulse fields with pulse IDs), with fields present in different subsets of trains and files",
 "Tests check lengths and a few values for one regular file per detector; missing trains, gaps in instrument data and file boundaries are not covered.",
 ["reader.py"],
 [("DataCollection.get_series", "reader.py"), ("DataCollection.get_dataframe", "reader.py")],
 ["Series / DataFrame values and index"])

prop("C05", "get_data_counts reports the true number of entries of each train",
 "get_data_counts(source, key) returns a series which maps each selected train that the source's files cover to exactly the number of entries which get_array and per-train reading return for it, for control as well as instrument sources.",
 ["inputs", "configurations"],
 "every run layout, source kind and train selection",
 "One test checks one instrument key with constant counts.",
 ["reader.py"],
 [("DataCollection.get_data_counts", "reader.py")],
 ["Series index and values"])

prop("C06", "select and deselect are exact, compose by intersection, never widen",
 "Over any chain of select, deselect and select_trains calls, the resulting sources and keys are exactly those which a set model predicts: select (by glob pair, list of pairs or dict) keeps the currently selected fields which match, with the documented implied '.value' for control keys, and deselect removes them; nothing once dropped comes back. "
 "No operation changes the collection it is called on, and what the result reads for a remaining field equals what the original read. "
 "Patterns which match nothing, unknown source names and invalid selection types raise errors.",
 ["histories", "inputs"],
 "every sequence of selection operations with generated glob patterns, lists and dicts on generated runs",
 "Tests apply one or two fixed selections to one run; re-selection after narrowing, whole-source selections and interplay with deselect are unbounded histories.",
 ["reader.py", "read_machinery.py"],
 [("DataCollection.select / deselect / _expand_selection / _select_glob", "reader.py"), ("union_selections", "read_machinery.py")],
 ["all_sources, control_sources, instrument_sources, keys_for_source(), data read afterwards"],
 [("selection", "{source: set of keys or None for all}", "DataCollection.selection")])

prop("C07", "select_trains picks exactly the requested trains",
 "select_trains keeps exactly the trains that the request denotes: by_index follows Python slicing / indexing of the current ordered train list, by_id slices are half-open intervals of train IDs (bounds need not be present in the data), by_id lists keep those of the IDs which are present; the result is ordered and reads the same data as before for those trains. "
 "A range or list which cannot overlap the data raises ValueError, other argument types raise TypeError, and by_id / by_index objects repr back to the expression which made them.",
 ["inputs", "histories"],
 "all slices (start, stop, step; None, negative, out of range, in gaps), lists and arrays, repeated on already narrowed collections",
 "Tests use five fixed selections on a run whose train IDs have no gaps.",
 ["reader.py", "read_machinery.py"],
 [("DataCollection.select_trains", "reader.py"), ("_tid_to_slice_ix", "read_machinery.py"), ("_SliceConstructable", "read_machinery.py")],
 ["train_ids of the result and the data it reads, repr()"])

prop("C08", "union and file layout do not change what is read; conflicts are refused",
 "The same recorded data gives the same results however it is divided into sequence files and aggregator files, in whatever order the files are listed, and whether they are opened together or opened separately and joined with union() (which has exactly the union of trains, sources and keys). "
 "If two files hold the same source for the same train, opening or joining them raises ValueError instead of silently choosing one.",
 ["inputs", "configurations"],
 "every way to partition trains and sources of a run into files, every order and grouping of unions",
 "Tests join two fixed selections of one run; order- and partition-independence is a relation over all layouts.",
 ["reader.py", "read_machinery.py"],
 [("DataCollection.union", "reader.py"), ("DataCollection._check_source_conflicts", "reader.py"), ("union_selections", "read_machinery.py")],
 ["train_ids, sources, keys and data of the collections; ValueError"])

prop("C09", "Opening files finds exactly the sources, keys and trains recorded in them",
 "H5File, RunDirectory and open_run expose exactly the non-padding train IDs and the sources listed in the files' metadata (old and new metadata layout, empty entries ignored), classified as control or instrument, with exactly the dataset keys stored for each; include filters files by glob, other files are ignored. "
 "An unreadable or non-EuXFEL file is skipped with a message and does not affect the other files; if no usable or matching file is left an exception is raised. "
 "open_run resolves proposal and run numbers in all documented spellings (int, digits, prefixed, path) to the same directory and selects raw or proc.",
 ["inputs", "configurations"],
 "generated directories of well-formed, empty, truncated and foreign files, include patterns, metadata versions, proposal trees",
 "Tests open a few fixed examples with one bad file and one proposal layout.",
 ["reader.py", "read_machinery.py"],
 [("RunDirectory / open_run / DataCollection.from_paths", "reader.py"), ("FileAccess._read_data_sources / get_keys", "reader.py"), ("find_proposal", "read_machinery.py")],
 ["train_ids, control_sources, instrument_sources, keys_for_source, stderr, exceptions"])

prop("C10", "The run-map cache never changes what a run directory contains",
 "Over any history of adding, replacing, modifying, touching and removing data files, and of cache files being absent, stale, partial, corrupt or unwritable, opening a run directory gives the same trains, sources, keys and data as opening the same files without a cache. "
 "Failure to read or write a cache never makes opening fail, and a cache written by one open is usable by the next. "
 "A file which is replaced just after it was opened is not recorded with the time and size of its replacement, a failed write (disk full) leaves neither a damaged cache nor other files, a process which is reading the old cache is not disturbed by the new one, and a user who cannot write in the run directory gets a cache in the proposal's scratch directory.",
 ["histories", "fault_sequences"],
 "all histories of file changes (with changed size or modification time) interleaved with opens (also while a file is replaced, with a full disk, and by another user), with and without include filters, and injected cache faults",
 "Tests check one save and one load of a cache; staleness over histories and corrupt caches are not covered.",
 ["run_files_map.py", "reader.py"],
 [("RunFilesMap.load / get / save / is_my_cache", "run_files_map.py"), ("FileAccess(_cache_info)", "reader.py")],
 ["collections opened after each step, karabo_data_map.json"],
 [("karabo_data_map.json", "cached train IDs and sources per file, with mtime and size", "run directory or scratch directory")])

prop("C11", "write() produces a file which reads back identically and validates",
 "For every collection, including any selection of sources, keys and trains and unions where sources lack some trains, write() creates a EuXFEL-format file which opens to the same trains, sources and keys and reads back exactly the same data per train and per array. "
 "The file passes validation, writing over an existing file replaces it, and the source collection is unchanged.",
 ["inputs", "histories"],
 "every generated run and selection history before writing, and rewriting of the written file",
 "Tests write two fixed selections and check a few datasets' shapes.",
 ["writer.py", "reader.py"],
 [("FileWriter", "writer.py"), ("DataCollection.write", "reader.py")],
 ["the written file opened with H5File and h5py, FileValidator"])

prop("C12", "Virtual files and datasets give the same data as the original files",
 "write_virtual creates a file which opens to the same trains and (at least) the sources and keys which have data, and reads exactly the same data as the collection it was made from; get_virtual_dataset returns an open dataset with exactly the values of get_array for that field, in a file whose trains and indexes describe it correctly. "
 "The original files are not modified.",
 ["inputs", "histories"],
 "every generated run (uneven counts, gaps, any split into sequence files) and selection history",
 "Two tests with regular data check shapes and one comparison.",
 ["writer.py", "reader.py"],
 [("VirtualFileWriter", "writer.py"), ("DataCollection.get_virtual_dataset / write_virtual", "reader.py")],
 ["virtual dataset contents, H5File on the written file"])

prop("C13", "Validation accepts well-formed data and reports every documented defect",
 "Validating a well-formed file or run directory (with or without a cached files map) reports no problem and the command exits 0. "
 "After introducing any defect of the documented classes (zero train ID before the last, train IDs not increasing, index of an instrument or control source with fewer entries than train IDs or with mismatched parts, not starting at 0, with gaps or overlaps, referring to data beyond the end of a dataset, index or data of a listed source missing, file which cannot be opened, no usable file, wrong entry in the cached files map) the affected file and place are reported and the command's exit status is not 0. "
 "Validation reports every defective file rather than stopping or crashing at one, and never modifies the data.",
 ["inputs", "fault_sequences"],
 "every generated well-formed run, and every single (or combined) corruption of an applicable place in it",
 "The one test validates a known-good file only in that it expects a few fixed messages; the space of defects and places is unbounded.",
 ["validation.py"],
 [("FileValidator", "validation.py"), ("RunValidator", "validation.py"), ("main", "validation.py")],
 ["reported problems, ValidationError, exit status and output of karabo-data-validate"])

prop("C14", "Multi-module detector arrays put every frame at its module, train and pulse",
 "AGIPD1M / DSSC1M / LPD1M get_array returns an array in which each frame of the selected trains and pulses appears exactly once, at the module, train and pulse it was recorded for, with module numbers, train IDs and pulse IDs as labels; frames which were not recorded are filled (NaN for floating point results) and never hold other data. "
 "Pulse selections by ID or by index (slices, lists, numbers) keep exactly the matching frames of each train, modules= limits the modules, and min_modules keeps exactly the trains for which at least that many modules have data.",
 ["inputs", "configurations"],
 "every set of modules, per-module train gaps, per-train pulse counts and IDs, raw and corrected layouts, every pulse and module selection, trains selected before",
 "Tests use mock runs where all modules have identical trains and 128 pulses and check shapes.",
 ["components.py"],
 [("MPxDetectorBase.get_array", "components.py"), ("_get_module_pulse_data", "components.py"), ("_select_pulse_ids / _select_pulse_indices", "components.py")],
 ["DataArray values, dims and coordinates"])

prop("C15", "Iterating over detector trains gives the same frames as the whole array",
 "trains() on a multi-module detector yields, for each train in order, the image fields of all modules combined at their module position, restricted to the requested pulses, with train and pulse labels; every frame equals the recorded one and the sequence of trains is exactly the set of trains in which the modules' data are complete as documented. "
 "For fields get_array can read, the per-train results agree with it.",
 ["inputs", "configurations"],
 "the same space of detector runs and pulse selections, including trains without matching pulses or modules",
 "Tests look at the first train of a regular mock run.",
 ["components.py"],
 [("MPxDetectorBase.trains", "components.py"), ("MPxDetectorTrainIterator", "components.py")],
 ["yielded (train ID, data) pairs"])

prop("C16", "Virtual CXI files place every frame, mask and gain at its experiment index",
 "write_virtual_cxi (and the karabo-data-make-virtual-cxi command) writes a CXI file whose entry, data, mask, gain, experiment, pulse and cell identifiers all describe, at each index, the same frame of the same train and pulse, for every module, with exactly the frames of the selected trains; frames missing from a module are filled and never hold other frames' data. "
 "The layout of raw and corrected data follows the documentation for AGIPD, LPD and DSSC, and the source files are unchanged.",
 ["inputs", "configurations"],
 "generated detector runs: module subsets, missing trains per module, raw / corrected data, masks and gains present or not, command line options",
 "Tests check shapes for one complete run per detector.",
 ["write_cxi.py", "cli/make_virtual_cxi.py", "components.py"],
 [("VirtualCXIWriter", "write_cxi.py"), ("main", "cli/make_virtual_cxi.py"), ("write_virtual_cxi", "components.py")],
 ["contents of the CXI file read with h5py"])

prop("C17", "Stacking places every module's data at its own position, missing is filled",
 "stack_data and stack_detector_data equal a NumPy stack of the sources' data in the documented order along the requested axis, with absent modules holding the fill value (NaN for floats, 0 for integers unless given), for any modules present, dtype, shape, extra dimensions and axis; data which cannot be stacked (no matching sources, differing shapes or dtypes) is refused with ValueError, module numbers outside the detector with IndexError or ValueError. "
 "With real_array=False, the view has the same shape and dtype, and gives the same result as the real array for indexing one or all modules (with any indexes of the other dimensions) and for asarray().",
 ["inputs"],
 "all train data dicts, axes, subsets of modules, fill values, indices",
 "Tests use zeros of one shape, so that misplacement cannot be seen, and only one axis for the view.",
 ["stacking.py"],
 [("stack_data / stack_detector_data", "stacking.py"), ("StackView", "stacking.py")],
 ["returned arrays / views"])

prop("C18", "Assembled detector images contain every pixel once, at its geometric position",
 "For AGIPD, LPD and DSSC, position_modules_fast / position_all_modules put the value of every detector pixel at exactly one place of the output image, the place which the module's corner and axis vectors prescribe (rounded to whole pixels), for any geometry where tiles do not collide, for any leading dimensions; all other output pixels are NaN for floating point data (or untouched when out= is given), and the reported centre is the image position of the geometry origin. "
 "The output array made for a given extra shape can be reused, and results do not depend on the leading shape or on how images are batched. "
 "plot_data_fast() draws this image, with axes measured from the detector centre in the units asked for, seen from the side asked for.",
 ["inputs", "configurations"],
 "all quadrant positions (also moved and rotated layouts from files), data dtypes and leading shapes, out arrays",
 "Tests check output shapes and NaN presence, not where pixels land.",
 ["geometry2/__init__.py"],
 [("SnappedGeometry / position_modules_fast / position_all_modules", "geometry2/__init__.py"), ("output_array_for_position_fast", "geometry2/__init__.py")],
 ["assembled array and centre"])

prop("C19", "Pixel coordinates, distortion arrays and position lookups all agree",
 "get_pixel_positions, to_distortion_array and data_coords_to_positions describe the same detector: pixel centres are tile corner + (s + 0.5) slow-scan + (f + 0.5) fast-scan vectors scaled to metres, the distortion array holds the corners of those same pixels shifted to be non-negative, and (for AGIPD and LPD) continuous data coordinates interpolate them, for every module, tile and pixel; DSSC's hexagonal pixels have six corners around their centre. "
 "These agree with the assembled image positions, and moving every quadrant by the same vector moves every position by exactly that vector.",
 ["inputs", "configurations"],
 "all geometries from quadrant positions or files, all pixels, random fractional coordinates",
 "Tests check one array shape and a few coordinates of one geometry.",
 ["geometry2/__init__.py"],
 [("get_pixel_positions / to_distortion_array / data_coords_to_positions", "geometry2/__init__.py"), ("GeometryFragment.corners", "geometry2/__init__.py")],
 ["returned arrays"])

prop("C20", "Geometries built from quadrant positions or files match their input",
 "Building a geometry from quadrant positions or from an HDF5 geometry file puts each tile at the given quadrant position plus the recorded module and tile offsets, independent of the length unit used to express the same positions, with the documented orientation of tiles, the detector's pixel size and the right number of modules and tiles; inspect() and compare() draw exactly those tiles and the differences between two geometries. "
 "The deprecated LPD geometry class gives pixel placements consistent with the current one.",
 ["inputs", "configurations"],
 "all quadrant positions, gaps, units and generated geometry files",
 "Tests use one or two fixed geometry files and look at single coordinates.",
 ["geometry2/__init__.py", "geometry.py"],
 [("from_quad_positions / from_h5_file_and_quad_positions", "geometry2/__init__.py"), ("LPDGeometry.from_h5_file_and_quad_positions", "geometry.py")],
 ["tile corners via get_pixel_positions / CrystFEL output / images"])

prop("C21", "CrystFEL geometry files round-trip the detector geometry",
 "write_crystfel_geom writes a .geom file which from_crystfel_geom reads back to the same pixel positions (within the printed precision) for AGIPD, LPD and DSSC, for any geometry, and whose panels' file regions (min/max fs and ss, dimensions, module index) address exactly the pixels of each tile in the documented data layouts. "
 "Dataset paths, dimensions, clen, photon energy, adu per eV and mask settings given to the writer appear in the file, and omitted optional ones are flagged as to be edited.",
 ["inputs", "configurations"],
 "all geometries incl. offsets, rotations and panel z shifts, all writer options",
 "Tests round-trip one geometry per detector with default layouts.",
 ["geometry2/__init__.py", "geometry2/crystfel_fmt.py"],
 [("write_crystfel_geom / from_crystfel_geom", "geometry2/__init__.py"), ("panel_template / frag_to_crystfel", "geometry2/crystfel_fmt.py")],
 ["written .geom text, geometries read back"])

prop("C22", "Streamed messages carry the data and metadata unchanged and in order",
 "What a Karabo bridge client receives from the streaming interface equals, for every protocol version (1.0, 2.2), what was fed: the same sources in the same train, the same arrays (dtype, shape, values), scalars, strings, lists and metadata, for any nested data, dtype and shape. "
 "Trains are delivered exactly once, in the order they were fed, whatever the interleaving of feeding and requests and whatever the queue length (arrays are not modified between being fed and sent).",
 ["inputs", "schedules", "histories"],
 "all data dicts per source, protocol versions, queue lengths, feed/request interleavings",
 "Tests send one dict of fixed data and deserialise it; order under load and other data shapes are not covered.",
 ["export.py"],
 [("ZMQStreamer.feed / _serialize", "export.py"), ("REPInterface", "export.py")],
 ["bridge Client over a loopback socket"])

prop("C23", "Serving files streams exactly the selected trains of the run",
 "serve_files (and karabo-bridge-serve-files) streams, to bridge clients, every train of the run or file that has any data of the requested sources and keys, once each in ascending order, each with exactly the data that reading the run directly gives for it; the source / key selection given on the command line is honoured, and serving ends once all that data has been sent.",
 ["inputs", "configurations"],
 "generated runs, selections and command line options",
 "One test starts the server on a mock run and looks at one train's sources.",
 ["export.py", "reader.py"],
 [("serve_files / main", "export.py")],
 ["bridge Client over a loopback socket"])

prop("C24", "Summaries report the true trains, sources, modules and frame counts",
 "info(), train_info(), detector_info(), and the output of lsxfel and h5index state exactly the facts of the data: number, first and last train, duration, detector modules and dimensions, frames per train (an estimate from one file) and in total, and the control and instrument sources, or the paths, shapes and dtypes of datasets for h5index; they work for every readable run, file or selection and change nothing.",
 ["inputs", "configurations"],
 "generated runs with and without detectors, gaps, empty files, file names",
 "Tests call info() and lsxfel on one mock run each and check almost no output.",
 ["reader.py", "lsxfel.py", "h5index.py"],
 [("DataCollection.info / train_info / detector_info", "reader.py"), ("summarise_run / summarise_file", "lsxfel.py"), ("hdf5_datasets", "h5index.py")],
 ["stdout, returned dicts"])

prop("C25", "require_all yields exactly the trains in which all selected data is present",
 "trains(require_all=True) yields exactly those trains, in order, for which every selected source and key has at least one entry, and the data it yields is the same as without require_all; with require_all=False every selected train is yielded.",
 ["inputs", "histories"],
 "all runs with partially missing sources, groups, files and trains, after all kinds of selection",
 "One test checks one run with one missing source.",
 ["reader.py"],
 [("DataCollection._check_data_missing", "reader.py"), ("TrainIterator", "reader.py")],
 ["sequence of yielded train IDs and data"])

prop("C26", "Collections close their files and stay usable as documented",
 "A collection opened from files can be used as a context manager, inside which all reading works, and afterwards none of its data files remain open; collections made by selecting or joining refuse to be used in a with statement and do not close files, and reading from them or from the original after closing gives the same data again. "
 "Reading never modifies data files and is independent of what was read before (order of calls, caches).",
 ["histories", "schedules"],
 "all sequences of open, select, union, read, close operations over several collections sharing files",
 "One test opens one run in a with block.",
 ["reader.py"],
 [("DataCollection.__enter__/__exit__", "reader.py"), ("FileAccess.file / close and caches", "reader.py")],
 ["open file descriptors of the process, read results, file hashes"])

prop("C27", "Requests for data which does not exist raise the documented errors",
 "Asking any reading method for a source, key or train which is not in the collection (never existed, or removed by selection) raises the documented error type naming it (SourceNameError, PropertyNameError, TrainIDError / KeyError, ValueError) and never returns other data.",
 ["inputs", "histories"],
 "all reading methods, with names and IDs near to and far from existing ones, after arbitrary selections",
 "Tests try one bad name for some of the methods.",
 ["reader.py", "exceptions.py"],
 [("DataCollection._check_field", "reader.py"), ("SourceNameError / PropertyNameError / TrainIDError", "exceptions.py")],
 ["exception types and messages"])

prop("C28", "CBF export and QuickView show exactly the requested frame",
 "numpy_to_cbf / hdf5_to_cbf write a CBF image which reads back to exactly the selected frame and header, and QuickView displays the frame at its current position, moves through the stack without skipping or passing its ends, and accepts only three-dimensional arrays. The frames for CBF are whole numbers small enough for its integer compression.",
 ["inputs", "histories"],
 "all frames of whole numbers, indices, header dicts; all sequences of next/prev/position moves on stacks of any length",
 "Tests convert one array and create one viewer.",
 ["utils.py"],
 [("numpy_to_cbf / hdf5_to_cbf", "utils.py"), ("QuickView", "utils.py")],
 ["CBF files read with fabio, QuickView position and image data"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
