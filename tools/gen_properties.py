#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand; the output is committed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "A read returns the stored data or raises, whatever the storage does",
 "For every supported file format that records its own sizes, and whatever the storage does while the file is loaded or read (truncation at any byte, a missing or emptied file, failed opens, EIO, short or interrupted reads, failing allocations), every load and field access either gives exactly the values, coordinates and time that were stored or raises an exception. "
 "It never gives fabricated, partial, stale or uninitialised data, never hangs, and never takes the interpreter down.",
 ["fault_sequences", "inputs"],
 "every file of every size-recording format (xdmf+hdf5 incl. OpenGGCM, Athena and PSC flavours, gkeyll, npz, nda ascii, athena bin, jrrle, fortbin, vpic), every sequence of storage faults at every I/O call or byte of it",
 "tests read intact sample files only; no test truncates a file or makes a system call fail, so none reaches a decoder's error path",
 ["viscid/readers", "viscid/field.py", "viscid/readers/_jrrle.f90", "viscid/readers/vpic.py"],
 [("lazy data wrappers read exactly the declared number of items", "viscid/readers/athena_bin.py, vpic.py, ggcm_jrrle.py, ggcm_fortbin.py, hdf5.py, numpy_binary.py, ascii.py"),
  ("field data is filled from the wrapper on first access", "viscid/field.py Field._fill_cache")],
 [("_cache", "a field's in-memory values, None until read", "viscid/field.py Field"),
  ("field_meta", "offsets of records inside a file", "viscid/readers/_fortfile_wrapper.py, ggcm_jrrle.py")],
 ["viscid.load_file", "viscid.load_files", "Dataset.get_field", "Field.data", "process exit status"])

prop("C02", "A transient failure leaves nothing poisoned: the same call works once it is gone",
 "When a load, read, reload, save or calculation failed because of a transient fault and the fault has gone, repeating the same call in the same session on the now healthy files succeeds and gives the right data, at the latest on the second attempt. "
 "No failure leaves behind an entry, lock, cached value or half-built object that makes a later correct call fail or give other values.",
 ["fault_sequences", "histories"],
 "every session history, every point in it at which a storage or computation fault strikes and later clears",
 "tests never make an operation fail and then repeat it in the same process",
 ["viscid/readers/vfile_bucket.py", "viscid/readers/__init__.py", "viscid/cython/streamline.pyx", "viscid/field.py", "viscid/readers/hdf5.py", "viscid/readers/_fortfile_wrapper.py"],
 [("load errors keep a file out of the table of open files", "viscid/readers/vfile_bucket.py VFileBucket.load_files"),
  ("cleanup of process-wide guards", "viscid/cython/streamline.pyx calc_streamlines; viscid/readers/_fortfile_wrapper.py"),
  ("field cache is only set after a complete read", "viscid/field.py Field._fill_cache")],
 [("_items", "handle to open file", "viscid/bucket.py"), ("_global_fld", "field being traced in this process", "viscid/cython/streamline.pyx")],
 ["viscid.load_file after a failed viscid.load_file", "calc_streamlines after a failed calc_streamlines"])

prop("C03", "The table of open files always agrees with what was loaded and unloaded",
 "After any sequence of loading, forced reloading, unloading and removing files by name, number or object, with failures anywhere, the session's table of open files holds each open file exactly once under all of its names and numbers, loading an open file again gives the same object, and an unloaded file is gone under every name and is read afresh when loaded again. "
 "A file that another open file refers to stays usable, and in the table, until its last user is unloaded (unloaded by hand, it loses its number), and unloading everything empties the table.",
 ["histories", "fault_sequences"],
 "every history of load / reload / unload / remove operations over any set of files (including containers that share data files), with failures interleaved",
 "tests load a file once per process; no test unloads, shares a data file between containers or fails in between",
 ["viscid/bucket.py", "viscid/readers/vfile_bucket.py", "viscid/readers/vfile.py", "viscid/readers/__init__.py"],
 [("handles, reverse lookup and reference counts", "viscid/bucket.py Bucket"),
  ("child files are reference counted by containers", "viscid/readers/vfile_bucket.py ContainerFile")],
 [("_ref_count", "number of users of an open file", "viscid/bucket.py"), ("_handles", "all handles of an item", "viscid/bucket.py"),
  ("_child_ref_count", "references a container holds", "viscid/readers/vfile_bucket.py")],
 ["viscid.readers.get_file_bucket / viscid.get_file", "viscid.load_file", "viscid.unload_file", "viscid.unload_all_files"])

prop("C04", "Reload shows what is on disk now; unload forgets",
 "After a file on disk was replaced by another valid version, reloading it (or loading it with force_reload, or unloading everything and loading it) makes every field, coordinate, time and snapshot list read from the returned object agree with the version on disk at that moment, for every format and for containers together with the data files they refer to. "
 "Without reloading, every value, coordinate and time shown comes from one of the versions that have been on disk or the read raises (a text table whose columns do not say their shape excepted), and values already delivered to the caller never change.",
 ["histories"],
 "every history of file replacements, loads, reloads, unloads and reads, for every format",
 "no test changes a file on disk while it is loaded",
 ["viscid/readers/vfile.py", "viscid/readers/vfile_bucket.py", "viscid/readers/hdf5.py", "viscid/readers/openggcm.py", "viscid/dataset.py", "viscid/grid.py"],
 [("reload clears caches and children and parses again", "viscid/readers/vfile.py VFile.reload, vfile_bucket.py ContainerFile.reload")],
 [("children", "grids and snapshots parsed from the file", "viscid/dataset.py"), ("_cache", "field values in memory", "viscid/field.py")],
 ["VFile.reload", "viscid.load_file(force_reload=True)", "viscid.unload_all_files"])

prop("C05", "Lazily loaded values do not depend on how and when they are reached",
 "The values, shape, type, coordinates and time of a field read from a file are the same whichever route leads to them: whole or sliced, before or after other reads, with or without long-term caching, inside or outside a with-block, after clearing caches, through a copy, through an equation string, by iteration or by name, and in any order. "
 "Operating on or writing into one field object that the caller made never changes what another field object, or the same field read again from its file, shows.",
 ["histories", "configurations"],
 "every history of field accesses and cache operations on every format, under every caching configuration",
 "each test uses one access route per field in a fresh process",
 ["viscid/field.py", "viscid/grid.py", "viscid/dataset.py", "viscid/readers", "viscid/calculator/evaluator.py"],
 [("lazy fill of the cache and its invalidation", "viscid/field.py Field._fill_cache, clear_cache, shell_copy, slice_and_keep"),
  ("per-grid field lookup and derived fields", "viscid/grid.py Grid.get_field")],
 [("_cache", "values in memory", "viscid/field.py"), ("longterm_field_caches", "keep values in the file tree", "viscid/grid.py")],
 ["Dataset.get_field", "Field.data", "Field slicing", "Grid.field_dict", "Field.get_crds_*"])

prop("C06", "What a file shows does not depend on what else the session did",
 "A file's fields, coordinates, times, metadata and detected type are the same whether it is loaded first, last or alone: earlier or concurrent-in-session loads of other files, of other formats, of other runs in the same or other directories, failed loads, unloads and calculations never influence them.",
 ["histories", "fault_sequences"],
 "every history of loads of other files (valid, damaged or of another format), unloads and failures before and between the reads of a file",
 "tests start a process per module and never compare one session's view with another session's",
 ["viscid/readers", "viscid/bucket.py", "viscid/dataset.py", "viscid/tree.py"],
 [("type detection and grouping by file name", "viscid/readers/vfile.py detect_type, group_fnames"),
  ("per-instance instead of class-level state", "viscid/readers/openggcm.py, gkeyll.py, athena.py, psc.py, vpic.py")],
 [("class attributes of readers", "templates, grid options and shared tables", "viscid/readers/*.py")],
 ["viscid.load_file in one session against a fresh process"])

prop("C07", "A run's snapshots form one time series: complete, sorted, each once",
 "Loading the files of a time series together, by list or by glob and in whatever order the directory lists them, gives one collection holding every snapshot exactly once in time order, each with its own time and its own data. "
 "Selecting by index, by time or by slice of either gives exactly the snapshots that the times in the files say, and a snapshot that cannot be read is reported and never takes another one's place or data.",
 ["inputs", "histories", "schedules", "fault_sequences"],
 "every set of snapshot files, listing order, selection, and damaged subset",
 "tests load a few fixed time series in the order of one file system",
 ["viscid/dataset.py", "viscid/readers/openggcm.py", "viscid/readers/athena.py", "viscid/readers/gkeyll.py", "viscid/readers/psc.py", "viscid/readers/xdmf.py", "viscid/vutil.py"],
 [("grouping of file names into one collection", "group_fnames / collective_name in viscid/readers"),
  ("children kept sorted by time, index and time selection", "viscid/dataset.py DatasetTemporal"),
  ("globbing with a slice of the sorted list", "viscid/vutil.py slice_globbed_filenames")],
 [("children", "(time, grid) pairs", "viscid/dataset.py DatasetTemporal")],
 ["viscid.load_file with globs", "DatasetTemporal.iter_times, get_times, nr_times, get_grid, activate_time"])

prop("C08", "A save that returns reads back exactly; a save that fails says so",
 "When saving fields to any supported format returns normally, loading that file (with force_reload or reload, or in another session, if an older version of it is open in this one) gives fields with exactly the saved names, values of every component, types, centring and coordinates, and times, as far as the format holds them: hdf5 with its xdmf index holds fields on three-dimensional cartesian grids with axes x, y and z, npz stores no time. "
 "When the storage fails during the save (full disk, EIO, failed open), the call raises instead of returning, and in either case the fields in memory are left as they were.",
 ["inputs", "fault_sequences"],
 "every set of fields, every supported output format and option, every storage fault at every write of the save",
 "tests save one or two fields to a healthy disk; no test fails a write",
 ["viscid/readers/hdf5.py", "viscid/readers/numpy_binary.py", "viscid/readers/ascii.py", "viscid/readers/__init__.py", "viscid/readers/vfile.py"],
 [("writers", "save_fields in hdf5.py, numpy_binary.py, ascii.py"), ("dispatch by extension", "viscid/readers/__init__.py save_field, save_fields, save_grid")],
 [("the files at the target path", "data file and its index file", "disk")],
 ["viscid.save_field", "viscid.save_fields", "viscid.save_grid", "viscid.load_file"])

prop("C09", "After a crash in a save, the old or the new version loads, never a mix",
 "If the process dies, the machine stops or the storage fails at any point while fields are saved over an existing set of files, then loading the result in a new process gives exactly the old version, exactly the new version, or an error; it never gives a mixture of the two or values that were in neither. "
 "Saving again afterwards succeeds and then reads back exactly.",
 ["crash_points", "fault_sequences"],
 "every pair of old and new contents, every format, and every system call of the save as crash or failure point, including torn writes",
 "no test kills a save",
 ["viscid/readers/hdf5.py", "viscid/readers/numpy_binary.py", "viscid/readers/ascii.py"],
 [("order in which data file and index file are written", "viscid/readers/hdf5.py FileHDF5.save_fields")],
 [("the files at the target path", "data file and its index file", "disk")],
 ["viscid.save_fields interrupted, then viscid.load_file in a new process"])

prop("C10", "Reading never creates, changes or deletes files",
 "Detecting, loading, reloading, reading, iterating, unloading or failing to load files of any format, including missing, damaged, unreadable and write-protected ones, leaves every file and directory as it was: nothing created, removed, renamed, truncated or written. "
 "Saving touches only the files of its own target.",
 ["histories", "fault_sequences"],
 "every history of read-side operations on every format, with faults",
 "no test inspects the file system after a read",
 ["viscid/readers", "viscid/readers/_fortfile.F90", "viscid/readers/_fortfile_wrapper.py", "viscid/readers/hdf5.py"],
 [("files are opened read-only", "open() / h5py.File / fopen calls in viscid/readers")],
 [("the directory tree", "names, contents, types", "disk")],
 ["directory snapshots and traced system calls before and after each operation"])

prop("C11", "File handles are given back, after success and after failure",
 "After a file was unloaded, and after any load, read, save or iteration that ended (normally or with an exception) with its results dropped, the process holds no more open files than before it, so that a session of any length of loads, reads, failures and unloads never runs out of file descriptors or Fortran units. "
 "A field read closes whatever it opened even when the read fails half way.",
 ["histories", "fault_sequences"],
 "every history of operations on every format with faults at every I/O call",
 "tests never count open descriptors and never fail a read",
 ["viscid/readers/hdf5.py", "viscid/readers/_fortfile_wrapper.py", "viscid/readers/ggcm_jrrle.py", "viscid/readers/numpy_binary.py", "viscid/readers/vpic.py", "viscid/readers/athena_bin.py", "viscid/readers/athena_tab.py"],
 [("context managers around opened files", "viscid/readers/*.py"), ("unit registry", "viscid/readers/_fortfile_wrapper.py FortranFile")],
 [("open descriptors", "kernel descriptor table", "/proc/self/fd"), ("units", "Fortran unit numbers in use", "viscid/readers/_fortfile_wrapper.py")],
 ["descriptors open under the data directory after each operation"])

prop("C12", "Parallel map equals the serial map for every schedule",
 "Mapping a function over a sequence with the library's parallel helpers gives the results of calling it serially, each item evaluated exactly once and in input order, for every number of processes, worker schedule, chunking, argument packing and kind of pool (own pool, caller's pool, threads or processes). "
 "If an item raises, that exception reaches the caller; a caller's pool stays usable; a pool the library made is shut down; a wait on worker processes with a timeout ends in a time bounded by the timeout; and splitting into chunks covers every element exactly once in order with the number of chunks asked for.",
 ["schedules", "fault_sequences", "inputs"],
 "every schedule of the workers, item count, chunking, worker failure, slow or stuck worker and pool kind",
 "the test maps one function on one machine's schedule and never fails or delays a worker",
 ["viscid/parallel.py"],
 [("map, map_async, chunking helpers", "viscid/parallel.py"), ("serial fallback", "viscid/parallel.py map_async")],
 [("pool", "worker processes or threads", "viscid/parallel.py")],
 ["viscid.parallel.map", "viscid.parallel.map_async", "viscid.parallel.chunk_list / chunk_slices / chunk_sizes"])

prop("C13", "Streamlines and topology do not depend on workers, chunks or schedule",
 "For a given field, seeds and options, streamlines and topology are identical and in seed order whatever the number of processes, the chunking, the use of threads, the order in which workers run and finish, and the calls made before. "
 "If a worker fails the call raises, it never returns lines with some missing or misplaced, and later calls in the session work.",
 ["schedules", "fault_sequences", "configurations"],
 "every field, seed set, worker count, chunking, schedule and worker failure",
 "tests compare one parallel run on one schedule and never fail a worker",
 ["viscid/cython/streamline.pyx", "viscid/calculator/topology.py", "viscid/parallel.py"],
 [("chunks are mapped and concatenated in order", "viscid/cython/streamline.pyx calc_streamlines"),
  ("guard for the process-wide field", "viscid/cython/streamline.pyx")],
 [("_global_fld", "field shared with forked workers", "viscid/cython/streamline.pyx")],
 ["viscid.calc_streamlines(nr_procs=, nr_chunks=, threads=)", "viscid.calc_topology / topology output"])

prop("C14", "Threads reading different files each get their own data",
 "When several threads of one process load and read different files of any mix of formats at the same time, each thread gets exactly what it would get alone, for every interleaving, and a failure in one thread never changes or fails another thread's reads. "
 "No interleaving deadlocks.",
 ["schedules", "fault_sequences"],
 "every interleaving, at line granularity, of threads that each read their own files, with a failing thread among them",
 "no test uses threads to read",
 ["viscid/readers/_fortfile_wrapper.py", "viscid/readers/__init__.py", "viscid/readers/vfile_bucket.py", "viscid/readers", "viscid/field.py"],
 [("a lock around assigning Fortran units", "viscid/readers/_fortfile_wrapper.py fortfile_open_lock"),
  ("per-file state", "viscid/readers/*.py")],
 [("Fortran unit numbers", "process-wide", "viscid/readers/_fortfile_wrapper.py")],
 ["Field.data in each thread"])

prop("C15", "Results cached on disk are either right or recomputed",
 "An analysis that keeps its result in a cache file gives the same result with and without the cache, and with a cache that is missing, was left by a call that was interrupted at any point, is torn, empty, unreadable or belongs to another run, time, selection or option: it then recomputes. "
 "Failing to write the cache never changes the result, and nothing is written when no cache is asked for.",
 ["crash_points", "fault_sequences", "histories"],
 "every interruption point of the cache's writer, every damage to the cache file, every order of calls with different inputs",
 "the test deletes the cache first and runs once",
 ["viscid/calculator/mpause.py", "viscid/calculator/separator.py", "viscid/readers/hdf5.py"],
 [("load from cache unless unreadable", "viscid/calculator/mpause.py get_mp_info, separator.py trace_separator")],
 [("cache file", "npz or xdmf+h5 next to the run", "disk")],
 ["viscid.get_mp_info", "viscid.trace_separator"])

prop("C16", "Multiplot plots every selected time once, with the right index and data",
 "Plotting a time series calls the plot function exactly once for every selected time, with that time's grid and its running index, in order when serial, for every number of processes and worker schedule, and every frame but the first gets the first frame's result; figures written for different times never get each other's content. "
 "A failing plot is reported to the caller and the caller's options are left unchanged.",
 ["schedules", "fault_sequences", "configurations"],
 "every time selection, number of processes, schedule and failing frame",
 "no test of multiplot exists beyond calling parts of it once",
 ["viscid/multiplot.py", "viscid/parallel.py", "viscid/dataset.py"],
 [("grid iterator with a running index is mapped over workers", "viscid/multiplot.py multiplot")],
 [("subplot parameters", "state shared between frames", "viscid/multiplot.py")],
 ["viscid.multiplot.multiplot"])

prop("C17", "Iterating a run keeps at most one snapshot's data in memory",
 "Iterating over times, or over the fields of a grid, releases each snapshot's data when the iteration moves on, ends early or is broken by an exception, so that whatever the length of the run no more than the current snapshot's field data stays cached in the file tree. "
 "Leaving a with-block of a grid, field or file, also by an exception, drops what was cached in it, and it can be read again afterwards.",
 ["histories", "fault_sequences"],
 "every run length, iteration style, early exit and failing read",
 "no test looks at what stays in memory",
 ["viscid/dataset.py", "viscid/grid.py", "viscid/field.py"],
 [("context managers clear caches", "viscid/dataset.py DatasetTemporal.iter_times, grid.py iter_fields, field.py Field.__exit__")],
 [("_cache", "field values in memory", "viscid/field.py")],
 ["whether fields reachable from the file report data in memory"])

prop("C18", "Damaged companion files degrade only what depends on them",
 "When a companion that a simulation file can be read without (a run's log file, one field's data file, the data of one snapshot of an index) is missing, empty, torn, mangled or of another run, everything that does not depend on it reads exactly as before, and what does depend on it is absent or raises. A companion that is there and can't be read at all (an I/O error, no permission), or that also holds the coordinates, may make the load itself raise instead, but never makes a read return something else. "
 "Once the companion is healthy again and the file is reloaded, everything reads exactly.",
 ["fault_sequences", "histories"],
 "every companion of every format and every damage to it, before or after loading",
 "tests have all companions present and intact",
 ["viscid/readers/openggcm.py", "viscid/readers/ggcm_logfile.py", "viscid/readers/xdmf.py", "viscid/readers/athena.py"],
 [("log file is optional", "viscid/readers/openggcm.py GGCMFile.read_logfile"), ("data files are opened only when read", "viscid/readers/xdmf.py, hdf5.py")],
 [("info", "parameters from the log file", "viscid/tree.py Node._info")],
 ["viscid.load_file with companions damaged"])

prop("C19", "An unusable settings file never stops or corrupts the library",
 "If the user's settings file is missing, empty, torn, unreadable or contains invalid or unknown entries, importing the library succeeds; every valid setting in a file that can be read and parsed takes effect next to invalid ones, and none of a file that can't.",
 ["fault_sequences", "inputs"],
 "every settings file and every fault while it is read",
 "tests run with one fixed settings file",
 ["viscid/_rc.py", "viscid/__init__.py"],
 [("settings file loader", "viscid/_rc.py load_rc_file")],
 [("module attributes set from the file", "process-wide", "viscid/_rc.py")],
 ["import viscid with a given HOME"])

# -- pure functions: listed for completeness, decided not applicable
pure = "no schedule, clock, I/O, fault or history in it"
prop("C20", "Slicing by index or by location selects the same points as numpy would",
 "Slicing a field by integers, slices or locations gives the values and coordinates of exactly the selected points, for every field, centring and layout.",
 ["inputs"], "every field and selection", "tests sample a few selections",
 ["viscid/sliceutil.py", "viscid/coordinate.py", "viscid/field.py"], [("selection parsing", "viscid/sliceutil.py")])
prop("C21", "Vector calculus and interpolation match their definitions",
 "Gradient, divergence, curl, averages, magnitudes, products and interpolation give the values of their discrete definitions for every field, centring, layout and type.",
 ["inputs"], "every field", "tests sample a few analytic fields",
 ["viscid/cython/cycalc.pyx", "viscid/calculator/calc.py", "viscid/calculator/necalc.py"], [("kernels", "viscid/cython/cycalc.pyx")])
prop("C22", "Coordinate rotations and date conversions are consistent and invertible",
 "Rotations between coordinate systems are orthogonal and inverse to each other, and conversions between datetimes, offsets and strings round-trip, for every date and vector.",
 ["inputs"], "every date and vector", "tests sample a few dates",
 ["viscid/cotr.py", "viscid/rotation.py", "viscid/npdatetime.py"], [("transforms", "viscid/cotr.py")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
