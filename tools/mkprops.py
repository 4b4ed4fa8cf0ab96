#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

p("C01","Evaluation history never changes what a pipeline produces",
 "For a recording processed through any ordered list of stages (normalise, equalise, flag, estimate noise, integrate drifts, search hits, filter hits) at scan, target or cadence level, the data, mask, noise estimate, drift plane and hits of a coarse channel are a function of the recording and of that list alone: they do not depend on how often, in what order, through which copy or slice, or before/after which other evaluations they are requested. In particular requesting the same product twice returns the same values, every configured stage takes effect exactly once per channel, and gathering a scan's hits returns exactly the union of its channels' hits.",
 ["histories","inputs","schedules"],"every recording, every stage list, every history of interleaved reads, evaluations, copies, slices and later stagings over several channels and objects",
 "The tests evaluate each product once, on fresh objects, in one order; deferred evaluation, memoised hits, the shared channel cache and the per-read transform pipeline only go wrong on the second evaluation, after a copy, or in another order.",
 ["bliss/core/scan.cpp","bliss/core/coarse_channel.cpp","bliss/core/cadence.cpp","bliss/core/frequency_drift_plane.cpp","bland/bland/ndarray_deferred.cpp","bliss/flaggers","bliss/preprocess","bliss/estimators/noise_estimate.cpp","bliss/drift_search"],
 [("per-read transform pipeline applied to a copy of the cached channel","bliss/core/scan.cpp read_coarse_channel/peak_coarse_channel"),("deferred masks and data","bland/bland/ndarray_deferred.cpp"),("memoised hits","bliss/core/coarse_channel.cpp hits()")],
 [("channel cache","channels already read, shared by copies and slices","bliss/core/include/core/scan.hpp _coarse_channels"),("transform list","configured stages","bliss/core/include/core/scan.hpp _coarse_channel_pipeline")],
 ["scan::read_coarse_channel","scan::peak_coarse_channel","coarse_channel::data/mask/noise_estimate/integrated_drift_plane/hits","scan::hits"])

p("C02","Copies and slices are isolated from and consistent with their source",
 "Adding a stage to, slicing, copying, evaluating or re-homing (device change) a scan, target, cadence or channel never changes what the object it came from, or any sibling, reports afterwards. Channel i of a slice starting at k is channel k+i of the source in data and in metadata (including its first-channel frequency, channel count and index), for slices of slices and at scan, target and cadence level, and lookups by frequency agree with the per-channel metadata and name no channel for a frequency outside the object's band. Reading a channel index outside those an object has is refused with an exception.",
 ["histories","inputs"],"every tree of copies, slices and stagings, interleaved with evaluations in any order, over every recording geometry",
 "Slices and copies share the channel cache and deferred state by pointer; the tests hold at most one derived object at a time and never revisit the source.",
 ["bliss/core/scan.cpp","bliss/core/cadence.cpp","bliss/core/coarse_channel.cpp","bland/bland/ndarray_deferred.cpp"],
 [("slice by key arithmetic plus channel offset","bliss/core/scan.cpp slice_scan_channels"),("target/cadence fan-out","bliss/core/cadence.cpp")],
 [("channel offset","first channel of a slice in the recording","bliss/core/include/core/scan.hpp _coarse_channel_offset")],
 ["scan::slice_scan_channels","observation_target::slice_observation_channels","cadence::slice_cadence_channels","get_coarse_channel_with_frequency","get_number_coarse_channels"])

p("C03","A failed evaluation reports its failure and leaves no trace",
 "When a disk error, an allocation failure or an unavailable compute device strikes while a product is being evaluated, the request ends in an exception: it never returns wrong, partial or silently shortened data, masks, planes or hit lists. Once the fault has gone, the very next request for the same product, on the same object or any copy or slice of it, succeeds and equals what an undisturbed evaluation gives.",
 ["fault_sequences","histories","inputs"],"every placement of I/O errors, allocation failures and refused devices inside every evaluation of every pipeline history",
 "The tests inject no fault: no test makes a read or an allocation fail half way and then retries.",
 ["bliss/core/scan.cpp","bliss/core/coarse_channel.cpp","bliss/file_types/h5_filterbank_file.cpp","bland/bland/ndarray_deferred.cpp","bland/bland/ndarray.cpp"],
 [("channel cached only after a successful read","bliss/core/scan.cpp"),("value memoised only after success","bland/bland/ndarray_deferred.cpp, bliss/core/coarse_channel.cpp"),("allocation failure surfaced","bland/bland/ndarray.cpp")],
 [("channel cache","must not hold half-read channels","bliss/core/include/core/scan.hpp")],
 ["scan::read_coarse_channel","scan::hits","coarse_channel::*"])

p("C04","Recordings are ingested exactly or refused",
 "Opening an HDF5 filterbank recording and reading any in-range window of its data yields exactly the stored samples (as float32), with a mask of the same shape in which nothing is flagged, and the stored metadata, whatever the file's chunking, compression, checksumming, sample type or attribute type, and however the storage splits or interrupts the reads. If the storage returns an error, a truncated file or checksum-detectable corruption for bytes the request needs, the request fails with an exception, rather than returning anything else. Out-of-range data windows are refused. A recording opened without a channel size, whose sampling is that of a published channelisation, is divided into that channelisation's coarse channels.",
 ["inputs","fault_sequences"],"every recording layout and window; every sequence of short reads, interruptions, I/O errors, truncation points and detected corruptions",
 "The tests open one recording that is not even present offline; no test varies layouts or makes storage misbehave.",
 ["bliss/file_types/h5_filterbank_file.cpp","bliss/file_types/include/file_types/h5_filterbank_file.hpp","bliss/core/scan.cpp"],
 [("hyperslab selection and attribute conversion","bliss/file_types/h5_filterbank_file.cpp")],(),
 ["h5_filterbank_file::read_data/read_mask/read_data_attr/get_data_shape","scan(file)"])

p("C05","A result file whose write succeeded is complete and reads back",
 "When writing hits, a channel, a scan, a target, a cadence or events to Cap'n Proto result files returns normally, reading the file(s) back yields everything that was given, in order and in full, to the precision of the format, including which channel each hit was found in and the observation's metadata, and re-writing what was read gives the same result again. This holds however the storage splits or interrupts the writes; a write that storage refuses (full disk, I/O error, unopenable path) surfaces as an exception.",
 ["inputs","fault_sequences","histories"],"every hit list, channel, scan, target, cadence and event list; every sequence of short writes, interruptions, full-disk and I/O errors at every write, open and close",
 "The round-trip tests use a handful of fixed values on a healthy disk and compare a few fields.",
 ["bliss/file_types/cpnp_files.cpp","bliss/file_types/events_file.cpp","bliss/file_types/hits_file.cpp","bliss/file_types/detail/cpnp_hit_builder.cpp","bliss/file_types/detail/raii_file_helpers.cpp"],
 [("message per hit/event","bliss/file_types/cpnp_files.cpp, events_file.cpp"),("field mapping","bliss/file_types/detail/cpnp_hit_builder.cpp"),("exclusive/truncating open, close on scope exit","bliss/file_types/detail/raii_file_helpers.cpp")],(),
 ["write_*_to_capnp_file(s)/read_*_from_capnp_file(s)","write_events_to_file/read_events_from_file","write_hits_to_file/read_hits_from_file","write_scan_hits_to_file"])

p("C06","Readers of cut-off or failing result files are honest",
 "After a crash at any point of writing a list of hits or events (only a prefix of the bytes being durable), the list readers return every record that was completely written, unaltered and in order, and never an altered or incomplete one, and the single-record readers (channel, scan, target, cadence) either return the whole record or fail. When storage reports an error while a result file is read, the reader fails with an exception: it never returns a shorter, altered or empty list as if it were the whole file.",
 ["crash_points","fault_sequences","inputs"],"every crash point of every writer, every read fault at every read of every reader",
 "The tests never cut a file short and never make a read fail.",
 ["bliss/file_types/cpnp_files.cpp","bliss/file_types/events_file.cpp","bliss/file_types/detail/raii_file_helpers.cpp","bliss/file_types/detail/cpnp_hit_builder.cpp"],
 [("end-of-file detection in the read loop","bliss/file_types/cpnp_files.cpp read_hits_from_capnp_file, events_file.cpp read_events_from_file")],(),
 ["read_hits_from_capnp_file","read_events_from_file","read_scan_hits_from_capnp_file","read_coarse_channel_hits_from_capnp_file"])

p("C07",".dat reports are complete and agree with the hits they were made from",
 "When writing a .dat report of a scan (from the library, or by converting a result file with bliss_hits_to_dat) succeeds, the file holds the header for that observation followed by exactly one row per hit, in order, each row agreeing with its hit's frequency, drift rate, SNR, channel number, frequency index and bandwidth to the printed precision; this holds however the storage splits or interrupts the writes. If storage refuses any write, or the input cannot be fully read, the operation reports failure (an exception, or a non-zero exit status of the tool). Reading the report back gives the start time, sampling time and channel width it was written with, or fails if the file cannot be read.",
 ["inputs","fault_sequences"],"every scan with hits; every sequence of short writes, interruptions, full-disk, open and read errors",
 "No test writes a .dat file at all.",
 ["bliss/file_types/dat_file.cpp","bliss/file_types/hits_file.cpp","bliss/bliss_hits_to_dat.cpp","bliss/file_types/detail/raii_file_helpers.cpp"],
 [("row formatting and raw writes","bliss/file_types/dat_file.cpp")],(),
 ["write_scan_hits_to_dat_file","write_scan_hits_to_file","bliss_hits_to_dat"])

p("C08","bliss_find_hits reports each input's hits in that input's own output",
 "Running bliss_find_hits over one or several recordings leaves, for every recording, an output file of its own that contains exactly the hits the configured pipeline finds in that recording when it is processed alone, whatever the number and order of the inputs and whether or not output names are given; a strong drifting narrow-band tone placed in a recording is among them (unless the configured flagging marks its path). If any recording cannot be read or any output cannot be completely written, the exit status is non-zero, and a zero exit status means every output is complete.",
 ["inputs","configurations","fault_sequences"],"every list of recordings and every command line; every I/O fault during the run",
 "No test runs the program.",
 ["bliss/bliss_find_hits.cpp","bliss/file_types/hits_file.cpp","bliss/core/scan.cpp","bliss/drift_search/hit_search.cpp"],
 [("per-file loop, output naming, error handling","bliss/bliss_find_hits.cpp main")],(),
 ["process exit status","output files"])

p("C09","Raw array files transfer exactly or fail loudly",
 "Writing an array to a raw file and reading it back, and generating, saving and loading a channeliser response that way, yields exactly the elements of the array, however the storage splits or interrupts the transfers and whether or not the array is a strided view. If storage refuses a write (full disk, I/O error, unopenable path), or a read fails or finds fewer bytes than the array it announced, the operation fails with an exception or non-zero exit status; no element is ever left undefined and nothing outside the array is touched.",
 ["inputs","fault_sequences","crash_points"],"every array shape, stride and file length; every sequence of short transfers, interruptions, I/O errors, full disks and truncations",
 "The existing tests never round-trip arrays through failing or truncated files.",
 ["bland/bland/ops/ops.cpp","bland/bland/ops/cpu/ops_cpu.cpp","bland/bland/ndarray.cpp","bliss/preprocess/passband_static_equalize.cpp","bliss/bliss_generate_channelizer_response.cpp"],
 [("stream based element transfer","bland/bland/ops/cpu/ops_cpu.cpp, bland/bland/ops/ops.cpp")],(),
 ["bland::write_to_file","bland::read_from_file","equalize_passband_filter(path)","bliss_generate_channelizer_response"])

p("C10","Deferred arrays evaluate as often as their policy promises",
 "An eager deferred array runs its producer exactly once, at construction; a memoising one runs it at the first request and never again after a success, for the array and all copies of it together; a lazy one runs it on every request. Every request returns exactly what the producer produced (placed on the requested device), and a producer that fails passes its exception through and leaves the array as it was, so that the next request simply runs it again.",
 ["histories","fault_sequences","schedules"],"every tree of copies and device placements of deferred arrays, every order of requests from any number of tasks, every sequence of producer failures",
 "The tests request a deferred value once, on one object, with a producer that succeeds.",
 ["bland/bland/ndarray_deferred.cpp","bland/bland/include/bland/ndarray_deferred.hpp"],
 [("variant of value or callable behind a shared pointer","bland/bland/ndarray_deferred.cpp")],
 [("shared value-or-callable","memoised state common to copies","bland/bland/include/bland/ndarray_deferred.hpp _deferred_data")],
 ["ndarray_deferred conversion to ndarray"])

p("C11","Operations give back every resource they take, also when they fail",
 "Repeating any operation (opening and evaluating recordings, slicing, searching, writing and reading result files, array arithmetic) with the same outcome, success or failure, leaves the number of open file descriptors and the amount of live array and object memory unchanged from one repetition to the next once its objects are dropped. A failure at any point of the operation releases what had been acquired up to that point.",
 ["fault_sequences","histories"],"every operation and every placement of I/O errors, open failures and allocation failures within it",
 "Tests check values, not resources, and never take a failure path.",
 ["bliss/file_types/detail/raii_file_helpers.cpp","bliss/file_types/cpnp_files.cpp","bliss/file_types/dat_file.cpp","bliss/file_types/h5_filterbank_file.cpp","bland/bland/ndarray.cpp","bliss/core/scan.cpp"],
 [("scope-bound file handles","bliss/file_types/detail/raii_file_helpers.cpp"),("reference-counted array storage","bland/bland/ndarray.cpp")],(),
 ["open descriptors","live allocations"])

p("C12","Unrelated tasks never influence each other",
 "Tasks that work on separate recordings, result files and arrays and share no object give, when their steps are interleaved in any way, exactly the results each gives when run alone; none fails because another runs or fails.",
 ["schedules","fault_sequences","inputs"],"every interleaving of two or more independent tasks at their allocations and I/O calls, with faults striking any one of them",
 "The tests run one thing at a time; hidden state shared between unrelated objects only shows when two pieces of work overlap.",
 ["bland/bland","bliss/core","bliss/drift_search","bliss/file_types","bliss/flaggers","bliss/estimators"],
 [("no mutable global state","whole tree")],(),
 ["results of every public operation"])

p("C13","Array operations under allocation failure fail cleanly or are right",
 "When an allocation fails inside an array operation (creation, copy, arithmetic, comparison, reduction, statistics, slicing, reshaping, FFT), the operation either throws or returns exactly the result of an undisturbed run; its inputs, including views of them, keep their contents, nothing is leaked, and the same call afterwards succeeds with the right result. Results never depend on the previous contents of the memory they are given.",
 ["fault_sequences","inputs"],"every operation and operand layout; every placement of an allocation failure in it; every previous content of memory",
 "The tests neither make allocations fail nor control what fresh memory contains.",
 ["bland/bland/ndarray.cpp","bland/bland/bland_tensor_internals.cpp","bland/bland/ops"],
 [("aligned allocation with check","bland/bland/bland_tensor_internals.cpp"),("output arrays fully written by each operation","bland/bland/ops")],(),
 ["every bland:: operation"])

p("C14","Random arrays respect their request whatever the entropy source does",
 "For any entropy values, a uniform random array has the requested shape and type with every element inside the requested range, a normal random array has the requested shape and type with every element finite and its bulk near the requested mean and deviation, and equal entropy gives equal arrays while nothing but entropy influences them. A failing entropy source surfaces as an exception and changes nothing.",
 ["inputs","fault_sequences","histories"],"every request, every seed delivered by the entropy source, and failure of that source",
 "The tests draw a few arrays from real entropy and cannot control or fail the source.",
 ["bland/bland/ops/creators.cpp","bland/bland/ops/cpu/ops_cpu.cpp"],
 [("engine seeded from random_device per call","bland/bland/ops/creators.cpp")],(),
 ["bland::rand_uniform","bland::rand_normal"])

p("C15","Event search is repeatable and never loses track of its hits",
 "Searching a cadence for events gives the same events every time it is repeated on the same cadence, on copies of it and whatever was evaluated before, leaves the hits of the cadence's scans as they were, and every hit in a reported event is one of the hits of the cadence's ON scans, unaltered and in no other event. If storage or allocation fails while the hits of any scan are being gathered, the search fails with an exception instead of reporting events from incomplete hits.",
 ["histories","fault_sequences","inputs"],"every cadence, every evaluation history before the search, every I/O and allocation fault during it",
 "The event search test uses hits set by hand, once, on healthy storage.",
 ["bliss/drift_search/event_search.cpp","bliss/core/scan.cpp","bliss/core/cadence.cpp"],
 [("hits of OFF scans gathered on demand","bliss/drift_search/event_search.cpp")],(),
 ["event_search"])

# pure functions: listed, not claimed
p("C20","Element-wise arithmetic, comparison and broadcasting follow numpy rules",
 "For every pair of arrays (any dtype, strides, views, broadcastable shapes) element-wise operations return the mathematically defined element results with the promoted dtype.",
 ["inputs"],"every operand pair","Tests sample a few shapes and strides.",["bland/bland/ops"],[("kernel dispatch","bland/bland/ops")])
p("C21","Masked and unmasked statistics equal their definitions",
 "sum, mean, variance, standard deviation, moments, median and their masked forms equal the mathematical definition over exactly the selected elements, for any shape, strides and axes.",
 ["inputs"],"every array and mask","Tests sample a few arrays.",["bland/bland/ops/statistical.cpp"],[("reduction kernels","bland/bland/ops")])
p("C22","Drift integration sums exactly the samples on each drift path",
 "Each point of the integrated drift plane is the average of the samples along its (possibly desmeared) linear drift path, and flag counts count flags along the same path.",
 ["inputs"],"every spectrum, drift range and resolution","Tests compare one synthetic case.",["bliss/drift_search/kernels/drift_integration_cpu.cpp","bliss/drift_search/kernels/drift_integration_bland.cpp"],[("rounding of slope*time","drift_integration_cpu.cpp")])
p("C23","Hit extraction reports each component or maximum once, with its true peak",
 "Connected-component and local-maxima search report exactly the components/maxima above threshold, with the location, SNR, bandwidth and flag counts of their peak.",
 ["inputs"],"every drift plane","Tests use a few planes.",["bliss/drift_search/kernels/connected_components_cpu.cpp","bliss/drift_search/kernels/local_maxima_cpu.cpp","bliss/drift_search/hit_search.cpp"],[("component flood fill","connected_components_cpu.cpp")])
p("C24","Flaggers flag exactly the samples their thresholds select",
 "Magnitude, sigma-clip, spectral-kurtosis and rolloff flags are set for exactly the samples their definition selects.",
 ["inputs"],"every spectrum and threshold","Tests cover a few thresholds.",["bliss/flaggers"],[("threshold compare","bliss/flaggers")])
p("C25","Event matching pairs exactly the ON hits inside the drift-extrapolated window",
 "event_search groups ON hits whose extrapolated frequencies agree and drops those with a matching OFF hit.",
 ["inputs"],"every list of hits","One hand-made case is tested.",["bliss/drift_search/event_search.cpp"],[("distance and window test","event_search.cpp")])
p("C26","CUDA kernels compute what the CPU kernels compute",
 "For every input the CUDA implementations give the CPU results.",
 ["inputs","configurations"],"every input","No GPU in CI.",["bland/bland/ops/cuda","bliss/drift_search/kernels"],[("parallel kernels","*.cu")])
p("C27","Python bindings and pickling preserve objects and lifetimes",
 "Arrays exchanged through DLPack/nanobind keep the right contents and lifetimes, and pickled hits and drift planes unpickle equal.",
 ["inputs","histories"],"every exchange","Python tests are not part of the stable set.",["bland/python","bliss/python","bliss/core/include/core/pyblisscore.hpp"],[("DLPack capsules","bland/bland/ndarray.cpp")])

here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
