#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": state or [],
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "observe_at": observe or [],
                    "hook_needed": None},
    })

prop("C01", "Packing then unpacking returns exactly the original bytes",
     "For every byte content, including the empty one, every valid chunk size (integer or human-readable string) and every valid combination of blosc and bloscpack arguments, whatever any bytes/file packing call (or its deprecated alias) writes is restored bit for bit by every bytes/file unpacking call.",
     ["inputs", "configurations"],
     "all byte strings x all chunk sizes in [1, BLOSC_MAX_BUFFERSIZE] or size strings x typesize 1..255, clevel 0..9, shuffle on/off, every codec, every checksum, offsets on/off, any max_app_chunks, with or without metadata x every pack/unpack entry-point pair",
     "The tests round-trip one linspace array at four chunk sizes with default arguments plus two small byte strings; boundary remainders, single-byte chunks, tiny or incompressible chunks, other codecs, checksums and argument combinations are never tried.",
     ["bloscpack/file_io.py", "bloscpack/abstract_io.py", "bloscpack/args.py"],
     [("pack/unpack read-compress-write loops", "bloscpack/abstract_io.py: pack, unpack"),
      ("chunk partition", "bloscpack/args.py: calculate_nchunks"),
      ("plain/compressed file sources and sinks", "bloscpack/file_io.py: PlainFPSource, CompressedFPSink, CompressedFPSource, PlainFPSink")],
     ["pack_file_to_file", "pack_bytes_to_file", "pack_bytes_to_bytes", "unpack_file_from_file", "unpack_bytes_from_file", "unpack_bytes_from_bytes"])

prop("C02", "Metadata survives packing unchanged and fits exactly its reserved space",
     "Any JSON-representable metadata given to a packing call is returned equal by every unpacking call, whatever the metadata checksum, codec, level and reservation, without disturbing the data; when none is given, None is returned. The stored form is never larger than the uncompressed serialization (compression is dropped exactly when it does not help). A packing call fails with MetadataSectionTooSmall exactly when the stored form is larger than the reserved size.",
     ["inputs", "configurations"],
     "all JSON values (nested, unicode, empty, large, compressible or not) x 9 metadata checksums x 2 codecs x levels 0..9 x fixed or computed reservations, including reservations one byte below, at and above the stored size",
     "Tests use two small dictionaries, the default metadata arguments and one too-small reservation; unusual JSON values, other checksums/levels and exact reservation boundaries are not covered.",
     ["bloscpack/file_io.py", "bloscpack/args.py", "bloscpack/serializers.py", "bloscpack/metacodecs.py"],
     [("metadata section writer", "bloscpack/file_io.py: _write_metadata"),
      ("metadata section reader", "bloscpack/file_io.py: _read_metadata"),
      ("opportunistic compression and reservation", "bloscpack/args.py: MetadataArgs")],
     ["pack_bytes_to_bytes(metadata=, metadata_args=)", "unpack_bytes_from_bytes"])

prop("C03", "NumPy arrays round-trip with dtype, shape, order and bits intact",
     "For every object-free array with item size 1..255 and any memory layout (C, Fortran, strided, reversed, broadcast, zero-dimensional, empty), packing to file, bytes or memory with any arguments and a chunk size that is a multiple of the item size, then unpacking, yields an array with equal dtype (including byte order, sub-arrays, nesting and field padding), equal shape, Fortran order preserved, and bit-identical elements; the input array is not modified. Arrays containing objects are refused with ObjectNumpyArrayRejection, chunk sizes that split an item with ChunkSizeTypeSizeMismatch, and unpacking content that does not hold an array with NotANumpyArray.",
     ["inputs", "configurations"],
     "all dtypes (scalar, string, datetime, structured, nested, padded, sub-array) x shapes of 0..5 dimensions x layouts x chunk sizes x arguments",
     "The tests build round-trip comparisons but cover a fixed list of dtypes and shapes, always one chunk, and several compare nothing; multi-chunk arrays, padded structures and exotic layouts are not reached.",
     ["bloscpack/numpy_io.py"],
     [("array metadata and contiguity handling", "bloscpack/numpy_io.py: _ndarray_meta, PlainNumpySource"),
      ("array reconstruction", "bloscpack/numpy_io.py: PlainNumpySink, _conv, unpack_ndarray")],
     ["pack_ndarray_to_bytes", "pack_ndarray_to_file", "unpack_ndarray_from_bytes", "unpack_ndarray_from_file"])

prop("C04", "Every written file conforms to the documented format",
     "Every file produced by packing consists of exactly the documented sections: a 32-byte header, the optional metadata section, the optional offsets table, then each blosc chunk immediately followed by its checksum, with nothing missing, misplaced or left over. The header describes them truthfully (flags, checksum, typesize, chunk-size, last-chunk, nchunks, max-app-chunks, with chunk-size*(nchunks-1)+last-chunk equal to the data size), every used offset is the exact position of its chunk so that each chunk can be read independently, every unused offset is -1, and every checksum is the documented digest of the compressed bytes.",
     ["inputs", "configurations"],
     "all contents x chunk sizes x argument and metadata combinations, judged by an independent parser written from the README",
     "Tests compare a handful of header fields and the first offset of one file; nothing checks all offsets, checksums, the metadata section and the absence of stray bytes for other inputs.",
     ["bloscpack/file_io.py", "bloscpack/headers.py", "bloscpack/checksums.py", "bloscpack/abstract_io.py", "README.rst"],
     [("header encoding", "bloscpack/headers.py: BloscpackHeader.encode, MetadataHeader.encode"),
      ("offset bookkeeping", "bloscpack/file_io.py: CompressedFPSink"),
      ("chunk checksums", "bloscpack/abstract_io.py: CompressedSink.do_checksum")],
     ["bytes written by any pack_* call"])

prop("C05", "Every file valid under the documented format can be read",
     "Any file valid under the documented format, whoever wrote it and with whatever choices the format leaves open (number of reserved offsets, offset entries left at -1, chunk-size or last-chunk unknown or chunks of non-uniform size, chunks using different codecs, levels, typesizes or filters, any checksum, reserved metadata space, legacy NumPy dtype descriptions), is unpacked to the content and metadata it encodes. A file whose format version is not the supported one is refused with FormatVersionMismatch, and one whose number of chunks is unknown is refused rather than read as empty.",
     ["inputs", "programs"],
     "all conforming files, produced by an independent encoder written from the README, including variants this library never writes itself",
     "Tests only read files written by the same code, so reader and writer errors cancel out and format freedoms are never exercised.",
     ["bloscpack/file_io.py", "bloscpack/headers.py", "bloscpack/numpy_io.py", "README.rst"],
     [("reading the beginning of a file", "bloscpack/file_io.py: _read_beginning"),
      ("chunk reader", "bloscpack/file_io.py: _read_compressed_chunk_fp, CompressedFPSource"),
      ("legacy dtype support", "bloscpack/numpy_io.py: _conv, PlainNumpySink")],
     ["unpack_bytes_from_bytes", "unpack_file_from_file", "unpack_ndarray_from_bytes"])

prop("C06", "Corruption covered by a checksum never goes unnoticed",
     "When a file carries chunk checksums, any alteration of stored chunk bytes or digests makes every reader (bytes, file, array, in-memory, command line) fail with an error instead of returning data, and appending to a file whose last chunk is corrupted fails instead of re-checksumming it. The same holds for the stored metadata bytes and their digest when metadata carries a checksum. A file that was not altered is never rejected.",
     ["inputs", "fault_sequences"],
     "all files with checksums x all positions in chunk, chunk digest, metadata and metadata digest x all bit flips, byte replacements, swaps and zeroed ranges",
     "One test flips one byte of the first chunk of one file with the default checksum; other positions, checksums, digests, later chunks, metadata and the other readers are untested.",
     ["bloscpack/abstract_io.py", "bloscpack/file_io.py", "bloscpack/memory_io.py", "bloscpack/append.py", "bloscpack/checksums.py"],
     [("chunk digest verification", "bloscpack/abstract_io.py: unpack"),
      ("metadata digest verification", "bloscpack/file_io.py: _read_metadata"),
      ("last chunk verification on append", "bloscpack/append.py: append_fp")],
     ["ChecksumMismatch", "exit status of blpk decompress"])

prop("C07", "Incomplete or inconsistent content never passes for the complete data",
     "Every proper prefix of a packed file (with or without checksums) is rejected with an error by every unpacking call, never returned as shorter or partial data. Unpacking an array whose stored data holds fewer or more bytes than its description requires fails with an ordinary exception and never returns uninitialised elements or writes outside the array.",
     ["inputs", "crash_points"],
     "all packed files x all truncation lengths; all array files x all mismatches between described and stored size, including those made by appending to an array file",
     "No test truncates a file or unpacks an array whose description and data disagree.",
     ["bloscpack/file_io.py", "bloscpack/abstract_io.py", "bloscpack/numpy_io.py", "bloscpack/headers.py"],
     [("length checks while decoding", "bloscpack/headers.py: BloscpackHeader.decode, MetadataHeader.decode, decode_blosc_header"),
      ("missing digest handling", "bloscpack/abstract_io.py: unpack"),
      ("array bounds", "bloscpack/numpy_io.py: PlainNumpySink.put, unpack_ndarray")],
     ["unpack_bytes_from_bytes", "unpack_file_from_file", "unpack_ndarray_from_bytes", "unpack_ndarray_from_file"])

prop("C08", "Arbitrary or hostile input is contained",
     "Reading any byte sequence whatever (unpacking to bytes or to an array, appending to it, or asking for information about it) terminates promptly and either succeeds or raises an ordinary Python exception. It never crashes or hangs the process.",
     ["inputs"],
     "all byte strings, in particular structure-aware mutations of valid files: header, metadata, offset, chunk-header fields set to extreme values, sections removed, duplicated or spliced",
     "Tests never feed malformed files to the readers beyond one flipped byte and a handful of header decoder calls.",
     ["bloscpack/file_io.py", "bloscpack/headers.py", "bloscpack/numpy_io.py", "bloscpack/append.py", "bloscpack/cli.py"],
     [("header validation", "bloscpack/headers.py"), ("array bounds", "bloscpack/numpy_io.py: PlainNumpySink")],
     ["exit status of the reading process"])

prop("C09", "Appending is concatenation, over any history of appends",
     "After any sequence of successful appends (through file names, file objects or the command line, with any contents and any codec, level, shuffle and typesize), unpacking yields the original content followed by the appended contents in order, with metadata unchanged. The file remains conforming: header counts and sizes, remaining append capacity, all offsets and checksums are right, reserved space is untouched and no stale bytes remain; append_fp returns the number of chunks it added.",
     ["histories", "inputs"],
     "all initial files x all sequences of appends, including empty appends, appends into the last chunk, exact fills, and appends to empty files, interleaved with metadata rewrites",
     "Tests append one fixed array once or twice with one chunk size and mostly compare only the decompressed bytes.",
     ["bloscpack/append.py", "bloscpack/file_io.py", "bloscpack/cli.py"],
     [("append algorithm", "bloscpack/append.py: append_fp, append"),
      ("offset rewriting", "bloscpack/append.py: append_fp; bloscpack/file_io.py: _write_offsets")],
     ["append", "append_fp", "blpk append", "unpack_*"],
     [{"name": "header/offsets/last chunk", "meaning": "updated in place by every append", "where": "the packed file"}])

prop("C10", "A refused append is refused for cause and leaves the file untouched",
     "An append is refused with NotEnoughSpace exactly when it needs more new chunks than the remaining append capacity, and always with an error when the file has no offsets or the blosc arguments are missing keys or invalid. A refused append leaves the target file byte for byte unchanged and still usable.",
     ["histories", "inputs", "configurations"],
     "all files x all remaining capacities x append sizes around each capacity boundary x invalid argument dictionaries, at any point of an append history",
     "Two tests check that the exceptions are raised in one situation; neither looks at the file afterwards nor at the capacity boundary.",
     ["bloscpack/append.py"],
     [("capacity check before writing", "bloscpack/append.py: append_fp"),
      ("argument check", "bloscpack/args.py: _check_blosc_args")],
     ["append", "append_fp", "NotEnoughSpace"])

prop("C11", "Rewriting metadata in place changes only the metadata",
     "Rewriting the metadata of a file, at any point of its history and with any allowed codec, level or checksum override, makes every reader return the new metadata while data, offsets, append capacity and reserved space stay as they were and nothing of the previous metadata is left behind. A rewrite of a file without metadata or one that does not fit the reserved space, does not change the value, names an unknown codec, serializer or checksum, or would change the digest size is refused with the documented exception and leaves the file byte for byte unchanged.",
     ["histories", "inputs", "configurations"],
     "all files with metadata x all sequences of rewrites (growing, shrinking, boundary-sized) and appends x override combinations",
     "One test rewrites a bare metadata section, outside any file, with a few fixed values.",
     ["bloscpack/append.py", "bloscpack/file_io.py", "bloscpack/cli.py"],
     [("metadata rewrite", "bloscpack/append.py: _rewrite_metadata_fp, _recreate_metadata, _seek_to_metadata")],
     ["blpk append --metadata", "_rewrite_metadata_fp"])

prop("C12", "Chunk partition covers the input exactly",
     "For every input size and valid chunk size, the computed partition has chunk_size*(nchunks-1)+last_chunk equal to the input size, 1 <= last_chunk <= chunk_size, and chunk_size equal to the requested size (or to the input size if that is smaller); an empty input gives one empty chunk. Chunk sizes outside [1, BLOSC_MAX_BUFFERSIZE], non-integer types and negative input sizes are refused, and more than the maximum number of chunks raises ChunkingException.",
     ["inputs"],
     "all input sizes from 0 to beyond 2**63 and all chunk sizes (integers and human-readable strings), computed without packing any data",
     "Tests try about a dozen small pairs; large sizes, where rounding or overflow errors would appear, are not tried.",
     ["bloscpack/args.py", "bloscpack/pretty.py"],
     [("chunk partition", "bloscpack/args.py: calculate_nchunks")],
     ["calculate_nchunks"])

prop("C13", "Header encoding and decoding are exact inverses and validate",
     "Every valid bloscpack header and metadata header encodes to exactly 32 bytes laid out as documented and decodes back to an equal header; every 32-byte buffer that decodes re-encodes to a buffer with the same meaning. Values outside the documented ranges or constraints are refused when a header is constructed, and buffers of a wrong length, as well as bloscpack headers with a wrong magic or unknown option bits, are refused when decoded.",
     ["inputs"],
     "all valid header field combinations, all out-of-range values, and all 32-byte buffers",
     "Tests encode a few fields one at a time from fixed values; combinations, extremes and arbitrary buffers are not covered.",
     ["bloscpack/headers.py", "README.rst"],
     [("header codecs", "bloscpack/headers.py: BloscpackHeader, MetadataHeader"),
      ("range checks", "bloscpack/headers.py: check_range, _check_str, check_options")],
     ["BloscpackHeader.encode/decode", "MetadataHeader.encode/decode", "decode_blosc_header", "decode_blosc_flags"])

prop("C14", "Reserved append capacity follows its documented rule",
     "The append capacity recorded in a file is the given integer, or the result of the given function of the chunk count, reduced only as needed to keep nchunks + capacity within the int64 maximum, and it is 0 whenever the file has no offsets or the chunk count is unknown. Negative, oversized or non-integer values and functions returning negative or non-integer values are refused.",
     ["inputs", "configurations"],
     "all chunk counts up to 2**63-1 x all integer capacities x functions returning small, huge, negative or non-integer values x offsets on/off",
     "Tests check a few fixed pairs of the helper; files written with such values are not inspected.",
     ["bloscpack/args.py", "bloscpack/abstract_io.py"],
     [("capacity computation", "bloscpack/args.py: _handle_max_apps"), ("header construction", "bloscpack/abstract_io.py: pack")],
     ["max_app_chunks of the written header"])

prop("C15", "Requested compression settings are applied to every chunk",
     "Every chunk written by packing or appending is what blosc produces for that slice of the input with exactly the requested typesize, level, shuffle setting and codec (the array item size as typesize for NumPy arrays, the file's typesize for appends that do not name one, the documented defaults for anything not requested). The storage cost never exceeds the input plus the documented overhead of header, metadata, offsets, 16 bytes and a digest per chunk.",
     ["inputs", "configurations"],
     "all contents x typesize 1..255 x clevel 0..9 x shuffle x codec x default/omitted settings, for pack, array pack, append and the command line, compared chunk by chunk with a direct blosc call",
     "Tests look at the codec bits of one chunk per codec and at the flags of two chunks.",
     ["bloscpack/abstract_io.py", "bloscpack/numpy_io.py", "bloscpack/append.py", "bloscpack/args.py", "bloscpack/cli.py", "bloscpack/defaults.py"],
     [("chunk compression", "bloscpack/abstract_io.py: _compress_chunk_str; bloscpack/numpy_io.py: _compress_chunk_ptr"),
      ("argument objects", "bloscpack/args.py: BloscArgs"),
      ("append defaults", "bloscpack/append.py: append_fp")],
     ["blosc headers and bytes of stored chunks"])

prop("C16", "The command line round-trips files and reports the truth",
     "For every file and every valid option combination, blpk compress followed by blpk decompress recreates the file exactly with exit status 0, under the documented default names (.blp added and removed), and produces the file the Python API would with the same settings. blpk info prints the header, first offsets, metadata and first chunk settings actually stored in the file, decompress prints the stored metadata, and the sizes and counts reported in verbose mode are the real ones.",
     ["inputs", "configurations"],
     "all file contents and names x codec, level, shuffle, typesize, chunk-size, checksum, offsets, metadata, thread count, verbosity and alias combinations",
     "The cram scripts run a fixed file through a fixed list of options, several do not pass here, and none compares the command line with the API.",
     ["bloscpack/cli.py", "bloscpack/file_io.py", "bloscpack/pretty.py", "blpk"],
     [("argument processing", "bloscpack/cli.py: create_parser, process_compression_args, process_decompression_args, main")],
     ["exit status, output and files of blpk"])

prop("C17", "The command line never overwrites without --force or alters its inputs",
     "Without --force, no compress or decompress invocation changes an already existing output file: it reports an error, exits non-zero and leaves the directory as it was; with --force the output is replaced. No compress, decompress, info or append invocation ever modifies its input, metadata or appended-from file (apart from the file append is asked to extend), or creates any file other than its output.",
     ["inputs", "configurations", "histories"],
     "all sequences of blpk invocations with explicit and default output names over a directory with pre-existing files, with and without --force and --no-check-extension (distinct input and output paths)",
     "One cram script checks the message for one file pair; unit tests mock the file system away.",
     ["bloscpack/cli.py"],
     [("existence checks", "bloscpack/cli.py: check_files"), ("output naming", "bloscpack/cli.py: process_compression_args, process_decompression_args")],
     ["directory contents before and after each invocation"])

prop("C18", "Command line failures are reported as failures",
     "Whenever blpk cannot do what was asked (missing input, missing or invalid metadata file, invalid option value, wrong extension, corrupted or truncated or non-bloscpack input, wrong format version, insufficient append space), it exits with a non-zero status. For missing files, existing outputs, wrong extensions, checksum mismatches and format version mismatches it prints an error message of the form 'blpk: error: ...' instead of a traceback.",
     ["inputs", "configurations", "fault_sequences"],
     "all subcommands x all kinds of bad input and bad option values, on otherwise valid files",
     "Cram covers a missing file and two bad chunk sizes; the corruption and version-mismatch branches are never run.",
     ["bloscpack/cli.py", "bloscpack/log.py"],
     [("error reporting", "bloscpack/cli.py: main; bloscpack/log.py: error")],
     ["exit status and output of blpk"])

prop("C19", "An interrupted compression never looks finished",
     "If packing fails or is killed at any point before its last chunk is stored (read error, write error, full disk, interrupt), the error reaches the caller and whatever was written so far has only -1 in its offsets table and is rejected by every reader. I/O errors during unpacking or appending reach the caller as well.",
     ["crash_points", "fault_sequences"],
     "all inputs x every read and every write of the operation as failure point, with short writes, exceptions of several kinds and process kills",
     "No test injects an I/O failure.",
     ["bloscpack/file_io.py", "bloscpack/abstract_io.py", "README.rst"],
     [("offsets initialised to -1, filled in last", "bloscpack/file_io.py: CompressedFPSink.init_offsets, finalize")],
     ["partially written output", "exception seen by the caller"])

prop("C20", "Calls are independent of history, verbosity and thread count",
     "No packing, unpacking or appending call changes the argument objects, metadata or arrays given to it, and its result depends only on its inputs: not on earlier calls, successful or failed, nor on reusing the same argument objects, nor on calls in other threads. The verbosity level and the number of blosc threads never change what is stored or restored, only what is printed.",
     ["histories", "configurations", "schedules"],
     "all sequences of mixed API calls sharing argument objects, compared with the same call made on fresh objects; all verbosity levels; thread counts 1..16; concurrent calls from several Python threads",
     "Each test makes isolated calls with fresh arguments at normal verbosity.",
     ["bloscpack/args.py", "bloscpack/abstract_io.py", "bloscpack/file_io.py", "bloscpack/numpy_io.py", "bloscpack/append.py", "bloscpack/log.py"],
     [("argument objects", "bloscpack/args.py: BloscArgs, BloscpackArgs, MetadataArgs"), ("logging", "bloscpack/log.py")],
     ["argument objects before/after", "stored bytes"])

prop("C21", "Sources and sinks are interchangeable",
     "Any plain source (file object, memory chunks, array) can be packed into any compressed sink (file object, memory) and unpacked into any plain sink with the same resulting data, metadata, chunk sizes and checksums; both storage kinds hold the same compressed chunks. Objects of the wrong kind are refused with TypeError.",
     ["inputs", "configurations", "histories"],
     "all contents x chunk sizes x arguments x all chains of pack/unpack steps across the source and sink kinds",
     "One test runs one fixed chain on one fixed array with default arguments.",
     ["bloscpack/abstract_io.py", "bloscpack/memory_io.py", "bloscpack/file_io.py", "bloscpack/numpy_io.py"],
     [("source/sink protocol", "bloscpack/abstract_io.py: PlainSource, CompressedSource, PlainSink, CompressedSink"),
      ("memory implementations", "bloscpack/memory_io.py")],
     ["pack", "unpack", "CompressedMemorySink", "PlainMemorySink"])

prop("C22", "Compression and decompression stream chunk by chunk",
     "Packing, appending and unpacking files need memory proportional to the chunk size (plus a few bytes per chunk), never to the file size. Packing and appending read their input exactly once, in order, and unpacking never goes back further than the 16-byte header of the chunk at hand. Packing without offsets writes the output in a single forward pass without seeking back.",
     ["inputs", "configurations"],
     "all files of many chunks x chunk sizes x arguments; all single-pass packings without offsets",
     "Tests check results only; memory use and access pattern are not observed.",
     ["bloscpack/file_io.py", "bloscpack/abstract_io.py", "README.rst"],
     [("chunked reading and writing", "bloscpack/file_io.py: PlainFPSource, PlainFPSink, CompressedFPSource, CompressedFPSink")],
     ["peak traced memory", "sequence of read/write/seek calls"])

prop("C23", "Human-readable sizes mean what they say",
     "A size string 'xS' with suffix B, K, M, G or T is parsed as x times the corresponding power of 1024 truncated to whole bytes, and any other suffix is refused. A printed size uses the largest unit not exceeding it, is rounded to two decimals and, parsed back, differs from the original by no more than that rounding.",
     ["inputs"],
     "all sizes from 0 to beyond 1024T and all size strings",
     "Tests check about ten values.",
     ["bloscpack/pretty.py", "bloscpack/constants.py", "bloscpack/cli.py"],
     [("size formatting and parsing", "bloscpack/pretty.py: pretty_size, double_pretty_size, reverse_pretty")],
     ["pretty_size", "double_pretty_size", "reverse_pretty", "--chunk-size"])

prop("C24", "Argument and header objects are faithful, independent mappings",
     "BloscArgs, BloscpackArgs, MetadataArgs, BloscpackHeader and MetadataHeader are mappings over a fixed set of named fields with documented defaults. A value given by position, name, attribute, item or update is the value seen through every view (item, attribute, iteration, **, equality, str, repr, pformat and, for headers, encode) until it is set again, and changes no other field and no other object: copies, deep copies, pickles and new objects are equal to what they were made from and independent of it. Fields cannot be deleted and unknown names are refused.",
     ["inputs", "histories"],
     "all classes x all initial values x all sequences of assignments, updates, copies, refused and unknown operations on several live objects",
     "Tests construct a few objects and look at single fields.",
     ["bloscpack/abstract_objects.py", "bloscpack/args.py", "bloscpack/headers.py"],
     [("mapping", "bloscpack/abstract_objects.py: MutableMappingObject"), ("argument objects", "bloscpack/args.py"),
      ("headers", "bloscpack/headers.py: BloscpackHeader, MetadataHeader")],
     ["fields of the objects", "pformat()", "encode()"])

prop("C25", "Verbosity only adds output, and every line is attributed",
     "A message is printed exactly when its level (NORMAL, VERBOSE, DEBUG) is reached by the current one, each of its non-empty lines on its own after the current prefix and ': '; errors are printed at every level after 'prefix: error: ' and end the program with the given status; unknown levels are refused. Library calls and successful blpk compress and append print nothing at the normal level; the sizes, counts and ratios that library calls report at the verbose level are the real ones; -v and -d each add lines (to every successful compress, decompress and append) but remove none, and change neither the exit status nor any file.",
     ["inputs", "configurations", "histories"],
     "all messages x levels x prefixes; all library calls and blpk invocations, successful or failing, at each level",
     "Cram compares a few fixed transcripts.",
     ["bloscpack/log.py", "bloscpack/cli.py"],
     [("levels and prefix", "bloscpack/log.py"), ("-v, -d", "bloscpack/cli.py: main")],
     ["standard output", "exit status", "files"])

prop("C26", "Every call closes what it opened and leaves the caller's files open",
     "Whether it succeeds or fails, for whatever reason and at whatever point, every call that takes file names has closed all files it opened when it returns or raises, without relying on the garbage collector, and has created no file but its named output and removed none. Calls that work on file objects or on sources and sinks over them never close the file objects of the caller.",
     ["inputs", "fault_sequences"],
     "all calls x contents x chunk counts x ways to fail: missing files, directories, invalid arguments, damaged or unsuitable contents, an error in any operation on a file or in blosc",
     "Tests look at results; descriptors and failing calls are not observed.",
     ["bloscpack/file_io.py", "bloscpack/numpy_io.py", "bloscpack/append.py", "bloscpack/memory_io.py"],
     [("calls with file names", "bloscpack/file_io.py, bloscpack/numpy_io.py, bloscpack/append.py"),
      ("sources and sinks", "bloscpack/file_io.py: PlainFPSource, PlainFPSink, CompressedFPSource, CompressedFPSink")],
     ["open descriptors", "ResourceWarning", "closed attribute of file objects", "directory listing"])

prop("C27", "The named building blocks do what their names say",
     "The registries hold exactly the documented checksums, metadata codecs and serializers, in the order of their numbers in the format. Each checksum is the named function of the data with the declared length, the metadata codecs restore every input at every level, the serializer restores every JSON value, and the validity checks accept exactly the registered names and refuse all others with NoSuchChecksum, NoSuchCodec or NoSuchSerializer. Decoding the header of a blosc chunk and its flags yields what is stored there, and the option bits are decoded for exactly the defined combinations. Each deprecated name warns with DeprecationWarning and otherwise behaves exactly like its replacement, which does not warn.",
     ["inputs", "configurations"],
     "all data x checksums, codecs and levels; all names; all chunk headers and option strings; all arguments of the deprecated calls",
     "Tests use one or two inputs per function and never call the deprecated names with other arguments.",
     ["bloscpack/checksums.py", "bloscpack/metacodecs.py", "bloscpack/serializers.py", "bloscpack/headers.py", "bloscpack/__init__.py"],
     [("registries", "bloscpack/checksums.py: CHECKSUMS, bloscpack/metacodecs.py: CODECS, bloscpack/serializers.py: SERIALIZERS"),
      ("chunk headers and options", "bloscpack/headers.py: decode_blosc_header, decode_blosc_flags, check_options, decode_options"),
      ("deprecated names", "bloscpack/file_io.py, bloscpack/numpy_io.py")],
     ["digests", "lookups", "decoded headers", "warnings"])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    print(len(P), 'properties')
