#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays valid JSONL)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": mechanism, "where": files[0]}]}
    if state: a["state"] = [{"name": x.strip(), "where": files[0]} for x in state.split(",")]
    if observe: a["observe_at"] = [observe]
    if hook is not None: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "How the bytes arrive never changes what a synchronous parse returns",
 "For the same media bytes, the result of parsing image or track metadata is the same whether the bytes come from memory, from a seekable reader or from a read-only stream, and however the reader splits them into short reads or interrupts itself with retryable errors. The same entries, values, flags and text come back in the same order, or every delivery reports the same kind of definite failure (unsupported format, no EXIF, no track, or a failed parse).",
 ["inputs", "schedules", "fault_sequences"],
 "every supported container with more than 128 bytes (well-formed, truncated or damaged), every way of splitting the stream into reads, every number and position of EINTR results, and the three delivery modes",
 "The tests parse fixed fixture files from std::fs::File or whole slices; no test drives short reads, EINTR, or moves metadata across the 128-byte / 8 KiB / 16 KiB fill boundaries of the read loop, where the modes take different code paths.",
 ["src/parser.rs", "src/exif.rs", "src/heif.rs", "src/cr3.rs", "src/raf.rs", "src/jpeg.rs", "src/png.rs", "src/mov.rs", "src/ebml/webm.rs", "src/exif/travel.rs"],
 "fill / need-more / clear-and-skip loop shared by all formats, with in-memory mode bypassing it",
 "parse buffer, read position, resume state", "MediaParser::parse_exif / parse_track / parse_image_metadata results")

prop("C02", "Asynchronous parsing returns exactly what synchronous parsing returns",
 "For the same media bytes, parsing EXIF, image metadata or a video/audio track through the asynchronous API yields the same entries, values, flags and text, or the same kind of failure, as the synchronous API. This holds for every schedule of partial reads, pending polls, delayed or spurious wake-ups, seek completions, threads that poll the task, and other parses running concurrently; track parsing of still images is outside this (documented to differ).",
 ["inputs", "schedules"],
 "every supported container, every poll/wake/partial-read schedule of several concurrent tasks, seekable, read-only and in-memory asynchronous sources",
 "The async tests use tokio::fs::File on about twenty fixtures with one ready-made schedule; CR3 and RAF have no async test at all and no test returns Pending or short reads.",
 ["src/parser_async.rs", "src/parser.rs", "src/exif.rs"],
 "hand-written asynchronous twins of the fill/skip loop and of the per-format dispatch",
 "parse buffer, resume state, suspended futures", "parse_exif_async / parse_image_metadata_async / parse_track_async results")

prop("C03", "EXIF and PNG text stored in an image are reported completely and exactly",
 "Every well-formed EXIF entry stored in the primary directories, EXIF and GPS sub-directories of a JPEG, PNG, HEIF/AVIF, TIFF, RAF or CR3 file is reported, in storage order, under the right directory and tag and with the value that was stored (an entry that repeats the tag of an earlier one of the same directory index is left out); known tags are identified by name, and the typed, textual and serialised forms of a value and the decoded GPS position (signed decimal degrees, metres, ISO 6709) agree with what was stored; nothing that was not stored is reported, and PNG text chunks (of up to 1 MiB each) come back with their exact keys and values. This holds wherever in the file the metadata sits and however the file is delivered; a file that stores no EXIF is reported as having none.",
 ["inputs", "schedules", "configurations"],
 "every byte order, entry count, value type, sub-directory nesting, offset layout, padding size and container variant accepted by the format parsers, under every delivery mode and read split",
 "Fixture tests check a handful of tags of ~15 files; they never vary placement of metadata relative to read boundaries, nor type/count/byte-order combinations together with delivery.",
 ["src/exif/exif_iter.rs", "src/exif/ifd.rs", "src/exif/travel.rs", "src/values.rs", "src/jpeg.rs", "src/png.rs", "src/heif.rs", "src/cr3.rs", "src/raf.rs", "src/bbox.rs", "src/bbox/iloc.rs", "src/bbox/iinf.rs", "src/exif/exif_exif.rs"],
 "container walk locating the EXIF block, then lazy directory iteration over the shared buffer",
 "EXIF block location, directory offsets", "ExifIter items, Exif::get, PNG text accessors")

prop("C04", "Track metadata stored in a video or audio file is reported exactly",
 "Duration, creation time, pixel dimensions, maker, model, software, author and location stored in the headers of an MP4, MOV, 3GP, MKV or WebM file are reported with exactly the stored values, and fields the file does not store are absent. This holds wherever the headers sit relative to the media data and however the file is delivered, with the location also available in decoded form, whose decimal, metric and ISO 6709 renderings agree with it.",
 ["inputs", "schedules", "configurations"],
 "every box/element order, header version, padding and media-data size, key/value encoding used by the supported containers, under every delivery mode and read split",
 "Eight fixture videos, always via File; media-data sizes, header versions 0/1, positions of the headers and short reads are not varied.",
 ["src/video.rs", "src/mov.rs", "src/ebml/webm.rs", "src/ebml/element.rs", "src/ebml/vint.rs", "src/bbox.rs", "src/bbox/mvhd.rs", "src/bbox/tkhd.rs", "src/bbox/ilst.rs", "src/bbox/keys.rs", "src/bbox/meta.rs"],
 "box / element walk with skip over media data, then field decoding", "header location, parsed fields", "TrackInfo::get / iter / gps_info")

prop("C05", "A reused parser behaves like a new one after any history",
 "The result of a parse on a parser that has been used before is identical to the result on a freshly created parser, whatever the earlier parses were and however they ended: success, clean failure, I/O error, truncated data, panicking reader or abandoned asynchronous parse. This also holds while results of earlier parses are still alive, partly consumed, cloned or dropped.",
 ["histories", "fault_sequences"],
 "every sequence of parse operations (image, track, metadata; sync, async; streamed, in-memory) over arbitrary media with arbitrary injected faults and result lifetimes on one parser",
 "Tests share one parser over a few good fixtures; none injects an I/O error, a panic or a cancellation between uses and compares with a fresh parser.",
 ["src/parser.rs"], "buffer recycling and reset between parses", "cached buffer, active buffer, position, memory-mode payload",
 "results of consecutive parse_* calls")

prop("C06", "Results already handed out never change",
 "Once a parse has returned, the entries, values and flags readable from its result, its clones and its converted form never change, whatever happens later to the parser or to other results: further parses that recycle buffers, failures, drops on other threads, or dropping the parser itself. Values read late are equal to values read immediately.",
 ["histories", "schedules"],
 "every interleaving of reading, cloning, converting and dropping results with later parses on the same parser, across threads",
 "Tests consume results right away; none keeps a result alive across buffer-recycling parses and re-reads it.",
 ["src/parser.rs", "src/exif/exif_iter.rs", "src/exif/exif_exif.rs"], "shared reference-counted buffer, recycled only when unshared",
 "shared buffer allocation", "ExifIter / Exif / TrackInfo / ImageMetadata reads")

prop("C07", "EXIF iterators are independent, rewindable and agree with the eager view",
 "An EXIF iterator always yields the same fixed sequence of entries: cloning or rewinding at any point gives an iterator that starts again from the first entry, never disturbing the original's progress, and asking for GPS information never moves an iterator. The eager form built from an iterator contains exactly the values, errors, GPS information and embedded-track flag that the iterator sequence determines.",
 ["histories", "inputs"],
 "every interleaving of next, clone, rewind, GPS queries and eager conversion over any number of iterators on any image, including files with several EXIF blocks",
 "Tests call clone/rewind at one or two positions on single-block files; multi-block (CR3) iterators are never rewound after use.",
 ["src/exif/exif_iter.rs", "src/exif/exif_exif.rs", "src/exif/gps.rs"], "lazy iterator over shared directories with per-iterator cursor state",
 "iterator cursor, visited offsets, current block", "ExifIter::next/clone/clone_rewound/rewind/parse_gps, Exif accessors")

prop("C08", "An I/O error is reported as that I/O error, never as missing or bad data",
 "When the underlying reader or seek fails with a hard error, the parse that depended on it fails with an I/O error of the same kind, or, if the metadata had already been obtained, succeeds with exactly the fault-free result; it never reports that metadata is missing, that the file is malformed or unsupported, and never returns partial metadata. The only tolerated loss is the embedded-track hint, which is read on a best-effort basis after the EXIF block. A reader error of kind UnexpectedEof counts as end of data and is covered by the truncation property.",
 ["fault_sequences", "inputs", "crash_points"],
 "every position of a failing read or seek, every error kind, every supported container, sync and async, streamed sources and file helpers",
 "No test injects a failing reader or seek at all.",
 ["src/parser.rs", "src/parser_async.rs", "src/error.rs", "src/exif.rs"], "propagation of reader errors through the fill/skip loop and error conversions",
 "pending I/O result", "Error variants returned by parse_* and source constructors")

prop("C09", "A stream cut short yields an error or true values, never wrong ones",
 "If the data ends early at any byte, a parse either fails or returns only entries, text and track fields that the complete file would also have given, with the same values. It never panics, hangs or invents values. Values derived from several stored entries may miss the parts that were lost: a time without its zone when the zone entry is gone, GPS components individually absent.",
 ["crash_points", "inputs"],
 "every truncation point of every supported container, under every delivery mode and split",
 "A few tests truncate specific structures; truncation at every offset in every format and mode is not explored.",
 ["src/parser.rs", "src/exif/exif_iter.rs", "src/values.rs", "src/mov.rs", "src/ebml/webm.rs", "src/png.rs", "src/jpeg.rs"],
 "bounds checks and end-of-file handling in the walkers", "buffer end, declared sizes", "parse results on truncated input")

prop("C10", "Damaged media never crash, hang or overrun, whatever the delivery",
 "For any bytes whatsoever, delivered in any way and with any I/O faults, source construction, parsing and reading every part of the result terminate without panic, abort or stack overflow, and take a bounded number of reads and produce a bounded number of entries relative to the input size.",
 ["inputs", "fault_sequences", "schedules"],
 "all byte strings obtained by flipping, splicing, tearing, resizing and re-pointing fields of valid media, and random bytes behind valid signatures, under all deliveries and faults",
 "The tests contain a handful of crash reproducers; the fuzz target covers in-memory parsing without I/O faults, async, or step bounds.",
 ["src/parser.rs", "src/exif/exif_iter.rs", "src/values.rs", "src/bbox.rs", "src/ebml/webm.rs", "src/ebml/element.rs", "src/jpeg.rs", "src/png.rs", "src/heif.rs", "src/cr3.rs", "src/exif/gps.rs"],
 "bounds and loop guards in all walkers and decoders", "declared sizes and offsets", "any public call on hostile input")

prop("C11", "Memory use is bounded by the data received, not by sizes it declares",
 "Peak memory allocated while parsing is bounded by a small multiple of the bytes actually delivered plus a fixed allowance, whatever box, chunk, element or entry sizes and counts the file declares. In particular tiny files declaring huge payloads do not cause large allocations.",
 ["inputs", "fault_sequences"],
 "every declared size or count in every container, including near-overflow ones, for short and long streams in all delivery modes",
 "One fixture (oom_large_box.heic) covers one box size; allocation is never measured.",
 ["src/parser.rs", "src/parser_async.rs", "src/values.rs", "src/png.rs", "src/ebml/webm.rs", "src/bbox.rs", "src/exif/exif_iter.rs"],
 "growth by bytes read rather than by declared size; caps on captured text", "parse buffer capacity", "allocator accounting around parse_*")

prop("C12", "Parsers recycle one bounded buffer; in-memory input is shared, not copied",
 "A long-lived parser never retains more than one parse buffer, and after a large file the retained memory shrinks back to about 4 MiB once it parses again with earlier results released; memory does not grow with the number of files parsed. Parsing image metadata from in-memory bytes allocates only a small amount beyond those bytes and the result keeps them alive exactly as long as it exists; its eager form, parsed up front, holds none of them.",
 ["histories", "inputs"],
 "every sequence of small and large files, successes and failures, with results held or released, streamed or in-memory",
 "Two unit tests look at one recycle step through private fields; growth over long histories and retained size after failures are not measured.",
 ["src/parser.rs"], "single cached buffer with shrink-on-reuse; zero-copy memory mode", "cached allocation", "allocator accounting between parses; payload reference lifetime")

prop("C13", "Seekable sources are skipped over, not read through",
 "When a payload box or chunk that the parser has no use for comes before or between the metadata of a seekable source, parsing seeks over it: the bytes read are bounded by the other bytes of the file plus a fixed read-ahead per payload run, whatever the payload size, and are never more than the read-only delivery of the same file reads (up to one small read). The result is that of the same file without the payload. This covers the media data, free and unknown boxes of MP4, MOV and 3GP files, the media data between the meta box and the EXIF item of HEIF and AVIF files, and image data and other large non-text chunks of PNG files.",
 ["inputs", "configurations", "schedules"],
 "every such container, payload kind, size (kilobytes to terabytes), number and position, every read split and poll schedule, sync and async",
 "Existing tests check only that seekable parsing succeeds; bytes read are never counted.",
 ["src/parser.rs", "src/parser_async.rs", "src/mov.rs", "src/heif.rs", "src/png.rs", "src/ebml/webm.rs"],
 "skip request satisfied by seeking", "reader offset", "byte and seek counts at the reader")

prop("C14", "Parsing a live stream stops once the metadata has arrived",
 "A read-only stream that has delivered the metadata plus a bounded look-ahead is enough for the parse to complete (with the same result as the whole file), even if the stream then stalls forever, and a stream that resumes after any stall is parsed to completion. The parser never waits for the end of the stream when the metadata precedes the payload.",
 ["schedules", "fault_sequences", "inputs"],
 "every container with metadata ahead of its payload, every stall position at or beyond metadata end plus the look-ahead, sync and async",
 "Tests read complete files; a stalling stream never occurs.",
 ["src/parser.rs", "src/parser_async.rs", "src/exif.rs", "src/mov.rs", "src/ebml/webm.rs"],
 "demand-driven fill sizes", "bytes requested beyond need", "blocked reads in the simulated stream")

prop("C15", "One damaged EXIF entry never hides or alters the others, and is reported",
 "Damage confined to one directory entry's type, count, value location or value bytes leaves every other entry of the image reported with its stored value, except those only reachable through the damaged entry when it is itself a pointer to a sub-directory. The damaged entry itself either yields the value that its own type, count and location still denote or is reported as an error for its tag, in both the lazy and the eager view; it is never silently lost, and always an error when the location it gives lies outside the EXIF data.",
 ["inputs", "fault_sequences"],
 "every entry of every directory, every damaging change of type/count/offset/value, all containers, under every delivery",
 "A few tests corrupt specific entries of one fixture.",
 ["src/exif/exif_iter.rs", "src/exif/exif_exif.rs", "src/values.rs"], "per-entry result instead of aborting the parse",
 "entry error state", "ExifIter entries, Exif::errors / get")

prop("C16", "Abandoning an asynchronous parse at any point is harmless",
 "Dropping an asynchronous source construction or parse at any suspension point loses nothing but that parse: the parser remains fully usable with fresh-parser results, other concurrent parses and earlier results are unaffected, and all memory of the abandoned parse is released or recycled.",
 ["schedules", "crash_points", "histories"],
 "every suspension point of every asynchronous parse, in any concurrent mix, followed by any further use of the parser",
 "No test drops a pending future.",
 ["src/parser.rs", "src/parser_async.rs", "src/exif.rs"], "state kept in the parser across awaits, reset at next use", "active buffer, memory payload, position left by a dropped future",
 "later parse results; allocator accounting")

prop("C17", "A Motion Photo's embedded video is found and parsed exactly when signalled",
 "A JPEG, however delivered, is flagged as carrying an embedded track exactly when its XMP carries one of the documented Motion Photo signals, wherever in the header the XMP sits (within the 256 KiB the library scans beyond what the EXIF needed). For flagged files with an intact trailer, parsing the track from the same bytes returns exactly what parsing the embedded video as a file of its own returns, and without a signal it reports that there is no track.",
 ["inputs", "schedules", "configurations"],
 "every signal layout, item order and padding, segment order and size, trailer size and video content, under every delivery",
 "One synthetic fixture and slice-level unit tests; XMP placement relative to read boundaries and trailer variants are not explored.",
 ["src/jpeg.rs", "src/exif.rs", "src/parser.rs"], "demand-driven scan of header segments; trailer located from end of data", "scan result, trailer offset",
 "has_embedded_track, parse_track")

prop("C18", "Batch use of the command-line tool isolates failing files",
 "Running the command-line tool on a directory reports every readable media file in it exactly as running it on that file alone, whatever other entries fail to open, read, seek or parse, and it terminates normally. Run on a single path, it exits with success exactly when the library can read the file (having no metadata counts as readable) and reports what the library reports; otherwise it exits with failure, prints a message on standard error and nothing on standard output. Short or interrupted writes of the output change nothing of it; an output that cannot be written in full is not a success; messages that cannot be written change neither the output nor the exit status.",
 ["fault_sequences", "inputs", "configurations"],
 "every mix of good, damaged, empty, unsupported and unreadable entries and every injected file-system error, in text and JSON mode",
 "The tool has no tests of faults at all; its few tests use one good file.",
 ["crates/rexiftool/src/main.rs", "src/parser.rs"], "per-file error isolation in the directory loop with one reused parser", "shared parser across files",
 "process exit status and standard output")

prop("C19", "One-call helpers agree with the reusable parser under any file-system behaviour",
 "The one-call helpers that read EXIF, track or either kind of metadata from a path or from bytes, synchronous and asynchronous, return exactly what a fresh parser returns for the same bytes, and map media kind to the right result. File-system faults (failing open, read or seek, short reads, interruptions) surface as I/O errors of that kind and never as a different outcome.",
 ["inputs", "fault_sequences", "configurations"],
 "every helper, every supported container, every injected open/read/seek fault and short read",
 "Helpers are tested on two or three good fixture paths.",
 ["src/lib.rs", "src/parser.rs", "src/parser_async.rs"], "thin wrappers over the parser", "file handle", "return values of read_* helpers")

prop("C20", "All entry points for image metadata agree with each other",
 "For the same image and delivery, the combined image-metadata call returns the same EXIF entries as the plain EXIF call, it reports not-found only when the plain call does and no text exists, its eager conversion matches, and the deprecated in-memory entry points behave exactly like their replacements. Media of the wrong kind are refused consistently by every entry point.",
 ["inputs", "schedules"],
 "every image container and damage, every delivery, sync and async",
 "Agreement is tested on three PNG fixtures.",
 ["src/parser.rs", "src/image_metadata.rs", "src/exif.rs", "src/png.rs"], "parallel implementations of the set-up and PNG paths", "parse state", "parse_image_metadata vs parse_exif results")

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
