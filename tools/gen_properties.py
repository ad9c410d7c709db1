#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list is easy to edit and re-validate)."""
import json, os
W = "tsfile-writer/src/writer/"
S = "tsfile-writer/src/sync/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        }})

SINK = "in-memory sink constructor (cfg verif_hooks); the public file constructor is exercised as well"

p("C01", "Every accepted point is stored, exactly once, in order, bit-exact",
  "After closing a writer, reading the produced file through its footer (metadata index, series metadata, chunks, pages) yields for every (device, measurement) exactly the sequence of points whose write returned success: same timestamps, bit-identical values, same order. Nothing is lost, duplicated, altered or attributed to another series, whatever the schema, data types, encodings, compressions, number of points, pages or intermediate flushes.",
  ["inputs", "histories", "configurations"],
  "all schemas (names, types, encodings, compressions), all histories of write / write_many calls including rejected ones, all flush points, closed with close",
  "The tests compare a handful of tiny hand-made files (1-1001 points, one series, one page, one flush) byte by byte; no test reads a file back, none has several pages or chunks, none crosses a flush.",
  [W+"tsfile_writer.rs", W+"group_writer.rs", W+"chunk_writer.rs", W+"tsfile_io_writer.rs", W+"mod.rs", W+"encoding/"],
  [("PageWriter::write / prepare_buffer, ChunkWriter::write_page_to_buffer (first page rewritten when the second arrives)", W+"chunk_writer.rs"),
   ("flush_all_chunk_groups + reset", W+"tsfile_writer.rs"),
   ("end_file / flush_metadata_index / construct_metadata_index", W+"tsfile_io_writer.rs, "+W+"mod.rs")],
  [("page_buffer, num_pages, size_without_statistics", "sealed pages of the open chunk", W+"chunk_writer.rs"),
   ("chunk_group_metadata_list", "chunks already on the sink", W+"tsfile_io_writer.rs")],
  ["bytes of the closed file, decoded by an independent reader"], SINK)

p("C02", "A closed file is a completely well-formed TsFile v3, byte for byte",
  "Every file produced by close is a structurally valid version-3 TsFile: head magic and version, chunk groups of chunks, separator, series metadata, index nodes, file metadata, bloom filter, metadata size and tail magic follow one another with no gap, overlap or stray byte. Every chunk's and page's declared sizes, marker (one page or several), data type, encoding, compression and measurement name agree with the schema and with the bytes that follow, and the chunks found by scanning the file front to back are exactly the chunks the index refers to.",
  ["inputs", "histories", "configurations"],
  "all schemas and write histories (including no data at all, empty devices, several flushes, several pages)",
  "Byte-exact expectations exist for about six inputs; sizes above 127 / 16383 (var-int boundaries), multi-page chunks, multi-chunk series and many devices are never checked.",
  [W+"chunk_writer.rs", W+"tsfile_io_writer.rs", W+"mod.rs", W+"utils.rs"],
  [("ChunkHeader::serialize, page header writing", W+"chunk_writer.rs"), ("ChunkGroupHeader, TimeSeriesMetadata, MetadataIndexNode, TsFileMetadata serialisation", W+"mod.rs"),
   ("end_file", W+"tsfile_io_writer.rs"), ("write_var_u32 / write_var_i32 / write_str", W+"utils.rs, "+W+"mod.rs")],
  [], ["bytes of the closed file"], SINK)

p("C03", "Statistics at page, chunk and series level are exact",
  "Every statistics block in the file (page header, chunk metadata, series metadata) describes exactly the points it covers: count, first and last timestamp, first and last value, minimum, maximum and sum, including for infinities, signed zeros, extreme integers and extreme timestamps. Integer sums of INT32 series are exact and floating sums agree up to rounding; minimum and maximum are only specified for data without NaN.",
  ["inputs", "histories"],
  "all value/timestamp sequences of each data type, all ways they are split into pages and chunks",
  "Statistics are only compared inside a few fixed byte arrays with small increasing positive values; merging across pages and chunks is never tested.",
  [W+"statistics.rs", W+"chunk_writer.rs", W+"tsfile_io_writer.rs"],
  [("StatisticsStruct::update / merge / serialize", W+"statistics.rs"), ("page -> chunk merge", W+"chunk_writer.rs"), ("chunk -> series merge", W+"tsfile_io_writer.rs")],
  [], ["statistics blocks in the closed file"], SINK)

p("C04", "Every written series can be found by searching the metadata index",
  "For any number of devices and measurements and any names, a reader that descends the metadata index by binary search finds the metadata of every series that has data, and finds nothing for series that have none. Entries of every index node are in strictly ascending name order, no node has more than the configured maximum number of children, each child entry carries the smallest name below it, and node extents delimit exactly the bytes of their children.",
  ["inputs", "configurations"],
  "all sets of (device, measurement) names and sizes (1 to several hundred devices, 1 to tens of thousands of measurements), all index degrees >= 2",
  "No test has more than two devices or three measurements, so neither ordering, nor multi-entry leaves, nor any inner index level is ever produced.",
  [W+"mod.rs", W+"tsfile_io_writer.rs", W+"ts_file_config.rs"],
  [("construct_metadata_index / generate_root_node / is_full", W+"mod.rs"), ("flush_metadata_index", W+"tsfile_io_writer.rs")],
  [("max_degree_of_index_node", "fan-out of index nodes (256)", W+"ts_file_config.rs")],
  ["metadata index of the closed file, searched the way the Java reader does"], "index degree override and in-memory sink (cfg verif_hooks)")

p("C05", "The bloom filter has no false negatives and the specified geometry",
  "The bloom filter stored in the file answers 'maybe present' for the path device.measurement of every series with data, under the format's hash functions (128-bit murmur with the format's seeds, taken modulo the filter size). Its size and number of hash functions follow from the number of series and the configured 5% error rate, its bit vector holds exactly the bits of those paths with trailing zero bytes removed, and building it never fails for any number or spelling of series.",
  ["inputs"],
  "all sets of series paths: any number of series, any path length and characters",
  "Tests only pin filters of at most three short paths (<= 13 bytes, 256 bits); the block loop of the hash (paths of 16 bytes and more), sizes above 256 bits and the tail cases of the hash are never reached.",
  [W+"mod.rs", W+"murmur128.rs", W+"ts_file_config.rs"],
  [("BloomFilter::build / empty_filter / serialize_bits, HashFunction::hash", W+"mod.rs"), ("Murmur128::inner_hash", W+"murmur128.rs")],
  [], ["bloom filter bytes in the footer, compared with an independent implementation"], SINK)

p("C06", "Points are accepted exactly when they are admissible, and refusals are errors",
  "A point is accepted if and only if its device and measurement are in the schema, its value has the series' data type, the series' encoding supports that type, and its timestamp is non-negative and strictly greater than every timestamp already accepted for that series during the whole life of the writer, flushes included. Any other write returns an error of the matching kind (unknown series: illegal state; wrong type; unsupported encoding; out of order). No call with any argument panics.",
  ["inputs", "histories"],
  "all histories mixing admissible and inadmissible writes on several series, with flushes anywhere",
  "One test writes one duplicate timestamp; wrong types, unsupported encodings, unknown names and ordering across an automatic flush (128 MiB of data) are never tried.",
  [W+"tsfile_writer.rs", W+"group_writer.rs", W+"chunk_writer.rs", W+"encoding/mod.rs", W+"errors.rs"],
  [("check_is_history_data / last_time_map", W+"group_writer.rs"), ("non_aligned_timeseries_last_time_map carried over a flush", W+"tsfile_writer.rs"), ("ChunkWriter::write, Encoder::new", W+"chunk_writer.rs, "+W+"encoding/mod.rs")],
  [("last_time_map", "last accepted timestamp per series", W+"group_writer.rs")],
  ["results of write / write_many"], "flush trigger (cfg verif_hooks); real 128 MiB flushes are exercised too")

p("C07", "A rejected write leaves no trace",
  "Removing all rejected single-point writes from a history changes nothing: every remaining call returns the same result and the closed file is byte-identical. In particular a rejected point never blocks, displaces or corrupts a later admissible one on the same or another series.",
  ["histories"],
  "all histories containing rejected writes of every kind at any position, paired with the same history without them",
  "The only rejecting test stops right after the error and never looks at the file.",
  [W+"tsfile_writer.rs", W+"group_writer.rs", W+"chunk_writer.rs"],
  [("order of checks and side effects in write", W+"group_writer.rs, "+W+"chunk_writer.rs"), ("record_count", W+"tsfile_writer.rs")],
  [], ["call results and bytes of the closed file"], SINK)

p("C08", "A multi-point write equals the same points written one by one",
  "Writing several measurements of a device at one timestamp in one call has the same effect, on the file and on all later calls, as writing them one at a time in the same order. If one of them is refused the call returns that error, the points before it stay written and are in the file after close, and the points after it are not written.",
  ["inputs", "histories"],
  "all multi-point calls (empty, duplicate measurements, a refused point at any position) inside any history",
  "Multi-point writes appear only in doc examples that are never closed or checked.",
  [W+"tsfile_writer.rs", W+"group_writer.rs"],
  [("write_many", W+"tsfile_writer.rs, "+W+"group_writer.rs")],
  [("record_count", "decides whether buffered points are flushed on close", W+"tsfile_writer.rs")],
  ["bytes of the closed file, call results"], SINK)

p("C09", "Output is a deterministic function of schema content and per-series data",
  "Two writers given the same schema content and, per series, the same points produce byte-identical files, whatever the order in which devices and measurements were added to the schema, whatever the hash seeds of the process, and however writes to different series were interleaved between flushes.",
  ["inputs", "histories", "schedules"],
  "all schemas with permuted insertion orders, all interleavings of per-series write sequences between two flush points",
  "The one multi-device byte-exact test is disabled with the note 'is luck dependent due to HashMap'; nothing else compares two runs.",
  [W+"schema.rs", W+"tsfile_writer.rs", W+"group_writer.rs", W+"mod.rs", W+"tsfile_io_writer.rs"],
  [("ordered maps for groups, chunks and metadata", W+"tsfile_writer.rs, "+W+"group_writer.rs, "+W+"tsfile_io_writer.rs"), ("device index construction", W+"mod.rs")],
  [], ["bytes of the closed file"], SINK)

p("C10", "Output does not depend on how the sink accepts bytes",
  "The bytes delivered are the same whether the sink takes each request completely, takes only part of it, or interrupts it, and the same for a file on disk as for an in-memory sink. The writer's notion of position always equals the number of bytes the sink has accepted.",
  ["inputs", "fault_sequences"],
  "all histories, all sequences of short writes and interruptions allowed by the contract of std::io::Write",
  "Tests use only sinks that accept everything at once.",
  [W+"mod.rs", W+"chunk_writer.rs", W+"tsfile_io_writer.rs"],
  [("WriteWrapper / PositionedWrite", W+"mod.rs"), ("every serialisation site (write versus write_all)", W+"mod.rs, "+W+"tsfile_io_writer.rs")],
  [], ["bytes received by the sink"], SINK)

p("C11", "A sink failure is always reported and never panics",
  "If the sink returns an error at any point of the file's life (creation, automatic flush during a write, close), then the call in which it happened returns an error; the writer never reports success for a file that is missing bytes and never panics. What was delivered before the failure is a prefix of the fault-free file.",
  ["fault_sequences", "crash_points"],
  "all histories, all byte positions at which a persistent or transient failure starts, all error kinds including a sink that accepts zero bytes, failing flush requests",
  "No test injects any I/O failure.",
  [W+"tsfile_writer.rs", W+"tsfile_io_writer.rs", W+"chunk_writer.rs", W+"group_writer.rs", W+"mod.rs"],
  [("error propagation from start_file, flush_all_chunk_groups, end_file to new, write, write_many and close", W+"tsfile_writer.rs, "+W+"tsfile_io_writer.rs")],
  [], ["results of new / write / write_many / close under a failing sink"], SINK)

p("C12", "Every prefix of the output is recoverable front to back",
  "Cut the produced bytes anywhere (or never close the writer): scanning the remaining prefix from the start recovers every chunk that is completely inside it, each series' recovered points are a prefix of its accepted points, and nothing is misread. Once a flush has returned, all points accepted before it are recoverable from the bytes already delivered.",
  ["crash_points", "histories"],
  "all histories with flushes, all cut positions",
  "No test looks at an unfinished or truncated file.",
  [W+"tsfile_writer.rs", W+"tsfile_io_writer.rs", W+"chunk_writer.rs", W+"group_writer.rs"],
  [("self-describing chunk and page headers written before their data, append-only output", W+"tsfile_io_writer.rs, "+W+"chunk_writer.rs"), ("flush_all_chunk_groups writes every buffered page", W+"tsfile_writer.rs")],
  [], ["prefixes of the delivered bytes"], "in-memory sink and flush trigger (cfg verif_hooks)")

p("C13", "Every value and timestamp sequence is encoded losslessly in canonical form",
  "For every sequence of values and every strictly increasing sequence of timestamps, decoding the stored column returns it bit for bit, including the extreme values of each type, differences that overflow the type, NaN payloads and sequence lengths around the block size. Delta-encoded columns consist of blocks of at most 129 values, all full except the last, each storing its minimum delta, its first value and the remaining deltas packed with the smallest bit width that fits.",
  ["inputs"],
  "all i32/i64/f32 value sequences and i64 timestamp sequences of any length, for PLAIN and TS2DIFF",
  "Tests pin four bit-packing calls and two short increasing sequences; wide, negative or overflowing deltas and multi-block columns are untested.",
  [W+"encoding/time_encoder.rs", W+"encoding/plain.rs", W+"utils.rs", W+"chunk_writer.rs"],
  [("ts2diff_encoder! write/flush/serialize, to_bytes bit packing", W+"encoding/time_encoder.rs"), ("PlainEncoder", W+"encoding/plain.rs")],
  [("values, min_delta, first_value", "current delta block", W+"encoding/time_encoder.rs")],
  ["page contents in the closed file"], SINK)

p("C14", "Compression is transparent",
  "Switching any series between no compression and SNAPPY changes only how page bodies are stored: page boundaries, decompressed page bodies, statistics and readable points stay the same, every SNAPPY page decompresses to its declared uncompressed size, and chunk headers name the codec really used.",
  ["inputs", "configurations"],
  "all schemas and histories without an automatic flush, all assignments of codecs to series, compressible and incompressible data",
  "One test compresses one page holding one point.",
  [W+"chunk_writer.rs", W+"compression.rs"],
  [("write_page_to_buffer: compressed and uncompressed sizes and bodies for first, second and later pages", W+"chunk_writer.rs")],
  [], ["pages of the two files"], SINK)

p("C15", "Closing finishes the file once and for all",
  "Close completes the file for any history, including none; afterwards the output never changes again: closing again does nothing and later writes are refused with an error. A writer closed without any data still yields a valid file without series.",
  ["histories"],
  "all histories with close at any position, followed by any further writes and closes",
  "No test calls close twice or writes after it; no test closes an empty writer.",
  [W+"tsfile_writer.rs", W+"tsfile_io_writer.rs"],
  [("close / end_file", W+"tsfile_writer.rs, "+W+"tsfile_io_writer.rs")],
  [], ["sink contents after close, results of later calls"], SINK)

p("C16", "Creating a writer creates exactly the requested file or returns an error",
  "For a creatable path the constructor creates missing parent directories and an empty-then-written file at exactly that path, replacing any previous content, and the closed file equals the one an in-memory writer would produce. For a path that cannot be created (a directory, below a regular file, without a file name, not permitted, containing a NUL byte) it returns an error instead of panicking and leaves existing files untouched.",
  ["inputs", "configurations"],
  "all shapes of paths relative to an existing directory tree (nested, existing, blocked, empty, trailing slash)",
  "Tests only write to fixed names under target/.",
  [W+"tsfile_writer.rs"],
  [("TsFileWriter::new", W+"tsfile_writer.rs")],
  [], ["file system state and result of the constructor"], None)

p("C17", "Buffered data is bounded: pages and chunk groups are cut as data accumulates",
  "While points are written the writer hands data to the sink on its own, so that for uniformly sized records the data buffered in memory never exceeds the 128 MiB threshold by more than a small margin and such an automatic flush loses and reorders nothing. Pages of plain fixed-width series stay close to 64 KiB, no page holds more than 1,048,577 points, and a page is not cut before it holds at least 1,500 points.",
  ["inputs", "histories"],
  "all long uniform write histories (many series, any mix of types, encodings, compressions)",
  "The only test that reaches the threshold is disabled because it needs an external tool; no enabled test fills a second page.",
  [W+"tsfile_writer.rs", W+"group_writer.rs", W+"chunk_writer.rs"],
  [("check_memory_size_and_may_flush_chunks", W+"tsfile_writer.rs"), ("check_page_size_and_may_open_new_page, estimate_max_*", W+"chunk_writer.rs")],
  [("record_count_for_next_mem_check", "adaptive check interval", W+"tsfile_writer.rs"), ("value_count_in_one_page_for_next_check", "adaptive page check interval", W+"chunk_writer.rs")],
  ["bytes received by the sink after each write; page table of the file"], SINK)

p("C18", "All file offsets are correct for positions of any magnitude",
  "Every offset stored in the file (chunk offsets, index entries, node extents, metadata offset) is the sink position of the thing it refers to, as a 64-bit number, also beyond 2 GiB and 4 GiB. Moving the whole output by a constant base position changes only those offsets, each by exactly that base.",
  ["inputs", "configurations"],
  "all schemas and histories, all base positions up to 2^62",
  "Test files are at most a few kilobytes long.",
  [W+"mod.rs", W+"chunk_writer.rs", W+"tsfile_io_writer.rs"],
  [("ChunkMetadata offset, MetadataIndexEntry offset, end_offset, meta_offset", W+"mod.rs, "+W+"chunk_writer.rs, "+W+"tsfile_io_writer.rs")],
  [], ["offset fields of the closed file"], SINK)

p("C19", "The C interface writes the same file as the Rust interface",
  "For every single-series INT32 schema (any valid encoding and compression code) and every admissible write sequence, driving the exported C functions produces a file byte-identical to the Rust writer's for the same schema and points. The handles follow the documented ownership: the writer handle stays usable after each write, one schema can serve several writers, freeing the schema after creating the writer or after closing it is fine, and freeing or closing null is a no-op (the texts passed in stay allocated as long as the handles).",
  ["inputs", "histories"],
  "all device/measurement names, encodings, compressions, timestamps, values, orders of create / free / close calls over several handles",
  "The C wrapper has no test at all.",
  ["tsfile-writer-c/src/lib.rs"],
  [("schema_simple / schema_free / file_writer_new / file_writer_write_int32 / file_writer_close", "tsfile-writer-c/src/lib.rs")],
  [], ["file produced through the C functions"], None)

p("C20", "The Python wrapper writes the same file as the Rust interface",
  "Writing through the Python wrapper classes (schema, writer, context managers or explicit free/close) produces a file byte-identical to the Rust writer's for the same schema and points, for every timestamp from 0 to 2^63-1 and every 32-bit value. Using a closed writer or freeing a schema twice raises an error instead of touching freed memory.",
  ["inputs", "histories"],
  "all names, codes, timestamps and values accepted by the writer, all uses of the context managers",
  "The wrapper has no test.",
  ["tsfile-writer-c/rust.py", "tsfile-writer-c/src/lib.rs"],
  [("cdef signatures, Schema, TsFileWriter", "tsfile-writer-c/rust.py")],
  [], ["file produced through rust.py"], None)

p("C21", "A built schema is exactly what was added, and stays so",
  "Building a schema from the builders yields exactly the devices and measurements added, the last addition of a name winning, each with its data type, encoding and compression; the one-series shortcut equals the builders. A built schema is a snapshot: reusing or extending the builder afterwards, cloning the schema or writing with one copy never changes another copy.",
  ["inputs", "histories"],
  "all sequences of add and build calls on device and schema builders, with duplicate names and builder reuse",
  "One test adds two measurements and counts them.",
  [W+"schema.rs", W+"mod.rs"],
  [("TsFileSchemaBuilder / DeviceBuilder", W+"schema.rs"), ("Schema::simple, get_devices, get_timeseries", W+"mod.rs")],
  [], ["get_devices / get_timeseries of the built schema, and the series a writer built from it accepts"], None)

p("C22", "The metadata log describes exactly the schema and passes its checksums",
  "The metadata log sent to a receiver decodes into length-prefixed, CRC-32-checked records that register the storage group first and then each series of the schema exactly once, under storage group, device and measurement joined by dots, with its data type, encoding and compression codes. Any sequence of registrations and flushes through the log writer decodes to the same sequence.",
  ["inputs", "histories"],
  "all storage groups, schemas and sequences of plan / flush calls",
  "Three tests pin the bytes of one storage group and one INT32 series.",
  [S+"mlog.rs", S+"sync_sender.rs"],
  [("MLog::flush / write_create_plan / write_set_storage_group_plan", S+"mlog.rs"), ("SyncSender::write_mlog", S+"sync_sender.rs")],
  [("bytes", "plans not yet flushed", S+"mlog.rs")],
  ["bytes of the metadata log"], "access to the private log writer (cfg verif_hooks)")

p("C23", "Connecting succeeds exactly when the receiver accepts, with a stable identity",
  "Creating a sync sender performs one handshake carrying the given or detected local address, the sender's identity, partition interval 604800 and version 0.13, and succeeds if and only if the receiver answers with a non-error status; a rejecting status, a remote exception, a garbled answer or a lost connection yields an error and never a panic. Without an explicit identity one is generated once, stored, and reused by every later sender.",
  ["inputs", "fault_sequences", "histories"],
  "all receivers' replies (statuses, exceptions, disconnects, wrong messages), all explicit or implicit identities, sequences of senders in one directory",
  "The only sender test is ignored because it needs a server.",
  [S+"sync_sender.rs", S+"sync.rs"],
  [("SyncSender::new / _connect / get_or_generate_uuid", S+"sync_sender.rs")],
  [("uuid.lock", "persisted identity", S+"sync_sender.rs")],
  ["requests seen by a loopback receiver, result of the constructor"], None)

p("C24", "A sync session transfers the log and the file intact and in protocol order",
  "A session for a file announces the storage group, transfers the metadata log and then the file (named 0_0_ plus its file name) as start, data and digest steps, and ends; the receiver gets exactly the log of the schema and exactly the file's bytes, and each digest is the SHA-256 of what was sent, in hexadecimal without leading zeros. A missing file, a refused digest, a remote exception or a lost connection at any step makes the session return an error instead of panicking or reporting success.",
  ["inputs", "fault_sequences"],
  "all storage groups, schemas, file names and contents, all steps at which the receiver fails or refuses",
  "The session code is not run by any test.",
  [S+"sync_sender.rs", S+"mlog.rs", S+"sync.rs"],
  [("SyncSender::sync / calculate_digest", S+"sync_sender.rs")],
  [], ["requests seen by a loopback receiver, result of the session"], "access to the private session function (cfg verif_hooks)")

p("C25", "Remote calls deliver arguments and results unchanged and reject wrong replies",
  "Every remote call reaches the handler of the same name with exactly the caller's arguments and returns exactly the handler's status or error to the caller, for any sequence of calls on one connection. A field the caller leaves out is not sent and arrives as its default (empty text or zero), a field the caller sets arrives with that value, unknown fields are skipped, and a reply with another call's name, sequence number or message type, or without a result, is an error rather than a result or a panic.",
  ["inputs", "histories"],
  "all call sequences and argument values (any strings, bytes, numbers, absent fields), all structurally wrong replies",
  "The RPC layer has no test.",
  [S+"sync.rs"],
  [("SyncServiceSyncClient, SyncServiceSyncProcessor, read/write of ConfirmInfo, SyncStatus, argument and result structs", S+"sync.rs")],
  [], ["arguments seen by the handler and results seen by the client over in-memory transports"], "access to the private RPC module (cfg verif_hooks)")

p("C26", "Integer and type codes round-trip and reject everything else",
  "Every 32-bit number written as a variable-length integer occupies the minimal number of bytes, has the size announced for it, and reads back unchanged, signed numbers in zig-zag form. The one-byte codes of data types, encodings and compressions are the format's codes, map back to the same item, and every other byte is refused.",
  ["inputs"],
  "all 2^32 numbers (sampled with all boundary neighbourhoods), all 256 code bytes",
  "Reading back is tested for nine numbers, none containing a byte 0xFF; code bytes are not tested.",
  [W+"utils.rs", W+"mod.rs", W+"encoding/mod.rs", W+"compression.rs"],
  [("write_var_u32, write_var_i32, size_var_*, read_var_u32", W+"utils.rs"), ("TryFrom<u8> / serialize of TSDataType, TSEncoding, CompressionType", W+"mod.rs, "+W+"encoding/mod.rs, "+W+"compression.rs")],
  [], ["bytes and numbers"], "access to the private integer codec (cfg verif_hooks)")

p("C27", "Writers do not influence each other",
  "Any number of writers can exist at the same time, in one thread or in several, for equal or different schemas. Each gives the results and produces the bytes that it gives and produces in a program that has no other writer, whatever the others are doing: also when others fail, are abandoned, flush automatically, or were used before it.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "all sets of histories, all interleavings of their calls in one thread, thread schedules",
  "No test has two writers at a time, or looks at one that follows another.",
  [W+"tsfile_writer.rs", W+"group_writer.rs", W+"chunk_writer.rs", W+"tsfile_io_writer.rs", W+"encoding/mod.rs"],
  [("all state of a file is in its writer", W+"tsfile_writer.rs, "+W+"tsfile_io_writer.rs, "+W+"chunk_writer.rs")],
  [], ["call results, bytes delivered after each call and in the end"], SINK)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
try:
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for q in P: jsonschema.validate(q, sch)
    print("valid", len(P))
except ImportError:
    print("written", len(P))
