#!/usr/bin/env python3
# Source of /verif/properties.jsonl (one place to edit; run: python3 tools/mkprops.py > properties.jsonl)
import json,sys
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))

RW=["format/io/writer.go","format/io/reader.go"]
p("C01","Full-precision write/read round trip is the identity on recordings",
 "A recording written with full-precision encoders (events, enums, 64-bit raw positions, rotations and floats, 64-bit raw times), compressed or not, and read back is the same recording. Its id, name, metadata, binary references, binaries with their bytes, every collection's kind, name and captures with exact times and values, and all sub-recordings at every depth come back equal, complete and in the same order. The write and the read both report no error.",
 ["inputs","configurations"],"all recording trees (any nesting, sizes, strings, values incl. NaN/-0/Inf, empty parts, repeated names), compression on and off",
 "The suite round-trips a few hand-made recordings with small counts and short ASCII strings; it never crosses variable-length-count boundaries, index reuse between siblings, empty parts, special floats or deep nesting in combination.",
 RW+["format/io/time.go","format/io/binary.go","format/io/binary_reference.go","internal/io/binary/*.go","format/encoding/*/*.go","format/recording.go"],
 [("recursive recording writer/reader pair with key and encoder indices","format/io/writer.go, format/io/reader.go"),("length-prefixed primitives","internal/io/binary")],
 [dict(name="metadata key table",meaning="file-wide list of keys; recordings refer to it by index",where="writer.go accumulateMetadataKeys"),dict(name="encoder table",meaning="per-file list of encoders that are used; streams refer to it by index",where="writer.go evaluateCollections")],
 ["io.NewWriter(...).Write, io.NewReader(...).Read"])
p("C02","Reduced-precision encoders stay within their resolution and never drift",
 "With a reduced-precision technique every stream reads back with the same name, kind, and number and order of captures. 32-bit raw techniques return each component rounded to float32; 16-bit rotations return each angle within half of 1/65536 turn (modulo a full turn), 16-bit floats each value within half of 1/65536 of the stream's value range. The 24- and 48-bit position techniques return each position, per axis, within half a cell (a cell is 1/256 resp. 1/65536 of that axis' range of frame-to-frame deltas, give or take 2 percent) of the true one, however long the stream is and wherever the subject rests: errors are corrected rather than accumulated. The first position is rounded to float32 (and the others may be off by as much). Rounding of stored bounds to float32 is allowed for.",
 ["inputs","configurations"],"all position, rotation and float streams (lengths 0,1,2,.. incl. constant axes, negative values, large offsets, reversals), each technique",
 "Existing tests use random walks with loose tolerances; a systematic bias, a lost feedback term, a swapped axis on rare cells or a wrong cell boundary stays inside them, and short/constant/degenerate streams are not sampled.",
 ["format/encoding/position/oct.go","format/encoding/position/oct24.go","format/encoding/position/oct48.go","format/encoding/position/raw32.go","format/encoding/euler/raw16.go","format/encoding/euler/raw32.go","format/encoding/float/float.go","internal/io/binary/util.go"],
 [("quantised feedback: each delta is taken against the reconstructed position","oct24.go, oct48.go"),("binary space tree quantiser","internal/io/binary/util.go"),("wrap into one turn","euler/raw16.go")],
 [dict(name="quantised accumulator",meaning="position the decoder will reconstruct; deltas are taken against it",where="oct24.go/oct48.go encode")],["Encoder.Encode then Encoder.Decode; full file write/read"])
p("C03","Capture times survive each time technique within its resolution",
 "Every capture keeps its place in its stream and its time: exactly with the 64-bit raw technique, rounded to float32 with the 32-bit raw technique. With the 16-bit technique, for captures in chronological order, the first time is rounded to float32 (and the others may be off by as much), and every later time is within half a cell (1/65536 of the stream's largest gap) of its own, except that it follows the time returned before it by at least half a cell; so times never go backwards, and never fall behind however long the stream is. A stream's times never depend on any other stream, and every kind of collection is treated the same.",
 ["inputs","configurations"],"all non-decreasing time sequences (length 0,1,2,...; equal, negative, huge, sub-cell gaps), three techniques, every collection kind",
 "Tests sample random increasing times with tolerance; equal times, one capture, zero gaps, large gaps followed by tiny ones, and long streams where drift appears are not covered.",
 ["format/io/time.go","internal/io/binary/util.go","format/io/writer.go"],
 [("start + max gap + quantised gap with feedback","format/io/time.go encodeTimeBST16/decodeTimeBST16"),("per-stream time block","format/io/writer.go writeTo")],
 None,["capture.Time() after io.Reader.Read"])
p("C04","Every metadata value survives the binary format exactly",
 "Any metadata block - every kind of value (strings, numbers, booleans, bytes, vectors, times, nested blocks, and every array kind), any key, any nesting, empty or large - reads back equal in kind and value wherever it is attached: a recording at any depth, an event, a binary or a binary reference. Keys shared between places never mix their values. Values are read with exactly the bytes that were written for them, so what follows is not disturbed.",
 ["inputs"],"all metadata values of every kind, at every location, nested to any depth, any number of keys",
 "Tests try one sample of each kind in one place; combinations (nested arrays of blocks, empty arrays followed by other values, key-index sharing across siblings, >127 keys) are unbounded.",
 ["format/metadata/property.go","format/metadata/io.go","format/encoding/event/event.go","format/io/binary.go","format/io/binary_reference.go","format/io/writer.go"],
 [("type code + data per property","format/metadata/io.go, property.go"),("key tables","writer.go, event.go, property.go (Metadatablock)")],
 [dict(name="type code table",meaning="one byte selects how the value is read",where="metadata/property.go, io.go")],["Recording.Metadata(), event capture metadata, Binary/BinaryReference Metadata()"])
p("C05","Encoder negotiation depends only on the data, never on order or extras",
 "A file can be read by any reader configured with at least the encoders the file uses, in any order, with any extra encoders and with any technique configured: the result is identical, because the technique travels with each stream. A reader that lacks a used encoder, or whose encoder is older than the file's, reports an error instead of a recording. A writer uses for each collection the first configured encoder that accepts it, and the order or presence of unused encoders and of collections does not change what is read back.",
 ["configurations","inputs"],"all orders and subsets/supersets of encoders on both sides, technique mixes, versions, collection orders",
 "Tests use the same encoder list on both sides; index remapping errors only show with reordered lists, unused encoders in the middle, or several collections sharing one encoder.",
 ["format/io/writer.go","format/io/reader.go","format/encoding/encoder.go","format/encoding/position/position.go","format/encoding/euler/euler.go","format/encoding/float/float.go"],
 [("used-encoder table","writer.go evaluateCollections"),("signature/version match","reader.go"),("technique byte in stream","position.go, euler.go, float.go")],
 [dict(name="encoder index",meaning="stream -> entry of the file's encoder table",where="writer.go/reader.go")],["io.NewReader(encoders, in).Read"])
p("C06","Byte accounting is exact and a read consumes exactly its recording",
 "For every recording, the count a successful write returns equals the count the matching read returns; without compression it is exactly the number of bytes that reached the destination. Uncompressed recordings written one after the other into the same stream read back one after the other from it, because a read takes no byte beyond its own recording. Each encoder pair and each metadata value likewise consumes exactly what it produced.",
 ["inputs","configurations","histories"],"all recording trees, compress on/off, sequences of recordings in one stream",
 "Tests check a count on a few recordings; off-by-some counts in a rarely used branch (empty block, binary reference, nested recording) are invisible to value comparisons.",
 RW+["format/io/time.go","format/io/binary.go","internal/io/binary/*.go"],
 [("count returned by every internal write/read","writer.go, reader.go"),("no read-ahead on the source","reader.go, internal/io/binary/reader.go")],
 None,["Writer.Write count, Reader.Read count, bytes left in the source"])
p("C07","A truncated file never loads as a shorter recording",
 "If a saved file, version 1 or 2, compressed or not, is cut at any byte before its end, loading it reports an error, or - only where nothing but redundant trailer bytes of the compression are missing - returns the complete original recording. It never returns a recording with fewer or invented captures, metadata, binaries, references or sub-recordings, and it never crashes or hangs. The same holds when the compressed content of a file ends early, whatever size the file declares. A load that fails returns no recording.",
 ["crash_points"],"every prefix length of every file in a family of files covering each section, technique and version",
 "Tests truncate nothing, or one file at one place; each section has its own end-of-data handling and any single ignored error gives silently wrong data.",
 RW+["format/io/load.go","format/io/time.go","format/encoding/*/*.go","internal/io/rapv1/util.go","internal/io/binary/*.go","format/metadata/*.go"],
 [("error from each read is propagated","reader.go, time.go, position/euler/float/enum/event decoders"),("declared sizes","rapv1/util.go")],
 None,["io.Load, io.Reader.Read"])
p("C08","A failing destination always surfaces as a write error",
 "If the destination fails at any write call or after any number of bytes - once or for good, with a partial write or none - the write reports an error: it does not crash, hang or claim success, for any recording, any encoder set, compressed or not. The count it returns without compression never exceeds the number of bytes the destination accepted. The recording is left untouched and can be written again to a good destination with the full result.",
 ["fault_sequences","crash_points"],"every write call / byte position of the destination, failing permanently or once, short or zero",
 "Tests use one failing mock at the start; each of the dozens of write sites must propagate its own error, including the final flush of the compressor.",
 ["format/io/writer.go","format/io/time.go","format/io/binary.go","format/io/binary_reference.go","internal/io/binary/*.go"],
 [("error returned from every write","writer.go"),("flush/close of compressor","writer.go")],
 None,["Writer.Write error and count"])
p("C09","Results do not depend on how the source delivers its bytes",
 "A file loads to the same recording, with the same byte count, whatever way its source splits the bytes: one at a time, in any chunks, with the last bytes together with end-of-file, or with an occasional empty read - for version 1 and version 2 files. If the source reports a failure other than end-of-file before the recording is complete, loading reports an error and returns no recording (a passing failure that comes along with every byte asked for may be ignored). The same holds for JSON and CSV input, and when a recording is written for the bytes of its binaries, which may come from any reader.",
 ["fault_sequences","inputs"],"all chunkings with up to k deviations from whole reads at any position; a source failure at every read call",
 "Tests read from in-memory buffers that always fill the request; pipes and sockets do not, and each raw Read call is a separate place to get this wrong.",
 ["format/io/reader.go","format/io/load.go","internal/io/binary/*.go","internal/io/rapv1/util.go","format/parsing/json.go","cmd/rap-cli/csv.go"],
 [("full reads","internal/io/binary/bytes.go"),("single byte reads","internal/io/binary/uint.go, reader.go"),("v1 header and body","rapv1/util.go")],
 None,["io.Load, io.Reader.Read, parsing.FromJSON, RecordingFromCSV"])
p("C10","Malformed files are refused without crash, hang or memory blow-up",
 "Whatever bytes a file contains - every single-field corruption of valid files, huge or inconsistent counts, sizes and indices, unknown codes, and arbitrary short byte strings - loading it either returns a recording or an error. It never crashes, and its running time and memory are governed by the bytes actually supplied (after decompression), never by sizes the file merely claims.",
 ["inputs"],"all byte strings up to a small length; every field of a structural family of files replaced by boundary values; all byte-wise mutations of small files, under correct compression",
 "Tests feed a handful of damaged inputs; an attacker or a bad disk picks the field.",
 ["format/io/reader.go","format/io/time.go","internal/io/binary/*.go","format/metadata/io.go","format/metadata/property.go","format/encoding/*/*.go","internal/io/rapv1/util.go"],
 [("bounds checks on indices and counts","reader.go, event.go, enum.go"),("incremental reads","internal/io/binary")],
 None,["io.Load, io.Reader.Read"])
p("C11","Whatever loads is a complete, usable and stable recording",
 "Every recording a load returns without error, from any bytes, is complete: no missing collections, captures, metadata values, binaries or sub-recordings hidden behind nil, and every value in it can be inspected, printed, sliced and measured without crashing. Each stream holds exactly as many captures as the file declares for it. Writing that recording again succeeds and reading the result gives the same recording.",
 ["inputs"],"all accepted inputs among the mutation families of C10 and the truncations of C07",
 "No test looks at what a reader accepts from damaged input; a swallowed error shows up as nil parts far away from the read.",
 ["format/io/reader.go","format/io/time.go","format/metadata/io.go","format/encoding/*/*.go","internal/io/rapv1/util.go"],
 [("errors of stream, time and metadata decoding are returned","reader.go")],
 None,["recordings returned by io.Load, followed by String, MarshalJSON, Slice, Duration, Write"])
p("C12","The on-disk format is stable",
 "Files follow the established version 2 layout: a file built by an independent encoder of that layout loads to the recording it describes, and a file written by the library is decoded by an independent decoder to the recording that was written. This holds for every section, value code, count width, time technique and stream technique, with and without compression. Files written by earlier builds therefore keep loading with the same meaning, and the other way round.",
 ["inputs","configurations"],"all recordings of a bounded family, in both directions against an independent reference codec",
 "Round-trip tests pass when reader and writer change together (a renumbered code, a swapped field, a different byte order); only an independent codec notices that old files break.",
 RW+["format/io/time.go","format/metadata/property.go","format/metadata/io.go","format/encoding/*/*.go","internal/io/binary/*.go","docs/formats/v2/README.md"],
 [("layout constants and field order","writer.go, reader.go, property.go, encoders")],
 [dict(name="file version byte",meaning="2 for this layout",where="writer.go, load.go")],["bytes of a written file; recording of a loaded file"])
p("C13","Version 1 files load with their documented meaning",
 "A version 1 file loads to a recording named after the file's name, with its custom events and one sub-recording per subject in order, each with the subject's id and name, its positions, rotations, custom events and life-cycle states as separate collections with the stored times and values. Metadata values that are numbers become 32-bit numbers, all others strings, under their keys; an event carries its dictionary as strings, or its contents under \"value\" when it has none. Nothing is dropped, duplicated or reordered, whichever parts are empty or missing.",
 ["inputs"],"all version 1 messages of a bounded family (subjects, captures, events, metadata, absent fields), built by an independent encoder",
 "Tests load two sample files and compare counts; value mapping, empty subjects, and rare field combinations are unchecked.",
 ["internal/io/rapv1/util.go","internal/io/rapv1/recording.go","format/io/load.go","docs/formats/v1/README.md"],
 [("mapping of protobuf message to recording tree","rapv1/util.go"),("version dispatch","format/io/load.go")],
 None,["io.Load"])
p("C14","Upgrading version 1 files keeps the recording",
 "The upgrade command turns a version 1 file into a version 2 file that loads to the same recording tree: same names, ids, metadata, events, life-cycle states, and capture counts, with times, positions and rotations within the resolution of the techniques it writes with. It reports an error, and not a partial success, when the input is not a loadable file or the output cannot be written. Upgrading the result again changes nothing beyond that resolution.",
 ["inputs","histories"],"all version 1 messages of a bounded family, and chains of upgrade steps",
 "There is no end-to-end test of upgrade on anything but a sample; loss in the conversion is silent.",
 ["cmd/rap-cli/main.go","internal/io/rapv1/util.go","format/io/writer.go"],
 [("upgrade command","cmd/rap-cli/main.go"),("default writer","format/io/writer.go NewRecoludeWriter")],
 None,["rap-cli upgrade output file"])
p("C15","Concurrent reads and writes are isolated from one another",
 "Any number of reads, writes, imports, exports and slices running at the same time on separate streams give exactly the results they give when run alone, even when they share the same encoder values and the same recording, and however many are under way, each waiting for its stream. No execution has a data race, deadlocks, or crashes. This holds for every interleaving.",
 ["schedules"],"all interleavings of 2-3 operations at statement granularity up to a preemption bound",
 "No test runs two operations concurrently; package-level scratch state or state kept in an encoder value only fails under particular interleavings.",
 ["format/io/writer.go","format/io/reader.go","format/encoding/*/*.go","internal/io/binary/*.go","format/parsing/json.go"],
 [("no shared mutable state: buffers are per call","all of format/ and internal/io")],
 None,["results of the concurrent operations"],"statement-level scheduling points inserted at build time by source instrumentation through a build overlay (no change in /repo)")
p("C16","Unordered maps never influence results",
 "Metadata and event dictionaries are unordered: whatever order the runtime happens to iterate them in, a written file reads back to the same recording, and the exported JSON is equivalent and the import and CSV conversion give the same recording. An uncompressed file with at most 128 different metadata keys has the same length for every order. No order makes an operation fail that succeeds for another.",
 ["schedules","inputs"],"all iteration orders of every map iterated during write, read, import, export (bounded number of keys)",
 "Go randomises map iteration per run, so a test samples one order; index/value pairing bugs appear for some orders only.",
 ["format/io/writer.go","format/encoding/event/event.go","format/metadata/property.go","format/metadata/metadata.go","format/parsing/json.go","internal/io/rapv1/util.go"],
 [("keys and values are paired through an index built from the same pass","writer.go, event.go, property.go")],
 None,["written bytes (length) and the recording read back"],"map iteration order is chosen by the harness through build-time source instrumentation (overlay)")
p("C17","A write that cannot represent the recording is refused cleanly",
 "Writing fails with an error, and without having written a single byte, when some collection, at any depth, is not accepted by any configured encoder, or when a collection, a sub-recording, a binary or a reference is missing (nil), or when an encoder cannot encode a collection because it holds captures of another type. It fails with an error, too, when a binary's data cannot be read or has another size than the binary claims. With no unrepresentable part anywhere, the write succeeds. It never crashes and never silently drops the part it cannot represent.",
 ["inputs","configurations"],"all placements of an unsupported or nil part in trees up to a depth, all subsets of encoders",
 "Tests cover the top level only; a part missing in a nested sub-recording takes another path.",
 ["format/io/writer.go"],
 [("evaluation pass before the first byte","writer.go evaluateCollections / recordingContainsNilValues")],
 None,["Writer.Write error; bytes that reached the destination"])
p("C18","Slicing keeps exactly the captures inside the half-open window",
 "A slice of a recording by [begin, end) keeps, in every collection of the recording and of every sub-recording, exactly the captures whose time t satisfies begin <= t < end, in order and with their values; collections keep their name and kind even when they become empty. Ids, names, metadata, references and the tree of sub-recordings are preserved at every depth, and binaries are kept exactly when asked for. The original is not changed, and slicing twice equals slicing once by the intersection of the windows.",
 ["inputs","histories"],"all recordings of a bounded family, all windows over a grid incl. boundaries, empty, inverted and infinite windows, sequences of slices",
 "Tests slice a few recordings with two windows; off-by-one on boundaries, equal times and nested trees are unbounded.",
 ["format/slice.go","format/recording.go","format/collection/*/collection.go"],
 [("filter per collection","format/collection/*/collection.go Slice"),("recursive rebuild","format/recording.go, format/slice.go")],
 None,["the recording returned by Slice"])
p("C19","Validation reports exactly the collections that are out of order",
 "The chronological validation of a recording reports no error when, in every collection at every depth, capture times never decrease; otherwise - when some capture is earlier than the one before it in its collection - it reports an error that names such a collection and its recording. Equal times are in order, and with the chronological requirement switched off no order is an error. Validation changes nothing.",
 ["inputs"],"all time patterns (order types) up to length n, in every position of trees up to a depth",
 "Tests try one bad sequence; the verdict must hold for every pattern and place.",
 ["format/validate.go"],
 [("pairwise check and recursion","format/validate.go")],
 None,["format.Validate result"])
p("C20","Start, end and duration follow from the captures of the whole tree",
 "The start of a recording is the earliest first-capture time and the end the latest last-capture time over every collection of the recording and all its sub-recordings at any depth; the duration is their difference, and zero for a recording without any capture. A collection that holds captures starts at its first and ends at its last one, its duration is their difference. For chronological recordings all captures lie between start and end. A version 1 message spans from its earliest to its latest time and counts all its custom events. The summary command prints that duration, the file's size and the counts of the recording's parts truthfully for every recording it loads.",
 ["inputs"],"all trees and capture placements of a bounded family, incl. empty collections, negative times, captures only in deep children",
 "Tests cover a few flat recordings; nested-only captures, negative times and empty recordings are not covered.",
 ["format/util.go","cmd/rap-cli/summarize.go","format/recording.go","internal/io/rapv1/util.go"],
 [("min/max recursion","format/util.go"),("summary printing","cmd/rap-cli/summarize.go")],
 None,["format.RecordingStart/End/Duration, rap-cli summarize output"])
p("C21","JSON import keeps everything the document says",
 "Importing a JSON recording gives the recording the document describes: names, ids, metadata (strings, numbers, booleans, vectors, objects and uniform arrays), references, every collection of each kind with each capture's time and value (enum captures by their named member), and all sub-recordings, in order. Malformed documents, unknown collection types and captures that lack required data are reported as errors instead of crashes or silently dropped parts. What is imported can be written and read back unchanged.",
 ["inputs"],"all documents of a bounded family built from the documented shape: every JSON type for every metadata value, missing, null or wrong-typed fields",
 "Tests import a few documents; the combinations of value types, arrays, escapes and missing fields are unbounded.",
 ["format/parsing/json.go","format/metadata/utils.go","format/metadata/metadata.go","cmd/rap-cli/main.go"],
 [("document walk","format/parsing/json.go"),("metadata type inference","format/metadata/utils.go")],
 None,["parsing.FromJSON; rap-cli from-json"])
p("C22","JSON export is always valid JSON and says what the recording holds",
 "Exporting any recording with finite numbers as JSON prints one syntactically valid document, whatever characters its names, ids and values contain. For every recording at every depth, in order, the document gives its id, name and metadata, and for every collection its name, type and number of captures - for events also each capture's time (to six decimals), name and data. If some part cannot be expressed in JSON, such as a time or value that is not finite, or cannot be written out, the export reports an error instead of printing a broken or partial document as success.",
 ["inputs"],"all recordings of a bounded family incl. quotes, backslashes, control characters, unicode, empty parts, nested trees, special floats",
 "Tests compare one short sample; separators between empty/non-empty parts and escaping fail on particular combinations.",
 ["cmd/rap-cli/json.go","format/metadata/property.go","format/metadata/metadata.go","format/collection/*/capture.go"],
 [("hand-printed JSON document","cmd/rap-cli/json.go"),("capture String/MarshalJSON","format/collection/*")],
 None,["rap-cli to-json output"])
p("C23","Metadata survives conversion to JSON and back",
 "Any metadata block converted to JSON is valid JSON, and converting that back gives a block with the same keys and the same values for every kind that JSON distinguishes (strings, integers, other numbers, booleans, vectors, times, bytes, nested blocks and arrays of them). Strings survive with every character, except that text which spells a time or 0x-prefixed bytes becomes that; numbers keep their value to the property's precision. A value read on its own as one of a known kind is the one a block would hold, and JSON of another sort (a number where a text belongs, a text that spells no time where a time belongs) is an error. Nothing crashes, and JSON that cannot be held in a block, such as null, an array of mixed kinds or an array of arrays, is an error, not a partial or corrupt block.",
 ["inputs"],"all metadata values of a bounded family, nested, in arrays; all small JSON documents as input",
 "Tests try one sample for each kind; escapes, exponent notation, empty/mixed arrays, vector look-alikes and nesting are unbounded.",
 ["format/metadata/metadata.go","format/metadata/utils.go","format/metadata/property.go"],
 [("MarshalJSON per property","format/metadata/property.go"),("type inference when reading","format/metadata/utils.go")],
 None,["metadata.Block MarshalJSON / UnmarshalJSON"])
p("C24","CSV import maps every row to the right place",
 "Importing a CSV table produces exactly one sub-recording per distinct pair of id and name, in order of first appearance, whose one position stream has one capture per row of that pair, at the row's time and with the row's values, in row order. Missing columns, rows of the wrong width and unparsable numbers are reported as errors with no recording. Column order, quoting, extra columns and spacing around column names and numbers do not change the result, and nothing crashes.",
 ["inputs"],"all tables of a bounded family: column permutations and omissions, interleaved ids, missing or malformed cells, quoting",
 "Tests import one or two tables; per-row and per-column combinations are unbounded.",
 ["cmd/rap-cli/csv.go","cmd/rap-cli/main.go"],
 [("header lookup","csv.go"),("grouping by id","csv.go")],
 None,["RecordingFromCSV; rap-cli from-csv"])
p("C25","Command line conversions are all-or-nothing and agree with each other",
 "Each command (summarize, to-json, from-json, upgrade, from-csv) reports failure (an error) whenever its input is missing, unreadable or not understood, or its output cannot be written, and success only if the complete result has been written. Input that cannot be understood leaves an already existing output file (and every other file) exactly as it was and produces no output; on success the output file holds only the new result. Where a command can read standard input or a named file, or write standard output or a named file, both give the same result, whatever the name.",
 ["fault_sequences","histories","inputs"],"all sequences of commands over a few files; input faults and output faults at each point; stdin/file and stdout/file forms",
 "Tests run single commands on good input; failed conversions that destroy or truncate an existing output, or exit successfully, are not covered.",
 ["cmd/rap-cli/main.go"],
 [("parse before the output is opened","cmd/rap-cli/main.go"),("errors returned from actions","cmd/rap-cli/main.go")],
 None,["files, output stream and error of BuildApp(...).Run"])
p("C26","BSON representation matches the JSON one",
 "Any metadata block converts to a BSON document that carries the same keys and values as the block: strings exactly, numbers as numbers, booleans, times to the millisecond, vectors as documents of their components, nested blocks as documents, arrays as arrays in order, and bytes as binary or number. Nothing is dropped, at any nesting, and the conversion neither fails nor crashes unless a key contains a NUL byte, which BSON cannot hold.",
 ["inputs"],"all metadata values of a bounded family, nested and in arrays",
 "Tests check a few kinds; per-kind marshalling code is separate and arrays or nested blocks take other paths.",
 ["format/metadata/property.go","format/metadata/metadata.go","format/collection/*/capture.go"],
 [("MarshalBSON/MarshalBSONValue per kind","format/metadata/property.go")],
 None,["bson.Marshal of blocks"])
p("C27","Operations are pure: no history changes a result or an argument",
 "Writing, reading, slicing, validating, measuring, importing and exporting never change the recordings they are given, and results returned earlier never change later. In any sequence of such operations over shared recordings, encoders, readers of other files and writers, each operation gives the same result as on fresh objects. In particular a writer or an encoder that has been used before, for other recordings or for failed writes, behaves like a new one. The bytes handed to an import, a read, a decoder or an array constructor, and those a conversion returned, belong to the caller, who may use the memory again.",
 ["histories"],"all operation sequences up to a depth over a small set of shared objects",
 "Tests use each object once; caches, reused buffers and aliasing appear only in the second or third use.",
 ["format/io/writer.go","format/io/reader.go","format/encoding/*/*.go","format/recording.go","format/collection/*/collection.go","internal/io/binary/*.go"],
 [("no state kept between calls","writer.go, encoders"),("results do not alias buffers that are reused","reader.go, binary.go")],
 None,["results of each operation; deep comparison of arguments and earlier results after each step"])
p("C28","Texts tell what values and captures hold",
 "The text (String) of a capture is its time in brackets to two decimals, followed by what it holds: an event's name, an enum's number, a float's value or the components of a position or rotation to two decimals. The text of a metadata value is a string itself, an integer, a byte or a time's microseconds in decimal, another number or a vector's components to six decimals, true or false, an array's kind and number of elements, and for a block every key exactly once, in order, with the text of its value, however deep. The text depends on nothing else: not on the order maps are iterated in, nor on whether the value was built, loaded, sliced or imported; and making it neither fails nor changes the value.",
 ["values"],"all kinds of values and captures, all map orders, blocks of every size",
 "Tests print a handful of values; ordering, rounding, nesting and sizes appear only for particular values and map orders.",
 ["format/metadata/property.go","format/collection/*/capture.go"],
 [("String per kind of value","format/metadata/property.go"),("keys are sorted","MetadataProperty.String"),("String per kind of capture","format/collection/*/capture.go")],
 None,["the text of every value and capture, compared with a text made by exact arithmetic"])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    print(json.dumps(x))
