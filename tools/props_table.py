TECH = "runtime monitoring: "
IN = ["inputs"]

prop("C01", "Structured bodies survive a write and a read unchanged",
"""Entries written to a JSON (compact or indented), NDJSON or CBOR body, array or object, plain or with a supported compression, are read back from the finished body as the same entries: same number, order (CBOR object bodies excepted: any order), keys, indices and values.
This holds for every value the format can carry: null, booleans, 64-bit integers and finite floats by numeric value (NDJSON numbers at float64 precision), any valid UTF-8 string, nested arrays and string-keyed objects, and byte strings in CBOR.""",
IN + ["configurations"], "all entry sequences of in-domain values, all formats x top-level types x compressions, any size around encoder and buffer boundaries",
"the tests write and read a few fixed rows; numbers, strings, lengths and counts at encoding boundaries, nested values and compressed bodies are never round-tripped",
["dsio/json.go", "dsio/ndjson.go", "dsio/cbor.go", "dsio/dsio.go", "dsio/entry_buffer.go", "compression/compression.go"],
[("entry writers and readers per format", "dsio/json.go, dsio/ndjson.go, dsio/cbor.go"), ("compression wrapping and flush on close", "dsio/dsio.go, compression/compression.go")],
TECH + "write/read trace against an exact value oracle", """Held on the generated entry sequences (thousands per format, sizes biased to boundaries); trusts the value comparator, which compares numbers exactly.""",
observe=["EntryWriter.WriteEntry/Close", "EntryReader.ReadEntry/Close"])

prop("C02", "Tabular bodies survive a write and a read unchanged",
"""Rows that fit the columns of a tabular schema, written to a CSV body (any separator and header setting, plain or compressed) or an XLSX body and read back under the same structure, are the same rows: same number, order, indices and typed cell values (line breaks inside CSV text are read as line feeds), and so is text in a column of another type when it spells no value of that type.
A value the format cannot carry is refused with an error by the writer; it is never dropped or altered silently.""",
IN + ["configurations"], "all schemas over string, number, integer, boolean, object, array and null columns, all rows that fit them, all CSV options that the writer and reader share",
"the tests write two or three fixed tables; quoting, separators, empty cells, single-column rows, large integers, nested cells, headers with special characters are not covered",
["dsio/csv.go", "dsio/xlsx.go", "tabular/tabular.go", "vals/coding.go"],
[("cell encoding by Go type, decoding by column type", "dsio/csv.go, dsio/xlsx.go"), ("header row handling on both sides", "dsio/csv.go")],
TECH + "write/read trace against an exact value oracle", """Held on generated tables; CSV strings without a carriage return (the reader normalises line endings by design), XLSX strings that XML 1.0 can carry.""",
observe=["EntryWriter.WriteEntry/Close", "EntryReader.ReadEntry/Close"])

prop("C03", "Bodies are interchangeable with any other implementation of the format",
"""What is written is a well formed JSON, NDJSON, CBOR, CSV or XLSX document of the intended content according to an independent decoder of the format (for compressed bodies, according to an independent decompressor).
Every valid document of those formats in any legal spelling (whitespace, escapes, number notation, CBOR integer widths, indefinite lengths and half floats, CSV quoting and line endings, missing final newline) is read to the entries it denotes.""",
IN + ["configurations"], "all in-domain entry sequences for the writers; all valid documents in any spelling for the readers",
"the tests only read documents shaped like the library's own output plus a handful of samples; a bug made symmetrically in reader and writer is invisible to a round trip",
["dsio/json.go", "dsio/ndjson.go", "dsio/cbor.go", "dsio/csv.go", "dsio/xlsx.go"],
[("hand written JSON and CBOR decoders", "dsio/json.go, dsio/cbor.go"), ("CSV dialect handling", "dsio/csv.go")],
TECH + "differential oracle: independent reference encoders and decoders", """Held on generated documents; trusts the reference codecs in mon/ref.go and Go's encoding/json, encoding/csv style references.""",
observe=["bytes written by EntryWriter", "EntryReader.ReadEntry"])

prop("C04", "Reading does not depend on how the bytes are delivered",
"""The entries read from a body, and whether reading it ends in an error, depend only on its bytes: not on how the source splits them into reads, not on whether the end of data is reported with or after the last bytes, and not on the size of read buffers.
The same holds for format detection from a reader and for the carriage-return normalising reader.""",
IN + ["schedules"], "all documents (valid and damaged), all read chunkings including single bytes and empty reads, all buffer sizes from 16 bytes up",
"the tests read from in-memory buffers that deliver everything at once; tokens that straddle a refill are reached only by accident",
["dsio/json.go", "dsio/csv.go", "dsio/ndjson.go", "dsio/cbor.go", "dsio/replacecr/replace_cr.go", "dsio/tracked_reader.go", "detect/json.go", "detect/determineFields.go", "detect/cbor.go"],
[("block refill of the JSON reader", "dsio/json.go"), ("carriage return replacement at buffer ends", "dsio/replacecr/replace_cr.go")],
TECH + "equivalence of entry traces under scripted delivery schedules", """Held on generated documents x delivery schedules x buffer sizes; empty reads are not delivered to zst bodies (third-party decoder limitation).""",
observe=["io.Reader given to the reader", "EntryReader.ReadEntry"])

prop("C05", "Malformed or truncated bodies are refused, never mistaken for complete",
"""Opening, reading, detecting or validating a body made of arbitrary bytes under any structure never panics, hangs, exhausts the stack or allocates without bound: it ends after finitely many entries, cleanly or with an error, and so does a document truncated or corrupted anywhere.
A JSON, CBOR or XLSX body, or any compressed body, cut short to one byte or more never ends cleanly having delivered fewer entries than the complete body has (a plain NDJSON or CSV body cut at a line end cannot be told from a shorter one).
A body whose structure is broken ends in an error: in JSON and NDJSON a missing, misplaced or surplus bracket, colon, comma, value or literal (but for a comma at the end of an array), in CBOR a reserved length, a break in place of a value or a key that is no text, in CSV (not lazily quoted) a stray or unclosed quote or a row of another length where that is not allowed, in XLSX a damaged part. What follows the end of the outermost JSON or CBOR array or object is not part of the body and need not be looked at.""",
IN, "all byte strings, all truncation points of valid documents, all structures including odd schemas and options",
"the tests hold a few hand picked malformed inputs; resource exhaustion and silent truncation need inputs nobody listed",
["dsio/json.go", "dsio/cbor.go", "dsio/csv.go", "dsio/ndjson.go", "dsio/xlsx.go", "detect/detect.go", "compression/compression.go", "tabular/tabular.go"],
[("depth and length limits in the decoders", "dsio/json.go, dsio/cbor.go"), ("unexpected end of data reported as an error", "dsio/json.go, dsio/cbor.go")],
TECH + "crash, hang, memory and completeness monitors under hostile inputs in a supervised child process", """Held on the generated hostile inputs and all truncation points of generated documents. A truncated JSON document may still deliver a wrong last entry before its error (pinned by existing tests).""",
observe=["process exit, heap, goroutines", "EntryReader.ReadEntry"])

prop("C06", "Every I/O failure is reported, never swallowed",
"""When the source of a body fails at any byte, reading it ends in an error and never in a clean end of data having delivered less than the body holds; entries delivered before the failure are entries of the body.
When the destination fails at any byte or call, writing and closing the body, converting it, writing a step file or compressing reports an error: a writer that closes without error has delivered every byte of a complete document.
An entry the writer refuses with an error leaves the rest of the document well formed.""",
["fault_sequences"] + IN, "every position of a read or write failure in generated bodies of every format, compression and writer, transient and permanent",
"no test injects a read or write failure; the positions to fail at are as many as the bytes of a document",
["dsio/json.go", "dsio/csv.go", "dsio/cbor.go", "dsio/ndjson.go", "dsio/xlsx.go", "dsio/dsio.go", "dsio/streams.go", "compression/compression.go", "stepfile/stepfile.go"],
[("write errors kept until Close", "dsio/csv.go, dsio/json.go"), ("read errors distinguished from the end of data", "dsio/json.go, dsio/cbor.go")],
TECH + "fault injection at every read and write position with a conservation oracle", """Enumerates every failing byte position of each generated small document, samples positions of large ones.""",
level="fault_enumeration", observe=["io.Reader / io.Writer faults", "errors returned"])

prop("C07", "Paging, copying and converting deliver exactly the entries asked for",
"""A page with offset o and limit l of a body is exactly entries o to o+l-1 of it in order (fewer when the body ends first), with nothing skipped, repeated or invented, whatever reader it wraps; reading all entries, iterating over entries (numbered from zero) and copying from a reader to a writer handle each entry exactly once, in order, and stop at the first error, which they return.
Converting a body file between formats yields a complete document of the target format holding the requested page, or the whole body when all is asked for (JSON indented exactly when its options ask for that).""",
IN + ["configurations"], "all bodies, all offsets and limits from 0, all pairs of source and target formats and compressions",
"the tests use one or two offsets and one body; off-by-one at page ends, offsets past the end and zero limits over every format are not covered",
["dsio/dsio.go", "dsio/entry.go", "dsio/streams.go"],
[("offset skipping and limit counting", "dsio/dsio.go PagedReader/PagedWriter"), ("copy loop and read-all", "dsio/streams.go, dsio/entry.go")],
TECH + "entry traces against a slice model", """Held on generated bodies x pages x format pairs.""",
observe=["EntryReader.ReadEntry", "bytes returned by ConvertFile"])

prop("C08", "The identity reader delivers every entry exactly once, then ends",
"""Reading an in-memory value through the identity reader delivers each of its elements (array) or pairs (object) exactly once and then the end of data on every further read, whatever the timing of the reads.
It never deadlocks, races or delivers anything after the end, and closing it, even before the end or twice, releases everything it started.""",
["schedules"] + IN, "all in-memory array and object values, all read timings, closing at any point",
"the reader feeds entries from a goroutine: the tests run one timing, and a lost or repeated entry or a leaked goroutine needs another",
["dsio/identity.go"], [("producer goroutine and its channels", "dsio/identity.go")],
TECH + "exactly-once trace checker and goroutine census under injected delays, with the race detector", """Held on the generated values and timings; race freedom on what the detector observed.""",
observe=["EntryReader.ReadEntry/Close", "runtime.NumGoroutine"])

prop("C09", "Reading and encoding do not modify or share state behind the caller's back",
"""Encoding, hashing, comparing, diffing, validating or opening a reader or writer over a dataset, component, schema or value leaves that input exactly as it was, so the same one may be used from many goroutines at once without data races and with the same results as sequentially.
Entries returned by a reader stay valid and unchanged while reading goes on.""",
["schedules"] + IN, "all documents, schemas and values; all interleavings of concurrent read-only uses",
"the tests are sequential and look at results, not at whether inputs changed or were aliased",
["dataset.go", "meta.go", "viz.go", "readme.go", "structure.go", "transform.go", "commit.go", "stats.go", "dsio/json.go", "dsio/csv.go", "dsio/cbor.go", "detect/detect.go", "validate/dataset.go", "dsdiff/dsdiff.go"],
[("component encoders", "*.go MarshalJSON"), ("package level schemas", "detect/detect.go, dataset.go")],
TECH + "race detector plus deep before/after snapshots of inputs", """Held on the executed interleavings and inputs.""",
observe=["deep snapshots of inputs", "race detector"])

DOCS = ["dataset.go", "commit.go", "meta.go", "structure.go", "transform.go", "readme.go", "stats.go", "viz.go"]

prop("C10", "Dataset documents survive JSON encoding and decoding",
"""Encoding a dataset or any of its components as JSON and decoding it gives back an equal document: every exported field and every additional metadata key (other than a known key in another letter case) survives, and a component that is only a path (and perhaps a kind identifier) encodes to that string and decodes back to a reference.
Excepted are transform secrets and open files, which are never encoded; kind identifiers, which references do not carry and which come back as the component's default kind where absent; and empty collections, which may come back absent.""",
IN, "all dataset documents with any combination of fields, components and additional metadata",
"the tests encode a handful of documents; the combinations of set and unset fields, references with other fields, and metadata keys near the reserved names are not covered",
DOCS, [("custom JSON encoders and decoders per component", "MarshalJSON/UnmarshalJSON in each component file")],
TECH + "encode/decode trace against a field-by-field document oracle", "Held on generated documents with random subsets of fields.",
observe=["json.Marshal / json.Unmarshal of documents"])

prop("C11", "Encoded documents and hashes are canonical and deterministic",
"""Equal documents always encode to the same bytes, however they were built and however often they are encoded, with object keys in lexicographic order, so that their hashes are equal; documents that differ in any encoded field encode to different bytes.
The hash of bytes is the base58 encoding of their SHA-256 multihash.""",
IN + ["histories"], "all documents, however their maps were filled and in whatever order; all byte strings",
"the tests compare a few fixed encodings and hashes; determinism and injectivity quantify over all pairs of documents",
DOCS + ["hash.go"], [("lexicographic keys", "MarshalJSON of each component"), ("sha2-256 multihash, base58", "hash.go")],
TECH + "byte comparison of repeated and rebuilt encodings, key-order scanner, independent hash oracle", "Held on generated documents; adjacent key pairs that the pinned tree emits out of order are listed known findings (reordering them would change stored hashes).",
observe=["json.Marshal of documents", "JSONHash, HashBytes"])

prop("C12", "Secrets never leave a transform",
"""No encoding, hash, diff or signature of a dataset or transform, and no rendering of the dataset that the ds template function gives, contains a secret's name or value, whatever else the document holds; secrets make no difference to how a transform that holds anything else is encoded.
Dropping transient values removes the secrets.""",
IN, "all documents with secrets, all ways of encoding them",
"one test checks one document; a leak needs only one encoding path that forgets to leave secrets out",
["transform.go", "dataset.go", "dsdiff/dsdiff.go", "dsviz/render.go"], [("secrets left out of the encoded form", "transform.go MarshalJSONObject")],
TECH + "taint canaries: unique secret tokens searched in every output", "Held on generated documents; each secret is a unique token.",
observe=["bytes of every encoder, differ, renderer"])

prop("C13", "Assign merges documents without losing or sharing anything",
"""Assigning documents onto a target leaves the target with, for every field, the value of the last source that sets it, or its own value if none does (a dataset's ID is kept once set; transform configuration, resources, secrets and additional metadata merge by key).
Sources are not modified by this, nor by later assignments to the target's fields through further merges.""",
IN + ["histories"], "all targets, all sequences of sources including nil and partial ones, repeated merges",
"the tests merge a few hand written documents; a forgotten field or an aliased component shows only with that field set or with a later merge",
DOCS, [("field by field assignment", "Assign in each component file")],
TECH + "merge model over random field subsets, deep snapshots of sources", "Held on generated sequences of merges.",
observe=["Assign", "deep snapshots"])

prop("C14", "Signing bytes bind exactly the identity, time and content of a version",
"""The bytes to sign are, newline separated and in a fixed order (id, body, commit, meta, readme, structure, transform, stats, viz), one line per part that is present: its two-letter prefix, a colon, and its path, the dataset ID, or the commit time in UTC RFC3339 seconds; nothing else influences them.
Changing the ID, body path, commit time by a second or more, or the path of any component changes them, and the time zone a commit time is expressed in does not; asking for them changes nothing.""",
IN, "all datasets with any subset of components, any paths and times",
"the tests check two documents; that nothing else influences the bytes and everything listed does quantifies over all documents",
["dataset.go", "kind.go"], [("signing line per component", "dataset.go SigningBytes"), ("kind prefixes", "kind.go")],
TECH + "independent reconstruction and single-field perturbation", "Held on generated documents; paths without newlines.",
observe=["SigningBytes, SignableBytes"])

prop("C15", "Emptiness, equality and path maps reflect every field",
"""A dataset or component reports itself empty exactly when no field other than its path and kind identifier is set, so nothing set is lost by treating it as a reference; the shallow comparison of transforms, readmes and visualisations is true exactly when all exported fields other than the path are equal.
The path map of a dataset has exactly one entry per present component that is not ignored, holding its path.""",
IN, "all documents, every single field and combination",
"the tests check a list of single fields; a field added or left out in one of the hand written lists is not noticed",
DOCS, [("hand written field lists", "IsEmpty, ShallowCompare, PathMap")],
TECH + "reflection-driven field enumeration against a model", "Enumerates every exported field singly and random combinations.",
observe=["IsEmpty, ShallowCompare, PathMap"])

prop("C16", "Detected structure describes the body and reads it completely",
"""For a well formed comma separated CSV, JSON, NDJSON or CBOR body, plain or compressed, the detected structure names its format and compression (from the file name where there is one), and its schema has the body's top-level type and, for CSV, one column per cell of the first row, each with the type most of its sampled values have (the first 2000 or so rows), named after the header row exactly when the first row is one: no cell of it empty, a number, true or false. Reading the body with that structure delivers all of it; rows of other lengths among the sampled ones are allowed for.
Detecting the structure of a dataset keeps every field of the structure that is set and fills in the others, its body file still delivers every byte afterwards, also when detection fails with an error, and detected structures belong to the caller: changing one affects no later detection.""",
IN + ["configurations"], "all well formed bodies and file names of the supported formats and compressions",
"the tests detect a list of fixture files; bodies around the sampled prefix, whitespace, types first seen late and compressed bodies are not covered",
["detect/detect.go", "detect/determineFields.go", "detect/json.go", "detect/cbor.go", "detect/xlsx.go"], [("format from file name, schema from a sample", "detect/"), ("sampled bytes put back in front of the body", "detect/detect.go")],
TECH + "detect-then-read trace against the generated content", "Held on generated bodies; XLSX schemas are not detected by the pinned tree (documented TODO) and are left out.",
observe=["detect.* results", "EntryReader over the returned reader"])

prop("C17", "Typed values parse, print, compare and convert consistently",
"""A text that spells an integer (within 64 bits), a number, a boolean, null or a JSON array or object is inferred to be of that type, the narrowest that fits, and other text to be a string; parsing it as its inferred type yields the value it denotes, and that value printed and parsed again is the same. Text that does not spell a scalar type fails to parse as it.
Typed values made from decoded Go values or from JSON text have exactly the type and content of every value in them and encode to JSON of the same content; invalid JSON, other Go types and integers out of range are refused. Equality of typed values is an equivalence that holds exactly for the same types and content, however the values were made, and comparison of integer, number and string texts orders them as their values are ordered, empty text first.""",
IN, "all texts and all typed values, nested ones included",
"the tests list examples per type; consistency between inference, parsing, encoding and comparison quantifies over all texts and triples of values",
["vals/type.go", "vals/value.go", "vals/coding.go", "vals/compare.go", "vals/object_value.go"], [("type inference from text", "vals/type.go"), ("comparison", "vals/compare.go")],
TECH + "algebraic oracles over generated texts and value triples", "Held on generated texts and values; integers within 64 bits.",
observe=["vals.*"])

prop("C18", "Validation reports exactly the entries that violate the schema",
"""Validating a body against its structure's schema, where the schema constrains the entries (items, additionalProperties), reports errors for exactly the entries that do not conform to it and none for those that do, whatever the number of entries and however they are delivered, and each report's path starts at its entry.
Structural validation accepts exactly the datasets whose commit is present with a title of at most 100 ASCII characters and whose structure, if any, has a known format and a schema; names are valid exactly when they are 1 to 144 letters, digits and underscores starting with a letter; and CSV row-length checking fails exactly when two rows differ in length.""",
IN, "all bodies of any length, all schemas over the common keywords on entries, invalid entries at any position",
"the tests validate a few rows; validation works in batches of thousands of entries, which no test reaches",
["validate/data.go", "validate/dataset.go", "validate/validate.go", "validate/csv.go"], [("batched schema validation", "validate/data.go"), ("field rules", "validate/dataset.go, validate/validate.go")],
TECH + "per-entry schema oracle over generated bodies with planted invalid entries", "Held on generated bodies up to several batches; keywords about the whole body (minItems, uniqueItems, contains, required of a top-level object) are applied per batch and not claimed.",
observe=["validate.EntryReader and friends"])

prop("C19", "Body statistics agree with the body",
"""The statistics of a body report, per column or key in order, figures that hold of its values of the type of the column's first one: exact counts, exact minimum, maximum, mean (up to rounding), string lengths, true and false counts and, up to the frequency limit, exact frequencies; histogram frequencies are non-negative and sum to the count.
They depend only on the entries, not on the body's format or compression nor on how often the result is read or closed.""",
IN, "all bodies of uniform or mixed types, any number of rows and columns",
"the tests compare a few small bodies with stored results; large values, negative numbers, merged histogram bins and repeated closing are not covered",
["dsstats/stats.go", "stats.go"], [("accumulators per type", "dsstats/stats.go"), ("histogram sketch", "dsstats/histosketch/histosketch.go")],
TECH + "independent exact recomputation over generated bodies", "Held on generated bodies; medians and unique counts are estimates and only bounded.",
observe=["dsstats.Calculate, Accumulator"])

prop("C20", "Histogram sketches keep counts, bounds and order",
"""A histogram sketch reports the exact count, minimum and maximum of everything added to it, singly, in bulk, from a sample or by merging; its cumulative count never decreases, is 0 below the minimum and the full count from the maximum on, its quantiles lie between minimum and maximum and never decrease, and its histogram has at most as many bins as centroids, in order, with frequencies that sum to the count.
While no more distinct values than centroids were added its cumulative counts are exact, and encoding and decoding a sketch changes nothing it reports.""",
IN + ["histories"], "all sequences of additions, merges and encodings, any centroid count",
"the tests use a few distributions and tolerances; the invariants quantify over all histories of additions and merges",
["dsstats/histosketch/histosketch.go"], [("centroid merging", "histosketch.go AddMany"), ("binary coding", "histosketch.go MarshalBinary")],
TECH + "invariant monitor over operation histories against an exact multiset", "Held on generated histories.",
observe=["Sketch methods"])

prop("C21", "Previews are bounded, faithful and leave the dataset usable",
"""Creating a preview fills in the first entries of the body, at most 100, in order, as JSON with the body's values, and at most the first 997 bytes of the readme, followed by an ellipsis exactly when there is more; everything else is left as it was.
Afterwards, also after an error, the dataset's body and readme files are still there and deliver every byte they would have before, so that previews can be repeated; a body without a usable structure, a missing or empty dataset and a failing source are refused with an error, not a crash or a wrong preview.""",
IN + ["configurations", "fault_sequences"], "all datasets: any body size, format and compression, any readme size, any missing part, any way the files deliver their bytes",
"the tests preview one small dataset; the limits and the restored files matter for large ones",
["preview/preview.go"], [("row and byte limits", "preview/preview.go"), ("tee and restore of consumed files", "preview/preview.go")],
TECH + "size-boundary and fault workloads against a slice model, byte conservation of files, race detector", "Held on generated datasets around the limits; the preview is written into the dataset passed in, which is pinned behaviour.",
observe=["preview.Create", "BodyFile, ScriptFile"])

prop("C22", "Rendering shows the dataset's data and consumes none of it",
"""Rendering a visualisation template yields the document the template describes: literal text, the dataset's fields and title, file sizes in the largest fitting binary unit, types of values, and for bodyEntries with an offset and limit (or limit -1, or allBodyEntries) exactly the body entries asked for, as often as they are asked for; data is escaped for its HTML, attribute, URL or script context and shows its value there.
Afterwards, also after an error, the template and body files are still there under their paths and deliver every byte they would have before, and the dataset is unchanged; a missing or unusable template, predefined template, format or body and a failing source are reported as an error.""",
IN + ["configurations", "fault_sequences"], "all datasets and templates over the documented functions, any number of body accesses, any way the files deliver their bytes",
"the tests render two templates; repeated and partial body accesses and failures in the middle are not covered",
["dsviz/render.go"], [("template functions", "dsviz/render.go"), ("tee and restore of consumed files", "dsviz/render.go")],
TECH + "render trace decoded and compared with an independently computed expectation, byte conservation of files, race detector", "Held on generated datasets and templates.",
observe=["dsviz.Render", "BodyFile, Viz.ScriptFile"])

prop("C23", "Diffs report a change exactly when something changed",
"""Diffing two datasets, or two structures, transforms, metas or visualisations, reports no change for a component when both sides encode equally (or, other than structures, share a path) and a change whenever the encodings differ (a transform's script path counts only where one side has none, and metadata without content equals none); deltas outside lists applied to the first yield the second.
Summaries name the highest-priority changed component (structure, data, transform, meta, visualisation) and its number of changes, and are empty exactly when nothing changed; diffing modifies neither side.""",
IN, "all pairs of documents differing in any subset of fields",
"the tests diff a few pairs of fixtures",
["dsdiff/dsdiff.go"], [("component differs", "dsdiff/dsdiff.go")],
TECH + "diff trace against structural comparison, patch replay", "Held on generated pairs.",
observe=["dsdiff.*"])

prop("C24", "Compression is lossless, complete and interoperable",
"""Everything written to a compressor, in any sequence of writes and flushes, is delivered unchanged by the decompressor of the same format and by any independent implementation, and independently compressed data is decompressed unchanged.
Compressed data that is corrupted or truncated (to one byte or more) ends in an error and never in a clean end with different data; unknown formats are refused.""",
IN + ["schedules"], "all byte strings, all write and read schedules, gzip and zst",
"the tests compress one string",
["compression/compression.go"], [("compressor and decompressor registry", "compression/compression.go")],
TECH + "round trip and cross-implementation oracle under random write/read schedules", "Held on generated data; zst is cross-checked against Go's internal/zstd decoder and frames of the zstd tool, gzip against the standard library.",
observe=["Compressor / Decompressor"])

prop("C25", "Step files survive writing and reading",
"""Writing one or more transform steps to a step file and reading it back gives the same scripts in the same order, whatever form the scripts are held in (text, bytes or a reader), provided no script contains a separator line.
Reading any text yields the chunks between separator lines whose rejoining is the text; unusable scripts and failing writes are reported.""",
IN + ["fault_sequences"], "all sequences of scripts, all texts, all write failures",
"the tests read one file and write one list",
["stepfile/stepfile.go"], [("separator lines", "stepfile/stepfile.go")],
TECH + "round-trip oracle with injected write failures", "Held on generated steps.",
observe=["stepfile.Read, Write, ReadFile"])

prop("C26", "Generated data fits its schema",
"""A tabular generator yields rows numbered from zero with one value per schema column, each of the column's type and within the configured limits, for as many rows as are read, so that they can be written in any tabular format; the same seed yields the same rows.
Over many rows every type's values vary: booleans take both values. The dsgen command prints as many rows as asked for as CSV of its structure, wherever the option stands, and exits with a failure when it cannot.""",
IN + ["configurations"], "all tabular schemas, all seeds and any number of rows",
"the tests generate a few rows with one seed",
["generate/tabular.go", "generate/value.go", "generate/dsgen/main.go"], [("value generator per type", "generate/value.go"), ("command", "generate/dsgen/main.go")],
TECH + "schema conformance monitor over generated rows", "Held on generated schemas and rows.",
observe=["TabularGenerator.ReadEntry"])

prop("C27", "Tabular schemas are understood completely or refused",
"""A schema describing a table yields exactly its columns, in order, with titles, types and remaining validation keywords, and encoding the columns gives them back; a schema that does not describe a table is refused with an error or a problem list, never with a crash and never as other columns.
Column titles are confirmed machine-readable exactly when each is an identifier (a letter, underscore or dollar sign, then these and digits) and no two are equal. A schema inferred from rows of Go values describes a table with a column per value of the first row, of its type.""",
IN, "all schemas, tabular or not, well formed or not",
"the tests hold a list of schemas",
["tabular/tabular.go"], [("schema interpretation", "tabular/tabular.go")],
TECH + "column oracle over generated and damaged schemas", "Held on generated schemas.",
observe=["tabular.*"])

prop("C28", "Opening and inlining component files uses the right source",
"""Opening a body, script or rendered file yields the inline content when there is any and otherwise exactly the file the path resolves to, reports a missing resolver or a failed resolution as an error, and does nothing when there is nothing to open; an inline body value is refused.
Inlining a script file moves its full content into the text, clears its path, and leaves no file open; without a resolver, or when resolving or reading fails, it changes nothing.""",
IN + ["fault_sequences"], "all combinations of inline content, paths, resolvers and resolver or read failures",
"the tests cover one case per component",
["dataset.go", "transform.go", "viz.go", "readme.go"], [("source priority", "OpenBodyFile, OpenScriptFile, OpenRenderedFile, InlineScriptFile")],
TECH + "recording resolver with injected failures against a decision table", "Enumerates the combinations.",
observe=["qfs.PathResolver, qfs.File Read/Close"])

prop("C29", "Formats, kinds, options and generated names are unambiguous",
"""Every data format and every kind (two letters, a colon, a version) converts to text and back unchanged; any other format text, and any kind without a colon after two characters or without a version, is refused; format options built from a map give back an equivalent map that is accepted again, and wrongly typed options are refused.
Generated column names and letters are distinct for distinct positions, and body file names end in the format and compression from which detection recovers both.""",
IN, "all texts, all option maps, all positions",
"the tests list examples",
["data_format.go", "data_format_config.go", "kind.go", "structure.go", "dsio/xlsx.go", "detect/detect.go"], [("conversion tables", "data_format.go, kind.go"), ("base-26 names", "structure.go")],
TECH + "enumeration of positions and options against inverse functions", "Positions enumerated to 200000.",
observe=["ParseDataFormatString, Kind, FormatConfig, AbstractColumnName"])

prop("C30", "Dropping transient or derived values removes exactly those",
"""Dropping transient values from a dataset or component clears exactly the fields that cannot be recorded in an immutable document (a dataset's body, body bytes, name, peername, path, profile ID and number of versions; a transform's path, secrets and text; a readme's or visualisation's path and text; the path of the others), and dropping derived values exactly those set on save (kind and path, and a structure's checksum, depth, error count, entries and length; for a dataset including its components); every other field keeps its value.
Doing either twice is the same as once.""",
IN, "all documents, every field set or unset",
"the tests check whole documents for a few fields",
DOCS, [("field resets", "DropTransientValues, DropDerivedValues")],
TECH + "reflection-driven field enumeration against a table of transient and derived fields", "Enumerates every exported field.",
observe=["DropTransientValues, DropDerivedValues"])

prop("C31", "Comparison and fixture helpers tell equal from different",
"""Comparing two datasets, commits, metas or structures gives an empty text exactly when no exported field differs, at any depth (with the option, after dropping transient values on both sides; missing and empty parts may count as either), and modifies neither; dataset checksums agree for equal datasets and differ for different ones (commit times by the second).
Test cases loaded from a directory hold exactly the bytes and documents of the files there, one case per directory that has any and none for one with a document that does not decode, also when loaded from many goroutines at once; a comparison with a golden file fails the test exactly when the dataset differs from it, and the file is rewritten, completely, only then and when the environment asks for it.""",
IN + ["schedules"], "all pairs of documents differing in any exported field, all subsets of test case files",
"the helpers are what other tests decide by; a comparison that is blind to a field makes every test that uses it pass, and no test tries all fields",
["dstest/compare.go", "dstest/dstest.go", "dstest/golden.go"], [("comparison on copies", "dstest/compare.go"), ("loading of cases", "dstest/dstest.go")],
TECH + "reflection oracle over the exported fields, file trace", "Held on generated pairs and directories.",
observe=["dstest.CompareX, DatasetChecksum, LoadTestCases, UpdateGoldenFileIfEnvVarSet"])

prop("C32", "Metadata set by key lands in its field and nowhere else",
"""Setting a metadata value by key, known keys in any letter case and with surrounding space, stores a well-typed value in exactly the field of that name and nothing else (null clears text and lists); an ill-typed value is refused with an error and leaves the metadata as it was.
Any other key is kept, as spelled, with its value in the additional metadata and in the encoded document.""",
["inputs", "histories"], "all histories of Set and SetArbitrary calls with JSON values",
"the tests set each key once on an empty document",
["meta.go"], [("dispatch by key", "meta.go"), ("value decoding", "meta.go")],
TECH + "state model checked after every call of generated histories", "Held on generated histories.",
observe=["Meta.Set, SetArbitrary, Meta, MarshalJSONObject"])

prop("C33", "What opens a body leaves nothing behind",
"""Once a body's reader or writer is closed, read to the end or not, nothing it started or opened is left: no goroutine, decompressor or open file. The same holds after opening one fails, and after converting, detecting, validating, computing statistics, previewing, rendering or loading a test case returns, with a result or an error, whatever the format, compression, structure and state of the body.""",
IN + ["fault_sequences", "histories"], "all operations over bodies, whole, damaged or from failing sources, under fitting and unfitting structures, any number of times",
"a test ends before anything that is left behind can matter, and none counts what is left",
["dsio/dsio.go", "dsio/json.go", "dsio/csv.go", "dsio/cbor.go", "dsio/ndjson.go", "compression/compression.go", "detect/detect.go", "dsstats/stats.go", "preview/preview.go", "dsviz/render.go", "dstest/dstest.go"],
[("closing of decompressors", "dsio readers' Close, compression.Decompressor"), ("closing on error paths", "constructors, ConvertFile, detect.FromReader")],
TECH + "census of goroutines and open files after every operation", "Held after every generated operation.",
observe=["NewEntryReader, Close, ConvertFile, detect.FromReader, Calculate, Create, Render, NewTestCaseFromDir"])
