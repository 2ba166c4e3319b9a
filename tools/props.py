#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,q,why,files,mech,observe=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":q},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],
                 "observe_at":observe or [],"hook_needed":None}})

p("C01","JSON body reader yields exactly the entries of any well-formed document",
  "For every well-formed JSON array or object body, whatever sizes the underlying stream delivers its bytes in, reading entries yields each top-level element exactly once, in order, with its index or key and a value equal to what a standard JSON decoder gives (integers that fit as int64, other numbers as float64), then end-of-file. A document cut short at any point, or holding where a value should start a byte that cannot start one, yields an error (at most after a null placeholder for the missing value), never a clean end-of-file, and the entries complete before that point are unaltered.",
  ["inputs","schedules"],"all well-formed JSON bodies, all ways the stream can be split into reads (in particular tokens straddling the internal buffer boundaries)",
  "Tests parse a few dozen literal documents with one reader that hands over everything at once; buffer-boundary splits, escapes and number shapes are input-dependent.",
  ["dsio/json.go"],[("hand-written streaming tokenizer","dsio/json.go:JSONReader"),("buffer refill","dsio/json.go")],["dsio.NewJSONReader","EntryReader.ReadEntry"])
p("C02","Body readers survive arbitrary bytes: no panic, no hang",
  "For every byte sequence given as the body of a JSON, CBOR, CSV or NDJSON dataset, in every split of the stream into reads and with a stream error at any point, reading entries until the first error terminates without panicking, and the number of entries returned is bounded by the number of bytes supplied. JSON and CBOR values nested more than about 10000 levels deep are refused with an error instead of exhausting the stack.",
  ["inputs","fault_sequences"],"all byte strings and all read splits, for every supported streaming format and both top-level types",
  "The repository has a fuzz entry point but no proof; tests feed only well-formed or mildly broken literals.",
  ["dsio/json.go","dsio/cbor.go","dsio/csv.go","dsio/ndjson.go","dsio/replacecr/replace_cr.go"],[("bounds handling in tokenizers","dsio/json.go, dsio/cbor.go"),("line reader","dsio/ndjson.go")],["dsio.NewEntryReader"])
p("C03","JSON writers emit valid JSON holding exactly the accepted entries",
  "For every sequence of entry writes (accepted or rejected) to a compact or indented JSON body writer followed by close, the output is one valid JSON document of the schema's top-level type that contains exactly the entries whose write reported success, in order, and reading it back with the JSON body reader returns them unchanged. Object entries with an empty or repeated key are rejected.",
  ["inputs","histories"],"all histories of writes including rejected ones (duplicate or missing keys, unencodable values), all entry values within bounds, compact and pretty modes",
  "Tests write a handful of fixed accepted sequences; none continues after a rejected write.",
  ["dsio/json.go"],[("separator state and key tracking","dsio/json.go:JSONWriter")],["dsio.NewJSONWriter","dsio.NewJSONPrettyWriter"])
p("C04","CBOR body reader decodes values as the CBOR standard specifies",
  "For every well-formed definite or indefinite length CBOR array or map body built from integers, byte and text strings, arrays, maps, booleans, null, tags and half, single and double floats, reading entries yields exactly the encoded elements in order with the values RFC 7049 assigns, then end-of-file; integers outside the int64 range are read as the nearest float64 (map keys are definite-length text). A body cut short after its first byte yields its complete entries and then an error, not end-of-file.",
  ["inputs"],"all well-formed encodings: every length form, every integer width and sign, every float width, any payload",
  "Tests cover a table of literal encodings; integer widths, negative numbers and float forms outside the table are untested.",
  ["dsio/cbor.go"],[("major-type dispatch and integer decoding","dsio/cbor.go:CBORReader")],["dsio.NewCBORReader"])
p("C05","CBOR write then read returns the same entries",
  "Every sequence of entries accepted by the CBOR body writer and closed is read back by the CBOR body reader followed by end-of-file: array bodies as the same values in the same order, object bodies as the same keys with the same values (in sorted key order). Entries with empty or repeated keys are rejected without harming the others, and later reads never alter values already returned.",
  ["inputs","histories"],"all entry sequences within bounds, array and object bodies, strings and byte strings of lengths around internal buffer sizes",
  "Tests round-trip small literals only, never values longer than the stream buffer, and never re-check earlier values after later reads.",
  ["dsio/cbor.go"],[("CBOR writer","dsio/cbor.go:CBORWriter"),("CBOR reader","dsio/cbor.go:CBORReader")],["dsio.NewCBORWriter","dsio.NewCBORReader"])
p("C06","CSV bodies round trip through typed columns",
  "For every tabular schema and format configuration (header row, separator), rows with one value per column conforming to the column types (text without carriage returns) written by the CSV body writer are read back by the CSV body reader as equal typed rows, one per written row, in order; the header row, when configured, is written exactly once, holds the column titles, and is never returned as data. A cell that does not parse as its column's type is read as its text.",
  ["inputs","configurations"],"all cell contents within bounds (including quotes, separators, newlines), all column types, header on or off, all separators",
  "Tests read a few fixture files; quoting, separators and type conversion of arbitrary cells are not covered.",
  ["dsio/csv.go","tabular/tabular.go","vals/type.go"],[("typed cell decoding/encoding","dsio/csv.go")],["dsio.NewCSVReader","dsio.NewCSVWriter"])
p("C07","NDJSON bodies: one entry per line, round trip, last line included",
  "Reading a newline-delimited JSON body whose lines are JSON values yields exactly one entry per line in order with the value of that line (numbers as floats), including a last line with no trailing newline, for every split of the stream into reads; and every entry sequence accepted by the writer is read back unchanged. A line that is neither blank nor a JSON value yields an error after the entries of the lines before it.",
  ["inputs","schedules"],"all line contents within bounds, all read splits, trailing newline present or absent",
  "Tests use one document ending in a newline delivered at once.",
  ["dsio/ndjson.go"],[("line scanning","dsio/ndjson.go")],["dsio.NewNDJSONReader","dsio.NewNDJSONWriter"])
p("C08","Carriage-return repair gives the same bytes for every read size",
  "Reading a stream through the carriage-return replacer gives, for every sequence of read buffer sizes and every split of the source, the source bytes with a line feed inserted after each carriage return that lacks one, and nothing else changed, lost or repeated.",
  ["inputs","schedules"],"all byte strings within bounds, all destination buffer sizes, all source splits",
  "Tests use one literal read at once by an unlimited reader.",
  ["dsio/replacecr/replace_cr.go"],[("reader wrapper","dsio/replacecr/replace_cr.go:Reader")],["replacecr.Reader"])
p("C09","Copying, paging, converting deliver each entry once and surface errors",
  "Copying, paging (offset and limit), iterating, reading-all and format conversion deliver exactly the selected window of the source's entries, each once and in order, and any error from the source or the destination other than end-of-file is returned to the caller rather than producing a short result reported as success.",
  ["inputs","histories","fault_sequences"],"all entry counts, offsets, limits (including zero and negative), all positions of a read or write failure",
  "Tests page fixed files and never inject a failing reader or writer.",
  ["dsio/streams.go","dsio/entry.go","dsio/dsio.go"],[("PagedReader window","dsio/streams.go"),("Copy / ReadAll / ConvertFile error handling","dsio/streams.go, dsio/dsio.go")],["dsio.Copy","dsio.PagedReader","dsio.ConvertFile","dsio.ReadAll","dsio.EachEntry"])
p("C10","Writers report every failed write of the underlying sink",
  "If any write to the underlying sink fails while writing entries or closing, the JSON (compact and indented), CBOR, CSV and NDJSON body writers report an error from that write or at the latest from close, so success from every call implies that all bytes were accepted by the sink. (Writers wrapped in compression are outside the claim.)",
  ["fault_sequences","histories"],"a failure at every possible write index, for every writer and entry sequence within bounds",
  "Tests only write to in-memory buffers that never fail.",
  ["dsio/json.go","dsio/cbor.go","dsio/csv.go","dsio/ndjson.go"],[("error propagation","WriteEntry and Close of each writer")],["EntryWriter.WriteEntry","EntryWriter.Close"])
p("C11","In-memory entry reader delivers every element, then EOF, in any schedule",
  "Reading from an in-memory array or object returns each element exactly once (arrays in order) and then end-of-file, and closing at any moment returns, under every goroutine schedule; no schedule loses, repeats or invents an entry or blocks forever.",
  ["schedules","inputs"],"all interleavings of the producing and the reading goroutine, all element counts within bounds, close after any prefix",
  "A test observes one schedule chosen by the runtime.",
  ["dsio/identity.go"],[("producer goroutine and channel","dsio/identity.go:IdentityReader")],["dsio.NewIdentityReader"])
p("C12","Assign overlays set fields only, for every dataset component",
  "After assigning sources onto a dataset or onto any of its components, every field the sources set (non-zero) holds the value of the last source that set it, every other field keeps its prior value, absent (nil) sources change nothing, and the sources themselves are left unchanged. Exceptions by design: a dataset's ID is kept once set, and a transform's config, secrets and resources are merged key by key.",
  ["inputs","histories"],"every field of every component independently set or unset on both sides, sequences of sources",
  "Tests assign a few chosen field combinations; fields omitted from a copy list go unnoticed.",
  ["dataset.go","commit.go","meta.go","structure.go","transform.go","viz.go","readme.go","stats.go"],[("per-component Assign","commit.go, meta.go, structure.go, transform.go, viz.go, readme.go, stats.go, dataset.go")],["(*Dataset).Assign","component Assign methods"])
p("C13","Component JSON round trip preserves content; references stay references",
  "Encoding any dataset component to JSON and decoding it again yields the same persistent field values (additional metadata keys included), a component that holds only a path encodes as a bare path string that decodes to a reference with that path, and values meant not to be serialised (transform secrets, open files) never appear in the encoding. Asked for an object, every component encodes as one with its content, also a reference. Text that is no JSON, and numbers, lists and truth values, are no components and an error. The path itself need not survive when other content is present, the qri kind may be filled in, and additional metadata keys equal to a field name but for case are outside the claim.",
  ["inputs"],"every field of every component set or unset, in all combinations within bounds",
  "Tests compare a few literal documents.",
  ["dataset.go","commit.go","meta.go","structure.go","transform.go","viz.go","readme.go","stats.go"],[("MarshalJSON/UnmarshalJSON","component files")],["json.Marshal","json.Unmarshal"])
p("C14","Emptiness, dropping and comparison account for every field",
  "A component reports itself empty exactly when all its content fields are unset (path, kind and open files are not content); dropping transient or derived values clears exactly those fields and leaves the rest; and comparing transforms, visualisations and readmes reports equal exactly when their compared contents are equal, and is symmetric.",
  ["inputs"],"every field of every component independently set or unset",
  "Tests exercise selected fields.",
  ["dataset.go","commit.go","meta.go","structure.go","transform.go","viz.go","readme.go","stats.go"],[("IsEmpty/DropTransientValues/DropDerivedValues/ShallowCompare","component files")],[])
p("C15","Path map and signing bytes cover every component of a dataset",
  "The path map lists exactly the components present (minus those ignored) with their paths; the signing bytes contain one line for each identified component, so two datasets that differ in the identity, any component path or the commit time (to the second) never share signing bytes, and identical ones always do. IDs and paths contain no line breaks.",
  ["inputs"],"all combinations of present components, paths and ignore lists within bounds",
  "Tests check one fully populated dataset.",
  ["dataset.go","kind.go"],[("PathMap, SigningBytes","dataset.go")],["(*Dataset).PathMap","(*Dataset).SigningBytes"])
p("C16","Names of formats, kinds and compressions convert consistently",
  "Parsing the printed name of any data format, value type, compression or document kind returns the same item, names outside the accepted vocabulary are rejected with an error, a document kind is valid exactly when it has the form [type]:[version] (a type of two characters and a version that is not empty), and every format configuration decodes and re-encodes to the same options (a CSV separator is one character). The file name a structure gives its body names the structure's format and compression.",
  ["inputs","configurations"],"all strings up to the stated length, all format options",
  "Tests check the listed names and a couple of bad ones.",
  ["data_format.go","data_format_config.go","kind.go","vals/type.go","compression/compression.go"],[("name tables","data_format.go, vals/type.go, kind.go, compression/compression.go")],[])
p("C17","Type inference, parsing and comparison of cell values agree",
  "The type inferred for a text cell is one whose parser accepts that cell (integers beyond 64 bits and structured cells, recognised by their leading bracket, excepted), parsing a cell as a type returns the value the text denotes or an error, printing a parsed value gives text that parses to the same value, decoding a JSON value agrees with a standard decoder, and value comparison is a consistent total order (antisymmetric, transitive, zero exactly on equal values) over parseable values of a type, NaN excepted.",
  ["inputs"],"all cell texts and pairs/triples of cells within bounds",
  "Tests sample a table of literals.",
  ["vals/type.go","vals/compare.go","vals/value.go"],[("ParseType, Type.Parse, compare functions","vals")],["vals.ParseType","vals.CompareTypeBytes"])
p("C18","Body statistics are exact for every entry sequence",
  "For every sequence of entries, the computed statistics report for each column (its type being that of its first value, only values of that type counted) the exact count, exact minimum and maximum (numbers by value, text by length), mean equal to sum over count, median between minimum and maximum, histograms whose positive frequencies add up to the count, exact frequencies of texts while no more distinct texts occur than are tracked, and true/false counts for booleans. Merging and encoding histogram sketches keeps counts and extremes. Closing the accumulator again changes nothing. Computing them while copying changes nothing that readers downstream see, and read errors are passed on. NaN and the estimate of distinct values are outside the claim.",
  ["inputs","histories"],"all value sequences within bounds, mixed types, array and object bodies",
  "Tests compare one fixture per shape.",
  ["dsstats/stats.go","dsstats/histosketch/histosketch.go"],[("accumulators","dsstats/stats.go"),("sketches","dsstats/histosketch/histosketch.go")],["dsstats.Accumulator","dsstats.Calculate"])
p("C20","Structure detection is non-destructive and independent of read sizes",
  "Detecting the structure of an uncompressed (for compressed ones see C25) JSON, CBOR, CSV or NDJSON body from its file leaves the whole body readable from the file afterwards, also when detection fails, and the detected format, top-level type, header row and column types follow from the content alone, however the stream splits its reads; fields of the dataset's structure that were set before are kept, and a structure with format, schema and (for CSV) format configuration needs no body. (XLSX bodies are outside the claim.)",
  ["inputs","schedules"],"all bodies within bounds, all read splits",
  "Tests use files that deliver everything in one read.",
  ["detect/detect.go","detect/json.go","detect/cbor.go","detect/determineFields.go"],[("peeking readers","detect")],["detect.Structure","detect.FromReader"])
p("C22","Generated column names are unique and match the spreadsheet convention",
  "For every column index below 16384 (the spreadsheet limit), the spreadsheet letter name follows the A, B, ..., Z, AA convention and the abstract column name follows the same convention in lower case, so both are non-empty letters only and no two indices share a name.",
  ["inputs"],"all index pairs within the stated range",
  "Tests sample a few indices.",
  ["dsio/xlsx.go","structure.go"],[("base-26 conversion","dsio/xlsx.go:ColIndexToLetters"),("abstract names","structure.go:AbstractColumnName")],["dsio.ColIndexToLetters","dataset.AbstractColumnName"])
p("C23","Transform step files round trip",
  "Writing any non-empty list of transform steps to a step file and reading it back gives the same script texts in order, for every script text without a line consisting of the separator, and every write failure is reported.",
  ["inputs","fault_sequences"],"all step lists and script texts within bounds, all write failure points",
  "Tests use two fixed files.",
  ["stepfile/stepfile.go"],[("separator scanning","stepfile/stepfile.go")],["stepfile.Read","stepfile.Write"])
p("C24","Previews are bounded prefixes and never damage the source dataset",
  "A preview contains at most the configured number of body rows, and these are exactly the leading rows of the body; readme text beyond the configured number of bytes is cut there and marked with an ellipsis, shorter text and all other components are whole. A body that cannot be read, or has no structure, is reported as an error. Creating a preview does not panic for any combination of missing components, and leaves the source's body and readme files readable in full, also when it fails.",
  ["inputs"],"all combinations of present components, body lengths around the limits",
  "Tests preview two fixture datasets.",
  ["preview/preview.go"],[("limits","preview/preview.go")],["preview.Create"])
p("C27","Dataset, structure and CSV validation accept exactly what the rules allow",
  "Row-length validation accepts exactly the well-formed CSV bodies whose rows all have the same number of fields, structure and dataset validation accept exactly documents meeting the documented requirements (a commit with a title of at most 100 characters; a structure, if any, with a known format and a schema), name validation accepts exactly names that start with a letter and hold up to 144 letters, digits and underscores, and value validation reports every entry that does not conform to its schema, and no other, under its position in the whole body or its key.",
  ["inputs"],"all documents and bodies within bounds",
  "Tests check a few valid and invalid documents.",
  ["validate/csv.go","validate/dataset.go","validate/data.go","validate/validate.go"],[("rule functions","validate")],["validate.Dataset","validate.Structure","validate.CheckCsvRowLengths"])
p("C29","Opening body and script files follows one source priority",
  "Opening the body file or the script or rendered file of a transform, visualisation or readme uses inline bytes or text when present, otherwise resolves the path exactly once, does nothing when there is neither, reports an error when a needed resolver is missing or fails, and yields a file whose content is exactly the inline bytes or the resolved content. A body that is already decoded is reported as such. Inlining a script puts exactly the content of that file in the component's text, and leaves the text alone when the file cannot be opened or read.",
  ["inputs","configurations"],"all combinations of inline bytes, paths, resolver presence and failure",
  "Tests cover single cases per component.",
  ["dataset.go","transform.go","viz.go","readme.go"],[("Open*File methods","dataset.go, transform.go, viz.go, readme.go")],["(*Dataset).OpenBodyFile"])
p("C30","Table columns are read faithfully from a schema",
  "Reading the columns of a schema that describes an array of arrays gives one column per item, in order, with the title (or a name made from its position), type or list of types (text when absent), description and remaining keywords that the item states; missing titles and types are reported as problems, and a schema that does not describe such a table is a recognisable error, never a panic. Column titles are machine-valid exactly when all are identifiers and no two are equal, and column types survive JSON.",
  ["inputs"],"all column schemas (every keyword absent, of a wrong kind or with any text, in any map order), all titles and type lists within bounds",
  "Tests read a few literal schemas.",
  ["tabular/tabular.go"],[("schema walk","tabular/tabular.go:arrayWrapperColumns"),("type encoding","tabular/tabular.go:ColType")],["tabular.ColumnsFromJSONSchema","Columns.ValidMachineTitles"])
p("C31","Diffs report a change exactly when the compared contents differ",
  "Diffing two structures, metas, transforms, visualisations, JSON objects or datasets reports a modification exactly when their stored contents differ (a transform's script path does not count when both have one, secrets never, and metas, transforms and visualisations with the same path are the same), with one change for one changed field; a dataset diff lists exactly the components present on either side, and the summary, and the list of changes as JSON, is empty exactly when nothing changed; the summary otherwise names the first changed component. No combination of missing components panics, and the inputs stay as they were.",
  ["inputs"],"all pairs of components that differ in any one field with any content within bounds, all combinations of present components",
  "Tests diff a handful of fixture pairs.",
  ["dsdiff/dsdiff.go"],[("component diffs","dsdiff/dsdiff.go:DiffStructure, DiffMeta, DiffTransform, DiffViz"),("summaries","dsdiff/dsdiff.go:SummarizeToString, MapDiffsToString")],["dsdiff.DiffDatasets","SubDiff.SummarizeToString"])
p("C32","Opening, buffering and counting wrappers are transparent",
  "Readers and writers open exactly for the supported formats (JSON and CBOR with an array or object schema, NDJSON readers with an array schema) and keep the structure they were given; an entry buffer holds after closing exactly the bytes the format's writer produces and gives back the written entries; a tracked reader passes on the source's bytes and errors unchanged and its count always equals the number of bytes read.",
  ["inputs","schedules"],"all format names and schema kinds within bounds, all entry contents, all source splits and read sizes",
  "Tests use one buffer of one format and never count bytes over split reads.",
  ["dsio/dsio.go","dsio/entry_buffer.go","dsio/tracked_reader.go"],[("format dispatch","dsio/dsio.go:NewEntryReader, NewEntryWriter"),("entry buffer","dsio/entry_buffer.go"),("byte count","dsio/tracked_reader.go")],["dsio.NewEntryReader","dsio.NewEntryWriter","dsio.NewEntryBuffer","dsio.NewTrackedReader"])
p("C21","XLSX bodies round trip through typed columns",
  "Every sequence of non-empty rows of text, integers, booleans, numbers, objects and lists written as an XLSX body to any sheet, and read back with the same columns, gives the same rows in order, numbered, in the same cells (also beyond column Z, and for rows shorter than the table); a missing value is read as empty text, a cell that does not denote a value of its column's type as its text. What is no row, an unsupported value, compression, a schema that is no table, a missing sheet, a file that is no workbook, and failing sources and sinks are errors, and a rejected row leaves no trace. (The spreadsheet library excelize itself is assumed to keep the text of cells.)",
  ["inputs","fault_sequences"],"all rows of every pair of column types and all cell texts within bounds, with excelize replaced by a stand-in while exploring and the real one in replays",
  "Tests read one fixture and write one small file.",
  ["dsio/xlsx.go"],[("cell encoding and decoding","dsio/xlsx.go:encodeStrings, XLSXReader.decode"),("cell addresses","dsio/xlsx.go:XLSXWriter.axis")],["dsio.NewXLSXReader","dsio.NewXLSXWriter"])
p("C25","Compressed bodies hold exactly the plain body",
  "For every streaming format and every accepted compression name, what a body writer has produced when closed decompresses to exactly the plain body, reads back as the same entries however the source splits its reads, and is detected as having the plain body's structure plus the compression, leaving the file whole; converting between compressed and plain bodies keeps the entries. Success implies that the sink took everything, a truncated or foreign compressed stream is an error, and unknown names are rejected everywhere. (The codecs themselves are assumed correct.)",
  ["inputs","fault_sequences","schedules"],"all entries, formats, names, fault positions and splits within bounds, with the codecs replaced by stand-ins while exploring and the real ones in replays",
  "Tests compress a fixture per format.",
  ["compression/compression.go","dsio/csv.go","dsio/json.go","dsio/cbor.go","dsio/ndjson.go","detect/detect.go"],[("compressing writers","dsio"),("codec dispatch","compression/compression.go:Compressor, Decompressor")],["compression.Compressor","compression.Decompressor","dsio.NewEntryWriter","detect.Structure"])
p("C28","Generated values and tables conform to their schema",
  "A generated value is of the type asked for and texts are shorter than the maximum length, whatever the source of randomness, and values of a type vary; a table generator gives for every tabular schema rows with one value of the column's first type (text if the column states none) per column, numbered, and is an error for a schema that is no table.",
  ["inputs"],"all type names and all sequences of random numbers within bounds, all column schemas",
  "Tests draw a few rows from fixed seeds.",
  ["generate/tabular.go","generate/value.go"],[("value generation","generate")],["generate.NewTabularGenerator","(*ValueGenerator).Type"])
p("C19","Rendering fills the page template with the dataset and leaves it reusable",
  "Rendering the visualisation of a dataset gives the page its template describes: exactly the body entries asked for (all, or an offset and limit) of every streaming format, plain or compressed, escaped as HTML; the title, or peername/name; byte sizes in their largest unit; value types as isType names them. Rendering again gives the same page. Whatever part of the body the template asked for, and also when rendering fails, the template and the body stay readable in full. Without a viz, script, body, structure, or with a malformed one of them, rendering is an error and never a panic.",
  ["inputs","fault_sequences","schedules"],"all entry texts, names, titles, values and failure points within bounds, a set of templates over the documented helpers; html/template is replaced by a model while exploring and is the real one in replays",
  "Tests render three fixed templates.",
  ["dsviz/render.go"],[("file restoring","dsviz/render.go:renderHTML, bodyEntries"),("helpers","dsviz/render.go:isType, printByteInfo")],["dsviz.Render"])
p("C26","Content hashes identify content",
  "The hash of a byte string is the base 58 form of the SHA-256 multihash of exactly its bytes, so that equal contents, and (SHA-256 being assumed free of collisions) only they, have equal hashes; the hash of a component is that of its JSON encoding, independent of map order, and two structures have equal hashes exactly when they are equal in every field. A content that cannot be encoded is an error, without hash.",
  ["inputs","schedules"],"all byte strings, texts, numbers and map orders within bounds, with SHA-256 replaced by an ideal hash while exploring and the real one in replays",
  "Tests hash one fixed value.",
  ["hash.go","structure.go"],[("multihash encoding","hash.go:HashBytes"),("hash of an encoding","hash.go:JSONHash, structure.go:Hash")],["dataset.HashBytes","dataset.JSONHash","(*Structure).Hash"])
p("C33","Dataset comparison helpers report exactly the differences that count",
  "CompareDatasets, CompareCommits, CompareMetas and CompareStructures report no difference exactly when the two sides are equal in every exported field; with OptDropTransientValues exactly when they are equal once the transient values of both sides are dropped. A component only one side has is a difference, the order of the two sides does not matter, and neither side is changed. (Open files and additional metadata are not compared.)",
  ["inputs"],"all values of every field of datasets, commits, metas and structures within bounds, one differing at a time, with and without transient values; go-cmp is modelled while exploring and is the real one in replays",
  "No test compares two datasets that differ.",
  ["dstest/compare.go"],[("comparison","dstest/compare.go"),("transient values","dataset.go:DropTransientValues and its namesakes")],["dstest.CompareDatasets","dstest.CompareCommits","dstest.CompareMetas","dstest.CompareStructures"])
p("C34","Setting a metadata field by key is type-safe and touches nothing else",
  "Setting a key that names a standard metadata field (in any letter case, with surrounding space) to a value of the JSON type of that field sets exactly this field, as decoding a JSON object with just this field does (null clears texts and lists); a value of another type, also deep inside a list or object, is an error and leaves the metadata as it was. Any other key keeps any value as additional metadata under exactly that key, without touching fields or other keys. Additional metadata handed out, or assigned from other metadata, is a copy: setting keys of one never changes another.",
  ["inputs","histories"],"all field names, texts, list and object shapes within bounds, all histories of sets and assigns over three metas within bounds",
  "Tests set single fields of empty metadata.",
  ["meta.go"],[("setting by key","meta.go:Set, SetArbitrary"),("decoding people and licenses","meta.go:User.Decode, License.Decode, Citation.Decode"),("additional metadata","meta.go:Meta, Assign")],["(*Meta).Set","(*Meta).SetArbitrary","(*Meta).Meta","(*Meta).Assign"])
p("C35","Schemas inferred from rows in memory describe these rows",
  "For every non-empty list of rows held in memory, the inferred schema describes a table, accepted without problems, with one column per cell of the first row, in order, titled by its position (valid, distinct titles) and of a type that cell conforms to, whatever the later rows hold; reading the rows with this schema gives the rows. Anything else is an error recognisable as ErrInvalidTabularData, without schema and never a panic.",
  ["inputs"],"all rows of cells of every Go type that bodies hold within bounds",
  "Tests infer the schema of one list of rows.",
  ["detect/detect.go","tabular/tabular.go","dsio/identity.go"],[("inference","detect/detect.go:TabularSchemaFromTabularData, goDataType"),("columns","tabular/tabular.go:ColumnsFromJSONSchema")],["detect.TabularSchemaFromTabularData"])
p("C36","Typed values answer exactly the questions their type can",
  "Every value, plain or bound to a key, names its type, gives its content exactly, and refuses every question its type does not answer by a panic with a ValueError naming method and type; an object lists every key once. Two values are equal exactly when type and content are, and encoding a value as JSON and decoding it gives an equal value.",
  ["inputs"],"all scalar values, texts, arrays and objects within bounds",
  "Tests ask a few fixed values.",
  ["vals/value.go","vals/object_value.go","vals/compare.go","vals/coding.go"],[("accessors","vals/value.go"),("equality","vals/compare.go:Equal")],["vals.Value","vals.Equal","vals.UnmarshalJSON","vals.NewObjectValue"])
if __name__=="__main__":
    for x in sorted(P, key=lambda d: d["id"]): print(json.dumps(x))
