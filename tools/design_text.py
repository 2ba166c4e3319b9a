HEAD='''# Deciding properties of qri-io/dataset by solver-based checking

(Generated by `tools/design.py` from `tools/design_text.py`, the harness comments and the planted bugs.)

## Method

`./check.sh ID quick|thorough` builds a symbolic executor (`engine/`, Go, about 10k lines, uses `go/ssa` of x/tools and the z3
binary) and decides one property:

1. **Encoding.** `/repo`'s working tree, its dependencies, the standard library and the property's harness package
   (`harness/h/<id>`, which uses only the exported API of `/repo`) are type-checked and translated to SSA *in this run*. Nothing
   about `/repo` is cached between runs, and nothing refers to names, lines or shapes of unexported code, so refactorings leave
   the checks quiet.
2. **Symbolic execution.** A harness is a Go function whose inputs are symbolic (`v.Byte`, `v.Int64`, `v.Float64`, `v.Bool`,
   `v.Bytes(n)`, ...), finite choices (`v.Pick`, `v.Case`: lengths, read splits, fault positions), hidden choices (goroutine
   schedules with a bound on preemptions, map iteration order) and assertions. Bytes, integers and floats are bit vector and
   floating point terms; memory is a persistent object heap; slices, maps, interfaces, closures, defer/recover, panics,
   channels, select, goroutines and reflection are interpreted. A branch on a symbolic condition is decided by z3 (after cheap
   interval/bit domain reasoning, which is itself audited against z3 on a sample); if both sides are feasible the path forks,
   or the two sides are merged into if-then-else terms.
3. **Deciding.** At each assertion the query `path condition AND NOT assertion` goes to z3; `unsat` on all paths is the
   verdict "holds for every value within the bounds". An uncaught panic, a deadlock, or a path that exceeds its step
   budget (hang) is an assertion failure too. Assertions that simplify to a constant are counted separately in the evidence.
4. **Counterexamples.** A `sat` answer gives concrete inputs, which are run natively: a replay program is built from the same
   harness and the real `/repo` code. Only a counterexample that fails natively is printed as `VIOLATION property=.. replay=..`;
   for schedule or map order dependent ones the replay is repeated, and if that does not show it, repeated with random pauses
   inserted (by a build overlay) before every statement of the repository's concurrent files. `./replay.sh ID FILE` repeats a
   recorded counterexample. Candidates that do not reproduce are listed in the evidence (`unreproduced`), never reported.
5. **Guards against vacuity and model errors.** Each harness marks what must be reachable (`v.Reach`); the labels reached and
   their counts are in the evidence and a harness none of whose paths completes is reported there. A sample of passing paths is
   run natively and must pass and reach the same labels (`validated`/`mismatched`). `harness/model/diff_test.go` tests the
   library models against the real libraries (run by `setup.sh`-independent `go test ./model`).

**What is modelled, not executed.** encoding/json (Marshal, Unmarshal, Encoder, Decoder, Indent, Compact, Valid), fmt,
sort, sync.Pool/Once, errors.Is, io.CopyN, the ugorji CBOR *encoder*, hyperloglog and sip13 hashing are Go models in `harness/model`, executed symbolically like
other code and differential-tested. go-log, zap, log, opentracing and protobuf are no-ops. sync, atomic, math, bytealg, utf8,
reflect and time.Now are engine intrinsics; the local time zone is UTC. encoding/csv, bufio, bytes, strings, strconv, regexp,
unicode, time, compare, jsonschema, histosketch (tdigest/topk), copier and so on are executed from their source.

**What the engine cannot do** becomes an *inconclusive* path: it is counted with its reason in the evidence file and taken out of the
claim (a reduced bound), and never raises an alarm. That holds for unmodelled system calls, package variables whose initialiser was skipped
(these are poisoned, not zero), step or time limits, and symbolic allocation sizes above 512 (one representative).
When a change moves code out of the fragment, whole harnesses would go silent; so up to 400 such paths per reason leave solver models of the
condition they reached (the model at hand, one with all values distinct, one differing in every value) and the compiled code is run from these inputs to
the end. An assertion or panic there that repeats in a fresh process is a counterexample like any other. This only adds
counterexamples: such paths stay inconclusive and are never counted towards a property that holds.
On the current tree the quick checks have 4 (C01), 4 (C07) and 43 (C17) inconclusive paths out of 10^5 each: number texts whose decimal
conversion needs arbitrary precision arithmetic on symbolic digits.

**Bounds.** Each harness states its own (below, copied to the evidence): lengths of symbolic byte strings, numbers of entries, steps of a
history, preemptions. Beyond them nothing is claimed. Quick checks take 3 to 60 s each on 8 cores (about 8 minutes for all); thorough ones up to 14 minutes each.

**Exit codes.** 0: no violation within the bounds; 1: VIOLATION line(s); 2: `/repo` does not build.

## Properties
'''
PER={
'C01':'''The oracle is the encoding/json model (an independent decoder) on the same bytes: element count, order, keys and values must agree; a reference recogniser in the harness decides well-formedness. Reader buffers of 16 bytes (the smallest bufio admits) put every token across a refill, which fixtures read at once with the default buffer never do. JSON numbers are compared bit for bit.''',
'C02':'''No oracle: absence of panics, termination within the step budget and entry count at most byte count, over all byte strings. Hangs are step budget violations confirmed natively by a time-out.''',
'C03':'''The oracle parses the output with the JSON model and compares it with the list of accepted entries; it is also read back with the repository's own reader. Histories mix accepted and rejected writes.''',
'C04':'''The harness contains a reference CBOR decoder written from RFC 7049 (including half floats), executed symbolically on the same bytes; all integer and float payload bits are symbolic.''',
'C05':'''Round trip; the writer uses the ugorji encoder (modelled). Earlier values are compared again after all later reads to detect aliasing with the stream buffer.''',
'C06':'''Round trip against the written values; separators are symbolic characters; cells are arbitrary bytes without carriage returns (which encoding/csv normalises).''',
'C07':'''Oracle: split at newlines and decode each line with the JSON model.''',
'C08':'''Oracle: the insertion function on the whole source, in the harness. Read sizes, source splits and contents vary independently; empty reads and end-of-file together with data are included.''',
'C09':'''Sources and destinations are harness-made readers and writers that fail at any position with an ordinary error, io.ErrUnexpectedEOF, or not at all; the delivered window is compared with the reference slice.''',
'C10':'''The sink fails a symbolic write call; an error must have been reported by then or by Close, and no error may be invented.''',
'C11':'''The goroutine schedule is explored exhaustively up to the preemption bound (every visible memory access, channel operation and map order is a choice point; objects shared between goroutines are discovered and added as choice points). Deadlock is a violation.''',
'C12':'''Every field of target and sources is a symbolic set-or-not choice (state merging keeps this to few paths); the reference is the last-set-wins rule per field. Sources are compared with copies afterwards, including values reachable through pointers and maps.''',
'C13':'''Encode with MarshalJSON (its encoding/json calls modelled), decode, compare field by field; text fields are arbitrary bytes of valid UTF-8.''',
'C14':'''Reference: emptiness as the conjunction over all content fields, dropping as the exact set of cleared fields.''',
'C15':'''Injectivity of the signing bytes: two symbolic datasets with equal signing bytes must have equal identity, paths and times; the path map is compared with the list of present components.''',
'C16':'''Printing and parsing are composed over all numbers and all short names.''',
'C17':'''References: strconv and the JSON model; order axioms are asserted over all pairs and triples of short texts.''',
'C18':'''Reference statistics are recomputed in the harness from the same symbolic entries (min/max by comparison terms, counts exactly, mean against the sum).''',
'C20':'''Detection runs on a file that splits its reads arbitrarily; the result for the unsplit file is the reference, plus the documented rules for header and type; afterwards the file is read to the end and compared with the body.''',
'C21':'''The excelize module is replaced by a stand-in (`stub/root.go.txt`) while paths are explored; counterexamples and sampled passing paths run with the real library. Oracle: the written rows, and strconv and the JSON model for the values texts denote.''',
'C25':'''The modules of the codecs are replaced by stand-ins (`stub/`) with the same calls, buffering and errors and a trivial encoding; counterexamples and sampled passing paths run with the real codecs. Oracle: the plain writer's bytes and the written entries.''',
'C28':'''The source of randomness is symbolic (a rand.Source whose numbers are solver variables); conformance is checked by type switches in the harness.''',
'C19':'''html/template is replaced by a model of the subset of its language that the harness templates use (harness/model/template.go; sampled passing paths and all counterexamples run with the real one). Oracle: the entries the body was written from, an HTML escaping and unit arithmetic in the harness; files are read again after each rendering.''',
'C26':'''SHA-256 is an ideal hash in the model (a table that gives every new content another digest, harness/model/hash.go); the multihash and base 58 encodings are executed from source and compared with a reference in the harness.''',
'C22':'''Reference: the bijective base 26 numeral, over a symbolic index; uniqueness over symbolic pairs.''',
'C23':'''Round trip of step scripts; the failing sink as in C10.''',
'C24':'''Bodies with lengths around the limits; the preview's rows are compared with the leading rows and the files are read again afterwards.''',
'C27':'''Reference validators in the harness (row lengths via encoding/csv, name grammar, required fields, per-entry schema conformance).''',
'C30':'''Reference columns are built along with the schema in the harness; map iteration order is a hidden choice.''',
'C31':'''Each pair of components differs in one field with symbolic contents; the expected verdict is inequality of that field. gojsondiff and diffmatchpatch are executed from source.''',
'C32':'''Reference: the plain writer's bytes, the written entries, and a running count in the harness.''',
'C33':'''One field of one side differs by a symbolic text or number; go-cmp's Diff and Equal are replaced by a structural comparison (harness/model/cmp.go) with the same options, replays run go-cmp.''',
'C34':'''A reference sets the same field of the same prior metadata (full or empty) directly and compares all fields; a model of three maps follows histories of sets and assigns.''',
'C35':'''The columns read from the schema by the real tabular package are compared with the cells drawn; reading goes through the in-memory entry reader.''',
'C36':'''Values are drawn together with a description of what they are made of, which is the oracle; refusals are recovered panics.''',
'C29':'''A recording resolver; the order inline, path, nothing; contents are symbolic.''',
}
AFTER='''## Defects found

All defects the checks found on the original tree were repaired by `fix:` commits in `/repo`, listed with what failed in
`known-findings.txt` (`fixed:` lines; nothing is suppressed, each check reports the defect again if it returns).

Seen while reading, outside the claimed properties, and neither repaired nor suppressed: ColIndexToLetters is wrong from index 17576 on (beyond the spreadsheet limit);
the histogram median is approximate (pinned by tests); commit title length counts bytes; array-level JSON schema keywords are
evaluated per batch of 5000 entries in validation; the stable tests pin the null placeholder of the JSON reader for a missing value
and the acceptance of trailing bytes in CBOR.

## Parts without a claim

The file formats inside third-party libraries (zip and XML in excelize, gzip and zstd streams: replaced by stand-ins in C21 and C25),
html/template beyond the modelled subset (C19: contextual escaping in attributes and scripts, blocks, PredefinedHTMLTemplates), SHA-256 itself (ideal in C26), key signing (libp2p crypto), and the command line helpers. Of dstest only the comparison helpers (C33) are explored; test cases and loaders serve tests.

## False alarms met while building, and what was done

Statements were corrected where the code was right and the first version of a property was too strong (C06 carriage returns inside
cells, C07 blank lines, C13 keys that differ from a field name only in case, C17 integers beyond 64 bits, C18 NaN and tracked-texts limit,
C22 the spreadsheet limit, C20 uncompressed content under a compressed name, which detection has to refuse since it decompresses), and engine or model errors found by native replay or path validation were fixed. Nothing of that kind is
listed as a finding.
'''
