#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so ids and anchors stay consistent)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = [observe]
    if state: a["state"] = [{"name": state.split(":")[0], "meaning": state, "where": files[0]}]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

RT = ["crates/mabo/src/buf/encode.rs", "crates/mabo/src/buf/decode.rs", "crates/mabo/src/buf/size.rs", "crates/mabo/src/varint.rs", "crates/mabo/src/lib.rs"]
GEN = ["crates/mabo-build/src/encode.rs", "crates/mabo-build/src/decode.rs", "crates/mabo-build/src/size.rs", "crates/mabo-build/src/definition.rs", "crates/mabo-compiler/src/simplify.rs", "crates/mabo-compiler/src/lib.rs"]
LSP = ["crates/mabo-lsp/src/main.rs", "crates/mabo-lsp/src/client.rs", "crates/mabo-lsp/src/state.rs", "crates/mabo-lsp/src/handlers/mod.rs"]

p("W01", "Values survive encode, transport and decode unchanged",
  "For every type the Rust generator produces (structs, enums, generics, nested containers, non_zero, bytes in either representation) and every value of it, decoding what the generated encoder wrote yields an equal value and consumes exactly the bytes written. This holds when messages of several types are written back to back into one stream or log, through any writer or reader buffer, and delivered late, twice or out of order as whole records.",
  ["inputs", "schedules", "fault_sequences"], "all generated types x all values x all message sequences, chunkings of the sink and source, duplications and reorderings of records",
  "The repository round-trips a dozen hand-picked values through one contiguous Vec; the guarantee ranges over every type composition, extreme value and stream position.",
  RT + GEN, [("Encode/Decode trait impls", "crates/mabo/src/buf"), ("generated encode/decode bodies", "crates/mabo-build/src/{encode,decode}.rs")], "decoded value and remaining bytes in the reader buffer")
p("W02", "Announced size always equals the bytes actually written",
  "For every generated value, Size::size equals the number of bytes Encode::encode writes, and every length prefix inside the output (string, bytes, vec, hash_map, hash_set, array, tuple) equals the byte length of exactly the content it covers. A caller that allocates size() bytes therefore never overruns a bounded buffer nor leaves slack in a framed stream.",
  ["inputs", "fault_sequences"], "all generated types x all values, including sinks of exactly size() bytes of capacity",
  "Existing tests never compare size() with the written length and only use tiny containers whose prefix takes one byte.",
  RT + GEN[:1] + GEN[2:3], [("size_* helpers", "crates/mabo/src/buf/size.rs"), ("length prefixes in encode_*", "crates/mabo/src/buf/encode.rs"), ("generated size bodies", "crates/mabo-build/src/size.rs")], "size() against the sink's byte count, framed records")
p("W03", "Fragmentation of the input never changes a decode result",
  "Decoding the same byte sequence through any Buf implementation gives the same outcome - the same value and the same number of consumed bytes, or failure in both cases - no matter how the bytes are split into chunks, including one byte at a time and splits inside varints, length prefixes and fixed-width numbers. This holds for intact and for damaged input.",
  ["inputs", "schedules"], "all byte sequences x all splits into chunks delivered by the transport",
  "Every existing test decodes from a single contiguous slice, where chunk() is the whole input.",
  RT[1:2] + RT[3:4], [("decode_int!/varint over Buf::chunk", "crates/mabo/src/buf/decode.rs")], "decode outcome and consumed bytes per chunking")
p("W04", "Decoders are total on truncated, torn or corrupted input",
  "Decoding any byte string with any generated decoder returns Ok or Err: it never panics, never overflows, never reads past the buffer, and does work and allocation bounded by the input length plus a constant, even when lengths, counts or ids in the input are hostile. A struct or enum-with-fields record cut anywhere before its end is always reported as an error, never returned as a value.",
  ["inputs", "fault_sequences", "crash_points"], "all byte strings; in particular every truncation point (crash mid-write), bit flips, torn records and spliced records of valid messages",
  "The tests contain no malformed input except empty non_zero values.",
  RT[1:2] + RT[3:4] + GEN[1:2], [("ensure_size!, Take limits, decode_skip", "crates/mabo/src/buf/decode.rs"), ("varint decode bound", "crates/mabo/src/varint.rs")], "outcome, panics and work counter of each decode")
p("W05", "Different versions of a schema interoperate while they roll out",
  "When nodes using older and newer versions of a schema exchange or persist records, every field both versions know keeps its value, fields a reader does not know are skipped without disturbing what follows, optional fields the writer did not know read as None, and records relayed or re-read stay aligned in their stream. The compatible changes are: adding or removing optional fields, reordering or renaming fields with stable ids, making a required field optional, adding enum variants and variant fields, shrinking arrays, and widening integers of the same signedness.",
  ["histories", "schedules", "inputs"], "all compatible version pairs x all values x all mixed-version delivery and upgrade/downgrade orders",
  "One unit test decodes one added string field; the promise covers every field encoding, nesting level, position and version pair.",
  RT[:2] + RT[4:5] + GEN, [("FieldId/FieldEncoding and decode_skip", "crates/mabo/src/lib.rs, crates/mabo/src/buf/decode.rs"), ("field dispatch loop", "crates/mabo-build/src/decode.rs"), ("id derivation", "crates/mabo-compiler/src/lib.rs")], "values seen by readers of another version")
p("W06", "Missing required fields and unknown variants are always reported",
  "A reader never invents data: if a record lacks a field that is required in the reader's schema, decoding fails with MissingField carrying that field's id (and its name when it is a named field), and an enum variant id the reader does not know fails with UnknownVariant carrying that id. An optional field that is absent decodes to None, and one that is present is never dropped.",
  ["histories", "inputs", "fault_sequences"], "all records written by a version that lacks the field or has extra variants, or whose field was lost, x all positions and nesting levels",
  "No test decodes a record with a missing field or an unknown variant.",
  RT[1:2] + GEN[1:2], [("MissingField/UnknownVariant in generated decode", "crates/mabo-build/src/decode.rs")], "error value returned to the reader")
p("W07", "Bytes on the wire are exactly those of the format, in both directions",
  "Every generated encoder writes exactly the bytes the wire format assigns to the value (LEB128 varints with zigzag for signed, big-endian floats, id<<3|encoding field headers in declaration order, absent optionals omitted, end markers, byte-length prefixes), with explicit and derived ids as the schema states. Every decoder assigns exactly that meaning to the bytes it accepts - fields in any order, last duplicate wins - so records persisted by one build stay readable by any other.",
  ["inputs", "histories"], "all generated types x all values x all field permutations and duplications of a record",
  "Round-trip tests cannot see a change applied symmetrically to encoder and decoder, and no golden bytes are checked.",
  RT + GEN, [("varint and zigzag", "crates/mabo/src/varint.rs"), ("field headers", "crates/mabo/src/lib.rs"), ("generated code", "crates/mabo-build/src")], "raw bytes against an independent reference codec")
p("W08", "non_zero values are never zero or empty after decoding",
  "Whatever bytes arrive, a decoded non_zero integer is not zero and a decoded non_zero string, bytes, vec, hash_map or hash_set is not empty: such input fails with an error instead. NonZero constructors reject exactly the empty values, and valid non-zero values are always accepted.",
  ["inputs", "fault_sequences"], "all intact and damaged records of types containing non_zero at any nesting level",
  "Tests check one empty and one non-empty sample per kind on a top-level buffer.",
  RT[1:2] + RT[4:5], [("decode_non_zero_*, NonZero::new", "crates/mabo/src/buf/decode.rs, crates/mabo/src/lib.rs")], "decoded values")

p("L01", "Server answers depend only on the current text, not on its history",
  "After any sequence of didOpen, full, incremental and multi-change didChange, and didClose, the server's document equals the client's text: diagnostics, document symbols, semantic tokens and hover are the same as for a document opened directly with that text. Changes inside one notification apply in order, each to the result of the previous one.",
  ["histories", "inputs", "schedules"], "all edit histories x texts x interleavings with other documents and requests",
  "The language server has no tests; correctness depends on the order and shape of edit notifications.",
  LSP + ["crates/mabo-lsp/src/handlers/index.rs", "crates/mabo-lsp/src/handlers/compile.rs", "crates/mabo-lsp/src/handlers/document_symbols.rs", "crates/mabo-lsp/src/handlers/semantic_tokens.rs", "crates/mabo-lsp/src/handlers/hover.rs"],
  [("did_change range application", "crates/mabo-lsp/src/handlers/mod.rs"), ("GlobalState.files", "crates/mabo-lsp/src/state.rs")], "responses and published diagnostics", "GlobalState.files: text, line index, parsed schema per URI")
p("L02", "Every request gets exactly one response with its own id",
  "For every request the client sends before shutting the server down - supported, unsupported, malformed, or concerning an unknown document - the server sends exactly one response carrying that request's id, and it sends no response to notifications and no response id it was not asked for. Requests are answered with an error, not silence, when they cannot be served.",
  ["histories", "schedules", "fault_sequences"], "all request and notification sequences x arrival times, including requests arriving while the server itself waits for the client",
  "No test runs the server loop.",
  LSP, [("handle_request dispatch", "crates/mabo-lsp/src/main.rs"), ("Client::send_request/reply", "crates/mabo-lsp/src/client.rs")], "ids on the server's output channel")
p("L03", "Published diagnostics are always those of the latest document version",
  "Once the server is idle, the last diagnostics published for each open document are those of its latest text: an error introduced is shown, an error fixed is cleared, and publishing for one document never replaces another's. Syntax errors take precedence over validation errors, and a valid document ends with an empty list.",
  ["histories", "schedules"], "all edit histories across several documents x message arrival schedules",
  "Freshness is a property of the whole notification history, which nothing tests.",
  LSP + ["crates/mabo-lsp/src/handlers/compile.rs"], [("publish_diagnostics after open/change", "crates/mabo-lsp/src/handlers/mod.rs"), ("diagnostics conversion", "crates/mabo-lsp/src/handlers/compile.rs")], "last publishDiagnostics per URI")
p("L04", "No client message is lost while the server waits for the client",
  "While the server waits for the client's reply to its own request (workspace/configuration, client/registerCapability), any other message that arrives meanwhile is still processed afterwards, in arrival order, exactly once: edits are in the documents, changed settings are asked for and in force, documents of deleted files are gone. A missing, late, duplicate or error reply delays but never discards the client's own notifications and requests.",
  ["schedules", "fault_sequences", "histories"], "all interleavings of client messages with the server's outstanding requests, reply delays, losses and error replies",
  "Requires a particular arrival order during a blocking wait; no test drives the client channel.",
  LSP[:2] + LSP[3:], [("Client::send_request receive loop", "crates/mabo-lsp/src/client.rs"), ("main_loop", "crates/mabo-lsp/src/main.rs")], "effects and responses of the interleaved messages")
p("L05", "Server stays responsive and shuts down in bounded time",
  "A client that never answers, answers late, stalls reading for a while or disconnects at any moment cannot hang the server: each wait on the client is bounded by the documented two-second timeouts, the next request is still answered, and shutdown followed by exit (or a closed connection) ends the process. After shutdown no further work is done on documents.",
  ["schedules", "crash_points", "fault_sequences"], "all points at which the client stops answering, stalls or disconnects x all message sequences",
  "Needs a client that misbehaves at chosen instants under a controlled clock.",
  LSP[:2], [("recv/send timeouts", "crates/mabo-lsp/src/client.rs"), ("handle_shutdown", "crates/mabo-lsp/src/main.rs")], "simulated time until reply or exit")
p("L06", "Positions mean the same on both sides for every encoding and text",
  "For each negotiable position encoding (UTF-8, UTF-16, UTF-32) and any document, including non-BMP characters, CRLF line ends, and lines of mixed width, every position or range the server sends designates in the client's text exactly the item it describes (identifier of a symbol, lexeme of a token), and every position the client sends is applied at that place. The encoding in use is the one announced in the initialize result.",
  ["configurations", "inputs", "histories"], "all negotiated encodings x texts x edit positions",
  "Depends on non-ASCII text under each negotiated encoding; no test negotiates or edits.",
  LSP + ["crates/mabo-lsp/src/handlers/index.rs", "crates/mabo-lsp/src/handlers/hover.rs", "crates/mabo-lsp/src/handlers/document_symbols.rs", "crates/mabo-lsp/src/handlers/semantic_tokens.rs"], [("Index::get_range/get_position", "crates/mabo-lsp/src/handlers/index.rs"), ("encoding negotiation", "crates/mabo-lsp/src/handlers/mod.rs")], "ranges in responses sliced out of the client's text")
p("L07", "Server survives any document content and any malformed message",
  "No document text (including incomplete edits, extreme ids, deep nesting and invalid schemas), out-of-range position, unknown URI, unknown method or malformed parameters makes the server panic or stop serving: later requests on healthy documents are still answered correctly.",
  ["inputs", "histories", "fault_sequences"], "all texts and edit prefixes x malformed or hostile messages at any point of a session",
  "The server has no tests; crashes need unusual texts or messages mid-session.",
  LSP + ["crates/mabo-lsp/src/handlers/index.rs", "crates/mabo-compiler/src/lib.rs", "crates/mabo-meta/src/lib.rs"], [("cast_req/cast_notify", "crates/mabo-lsp/src/main.rs"), ("IdGenerator", "crates/mabo-compiler/src/lib.rs")], "process state and later responses")
p("L08", "Hover and configuration follow the client's current settings",
  "Hover shows the next free id and wire size of the definition under the cursor exactly when the corresponding setting is on in the configuration the client last delivered; a configuration reply that is missing, late, null or invalid leaves the previous (or default) settings in force. Settings changes notified by the client take effect for later requests.",
  ["histories", "configurations", "fault_sequences"], "all configuration histories x reply faults x hover positions",
  "Configuration arrives through a server-initiated request whose reply can fail; nothing tests it.",
  LSP + ["crates/mabo-lsp/src/config.rs", "crates/mabo-lsp/src/handlers/hover.rs"], [("configuration request", "crates/mabo-lsp/src/client.rs"), ("Global config", "crates/mabo-lsp/src/config.rs")], "hover contents before and after a change")

FS = ["crates/mabo-cli/src/main.rs", "crates/mabo-project/src/lib.rs"]
p("F01", "Formatting never damages a schema file, whatever fails",
  "If `mabo fmt` is killed, runs out of space or hits an I/O error at any point, every schema file afterwards holds either its complete old content or its complete formatted content, and a file that was not selected or could not be parsed is untouched. An error while writing is reported with a failing exit status, and re-running after the fault completes the job.",
  ["crash_points", "fault_sequences", "inputs"], "all projects x all crash instants and I/O faults (full disk, short write, I/O error, lost unsynced data) during a fmt run",
  "No test runs the CLI, and none injects a fault into a write.",
  FS, [("fmt command write-back", "crates/mabo-cli/src/main.rs")], "file contents and exit status after each faulted run")
p("F02", "Formatting preserves meaning and is idempotent",
  "For every schema the parser accepts, the formatted text parses to the same definitions - names, types, ids, attributes, constants, comments on definitions, fields and variants - and formatting it again, in any later run, changes nothing.",
  ["inputs", "histories"], "all accepted schemas x repeated and interrupted-then-repeated formatting runs",
  "Snapshot tests pin the output for fixed samples but never re-parse it.",
  ["crates/mabo-cli/src/main.rs", "crates/mabo-parser/src/lib.rs", "crates/mabo-parser/src/ext.rs"], [("Print/Display of the AST", "crates/mabo-parser/src"), ("fmt", "crates/mabo-cli/src/main.rs")], "formatted file re-read by an independent reader")
p("F03", "Generators never report success with missing or partial output",
  "Whenever the Rust build compiler, `mabo-go` or `mabo doc` exits successfully, every expected output file of every schema exists with its complete, correct content (schemas whose outputs would take each other's place are refused), even if reads, writes or directory operations failed, were short or were interrupted during the run. Re-running after any fault or crash, over whatever partial output was left, produces exactly the output of a run that was never disturbed.",
  ["fault_sequences", "crash_points", "histories"], "all I/O fault points and crash instants during a run x leftovers of earlier runs",
  "No test injects faults or re-runs over partial output.",
  ["crates/mabo-build/src/lib.rs", "crates/mabo-go/src/main.rs", "crates/mabo-doc/src/lib.rs"] + FS, [("write loops", "crates/mabo-build/src/lib.rs, crates/mabo-go/src/main.rs, crates/mabo-cli/src/main.rs")], "exit status and output tree")
p("F04", "Generation is deterministic and never touches its inputs",
  "Outputs are a function of the schemas and options alone: not of directory enumeration order, hash seeds, earlier outputs, time or environment. Inputs are never modified, and if any schema of a project is unreadable, unparsable or invalid, the run fails and no new or changed output is produced by the Rust and Go generators.",
  ["schedules", "inputs", "configurations", "fault_sequences"], "all projects x directory orders, hash seeds, clocks and leftovers; projects with a bad schema at any position",
  "Tests compile single in-memory schemas; multi-file order, hashing and failure atomicity are not exercised.",
  ["crates/mabo-build/src/lib.rs", "crates/mabo-go/src/main.rs", "crates/mabo-doc/src/lib.rs", "crates/mabo-compiler/src/resolve/mod.rs"] + FS, [("validate-all-then-write", "crates/mabo-build/src/lib.rs"), ("project walk", "crates/mabo-project/src/lib.rs")], "output trees across runs")
p("F05", "Project discovery finds exactly the configured schemas or fails",
  "For every project layout, a command works on exactly the .mabo files selected by Mabo.toml, independent of directory order; a missing, unreadable or invalid project file, or an I/O error while reading any schema, is reported with a failing exit status and is never treated as an empty or smaller project. Searching a directory for projects, as for a workspace folder, finds every project at any depth below it, each with exactly its files, and fails if one of the project files is unreadable or invalid.",
  ["inputs", "fault_sequences", "schedules"], "all project layouts and settings x directory orders x I/O faults during discovery and reading",
  "Discovery is only exercised on the repository's own playground, without faults.",
  ["crates/mabo-project/src/lib.rs", "crates/mabo-cli/src/main.rs", "crates/mabo-go/src/main.rs"], [("mabo_project::load walk", "crates/mabo-project/src/lib.rs"), ("mabo_project::discover", "crates/mabo-project/src/lib.rs")], "set of files read and exit status")

p("F06", "mabo check succeeds exactly for readable, valid schemas",
  "`mabo check` exits successfully if and only if every schema it was pointed to (by Mabo.toml or by name) was read completely and is valid: UTF-8, parsable, without duplicate ids, names or generics, unused generics or wrong tuple sizes, and with every type reference and import - also in nested modules, generic arguments and alias targets - resolving to a declaration of the right kind and number of generics. This holds for schemas at any position in the project, in any directory order, and when reads fail, are short or are interrupted; it changes no file.",
  ["inputs", "fault_sequences", "schedules"], "all projects with good and bad schemas at any position x directory orders x read faults",
  "Tests validate single in-memory schemas, one example per error; no test runs the command, several files, or a failing read.",
  ["crates/mabo-cli/src/main.rs", "crates/mabo-compiler/src/validate/mod.rs", "crates/mabo-compiler/src/resolve/mod.rs", "crates/mabo-project/src/lib.rs"], [("check command", "crates/mabo-cli/src/main.rs"), ("validate and resolve", "crates/mabo-compiler/src")], "exit status of mabo check")

p("F07", "Tools running at the same time do not disturb each other",
  "When `mabo fmt` runs on a project while other commands (further `mabo fmt` runs, `mabo check`, or one of the generators) run on it, then however their file operations interleave, every schema file holds at every moment either its complete old or its complete formatted content; the readers of that project reach the verdict and write the output they would alone, on the unformatted or the formatted text of each file; all formatting runs succeed if they would alone, their files are formatted afterwards, and nothing is left behind. Being killed or failing in the middle does one tool no more harm than alone, and the others none.",
  ["schedules", "crash_points", "fault_sequences", "inputs"], "all projects x pairs and triples of commands x all interleavings of their file operations, partly with a fault or kill of one of them",
  "No test runs any command, let alone two at once; a torn read needs a particular interleaving of two processes.",
  FS + ["crates/mabo-build/src/lib.rs", "crates/mabo-go/src/main.rs"], [("fmt write-back", "crates/mabo-cli/src/main.rs"), ("schema reading of all tools", "crates/mabo-project/src/lib.rs, crates/mabo-build/src/lib.rs, crates/mabo-go/src/main.rs")], "schema files after each scheduled operation, exit status and output of each tool")

# ------- properties that hold no schedule, clock, fault or party: not simulation targets
p("N01", "Parser is total and its spans lie inside the source",
  "Parsing any text returns a schema or an error, never panics, and every span in either lies on character boundaries of the text.",
  ["inputs"], "all texts", "Snapshot tests sample a few dozen texts.",
  ["crates/mabo-parser/src/lib.rs"], [("winnow parsers", "crates/mabo-parser/src")])
p("N02", "Validation accepts exactly the well-formed schemas",
  "A schema is rejected if and only if it has duplicate ids or names, unused or duplicate generics, wrong tuple sizes, or unresolved or wrongly applied type references.",
  ["inputs"], "all schemas", "Tests hold one example per error.",
  ["crates/mabo-compiler/src/validate/mod.rs", "crates/mabo-compiler/src/resolve/mod.rs"], [("validate and resolve", "crates/mabo-compiler/src")])
p("N03", "Generated Go code implements the same wire format as generated Rust code",
  "For every schema, bytes written by the generated Go code are those of the generated Rust code and vice versa.",
  ["programs"], "all schemas and values", "Go output is only compared with snapshots.",
  ["crates/mabo-go/src/lib.rs"], [("Go templates", "crates/mabo-go/src")])
p("N04", "Generated documentation describes the schema faithfully",
  "Every definition, field, id, type and comment of a schema appears in its documentation page, and every link leads to an existing page.",
  ["inputs"], "all schemas", "Tests compare snapshots of a few schemas.",
  ["crates/mabo-doc/src/lib.rs"], [("askama templates", "crates/mabo-doc/src")])
p("N05", "Wire size bounds bound every encoded value",
  "The minimum and maximum wire size mabo-meta computes for a type bound the encoded size of every value of it.",
  ["inputs"], "all types and values", "No test encodes values against the bounds.",
  ["crates/mabo-meta/src/lib.rs"], [("WireSize", "crates/mabo-meta/src")])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
for x in P:
    for fl in x["anchors"]["files"]:
        if not os.path.exists("/repo/" + fl): print("MISSING", x["id"], fl)
    if len(x["title"]) > 80: print("title", x["id"])
