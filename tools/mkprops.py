#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the prose is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})

p("C01", "A saved package loads back as exactly the model that was saved",
  "When encoding a model reports success, decoding the resulting package (from memory or from the file it was saved to) reports success and yields the same model: units, language, metadata, resources and objects of every bundled extension, build items, child models, relationships, attachments, the content of extensions that the caller registered, and unknown extension elements and attributes. This holds however the bytes are chunked or delayed by the destination, the attachment streams and the source, in whatever order maps are iterated and goroutines run, and for text with any XML-special or non-ASCII characters and parts of any size. Encoding does not change the model it is given. (Names of parts are compared in the normalised, percent-encoded form that the packaging format prescribes.)",
  ["inputs", "schedules", "configurations"],
  "every model representable in a 3MF package (numbers within the precision of the encoder: by default four decimals, three in matrices; references and relationships consistent; no comments, control characters or whitespace-only text in unknown elements) x every split of the byte streams into reads and writes x every map order and goroutine interleaving",
  "The tests compare encoder text against a few fixed models and decode a few fixed documents separately, read from memory in one piece, with one map order and whatever interleaving the runtime happens to pick; none saves a model and loads it back under other chunkings, orders or schedules.",
  ["encoder.go", "decoder.go", "read.go", "opc.go", "internal/xml/xml.go", "internal/xml/printer.go", "spec/unknown.go", "materials/", "slices/", "beamlattice/", "production/"],
  [("package encoder", "encoder.go:Encode"), ("package decoder", "read.go:DecodeContext"), ("streaming XML reader with its own 4 KiB buffer", "internal/xml/xml.go:bufioReader.fill"), ("unknown element and attribute capture", "spec/unknown.go")],
  ["model given to Encoder.Encode", "model filled by Decoder.Decode / OpenReader"])

p("C02", "A failed write is never reported as a saved package",
  "If any write to the destination, any read of an attachment's stream, an extension writing its own elements or attributes, or creating, writing or closing the destination file fails, then encoding or closing reports an error, at whatever point of the encoding the failure happens. Conversely, when encoding (and closing, for a file) reports success, every byte of a complete package that decodes to the full model has been handed to the destination.",
  ["fault_sequences", "inputs", "schedules"],
  "every model x every position and kind (persistent, one-off, short write, disk full, failing attachment stream, failing extension, failing create or close) of a failing I/O operation during the encoding",
  "The tests use mocks that fail on one fixed call; the buffering between the XML writer, the zip writer and the destination means that a failure surfaces at a different call from the one that lost data, so every offset matters.",
  ["encoder.go", "opc.go", "internal/xml/printer.go"],
  [("error propagation of the package writer", "encoder.go:Encode, writeAttachements, writeChildModels"), ("flush of the buffered XML writer", "encoder.go:xmlEncoder.Flush"), ("file destination", "encoder.go:CreateWriter, WriteCloser.Close")],
  ["error of Encode", "error of WriteCloser.Close", "bytes received by the destination"])

p("C03", "A crash or truncation while saving never yields a package that loads as partial",
  "After a crash at any point of saving (any subset of the unsynchronised sectors kept, any file length between the durable and the written one) or a truncation or lost range in the data of the model and attachment parts of a stored package, or of a model document past the start of its root element, decoding what is left reports an error or yields the complete model that was saved. It never reports success with objects, build items, child models or attachment bytes missing or altered. (Damage confined to the content types and relationships of the package, whose checksums the packaging library does not verify, is outside this property; where the save overwrites an earlier package, loading that earlier one completely is allowed too.)",
  ["crash_points", "fault_sequences", "inputs"],
  "every model x every crash point during saving x every subset of unsynchronised sectors that survives x every truncation length and every lost or zeroed range within part data",
  "No test truncates or damages a package; which parts are affected and which read reports the damage depends on the offset, the part layout and on the order in which parts are read concurrently.",
  ["read.go", "opc.go", "encoder.go"],
  [("reading every model part to its end so that its checksum is verified", "read.go:decodeModelFile"), ("attachment copy", "read.go:addAttachment, copyFile"), ("order in which parts are written", "encoder.go:Encode")],
  ["error and model of Decode after the crash"])

p("C04", "A failed read is never reported as a loaded model",
  "If opening or inspecting the file, or reading any byte range of the package or of a part, fails (once or persistently, with or without some bytes delivered first), decoding either reports an error or still yields the complete model with all child models and all attachment bytes. It never reports success with anything missing, and never hangs.",
  ["fault_sequences", "inputs", "schedules"],
  "every package x every position, kind (persistent, transient, partial delivery, no progress) and timing of a read failure x every interleaving of the concurrent part readers",
  "The tests fail at most one mocked open call; they never fail a read in the middle of a part, of an attachment or of the package directory, nor while other parts are being decoded concurrently.",
  ["read.go", "opc.go", "internal/xml/xml.go"],
  [("error propagation from part streams", "read.go:decodeModelFile, readChildModel, processRootModel"), ("attachment copy", "read.go:addAttachment, copyFile"), ("XML reader's error latch", "internal/xml/xml.go:bufioReader"), ("file source", "read.go:OpenReader")],
  ["error and model of Decode", "error of OpenReader"])

p("C05", "Damaged or hostile packages never crash, hang or exhaust memory",
  "Decoding an arbitrary damaged package or model document, strictly or not, returns an error or a model within a number of steps and an amount of memory bounded by the size of the (decompressed) input. It never panics, in the calling goroutine or in any goroutine it started, and never blocks forever.",
  ["inputs", "fault_sequences", "schedules"],
  "every byte string obtained from a package by storage damage (flipped, lost, duplicated or reordered bytes) or by structural damage of its model documents (elements and attributes removed, duplicated, nested, moved, renamed or given bad values), for all bundled extensions",
  "The tests feed a handful of well-nested documents with wrong attribute values; nesting the same element, closing too early, an extension attribute or element in an unexpected place, or damage of compressed bytes is never tried.",
  ["read.go", "decoder.go", "internal/xml/xml.go", "spec/", "materials/decoder.go", "slices/decoder.go", "beamlattice/decoder.go", "production/decoder.go"],
  [("element stack of the document decoder", "read.go:decodeModelFile"), ("attribute group and element decoder factories", "spec/spec.go:NewAttrGroup, NewElementDecoder"), ("XML reader", "internal/xml/xml.go")],
  ["return of Decode / UnmarshalModel", "panics of any goroutine", "bytes allocated", "steps executed"])

p("C06", "Concurrent decoding of child models is schedule-independent",
  "Decoding a package with several child models gives the same complete model whatever the interleaving of the goroutines that decode them and without data races; every child model's content ends up in that child. In strict mode, if one or more parts are bad, an error is always reported and it is the genuine error of one of the bad parts, never a cancellation the caller did not ask for.",
  ["schedules", "fault_sequences", "inputs"],
  "every package with any number of child models x every interleaving of their decoding x every subset of child parts that are malformed, hold bad values or cannot be read",
  "The tests run whatever interleaving the Go scheduler picks, on tiny children, and mostly check that some error is returned; the window in which one child's failure and another's cancellation race is never controlled.",
  ["read.go", "decoder.go", "spec/spec.go"],
  [("fan-out, cancellation and error selection", "read.go:processNonRootModels"), ("child decode", "read.go:readChildModel, decodeModelFile"), ("shared model maps prepared before the fan-out", "read.go:extractCoreAttachments")],
  ["model and error of Decode", "race detector reports"],
  [("errs", "error of the fan-out, written by several goroutines", "read.go:processNonRootModels")])

p("C07", "Cancelling a decode or import stops it promptly and says so",
  "When the context of a 3MF decode or of an STL import (text or binary) is cancelled or its deadline passes, the call stops after consuming a bounded further amount of each model part or stream, and returns the context's error unless less than that amount was left, in which case it may complete and the result is then complete. It never reports success with partial content because of a cancellation, a decode whose context was already done at its start never succeeds, and when the call returns none of its goroutines is still running.",
  ["schedules", "histories", "fault_sequences"],
  "every moment of cancellation (before the start, during any read, between any two steps, by deadline) x every interleaving of the part decoders x slow and fast streams x part sizes well above the bound (tokens and faces of ordinary size; attachments, which are copied before the models are decoded, are not bounded)",
  "The tests cancel before starting, with inputs of a few elements and check intervals patched down to one; cancellation in the middle of concurrent part decoding or of a long binary STL is never exercised.",
  ["read.go", "importer/stl/binary.go", "importer/stl/ascii.go", "importer/stl/decoder.go"],
  [("periodic context check while decoding tokens", "read.go:decodeModelFile"), ("per-child context", "read.go:processNonRootModels, readChildModel"), ("periodic context check while importing faces", "importer/stl/binary.go:decode, importer/stl/ascii.go:decode")],
  ["error and model of DecodeContext", "bytes read after the cancellation", "goroutines alive at return"])

p("C08", "STL import is exact, all-or-nothing and indifferent to stream chunking",
  "Importing a well-formed text or binary STL adds exactly one object, with an identifier unused in the model, holding every triangle in order (vertices within a micron of each other may be merged), and one build item that references it, and nothing else changes; the result does not depend on how the stream is split into reads. If the stream fails at any point, or a binary stream ends before the announced number of faces, an error is returned and the model is exactly as before. Memory and steps stay proportional to the bytes actually received, whatever face count the header announces.",
  ["inputs", "fault_sequences", "histories"],
  "every STL of at least 300 bytes (text and binary, any number of faces) x every split into reads, including empty reads and data returned together with an error x every failure position x any model content and sequence of imports",
  "The tests import one fixed mesh from memory; no test fails a stream after the first bytes, splits it, lies about the face count, or checks what a failed import left in the model.",
  ["importer/stl/decoder.go", "importer/stl/ascii.go", "importer/stl/binary.go", "core.go"],
  [("encoding detection by peeking", "importer/stl/decoder.go:isASCII"), ("append on success only", "importer/stl/decoder.go:DecodeContext"), ("lowest unused identifier", "core.go:UnusedID")],
  ["model before and after", "error of DecodeContext", "bytes allocated"])

p("C09", "The model bounding box is exact under every schedule",
  "The bounding box of a model equals the union, over its build items, of the transformed bounding boxes of the objects they reference, following component references across child models and composing transforms, whatever the order in which the concurrent workers run. Unresolvable items and empty objects contribute nothing; components that refer back to an object that contains them do not keep it from returning. The computation is free of data races, and it does not change the model.",
  ["schedules", "inputs"],
  "every model (exact boxes for acyclic components; items and components that reference the root or other child models, with any affine transforms whose results do not overflow, empty and missing objects) x every interleaving of the workers",
  "The tests compute a few boxes with one or two items and whichever interleaving the runtime picks; lost updates need two workers between the read and the write of the shared box.",
  ["core.go", "math.go"],
  [("worker per build item merging under a lock", "core.go:Model.BoundingBox"), ("component recursion", "core.go:Object.boundingBox"), ("path resolution", "core.go:Component.ObjectPath, Item.ObjectPath")],
  ["value returned by BoundingBox", "race detector reports"])

p("C10", "Mesh coherency validation reports exactly the incoherent solids",
  "Validating mesh coherency reports every object of a solid type, in the root or in any child model, whose mesh is not closed and consistently oriented or is too small, each exactly once with its own location and cause, and reports nothing else; if all are coherent it reports success. The set of reported problems is the same under every interleaving of the concurrent workers, which never race.",
  ["schedules", "inputs"],
  "every model with any number of coherent and incoherent meshes spread over root and child models x every interleaving of the workers",
  "The tests check two or three fixed meshes under one interleaving; losing one of two concurrent reports, or attributing it to another object or part, needs a particular schedule.",
  ["validate.go", "errors/errors.go", "errors/list.go"],
  [("worker per object merging errors under a lock", "validate.go:Model.ValidateCoherency"), ("location wrapping", "errors/errors.go:Wrap, WrapIndex, WrapPath"), ("edge matching", "validate.go:Mesh.ValidateCoherency")],
  ["error returned by ValidateCoherency", "race detector reports"])

p("C11", "Read-only operations on a shared model are safe to run concurrently",
  "Encoding, marshalling, validating, checking coherency, computing bounding boxes, looking up and walking resources of one model from several goroutines at once gives each caller the result it would get alone, without data races, and leaves the model unchanged.",
  ["schedules", "inputs"],
  "every model (attachments excluded when it is encoded more than once, as their streams can only be read once) x every set of concurrent read-only callers x every interleaving",
  "No test calls two operations on the same model concurrently or checks that an operation leaves its input unchanged.",
  ["encoder.go", "validate.go", "core.go", "slices/encoder.go", "materials/encoder.go", "beamlattice/encoder.go", "production/encoder.go"],
  [("encoders work on per-call state only", "encoder.go"), ("validation only reads", "validate.go"), ("lookups only read", "core.go")],
  ["results of each concurrent call", "model afterwards", "race detector reports"])

p("C12", "The extension registry behaves as one atomic map under concurrency",
  "Concurrent registrations and lookups of extensions behave as if each took effect at one instant between its call and its return: a lookup sees the latest registration for its namespace, never a torn, lost or foreign one, and no call blocks forever. A decode running while extensions are being registered handles each element by the extension registered for it or as unknown content, and never fails or races because of it.",
  ["schedules", "histories"],
  "every history of concurrent registrations, lookups and validator lookups over a few namespaces x every interleaving, including decodes running meanwhile",
  "Tests register once from package initialisation, sequentially.",
  ["spec/spec.go", "decoder.go"],
  [("registry guarded by a reader-writer lock", "spec/spec.go:Register, Load, LoadValidator")],
  ["results of Load and LoadValidator", "what a concurrent decode attached", "race detector reports"],
  [("specs", "namespace to extension", "spec/spec.go")])

p("C13", "Filling in missing UUIDs is complete, unique, preserving and retryable",
  "After missing UUIDs have been filled in, the build, every build item, every object of root and child models and every component has a valid UUID; those that were present are unchanged, and all the generated ones consist of bytes that the random source delivered and are distinct as long as it does not repeat itself. This holds for any random source, including one that delivers bytes piecemeal; if the source fails the call fails loudly without storing an invalid identifier, and calling again with a working source completes the work and keeps what was already assigned.",
  ["fault_sequences", "inputs", "histories"],
  "every model with any subset of UUIDs present, empty or missing x every chunking and failure position of the random source x retries",
  "The tests fill in one small model once with the real random source, which neither fails nor delivers short reads.",
  ["production/production.go", "uuid/uuid.go"],
  [("full read of 16 random bytes per identifier", "uuid/uuid.go:New"), ("walk over build, items, objects and components", "production/production.go:SetMissingUUIDs")],
  ["UUIDs in the model", "panic of the call"])

p("C14", "Independent encoders, decoders and importers do not interfere",
  "Any number of encodes, decodes, marshals and STL imports running at the same time on unrelated models and streams each give exactly the result they give alone, including those that fail or are cancelled, without data races and without blocking one another.",
  ["schedules", "inputs", "fault_sequences"],
  "every set of concurrent independent operations, some of them failing or being cancelled x every interleaving",
  "Tests run one operation at a time, so shared buffers, caches or counters between operations are never exposed.",
  ["read.go", "encoder.go", "internal/xml/xml.go", "internal/xml/printer.go", "importer/stl/", "spec/spec.go"],
  [("no shared state besides the extension registry", "read.go, encoder.go, internal/xml, importer/stl")],
  ["result of each operation", "race detector reports"])

p("C15", "Lenient decoding keeps everything that is valid and reports what is not",
  "Decoding in non-strict mode a package in which attribute values of root or child models are invalid yields the complete model, with nothing but those values affected (each left at a default, or at the part of it that could be parsed), and reports an error that covers every invalid value, naming the attribute and, by path and position, the element that holds it, whatever the interleaving of the child decoders and whichever parts hold them. Attributes and elements of namespaces that are not understood are never mistaken for those that are. A part that cannot be read, or a cancellation, is still reported as an error.",
  ["schedules", "inputs", "fault_sequences"],
  "every package x every set of invalid attribute values spread over root and child models x every interleaving of the child decoders",
  "The tests decode only the root document in non-strict mode; one child's recoverable error stopping its siblings and the root is schedule-dependent and never exercised.",
  ["read.go", "errors/list.go"],
  [("collection of recoverable errors", "read.go:decodeModelFile"), ("merge of errors from children and root", "read.go:DecodeContext, processNonRootModels")],
  ["model and error of Decode with Strict off"])

p("C16", "A decoder can be retried after a failure and gives the full model",
  "After a decode that failed, was cancelled or succeeded, decoding again with the same decoder or a new one over the same source into a fresh model gives, once the fault is gone, exactly the result of a first decode: nothing is missing, duplicated or left over from the earlier attempt.",
  ["histories", "fault_sequences", "schedules"],
  "every sequence of decode attempts with one decoder, each failing at any point through I/O errors or cancellation or succeeding, followed by a fault-free attempt",
  "No test calls the same decoder twice.",
  ["read.go", "opc.go"],
  [("per-decode state kept in the decoder", "read.go:Decoder.nonRootModels, processOPC"), ("package reader re-opened on each decode", "opc.go:opcReader.Open")],
  ["model and error of the last Decode"],
  [("nonRootModels", "child parts to decode", "read.go:Decoder")])

p("C17", "Every file handle, part stream and goroutine is released on every outcome",
  "When a decode or encode returns, whether it succeeded, failed or was cancelled, every model part and attachment stream it opened has been closed and none of its goroutines is left; opening a file that then cannot be inspected leaves no handle open, and closing a reader or writer releases its handle exactly once. No stream is used after it was closed.",
  ["fault_sequences", "schedules", "inputs"],
  "every package x every outcome (success, read failure, bad content, cancellation, failing open or stat) x every interleaving",
  "No test counts opened against closed streams or handles, and the failing paths are those where closing is forgotten.",
  ["read.go", "encoder.go", "opc.go"],
  [("deferred close of part streams", "read.go:processRootModel, readChildModel, copyFile"), ("handle ownership", "read.go:OpenReader, ReadCloser.Close; encoder.go:CreateWriter, WriteCloser.Close"), ("wait for children", "read.go:processNonRootModels")],
  ["open and close counts of part streams and file handles", "goroutines alive at return"])

p("C18", "What is loaded does not depend on how a package is written, and saving keeps it",
  "A package that says the same loads as the same model however it is written: any prefixes and any place of namespace declarations, order of attributes, quotes, character references, white space, comments, processing instructions, CDATA sections, empty elements written either way, numbers in any notation, default values written out, part names by relative or absolute relationship targets, content types by default or by override, elements that mean nothing where they stand, entries compressed or not, in any order, with or without data descriptors and folder entries, delivered by the stream in any pieces. Saving the model that was loaded gives a package that loads as that model again.",
  ["inputs", "schedules", "fault_sequences"],
  "every model x every way of writing its package x every way its streams deliver the bytes and its child decoders interleave, then saved and loaded again",
  "Tests decode what the encoder itself writes, or documents written in that style; other producers' packages use other prefixes, local declarations, comments, relative targets.",
  ["read.go", "decoder.go", "opc.go", "encoder.go", "internal/xml/xml.go", "internal/xml/printer.go"],
  [("names, namespaces, text and entities of the reader", "internal/xml/xml.go"), ("namespace bindings of the writer", "internal/xml/printer.go"), ("targets of relationships", "opc.go:resolveRelationship, findOPCFileFromName"), ("namespaces declared by non-root models", "decoder.go:addExtensions")],
  ["model after Decode, and after Encode and Decode again"])

# Properties this family cannot decide (see MANIFEST not_applicable).
p("C30", "Validation reports exactly the violations of the 3MF specification rules",
  "Validating a model reports every violation of the core and extension rules and nothing else.",
  ["inputs"], "every model", "The rules are checked on fixed examples only.",
  ["validate.go", "materials/validate.go", "slices/validate.go", "beamlattice/validate.go", "production/validate.go"],
  [("rule checks", "validate.go")], ["error returned by Validate"])
p("C31", "Text forms of colours, matrices, UUIDs and numbers parse and print consistently",
  "Parsing the printed form of a colour, matrix or identifier gives the value back, and ill-formed text is rejected.",
  ["inputs"], "every text and value", "Only fixed examples are tested.",
  ["spec/utils.go", "math.go", "uuid/uuid.go"], [("parsers and printers", "spec/utils.go, math.go, uuid/uuid.go")], ["return values"])
p("C32", "The mesh builder welds equal vertices and keeps distinct ones apart",
  "With connectivity on, adding a vertex returns an existing index exactly when an equal position was added before.",
  ["inputs"], "every sequence of vertices", "Only fixed examples are tested.",
  ["core.go", "math.go"], [("position lookup", "math.go:vectorTree")], ["indices returned"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
