#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Decoding arbitrary bytes never accesses memory outside the input",
 "Decoding any byte sequence against any message description reads no byte outside the given buffer, writes nothing but the decoder's own temporaries, and never calls through a missing operation, whatever wire types, lengths or truncations the bytes contain.",
 ["inputs"], "all byte sequences of all lengths, all well-formed message descriptors, all handlers",
 "The decoder tests feed a few dozen hand-written messages; truncation, reserved wire types and length overflow at every position cannot be enumerated.",
 ["src/core/decoder.c", "src/core/stream.c", "src/core/stream.h", "src/core/varint.c"],
 [("decode loop", "src/core/decoder.c pb_decoder_decode"), ("stream reads/skips and their dispatch tables", "src/core/stream.c"), ("varint unpack/scan", "src/core/varint.c")])

prop("C02", "Decoded values handed to the user lie inside the input buffer",
 "Every string, bytes value or submessage the decoder hands to a handler denotes a byte range that lies completely inside the buffer being decoded; a length prefix that would reach past the end is reported as an error and never delivered. Elements of a packed field are delivered only while they lie inside that packed field's declared extent.",
 ["inputs"], "all byte sequences, all descriptors, every handler invocation",
 "Tests check a handful of strings and lengths; the bound must hold for every length prefix at every offset, including ones near the 32-bit limit.",
 ["src/core/decoder.c", "src/core/stream.c"],
 [("length-delimited read", "src/core/stream.c read_length"), ("packed and submessage paths", "src/core/decoder.c pb_decoder_decode")])

prop("C03", "Decoding stops at the first error and reports success only at the end",
 "If a read fails or a handler returns an error, decoding invokes no further handler and returns exactly that error; decoding returns success only after every byte of the buffer has been consumed.",
 ["inputs", "fault_sequences"], "all byte sequences, all sequences of handler results",
 "Tests only exercise a handler failing at one or two positions of fixed messages.",
 ["src/core/decoder.c", "src/core/stream.c"],
 [("error handling of the decode loop", "src/core/decoder.c pb_decoder_decode")])

prop("C04", "Decoding terminates and its stack use does not grow with the message",
 "Every step of decoding or iterating over encoded data consumes at least one byte or ends, so decoding any finite input terminates; the stack space of one decode call is bounded independently of the input's length and field count.",
 ["inputs"], "all byte sequences and descriptors, in particular very long messages",
 "Tests use short messages; unbounded stack growth or a non-advancing loop shows up only on inputs much larger or stranger than those sampled.",
 ["src/core/decoder.c", "src/core/stream.c", "src/message/cursor.c"],
 [("decode loop", "src/core/decoder.c"), ("cursor iteration", "src/message/cursor.c next, next_packed")])

prop("C05", "Unknown fields are skipped by exactly their encoded extent",
 "A field that the descriptor does not know is skipped without invoking the handler, advancing by exactly the extent its wire type prescribes (a whole varint, 4 bytes, 8 bytes, or length prefix plus that many bytes), and an unsupported wire type or an extent reaching past the end is reported as an error.",
 ["inputs"], "all wire types 0..7, all lengths, all positions",
 "Tests sample a few unknown fields of the four common wire types.",
 ["src/core/decoder.c", "src/core/stream.c", "src/core/stream.h", "src/core/varint.c"],
 [("skip dispatch and skip functions", "src/core/stream.c, src/core/stream.h"), ("varint scan", "src/core/varint.c pb_varint_scan")])

prop("C06", "Varint sizes, packing and unpacking agree for every value",
 "For every value of every integer type the announced size equals the number of bytes packed, the packed bytes are the canonical protocol-buffer varint of the value (zigzag for sint, ten bytes sign-extended for negative int32), and unpacking them yields the value and that size back. Unpacking or scanning never looks at a byte beyond the bytes available, and reports failure when no terminating byte is available.",
 ["inputs"], "all 2^32 / 2^64 values of each type, all truncations, all byte patterns up to the maximum length",
 "Tests pack and unpack a dozen values per type; agreement must hold at each 7-bit boundary and for each truncation.",
 ["src/core/varint.c", "src/core/varint.h"],
 [("size/pack/unpack functions and size table", "src/core/varint.c")])

prop("C07", "Each field type has one representation shared by every component",
 "For every field type, the wire type, in-memory size, encoder, decoder, skipper, message reader/writer and implicit default agree with each other and with the protocol-buffer specification of that type.",
 ["configurations"], "all 17 field types times all per-type tables and switches",
 "Tests touch each table at some types only; a mismatch between two tables for one type is only visible when exactly that type goes through exactly both components.",
 ["src/core/descriptor.c", "src/core/varint.c", "src/core/stream.c", "src/core/encoder.c", "src/message/field.c"],
 [("type size / wiretype maps", "src/core/descriptor.c"), ("varint jump tables", "src/core/varint.c"), ("read/skip tables", "src/core/stream.c"), ("encode table", "src/core/encoder.c"), ("default map and put switch", "src/message/field.c")])

prop("C08", "The encoder writes exactly the bytes it reserves, as tag plus payload",
 "Encoding a value appends exactly one tag (or one tag and one length for a packed run) followed by the value's payload to the encoder's buffer; it writes every byte it reserved and no byte outside, and leaves earlier bytes untouched (for values whose lengths the wire format can express, below 2^31 bytes).",
 ["inputs"], "all values, sizes and element counts, all field types and labels",
 "A reservation that is too small or too large by one byte is only visible for particular sizes (7-bit boundaries of the length or tag) or under a sanitizer.",
 ["src/core/encoder.c", "src/core/buffer.c"],
 [("encode_* and encode_packed", "src/core/encoder.c"), ("reservation", "src/core/buffer.c pb_buffer_grow")])

prop("C09", "Encoding reports the first failure and stops",
 "When encoding several values, the first failure is returned to the caller and no later value is appended; encoding into an encoder that is not valid returns an error and touches nothing.",
 ["fault_sequences"], "every allocation failing at every position of every encode call",
 "Tests use an allocator failing at one chosen call; the failing position ranges over all values of an array.",
 ["src/core/encoder.c"],
 [("element loop", "src/core/encoder.c pb_encoder_encode")])

prop("C10", "A failed buffer change leaves the buffer as it was",
 "If growing, writing or clearing a range of a buffer fails (no memory, zero-copy memory, bad range, invalid buffer), an error is returned and the buffer's contents, size and ownership are unchanged.",
 ["fault_sequences", "inputs"], "all ranges and sizes, allocation failing or succeeding at every point",
 "Tests inject failure in a few positions and do not compare the whole buffer state.",
 ["src/core/buffer.c", "src/message/buffer.c"],
 [("grow", "src/core/buffer.c pb_buffer_grow"), ("splice", "src/message/buffer.c pb_buffer_write, pb_buffer_clear")])

prop("C11", "Zero-copy memory is never resized, freed or written beyond its extent",
 "Memory supplied by the user for zero-copy operation is never passed to an allocator, and every operation that would change its length fails with the allocation error before touching a byte.",
 ["inputs", "histories"], "all operations on buffers and journals created zero-copy",
 "Tests try a few operations on zero-copy buffers; the guard must hold on every path that allocates, resizes or frees.",
 ["src/core/buffer.c", "src/message/buffer.c", "src/message/journal.c", "src/core/allocator.c"],
 [("zero-copy guards", "src/core/buffer.c, src/message/buffer.c, src/message/journal.c")])

prop("C12", "Every allocation goes through the owner's allocator and is released once",
 "Memory of a buffer, journal or encoder is obtained, resized and released only through the allocator it was created with; destroying releases each block exactly once and leaves an object that owned memory without it, so destroying it again releases nothing.",
 ["histories", "fault_sequences"], "all create/use/destroy sequences including failed creations and double destroy",
 "Tests run under a plain allocator where a wrong or repeated release is not always visible.",
 ["src/core/buffer.c", "src/core/encoder.c", "src/message/journal.c", "src/message/buffer.c", "src/core/allocator.c"],
 [("create/destroy", "src/core/buffer.c, src/message/journal.c, src/core/encoder.c")])

prop("C13", "Range writes splice exactly the addressed bytes",
 "A successful range write leaves the bytes before the range and the bytes after it unchanged and in order, with the new data between them; a successful range clear removes exactly the range; the size changes by exactly the difference.",
 ["inputs"], "all buffer sizes, ranges and replacement lengths (growing, shrinking, equal)",
 "Tests sample a few ranges on short buffers.",
 ["src/message/buffer.c"],
 [("pb_buffer_write, pb_buffer_clear", "src/message/buffer.c")])

prop("C14", "The journal records every size change once and undoes it on failure",
 "Every change of a journal's length appends exactly one record holding where it happened and by how much, same-length changes append none, and a change that fails leaves neither a record nor a modified message behind.",
 ["histories", "fault_sequences"], "all ranges and sizes, allocation failing at either step",
 "Tests inspect records after a few writes; the failure path between recording and writing is excluded from coverage in the source.",
 ["src/message/journal.c"],
 [("pb_journal_write, pb_journal_clear, push, pop", "src/message/journal.c")])

prop("C15", "Alignment maps offsets through each recorded change correctly",
 "Bringing a stale offset up to date moves it by the change's amount if the change lies before it, grows or shrinks it if the change lies inside it, leaves it alone if the change lies behind it, and invalidates it if its bytes were removed.",
 ["histories"], "all offsets times all recorded changes, in every relative position",
 "Tests replay a few dozen edit sequences; relative positions of part and change form a large case space with boundary equalities.",
 ["src/message/journal.c"],
 [("pb_journal_align", "src/message/journal.c")])

prop("C16", "Only the journal changes message bytes",
 "All bytes of a message held in a journal, and its change records, are modified only by the journal's own write and clear operations; fields, cursors, messages and oneofs never write to them directly.",
 ["programs", "histories"], "all functions of the message layer",
 "A bypassing write is correct in isolation and only corrupts handles created earlier.",
 ["src/message/*.c", "src/core/*.c"],
 [("journal and buffer mutators", "src/message/journal.c, src/message/buffer.c")])

prop("C17", "Reading never modifies a message",
 "Testing, comparing, reading and iterating (has, match, get, next, seek, rewind, case, validation and decoding) never change the bytes of the message, its length or its change history.",
 ["inputs", "histories"], "all read operations on all inputs, through every call path",
 "Tests compare results of reads, not the absence of writes on every path.",
 ["src/message/cursor.c", "src/message/field.c", "src/message/message.c", "src/message/nested.c", "src/message/oneof.c", "src/core/decoder.c", "src/util/validator.c"],
 [("read API", "src/message/*.c")])

prop("C18", "Length prefixes of all enclosing messages follow every size change",
 "A message edit that changes the size of a field reports success only after the length prefix of the field and of every enclosing submessage or packed field has been rewritten to the new size.",
 ["histories", "inputs"], "all edits at all nesting depths, including ones that change the width of a length prefix",
 "Tests edit a few nesting depths; prefix width changes at each level combine.",
 ["src/message/part.c"],
 [("adjust_prefix, adjust_recursive, pb_part_write, pb_part_clear, init", "src/message/part.c")])

prop("C19", "Stale handles are brought up to date before their offsets are used",
 "Every operation on a field, message or cursor first brings the handle's offsets up to date with all changes made through other handles, or fails; offsets of an outdated handle are never used to read or write message bytes.",
 ["histories"], "all interleavings of operations through several handles on one journal",
 "Tests interleave a few pairs of handles; a missing alignment only shows when another handle changed the size in between.",
 ["src/message/part.c", "src/message/field.c", "src/message/cursor.c", "src/message/message.c", "src/message/part.h"],
 [("align before use", "src/message/*.c")])

prop("C20", "Errors are never swallowed",
 "Whenever an internal step of a public operation fails, the operation reports failure (an error code, an invalid handle, or a negative result), apart from the documented conversions of end-of-message into absence or completion.",
 ["fault_sequences", "inputs"], "every internal failure at every call site of every public operation",
 "Allocation failures and garbled data at inner call sites are mostly excluded from the coverage run.",
 ["src/core/*.c", "src/message/*.c", "src/util/*.c"],
 [("error propagation", "all functions returning an error code")])

prop("C21", "Invalid handles are inert",
 "Passing an invalid buffer, journal, decoder, encoder, message, field or cursor to any operation on it returns an error (or a negative or invalid result) without dereferencing the missing memory and without changing anything.",
 ["inputs", "fault_sequences"], "all public operations on handles made invalid by a failed creation or by destruction",
 "Tests pass invalid handles to many operations but not down every path that a failed step can create.",
 ["src/core/*.c", "src/message/*.c", "src/util/validator.c"],
 [("validity checks", "all public operations")])

prop("C22", "Descriptor lookups find exactly the matching entry",
 "Looking up a field by tag or name, or an enum value by number or name, returns an entry that matches whenever the descriptor (or, for fields, one of its registered extensions) contains one, and nothing otherwise, and never reads outside the descriptor's tables.",
 ["inputs", "configurations"], "all descriptors with entries in ascending order, all tags, numbers (negative ones too) and names, all extension chains",
 "Tests use three small descriptors; the search start and its early exit depend on the distribution of tags and numbers.",
 ["src/core/descriptor.c", "src/util/descriptor.c"],
 [("pb_descriptor_field_by_tag, pb_enum_descriptor_value_by_number", "src/core/descriptor.c"), ("by_name", "src/util/descriptor.c")])

prop("C23", "Registering an extension is idempotent and never loses one",
 "Registering an extension makes its fields reachable from the extended descriptor, keeps every extension registered before, and registering the same one again changes nothing.",
 ["histories"], "all registration sequences",
 "Tests register at most two extensions in one order.",
 ["src/core/descriptor.c"],
 [("pb_descriptor_extend", "src/core/descriptor.c")])

prop("C24", "Descriptor iterators visit every entry exactly once in both directions",
 "Iterating fields, enum values or oneof members forwards from the beginning or backwards from the end visits every entry exactly once, stays inside the table, and reports the end correctly for every size, including zero and one.",
 ["configurations"], "all table sizes, all positions, three kinds of iterators, both directions",
 "Tests iterate a couple of fixed descriptors of at least two entries.",
 ["include/protobluff/core/descriptor.h"],
 [("iterators", "include/protobluff/core/descriptor.h")])

prop("C25", "The validator reports a missing required field at any depth",
 "Validation succeeds only if every required field of the message and, recursively, of every submessage present occurs; it reports absence otherwise, and stays within its own memory for every number of distinct fields including extensions.",
 ["inputs", "configurations"], "all messages, all descriptors with extensions, all nesting depths",
 "Tests validate a few messages without extensions.",
 ["src/util/validator.c"],
 [("handler, check", "src/util/validator.c")])

prop("C26", "At most one member of a oneof is active",
 "Setting a member of a oneof erases every other member that occurs behind it before success is reported, so that it is the active one (earlier ones may remain, superseded); asking which member is active yields the last one present, or none; a member superseded by a later one is reported absent, and fields outside the oneof do not affect this. Clearing a oneof or erasing one of its members removes all of its members and nothing else, or fails. A field outside a oneof is found at its last occurrence (a repeated one at its first), and erasing it removes every occurrence.",
 ["histories", "inputs"], "all orders of occurrences in the encoded message, all edit sequences",
 "Tests cover oneofs alone in a message; fields of other kinds following a member are not covered.",
 ["src/message/part.c", "src/message/cursor.c", "src/message/oneof.c", "src/message/message.c"],
 [("pb_part_create, pb_cursor_create, pb_oneof_case, pb_oneof_clear", "src/message")])

prop("C27", "The chunk allocator honours the allocator contract",
 "A block it returns has at least the requested size and keeps its contents across resizing; when memory is exhausted it reports failure and leaves the old block valid; each chunk is released exactly once, either individually or when the allocator is destroyed.",
 ["histories", "fault_sequences"], "all sequences of allocate, resize, free, destroy with failures at any point",
 "Tests never make the system allocator fail inside the chunk allocator.",
 ["src/util/chunk_allocator.c"],
 [("allocate, resize, free, destroy", "src/util/chunk_allocator.c")])

prop("C28", "Independent messages can be used from different threads",
 "The library keeps no mutable global state: operations on different buffers, journals and messages share nothing but read-only data, so they never interfere.",
 ["schedules"], "all interleavings of operations on disjoint objects",
 "Tests are single-threaded.",
 ["src/core/*.c", "src/message/*.c", "src/util/*.c"],
 [("global data", "all translation units")])

prop("C29", "Everything the public headers promise exists in the libraries",
 "Every operation declared in the public headers is defined and exported by the library its header belongs to, the lite library needs nothing from the full one, and every operation that can fail with an error code (as opposed to accessors that only read the code stored in a handle) makes the compiler warn when the result is ignored.",
 ["programs"], "all programs that use the public headers against either library",
 "Tests link internal objects directly and call only some of the operations.",
 ["include/protobluff/**/*.h", "src/core/*.c", "src/message/*.c", "src/util/*.c"],
 [("public declarations", "include/protobluff")])

prop("C30", "The library never terminates the process or performs hidden I/O",
 "No library operation exits, aborts, raises signals, prints or touches files, other than the explicit dump operations; failures are only ever reported through results.",
 ["inputs", "programs"], "all public operations, all call paths in a release build",
 "Tests cannot show that no path leads to such a call.",
 ["src/core/*.c", "src/message/*.c", "src/util/*.c"],
 [("call graph", "all translation units")])

prop("C32", "A cursor stops at exactly the matching fields, in message order",
 "Moving a cursor forward takes it to the next occurrence of the field it looks for (any known field if it was created without a tag), or the next value inside a packed field, in message order and skipping only fields that do not match; the range it then denotes is exactly the content of that field and lies inside the message; it reports the end only if no matching field is left, and an error if the bytes cannot be parsed (a truncated last field may be reported as the end).",
 ["inputs", "histories"], "all message bytes, all descriptors, all positions of the cursor, changes through other handles in between",
 "Cursor tests walk over a handful of hand-written messages; positions, wire types, packed runs, removed fields and truncations combine without bound.",
 ["src/message/cursor.c", "src/message/cursor.h", "src/core/stream.c"],
 [("cursor iteration", "src/message/cursor.c pb_cursor_next, next, next_packed"), ("cursor creation and rewind", "src/message/cursor.c pb_cursor_create_unsafe, pb_cursor_rewind")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        s = p["statement"].replace("e.g.", "").count(". ") + 1
        assert s <= 3, (p["id"], s)
    print(len(P), "properties")
