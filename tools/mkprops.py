#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
H = "zpp_bits.h"
P = []
def prop(id, title, statement, over, text, why, mech, files=None, state=None, observe=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files or [H],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            **({"state": state} if state else {}),
            "observe_at": observe or [],
            "hook_needed": None,
        }})

prop("C01", "Serialize then deserialize returns the same value",
 "For every value of a supported type (fundamentals, enums, arrays, standard containers, strings, tuples, optionals, variants, owning pointers, bitsets, varints, aggregates and private or explicitly serialized classes, nested arbitrarily), writing it with an output archive and reading it with an input archive that has the same options yields an equal value. Both calls succeed, and the read consumes exactly the bytes that were written. What the destination object held before the read does not influence the result.",
 ["inputs", "programs", "configurations"],
 "all values of the supported types, all combinations of size-type and byte-order options, all prior contents of the destination",
 "The tests round-trip a few literal values per type under default options into fresh objects; they cannot settle all values, nestings, option combinations and destination states.",
 [("in/out serialize_one overloads", "zpp_bits.h: class basic_out, class in"), ("byte_serializable decides memcpy vs member-wise", "zpp_bits.h: access::byte_serializable")],
 observe=["out(value), in(value) return codes, positions and values"])

prop("C02", "Bytes written equal the documented wire format",
 "The bytes written for a value are exactly those of the documented format: scalars in the archive's byte order; sequence, string, span and associative containers as an element count in the archive's (or the item's own) size type followed by the elements in iteration order; fixed-size arrays, tuples and aggregates as their elements or members with no overhead and no padding; optionals and optional pointers as one presence byte (0 or 1) and the value; variants as the alternative's one-byte index and the value; bitsets packed least significant bit first. `sized` replaces the size type of one item, `unsized` drops it, and when the size type is too narrow for the container the count and the items written are both reduced modulo its range. The position advances by exactly the encoded length.",
 ["inputs", "programs", "configurations"],
 "all values of the supported types and all combinations of size-type and byte-order options",
 "Tests check the bytes of a few constants; a wrong length, order or prefix on another path that is mirrored by the reader passes every round-trip test.",
 [("size prefix handling", "zpp_bits.h: basic_out::serialize_one(container)"), ("variant index", "zpp_bits.h: basic_out::serialize_one(variant)"), ("sized_item_ref", "zpp_bits.h: sized/unsized")],
 observe=["bytes in the output buffer after out(...)"])

prop("C03", "Arbitrary input bytes never cause memory errors",
 "Reading any byte string, of any length and content, into any supported type never reads or writes outside the input range or the destination objects, never triggers undefined behaviour, and never leaks memory. The call returns normally (or, with no allocation limit set, throws an allocation failure), every failure is an error code, and the archive's position never exceeds the size of the input.",
 ["inputs", "programs", "configurations"],
 "all byte strings, all destination types whose object representation admits every bit pattern, all size types, byte orders and finite allocation limits",
 "Tests feed only bytes produced by the library itself; hostile sizes, ids and truncations are not reached.",
 [("remaining-size checks before each read", "zpp_bits.h: class in"), ("variant id check", "zpp_bits.h: in::serialize_one(variant, id)"), ("varint bound", "zpp_bits.h: decode_varint")],
 observe=["sanitizer reports, return codes, in.position()"])

prop("C04", "Truncated input is always rejected",
 "Reading a value from any strict prefix of its encoding fails with result_out_of_range instead of succeeding with partial data, and the position stays within the prefix. Types whose last part is an unsized view (documented to take the rest of the input) are the only exception.",
 ["inputs", "configurations"],
 "all values, all cut points of their encoding, all size types and byte orders",
 "The tests contain a handful of truncated inputs for three types; every cut point of every type is needed.",
 [("remaining-size checks", "zpp_bits.h: class in"), ("decode_varint slow path", "zpp_bits.h: decode_varint")],
 observe=["errc of in(value) on each prefix"])

prop("C05", "Fixed-size output never writes outside its buffer",
 "An output archive over a non-growing buffer (array, std::array, span, of any byte type) writes only inside that buffer and only at or after its current position. If the encoding fits in the remaining room it is written completely and correctly, however tight the fit; otherwise the call fails with result_out_of_range and nothing outside the buffer or before the position changes.",
 ["inputs", "configurations"],
 "all values, all buffer sizes from 0 to encoding length + 16, all starting positions",
 "Tests overflow one or two fixed buffers; boundary sizes for every type and for sequences of writes are not covered.",
 [("remaining-room checks", "zpp_bits.h: class basic_out (non resizable)"), ("varint worst-case vs exact check", "zpp_bits.h: serialize(varint)"), ("message size prefix move", "zpp_bits.h: basic_out::serialize_one(by_protocol)")],
 observe=["buffer content, canaries and ASan red zones"])

prop("C06", "Growing output keeps content and ends fitted",
 "An output archive over a resizable buffer grows it as needed: after every successful sequence of writes the bytes before the position are exactly the encodings written so far, whatever the enlarger, initial content, capacity and option set. Starting at the beginning overwrites earlier content in place, `append` (or an explicit position) keeps the bytes before it. Bytes of the original buffer behind the position keep their values. If the buffer was grown, at the end of the outer call its size equals the larger of the position and its original size; with `no_fit_size` it is at least the position.",
 ["inputs", "histories", "configurations"],
 "all sequences of writes and repositionings, all initial buffers, enlarger ratios, append, no_fit_size",
 "Tests use one fresh vector per case; interactions of growth steps, reuse, repositioning and fitting need histories.",
 [("enlarge_for", "zpp_bits.h: basic_out::enlarge_for"), ("fit at the end", "zpp_bits.h: out::operator()"), ("append option", "zpp_bits.h: options")],
 state=[{"name": "position / buffer size", "meaning": "where the next byte goes, and how long the buffer is", "where": "basic_out"}],
 observe=["buffer content and size after each call"])

prop("C07", "Output allocation limit is never exceeded",
 "With `alloc_limit<L>` an output archive never grows its buffer beyond L bytes: a write whose encoding would end beyond both L and the buffer fails with no_buffer_space, leaving the previously written bytes intact. Every write that fits the buffer, or for which the buffer size plus the room it needs (10 bytes for a varint), times the enlarger ratio, stays within L, succeeds. Size arithmetic that would overflow is reported as no_buffer_space, never wrapped.",
 ["inputs", "histories", "configurations"],
 "all limits, all write sequences around the limit, all enlargers, positions up to the maximum of the size type",
 "Tests try one limit per archive type; off-by-one behaviour at the limit for all sequences is not settled.",
 [("allocation limit and overflow checks", "zpp_bits.h: basic_out::enlarge_for")],
 observe=["every resize() request seen by an instrumented buffer, errc"])

prop("C08", "Input allocation limit bounds memory use",
 "With `alloc_limit<L>` an input archive refuses, with message_size, every length-prefixed resizable container whose elements would take more than L bytes (count times element size), before allocating for it, and accepts every one that takes at most L. No single allocation made for a length-prefixed container of a fresh destination exceeds L bytes plus a small constant, for any input; inside protobuf messages the same limit applies to the announced length of packed fields, strings and bytes.",
 ["inputs", "configurations"],
 "all length prefixes, all element sizes, all limits, all nestings",
 "The tests check one limit with one container; the bound must hold for all types and hostile lengths.",
 [("allocation_limit / sizeof(value_type)", "zpp_bits.h: in::serialize_one(container)"), ("packed length check", "zpp_bits.h: pb::deserialize_field")],
 observe=["requests seen by a counting allocator, errc"])

prop("C09", "Varints follow LEB128 and zigzag exactly",
 "For every value of every varint type, encoding yields the minimal base-128 little-endian form of its unsigned (or zigzag mapped) value with the continuation bit on all but the last byte, and decoding yields the value back consuming exactly those bytes, wherever in the buffer it lies. Non-minimal encodings that fit the type's maximum length decode to the same value; an encoding that ends without a final byte gives result_out_of_range and one with more continuation bytes than the type allows gives value_too_large. The result does not depend on how much data follows it.",
 ["inputs"],
 "all values of 8, 16, 32 and 64 bit signed, unsigned, zigzag and enum varints; all byte strings; all amounts of trailing data",
 "Tests check about ten constants; the fast and slow decoders and length boundaries need all of them.",
 [("varint serialize / decode_varint", "zpp_bits.h: varint section"), ("varint_size", "zpp_bits.h: varint_size")],
 observe=["encoded bytes, decoded values, position, errc"])

prop("C10", "Byte order option reverses every multi-byte scalar",
 "With a big-endian (or network) archive every multi-byte scalar, enum, variant or RPC identifier held as an integer, size prefix and member thereof, at any nesting depth, is written most significant byte first and read back so; with a little-endian or native archive least significant first on this machine. Single bytes, byte strings, bitsets, varints and protobuf messages do not depend on the option.",
 ["inputs", "programs", "configurations"],
 "all types, nestings, and byte-order options",
 "Tests swap a few flat types; containers, nested aggregates and types eligible for memcpy take different paths.",
 [("endian_aware paths", "zpp_bits.h: basic_out/in serialize_one"), ("serialize_as_bytes concept", "zpp_bits.h: concepts::serialize_as_bytes")],
 observe=["bytes written, values read"])

prop("C11", "Variants are dispatched by identifier, bad ids rejected",
 "A variant is written as the identifier of its active alternative (its index, or its declared serialization id) followed by that alternative, and reading activates exactly the alternative whose identifier was read, whatever was active before. An unknown identifier fails with bad_message without activating an alternative, and a valueless variant cannot be written (invalid_argument). With a known id (compile-time or run-time) no identifier is written or read and the named alternative is used; an unknown run-time id fails with bad_message.",
 ["inputs", "configurations"],
 "all identifiers of one, two, four, eight and other lengths, all alternatives, all prior states",
 "Tests cover few identifiers and mostly valid input; all 256 one-byte ids, neighbours of long ids and prior states are open.",
 [("traits::variant::id / index", "zpp_bits.h: traits::variant"), ("known_id_variant", "zpp_bits.h: known_id")],
 observe=["bytes, active index, errc"])

prop("C12", "Optionals and owning pointers keep presence and value",
 "An empty optional or optional pointer is written as one zero byte and a present one as one nonzero byte followed by its value; reading makes the target present or empty accordingly, replacing any previous content, so trees and graphs of owning pointers come back with the same shape. Writing a null owning pointer that is not optional fails with invalid_argument; reading an owning pointer always yields a new non-null object on success.",
 ["inputs", "programs"],
 "all shapes of nested optionals, pointers and recursive structures, all prior target states",
 "Tests use one or two small graphs and fresh targets.",
 [("serialize_one(optional / owning_pointer)", "zpp_bits.h"), ("optional_ptr", "zpp_bits.h: optional_ptr")],
 observe=["bytes, presence, shape, errc"])

prop("C13", "Every object created while reading is destroyed exactly once",
 "Objects the library creates while reading (map and set elements, non default constructible optional and variant alternatives, pointees, protobuf elements, function arguments) are each destroyed exactly once, and no destination object is destroyed twice or leaked, whether the read succeeds, fails at any byte, or throws. On failure the destination remains a valid object that can be destroyed or read into again.",
 ["inputs", "fault_sequences"],
 "all element types, all failure positions, repeated reads into the same destination",
 "Tests never count lifetimes and rarely fail in the middle of a container.",
 [("placement_new + destructor_guard", "zpp_bits.h: destructor_guard, in::serialize_one"), ("access::make_unique", "zpp_bits.h: access")],
 observe=["constructor/destructor events of tracked types, ASan/LSan"])

prop("C14", "Views alias exactly the bytes they describe",
 "Reading a view of const bytes (span of const byte, string view, sized or unsized) copies nothing: on success the view points into the input at the position after its size prefix with exactly the announced length (the rest of the input when unsized), the position moves past it, and a length beyond the remaining data fails with result_out_of_range. Reading into a mutable view writes the announced number of items through the view, shrinks it to that number, and refuses a count larger than the view without writing outside it.",
 ["inputs", "configurations"],
 "all announced lengths, offsets, size types and view types",
 "Tests read one or two well-formed views.",
 [("view branch of in::serialize_one(container)", "zpp_bits.h: class in")],
 observe=["view pointer and size, position, errc"])

prop("C15", "Writes and reads compose; positions are exact",
 "Writing items in one call, in several calls, through several archives at explicit positions, or as a tuple or aggregate of them gives the same bytes, and any split of the reads gives the same values. A failed item stops the call: earlier items keep their effect and later items are not touched. position, reset, remaining_data and processed_data always describe the same split of the buffer, and reset(p) resumes exactly at p.",
 ["inputs", "histories"],
 "all item sequences, groupings and repositionings",
 "Tests use single straight-line sequences.",
 [("serialize_many", "zpp_bits.h: basic_out/in::serialize_many"), ("position/reset/processed_data", "zpp_bits.h")],
 observe=["bytes, values, positions after each call"])

prop("C16", "apply calls the function once with the decoded arguments",
 "Applying a function, function object or member function to an input archive reads exactly its parameters in declaration order, then invokes it exactly once with the read values and returns its result; a void function yields a plain success code, and a function without parameters is called without reading anything. If reading any parameter fails, the function is not called and the error is returned.",
 ["inputs"],
 "all argument values, all truncation points, all callable kinds",
 "Tests call with a few constants and never with failing input at every cut.",
 [("apply", "zpp_bits.h: apply overloads"), ("function_traits", "zpp_bits.h: function_traits")],
 observe=["calls and arguments recorded by the callee, archive position, errc"])

prop("C17", "RPC delivers every call exactly once to the right function",
 "For every history of requests, serve calls and responses over an RPC definition, each served request invokes exactly one function - the one bound to its identifier - exactly once with equal argument values, and the matching response returns that function's result; requests are served in order and nothing is served twice or lost. The request is encoded as the identifier followed by the arguments converted to the parameter types, an unknown identifier fails with not_supported and calls nothing, and a truncated request calls nothing and reports the error. Identifiers passed out of band give the same behaviour without the identifier bytes.",
 ["histories", "inputs", "configurations"],
 "all histories of calls over all bindings, all argument values, corrupted identifiers and truncated requests",
 "Tests issue one or two calls per definition in lockstep.",
 [("rpc_impl::client / server", "zpp_bits.h: rpc_impl"), ("bind", "zpp_bits.h: bind")],
 observe=["client boundary call/return events, callee events, wire bytes"])

prop("C18", "Opaque RPC consumes exactly what the function takes",
 "An opaquely bound function receives the archives or the remaining input and nothing else is consumed from the input on its behalf: with archives, the position is where the function left it; with a data view by value, all remaining input is consumed; with a view by reference, exactly the size the function left in the view. Its result, if any, is written to the output once, an error it returns is propagated, and the following request is served from the right offset.",
 ["histories", "inputs"],
 "all consumption amounts, all accepted signatures, free and member functions, mixed histories with typed bindings",
 "Tests use one signature each with one amount.",
 [("bind_opaque::call", "zpp_bits.h: bind_opaque"), ("server::call_binding", "zpp_bits.h: rpc_impl::server")],
 observe=["input position after each serve, callee events, output bytes"])

prop("C19", "Protobuf output follows the protobuf encoding",
 "Every message is written as its fields in member order, each as a tag (field number and wire type) and payload in protobuf encoding: varint, zigzag, bool and enum as varints, 4 and 8 byte numbers as little-endian fixed fields, strings, bytes and nested messages length-delimited, repeated scalars packed, repeated messages and map entries one per element, empty repeated fields and reserved members omitted. Field numbers are the member's one-based position unless given by pb_field or pb_map. The message is prefixed by its exact byte length in the archive's (or the item's own) size type (nothing when unsized; message_size if the length does not fit that type), and neither the archive's byte order nor its size type changes the bytes inside.",
 ["inputs", "programs", "configurations"],
 "all message values over all field kinds, all archive options",
 "Tests check single constant messages under default options; lengths over one byte, nested growth, options and every field kind together are open.",
 [("pb::serialize_one", "zpp_bits.h: struct pb"), ("size prefix insertion", "zpp_bits.h: basic_out::serialize_one(by_protocol)")],
 observe=["bytes decoded by an independent protobuf reader and compared with an independent encoder"])

prop("C20", "Protobuf input accepts every valid encoding",
 "Every valid protobuf encoding of a message is read to the message's value: fields in any order, packed or unpacked (or both) repeated scalars, unknown and reserved fields and fields of another wire type skipped wherever they appear, the last occurrence of a singular scalar field and of a map key winning, negative 32-bit values in ten bytes. Fields absent from the input leave non-container members unchanged, and repeated, string and map members hold exactly what the input contains. A sized message reads exactly its announced bytes and the data after it stays available.",
 ["inputs", "programs"],
 "all permutations, splits and unknown fields of all messages",
 "Tests read what the library wrote itself and two constants; encoder freedom allowed by the format is not explored.",
 [("pb::deserialize_fields / deserialize_field / skip_field", "zpp_bits.h: struct pb")],
 observe=["decoded members compared with the abstract message model"])

prop("C21", "Malformed protobuf input is reported, never misread",
 "Reading arbitrary or corrupted protobuf bytes never causes memory errors or undefined behaviour and always terminates. Truncated fields, tags or messages and lengths beyond the enclosing message fail with result_out_of_range, a zero field number or an unsupported wire type and packed data that does not divide into elements fail with protocol_error, tags longer than 32 bits or varints longer than 64 fail with value_too_large, and packed lengths above the allocation limit fail with message_size. No element of a message is ever read from bytes outside the message's announced length.",
 ["inputs"],
 "all byte strings, all single mutations and truncations of valid messages",
 "No test feeds malformed protobuf.",
 [("pb::operator() bounds the nested archive", "zpp_bits.h: struct pb"), ("length checks", "zpp_bits.h: pb::deserialize_field, in::serialize_one(by_protocol)")],
 observe=["sanitizer reports, errc compared with an independent validator"])

prop("C22", "Compile-time results equal run-time results",
 "Any value that can be serialized or deserialized in constant evaluation gives the same bytes, the same values, the same positions and the same error codes at compile time as at run time, for all options. to_bytes and from_bytes equal the corresponding archive operations, with the result sized exactly (to_bytes takes objects of up to its 4096 bytes each).",
 ["inputs", "configurations"],
 "all constexpr-capable types, values and options",
 "Tests assert a few constants in static_assert and others at run time, rarely the same case on both paths, which are separate code.",
 [("std::is_constant_evaluated branches", "zpp_bits.h: serialize_one, decode_varint"), ("to_bytes / from_bytes", "zpp_bits.h")],
 observe=["constants computed by the compiler compared with run-time execution of the same generated cases"])

prop("C23", "Hashes, hex and identifier literals are exact",
 "The sha1 and sha256 facilities return the standard digest for every message length and content, at compile time and at run time, and hex decoding returns the bytes denoted. An identifier made from a literal is its serialized bytes (or the first N of them), of integer type for 1, 2, 4 and 8 bytes and a byte array otherwise, and is the byte sequence that appears on the wire.",
 ["inputs"],
 "all message lengths across block boundaries, all contents, all truncation lengths",
 "Tests check a few digests of short strings.",
 [("sha1 / sha256 padding and rounds", "zpp_bits.h: sha1, sha256"), ("_decode_hex", "zpp_bits.h: literals"), ("id", "zpp_bits.h: id")],
 observe=["digests compared with Python hashlib, id bytes"])

prop("C24", "Independent archives can be used concurrently",
 "Archives over distinct buffers used by different threads at the same time behave as they do alone, and reading the same constant input or writing the same constant object from several threads needs no synchronisation: there is no hidden shared mutable state. RPC clients and servers on separate archives are equally independent.",
 ["schedules"],
 "all interleavings of threads that share no mutable archive, buffer or object",
 "No test uses threads.",
 [("no static mutable state; all state in archive objects", "zpp_bits.h: basic_out, in")],
 observe=["ThreadSanitizer reports; per-thread results compared with single-threaded results"])

prop("C25", "A failing allocation leaves everything valid and leak free",
 "If any single allocation made while writing to a growing buffer or reading into containers, strings or pointers fails, the exception reaches the caller, nothing leaks, nothing is destroyed twice, and archive, buffer and destination stay valid: bytes written by earlier calls are intact, the destination can be destroyed or read again, and repeating the operation without the fault succeeds with the normal result.",
 ["fault_sequences"],
 "every allocation index of every workload",
 "No test injects faults.",
 [("enlarge_for before writing", "zpp_bits.h: basic_out::enlarge_for"), ("destructor_guard", "zpp_bits.h"), ("assignment order in serialize_one(owning_pointer)", "zpp_bits.h")],
 observe=["fault-injecting operator new, LSan, state after the fault"])

prop("C26", "Output depends on the value only",
 "The bytes written for a value are a function of the value and the archive options alone: stale buffer content, object padding, capacity, allocation history, the offset and alignment in the buffer, the byte type of the buffer (char, unsigned char, std::byte) and its container do not influence them, no uninitialised memory is ever emitted, and reading does not depend on the alignment of the input or on the bytes after the value.",
 ["inputs", "configurations"],
 "all values, all prior buffer contents, alignments, buffer kinds and trailing data",
 "Tests write into fresh zeroed vectors at offset zero.",
 [("memcpy paths and padding test (sizeof sum)", "zpp_bits.h: access::byte_serializable_visitor"), ("enlarge_for", "zpp_bits.h: basic_out")],
 observe=["byte comparison across representations; MemorySanitizer-style poisoning by differing fill patterns"])

prop("C27", "Automatic member discovery visits every member in order",
 "For every aggregate of up to 50 members, member counting returns the true number and visiting yields every member once, in declaration order, by reference to the real member, so that serialization equals that of the members written one by one. Counts declared with members<N>, inside, outside or through a friend declaration, give the same result.",
 ["programs"],
 "all member counts from 0 to 50 and all member kinds, with automatic or declared counts",
 "Tests use structures of a few members; 50 generated unrolled cases are not covered.",
 [("number_of_members / visit_members", "zpp_bits.h: access::number_of_members, access::visit_members")],
 observe=["addresses and order of visited members, bytes"])

prop("C28", "Failures are reported once, through the chosen channel",
 "Every failing operation returns an error code that is failure() and not success(), and every successful one the opposite; or_throw throws std::system_error carrying exactly that code if and only if the operation failed and otherwise returns the value. Results that carry a value or an error own exactly one of them at any time, are destroyed exactly once, and keep their content through moves; errors raised by user serialize functions propagate unchanged through every enclosing type.",
 ["inputs", "histories"],
 "all error codes, all nestings, value types with and without trivial destructors",
 "Tests check two codes through or_throw.",
 [("errc", "zpp_bits.h: struct errc"), ("value_or_errc", "zpp_bits.h: class value_or_errc"), ("failure propagation", "zpp_bits.h: serialize_many")],
 observe=["return values, exceptions, tracked lifetimes"])

prop("C29", "Build configuration does not change behaviour",
 "The same program produces the same bytes, values, positions and error codes for every documented build setting - forced inlining on or off, inlined varint decoding on or off, automatic member detection or declared member counts - and for every supported compiler, standard library and optimisation level.",
 ["configurations", "inputs"],
 "all documented settings and the installed compilers, over the recorded workload",
 "The suite is built in one configuration with one compiler.",
 [("ZPP_BITS_INLINE_MODE, ZPP_BITS_INLINE_DECODE_VARINT", "zpp_bits.h: top"), ("two copies of the varint decoder", "zpp_bits.h: varint serialize")],
 observe=["event logs of identical workloads, compared across builds"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
