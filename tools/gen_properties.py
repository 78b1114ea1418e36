#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so that the file stays valid JSON lines)."""
import json, os
H = "include/spb/"
C = "src/spb-proto-compiler/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe,
         "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("P01", "Protobuf decoding from a reader does not depend on how the bytes arrive",
 "For every message and every byte sequence, valid or damaged, decoding protobuf through a user reader that returns the bytes in arbitrary non-empty pieces gives the same outcome as decoding the same bytes from one contiguous buffer: both accept or both reject, an accepted message is equal in every field, and the reported number of consumed bytes is equal. This holds for plain and for length-delimited input and for every public overload.",
 ["schedules", "inputs", "fault_sequences"],
 "all ways of cutting a byte stream into reads (1-byte dribble, cuts inside varints, tags, fixed-width values, strings, packed runs, map entries, nested frames), times all messages of the schema corpus, times stored-byte damage before delivery",
 "Every reader in the test suite delivers as many bytes as asked for, so no test ever splits a value across two reads; the number of cut sequences is exponential in the message length.",
 [H+"pb.hpp", H+"pb/deserialize.hpp", H+"io/io.hpp"],
 [("istream_reader::read_exact_or_throw / read_byte_or_throw / sub_stream", H+"pb/deserialize.hpp"), ("istream_buffer", H+"pb/deserialize.hpp")],
 ["spb::pb::deserialize(message, reader, options) vs spb::pb::deserialize(message, buffer, size, options)"],
 [("bytes_left", "bytes of the current (sub)stream not yet requested from the reader", H+"pb/deserialize.hpp")])

prop("P02", "JSON decoding from a reader does not depend on how the bytes arrive",
 "For every message and every document, valid or damaged, decoding JSON through a user reader that returns the bytes in arbitrary non-empty pieces gives the same outcome as decoding the same document from one contiguous buffer: both accept or both reject, and an accepted message is equal in every field and reports the same number of consumed bytes. This holds whatever the document's size, white space, key order, escapes, unknown keys and nesting.",
 ["schedules", "inputs", "fault_sequences"],
 "all ways of cutting a document into reads, documents much larger than the library's internal buffer, every alignment of a token, escape, number, literal, key or base64 group against the internal buffer boundary, times stored-byte damage",
 "Test documents are short, compact and delivered whole; a token that straddles the 256-byte internal buffer, or a literal followed by a long tail, is reached only by particular size and cut combinations.",
 [H+"json.hpp", H+"json/deserialize.hpp", H+"json/base64.h", H+"io/buffer-io.hpp"],
 [("buffered_reader::view/skip/read_buffer", H+"io/buffer-io.hpp"), ("json istream_reader", H+"json/deserialize.hpp"), ("base64_decode_string", H+"json/base64.h")],
 ["spb::json::deserialize(message, reader) vs spb::json::deserialize(message, buffer, size)"],
 [("begin_index/end_index/eof_reached", "window of unread bytes inside the fixed internal buffer", H+"io/buffer-io.hpp")])

prop("P03", "Delimited protobuf frames are read exactly once, in order, with no over-read",
 "When messages are written back to back with the delimited option onto one byte stream, reading them back with the delimited option yields exactly the written messages, in order, each once. A delimited read takes from the reader exactly its own length prefix and body and not one byte more, reports exactly that many bytes as consumed, and leaves the reader positioned at the next frame, also when the message is empty, contains unknown fields, or shares the connection with other traffic.",
 ["schedules", "histories"],
 "all sequences of messages and raw traffic interleaved on one connection, all fragmentations, buffer and reader sides mixed on both ends",
 "Tests read single messages; over-reading or under-reading by some bytes only shows in the next frame of a longer history.",
 [H+"pb.hpp", H+"pb/deserialize.hpp", H+"pb/serialize.hpp"],
 [("delimited option: length varint + sub_stream", H+"pb.hpp"), ("serialize_options::delimited", H+"pb.hpp")],
 ["bytes pulled from the reader per call, returned sizes, decoded sequence"])

prop("P04", "A truncated message is never accepted as a complete one",
 "If the stream ends (connection reset, torn write) before the last byte of a length-delimited protobuf message or of a JSON document, decoding reports an error and never success, from a reader and from a buffer alike. For plain protobuf, which has no frame, a cut stream is accepted only when the cut falls between two top-level fields, and then the result equals the message made of exactly the complete fields.",
 ["crash_points", "schedules", "inputs"],
 "every cut position of every encoded message (all positions for short ones), every fragmentation of the surviving prefix, reader and buffer entry points",
 "Tests cut a handful of one-field messages inside a value; cuts at field boundaries inside a frame, inside nested frames, inside skipped unknown data, or inside base64 text are not sampled.",
 [H+"pb.hpp", H+"pb/deserialize.hpp", H+"json/deserialize.hpp", H+"json/base64.h", H+"io/buffer-io.hpp"],
 [("read_byte_or_throw/read_exact_or_throw/check_if_empty_or_throw", H+"pb/deserialize.hpp"), ("view(min_size) end-of-stream errors", H+"json/deserialize.hpp")],
 ["outcome of deserialize on every prefix"])

prop("P05", "Reader and writer exceptions reach the caller unchanged and stop the call",
 "If the user's reader or writer throws at any of its invocations, that same exception object reaches the caller of the serialize or deserialize function, the callback is not invoked again by that call, the process is not terminated, and nothing is leaked. This holds for both formats, at every point of the data, including inside skipped unknown fields, nested messages, map entries and white space.",
 ["fault_sequences", "inputs"],
 "every callback invocation index as the fault point, all messages, both formats, all exception types including ones not derived from std::exception",
 "Tests never throw from a callback; a single noexcept function or catch block on one path turns an I/O error into process termination or silent success, only at that exact point.",
 [H+"io/io.hpp", H+"io/function_ref.hpp", H+"pb/serialize.hpp", H+"pb/deserialize.hpp", H+"json/serialize.hpp", H+"json/deserialize.hpp", H+"io/buffer-io.hpp"],
 [("documented @throws contract of io::reader and io::writer", H+"io/io.hpp")],
 ["exception identity at the call site, callback counts, live allocations, process state"])

prop("P06", "A writer receives exactly the bytes a buffer would, and never anything else",
 "For every message and both formats, the concatenation of the chunks passed to a user writer equals the bytes produced into a container and into a raw buffer, and its length equals the predicted size and the returned size, for plain and delimited output. If the writer fails after some chunks, the bytes handed over so far are a prefix of that output, and nothing is written outside the predicted size of a caller's buffer.",
 ["inputs", "fault_sequences"],
 "all messages of the schema corpus, all failure points of the writer, all output overloads, guard bytes around raw buffers",
 "Tests compare one serialization per message with a literal; agreement of the independent size, buffer and writer passes for all contents and the prefix guarantee under failure need generated messages and injected write errors.",
 [H+"pb.hpp", H+"json.hpp", H+"pb/serialize.hpp", H+"json/serialize.hpp"],
 [("ostream_size / ostream_buffer / ostream_writer", H+"pb/serialize.hpp"), ("ostream_size / ostream_buffer / ostream_writer", H+"json/serialize.hpp")],
 ["chunks seen by the writer, container contents, serialize_size, return values"])

prop("P07", "Allocation failure is reported as an exception and damages nothing",
 "If any memory allocation made during a serialize or deserialize call fails, the call ends with the allocation failure reported to the caller as an exception; it does not crash, hang, leak or return success with missing data. The message stays destructible and reusable, a message being serialized is unchanged, and repeating the call once memory is available gives the ordinary result.",
 ["fault_sequences", "inputs"],
 "every allocation index of every call as the failure point (single, repeated and persistent failures), both formats, reader and buffer entry points",
 "No test makes an allocation fail; each allocation site times each container state is a separate point.",
 [H+"pb/deserialize.hpp", H+"json/deserialize.hpp", H+"json/base64.h", H+"pb.hpp", H+"json.hpp"],
 [("exception safety of the containers' resize/append/emplace paths", H+"pb/deserialize.hpp")],
 ["exceptions at the call site, live allocation ledger, retry result"])

prop("P08", "The library itself never allocates from the heap",
 "Computing a size and serializing a message to a writer or to a caller-provided buffer perform no heap allocation at all, in both formats, for any message. Deserializing into a message whose fields are all of fixed-size kinds performs no heap allocation either, from a buffer or a reader, whether the input is accepted or contains unknown data to skip.",
 ["inputs", "schedules", "fault_sequences"],
 "all messages and fragmentations with an allocator that is out of memory for the duration of the call",
 "Tests do not observe the allocator; a temporary string or container on a rarely taken path (escapes, long values, unknown fields, deep nesting) goes unnoticed.",
 [H+"pb/serialize.hpp", H+"json/serialize.hpp", H+"pb/deserialize.hpp", H+"json/deserialize.hpp", H+"io/buffer-io.hpp", H+"to_from_chars.h"],
 [("streams and scratch buffers on the stack; function_ref instead of std::function", H+"io/function_ref.hpp")],
 ["allocator calls between call entry and exit"])

prop("P09", "Every call finishes: no live-lock on slow, ending or damaged streams",
 "Every serialize and deserialize call ends, with a result or an error, after work bounded by the amount of data: with a reader that delivers as little as one byte at a time, ends at any point, or delivers damaged data, the call neither spins nor keeps calling the reader once end of file was signalled. The reader is always asked for at least one byte into valid memory, and never asked to write outside the memory it was offered. Nor does it request memory out of proportion to the data actually delivered: a length that is announced but not followed by data costs nothing.",
 ["schedules", "crash_points", "inputs"],
 "all fragmentations, end-of-file positions and stored-byte damages, with a deterministic step budget instead of a wall clock",
 "Tests only feed complete documents in one piece; loops whose progress depends on how much the reader returned are not exercised, and a hang is a liveness failure no assertion observes.",
 [H+"pb/deserialize.hpp", H+"json/deserialize.hpp", H+"json/base64.h", H+"io/buffer-io.hpp"],
 [("loops in read_exact_or_throw, read_buffer, skip_white_spaces, ignore_*, base64_decode_string", H+"json/deserialize.hpp")],
 ["reader invocations, basic-block step counter"])

prop("P10", "Damaged input yields an error or a self-consistent value, never corruption",
 "For any byte sequence delivered by any reader or buffer, decoding either throws an exception derived from std::exception or produces a message; it never reads or writes memory it does not own, crashes or leaks. A message accepted from damaged protobuf input can be serialized again, and decoding that output yields the same message. Nesting of any depth is either decoded or rejected with an error, never a crash.",
 ["inputs", "fault_sequences", "schedules"],
 "stored-byte flips, lost, duplicated, reordered and misdirected segments, overlong or lying length prefixes and torn tails applied to real encoded traffic, times fragmentation, times message types, under a memory sanitizer",
 "Tests try a few dozen hand-written malformed inputs; the reachable error states are combinations of damage and decoder position.",
 [H+"pb/deserialize.hpp", H+"json/deserialize.hpp", H+"json/base64.h", H+"utf8.h", H+"bits.h", H+"to_from_chars.h"],
 [("bounds checks in sub_stream/skip_or_throw/view; check_size; utf8::validate", H+"pb/deserialize.hpp")],
 ["exceptions, sanitizer reports, re-encoded value"])

prop("P11", "Text handed to the application is always valid UTF-8",
 "Every string value and string map key that decoding hands to the application is valid UTF-8, in protobuf and in JSON, from a reader or a buffer, however the bytes were damaged or cut in transit and whether they came as raw bytes or as escapes; input that would violate this is rejected with an error. Serializing a string or string key that is not valid UTF-8 is rejected as well rather than emitted.",
 ["inputs", "fault_sequences", "schedules"],
 "byte damage placed inside string payloads (lead and continuation bytes, overlong forms, surrogates, truncated tails) at every offset and alignment, times fragmentation",
 "Tests try two or three invalid sequences in one field kind; validation works word-wise with alignment-dependent fast paths and JSON strings are assembled from several pieces.",
 [H+"utf8.h", H+"pb/deserialize.hpp", H+"pb/serialize.hpp", H+"json/deserialize.hpp", H+"json/serialize.hpp"],
 [("utf8::validate / is_valid / decode_point", H+"utf8.h"), ("unescape_unicode", H+"json/deserialize.hpp")],
 ["decoded strings checked by an independent validator; serializer outcome"])

prop("P12", "Calls on different data do not interfere: threads and nested calls are isolated",
 "Concurrent serialize and deserialize calls on different messages and streams, including concurrent serialization of one shared unmodified message, give each caller exactly the result it would get alone, whatever the interleaving. The same holds for calls nested inside a reader or writer callback of another call on the same thread.",
 ["schedules", "histories"],
 "all interleavings, at basic-block granularity and at callback boundaries, of two to four caller threads each running a sequence of calls, plus nested calls to a small depth",
 "The test suite is single threaded and never re-enters the library; hidden shared scratch state only shows in particular interleavings.",
 [H+"pb.hpp", H+"json.hpp", H+"pb/serialize.hpp", H+"pb/deserialize.hpp", H+"json/serialize.hpp", H+"json/deserialize.hpp", H+"json/base64.h", H+"utf8.h"],
 [("absence of mutable static or thread-local state; all state in stack-allocated streams", H+"io/buffer-io.hpp")],
 ["each caller's results compared with its solo run"])

prop("P13", "A failed call leaves no trace: messages stay usable, later calls unaffected",
 "After a deserialize call failed for any reason (cut stream, damaged data, reader exception), the target message is still a valid object that can be inspected, serialized, assigned to and destroyed, and a fresh decode of intact data gives the ordinary result. A failed serialize call leaves the message unchanged, and a later serialize of it gives the ordinary bytes.",
 ["histories", "fault_sequences"],
 "all sequences of failing and succeeding calls over the same and different message objects, failures at every point",
 "Tests discard the object after an expected throw; partially built optionals, variants, maps and pointers are never looked at again.",
 [H+"pb/deserialize.hpp", H+"json/deserialize.hpp", H+"pb.hpp", H+"json.hpp"],
 [("emplace-then-fill order in optional/variant/unique_ptr/map paths", H+"pb/deserialize.hpp")],
 ["message contents after failure, results of later calls"])

prop("P14", "Messages survive any chain of hops unchanged and are delivered exactly once",
 "A message sent through a chain of nodes that decode and re-encode it, each hop using protobuf or JSON, reader or buffer, plain or delimited, and any hop possibly being the reference Google implementation for the same schema, arrives equal in every field, including which optional fields and oneof alternatives are present, empty elements, extreme finite numbers and every Unicode string (a reference hop may drop the presence of a proto3 field without explicit presence that holds its default value). With connections that break at arbitrary bytes and senders that retransmit unacknowledged messages, every message is delivered exactly once and in order.",
 ["histories", "schedules", "fault_sequences", "inputs"],
 "all message values of the schema corpus (all scalar kinds, repeated, packed, map, oneof, nested, recursive, fixed-size and bit-field members; finite floating point values), all chains of up to six hops, all fragmentations, connection breaks, retransmissions",
 "Tests convert selected literals once; loss that needs a particular value in a particular field kind and format combination, or a break at a particular byte, is not sampled.",
 [H+"pb/serialize.hpp", H+"pb/deserialize.hpp", H+"json/serialize.hpp", H+"json/deserialize.hpp", H+"json/base64.h", H+"to_from_chars.h", H+"bits.h", C+"dumper/pb/dumper.cpp", C+"dumper/json/dumper.cpp", C+"dumper/header.cpp"],
 [("generated serialize/deserialize code and the field encoders it selects", C+"dumper/pb/dumper.cpp")],
 ["message leaving the last hop vs message entering the first"])

prop("P15", "A journal of records recovers exactly its intact prefix after a crash",
 "If messages are appended to a file, as delimited protobuf frames or as JSON documents, and the file loses an arbitrary tail in a crash, then reading it from the start with the sizes each decode call reports returns exactly the records that are completely present, in order and unchanged, and then an error or end of data for the torn rest. Truncating the torn rest and appending again continues the journal correctly.",
 ["crash_points", "histories"],
 "all append histories with crashes at every byte, lost and partially persisted tails, repeated crash and recovery, reader and buffer recovery",
 "No test reads more than one record from one buffer, uses the returned sizes to continue, or ends the data inside a record.",
 [H+"pb.hpp", H+"json.hpp", H+"pb/deserialize.hpp", H+"json/deserialize.hpp"],
 [("returned consumed sizes", H+"pb.hpp"), ("consumed_size", H+"json/deserialize.hpp")],
 ["records recovered vs acknowledged appends"])

prop("P16", "Nodes with older and newer schemas interoperate: unknown data is skipped exactly",
 "A node whose schema lacks some fields decodes messages from a node that has them, in protobuf and in JSON: every field it knows gets exactly the sent value, whatever unknown fields of whatever kind, size, nesting (up to the library's limit of 1000 levels; protobuf groups excepted) and position lie between the known ones, whatever the field order and insignificant white space, and however the bytes arrive. A newer node decodes an older node's messages with the fields it lacks left at their defaults.",
 ["histories", "schedules", "inputs"],
 "rolling upgrade histories with mixed old and new nodes, unknown fields of all wire types inserted between all fields, shuffled field order, unknown JSON members of every JSON type, all fragmentations",
 "Tests skip single unknown fields delivered whole, mostly into an empty message; losing sync by a few bytes depends on the kind, size and cut of the skipped data.",
 [H+"pb/deserialize.hpp", H+"json/deserialize.hpp", C+"dumper/pb/dumper.cpp", C+"dumper/json/dumper.cpp"],
 [("skip / skip_or_throw", H+"pb/deserialize.hpp"), ("ignore_value and friends", H+"json/deserialize.hpp")],
 ["decoded known fields vs sent ones"])

prop("P17", "Declared size and count limits hold against a peer that never stops sending",
 "For a field with a declared maximum size or count, decoding never accepts a message that exceeds it and never stores more than the limit, in protobuf and in JSON, from a reader or a buffer and however the bytes arrive. Against a peer that keeps sending without end, decoding gives up after consuming an amount of data bounded by the limit, and values within the limit are always accepted. Encoding such a message throws if a value exceeds its limit and succeeds if none does. The limits of a field count wherever they are declared: on the field, the oneof member, its message or its file, as spb or nanopb option.",
 ["inputs", "schedules", "fault_sequences"],
 "endless and over-long strings, bytes, packed and unpacked repeated data in all encodings (raw, escaped, base64), at all alignments to the internal buffer, exactly at, one below and one above the limit",
 "Tests check one value just above and one at the limit, in one piece; limits are enforced piece by piece while data arrives.",
 [H+"pb/deserialize.hpp", H+"json/deserialize.hpp", H+"json/base64.h", H+"pb/wire-types.h", H+"json/field.hpp", C+"dumper/pb/dumper.cpp", C+"dumper/json/dumper.cpp"],
 [("check_size(max_size/max_count)", H+"pb/wire-types.h")],
 ["outcome, stored sizes, bytes pulled from the endless reader"])

prop("P18", "Every legal protobuf encoding means what it means to the reference",
 "Whatever legal encoding of a message a peer chooses, decoding it, from a reader or a buffer, plain or delimited and however the bytes arrive, gives the message that the reference implementation (libprotobuf) reads from the same bytes. In particular: parts of one message sent one after the other are merged (singular values: the last one wins; sub-messages, also those of a oneof, are merged; repeated fields are concatenated; map items with a key seen before replace the earlier ones), records come in any order, numbers of a repeated field come packed, unpacked or in several runs whatever the declaration says, varints other than bool need not be in their shortest form, map items may omit, repeat or reorder their members, and unknown fields may appear at every level. Excepted: groups, values out of the range of their field, repeated fields and text of fixed size, and declared limits.",
 ["inputs", "schedules", "histories"],
 "all ways of splitting, merging, reordering, padding, packing and repeating the records of a message and of its sub-messages and map items, times all cuts of the byte stream",
 "Tests decode what the library itself or one reference encoder writes, and those always choose the same encoding; proxies, other languages' encoders, appended updates and hand-written writers choose others.",
 [H+"pb/deserialize.hpp", H+"pb/wire-types.h", C+"dumper/pb/dumper.cpp"],
 [("deserialize of optional, unique_ptr, variant, map and repeated members", H+"pb/deserialize.hpp"), ("read_varint, read_tag_or_eof", H+"pb/deserialize.hpp"), ("deserialize_value of generated code", C+"dumper/pb/dumper.cpp")],
 ["value of the decoded message, judged by re-encoding it and comparing what libprotobuf reads from both"])

prop("P19", "JSON says to every peer what the message means, in every form peers choose",
 "What the library writes as JSON says to the reference implementation (libprotobuf) exactly what the same message written as protobuf says. And whatever JSON document of the same meaning a peer chooses to write, decoding it, from a reader or a buffer and however the bytes arrive, gives the message the reference reads from it. In particular: members in any order, under the proto name or the lowerCamelCase name; null for any member that is absent, members of a oneof included; integers as text or with a fraction or an exponent of integral value; floating point numbers in any notation, as text, and \"NaN\", \"Infinity\" and \"-Infinity\"; enums by any of their names or by number; characters of text, map keys, member names, enum names and quoted numbers escaped in any way; bytes in the standard and the URL-safe base64 alphabet; white space between any two tokens and around the document. Excepted: base64 without padding or with escaped characters, numbers of more than 32 characters or outside the range of normal values, repeated map keys, null inside arrays and map values, and the sign of a zero written -0.",
 ["inputs", "schedules"],
 "all messages of the schema corpus, all combinations of the choices the JSON mapping leaves to a writer, at every level of nesting, times all cuts of the byte stream",
 "Tests decode compact documents in the one form the library or the test's author chose; other languages' writers, hand-written documents and pretty printers choose others, and a choice matters only in combination with a member kind and a position.",
 [H+"json.hpp", H+"json/deserialize.hpp", H+"json/serialize.hpp", H+"json/base64.h", H+"to_from_chars.h", C+"dumper/json/dumper.cpp"],
 [("deserialize of strings, numbers, enums, bytes, maps and oneofs", H+"json/deserialize.hpp"), ("serialize of numbers, names and bytes", H+"json/serialize.hpp"), ("json names of generated code", C+"dumper/json/dumper.cpp")],
 ["value of the decoded message and of the written document, judged by what libprotobuf reads from both"])

prop("C01", "The compiler reports success only if both output files are complete",
 "When the proto compiler exits with status 0, the header and source file of every given input exist and are byte for byte what a fault-free run produces from the same inputs. If a read, write, open, close, stat or directory creation fails (disk full, I/O error, permission, too many files) and that keeps it from doing so, it exits with a non-zero status and a message on the error output; without a failing call a valid input is never refused.",
 ["fault_sequences", "inputs"],
 "every system call the compiler makes on its inputs and outputs as the failure point with every applicable error, single and persistent, times generated proto file trees",
 "Tests run the compiler only on a healthy disk; a build that silently uses truncated generated code needs a write error at the right moment.",
 [C+"main.cpp", C+"io/file.cpp", C+"dumper/dumper.cpp", C+"parser/parser.cpp"],
 [("process_file / ofstream handling", C+"main.cpp"), ("load_file", C+"io/file.cpp")],
 ["exit status and files in the simulated file system"])

prop("C02", "Re-running the compiler after a crash converges to the same output",
 "The compiler's output depends only on its inputs: re-running it after a previous run was killed at any point, over leftover, partial, longer or unrelated older output files, produces exactly the files a run in a clean directory produces. A run that is repeated without changes produces identical bytes.",
 ["crash_points", "histories", "inputs"],
 "a kill at every system call (with arbitrary loss of unsynced data) of one or several successive runs, followed by a fault-free run, over generated proto file trees and argument orders",
 "Tests compile once into a clean build directory.",
 [C+"main.cpp", C+"dumper/dumper.cpp"],
 [("ofstream opened with truncation; create_directories", C+"main.cpp")],
 ["files in the simulated file system after the last run"])

prop("C03", "Concurrent compiler runs in one tree do not disturb each other",
 "Several compiler processes running at the same time in one source and output tree, as in a parallel build, on different input files that may import each other and share output directories, all exit with status 0 and leave exactly the files that running them one after the other leaves.",
 ["schedules", "inputs"],
 "all interleavings at system-call granularity of two to four compiler processes over generated proto trees with shared imports and shared, not yet existing output directories",
 "Tests never run two compilers under a controlled interleaving; a race in directory creation or on a temporary file needs a particular one.",
 [C+"main.cpp", C+"parser/parser.cpp", C+"io/file.cpp"],
 [("create_directories; absence of shared temporary files", C+"main.cpp")],
 ["exit statuses and files in the simulated file system"])

prop("C04", "The compiler touches only its own outputs, and none for a bad input",
 "The compiler never modifies or removes its inputs or any file other than the header and source files of the inputs it was given, and creates none but these (and their missing parent directories). If an input or a file it imports cannot be read or does not parse, it exits non-zero with a message on the error output that names the file where the problem is, and leaves previously generated files of every input that depends on it untouched. A bad file that no given input needs does not matter.",
 ["inputs", "fault_sequences", "crash_points"],
 "generated proto trees with damaged, missing, unreadable or unparsable files in any role (input, direct or indirect import, unused), failing opens and reads, path and option combinations, leftovers, kills at any point",
 "Tests check parse errors through an in-process entry point without a file system.",
 [C+"main.cpp", C+"parser/parser.cpp", C+"io/file.cpp"],
 [("parse before open for writing", C+"main.cpp"), ("find_file_in_paths", C+"parser/parser.cpp")],
 ["set of simulated files changed, error output, exit status"])

prop("C05", "Interrupted and partial system calls do not change what the compiler produces",
 "If reads and writes transfer fewer bytes than asked or are interrupted by signals and have to be repeated, and however slow storage is, the compiler still exits with status 0 and produces exactly the files of an undisturbed run.",
 ["schedules", "fault_sequences", "inputs"],
 "all sequences of short reads, short writes and interruptions over all file operations of a run over generated proto trees",
 "Tests run on local disks where every call completes in full.",
 [C+"main.cpp", C+"io/file.cpp", C+"dumper/dumper.cpp"],
 [("stdio and iostream retry loops", C+"io/file.cpp")],
 ["exit status and files in the simulated file system"])

prop("C06", "The compiler always terminates and survives memory exhaustion and damaged inputs",
 "For any content of its input files, including damaged, truncated and self-importing ones, and for any failing memory allocation, the compiler ends in bounded time with an exit status, without crashing on a signal and without corrupting memory; it exits 0 only if its outputs are those of an undisturbed run on the same inputs.",
 ["inputs", "fault_sequences"],
 "bit flips, truncations, block losses and splices in stored proto files, import cycles, each allocation index as failure point, with a deterministic step budget and a memory sanitizer",
 "Tests feed a fixed list of malformed snippets with ample memory.",
 [C+"parser/parser.cpp", C+"parser/char_stream.h", C+"ast/ast-types.cpp", C+"ast/ast-messages-order.cpp", C+"ast/ast-options.cpp", C+"main.cpp"],
 [("recursive descent parser with exceptions; already-parsed file set", C+"parser/parser.cpp")],
 ["termination kind, exit status, files"])

prop("C07", "Order and grouping of proto files do not change the generated code",
 "Whichever order input files are given in, whether they are compiled by one run or by several, and in whichever order their import statements stand, the compiler succeeds and generates the same bytes for each of them; in particular a file imported over several paths (a diamond) is resolved like one imported once.",
 ["histories", "inputs"],
 "all permutations and partitions of the inputs into a history of runs, repeated inputs, and permutations of import statements, over generated import graphs with diamonds and chains",
 "Tests compile every proto file in a fixed order in a run of its own and contain no diamond import.",
 [C+"parser/parser.cpp", C+"main.cpp", C+"ast/ast-types.cpp"],
 [("parsed files / import resolution", C+"parser/parser.cpp"), ("loop over input files", C+"main.cpp")],
 ["exit statuses and files in the simulated file system after each history"])

# stated, but not decidable by this family (pure functions of their input) -> not_applicable
prop("N01", "Generated C++ compiles for every valid proto file",
 "For every proto2 or proto3 file that the reference compiler accepts and that uses no unsupported feature, the generated header and source compile as C++20.",
 ["programs"], "all valid proto files", "Tests compile a fixed set of proto files.",
 [C+"dumper/header.cpp", C+"dumper/pb/dumper.cpp", C+"dumper/json/dumper.cpp", C+"ast/ast-messages-order.cpp"],
 [("dump_cpp_header / message ordering / identifier escaping", C+"dumper/header.cpp")], ["C++ compiler exit status on generated files"])
prop("N02", "The compiler rejects every invalid proto file",
 "A proto file that violates the proto2 or proto3 language rules is rejected with an error that names the line of the violation.",
 ["programs"], "all invalid proto files", "Tests sample a fixed list of invalid snippets.",
 [C+"parser/parser.cpp", C+"parser/char_stream.h"], [("parser checks", C+"parser/parser.cpp")], ["exit status and error text"])
prop("N03", "Number text conversion is exact",
 "Every floating point and integer value written as JSON text reads back as the identical value, and the text is accepted by other JSON implementations.",
 ["inputs"], "all 2^64 doubles, 2^32 floats, all integers", "Tests sample literals.",
 [H+"to_from_chars.h", H+"json/serialize.hpp"], [("to_chars/from_chars", H+"to_from_chars.h")], ["text and parsed value"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P), "properties")
