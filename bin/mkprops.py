#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (source of truth for the property texts)."""
import json, os
W = "beschi/writers/"
ALLW = ["beschi/writer.py"] + [W + x for x in ("c.py", "csharp.py", "go.py", "rust.py", "typescript.py", "zig.py")]
BP = [W + "boilerplate/" + x for x in ("C.0.h", "C.1.h", "C.2.h", "CSharp.0.cs", "CSharp.1.cs", "Go.go", "Rust.rs", "TypeScript.ts", "Zig.zig")]
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [observe]}
    if state: a["state"] = [{"name": "heap", "meaning": state, "where": files[0]}]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Round trip within and across languages",
 "For every accepted protocol and every message value whose strings and lists fit the declared size types, the bytes written by the code generated for any of the target languages (C, C++, C#, Go, Rust, Swift, TypeScript, AssemblyScript, Zig) are read back, by the code generated for the same or any other supported language, as exactly that value (every number bit for bit except a NaN's payload, every string (NUL-terminated where it is a C string), list length, enum and nested struct), and the reader consumes exactly the bytes that were written.",
 ["inputs", "configurations"],
 "all accepted protocols (member types, nesting, declaration order, size types, enum encodings) x all in-range values x all ordered pairs (writer language, reader language)",
 "The suite round-trips one hand-written value of one protocol per language pair; the space of type nestings, size types, boundary values and Unicode text is unbounded.",
 ALLW + BP, [("serializer / deserializer generators", "gen_serializers / gen_deserializer / gen_write_member in each beschi/writers/*.py"), ("boilerplate readers and writers", "beschi/writers/boilerplate/*")],
 "public WriteBytes/FromBytes of generated code in C, C++, C#, Go, Rust, TypeScript, Zig")

prop("C02", "Canonical wire format, identical in every language",
 "The bytes written for a message value are exactly the documented encoding: members in declaration order with no padding; little-endian fixed-width numbers; one byte per bool; enums in the smallest of byte/int16/int32 that holds all declared values; strings as their UTF-8 byte length in string_size_type followed by those bytes with no terminator; lists as their element count in list_size_type followed by the elements; a tagged message is the same bytes preceded by its type byte. Hence all languages write identical bytes for equal values.",
 ["inputs", "configurations"],
 "all accepted protocols x all in-range message values x all languages x tagged/untagged",
 "Tests compare one example message between languages, so a change of format made consistently, or one visible only for other types, lengths or size types, passes.",
 ALLW + BP, [("member writers", "gen_write_member / gen_serializers in beschi/writers/*.py"), ("enum encoding choice", "beschi/protocol.py Enum.__init__"), ("declaration order", "beschi/protocol.py build_struct")],
 "the buffer produced by the generated write functions")

prop("C03", "Size queries are exact",
 "For every message value, the size reported by the generated size query (GetSizeInBytes or its equivalent) equals the number of bytes an untagged write of that value produces, and the reported packed size (GetPackedSize or its equivalent) of a sequence of messages equals the number of bytes packing that sequence produces.",
 ["inputs", "configurations"],
 "all accepted protocols x all in-range message values x all message sequences x all languages",
 "Buffers are allocated from the reported size; tests check a few sizes, but errors appear only for particular member types, non-ASCII text, nesting or size types.",
 ALLW + BP, [("measurement generators", "gen_measurement in beschi/writers/*.py"), ("protocol size arithmetic", "beschi/protocol.py get_size_of / is_simple"), ("packed size", "GetPackedSize in beschi/writers/boilerplate/*")],
 "return value of the generated size functions against the written buffer length")

prop("C04", "Truncated messages are always rejected",
 "If a buffer holds only a proper prefix of a message's encoding, reading that message reports failure through the language's documented channel (error code, exception, error value or nil) instead of returning a message, and neither crashes, hangs nor touches memory outside the buffer.",
 ["inputs", "fault_sequences"],
 "all accepted protocols x all message values x every cut position strictly inside the encoding x all languages",
 "The suite truncates a couple of messages at one place each; the cut can fall inside any member, length prefix, element or nested struct, each guarded by different generated code.",
 ALLW + BP, [("bounds checks in readers", "beschi/writers/boilerplate/* (ReadX, DataAccess, BufferReader, readNumber)"), ("error propagation", "gen_deserializer / gen_read_member in beschi/writers/*.py")],
 "outcome of generated FromBytes on prefixes of valid encodings")

prop("C05", "Undeclared enum values are rejected on read",
 "Reading succeeds for every enum member whose encoded number is one of the declared values and reports failure when any enum in the message -- direct, in a list, or inside a struct at any depth -- carries a number that is not a declared value; it never yields a message holding an undeclared enum value. (AssemblyScript reads such a number as _Unknown: see its own property.)",
 ["inputs", "configurations"],
 "all enums (dense, sparse, negative, any declaration order, any encoding width) x all positions in a message x all encodable numbers x all languages",
 "The tests corrupt one enum at one position; validation is generated separately for scalar members, list elements and bulk-read simple structs.",
 ALLW, [("enum validation on read", "gen_enum / gen_deserializer in beschi/writers/*.py")],
 "outcome of generated FromBytes on encodings with a substituted enum number")

prop("C06", "ProcessRawBytes reads exactly the tagged stream",
 "Given a buffer of consecutively written tagged messages, ProcessRawBytes (or its equivalent) returns exactly those messages in order with their types and values: all of them up to the end of the buffer or the first zero tag byte when the limit is negative, at most the limit when it is positive (leaving a reader that exposes its position just after the last returned message), and none when it is zero. A tag that names no message, or a message that is truncated or holds an undeclared enum value, makes it report failure. (In AssemblyScript the list ends there: see its own property.)",
 ["inputs", "histories"],
 "all sequences of messages of a protocol x all limits (negative, zero, smaller, equal, larger than the count) x terminator positions x malformed items at any position x all languages",
 "Tests exercise one fixed stream; the interaction of limit, terminator, end of data and faults at the n-th message is a state machine over histories.",
 ALLW + BP, [("stream loop", "ProcessRawBytes / process_raw_bytes / processRawBytes in beschi/writers/*.py and boilerplate")],
 "generated ProcessRawBytes")

prop("C07", "Pack and unpack are inverse and validate the container",
 "PackMessages writes 'BSCI', the message count as a little-endian uint32, every message tagged in order, and one zero byte; UnpackMessages of that buffer returns exactly the same messages in order, in every language, whatever language packed it. Unpacking reports failure -- never a partial list, crash or out-of-bounds access -- when the header is missing, short or altered, when fewer messages than the count can be read, or when any contained message is truncated, has an unknown tag or holds an undeclared enum value; a container whose count is zero unpacks to an empty list.",
 ["inputs", "histories", "fault_sequences"],
 "all message sequences (including empty and >255 messages) x all truncations and header/count/body alterations x all ordered language pairs",
 "Tests use one nine-message pack and a few broken variants; count/terminator/truncation interplay needs the whole product.",
 ALLW + BP, [("pack/unpack", "PackMessages / UnpackMessages in beschi/writers/*.py and boilerplate")],
 "generated PackMessages, UnpackMessages")

prop("C08", "Message identity is stable and declaration-ordered",
 "The n-th declared message has type tag n (starting at 1, up to 255) in every language: the message-type constants, the type reported by a message instance, the tag byte written and the type a stream or packed reader dispatches on all agree, and every message name is distinct from every other so that no value is ever read back as another type.",
 ["inputs", "configurations"],
 "all accepted protocols with 0..255 messages (including structurally identical and empty messages) x all message types x all languages",
 "Tests use protocols with at most nine messages; off-by-one, signedness (>127) and dispatch mistakes appear with other counts and orders.",
 ALLW + BP, [("message type enums and dispatch", "gen_message_type_enum / generate in beschi/writers/*.py"), ("declaration order", "beschi/protocol.py Protocol.messages")],
 "generated MessageType constants, GetMessageType, tag bytes, dispatch result")

prop("C09", "Fresh messages have the documented defaults",
 "A message created through the documented default construction of any language (constructor, Create/default constant, NewXDefault, Default, zig default fields) holds zero for numbers, false for bools, the empty string, empty lists, the first listed entry of each enum, and recursively default structs; it can be measured, written and released as it stands, and writing it yields the encoding of exactly that value. Instances do not share mutable state.",
 ["inputs", "configurations"],
 "all accepted protocols x all message types x all languages",
 "The uninitialised-message test covers one protocol; defaults for sparse enums, nested structs and lists are generated case by case.",
 ALLW, [("default generation", "gen_default / gen_struct in beschi/writers/*.py"), ("default enum entry", "beschi/protocol.py Enum.get_default_pair")],
 "generated constructors/default values, then write")

prop("C10", "A protocol is accepted exactly when the documented rules hold",
 "The CLI accepts a protocol file and generates code iff it satisfies the documented rules: required _name/_values keys of the right kind, non-empty names without whitespace, member names that are not reserved words of the protocol format, user type names that are not base type names (in any letter case), unique struct, message, enum and enum-entry names with no struct/message/enum (or enum-entry vs struct/message) shadowing, every member a base type, struct, enum or single-level list of one, no message used as a member, enum numbers distinct and within int32, integral size types, at most 255 messages, no circular references. Otherwise it exits with a nonzero status and an error message and produces no code. (Keys beginning with an underscore are not members.)",
 ["inputs"],
 "all protocol descriptions (structs, messages, enums, meta settings, member types), valid or violating any rule singly or in combination, at any position",
 "Thirty-odd hand-written bad files each violate one rule in one place; combinations, positions and near misses are not covered.",
 ["beschi/protocol.py", "beschi/cli.py"], [("validation", "beschi/protocol.py Protocol.__init__, Enum.__init__"), ("error exits", "beschi/cli.py main")],
 "exit status, stdout and stderr of the beschi command")

prop("C11", "Circular references are detected exactly and always in bounded time",
 "For every struct reference graph -- direct, through lists, through messages, self-referencing, cycles not reachable from the first declared struct, shared (diamond) substructures, any declaration order -- loading the protocol terminates promptly, rejects it iff the graph has a cycle, and accepts acyclic graphs however much sharing they contain.",
 ["inputs", "configurations"],
 "all finite directed reference graphs over structs and messages, in all declaration orders",
 "Two cyclic files are tested; termination and exactness over all graphs is a universal claim a worklist algorithm can miss only on particular shapes.",
 ["beschi/protocol.py"], [("cycle check worklist", "beschi/protocol.py check_for_cycles"), ("recursion over structs", "beschi/protocol.py is_simple, get_size_of")],
 "Protocol(filename) outcome and time; exit status of the beschi command")

prop("C12", "Every accepted protocol generates code that builds",
 "For every accepted protocol whose names are ordinary identifiers (not reserved in the target language and not among the names of the generated API or its runtime), every supported language and every combination of generator options, the generated source is accepted by that language's compiler -- whatever the declaration order of structs, member types, list and string size types, enum values, empty structs or messages, presence or absence of a namespace, and repetition of member names across different structs.",
 ["configurations", "inputs"],
 "all accepted protocols whose names avoid words reserved or predefined in the target languages, names of the generated API itself, and names that differ only in the case of their first letter x all languages x generator options",
 "The documentation promises this for every protocol; the suite builds seven protocols, always declared in dependency order with the default or one other size type.",
 ALLW + BP, [("generators", "generate() in beschi/writers/*.py"), ("boilerplate substitution", "beschi/writer.py add_boilerplate")],
 "compiler exit status on generated code (gcc, g++, csc, go, rustc, tsc, zig)")

prop("C13", "Command line is deterministic and all-or-nothing",
 "For every invocation whose output path is writable, the beschi command either exits 0 having produced the complete generated source, or exits nonzero with a diagnostic on stderr, having written nothing to stdout and having neither created nor altered the output file. The same inputs always produce identical text, with --output and on stdout alike (stdout adds one line end), and generating code for one language or repeatedly does not influence another generation.",
 ["inputs", "histories", "configurations"],
 "all combinations of options, languages, valid/invalid protocols and pre-existing output files, in any order of invocations",
 "Tests call the CLI for a few valid files; failure atomicity and independence of options and history are universal.",
 ["beschi/cli.py", "beschi/writer.py", "beschi/protocol.py"] + ALLW[1:], [("CLI session", "beschi/cli.py main"), ("shared Protocol object", "writers' constructors renaming members")],
 "exit status, stdout, stderr and file contents of the beschi command")

prop("C14", "C memory lifecycle: everything is released exactly once",
 "In generated C, after any sequence of Create, read (successful or failing at any byte), ProcessRawBytes, PackMessages, UnpackMessages (successful or failing), Cleanup, Destroy and DestroyMessageList that follows the documented ownership rules, every allocation has been freed exactly once, no invalid pointer is freed, and no memory outside live allocations is accessed; a failed call leaves its out-parameters in a state that is safe to clean up and hands no partially read message to the caller.",
 ["histories", "fault_sequences", "inputs"],
 "all accepted protocols x all values x all API call histories within the ownership rules x every failing byte position",
 "No existing test destroys messages under an allocation checker; leaks and bad frees need specific histories and fault positions.",
 [W + "c.py", W + "boilerplate/C.0.h", W + "boilerplate/C.1.h"], [("allocation and release", "gen_create / gen_destroy / gen_read_member in beschi/writers/c.py"), ("stream lists", "ProcessRawBytes, UnpackMessages, DestroyMessageList in beschi/writers/c.py")],
 "allocation log of {NS}_MALLOC/{NS}_REALLOC/{NS}_FREE overrides under AddressSanitizer", "set of live allocations and their owners")

prop("C15", "Allocation failure is reported, not crashed on or leaked",
 "When any single memory allocation made by a generated C or Zig reader (FromBytes, ProcessRawBytes, UnpackMessages, Create) fails, the call reports the allocation error through its normal channel without crashing, and everything allocated during the call has been released or is still owned by an object the caller can release; retrying with memory available succeeds.",
 ["fault_sequences", "histories"],
 "all accepted protocols x all values x every allocation index in the call x repeated use afterwards",
 "The suite never injects allocation failures.",
 [W + "c.py", W + "zig.py", W + "boilerplate/C.1.h", W + "boilerplate/Zig.zig"], [("allocation checks", "ERR_ALLOCATION_FAILURE paths in beschi/writers/c.py"), ("errdefer/allocator", "gen_deserializer in beschi/writers/zig.py")],
 "return code and allocation log under an allocator that fails at the n-th request")

prop("C16", "Writers never exceed the buffer they are given",
 "Writing or packing into a fixed-size buffer that is too small at any byte reports failure and modifies no byte outside that buffer, and writing into one of exactly the reported size succeeds, in every language whose generated writer targets a fixed-size buffer.",
 ["inputs", "fault_sequences"],
 "all accepted protocols x all values x all buffer capacities from 0 to the exact size x C, C++, TypeScript, Zig",
 "Tests always allocate enough space; each primitive, string and list writer has its own check.",
 [W + "c.py", W + "typescript.py", W + "zig.py"] + BP, [("write bounds checks", "WriteX in beschi/writers/boilerplate/C.1.h, DataAccess in TypeScript.ts, writeNumber/writeString in zig.py")],
 "result and surrounding canary bytes after generated writes into short buffers")

prop("C17", "Reading and writing compose at any buffer position",
 "Messages can be written one after another, tagged or not, into one buffer at any starting offset, and read back in the same order from that offset through the same reader object or view, the position advancing by exactly each message's encoded size; the result does not depend on the offset, on bytes before or after, on the view's offset into a larger allocation, on how a stream-based reader chunks its reads, or on the previous content of the destination object.",
 ["histories", "inputs"],
 "all sequences of messages x all starting offsets x all views into larger buffers x all chunkings of io streams x all languages",
 "Every test starts at offset 0 of a dedicated buffer with a fresh object.",
 ALLW + BP, [("position tracking", "DataAccess / BufferReader / BinaryReader use in boilerplate"), ("offset arithmetic", "zig fromBytes/writeBytes, Rust BufferReader")],
 "results of successive generated reads and writes on one buffer")

prop("C18", "Generator options never change what messages mean",
 "The namespace setting or --namespace override, --indent, --embed-protocol, --go-no-rename, --rust-no-rename and --typescript-use-namespace change only naming, layout or comments: for every accepted protocol the code generated with any combination still builds, is reachable under the namespace the option selects, and writes and reads exactly the same bytes as without the options.",
 ["configurations", "inputs"],
 "all subsets of options x all namespaces (also none, and ones overlapping generated names) x all accepted protocols x all languages",
 "Options are used by hardly any test, and never in combination.",
 ["beschi/cli.py", "beschi/writer.py"] + ALLW[1:], [("option handling", "beschi/cli.py main, get_additional_args in writers"), ("indent and namespace substitution", "beschi/writer.py add_boilerplate")],
 "behaviour of code generated with options")
prop("C19", "Readers are total: any bytes give what they encode, or a failure",
 "For every byte string whatsoever, reading a message, processing a stream and unpacking a container terminate without a crash, hang or access outside the buffer, and either return exactly the message or messages those bytes encode under the documented format or report failure through the language's normal error channel. In particular a length prefix that is negative or larger than what is left of the buffer, an undeclared enum value, an unknown tag and a wrong header are failures whatever the prefix says and whatever surrounds it, nothing is handed out or leaked on failure, and a reader never reserves memory it cannot get on the word of a prefix. (AssemblyScript has its own way of failing: see its own property.) A boolean byte other than 0 reads as true; text that is not valid UTF-8 may be rejected or read in the language's own way; which NaN a NaN reads as is free; lists of elements of zero size with enormous counts are left open.",
 ["inputs", "fault_sequences"],
 "all byte strings x all accepted protocols with every size type x read, stream and container entry points x all languages",
 "The suite has one truncated and one enum-corrupted file; lengths at the border of integer types and arbitrary corruption are unbounded spaces.",
 ALLW + BP, [("length checks", "list and string deserializers in beschi/writers/*.py"), ("end-of-buffer checks", "ReadX in C.1.h, BufferReader in Rust.rs, readNumber in Zig.zig, DataAccess in TypeScript.ts, readString in Go.go")],
 "outcome of generated read, process and unpack calls on arbitrary bytes (C under AddressSanitizer and UBSan)")
prop("C20", "AssemblyScript output keeps the format and fails in its own documented way",
 "For every accepted protocol, the generated AssemblyScript, run with AssemblyScript's semantics (integers that wrap to their declared types, 64-bit integers, null instead of exceptions), writes exactly the documented bytes at any offset of any view, reports exact sizes and packed sizes, reports and dispatches on the declared message types, makes messages with the documented defaults, and reads back exactly what was written, leaving the position after it. Reading a message whose bytes are cut short, or whose lengths are negative or exceed the buffer, gives null instead of a message or an abort; an undeclared enum number is read as a value that no entry has (_Unknown), never as a declared entry, and every declared number as its entry; ProcessRawBytes returns exactly the messages up to the limit, the end, the first zero tag or the first one that cannot be read; UnpackMessages throws unless the container is well formed and complete; writing into too small a view returns false and changes nothing outside it.",
 ["inputs", "fault_sequences"],
 "all protocols x all values x all byte strings x all offsets and views x all entry points of the AssemblyScript API",
 "Without the AssemblyScript compiler the suite does not run this output at all; where it does, it reads nine fixed protocols.",
 ["beschi/writers/assemblyscript.py", "beschi/writers/typescript.py", "beschi/writers/boilerplate/AssemblyScript.ts"], [("AssemblyScript generator", "beschi/writers/assemblyscript.py and the is_assembly_script branches of beschi/writers/typescript.py"), ("runtime", "beschi/writers/boilerplate/AssemblyScript.ts")],
 "outcomes of calls of the generated code, translated to JavaScript with the types of AssemblyScript enforced")
prop("C21", "Swift output keeps the format and fails by throwing",
 "For every accepted protocol, the generated Swift, run with Swift's semantics (integers that trap on overflow and on conversions out of range, value semantics of structs and arrays, Data whose slices keep their indices), writes exactly the documented bytes after whatever the NSMutableData already holds, reports exact sizes and packed sizes, reports and dispatches on the declared message types, makes messages with the documented defaults, and reads back exactly what was written, from a Data of its own as from a slice of a larger one. For every byte string whatsoever FromBytes, ProcessRawBytes and UnpackMessages return exactly what those bytes encode, or throw a DataReaderError: they never trap, whatever a length prefix, an enum number, a tag, a limit or a header says, and however short the data is.",
 ["inputs", "fault_sequences"],
 "all protocols x all values x all byte strings x all positions and slices x all entry points of the Swift API",
 "Without a Swift toolchain the suite does not run this output at all; where it does, it reads nine fixed protocols from Data of their own.",
 ["beschi/writers/swift.py", "beschi/writers/boilerplate/Swift.0.swift", "beschi/writers/boilerplate/Swift.1.swift"], [("Swift generator", "beschi/writers/swift.py deserializer, serializer, gen_measurement"), ("runtime", "DataReader, DataWriter, Message.UnpackMessages and PackMessages in beschi/writers/boilerplate/Swift.0.swift and Swift.1.swift")],
 "outcomes of calls of the generated code, translated to JavaScript with the types, traps and value semantics of Swift")
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
