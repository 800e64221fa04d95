#!/usr/bin/env python3
"""Source of properties.jsonl (run from /verif: python3 tools/mkprops.py)."""
import json
W = "beschi/writers/"
B = W + "boilerplate/"
ALLW = [W + f for f in ("c.py", "csharp.py", "go.py", "rust.py", "typescript.py", "zig.py")]
ALLB = [B + f for f in ("C.1.h", "CSharp.1.cs", "Go.go", "Rust.rs", "TypeScript.ts", "Zig.zig")]
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {}),
                          **({"observe_at": observe} if observe else {}), "hook_needed": None}})


prop("C01", "Written bytes follow the documented wire layout",
     "For every valid protocol and every value of every message in it, the bytes a generated library writes are exactly the documented layout: members in declaration order, little-endian fixed-width numbers, one-byte bools, enums as their smallest signed-or-byte width, strings as length plus UTF-8, lists as length plus elements, structs inline, optionally preceded by the message's tag byte. "
     "Writing starts at the current position, advances it by exactly the bytes written, and changes no other byte of the destination.",
     ["programs", "inputs", "configurations"], "all protocols (member kinds, nesting, adjacency, list/string size types, enum widths) x all values x destination positions, in every generated language",
     "The tests write a handful of hand-made messages of a few protocols; the layout has to hold for every combination of member kinds, order, nesting, size types and values.",
     ALLW + ALLB + ["docs/protocols.md"], [("serializer of each writer", W), ("primitive writers", B)], ["WriteBytes / write_bytes / writeBytes output buffer"])
prop("C02", "Reading a conforming encoding restores the message exactly",
     "For every valid protocol, reading the documented encoding of any message value, at any position of a larger buffer and whatever bytes surround it, yields exactly that value and leaves the reader exactly behind the encoding. The message read does not change when the buffer it was read from is overwritten afterwards.",
     ["programs", "inputs", "configurations"], "all protocols x all values x surrounding bytes, in every generated language",
     "Round-trip tests use a few values and cannot notice a reader that is wrong only for particular kinds, neighbours, sizes or positions.",
     ALLW + ALLB, [("deserializer of each writer", W), ("primitive readers", B)], ["FromBytes result and reader position"])
prop("C03", "The size announced before writing is the size written",
     "For every message value, the size in bytes that a generated library reports equals the number of bytes writing that message (without tag) produces; the size reported for a list of messages to be packed equals the number of bytes the packed buffer takes.",
     ["programs", "inputs"], "all message shapes x all list lengths by depth x string contents of every UTF-8 width x message sequences",
     "Size computation is generated separately from writing; the tests compare the two for a few values, not for nested lists, multi-byte text or every size type.",
     ALLW + ALLB, [("gen_measurement of each writer", W), ("GetPackedSize", B)], ["GetSizeInBytes", "GetPackedSize"])
prop("C04", "Input that ends too early is reported as an error",
     "If the input ends before the encoding it contains is complete, whether because it was cut at any byte or because a list or string length announces more than there is, reading it, processing it as a stream or unpacking it reports an error. It never returns an invented message, crashes, hangs or reads outside of the input.",
     ["inputs", "fault_sequences", "programs"], "every prefix of every encoding, and every length field announcing more than there is, at every entry point",
     "The tests truncate a few buffers at one place each; a missing check shows only at one particular cut of one particular member kind.",
     ALLW + ALLB, [("bounds and error checks of the readers", B), ("error propagation of nested reads", W)], ["FromBytes", "ProcessRawBytes", "UnpackMessages"])
prop("C05", "Enum values are accepted exactly if they are declared",
     "When data is read, an enum member is accepted if and only if its encoded value is one of the declared values of that enum, wherever the enum occurs: plain, in a list, in a struct, in a list of structs, in a stream or in a pack. Any other value makes the read report an error.",
     ["inputs", "programs"], "all values of one- and two-byte enums, boundary and single-bit-flip values of wider ones, in every position, for enums with gaps, negatives and boundary widths",
     "The tests try one invalid value in one position; validation has several code paths per language (plain, list, simple struct).",
     ALLW, [("enum validation in deserializers", W)], ["FromBytes", "ProcessRawBytes", "UnpackMessages"])
prop("C06", "Processing a stream honours limits, terminators and resumption",
     "Processing raw bytes returns the tagged messages in order until the given maximum is reached, a zero tag has been consumed, or the input ends; a negative maximum means no limit. It leaves the position exactly behind what it consumed, so that repeated calls see every message once; an unknown tag or malformed message is an error.",
     ["histories", "inputs"], "all sequences of stream units up to a depth x all sequences of limits, plus long streams and every cut",
     "Tests process one or two hand-made streams; limits, terminators, resumption and errors interact as a state machine.",
     ALLW + ALLB, [("ProcessRawBytes", B)], ["ProcessRawBytes results and position after each call"], [("reader position", "bytes consumed so far", B)])
prop("C07", "Packed messages restore the same messages or are refused",
     "Packing a sequence of messages writes the marker BSCI, the number of messages, every message with its tag in order and a zero byte; unpacking that returns the same messages in the same order. A buffer with a wrong marker, fewer messages than announced, or a malformed or missing part is refused with an error.",
     ["histories", "inputs", "fault_sequences"], "all message sequences up to a depth, long packs, every header byte value, many count values, every cut and body byte substitution",
     "Tests pack and unpack two or three fixed sequences and corrupt one byte.",
     ALLW + ALLB, [("PackMessages / UnpackMessages", B)], ["PackMessages", "UnpackMessages"])
prop("C08", "A new message has the documented defaults",
     "A message created without giving values has zero numbers, false bools, empty strings and lists, enums at their first declared value, and structs whose members are defaulted likewise, and its announced size agrees with that. Creating or altering one message does not alter the defaults that other messages get.",
     ["programs", "histories"], "all message shapes; default, alter, default again",
     "Tests look at defaults of one protocol; first-declared versus lowest enum value and nested defaults differ only for particular declarations.",
     ALLW, [("default generation", W)], ["constructors / Create / default values"])
prop("C09", "Generated C manages memory correctly even when allocation fails",
     "Whatever message is created, read, processed, unpacked, packed or destroyed with the generated C library, and whichever single memory allocation fails, no memory is accessed outside its bounds, after release or released twice; failures are reported as errors. After destroying what was returned, also after an error, no memory remains allocated.",
     ["fault_sequences", "inputs", "programs"], "every operation on every message shape, valid, truncated and corrupted input, x every allocation failing (and zero-size allocations returning nothing)",
     "No test makes an allocation fail or looks for leaks.",
     [W + "c.py", B + "C.1.h", B + "C.0.h"], [("allocation checks and destroy functions", W + "c.py")], ["FromBytes", "ProcessRawBytes", "UnpackMessages", "Destroy", "DestroyMessageList"])
prop("C10", "Generated Zig manages memory correctly even when allocation fails",
     "Whatever message is read, processed or unpacked with the generated Zig library, and whichever single memory allocation fails, an error is returned rather than a crash, nothing is released twice, and after deinitialising what was returned no memory remains allocated.",
     ["fault_sequences", "inputs", "programs"], "every operation on every message shape, valid, truncated and corrupted input, x every allocation failing",
     "No test uses a failing allocator; leak detection covers a few successful reads.",
     [W + "zig.py", B + "Zig.zig"], [("errdefer clean-up and deinit", W + "zig.py"), ("readList / readString", B + "Zig.zig")], ["fromBytes", "processRawBytes", "unpackMessages", "deinit"])
prop("C11", "Writing never leaves the destination buffer",
     "In the languages in which the caller provides the destination (C, TypeScript), writing or packing into a buffer with too little room left reports an error and changes nothing outside the room given; with exactly enough room it succeeds.",
     ["inputs", "fault_sequences", "programs"], "every message shape and pack x every destination capacity from nothing to more than enough x start positions",
     "Tests always allocate the announced size.",
     [W + "c.py", W + "typescript.py", B + "C.1.h", B + "TypeScript.ts"], [("bounds checks of the primitive writers", B)], ["WriteBytes", "PackMessages"])
prop("C12", "Exactly the valid protocols are accepted",
     "A protocol description is accepted if and only if it obeys the documented rules: known and non-reserved names without whitespace, no duplicate or shadowing names, known types, no circular struct containment, no messages inside of others, size types that are integers, enum values that fit 32 bits signed, at most 255 messages. Checking always terminates, and an invalid protocol is reported with a diagnostic and yields no code.",
     ["inputs", "programs"], "all containment graphs over few structs in every declaration order, all rule violations at every position, pairs of names across all kinds of declarations",
     "Tests contain one example per rule; cycles, name clashes and boundary values depend on shape and order.",
     ["beschi/protocol.py", "beschi/cli.py", "docs/protocols.md"], [("Protocol construction and verification", "beschi/protocol.py")], ["exit status and diagnostics of the command line"])
prop("C13", "A failed run is visible and changes no output",
     "When code generation cannot be done, for an unusable protocol, option, language or destination, the command exits with a non-zero status and a diagnostic and leaves an existing output file as it was, creating none. When it succeeds, the exit status is zero and the output is complete. If the output device fails while the output is being written, that is reported as a failure.",
     ["inputs", "fault_sequences", "configurations"], "all kinds of failing input x languages x destinations, existing or not, and failures of the output device at every write",
     "Tests look at the exception of a few invalid protocols, not at exit status, output files or write failures.",
     ["beschi/cli.py", "beschi/writer.py"], [("main of the command line", "beschi/cli.py")], ["exit status, stderr, output file"])
prop("C14", "Generation is deterministic and leaves its inputs alone",
     "The generated text is a function of the protocol and the options alone: repeating a run, in the same process or another, after generating other protocols or languages, in another directory or with another hash seed, gives byte-identical output. Generation changes neither the protocol file nor a protocol object that is generated from again.",
     ["histories", "configurations"], "all orders of generating several protocols x languages in one process up to a depth, hash seeds, directories",
     "Tests generate each output once per process order given by the test runner.",
     ["beschi/protocol.py", "beschi/writer.py", "beschi/cli.py"] + ALLW, [("writers", W), ("Protocol", "beschi/protocol.py")], ["generated text"])
prop("C15", "Every valid protocol yields code that compiles",
     "For every valid protocol with ordinary identifiers, the code generated for each language is accepted by that language's compiler (with type checking), without depending on the order of declarations, nesting, size types, or which kinds of members are present.",
     ["programs", "configurations"], "all member kinds alone, all 49 size-type combinations, small struct shapes, empty declarations, declaration orders, enum shapes",
     "Tests compile about a dozen fixed protocols.",
     ALLW + ALLB, [("writers", W)], ["compiler exit status"])
prop("C16", "Generation options do not change the wire format",
     "Indentation, embedding the protocol, a different namespace, and the language-specific naming or namespacing options only change the presentation of the generated code: it still compiles and reads and writes the same bytes as without them.",
     ["configurations", "inputs"], "all option combinations per language x message shapes",
     "Options are tested one at a time, mostly by compiling.",
     ["beschi/cli.py", "beschi/writer.py"] + ALLW, [("extra arguments", "beschi/writer.py")], ["generated libraries' behaviour"])
prop("C17", "Message tags number the messages in order, up to 255 of them",
     "The tag of a message is its position among the declared messages, counting from one, in every language, for every number of messages from one to 255; a message written with a tag is recognised as the same message type by stream processing. Enums, structs and their order do not influence tags.",
     ["programs", "inputs"], "protocols with 1..255 messages, all 256 tag bytes",
     "No test has more than a few messages.",
     ALLW + ALLB, [("message type enumeration and dispatch", W)], ["tag byte written; type of the message processed"])
prop("C18", "Operations do not influence each other",
     "The result of an operation of a generated library depends only on its arguments: it is the same whatever operations were performed before, also failed ones, and whichever other operations on other messages and buffers it is interleaved with.",
     ["histories", "schedules"], "all ordered pairs (and longer sequences) of operations in one process; all interleavings of several stream readers",
     "Tests perform every operation once, in a fixed order, never interleaved.",
     ALLW + ALLB, [("absence of shared mutable state", B)], ["all entry points"])
prop("C19", "Results do not depend on how a stream delivers its bytes",
     "In the languages that read from streams (Go, C#), reading gives the same result however the stream divides the bytes into chunks; a stream that fails or ends in the middle of a message makes the operation report an error.",
     ["schedules", "fault_sequences", "inputs"], "all divisions of short encodings into chunks, all constant chunk sizes for longer ones, a failure at every byte",
     "Tests read from memory or files only, which deliver everything at once.",
     [W + "go.py", W + "csharp.py", B + "Go.go", B + "CSharp.1.cs"], [("readers", B)], ["FromBytes", "ProcessRawBytes", "UnpackMessages"])
prop("C20", "Any language reads what any other language writes",
     "For every protocol and message value, the bytes (message, stream or pack) written by the library generated for one language are read by the library generated for every other language as the same value.",
     ["programs", "inputs", "configurations"], "all ordered pairs of languages x protocols x values",
     "Tests exchange a few files between languages.",
     ALLW + ALLB, [("writers", W)], ["bytes written by one, value read by another"])
prop("C21", "The order of declarations does not matter, except of messages",
     "Reordering the structs and enums of a protocol, or declaring them before or after what uses them, changes neither whether it is accepted, whether the generated code compiles, nor the bytes written and read for any message.",
     ["programs", "configurations"], "all permutations of the declarations of small protocols",
     "Tests declare structs before use in one order.",
     ["beschi/protocol.py"] + ALLW, [("declaration handling", "beschi/protocol.py")], ["generated libraries' behaviour"])

open("properties.jsonl", "w").write("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
