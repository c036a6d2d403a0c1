#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification checked with TLC; "
REPLAY = T + "TLC-generated cases replayed in freshly generated code, outcomes checked against the specification by trace conformance (TLC)"
TRUST = " Trusted: TLC, the compilers, the per-language drivers that translate between API values and specification values. Swift and AssemblyScript, which have no toolchain here, are executed in translation, by the checks of C21 and C20."
CLAIM = {
 "C01": (REPLAY, "Wire model checked exhaustively in small scope (MCCodec); bytes written by each of 7 languages read back by all 7; TLC compares with the value it generated."),
 "C02": (REPLAY, "Bytes of every write compared by TLC with the specification's encoder; encoder/decoder inverse checked exhaustively in small scope."),
 "C03": (REPLAY, "Reported sizes compared with the written length and the specification's size function."),
 "C04": (REPLAY, "Every cut position of every generated message; the model shows that every proper prefix is invalid."),
 "C05": (REPLAY, "Enum numbers substituted at every enum position found by the specification's decoder; expected outcome from the same decoder."),
 "C06": (REPLAY, "Tagged streams with limits, terminators and faults; expected outcome from the specification's stream machine."),
 "C07": (REPLAY, "Containers packed by every language compared byte for byte; altered containers judged by the specification's unpack machine."),
 "C08": (REPLAY, "Tags, constants and dispatch for protocols of 1..255 messages."),
 "C09": (REPLAY, "Fresh messages of every creation style read field by field and encoded."),
 "C10": (T + "documents enumerated around the border of acceptance by DocGen are given to the real command line; outcomes checked against the acceptance predicate of WellFormed by trace conformance (TLC)", "Every alteration of a catalogue applied at random positions of random and curated protocols, singly and in combination; all eight generators."),
 "C11": (T + "all graphs of small size and families of large ones (Graphs) given to the real loader and command line; outcomes checked against WellFormed by trace conformance (TLC)", "All 19764 labelled graphs on up to three structs with absent, direct and list edges, exhaustively; families of long chains, cycles, diamonds, dense graphs at random. The model's acyclicity is checked against topological order as an invariant."),
 "C12": (T + "every shape of protocol enumerated by Shapes and every configuration of Options generated and compiled; outcomes checked against WellFormed (accepted implies built) by trace conformance (TLC)", "All ordered pairs of member kinds in structs and messages, all pairs of size types, all declaration orders of nested chains, degenerate protocols, enum ranges, random protocols. Swift and AssemblyScript (no toolchain) are looked at by the translations of C21 and C20."),
 "C13": (T + "sessions of invocations generated from Cli replayed in separate processes and in one; each step checked as a step of Cli by trace conformance (TLC)", "Sessions with faults, pre-existing outputs, all spellings of options; the model's invariants are checked exhaustively for three invocations (quick) or four (thorough)."),
 "C18": (T + "configurations enumerated by Options; the code of each is built, TLC-generated cases replayed in it, outcomes checked against the option-free specification by trace conformance (TLC)", "60 of the 192 configurations per quick run, all of them in the thorough one, over protocols of all shapes." + TRUST),
 "C14": (REPLAY, "Allocation log and AddressSanitizer over generated API calls and failing inputs."),
 "C15": (REPLAY, "Every allocation of every generated call failed once; report, leaks and a repeated call judged by the specification."),
 "C16": (REPLAY, "All writes with too little room (and exact room) with canaries around the buffer; session model checked exhaustively."),
 "C17": (REPLAY, "Sessions of writes and reads at generated offsets and views replayed as steps of the Session specification."),
 "C20": (REPLAY, "All of the above for AssemblyScript: the generated code is translated to JavaScript with its integer types enforced (there is no AssemblyScript compiler here), the same cases are replayed in it, and outcomes are judged by the specification with the enum rule of that language (Lax). Code that the translation does not know is not run, and not judged."),
 "C21": (REPLAY, "All of the above for Swift: the generated code is translated to JavaScript with Swift's integer types, traps, value semantics and Foundation's Data (there is no Swift compiler here), the same cases are replayed in it, and outcomes are judged by the specification. Code that the translation does not know is not run, and not judged."),
 "C19": (REPLAY, "Encodings with every length prefix replaced by border values, bits flipped, pieces cut and noise; expected outcome from the specification's decoder."),
}
NA = {}
m = {"version": 1, "setup_cmd": "true",
     "checks": [{"property": p, "quick_cmd": f"bin/check {p} --tier quick", "thorough_cmd": f"bin/check {p} --tier thorough", "technique": t, "level": "model_checking", "level_note": n + (TRUST if t == REPLAY else "")} for p, (t, n) in sorted(CLAIM.items())],
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items()) if p not in CLAIM]}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
