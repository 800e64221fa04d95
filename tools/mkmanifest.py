#!/usr/bin/env python3
"""Source of MANIFEST.json (run from /verif: python3 tools/mkmanifest.py)."""
import json, os
TRUST = "Trusts the reference codec in mc/model.py (a transcription of the documentation), the drivers in mc/langs and the toolchains. "
T = {
 "C01": ("exhaustive bounded enumeration of model encodings, each replayed on the generated code", "model_checking", TRUST + "Bounded: at most one member (thorough: two) deviates from a base value at a time, plus boundary lengths."),
 "C02": ("exhaustive bounded enumeration of model encodings, each replayed on the generated code", "model_checking", TRUST + "Bounded as C01."),
 "C03": ("exhaustive enumeration of list lengths by depth, UTF-8 widths and packs; replay on the generated code", "model_checking", TRUST + "List lengths 0..2 at three depths (thorough 0..4), strings up to 3 (4) characters, boundary lengths."),
 "C04": ("enumeration of every cut and every over-announced length; replay on the generated code", "model_checking", TRUST + "Base values (thorough: all single deviations); negative list lengths unspecified."),
 "C05": ("enumeration of all enum encodings in every position; replay on the generated code", "model_checking", TRUST + "All values of byte and int16 enums, aliases and bit flips of int32 ones."),
 "C06": ("explicit-state exploration of the stream reader: all unit sequences x limit sequences, traces replayed", "model_checking", TRUST + "Streams of up to 4 (5) units over 9 unit kinds, 18+ limit plans, streams of up to 300 messages."),
 "C07": ("explicit enumeration of packs and of single corruptions of packs, traces replayed", "model_checking", TRUST + "Packs of up to 3 (5) messages over 6 kinds, long packs, all single-byte header corruptions, cuts, counts."),
 "C08": ("enumeration of all message shapes; defaults of the model compared with the generated code", "model_checking", TRUST + "All shapes of the universe."),
 "C09": ("exhaustive fault enumeration: every allocation of every operation on every shape fails once, under AddressSanitizer/UBSan and a counting allocator", "model_checking", TRUST + "Single allocation failures; both kinds of malloc(0); base values and all cuts."),
 "C10": ("exhaustive fault enumeration: every allocation of every reading operation fails once, with a counting allocator", "model_checking", TRUST + "Single allocation failures; base values and all cuts."),
 "C11": ("enumeration of every destination capacity for every message shape and pack; replay on the generated code", "model_checking", TRUST + "C, C++ and TypeScript, the languages in which the caller provides a bounded destination."),
 "C12": ("exhaustive enumeration of containment graphs, rule violations x positions and pairs of changes against a specification of validity", "model_checking", "Trusts the specification of validity in mc/checks/c12.py (a transcription of the documented rules). All digraphs of up to 4 structs, cycles of up to 6 in every order, all listed violations at every position."),
 "C13": ("exhaustive enumeration of failing inputs x languages x destinations and of output-device faults, each run as a real process", "model_checking", "The specification is in mc/checks/c13.py. All listed kinds of failures, every destination kind, write faults at every 1024th (thorough 128th) byte; file-size limits stand for full devices."),
 "C14": ("exhaustive exploration of generation histories in one process against outputs of fresh processes", "model_checking", "All ordered pairs (thorough: triples) of generations; hash seeds, directories, locales; repeated generation from one Protocol object."),
 "C15": ("exhaustive enumeration of protocol shapes within bounds, each compiled by the real compilers", "model_checking", "The oracle is the compiler (gcc, clang in thorough, g++, Go, rustc, tsc, csc, zig). All member kinds and pairs, all size-type pairs, empty and unused declarations, name forms. Swift and AssemblyScript have no compiler here."),
 "C16": ("enumeration of all combinations of the generation options; the model's traces replayed on each build", "model_checking", TRUST + "Option combinations complete on a small protocol, selected on rich ones; single deviations of values, all cuts."),
 "C17": ("enumeration of message counts 1..255, layouts and permutations with all tag bytes; traces replayed on the generated code", "model_checking", TRUST + "12 (thorough 39) message counts with all 255 tags each, all section layouts, all orders of four messages."),
 "C18": ("explicit exploration of operation sequences (de Bruijn) and of all interleavings of several readers, traces replayed", "model_checking", TRUST + "All words of 2 (3) operations over an alphabet of 20; all schedules of 2-3 stream readers of bounded length."),
 "C19": ("exhaustive enumeration of chunkings and of stream faults at every byte, replayed on the generated readers", "model_checking", TRUST + "All divisions of encodings of up to 9 (13) bytes, single and double cuts of longer ones, a fault at every byte in six modes. Go and C#, the languages reading from streams."),
 "C20": ("enumeration of values; bytes produced by every implementation replayed as input of every other", "model_checking", "The drivers in mc/langs and the toolchains are trusted; the bytes are the implementations' own. All 49 ordered pairs of 7 languages; single (thorough: double) deviations, boundary lengths."),
 "C21": ("enumeration of all declaration orders of small protocols: acceptance of each, behaviour of each compiled build compared with the model", "model_checking", TRUST + "All 24 orders of four structs in several containment graphs (thorough: all DAGs of 3), all enum orders and section layouts; acceptance also for all orders of 5 (6)."),
}
NA = {}
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
extra = json.load(open("tools/manifest_extra.json")) if os.path.exists("tools/manifest_extra.json") else {}
for k, v in extra.get("checks", {}).items():
    T[k] = (v[0], v[1], (TRUST if v[2].startswith("+") else "") + v[2].lstrip("+"))
NA.update(extra.get("na", {}))
checks = [{"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough", "evidence_file": f"evidence/{i}.json",
           "technique": T[i][0], "level": T[i][1], "level_note": T[i][2]} for i in ids if i in T]
na = [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in T]
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the checks drive the unmodified generator and the code it generates. See DESIGN.md."}, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
