#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EX = "exploration"
ENUM = "exhaustive enumeration of small spaces plus "
T = {
 "C01": ("enumeration of windows around every boundary plus random values against an arithmetic reference encoder (round trip, minimality, order)", EX,
         "Every value below 1,000,000 and windows around every size boundary and power of two are enumerated; the rest of the 64-bit space is sampled."),
 "C02": ("differential fuzzing of the three ILInt decoders against a reference decoder over enumerated and random byte strings", EX,
         "All one- and two-byte headers and all values around 2^64-1 are enumerated; other byte strings are sampled. Overflow checks are on, so a wrapped value is a panic."),
 "C03": ("property-based testing of the signed mapping (bijection, round trip, routes) against 128-bit arithmetic", EX,
         "Windows around 0, the size boundaries, i64::MIN and i64::MAX are enumerated; the rest is sampled."),
 "C04": ("stateful property-based testing: sequences of mixed values written and read through randomly chosen routes, against to_be_bytes", EX,
         "All 8- and 16-bit values and all short UTF-8 sequences are enumerated, wider values are sampled over every route and kind of reader."),
 "C05": ("model-based testing: a reference encoder written from the format against the library over generated tag trees and writers", EX,
         "Random trees of every type with default and custom identifiers, all identifiers below 70,000 per type enumerated over minimal values. Trusts the reference encoder."),
 "C06": ("invariant over generated mutation histories: announced sizes against the bytes written and the reference encoder", EX,
         "Sampled histories over every tag type."),
 "C07": ("round-trip property over generated tag trees, eight kinds of readers, concatenations and trailing data", EX,
         "Sampled trees; readers include ones that split and interrupt transfers."),
 "C08": ("differential fuzzing of the decoder against an independent reference decoder over enumerated short inputs, mutated encodings and structured noise", EX,
         "Every input of up to two bytes is enumerated, three bytes sampled (all in the thorough tier); structured inputs are sampled. One known finding (stack overflow at extreme depth) is probed in a process of its own."),
 "C09": ("metamorphic: every cut position and generated tails of generated encodings must be refused, on every kind of reader", EX,
         "All cut positions of each generated encoding up to a few hundred bytes, sampled positions in longer ones."),
 "C10": ("fault-injecting generation: every length and count of an encoding is replaced by wrong ones, compared with the reference decoder", EX,
         "Every length/count site of each generated encoding, with several wrong values each; several sites at once sampled."),
 "C11": ("generated oversized declarations at every nesting level, with an allocator that measures the peak and the largest request", EX,
         "The bound checked is 512 MiB plus a small multiple of the input; allocation is measured per thread by the global allocator of the harness."),
 "C12": ("model-based stateful testing of dictionaries against an ordered map, with permutations and cross decoding", EX,
         "Sampled histories; every instance has its own hash seed, so the order of the process is varied too."),
 "C13": ("model-based stateful testing of registries against a map of marked creators", EX,
         "Sampled histories over identifiers that coincide in their low bits; every identifier below 66,000 is looked up."),
 "C14": ("differential stateful testing: decoding into dirty instances against decoding afresh and the reference decoder", EX,
         "Sampled histories of good and failing decodes into one instance."),
 "C15": ("relational properties over generated pairs and triples (equality versus encodings, clones) with independence checked by mutation", EX,
         "Sampled pairs, among them different implementations with the same encoding and tags that cannot be serialized."),
 "C16": ("differential fuzzing of the raw scanner against a reference scanner, over arrays, streams and sparse streams beyond 4 GiB", EX,
         "Every two-byte input is enumerated; sparse streams place tags beyond 2^32 and near 2^64."),
 "C17": ("model-based stateful testing of the in-memory readers, and a grid of all small sizes and counts", EX,
         "A grid of data lengths, positions and counts is enumerated; long histories are sampled."),
 "C18": ("model-based stateful testing of the in-memory writers against a model of a random-access file", EX,
         "Sampled histories for each writer."),
 "C19": ("model-based stateful testing of nested limited readers against a budget model", EX,
         "Sampled histories up to several levels of nesting over eight kinds of readers."),
 "C20": ("model-based stateful testing of the std::io adapters over adversarial streams (short, interrupted, failing, huge)", EX,
         "Sampled histories over synthetic streams, cursors and real temporary files; positions up to 2^63."),
 "C21": ("fault enumeration: every operation and every byte of a decode, scan or encode fails in turn, over generated tags", "fault_enumeration",
         "All the fault points of each generated subject up to a limit, sampled points beyond; seven kinds of errors, partial transfers included."),
 "C22": ("property-based testing with programmable payloads (amount read, errors, nested use of the factory) against a model of the contract", EX,
         "Sampled payload behaviours, alone and nested in standard containers."),
 "C23": ("cost measurement: calls of instrumented nested tags counted against a polynomial bound over generated nestings, and processor time of generated wide values against eight times wider ones", EX,
         "Work is counted in calls of leaf tags and bytes written over nestings of depth up to 128; the cost per element is judged by time, with a margin of five."),
 "C24": ("model-based stateful testing of constructors, setters and in-place mutation of every tag type", EX,
         "Sampled histories; the model is the plain value last set."),
 "C25": ("exhaustive matrix of types and identifiers plus random ones for every downcast and assertion; enumeration of small identifiers", EX,
         "30 types by 30 requested types by identifiers that differ in few bits; every identifier below 200,000 classified."),
 "C26": ("metamorphic stateful testing: the outcome of each operation in random histories and threads against its outcome alone and the reference", EX,
         "Histories, thousands of repeated failures, chosen interleavings at the calls of readers and writers, and real threads; elsewhere the schedules are those of the system."),
 "C27": ("differential testing of offsets mapped through generated nestings against the reference, with arithmetic at the limits", EX,
         "Sampled nestings and sampled pairs of offsets around every limit."),
 "C28": ("differential testing of the direct string functions against the string tag and the reference", EX,
         "Every length below 70,000 is measured and sampled strings and damaged encodings are read."),
 "C29": ("fault and corruption injection: one thing wrong in generated nested encodings, marked errors of readers, writers, streams and payloads, the error kind against that of the cause", "fault_enumeration",
         "One sampled cause per case; which of the end-of-data kinds a cut gives is left open."),
 "C31": ("counting and timing of decodes: operations of the reader, tags created and allocations against a multiple of the input over generated hostile inputs, and time of n against 8n elements", EX,
         "Sampled inputs, nested up to 200 levels; a counter that passes its bound stops the decode."),
 "C32": ("fault injection with recording sources and sinks over generated tags and routes: requests after the last byte or after a failure", "fault_enumeration",
         "Sampled tags and failures, several per tag; all routes of each tag on a source that holds exactly it."),
 "C30": ("stateful testing with a counting allocator: generated histories of good and failing operations repeated, live bytes compared", EX,
         "Sampled histories, up to 200 repetitions; memory of other threads is not counted."),
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
ids = [p["id"] for p in props]
assert set(T) == set(ids), set(T) ^ set(ids)
checks = []
for i in ids:
    t, l, n = T[i]
    checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                   "technique": "property-based testing and fuzzing: " + t + ("" if i == "C26" else "; then coverage-guided search over the same generators"), "level": l, "level_note": n})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks are needed in /repo: everything the checks use is public. Repairs are recorded in known_findings.txt. See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
