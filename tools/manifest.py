#!/usr/bin/env python3
"""Writes MANIFEST.json; the notes per property are here."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "bounded explicit-state enumeration on the real crate against a reference model"
EV = "Every execution of the spaces named in the evidence file was run on the real code, in a build with overflow and debug checks and in an optimized one; nothing is sampled. Says nothing outside the stated alphabets and bounds. Trusts rustc, serde and the reference model (mc/src/model.rs, written from the format's documentation, sharing no code with the crate)."
N = {
 "C01": (MC, "model_checking", "all type shapes to depth 3 over small alphabets with their values, all lengths to 5,000 and around powers of two, all char, u8..i16 values, enum variants and tuple widths across their varint boundaries. " + EV),
 "C02": (MC + " (byte-for-byte)", "model_checking", "the spaces of C01, every encoding compared byte for byte with the model's. " + EV),
 "C03": (MC, "model_checking", "all 16-bit values and encodings, blocks of 32- and 64-bit values around every power of two and bit pattern, all first bytes with following bytes. " + EV),
 "C04": (MC + " (hostile input trees)", "model_checking", "every byte string that is a prefix of something decodable, to per-type depths over alphabets of critical bytes, and every mutation (each byte to each value, deletion, insertion) of valid encodings; a panic, hang or abort is a violation, a value where the model has none too. " + EV),
 "C05": (MC + " with a counting allocator", "model_checking", "every claimed length or count from a ladder of sizes to 2^64-1 at every length position of the types, with the peak memory of the real decoder measured. " + EV),
 "C06": (MC + ", every cut point", "model_checking", "every proper prefix of every encoding of C01's spaces, and of headers and bodies. " + EV),
 "C07": ("exhaustive fault enumeration at the reader, deviation-bounded", "fault_enumeration", "every history of short reads, interruptions, errors and early ends with at most 2 (thorough 3) deviations from full delivery. " + EV),
 "C08": ("exhaustive fault enumeration at the writer, deviation-bounded", "fault_enumeration", "every history of short, interrupted, refused and failing writes with at most 2 (thorough 3) deviations, and every capacity of a bounded buffer. " + EV),
 "C09": (MC + " over operation sequences", "model_checking", "all sequences of up to 3 (thorough 4) values of 17 kinds through one serializer and one reader, repetitions, ends and failures. " + EV),
 "C10": (MC, "model_checking", "all header trees to depth 3, all byte strings over the codes grown while they are prefixes, all counts across varint and u16 boundaries. " + EV),
 "C11": (MC, "model_checking", "every built-in type that has a header, and their compositions, with their values. " + EV),
 "C12": ("exhaustive enumeration of generated derive inputs, compiled and run", "model_checking", "every struct and enum shape to the stated number of fields and variants, with every placement of serde's skip attributes, is generated, compiled with the real derive and run: the header must be the one the enumerator predicts and describe the encoded values. Trusts rustc and serde_derive."),
 "C13": (MC + " (dynamic and static decoder in lock step)", "model_checking", "all header trees to depth 3 with their values and all byte strings to per-type depths: both decoders must accept and refuse alike. " + EV),
 "C14": (MC, "model_checking", "all pairs of header and body trees to the stated depths, every position of tuples, maps and arrays, every variant index. " + EV),
 "C15": (MC, "model_checking", "every calendar date the time crate has, every encoded year and day around the edges, all 65,536 encoded days for sample years. " + EV),
 "C16": (MC, "model_checking", "instants of every day, both ends of the range to the second and nanosecond, every minute of UTC offset, encoded pairs at all boundaries. " + EV),
 "C17": (MC, "model_checking", "all 20-bit integers, all values around every power of two to 2^2100, all lengths to 4,096 bytes, byte patterns. " + EV),
 "C18": (MC, "model_checking", "all mantissas and scales in a square around 0 and at the ends, every equal pair of forms, encoded forms with redundant bytes and digits. " + EV),
 "C19": (MC + " over the calls of the serde data model", "model_checking", "every call sequence to depth 3 of a serde Serializer (and Deserializer request) that the format has no form for, at every position. " + EV),
 "C20": (MC, "model_checking", "all byte strings to length 3 (thorough 4, over class representatives) as text, every byte at every position of longer text, all scalar values. " + EV),
 "C21": ("stateless exploration of thread interleavings of the real code under a controlled scheduler", "model_checking", "25 programs in pairs and triples: every interleaving of their reader and writer calls within bounds, one preemption (thorough two, for the short ones) at every control-flow edge of the compiled crate, nesting on one thread, sequences and repetitions; each must do what it does in a process of its own. Trusts the compiler's edge instrumentation."),
 "C22": ("exhaustive enumeration of the 32 feature configurations, transcripts compared", "model_checking", "all 2^5 feature sets are built and run over one deterministic enumeration of encodings, decodings, headers and refusals (about 1,000,000 executions each); what exists in several sets must behave the same in all of them. Each set is also built by a crate that depends on nothing else. Trusts rustc and cargo."),
 "C23": ("exhaustive enumeration replayed on other targets, compiled (wasm32) or interpreted (s390x), transcripts compared", "model_checking", "a deterministic enumeration of encodings, decodings, headers and refusals is run natively, compiled for a 32-bit platform (wasm32, run by node), and interpreted by Miri for a big-endian one (s390x; thorough also i686 and powerpc); the transcripts must be equal. The interpreted part is small (9,500 executions). Trusts rustc's wasm32 backend, node and Miri."),
 "C25": (MC + " over the calls of the serde data model, and of I/O faults", "model_checking", "16 kinds of refusal, made 7 ways while writing and of 22 kinds of value while reading, at every kind of position to depth 2 (thorough 3); readers and writers that fail with each of 12 kinds, or end, after each byte. " + EV),
 "C26": (MC, "model_checking", "every pair of about 600 dates, 1,900 date-times (in six offsets), 1,200 big integers and 2,000 decimals. " + EV),
 "C24": ("exhaustive enumeration of generated derive inputs, compiled", "model_checking", "every placement of every attribute or shape a header cannot describe is generated and compiled; each must be refused by the derive itself, and each permitted neighbour accepted. Trusts rustc's diagnostics."),
}
UNBUILT = []
checks = []
for p, (t, l, n) in N.items():
    if p in UNBUILT:
        continue
    checks.append({"property": p, "quick_cmd": "VERIF_TIER=quick python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                   "evidence_file": "evidence/%s.json" % p, "technique": t, "level": l, "level_note": n})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks,
     "not_applicable": [{"property": p, "reason": "check under construction"} for p in UNBUILT],
     "notes": "No hooks: everything is checked through the crate's public interface. Known findings and repairs: known_findings.txt. Every check rebuilds from /repo's working tree into /verif/.build."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
