#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = " Trusts the reference model in mc/src (rv.rs, spec.rs, items.rs), which states AMQP 1.0 independently of the library, and holds within the alphabets and bounds of DESIGN.md."
C = {
"C01": ("bounded-exhaustive enumeration of inputs to the real decoders, with allocation accounting and an execution watchdog",
        "Every byte string to 3 bytes, every one-byte (and a set of two-byte) corruption, cut and extension of valid encodings, every size/count/content combination of the alphabet, guided extension of strings the decoder asks to continue; panics, aborts, hangs and allocation beyond a linear bound are violations."),
"C02": ("bounded-exhaustive enumeration of value trees through encode and decode of the real code", "All small integers, all boundary scalars, all sizes around 1-byte/4-byte limits, all value trees to 4 nodes, composites within 2 deviations."),
"C03": ("bounded-exhaustive enumeration of frames through encode and decode of the real code", "All performatives and SASL bodies, all subsets of optional fields, all channels, field values within 2 deviations."),
"C04": ("explicit-state exploration of builder histories and enumeration of section sequences against a reference message model", "All operation histories to depth 3, all reachable model states to depth 5, all shapes to 6 parts, operations inside closures, all wire messages over the section alphabet."),
"C05": ("explicit-state exploration of build/measure/encode histories plus bounded-exhaustive enumeration of values, bytes walked by an independent parser", "Announced size against bytes written, and every inner size and count against the bytes."),
"C06": ("exhaustive enumeration of chunkings and polls of the stream codec's state machine against a reference splitter", "Every chunking of short streams, all placements of up to three cuts in longer ones, polls at every step; two and three streams side by side in every interleaving."),
"C07": ("exhaustive enumeration of streams mixing good and bad frames, with cuts, against a reference stream model", "All positions and kinds of bad frames in streams of three frames, every cut, every chunking of short streams."),
"C08": ("exhaustive enumeration of protocol headers and chunkings", "All headers that differ from a valid one in at most two bytes, all chunkings, all following bytes of the alphabet."),
"C09": ("bounded-exhaustive enumeration of values and of every cut of their encodings", "All strict prefixes of library and alternative encodings."),
"C10": ("bounded-exhaustive enumeration with an independent AMQP 1.0 decoder as reference model", "Bytes of all enumerated values, frames and messages are parsed by an independent decoder and compared in content."),
"C11": ("bounded-exhaustive enumeration of a peer's encoding choices, generated by an independent encoder", "All combinations of alternative encodings within the deviation bound."),
"C12": ("exhaustive enumeration of absent-field patterns of all composites", "All subsets of null fields and all truncations of the field list, also inside nested composites."),
"C13": ("bounded-exhaustive enumeration of declared sizes, counts, contents and following bytes against a reference window model", "All short byte strings to compound decoders, all small size/count/content combinations, nested windows."),
"C14": ("exhaustive enumeration of pairs and triples of texts and values against text-only reference equality", "Pairs and triples over the alphabet of representations; hash, order and map lookup."),
"C15": ("exhaustive enumeration of buffer contents, capacities and item sequences", "All frames of the alphabet into buffers of every prefix and spare capacity of the alphabet, around the watermarks."),
"C16": ("explicit-state exploration of builder histories against a reference message model", "All histories to depth 3, reachable states to depth 5, all shapes to 6 parts, operations inside closures, look-alike keys, replies to every kind of id."),
"C17": ("explicit-state exploration of builder histories interleaved with observations", "All histories with measuring, encoding, cloning, comparing at any point; equality and bytes compared with an untouched twin; all pairs of independently built messages to 3 parts."),
"C18": ("exhaustive enumeration of type codes, descriptors, enumeration values, frame types and texts against the schema", "All 65536 first two bytes for every decoder, all descriptors of the alphabet, all 32-bit numbers to 0x11ffff as characters (thorough: all), all texts to 3 bytes."),
"C19": ("bounded-exhaustive enumeration of instants against independent calendar arithmetic", "One instant (thorough: sixteen) of every day the calendar can represent, every second and millisecond around the boundaries, all boundary 64-bit counts."),
"C20": ("exhaustive enumeration of I/O fault schedules (short, not-ready, end of stream) under a controlled transport", "All schedules within the deviation bound, all end-of-stream positions."),
"C21": ("exhaustive enumeration of distinguishing field values over accessors and conversions", "All composites, all fields, all subsets of optional fields."),
"C22": ("differential exploration: every enumerated execution is run against the checked-in and against the regenerated definitions", "The generator is run under a controlled hash seed until every order of its items has been written; the outputs are the same items, and the harness compiled against them is compared, execution by execution, with the harness compiled against the checked-in tree: composite values within 2 deviations, all subsets of absent fields, field values of every type, all one-byte damages of valid encodings, all first bytes, descriptors and enumeration texts of the alphabets."),
"C23": ("exhaustive enumeration of operation sequences on unrelated objects, of in-place replacements and of interleaved connections, on the real code", "All pairs of some 700 items in all their ways, all sequences of three to six operations over smaller alphabets, all look-alike texts in pairs, all histories of two places and of fifteen containers to depth 4, all interleavings of two connections to six steps, thousands of refusals before each operation; a violation is confirmed in fresh processes with its minimised history."),
"C24": ("exhaustive enumeration of inputs with exactly one defect against a table of the errors they must produce, on the real code", "Every wrong type code, descriptor, enumeration value, character, timestamp, invalid text, missing field, size and frame header, at every place of every type, through every decoder that can meet it; errors by themselves with their clones and texts."),
}
checks = []
for k in sorted(C):
    t, n = C[k]
    checks.append({"property": k, "quick_cmd": f"./check.sh {k} quick", "thorough_cmd": f"./check.sh {k} thorough",
                   "evidence_file": f"evidence/{k}.json", "technique": t, "level": "model_checking", "level_note": n + TRUST})
NA = []
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": NA,
     "notes": "Stateless and explicit-state exploration of the unmodified library under a driver that owns every choice. No hooks in /repo. Findings in known_findings.txt. VERIF_SEED is not used: nothing is random."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
