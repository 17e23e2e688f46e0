#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property that has a binary."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {  # what is enumerated, and what decides
 "C01": ("all object histories over small number pools, gaps, kinds and sizes", "the independent reader's view of the cross-reference table"),
 "C02": ("all object histories and stream-number positions, offsets across field-width boundaries, filters", "the independent reader's view of the cross-reference stream"),
 "C03": ("all object-number sequences with every repetition pattern and finishing mode", "the set of numbers used"),
 "C04": ("all sequences of document-level calls interleaved with objects", "a last-writer-wins model of header and trailer"),
 "C05": ("all value trees, token adjacencies and nesting patterns within bounds", "structural equality after reading back"),
 "C06": ("all byte strings within bounds, in every position", "byte equality after reading back"),
 "C07": ("all code points, short texts, segment lists and language tags", "equality of code points after decoding"),
 "C08": ("all names within bounds, in every position and before every token kind", "byte equality after reading back"),
 "C09": ("all integers and floats (thorough), all boundary ones (quick)", "exact value and decimal syntax"),
 "C10": ("all call histories on a date within bounds over boundary components", "a prefix-and-clamp model of the date"),
 "C11": ("all programs of writing calls within bounds, each run in both layouts", "equality of the two parsed results"),
 "C12": ("all stream data, dictionary entries and filters within bounds", "exact framing, length and data"),
 "C13": ("all splits, interleavings and concatenation nestings of object histories", "the document written directly"),
 "C14": ("all chunks within bounds under all mappings within bounds", "the value-level substitution of references"),
 "C15": ("all write histories within bounds, checked after every completed write", "the extremes of a reference model"),
 "C16": ("all sequences of content operations within bounds over all operations and boundary operands", "the operation list of the imaging model"),
 "C17": ("all sequences of save, restore and other operations within bounds", "a counter model, after every call"),
 "C18": ("all mapping sequences within bounds, section boundaries and special names", "an independent CMap parser and the list of mappings"),
 "C19": ("all calculator programs within bounds", "equality after parsing back"),
 "C20": ("all roles, levels and options", "the role tables of the two standards"),
 "C21": ("all call sequences within bounds on every interactive-feature writer with boundary arguments", "the entry tables of the documentation"),
 "C22": ("all call sequences within bounds on every document-structure writer with boundary arguments", "the entry tables of the documentation"),
 "C23": ("all call sequences within bounds on every font, colour, image and resource writer with boundary arguments", "the entry tables of the documentation"),
 "C24": ("all flag sets and all variants of all enumerations", "the bit and keyword tables of the specification"),
 "C25": ("all entry sequences within bounds of every ordered collection", "the list of entries"),
 "C26": ("all call sequences within bounds on Separation and DeviceN writers", "the call-order automaton"),
 "C27": ("all argument values at and around every documented boundary, from all earlier states within bounds", "the documented permitted sets"),
 "C28": ("all ways and points to end nested writers, a panic injected at every call", "the output of finishing normally at that point"),
 "C29": ("all call histories within bounds under all capacity, reservation, move and clone choices", "prefix-monotonic bytes, equal outputs"),
}
checks, na = [], []
for l in open(os.path.join(root, "properties.jsonl")):
    i = json.loads(l)["id"]
    if os.path.exists(os.path.join(root, "mc/src/bin", i.lower() + ".rs")):
        what, oracle = T[i]
        checks.append({
            "property": i,
            "quick_cmd": f"bash check.sh {i} quick",
            "thorough_cmd": f"bash check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": f"stateless explicit enumeration of bounded call histories on the real code: {what}; every execution compared with {oracle}",
            "level": "model_checking",
            "level_note": "Exhaustive within the bounds reported in the evidence; every execution runs the real crate built from /repo (optimised, overflow and debug checks on). Trusts the independent PDF reader and reference model in mc/src. Nothing is sampled.",
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1,
  "setup_cmd": "bash setup.sh",
  "checks": checks, "not_applicable": na,
  "hooks": {"guard": "pdf_writer_verif",
    "enable": "RUSTFLAGS=\"--cfg pdf_writer_verif\" with target directory /verif/target/hook (set by setup.sh and by check.sh for C14 only)",
    "source_commits": ["0a09902"]},
  "notes": "One hook (Chunk::raw_object, used by C14 to feed the renumbering scanner bytes no typed call writes); all other checks drive the public API of the unmodified crate. Findings and repairs are listed in known-findings.txt."},
  open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
