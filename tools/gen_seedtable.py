#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# What a check had to learn because it missed a change at first.
MISSED = {
    "c20-heading-in-used-buffer": "names written into used buffers",
    "c16-outline-of-a-rectangle": "families of related operations on related operands",
    "c29-last-byte-per-thread": "work on something else while writers are open",
    "c01-free-link-lookahead": "long runs of numbers behind gaps of every width",
    "c05-borrowed-primitives-unpadded": "primitives by reference as well as by value",
    "c09-exponent-at-1e13": "leading-digit patterns of every decade",
    "c13-empty-chunk-limits": "limits merged into chunks that hold no objects",
    "c13-layout-adopted": "a layout per chunk and objects compared with those of a chunk of their own",
    "c14-paren-depth-byte": "parentheses nested beyond 255 in strings between references",
    "c05-typed-items-by-hint": "iterators that announce their length in four ways",
    "c25-lazy-names-by-hint": "iterators that announce their length in four ways",
    "c10-day-by-month": "all months and days of all years",
    "c15-limits-skipped-in-unwinding": "exploring the plain build inside a destructor during unwinding",
    "c29-brief-while-unwinding": "exploring the plain build inside a destructor during unwinding",
    "c04-file-id-digest-size": "identifiers of many lengths",
    "c22-media-box-limited": "rectangles over the wide numeric domain",
    "c23-process-names-shortened": "lists holding one element of the wide domain",
    "c29-nested-writers-share-indent": "probes after unrelated work in the same thread",
}
if os.path.exists(os.path.join(here, "tools/missed.json")):
    MISSED.update(json.load(open(os.path.join(here, "tools/missed.json"))))
rows = ["| change | needs | caught by |", "|---|---|---|"]
n = 0
for id in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", id, "meta.json")))
    note = f"{m['property']}, after adding: {MISSED[id]}" if id in MISSED else m["property"]
    rows.append(f"| {id} | {m['needs'].replace('|', '/')} | {note} |")
    n += 1
first = n - sum(1 for k in MISSED)
text = f"""## Planted changes and what catches them

Every change below compiles, passes the 35 tests, and is confirmed by its own
demonstration (`tools/confirm.sh`). All {n} are caught by the quick check of their
property; {first} of them were caught by the check as it stood when they were planted,
the others led to the additions named.

""" + "\n".join(rows) + "\n"
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
s = s[: s.index("## Planted changes and what catches them")] + text
open(p, "w").write(s)
