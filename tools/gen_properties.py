#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as data here so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, obs=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": obs or ["bytes of the finished document, read by an independent parser"], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Cross-reference table locates every object",
  "For every set of indirect objects written in any order, with any gaps between their numbers and at any byte distance, the finished file's cross-reference table has exactly one 20-byte entry per number from 0 to the highest number used, and each entry of a written object gives the exact byte offset at which that object's 'N G obj' header starts. All unused numbers, headed by number 0 with generation 65535, form one circular, ascending linked list of free entries. The trailer's size is the highest number plus one and the start-of-xref pointer is the byte offset of the table.",
  ["histories", "inputs"], "all orders and subsets of object numbers (below 2^31 - 1, whose size entry would not be representable), object kinds, object sizes and composition of chunks",
  "Three unit tests pin two contiguous objects and one gap; order, several gaps, large numbers and large offsets are quantified over histories.",
  ["src/lib.rs", "src/chunk.rs"],
  [("sorted offsets and free list", "src/lib.rs write_offsets"), ("plain table writer", "src/lib.rs PlainXRefWriter"), ("offset registration", "src/chunk.rs Chunk::indirect")],
  [("offsets", "object number and byte offset of each object begun", "src/chunk.rs Chunk.offsets")])
p("C02", "Cross-reference stream carries the same information as the table",
  "For every object history, finishing with a cross-reference stream yields a file in which every object number, including the stream's own, resolves to the same free/used state and the exact offset the object starts at, with field widths wide enough for every offset and every free-list link. The start-of-xref pointer is the offset of that stream object, whose dictionary also carries the size and all trailer entries. If a filter callback is given it receives exactly the unfiltered table bytes, and the file holds its returned bytes and filter names unchanged.",
  ["histories", "inputs"], "all object histories, positions of the stream's own number, offsets across every field-width boundary, filters",
  "Tests cover four objects at offsets below 256 and one two-byte case; widths, sparse numbers and the stream's own number inside a gap are unbounded.",
  ["src/lib.rs"], [("stream finish", "src/lib.rs finish_with_xref_stream_inner"), ("field width", "src/lib.rs determine_field_width"), ("entry encoding", "src/lib.rs XRefStreamWriter")])
p("C03", "Duplicate object numbers are always rejected, distinct ones never",
  "Finishing a document in which some object number was used for more than one indirect object (directly, through concatenated chunks, or by the cross-reference stream itself) panics and never yields a file. Finishing a document whose object numbers are pairwise distinct never panics.",
  ["histories"], "all object-number sequences with any repetition pattern and any finishing mode",
  "No test exercises a duplicate; whether one is noticed depends on position and neighbours after sorting.",
  ["src/lib.rs"], [("duplicate detection while filling the free list", "src/lib.rs write_offsets")],
  obs=["panic or returned bytes of the finishing call"])
p("C04", "Header and trailer reflect the document-level settings",
  "Whatever the order and repetition of document-level calls, the file starts with the last accepted version (1.7 by default; a part of 10 or more is ignored) and a comment of four marker bytes (the last one set, high bytes by default). The trailer refers to the object written as catalog and the one written as document information if and only if they were written (the last of each), and carries the last file identifier as two strings byte for byte. None of these calls disturbs any other byte of the file.",
  ["histories", "inputs"], "all sequences of document-level calls interleaved with object creation and both finishing modes",
  "Tests set the version and marker once each, never together with identifiers or after objects were written.",
  ["src/lib.rs"], [("in-place header patching", "src/lib.rs Pdf::set_version, Pdf::set_binary_marker"), ("trailer", "src/lib.rs TrailerData::write_into_dict")],
  [("trailer_data", "catalog, info and file identifier", "src/lib.rs Pdf.trailer_data")])
p("C05", "Nested objects read back exactly as composed",
  "Any composition of arrays, dictionaries and primitive values, built through any mix of the generic writers and nested to any depth, in an indirect object or inside another object, reads back as exactly that value: same nesting, same element order, same keys, adjacent tokens never merging. Reported lengths and emptiness of arrays and dictionaries equal the number of elements added so far.",
  ["programs", "inputs"], "all value trees up to a size over an alphabet of token-boundary values, all adjacent token pairs, deep nesting, both layouts",
  "Tests compare a handful of literal outputs; token adjacency and depth effects need all pairs and depths.",
  ["src/object.rs"], [("padding rule", "src/object.rs Obj::primitive"), ("array and dict writers", "src/object.rs Array, Dict, TypedArray, TypedDict"), ("indentation", "src/object.rs Dict.indent")],
  [("len/indent", "element count and indentation of an open container", "src/object.rs Array, Dict")])
p("C06", "Byte strings read back byte for byte",
  "Every byte string, in any position where a string may be written, reads back as exactly the same bytes, and its encoding never affects the objects written around it. This covers every byte value, every combination of parentheses, backslashes and line ends, the empty string and any length.",
  ["inputs"], "all byte strings up to a length bound over the full byte range, longer ones over the special bytes, all surrounding token kinds",
  "Tests check about ten strings; balancing and escaping depend on arbitrary positions of special bytes.",
  ["src/object.rs"], [("literal/hex choice, escapes, paren balancing", "src/object.rs Str")])
p("C07", "Text strings decode to the same text and language tags",
  "Every Unicode text string decodes, as PDF text, to exactly the same sequence of code points, and is written as pure ASCII or as big-endian UTF-16 with byte-order mark (surrogate pairs for supplementary characters). Language-tagged text strings decode to the same sequence of (language, optional region, text) segments. Language identifiers are accepted exactly when each part is two ASCII alphanumeric characters.",
  ["inputs"], "all single code points, all short strings over encoding-boundary characters, all short segment lists, all short identifier candidates",
  "Two text strings are tested; language-tagged strings are not tested at all.",
  ["src/object.rs"], [("encoding choice and UTF-16", "src/object.rs TextStr, TextStrWithLang"), ("identifier parsing", "src/object.rs LanguageIdentifier")])
p("C08", "Names read back byte for byte and never merge with neighbours",
  "Every name, made of any bytes including none, reads back as exactly the same bytes when used as value, dictionary key or content operand, consists only of regular printable characters in the file, and never merges with or swallows the token written next to it.",
  ["inputs"], "all names up to a length bound over all bytes, in all positions and before every token kind, both layouts",
  "Four names are tested in isolation; neighbours and the empty name are not.",
  ["src/object.rs", "src/content.rs"], [("escaping", "src/object.rs Name"), ("padding rule", "src/object.rs Obj::primitive, src/content.rs Operation")])
p("C09", "Numbers keep their value and use plain decimal syntax",
  "Every 32-bit integer is written as its exact decimal integer. Every finite 32-bit float is written in plain decimal syntax without exponent and reads back, rounded to single precision, as the same number. This holds in objects and in content stream operands.",
  ["inputs"], "all 2^32 integers and all finite 32-bit floats (thorough); all exponents and boundary mantissas (quick)",
  "Four floats and one integer are tested.",
  ["src/buf.rs"], [("integer shortcut, ryu and extreme path", "src/buf.rs push_int, push_float, push_decimal")])
p("C10", "Dates encode the given components with documented clamping",
  "A date is written in the PDF date form as the longest unbroken prefix of the components given (year, month, day, hour, minute, second, time zone), whatever order they were set in; a component after the first missing one is not written. Every component is clamped to its documented range, a later call for a component overrides an earlier one, and the zone is written as Z for zero offset, otherwise as signed hours and minutes.",
  ["inputs", "histories"], "all component subsets and setter orders, all values of each component, all zone offsets",
  "Seven dates are tested; out-of-range values, gaps and setter order are not.",
  ["src/object.rs"], [("clamping builders", "src/object.rs Date"), ("prefix writing", "src/object.rs Date write")])
p("C11", "The layout setting never changes the meaning of the output",
  "For every program of writing calls, running it with pretty-printing on and off yields files (and content streams) that parse to identical values, object numbers, offsets tables and stream data. The compact form is never longer than the pretty form.",
  ["programs", "configurations"], "all short programs over the generic writers, streams, content operations and whole documents, under both settings",
  "Two compact-mode tests pin single outputs; equivalence is a relation over all programs.",
  ["src/object.rs", "src/content.rs", "src/chunk.rs"], [("settings threading", "src/chunk.rs Settings, src/object.rs Obj, Array, Dict, Stream, src/content.rs Operation")])
p("C12", "Streams carry exact data, exact length and correct framing",
  "For every stream object, the length entry equals the number of data bytes, exactly those bytes follow the stream keyword's line end unchanged, and the end keywords follow directly after one line end. This holds whatever the data contains, whatever entries, filters or decode parameters are added, and whatever is written before or after the stream.",
  ["inputs", "programs"], "all short data over all bytes and keyword fragments, lengths across size boundaries, all short sequences of dictionary calls",
  "One nine-byte stream is tested.",
  ["src/object.rs"], [("length and framing", "src/object.rs Stream"), ("decode parameters", "src/object.rs DecodeParms")])
p("C13", "Concatenating chunks equals writing everything in one place",
  "Splitting any sequence of objects over chunks, building the chunks in any interleaving and concatenating them in any nesting yields a document whose objects, cross-reference information and reported limits are those of writing the objects directly in that order. Concatenation reports the referenced object numbers in order, leaves the source chunk unchanged, and each chunk keeps its own layout; clones are independent of their original.",
  ["histories"], "all splits, interleavings and concatenation trees of short object sequences, cloning at any point",
  "Concatenation is only used once in the tests; offset shifting depends on history.",
  ["src/chunk.rs", "src/buf.rs"], [("offset shift", "src/chunk.rs Chunk::extend"), ("limit merging", "src/buf.rs Limits::merge")],
  [("offsets", "offsets relative to chunk start", "src/chunk.rs Chunk.offsets")])
p("C14", "Renumbering changes exactly the object numbers and references",
  "Renumbering a chunk under any mapping applies that mapping to every object's own number and to every indirect reference inside objects, and changes nothing else: values, strings, names, generation numbers and stream data that merely look like references or keywords stay as they were. The resulting chunk (or the chunk renumbered into) has exact offsets for all its objects, keeps its previous content, its layout setting and the merged limits.",
  ["inputs", "histories"], "all short object bodies over an alphabet of reference look-alikes in strings, names, streams and numbers, all small mappings including permutations and collisions with look-alikes",
  "One test renumbers two objects; the scanner's states depend on arbitrary token contexts.",
  ["src/renumber.rs", "src/chunk.rs"], [("scanner", "src/renumber.rs extract_object, patch_object, validate_ref, validate_stream"), ("entry points", "src/chunk.rs renumber, renumber_into")])
p("C15", "Reported limits equal the extremes of everything written",
  "At every moment the limits reported for a chunk, document or content stream equal the largest absolute integer and real written, the longest name and string (in encoded bytes, before escaping), the longest array and the largest dictionary completed so far, over everything written there or merged in. Merging takes the maximum of each field independently, and no write is ever missed.",
  ["histories", "inputs"], "all short histories over values of every kind, every writer that can carry them, concatenation, content streams and renumbering",
  "One test checks one document with ASCII text and small integers.",
  ["src/buf.rs", "src/object.rs", "src/content.rs"], [("registration", "src/buf.rs Limits::register_*"), ("merging", "src/buf.rs Limits::merge")],
  [("limits", "running maxima", "src/buf.rs Buf.limits")])
p("C16", "Content streams read back as the exact operation sequence",
  "Every sequence of content stream calls produces a content stream that parses to exactly the corresponding sequence of operators of the PDF imaging model, each with exactly the given operands in order, regardless of which operations precede or follow it and of the layout setting. Positioned text, marked content property lists and raw operations follow the same rule.",
  ["programs", "inputs"], "all operation sequences up to a depth over every typed operation and raw operations with boundary operands, both layouts",
  "Four short content streams are tested; separators depend on every pair of neighbouring operations.",
  ["src/content.rs"], [("operation writer", "src/content.rs Operation"), ("typed operations", "src/content.rs Content"), ("positioned text and properties", "src/content.rs ShowPositioned, PositionedItems, PropertyList, MarkContent")])
p("C17", "Reported graphics-state nesting equals the open save operations",
  "After every call on a content stream, the reported nesting depth is the number of save-state operations that are currently open: each save adds one, each restore closes the innermost open one, and a restore without an open save leaves it at zero. No other operation, and no layout or capacity choice, changes it, and exactly one save or restore operator is written per call.",
  ["histories"], "all sequences of save, restore and other operations up to a length bound, and long runs",
  "No test covers the depth counter.",
  ["src/content.rs"], [("counter", "src/content.rs save_state, restore_state, state_nesting_depth")],
  [("q_depth", "currently open save operations", "src/content.rs Content")], ["value reported by the content stream"])
p("C18", "Unicode character maps map exactly the given glyphs",
  "For every sequence of glyph-to-text mappings, every glyph width and every writing mode and identifier strings, the finished character map parses as a CMap that maps exactly the given codes to exactly the given text, in order, within a codespace covering the glyph type. Each mapping section announces its exact number of entries and never more than 100, and no name or string given can break out of its place.",
  ["inputs", "histories"], "all mapping sequences up to a length over boundary code points and mapping kinds, all sequence lengths around multiples of the section limit, all glyph values, special bytes in names",
  "No unit test covers the character map writer.",
  ["src/font.rs"], [("sections of at most 100", "src/font.rs UnicodeCmap::flush_range"), ("UTF-16 targets", "src/font.rs pair, pair_with_multiple"), ("prologue", "src/font.rs with_writing_mode")],
  [("mappings/count", "pending mappings of the current section", "src/font.rs UnicodeCmap")], ["bytes of the finished map, read by an independent CMap parser"])
p("C19", "PostScript calculator programs encode to the same program",
  "Every PostScript function program, with any operators, operands and nesting of conditional blocks, encodes to text that parses back to exactly the same program: same operators, same operand values (reals kept as reals where the operator requires it), same blocks. Blocks are always balanced and tokens never merge.",
  ["programs", "inputs"], "all programs up to a size over all operators and boundary operands, nesting up to a depth",
  "One program is tested.",
  ["src/functions.rs"], [("encoder", "src/functions.rs PostScriptOp::encode, write_slice, operator")], obs=["encoded bytes, read by an independent parser"])
p("C20", "Structure role names and version mappings are coherent",
  "Every structure role serialises to its own standard name, distinct from every other role of the same version, headings of any level included. Mapping a 1.7 role to 2.0 and a 2.0 role to its 1.7 fallback agrees with the standard: same-named roles map to themselves, roles absent from the other version map to their documented substitute, and every mapping result is a role of the target version. Role classification into block, inline, grouping and illustration types is consistent with the standard.",
  ["inputs"], "all roles, all heading levels, all option combinations",
  "One heading name is tested; the tables are large and only coherent as a whole.",
  ["src/structure.rs"], [("tables", "src/structure.rs StructRole, StructRole2, StructRole2Compat")], obs=["returned roles and names, written role maps"])
p("C21", "Interactive-feature writers emit the documented entries",
  "For annotations, actions, form fields, signature constraints, file specifications, renditions and transitions, every typed call writes exactly the entry its documentation names, with the specified type and the given value, and nothing else. This holds for every argument value and for every order and combination of calls on the same writer, and required type markers are always present exactly once.",
  ["programs", "inputs"], "all call sequences up to a depth on each writer, all enumeration variants, boundary arguments, direct and indirect placement, both layouts",
  "One annotation with a rectangle is tested out of some two hundred methods.",
  ["src/annotations.rs", "src/actions.rs", "src/forms.rs", "src/files.rs", "src/renditions.rs", "src/transitions.rs"],
  [("typed writers", "src/annotations.rs, src/actions.rs, src/forms.rs, src/files.rs, src/renditions.rs, src/transitions.rs")])
p("C22", "Document-structure writers emit the documented entries",
  "For the catalog, pages, outlines, destinations, names, viewer preferences, page labels, document information, metadata, structure tree and attribute objects, every typed call writes exactly the entry its documentation names, with the specified type and the given value, and nothing else. This holds for every argument value and for every order and combination of calls on the same writer, and required type markers are always present exactly once.",
  ["programs", "inputs"], "all call sequences up to a depth on each writer, all enumeration variants, boundary arguments, direct and indirect placement, both layouts",
  "No test touches these writers apart from one heading name.",
  ["src/structure.rs", "src/attributes.rs", "src/lib.rs"], [("typed writers", "src/structure.rs, src/attributes.rs")])
p("C23", "Font, colour, image and resource writers emit the documented entries",
  "For fonts, font descriptors, encodings, colour spaces, patterns, shadings, functions, images, forms, groups, graphics-state parameters, resources and output intents, every typed call writes exactly the entry or stream its documentation names, with the specified type and the given value, and nothing else. This holds for every argument value and for every order and combination of calls on the same writer, and required type markers are always present exactly once.",
  ["programs", "inputs"], "all call sequences up to a depth on each writer, all enumeration variants, boundary arguments, direct and indirect placement, both layouts",
  "Only one Type 3 font and one DeviceN space occur in tests.",
  ["src/font.rs", "src/color.rs", "src/xobject.rs", "src/functions.rs", "src/content.rs"], [("typed writers", "src/font.rs, src/color.rs, src/xobject.rs, src/functions.rs, src/content.rs")])
p("C24", "Flags and enumerated options encode to their specified values",
  "Every set of flags is written as the integer whose bits are exactly those the PDF specification assigns to the members of the set, for all combinations. Every variant of every enumerated option is written as the keyword or number the specification assigns to it, distinct from all other variants unless the specification makes them equal. The default of an enumerated option is the value the specification assumes when the entry is absent.",
  ["inputs"], "all single flags, all combinations of flags of each set, all variants of all enumerations",
  "No flag or enumeration value is tested except incidentally.",
  ["src/annotations.rs", "src/forms.rs", "src/actions.rs", "src/font.rs", "src/structure.rs", "src/content.rs", "src/attributes.rs"],
  [("flag constants", "bitflags! blocks"), ("keyword tables", "to_name/to_int functions")])
p("C25", "Trees, labels and other ordered collections keep every entry in order",
  "Name trees, number trees, glyph-name differences, glyph width lists, class maps, role maps and similar collections contain exactly the entries added, with keys, values, ranges and order preserved, for any number of entries and any keys, also when nested or interleaved with the other calls of the same writer.",
  ["histories", "inputs"], "all entry sequences up to a length over boundary keys and values, long sequences",
  "No test covers any of these collections.",
  ["src/object.rs", "src/font.rs", "src/structure.rs"], [("trees", "src/object.rs NameTree, NumberTree"), ("differences and widths", "src/font.rs Differences, Widths"), ("maps", "src/structure.rs RoleMap, ClassMap")])
p("C26", "Separation and DeviceN colour spaces enforce their call order",
  "For every sequence of calls on a Separation or DeviceN colour space writer, the writer accepts the sequence exactly when it supplies names, alternate space, tint transform and optional attributes in the order the format requires, and panics at the first call out of order. Every accepted complete sequence yields the colour space array of the specified form with the given content.",
  ["histories"], "all call sequences up to a depth on both writers, all kinds of alternate spaces and tint transforms",
  "Tests cover a few fixed sequences; the contract is a state machine over all call sequences.",
  ["src/color.rs"], [("call-order state", "src/color.rs Separation, DeviceN")], [("has_* / state flags", "what was already written", "src/color.rs Separation, DeviceN")])
p("C27", "Arguments are rejected exactly when documented, leaving no trace",
  "Each documented argument restriction (object numbers, flatness, line width, decode parameters, pattern steps, ICC component counts, outline counts, page modes and the like) is enforced by a panic for every value outside the permitted set and for none inside. A rejected call writes nothing wrong: what was written before stays intact and the writer can still be finished to a well-formed file.",
  ["inputs", "fault_sequences"], "all values of small argument domains, boundary values of large ones, rejection at every position of short call sequences",
  "No test calls any of the restricted operations with a forbidden value.",
  ["src/object.rs", "src/content.rs", "src/color.rs", "src/functions.rs", "src/structure.rs"], [("assertions", "assert!/panic! in the typed writers")], obs=["panic or return, then bytes of the finished document"])
p("C28", "Writers close themselves exactly once however they end",
  "However the writing of nested objects ends at any point (explicit finish, going out of scope, or a panic unwinding through all open writers), every open array, dictionary, stream, text object list and operation is closed exactly once in the right order. The output up to that point plus the closings is well-formed and equals what finishing normally at that point gives, and writing can continue afterwards.",
  ["crash_points", "fault_sequences"], "every crash point of every short nested writing program, in three ways of ending",
  "Tests only end writers by normal scope exit.",
  ["src/object.rs", "src/content.rs", "src/font.rs"], [("closing on drop", "Drop for Array, Dict, Stream, Operation and other writers")])
p("C29", "Output is append-only and depends only on the calls made",
  "The bytes of a chunk or content stream only ever grow at the end: no call changes a byte written by an earlier completed object (header fields set by document-level calls excepted). The result depends only on the sequence of calls and the layout setting: initial capacity, reservations, moving, cloning and inspecting have no influence.",
  ["histories", "configurations"], "all short call histories with inspection after every call, all capacities around the written size, clones at every point",
  "Tests look at final output only.",
  ["src/buf.rs", "src/chunk.rs", "src/content.rs", "src/lib.rs"], [("buffer", "src/buf.rs Buf"), ("capacity constructors", "src/chunk.rs, src/content.rs, src/lib.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
    n = x["statement"].count(". ") + 1
    if n > 3: print("sentences", x["id"], n)
print(len(P))
