#!/usr/bin/env python3
"""Writes properties.jsonl (the table of properties lives here, in readable form)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=None)))

V2 = "src/v2_parser.rs"
prop("P01", "Parsing accepts exactly KDL 2.0 and yields the meaning the spec gives it",
  "A text is accepted by the v2 document parser if and only if it is a KDL 2.0.0 document (integers outside the signed 128-bit range may be refused). "
  "When it is accepted, the nodes, their names, type annotations, arguments, properties, values and children are exactly those the specification assigns to the text, with comments, slashdashed parts and escapes resolved as it says. "
  "Where revisions of the specification disagree about acceptance, either answer is fine but the meaning still has to be right.",
  ["inputs"], "every text over the token alphabets up to the stated lengths, every Unicode scalar value in every position class, pumped and nested families",
  "The compliance suite is about 350 fixed files; the language is infinite and its constructs interact (slashdash x terminator x block, raw-string delimiters, multi-line dedent, sign/radix/underscore), which only systematic enumeration against an independent definition reaches.",
  [V2, "src/value.rs"], [("grammar productions", V2 + ": nodes/base_node/node_entry/string/quoted_string/raw_string/number/commented_block"), ("forbidden and special characters", V2 + ": is_disallowed_unicode, NEWLINES, UNICODE_SPACES")],
  ["KdlDocument::parse_v2"])
prop("P02", "Printing a parsed text gives back the same text, byte for byte",
  "Whatever text is successfully parsed as a document, as a single node, as a single entry or as a single identifier, printing the result yields exactly the original text, including every comment, slashdashed part, whitespace, line ending and notation.",
  ["inputs"], "every accepted text in the enumerated spaces, at each of the four parsing entry points",
  "Tests compare a handful of pretty-printed examples; losing one whitespace run or comment depends on the combination of neighbouring constructs.",
  [V2, "src/document.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs"],
  [("format capture", V2 + ": KdlNodeFormat/KdlEntryFormat/KdlDocumentFormat construction"), ("printing", "src/node.rs stringify; src/entry.rs, src/document.rs, src/identifier.rs Display")],
  ["Display of parsed values"])
prop("P03", "Parsing any text terminates with a document or a well-formed error",
  "For every input text, each parsing entry point returns normally (no panic, no abort, no endless loop). "
  "Ordinary nesting depths are fine. An error contains the input text unchanged and at least one diagnostic; every diagnostic says something when rendered and has a location that lies inside the input on character boundaries.",
  ["inputs"], "every text, valid or not, in the enumerated spaces, at each parsing entry point",
  "Error recovery runs on malformed input, where tests hold a few samples; the guarantee is about all malformed input.",
  [V2, "src/error.rs"], [("error recovery", V2 + ": resume_after_cut, badval, node_children"), ("diagnostic construction", V2 + ": failure_from_errs, span_from_checkpoint")],
  ["KdlDocument::parse, KdlNode::parse, KdlEntry::parse, KdlIdentifier::parse"])
prop("P04", "Source locations of parsed parts cover exactly the text they came from",
  "After parsing, the location of every name, property key and type annotation covers exactly its token in the source text. "
  "The location of every entry and node starts at its first token, is inside its parent's location, does not overlap its siblings', comes in source order, and the text it covers parses on its own to the same entry or node.",
  ["inputs"], "every accepted text in the enumerated spaces, at the document entry point",
  "Span tests cover a couple of documents; off-by-one errors depend on what precedes and follows (comments, escapes, multi-byte characters, nesting).",
  [V2], [("span computation", V2 + ": span_from_checkpoint, with_span uses")], ["span() of nodes, entries, identifiers"])
prop("P05", "Any data built through the API prints as KDL that parses back to the same data",
  "Printing any value, identifier, entry, node or document built through the public API (any string, any integer, any float including infinities and NaN, any names, types, nesting) gives a text that the v2 parser accepts and that means exactly the same data.",
  ["inputs", "programs"], "every Unicode scalar in every position of a string, all strings over a metacharacter alphabet up to a bound, boundary numbers, all small trees",
  "Tests print a few sample values; escaping has to be right for every string and every position.",
  ["src/value.rs", "src/identifier.rs", "src/entry.rs", "src/node.rs", "src/document.rs"],
  [("string escaping and bare identifiers", "src/value.rs: is_plain_ident, write_string"), ("node layout", "src/node.rs: stringify")], ["Display then parse"])
prop("P06", "Auto-formatting keeps the data and is stable",
  "Auto-formatting any parsed document with any configuration keeps its data unchanged: the formatted text is valid KDL that means the same. "
  "Formatting again (also after re-parsing the formatted text) changes nothing. "
  "Comments between nodes and at the end of a node's line are all kept, in order, unless comments are asked to be removed, in which case none remain. (Comments inside a node, between its parts, are dropped by design.)",
  ["inputs", "configurations"], "every accepted text in the enumerated spaces, times indentation, comment and keep-format settings",
  "Formatting tests are fixed before/after pairs; what is lost or glued together depends on the combination of comments, terminators, blocks and slashdashes.",
  ["src/fmt.rs", "src/node.rs", "src/document.rs", "src/entry.rs"],
  [("autoformat", "src/fmt.rs autoformat_leading/autoformat_trailing; src/node.rs, src/document.rs, src/entry.rs autoformat_config")], ["autoformat*, then Display and parse"])
prop("P07", "Clearing formatting changes how a document prints, never what it means",
  "After clearing the formatting of any parsed document, node, entry or identifier (recursively or not), no data reachable through the API has changed, and what is printed is valid KDL that means the same data. "
  "Two parsed texts that mean the same are equal once their formatting has been cleared recursively.",
  ["inputs"], "every accepted text in the enumerated spaces",
  "One test compares two fixed documents; whether leftovers of formatting survive or separators vanish depends on the input.",
  ["src/node.rs", "src/document.rs", "src/entry.rs", "src/identifier.rs"],
  [("clear_format, clear_format_recursive", "src/node.rs, src/document.rs, src/entry.rs, src/identifier.rs")], ["clear_format_recursive, then ==, Display, parse"])
prop("P08", "Editing operations on nodes and documents behave as ordered collections",
  "For every sequence of editing and lookup operations on a parsed or built node, the results are those of one ordered list of entries: positional lookup counts arguments only, named lookup sees the last property of that name, inserting under a name replaces that property or appends, inserting at a position shifts, removing takes out and returns the entry that lookup would have returned, and sorting and filtering are stable. "
  "Documents likewise look up the first node of a name, and iteration, indexing and the argument helpers agree with those lookups.",
  ["histories", "inputs"], "every operation sequence up to the stated depth from every small starting node, parsed and built",
  "Unit tests exercise single calls on hand-written nodes; wrong index arithmetic shows only for particular mixes of arguments and repeated properties, and after particular histories.",
  ["src/node.rs", "src/document.rs"], [("entry lookup, insert, remove", "src/node.rs: entry_impl, entry_mut_impl, insert_impl, remove_impl"), ("document helpers", "src/document.rs: get, get_arg, iter_args, iter_dash_args")], ["return values and resulting entries"])
prop("P09", "Equality, hashing and ordering of values and trees obey their laws",
  "Equality of values, identifiers, entries, nodes and documents is reflexive, symmetric and transitive, equal things hash equally, ordering of values is antisymmetric, transitive and agrees with equality, clones are equal, and source locations never affect equality. "
  "Values of different kinds are never equal.",
  ["inputs"], "all pairs and triples of a universe of boundary values and of all small trees",
  "The laws quantify over pairs and triples; tests check a few pairs, and floats (NaN, infinities, signed zero, huge magnitudes) are where laws break.",
  ["src/value.rs", "src/entry.rs", "src/node.rs", "src/document.rs", "src/identifier.rs"], [("PartialEq/Hash/PartialOrd", "src/value.rs and the tree types")], ["==, Hash, partial_cmp"])
prop("P10", "Converting between KDL v1 and v2 keeps the data",
  "Converting any valid v1 text to v2 gives valid v2 text with the same data, and converting any v2 document that v1 can express gives valid v1 text with the same data. "
  "Converting a document to the version it is already in does not change its data.",
  ["inputs"], "every accepted text of the v1 and v2 spaces",
  "Two fixed conversions are tested; the conversion rewrites the source notation of strings and keywords, so correctness depends on each notation.",
  ["src/document.rs", "src/node.rs", "src/entry.rs", "src/value.rs"], [("ensure_v1, ensure_v2, From<kdlv1::*>", "src/document.rs, src/node.rs, src/entry.rs, src/identifier.rs, src/value.rs")], ["KdlDocument::v1_to_v2, v2_to_v1"])
prop("P11", "With version fallback, a text is read as v2 when valid v2, otherwise as v1",
  "With the fallback enabled, parsing a valid v2 text gives what the v2 parser gives, parsing a text that is only valid v1 gives what the v1 parser gives, and parsing a text that is neither fails with an error about that input. "
  "This holds at every parsing entry point and for every way to invoke it.",
  ["inputs", "configurations"], "every text of the v1 and v2 spaces, in a build with fallback on",
  "The default test run does not even enable the fallback.",
  ["src/document.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs"], [("parse with v1-fallback", "src/document.rs parse, detect_v1; src/node.rs, src/entry.rs, src/identifier.rs parse")], ["parse, FromStr"])
prop("P12", "Serializing and deserializing a value gives the value back",
  "For every value of a supported shape (structs, nested structs, options, sequences, maps, enums of every variant kind, tuples, all scalar types and any string), serialization produces valid KDL, plain or pretty, and deserializing it as the same type yields an equal value; otherwise serialization reports an error, and never drops or alters data silently.",
  ["inputs", "programs"], "every value of a closed universe of types up to the stated nesting and sizes",
  "Tests round-trip a dozen sample structs; the mapping places data as arguments, properties or children depending on shape and content, so it is the combinations that break.",
  ["src/se.rs", "src/de.rs"], [("serializer", "src/se.rs"), ("deserializer", "src/de.rs")], ["se::to_string, se::to_document, de::from_str"])
prop("P13", "Deserializing follows the documented mapping from KDL to Rust data",
  "Deserializing any document into a type gives the value that the documented mapping assigns: arguments, properties and child nodes become fields, sequence elements, options and enum variants by their names and positions. "
  "Documents that do not fit the type are refused with an error, integers never wrap or lose precision, and nothing panics.",
  ["inputs"], "every small document over a field alphabet, for each target type",
  "Tests deserialize fixed examples; the mapping must hold for every arrangement of the same data.",
  ["src/de.rs"], [("deserializer", "src/de.rs")], ["de::from_str"])
prop("P14", "Parsing and printing work grows no faster than the input allows",
  "Parsing, printing, formatting, comparing and copying a valid document, and writing and reading Rust values, take work and memory proportional to the length of the text, for every repetitive and every nested shape, and stack only for nested blocks. "
  "An invalid text may cost more because the parser looks for further errors, but never more than in proportion to the square of its length: neither repetition nor nesting makes anything exponential.",
  ["inputs"], "every pumped family u v^n w and nested family u^n v w^n of the enumerated alphabets, measured in counted basic blocks, allocated bytes and stack instead of time",
  "No test measures cost; super-linear blow-up needs a repeated or nested pattern that a fixed example does not contain.",
  [V2, "src/node.rs", "src/document.rs", "src/de.rs", "src/se.rs"], [("backtracking in the grammar", V2 + ": nodes, slashdashed_node, node_children, before_node_children, raw_string"), ("printing", "src/node.rs, src/document.rs: stringify")], ["counted work around parse, Display, autoformat, clone, ==, serde"])
prop("P15", "The language server always reports on the text the editor currently has",
  "After any sequence of open, change, save and close notifications, the diagnostics for a document are exactly those of parsing its latest text: none when it is valid, and otherwise one for each parser diagnostic with the position, in the protocol's units, where the parser located it. "
  "No sequence of messages makes the server crash or stop answering.",
  ["histories", "inputs"], "every message sequence up to the stated depth over several documents and texts with multi-byte characters and all line endings",
  "The server has no tests at all.",
  ["tools/kdl-lsp/src/main.rs"], [("document store and diagnostics", "tools/kdl-lsp/src/main.rs: on_change, did_open, did_change, did_save, did_close, diagnostic, byte_to_position")], ["stdio of the kdl-lsp binary"])
prop("P16", "Editing one part of a parsed document leaves the text of all other parts alone",
  "Replacing, inserting or removing one entry, node, name, type annotation or block in a parsed document and printing it changes only the text of that part: every other part, with its comments and whitespace, is printed as it was, and the result is valid KDL meaning exactly the edited data.",
  ["inputs", "histories"], "every accepted text of the spaces, times every single edit at every position",
  "Tests edit one or two documents; whether separators and neighbours survive depends on the surrounding text.",
  ["src/node.rs", "src/entry.rs", "src/document.rs"], [("format kept beside data", "src/node.rs KdlNodeFormat, src/entry.rs KdlEntryFormat"), ("printing", "stringify/Display")], ["edit, then Display and parse"])
prop("P17", "Optional features do not change what parsing and printing do",
  "Building with or without source locations, version conversion or serialization support gives the same accepted language, data, printed text and error diagnostics from the v2 parser and the formatter.",
  ["configurations", "inputs"], "every text of the spaces, compared between builds of the crate with different feature sets",
  "The tests run with one feature set.",
  ["Cargo.toml", V2, "src/entry.rs", "src/node.rs", "src/document.rs"], [("cfg(feature) branches", "src/*.rs")], ["digest of parse, Display, autoformat and errors per input"])
prop("P18", "All ways of parsing the same thing agree",
  "A text parsed as a single node, entry or identifier gives the same data as the same text inside a document, and is refused when the document form is not exactly one such thing. "
  "Parsing through the string conversion traits and through the parse methods always gives the same result.",
  ["inputs"], "every text of the node, entry and identifier spaces at all entry points",
  "Single-item entry points are touched by a handful of tests, each with well-formed input.",
  [V2, "src/node.rs", "src/entry.rs", "src/identifier.rs"], [("padded_node, padded_node_entry, identifier", V2)], ["KdlNode::parse, KdlEntry::parse, KdlIdentifier::parse, FromStr"])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
