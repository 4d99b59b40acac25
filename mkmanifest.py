#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
TEXT = ("Bounded-exhaustive explicit-state enumeration of input token trees, executed on the real code (every sequence up to the stated depth, every Unicode scalar value per position class, pumped and nested families). "
        "Trusts rustc, the harness and {oracle}; nothing beyond the bounds is claimed.")
MODEL = "the reference KDL 2.0.0 model (itself checked on every run against the 320 official compliance files)"
CHECKS = {
 "P01": ("bounded-exhaustive explicit-state enumeration of token trees; reference grammar model run in lockstep with the real parser", TEXT.format(oracle=MODEL)),
 "P02": ("bounded-exhaustive enumeration of token trees; print-after-parse compared on every state of the real code", TEXT.format(oracle="byte equality")),
 "P03": ("bounded-exhaustive enumeration of token trees with panic, abort and hang detection on the real parser", TEXT.format(oracle="the error well-formedness predicate")),
 "P04": ("bounded-exhaustive enumeration of token trees; every location recomputed from the printed pieces and compared", TEXT.format(oracle="offsets recomputed from the lossless print")),
 "P05": ("bounded-exhaustive enumeration of strings, numbers and trees built through the API of the real code; prints judged by the reference model and the real parser",
  "Every string over a metacharacter alphabet to the stated length, every Unicode scalar value in six frames, every float exponent x ten mantissas, boundary integers and every small formatted or unformatted tree, each placed at every position a value or string can have. Trusts "+MODEL+"; nothing beyond the bounds is claimed."),
 "P08": ("explicit-state search over all operation histories to the stated depth, the real node run in lockstep with a reference ordered-list model",
  "Every sequence of <= 4 (thorough: 5) of 23 operations from every starting node of <= 3 entries, built, parsed and parsed with formatting; every lookup compared after every step. Trusts the reference list model."),
 "P09": ("exhaustive enumeration of all pairs and triples of a value universe and of all pairs of small trees, plus every tree of the text spaces against everything one edit away",
  "Laws checked directly on the real ==, Hash and PartialOrd; the universe is the stated boundary values. Trusts the listed structural comparison that says which trees look the same."),
 "P06": ("bounded-exhaustive enumeration of token trees x formatter configurations on the real code, judged by the reference model", TEXT.format(oracle=MODEL)),
 "P07": ("bounded-exhaustive enumeration of token trees; cleared documents judged by the reference model", TEXT.format(oracle=MODEL)),
 "P16": ("bounded-exhaustive enumeration of token trees x every single edit through the API on the real code, judged by the reference model and by byte comparison of untouched parts", TEXT.format(oracle=MODEL)),
 "P18": ("bounded-exhaustive enumeration of token trees at all parsing entry points against the reference model", TEXT.format(oracle=MODEL)),
 "P10": ("bounded-exhaustive enumeration of token trees of both versions, converted by the real code; judged by the v1 library, the v2 reference model and both real parsers",
  TEXT.format(oracle="the kdl 4.7.1 crate as the definition of v1, and "+MODEL)),
 "P11": ("bounded-exhaustive enumeration of token trees of both versions at all parsing entry points of a build with fallback; run in lockstep with a build without it and with the v1 library",
  TEXT.format(oracle="the kdl 4.7.1 crate as the definition of v1 and the build without features as the definition of v2 (which P01 and P18 check)")),
 "P17": ("bounded-exhaustive enumeration of token trees run in lockstep through four builds of the crate with different feature sets",
  TEXT.format(oracle="byte equality of complete dumps of results, errors, prints and edits; the default build is judged by the other properties")),
 "P15": ("bounded-exhaustive enumeration of editor message histories (pipelined and lock-step) and of texts, sent to the real kdl-lsp binary; an explicit-state model of the editor's documents is the oracle",
  "Every history of <= 3-4 (thorough: 4-5) messages over 1-3 documents, every text of <= 4 (5) tokens of newline kinds, character widths and syntax, and the texts of the other spaces. The diagnostics themselves are those of the library (judged by P01, P03, P11); positions come from an independent implementation of the protocol's definition. Trusts the serde_json crate."),
"P14": ("bounded-exhaustive enumeration of growing families of texts and values, executed on the real code built with a counter in every basic block",
  "Every repeated sequence of <= 3 (thorough: 4) tokens of every alphabet, every nested u^k v w^k over structural tokens, and written and read Rust values; work is counted (basic blocks, bytes, stack), never timed, so results are the same on every run. Trusts the compiler's instrumentation; work done inside precompiled parts of the standard library counts only as calls and bytes."),
 "P12": ("bounded-exhaustive enumeration of types (as data driving the real serializer and deserializer) x values; the written documents judged by the reference model",
  "Every type of <= 3 (thorough: 4) constructors, up to 40 values each, every char, boundary scalars in every place, every ordered selection of renamed fields. Trusts "+MODEL+" and that the types as data behave like derived ones (compared exhaustively with 33 derived types by P13)."),
 "P13": ("bounded-exhaustive enumeration of documents x target types; reference model of the documented mapping run in lockstep with the real deserializer",
  "Every document of <= 3 nodes and entries over a rich alphabet (<= 5 over a lean one), about 1000 boundary scalars in 8 places, 135 target types. Where the documentation does not define the result, only the absence of panics and invalid error locations is checked."),
}
props = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [],
     "notes": "No hooks are needed in /repo: all checks go through the public API or the kdl-lsp binary."}
for p in props:
    if p in CHECKS:
        t, n = CHECKS[p]
        m["checks"].append(dict(property=p, quick_cmd=f"python3 check.py {p} quick", thorough_cmd=f"python3 check.py {p} thorough",
                                evidence_file=f"evidence/{p}.json", technique="model checking: " + t, level="model_checking", level_note=n))
    else:
        m["not_applicable"].append(dict(property=p, reason="check not built yet"))
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
