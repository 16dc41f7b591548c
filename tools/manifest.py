#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand after a change)."""
import json
import os

TRUST = (" Trusted: the modelled Python 3.12 subset and antlr4 runtime of sa/, the hand-written denotation in sa/spec.py (from docs/language_spec.rst); "
         "bounded by the schema families listed in DESIGN.md (nesting is covered by opaque hole statements, leaves by atoms standing for all values).")
CLAIMED = {
    "C01": ("abstract interpretation of the compiler's source over program schemata with symbolic leaves; product walk of the resulting op graph with the specification's transition system",
            "Every schema of the families is decided for all leaf values and all test outcomes."),
    "C02": ("abstract interpretation of the decompiler (graph building, structuring passes, writers) and of the compiler on its output, over routine set schemata; product walk of the recompiled op graph with the input's",
            "Families: every op and operand form, all small jump graphs (also across routines), all short sequences of op kinds, the compiled control flow schemata; each decided for all leaf values and test outcomes."),
    "C03": ("abstract interpretation of both compilers over program and SsbScript schemata; structural closure rules on the abstract result",
            "Closure, uniqueness and table rules are checked on the abstract result of every schema."),
    "C04": ("abstract interpretation of printer, decompilers and compilers over string contents (unknown texts as atoms, every arrangement of the special characters of the bound), numbers, constants and position marks, and over literal spellings",
            "Printed values are compiled back at several depths and in every place; contents that no literal denotes (decided from the documented reading rules) are the known findings. Literals are compared with the documented value."),
    "C05": ("abstract interpretation of the compiler over macro/import schemata; product walk with the inlined program's transition system",
            "All acyclic macro graphs of the bound in all definition orders, all parameter places, import layouts."),
    "C06": ("abstract interpretation of the decompiler over routine set schemata with an exception-effect rule on every path; op-for-op comparison of the recompiled SsbScript fallback",
            "Every explored routine set gets an answer; answers in SsbScript start with the marker and are exact. The quality of the other answers is C02."),
    "C07": ("abstract interpretation of the SsbScript decompiler and compiler over routine set schemata (all jump ops, kinds, targets, parameters, small jump graphs) in several offset numberings; op-for-op comparison",
            "Every routine set schema is decided for all leaf values, in counted, word-addressed, far and unknown-base offset numberings."),
    "C08": ("abstract interpretation with origin tracking: the abstract source map of every schema against the token positions of the rendered schema",
            "Every emitted op of every schema is paired with the statement it came from by the product walk and its entry compared. One known finding is listed."),
    "C09": ("abstract interpretation of the decompiler and, on its output, of the compiler; every map entry against the abstract text, and both maps against each other over the pairs of the product walk",
            "Every entry, every printed op and every line of the schemata is decided, incl. multi-line parameters at every place and the SsbScript answers."),
    "C10": ("abstract interpretation of reader, listener and compiler over grammar-derived texts, corrupted token sequences and offence x place schemata; injected stack exhaustion at every call depth; exception-effect rule on every path",
            "Every explored text ends in a result or a documented exception on every path; every schema of the rejection families is rejected."),
    "C11": ("abstract interpretation of every entry point over histories of calls: one reused object or module state against fresh ones, with an effect analysis of the places shared between calls; set iteration orders as free choices",
            "Every pair and the whole sequences of the subject groups give the answers of fresh instances; every order of iterated sets gives one answer."),
    "C12": ("effect analysis of the state reachable from two concurrent calls, and abstract interpretation of call pairs with one call stopped at its accesses of shared locations while the other runs",
            "Locations written by a call and reachable from another are enumerated; each such access is a stopping point. The static prediction caches inside the antlr4 runtime are trusted."),
    "C13": ("abstract interpretation of compiler and decompiler over flat structured program schemata; no jump statement in the abstract text and equality of the operation multisets",
            "All if chains and switches of the bound between plain statements, all pairs and sampled longer sequences of structured statements, several routines."),
    "C14": ("abstract interpretation of source_map.py over table shapes with unknown fields: loads(dumps) algebra and the offset-rewriting transfer for every combination of kept, mapped and dropped offsets of a window at an unknown base",
            "All shapes of the bound; additionally the maps the compiler builds for the macro and statement schemata."),
    "C15": ("abstract interpretation of both command line modules as __main__ over program schemata, documented models and failure cases; the printed model against the compiled program, and the decompiler's arguments against the model",
            "The jump parameters, structure, types, targets, names, settings and exit status of every schema are decided; the decompiler itself is replaced by a recording stand-in (its behaviour is C02/C06)."),
    "C16": ("abstract interpretation: two spellings of one schema give identical abstract results",
            "Every spelling/layout variant of the language features is compared with its plain spelling, for all leaf values; number spellings by digit classes."),
    "C17": ("automata analysis of the regular expression tables (evaluated by abstract interpretation): totality of every state over all code points, no empty cycles, lossless actions, no exponential repetition; exploration of the modelled matching machine where the form of a table does not settle it",
            "On the current tree the table argument holds for all texts. The Pygments engine is modelled; its normalisation of line ends and byte order marks is the known finding."),
    "C18": ("abstract interpretation of the position mark visitor and the compiler over place x spelling schemata with abstract offsets",
            "Each literal place x spelling: entry count, order, span, values against the compiled parameter, and the effect of replacing exactly the span."),
}
NA = {p: "not claimed yet: the check is being built" for p in []}

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = {
    "version": 1,
    "setup_cmd": "python3 -m compileall -q sa checks check.py || true",
    "checks": [{"property": p, "quick_cmd": f"python3 check.py {p} --tier quick", "thorough_cmd": f"python3 check.py {p} --tier thorough",
                "evidence_file": f"evidence/{p}.json", "technique": t, "level": "other", "level_note": n + TRUST} for p, (t, n) in sorted(CLAIMED.items())],
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items()) if p not in CLAIMED],
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
