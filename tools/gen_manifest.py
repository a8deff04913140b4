#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
N = {
 "C01": "All texts up to a length over hostile alphabets and all grammar-derived documents up to a bound (and their one-token damages) are run through every entry point in panic-catching, hang-watched workers; crashes outside the bounds are not excluded.",
 "C02": "All query grammar transitions, loops, substitutions of hostile names and literals, under a set of styles; round trip on the real code, no model needed but the literal menus.",
 "C03": "As C02 for schema documents.",
 "C04": "The language is decided against a hand-written grammar automaton (G) and an independent recursive-descent reference parser (R), which must agree with each other on every input; all one-token edits of all bounded sentences. The models are trusted to state the GraphQL grammar.",
 "C05": "The AST dump of the real parser is compared with the reference parser's on all bounded sentences.",
 "C06": "As C04 for schema documents.",
 "C07": "As C05 for schema documents.",
 "C08": "All strings up to a length over alphabets holding every lexically distinct character class, against the reference lexer.",
 "C09": "All scalar values raw, all 65536 escapes, all short bodies, against the reference decoder.",
 "C10": "All block string bodies up to a length over the alphabet that matters, against a direct transcription of the specification algorithm.",
 "C11": "All short strings over hostile alphabets and all scalar values, put in every place of an AST, printed and read back.",
 "C12": "All boundary integers, exponent and digit patterns, all i32 edges; against arbitrary-precision decimal arithmetic and the standard library's float reading.",
 "C13": "All bounded sentences with every kind of gap in every place, against the reference parser's positions.",
 "C14": "All one-token damages of all bounded sentences, all prefixes; the place is computed from the grammar automaton (shortest non-viable prefix).",
 "C15": "All bracket histories up to a length, in every bracket context, and pumped histories far beyond, against a depth counter.",
 "C16": "All short texts and token pairs with every gap, against the reference lexer.",
 "C17": "All sequences of bounded definitions with every gap and tail, stepwise against whole-document parsing and the reference parser.",
 "C18": "All gaps of all bounded documents, each with every kind of ignored text.",
 "C19": "All bounded documents and malformed ones under each text type and conversion.",
 "C20": "All bounded documents under the product of styles, against a layout model derived from tokens.",
 "C21": "All call histories up to a length from a menu that leaves state behind if any exists, each call on either of two threads.",
 "C22": "All names, every text one edit away, all short location lists.",
 "C23": "All ordered pairs of bounded documents.",
 "C24": "Every node of all bounded documents.",
 "C25": "All one-token damages of all bounded sentences and all prefixes; the offending token and the viable continuations are computed from the reference models.",
 "C26": "All repeatable parts of the grammars and of the tokens, each repeated to two lengths; time is the thread's own processor time, shortest of several runs, and only growth six times above proportional counts.",
 "C27": "All bounded documents against all their neighbours one token away, with a field-by-field dump as the oracle.",
 "C28": "All bounded documents in several layouts and with positions replaced; all bounded sequences of constructor and building steps.",
 "C29": "All repeatable parts of the grammars and of the tokens, each at two lengths, and all bounded documents and damaged texts four times over, with an allocator that counts what the thread holds.",
 "C30": "All one-token damages of all bounded sentences, cut after the token that is wrong, each with a menu of tails and its own rest.",
}
M = {"version": 1, "setup_cmd": "bash check.sh build", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: everything is observed through the public interface. The checks link /repo's library into the explorer in mc/ and rebuild it on every run. Known findings and repaired defects: KNOWN_FINDINGS.txt."}
T = "explicit-state bounded model checking: exhaustive enumeration of inputs/histories from a model, each replayed on the real code"
for k in sorted(N):
    M["checks"].append({"property": k, "quick_cmd": f"bash check.sh {k} quick", "thorough_cmd": f"bash check.sh {k} thorough",
                        "evidence_file": f"evidence/{k}.json", "technique": T, "level": "model_checking",
                        "level_note": N[k] + " Exhaustive within the bounds named in the evidence; beyond them by the small-scope assumption."})
with open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w") as f:
    json.dump(M, f, indent=1); f.write("\n")
