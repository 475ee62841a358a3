#!/usr/bin/env python3
"""writes MANIFEST.json from the specs present (claimed) and the reasons below (not claimed)"""
import json, glob, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
NOTE = json.load(open(here + "/level_notes.json"))
NA = {
 "C17": "The grammar is a tree of PEGTL class templates (types, not functions): there is no function body to annotate whose contract would say 'accepts exactly the grammar', and the verifier would have to verify PEGTL's template metaprogram; the tree-building and unescaping actions run inside it.",
 "C18": "The property relates emitted C++ text to the meaning of that text; no contract on the emitting functions can state what the emitted program does without a verified C++ semantics of the output.",
 "C19": "Data races, deadlock and linearizability under several threads need a concurrent program logic; the contracts here are sequential (mutexes and futures are modelled as ordinary calls), so they cannot express or decide it.",
}
claimed = {os.path.basename(p)[:3].upper() for p in glob.glob(here + "/specs/c*_*.py")}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        checks.append(dict(property=i, quick_cmd="python3-vt -m cppcv.check %s --tier quick" % i, thorough_cmd="python3-vt -m cppcv.check %s --tier thorough" % i,
                           technique="contract-based deductive verification of the real C++ (clang AST -> verification conditions -> z3/cvc5)", level="proof", level_note=NOTE.get(i, "")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "contracts for these functions are not built yet")))
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3; print(z3.get_version_string())' && cvc5 --version && /usr/bin/clang++-18 --version",
               checks=checks, not_applicable=na,
               notes="Own deductive verifier in cppcv/ (contracts in specs/); see DESIGN.md."), open(here + "/MANIFEST.json", "w"), indent=1)
