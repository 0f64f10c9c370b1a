"""Writes MANIFEST.json from properties.jsonl."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Contracts of the real functions, taken from /repo's source on every run, are discharged for all inputs by z3 "
        "(evidence lists every obligation count, function, trusted model and assumption). Trusted: the symbolic semantics "
        "of the Python subset and the library models, which sampled concrete cases against the real code validate on "
        "every run. %s")
SPEC = {
    "C01": "The color parser itself and every color attribute are covered.",
    "C15": "The loop over the objects of all layers is proved with a declared invariant (base, step, exit), for every "
           "sequence of objects and any depth of groups.",
    "C16": "The dispatch by content and the conversion of the readers' exceptions are proved; which texts the readers of "
           "the standard library call unreadable is assumed and sampled.",
    "C17": "Regular expression matching is an uninterpreted relation; the directory is an arbitrary sequence of names.",
    "C18": "Both formats are proved against one specification; a failed obligation alone is not reported for this "
           "property, only a document on which the formats really differ.",
}
checks = []
for line in open("properties.jsonl", encoding="utf-8"):
    p = json.loads(line)["id"]
    checks.append(dict(property=p, quick_cmd="python3-vt check.py %s --tier quick" % p,
                       thorough_cmd="python3-vt check.py %s --tier thorough" % p,
                       technique="contract-based deductive verification: symbolic verification conditions of the real "
                                 "Python functions discharged by z3; counterexamples replayed",
                       level="proof", level_note=(NOTE % SPEC.get(p, "")).strip()))
m = dict(version=1, setup_cmd="python3-vt -c 'import z3, attr'", checks=checks, not_applicable=[],
         notes="Every check rereads /repo's sources; nothing is built. See DESIGN.md.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
