#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(home, "properties.jsonl"))]
EXTRA = {
    "C01": ("exhaustive enumeration of bounded inputs on the real parser (totality: no panic, no abort, no hang)",
            "Every input of the stated spaces is parsed and every accessor is called; a case that panics, kills the process or gives no answer within 20 s is a violation."),
    "C28": ("exhaustive enumeration of bounded target/start pairs; reference model compared with the real resolver on each",
            "Every pair of the stated spaces is resolved by the code and by an independent model."),
    "C32": ("exhaustive enumeration of texts around the inline capacity in all representations on the real type",
            "Every text and pair of the stated spaces is taken through all representations and conversions and compared with ordinary strings."),
    "C29": ("explicit enumeration of bounded parse histories; each run twice on the real parser and compared with the reference model's state after each parse",
            "Every history of the stated spaces is run twice on fresh parsers and compared with the model, which carries exactly the attribute values from one parse to the next."),
    "C30": ("exhaustive enumeration of bounded inputs; LF and CRLF executions of the real parser and the reference model compared on each",
            "Every input of the stated spaces is parsed in both forms."),
    "C15": ("explicit enumeration of bounded include graphs; model of the expansion checked against the real preprocessor on each, and the flattened text parsed again",
            "Every include graph of the stated spaces is run on the code and the model."),
    "C34": ("exhaustive enumeration of bounded documents, and of histories of two; the verdict and completed document of the real schema and validator compared with an independent recogniser on each",
            "Every document of the stated spaces (all sets of properties, all values of one and two properties, all nodes in all places to depth 3) is validated by the schema in /repo with Ajv and by an independent recogniser."),
    "C35": ("exhaustive enumeration of bounded pages and test files; the real program's report compared with the model's on each",
            "Every pair of page and markers of the stated spaces is written to a scratch tree, reported by sdd as built from /repo, and compared."),
}
TRUST = {"C34": "Node.js and Ajv", "C35": "rustc, the walkdir crate, and Python"}
DEF = ("explicit-state enumeration of bounded inputs; every model run replayed on the real parser and the complete results compared",
       "Every case of the stated spaces (all token sequences up to a depth, all choices in a slot grammar) is run on the real parser and on an independent reference model of the AsciiDoc rules, and the parts of the result the property is about are compared completely.")
m = {
    "version": 1,
    "setup_cmd": "./run.sh build",
    "checks": [],
    "not_applicable": [],
    "notes": "No hooks: everything is observed through the public API. Known findings and fixed defects: known_findings.jsonl. Design, bounds and seeded bugs: DESIGN.md.",
}
for p in props:
    t, n = EXTRA.get(p["id"], DEF)
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": f"./run.sh {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p['id']}",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "model checking: " + t,
        "level": "model_checking",
        "level_note": n + " Exhaustive within those bounds only; trusts " + TRUST.get(p["id"], "rustc, the standard library and (for pattern matching inside the model) the regex crate") + ".",
    })
with open(os.path.join(home, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
