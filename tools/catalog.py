#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/pypsrp/"
TECH = "symbolic execution of the real Python code, path conditions and assertions decided by z3"
NOTE = (
    "Bounded: every path of the real functions within the bounds listed per obligation in the evidence file is explored, "
    "each assertion is decided by z3 for all values of the path; every counterexample is replayed on the uninstrumented code. "
    "Trusted: the models of the Python built-ins and of the XML, struct, base64, uuid and regex libraries (validated by replaying path models), z3."
)
P = []


def prop(id, title, statement, over, quant, why, files, mech, note="", observe=None):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": quant},
            "why_tests_cant": why,
            "anchors": {"files": [S + f for f in files], "mechanism": [{"name": n, "where": S + w} for n, w in mech], "observe_at": observe or []},
            "_note": note,
        }
    )


from catalog_props import fill  # noqa: E402

NA = fill(prop)


def main():
    assert len({p["id"] for p in P}) == len(P)
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            q = {k: v for k, v in p.items() if not k.startswith("_")}
            f.write(json.dumps(q) + "\n")
    na = {n["property"] for n in NA}
    m = {
        "version": 1,
        "setup_cmd": "./check.sh selftest quick",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": "./check.sh %s quick" % p["id"],
                "thorough_cmd": "./check.sh %s thorough" % p["id"],
                "technique": TECH,
                "level": "model_checking",
                "level_note": (p["_note"] + " " if p["_note"] else "") + NOTE,
            }
            for p in P
            if p["id"] not in na
        ],
        "not_applicable": NA,
        "notes": "See DESIGN.md. Known and repaired defects: known_findings.jsonl.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
