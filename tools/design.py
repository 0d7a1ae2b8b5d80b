#!/opt/venv/bin/python
"""Fills the obligation tables of DESIGN.md (between the markers) from props/."""
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "symx"))
import json
import subprocess


def par(ps):
    return "; ".join(", ".join("%s=%s" % kv for kv in p.items()) or "-" for p in ps)


def table(prop):
    out = subprocess.run(["/opt/venv/bin/python", "-s", os.path.join(V, "symx", "worker.py"), "list", prop], stdout=subprocess.PIPE, text=True, check=True).stdout
    t = []
    for o in json.loads(out):
        t.append("- `%s`: %s." % (o["name"], " ".join(o["doc"].split())))
        t.append("  Bounds: %s." % " ".join(o["bounds"].split()))
        q, th = par(o["quick"]), par(o["thorough"])
        if q != "-" or th != "-":
            q = q if len(q) < 160 else q[:150] + " ..."
            th = th if len(th) < 160 else th[:150] + " ..."
            t.append("  Quick: %s. Thorough: %s." % (q, "the same" if q == th else th))
    return "\n".join(t)


def seeds():
    caught = json.load(open(os.path.join(V, "tools", "caught.json")))
    t = ["| bug | property | what it breaks | needs | reported by |", "|---|---|---|---|---|"]
    for i in sorted(os.listdir(os.path.join(V, "seeded"))):
        m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
        by = ", ".join("`%s`" % n for n in caught.get(i, [])) or "nothing"
        t.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], by))
    return "\n".join(t)


def fixed():
    t = []
    for line in open(os.path.join(V, "known_findings.jsonl")):
        e = json.loads(line)
        if e["status"] == "fixed":
            t.append((e["property"], e["commit"], e["text"].split(" ", 3)[3]))
    return "\n".join("- %s (%s): %s." % e for e in sorted(t))


def main():
    p = os.path.join(V, "DESIGN.md")
    s = open(p).read()
    s = re.sub(r"<!-- obligations (C\d\d) -->.*?<!-- end -->", lambda m: "<!-- obligations %s -->\n%s\n<!-- end -->" % (m.group(1), table(m.group(1))), s, flags=re.S)
    s = re.sub(r"<!-- seeded -->.*?<!-- endseeded -->", lambda m: "<!-- seeded -->\n%s\n<!-- endseeded -->" % seeds(), s, flags=re.S)
    s = re.sub(r"<!-- fixed -->.*?<!-- endfixed -->", lambda m: "<!-- fixed -->\n%s\n<!-- endfixed -->" % fixed(), s, flags=re.S)
    open(p, "w").write(s)


main()
