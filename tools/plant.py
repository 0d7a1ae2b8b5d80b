#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: make, confirm and try planted bugs.

SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)], needs,
breaks, demo)].  For each: patch a scratch copy of /repo, run the stable tests
and the demo there (before and after), run the property's quick check against
the copy, and store the bug under /verif/seeded/<id>/ when it is confirmed.
`plant.py --catch [ID...]` only reruns the checks on the stored bugs."""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = set()


PRE = '''import base64
import sys
import xml.etree.ElementTree as ET

from props import lib, peer, records


class H(object):
    def check(self, c, m=""):
        assert c, m

    def fail(self, m):
        raise AssertionError(m)

    def no(self, c):
        return not c

    def reach(self, m):
        pass


h = H()
'''


def sh(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ, PYTHONNOUSERSITE="1", PYTHONDONTWRITEBYTECODE="1")
    for k in ("REQUESTS_CA_BUNDLE", "CURL_CA_BUNDLE", "PYTHONPATH"):
        e.pop(k, None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def tests(wt):
    out = os.path.join(os.path.dirname(wt), "j.xml")
    rc, o = sh("/opt/venv/bin/python -m pytest tests/tests_pypsrp -q -p no:cacheprovider --timeout=300 -x -o junit_family=xunit2 2>&1 | tail -5", wt, {"PYTHONPATH": wt + "/src", "PYTHONHASHSEED": "0", "TZ": "UTC"})
    return o


def catch(wt, prop, tmp, tier="quick"):
    rc, o = sh("./check.sh %s %s" % (prop, tier), V, {"VERIF_REPO": wt, "VERIF_REPLAY_DIR": tmp + "/replays", "VERIF_EVIDENCE_DIR": tmp + "/ev"}, 900)
    return rc, o


def main():
    args = sys.argv[1:]
    tmp = tempfile.mkdtemp(prefix="plant")
    try:
        if args and args[0] == "--catch":
            ids = args[1:] or sorted(os.listdir(V + "/seeded"))
            for i in ids:
                d = V + "/seeded/" + i
                wt = tmp + "/repo"
                shutil.rmtree(wt, ignore_errors=True)
                shutil.copytree("/repo", wt, symlinks=True)
                rc, o = sh("git apply %s/patch.diff" % d, wt)
                if rc:
                    print(i, "PATCH DOES NOT APPLY", o)
                    continue
                meta = json.load(open(d + "/meta.json"))
                rc, o = catch(wt, meta["property"], tmp)
                by = [l.split()[0] for l in o.splitlines() if re.match(r"[a-z0-9_]+ \{.*\}: ", l)] if rc == 1 else []
                f = V + "/tools/caught.json"
                caught = json.load(open(f)) if os.path.exists(f) else {}
                caught[i] = sorted(set(by))
                with open(f, "w") as fd:
                    json.dump({k: v for k, v in sorted(caught.items()) if os.path.exists(V + "/seeded/" + k)}, fd, indent=1)
                    fd.write("\n")
                print("%-28s %s exit %d %s" % (i, meta["property"], rc, [l for l in o.splitlines() if l.startswith("VIOLATION")][:1] or o[-300:]), flush=True)
            return
        spec = runpy.run_path(args[0])["BUGS"]
        for b in spec:
            if args[1:] and b["id"] not in args[1:]:
                continue
            wt = tmp + "/repo"
            shutil.rmtree(wt, ignore_errors=True)
            shutil.copytree("/repo", wt, symlinks=True)
            d = tmp + "/seed"
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            if b.get("peer"):
                # the stand-in server of the checks, beside the demo
                os.makedirs(d + "/props")
                for m in ["lib", "peer", "records", "net"] if b["peer"] == "net" else ["lib", "peer", "records"]:
                    shutil.copy(V + "/props/%s.py" % m, d + "/props/%s.py" % m)
                b["demo"] = PRE + b["demo"].lstrip("\n")
            with open(d + "/demo.py", "w") as f:
                f.write(b["demo"].lstrip("\n"))
            with open(d + "/demo.sh", "w") as f:
                f.write('#!/bin/bash\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1\nexec timeout 250 /opt/venv/bin/python -s "$(dirname "$0")/demo.py"\n')
            os.chmod(d + "/demo.sh", 0o755)
            rc0, o0 = sh("bash %s/demo.sh" % d, wt)
            bad = False
            for f, old, new in b["edits"]:
                p = wt + "/src/pypsrp/" + f
                s = open(p).read()
                if s.count(old) != 1:
                    print(b["id"], "EDIT MATCHES", s.count(old), "times:", old[:80])
                    bad = True
                    break
                open(p, "w").write(s.replace(old, new))
            if bad:
                continue
            rc, diff = sh("git diff", wt)
            with open(d + "/patch.diff", "w") as f:
                f.write(diff)
            with open(d + "/meta.json", "w") as f:
                json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
                f.write("\n")
            rc1, o1 = sh("bash %s/demo.sh" % d, wt)
            t = tests(wt)
            last = t.strip().splitlines()[-1] if t.strip() else "?"
            good = rc0 == 0 and rc1 != 0 and "failed" not in t and "error" not in t.lower()
            rc, o = catch(wt, b["property"], tmp)
            print("%-26s %s demo %d/%d tests %s -> check exit %d %s" % (b["id"], b["property"], rc0, rc1, last, rc, "CAUGHT" if rc == 1 else "MISSED\n" + o[-1500:]), flush=True)
            if rc0:
                print(o0[-1500:])
            if rc == 1:
                print("   ", [l for l in o.splitlines() if ": " in l][:1])
            if good:
                dst = V + "/seeded/" + b["id"]
                shutil.rmtree(dst, ignore_errors=True)
                shutil.copytree(d, dst)
            else:
                print("   NOT CONFIRMED, not kept", t[-600:] if "failed" in t else "")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    main()
