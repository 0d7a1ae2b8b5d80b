"""Runs one obligation: `worker.py sym PROP NAME IDX TIER BUDGET` explores it
symbolically, `worker.py con PROP` replays assignments (JSON lines on stdin)
against the real code."""
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")


def setup(sym):
    sys.dont_write_bytecode = True
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") not in (HERE,)]
    sys.path.insert(0, VERIF)
    # the code under test is /repo's source, whatever is installed
    sys.path.insert(0, SRC)
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import logging

    logging.disable(logging.CRITICAL)
    import warnings

    warnings.simplefilter("ignore")
    if sym:
        from symx import rewrite

        rewrite.install({"pypsrp": (SRC, rewrite.Loader), "props": (VERIF, rewrite.HarnessLoader)})


def load(prop):
    import importlib

    from symx import api

    importlib.import_module("props." + prop.lower())
    import pypsrp

    assert os.path.abspath(pypsrp.__file__).startswith(SRC), pypsrp.__file__
    return api.REGISTRY[prop]


def main():
    mode, prop = sys.argv[1], sys.argv[2]
    if mode == "list":
        setup(False)
        out = []
        for o in load(prop).values():
            out.append({"name": o.name, "quick": o.params("quick"), "thorough": o.params("thorough"), "bounds": o.bounds, "assumes": o.assumes, "budget": o.budget, "doc": (o.fn.__doc__ or "").strip()})
        json.dump(out, sys.stdout)
        return
    if mode == "sym":
        name, idx, tier, budget = sys.argv[3], int(sys.argv[4]), sys.argv[5], float(sys.argv[6])
        setup(True)
        from symx import symh

        sys.setrecursionlimit(20000)
        ob = load(prop)[name]
        res = symh.explore(ob, ob.params(tier)[idx], budget)
        json.dump(res, sys.stdout)
        return
    if mode == "con":
        setup(False)
        import time

        real_sleep = time.sleep
        time.sleep = lambda s: None
        from symx import api

        obs = load(prop)
        rt = time.time
        import warnings

        rw = warnings.warn
        for line in sys.stdin:
            job = json.loads(line)
            ob = obs[job["name"]]
            h = api.ConcreteH(job["inputs"])
            time.sleep = lambda s: None
            time.time = rt
            warnings.warn = rw
            r = {"outcome": "ok"}
            try:
                ob.fn(h, **job["params"])
            except api.AssumeFailed:
                r["outcome"] = "assume"
            except api.CheckFailed as e:
                r["outcome"] = "fail"
                r["msg"] = str(e)
            except BaseException as e:
                r["outcome"] = "exception"
                r["msg"] = "%s: %s" % (type(e).__name__, str(e)[:500])
                r["tb"] = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-12:])
            finally:
                h.cleanup()
            r["observed"] = h.observed
            r["missing"] = h.missing
            sys.stdout.write(json.dumps(r) + "\n")
            sys.stdout.flush()
        return
    raise SystemExit("mode?")


if __name__ == "__main__":
    main()
