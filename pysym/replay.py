"""Replays harness inputs against the real, un-instrumented code in /repo.

usage: python3-vt /verif/pysym/replay.py FILE.json     (exit 1: the violation reproduces)"""
import importlib.util
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("PYX_REPO", "/repo")


MODULE = [None]


def load_check(pid):
    from pysym import api
    del api.REGISTRY[:]
    sys.path.insert(0, os.path.join(ROOT, "checks"))
    spec = importlib.util.spec_from_file_location("check_" + pid, os.path.join(ROOT, "checks", pid + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    MODULE[0] = m
    return {h.name: h for h in api.REGISTRY}


def run_one(h, case, values, scale):
    """-> dict(status= ok|skip|fail, failures, observed)"""
    import contextlib
    import io
    from pysym import api
    x = api.ConCtx(values, scale=scale)
    try:
        if case is None:
            h.fn(x)
        else:
            h.fn(x, case)
    except api.Skip:
        if x.failures:
            return dict(status="fail", failures=x.failures, observed=x.observed)
        return dict(status="skip", failures=[], observed=[])
    except Exception as ex:
        import traceback
        tb = traceback.extract_tb(ex.__traceback__)
        where = ["%s:%d %s" % (os.path.relpath(f.filename, REPO) if f.filename.startswith(REPO) else os.path.basename(f.filename), f.lineno, f.name) for f in tb][-3:]
        x.failures.append(("exception " + type(ex).__name__, "%s at %s" % (ex, " <- ".join(where[::-1]))))
    return dict(status="fail" if x.failures else "ok", failures=x.failures, observed=x.observed)


def main(argv):
    sys.path[0] = ROOT
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import logging
    logging.disable(logging.CRITICAL)
    real_stdout = os.dup(1)
    os.dup2(2, 1)       # output of the code under test must not end up in the result
    if argv[0] == "--batch":
        items = json.load(sys.stdin)
        reg = load_check(items["property"])
        out = []
        for it in items["items"]:
            h = reg[it["harness"]]
            out.append(run_one(h, allcases(h)[it["case"]], it["values"], it.get("scale", 0.5)))
        os.write(real_stdout, json.dumps(out).encode())
        return 0
    with open(argv[0]) as f:
        r = json.load(f)
    reg = load_check(r["property"])
    h = reg[r["harness"]]
    res = run_one(h, allcases(h)[r["case"]], r["values"], r.get("scale", 0.5))
    lines = ["property=%s harness=%s case=%r" % (r["property"], r["harness"], allcases(h)[r["case"]]),
             "inputs: %s" % json.dumps(r["values"]),
             "result: %s" % res["status"]]
    for l, d in res["failures"]:
        lines.append("  violated: %s: %s" % (l, d))
    os.write(real_stdout, ("\n".join(lines) + "\n").encode())
    return 1 if res["status"] == "fail" else 0


def allcases(h):
    return h.cases + h.thorough


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
