#!/usr/bin/env python3
"""Run the static check of one property:  check.py P01 [--tier thorough]."""

import argparse
import importlib
import json
import os
import signal
import sys
import time
import traceback

if os.environ.get("PYTHONHASHSEED") is None:
    # one order of sets on every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(50000)

from pisa.checks import common  # noqa: E402
from pisa.checks import registry  # noqa: E402

LIMIT = 780             # seconds for one check
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding:"):
                head, _, text = line[len("finding:"):].partition(" :: ")
                parts = head.strip().split(" ", 1)
                if parts[0] == "property=" + pid:
                    out.append((parts[1].strip(), text.strip()))
    return out


class AnalyserLimit(Exception):
    pass


def self_test():
    """The machinery loads, parses the repository, and can say no."""
    from pisa import terms as tm
    s = common.Session()
    assert s.function("operations", "subtract")
    chk = common.Check("self")
    a, b = tm.sym("a"), tm.sym("b")
    common.equal(chk, tm.mul(a, b), tm.mul(b, a), "r", "w")
    common.equal(chk, tm.add(a, b), tm.sub(a, b), "r", "w")
    assert [o["status"] for o in chk.obls] == [
        common.HOLD, common.VIOLATED]
    print("self-test ok: %d checks registered" % len(registry.CHECKS))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--self-test", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.self_test:
        return self_test()
    t0 = time.time()

    def late(*_):
        raise AnalyserLimit("the analysis took too long")
    signal.signal(signal.SIGALRM, late)
    signal.alarm(LIMIT)
    f, title = registry.CHECKS[a.pid]
    chk = common.Check(a.pid, a.tier, a.repo)
    try:
        try:
            f(chk)
            signal.alarm(0)
        except (common.Missing, SyntaxError):
            raise
        except Exception as e:
            raise AnalyserLimit("%s: %s" % (type(e).__name__, e)) from e
    except common.Missing as e:
        print("ERROR property=%s anchor vanished: %s" % (a.pid, e))
        return 2
    except AnalyserLimit as e:
        # A construct the analyser cannot follow decides nothing; what was
        # decided before it stands.
        signal.alarm(0)
        chk.add(common.UNDECIDED, "analysis completes", a.pid, str(e))
        traceback.print_exc()
    except SyntaxError as e:
        print("ERROR property=%s source does not parse: %s" % (a.pid, e))
        return 2
    return report(chk, a, time.time() - t0, title)


def report(chk, a, wall, title):
    known = dict(known_findings(a.pid))
    viol, seen_known = [], []
    for o in chk.obls:
        if o["status"] == common.VIOLATED:
            if o["key"] in known:
                if o["key"] not in seen_known:
                    seen_known.append(o["key"])
            else:
                viol.append(o)
    n = len(chk.obls)
    held = sum(o["status"] == common.HOLD for o in chk.obls)
    und = [o for o in chk.obls if o["status"] == common.UNDECIDED]
    floor = registry.FLOOR.get(a.pid, 1)
    cov = {
        "explanation":
            "Static decision over the current source of /repo: interprocedural "
            "gated value-numbering dataflow (no execution of the code, no "
            "solver); each obligation is an equality of normal forms, a "
            "must/may dataflow fact or an effect fact about named constructs.",
        "obligations": n,
        "discharged": held,
        "undecided": [
            {"rule": o["rule"], "where": o["where"],
             "detail": o["detail"][:400]} for o in und][:40],
        "abstract_runs": chk.runs,
        "functions_analysed": sorted("%s:%s" % x for x in chk.functions),
        "counts": chk.counts,
        "constructs_not_modelled": chk.notes[:20],
        "rules": sorted({o["rule"] for o in chk.obls}),
        "samples": [
            {"rule": o["rule"], "where": o["where"], "status": o["status"]}
            for o in chk.obls[:12]],
    }
    ev = {
        "property": a.pid, "tier": a.tier if a.tier in (
            "quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other", "coverage": cov,
        "wall_s": round(wall, 3),
        "violations": len(viol),
        "assumptions": registry.ASSUMPTIONS,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (a.pid, known[k]))
    print("%s %s: %d obligations, %d hold, %d undecided, %d violated "
          "(%d abstract runs, %d functions, %.2fs)" % (
              a.pid, title, n, held, len(und), len(viol), chk.runs,
              len(chk.functions), wall))
    if a.v:
        for o in chk.obls:
            if o["status"] != common.HOLD:
                print("  %s %s @ %s\n    %s" % (
                    o["status"], o["rule"], o["where"], o["detail"]))
        for x in chk.notes:
            print("  note", x)
    if viol:
        d = os.path.join(HERE, "out")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, a.pid + ".violation.json")
        with open(path, "w") as f:
            json.dump({"property": a.pid, "title": title,
                       "violations": viol,
                       "rerun": "cd /verif && python3 check.py %s -v"
                       % a.pid}, f, indent=1)
        for o in viol[:8]:
            print("  rule %s broken at %s" % (o["rule"], o["where"]))
            print("    " + o["detail"][:1200])
        print("VIOLATION property=%s replay=%s" % (a.pid, path))
        return 1
    if not held or (n < floor and not und):
        print("ERROR property=%s only %d obligations decided (floor %d)" % (
            a.pid, held, floor))
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
