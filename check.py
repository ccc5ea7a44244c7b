#!/usr/bin/env python3
"""Decide one property of /repo by static analysis.

    python3 check.py P01 [--tier quick|thorough] [--list]

Exit 0: the property held on everything analysed.  Exit 1: VIOLATION lines.
Exit 2: the analysis could not give an answer (source does not parse, a class
of the public API vanished, a rule matched fewer instances than confirmed).
"""
import argparse
import importlib
import json
import os
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(60000)


def known():
    """{(property, key): text} of findings recorded as known."""
    out = {}
    path = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(path):
        for ln in open(path):
            ln = ln.strip()
            if not ln or ln.startswith("#") or ln.startswith("fixed:"):
                continue
            d = json.loads(ln)
            if d.get("status") == "known":
                out[(d["property"], d["key"])] = d["what"]
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args(argv)
    from tsa import core
    from tsa.project import AnalysisError
    t0 = time.time()
    pid = a.property
    mod = importlib.import_module("tsa.rules." + pid.lower())
    rep = core.Report()
    try:
        p = core.load()
        mod.check(p, rep, a.tier)
        for name, (got, want) in rep.floor.items():
            if got < want:
                raise AnalysisError(
                    "only %d %s found, at least %d were confirmed by hand: "
                    "the rule no longer sees the code it is about"
                    % (got, name, want))
        mod_self = getattr(mod, "selftest", None)
        if mod_self is not None:
            mod_self(rep)
    except AnalysisError as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    kn = known()
    viol = []
    evdir = os.environ.get("TSA_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    repdir = os.path.join(evdir, "replay")
    os.makedirs(repdir, exist_ok=True)
    for key, f in sorted(rep.findings.items()):
        if (pid, key) in kn:
            print("KNOWN-FINDING: property=%s %s [%s]" %
                  (pid, kn[(pid, key)], key))
            continue
        viol.append(f)
    if viol:
        rp = os.path.join(repdir, pid + ".txt")
        with open(rp, "w") as fh:
            fh.write("# re-check: python3 %s %s\n" %
                     (os.path.join(HERE, "check.py"), pid))
            for f in viol:
                fh.write("\n%s\n  line %s: %s\n" % (f.key, f.line, f.msg))
                for s in f.trace:
                    fh.write("    via %s\n" % s)
        for f in viol:
            print("%s:%s: [%s] %s: %s" % (f.where, f.line, f.rule,
                                          f.construct, f.msg))
            if f.trace:
                print("    path: " + " -> ".join(f.trace))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
    level, expl = getattr(mod, "LEVEL", "other"), mod.EXPLANATION
    ev = {
        "property": pid, "tier": a.tier if a.tier in ("quick", "thorough")
        else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": level,
        "coverage": {
            "explanation": expl,
            "rule": mod.RULE,
            "obligations": rep.obligations,
            "discharged": rep.discharged,
            "modules_parsed": len(p.modules),
            "functions_analysed": len(rep.functions),
            "counts": rep.counts,
            "instances": {k: v[0] for k, v in rep.floor.items()},
            "samples": rep.samples[:12],
            "known_findings": len(rep.findings) - len(viol),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    with open(os.path.join(evdir, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s: %d obligations, %d discharged, %d functions, %d violations, "
          "%.1f s" % (pid, rep.obligations, rep.discharged,
                      len(rep.functions), len(viol), time.time() - t0))
    return 1 if viol else 0


def _run():
    global RC
    try:
        RC = main()
    except SystemExit as e:
        RC = e.code
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN internal error")
        RC = 2


if __name__ == "__main__":
    # the interpreter is recursive: give it a large stack
    RC = 2
    threading.stack_size(1 << 29)
    t = threading.Thread(target=_run)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(RC if isinstance(RC, int) else 2)
