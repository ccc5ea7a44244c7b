"""Write seeded/<id>/ from dev/seeds/*.py specs, in a scratch copy of /repo.

usage: plant.py [ID ...] [--tests]"""
import glob, json, os, subprocess, sys, shutil, runpy
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
WT = "/tmp/plant_repo"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, universal_newlines=True, **k)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    check = "--check" in sys.argv
    specs = {}
    for f in sorted(glob.glob(HERE + "/seeds/*.py")):
        for s in runpy.run_path(f)["SEEDS"]:
            assert s["id"] not in specs, s["id"]
            specs[s["id"]] = s
    shutil.rmtree(WT, ignore_errors=True)
    sh("cp -a /repo %s" % WT)
    for i, s in specs.items():
        if args and i not in args:
            continue
        sh("git -C %s checkout -q -- ." % WT)
        ok = True
        for f, old, new in s["edits"]:
            p = os.path.join(WT, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(i, "EDIT MATCHES", t.count(old), f, old[:50]); ok = False
                continue
            open(p, "w").write(t.replace(old, new))
        if not ok:
            continue
        d = os.path.join(V, "seeded", i)
        os.makedirs(d, exist_ok=True)
        diff = sh("git -C %s diff" % WT).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(
            '#!/bin/bash\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        json.dump({"property": s["property"], "needs": s["needs"],
                   "what_it_breaks": s["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        # demo both ways, on copies: cwd first on the path
        env = dict(os.environ, PYTHONPATH=WT, MPLBACKEND="Agg")
        def demo():
            r = sh("cd %s && PYTHONPATH=%s bash %s/demo.sh" % (WT, WT, d), env=env)
            return r
        bad = demo()
        line = "%s bad=%s" % (i, bad.returncode)
        if check:
            r = sh("TSA_REPO=%s TSA_EVIDENCE=/tmp/plant_ev python3 %s/check.py %s" % (WT, V, s["property"]))
            viol = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "Traceback" in l]
            line += " check=%s" % r.returncode
            if "-v" in sys.argv or "--verbose" in sys.argv:
                print(r.stdout[-1500:])
        if "--tests" in sys.argv:
            r = sh("cd %s && PYTHONPATH=%s:/opt/vp/plugin OMP_NUM_THREADS=1 "
                   "/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p vp_isolate "
                   "-n 8 --dist loadfile turbustat" % (WT, WT), env=env)
            line += " tests: " + str([x for x in r.stdout.splitlines() if " passed" in x or x.startswith("FAILED")])[:300]
        sh("git -C %s checkout -q -- ." % WT)
        good = demo()
        line += " good=%s" % good.returncode
        print(line, flush=True)
        if good.returncode or not bad.returncode:
            print("   GOOD:", good.stdout[-600:], "\n   BAD:", bad.stdout[-300:])
    shutil.rmtree(WT, ignore_errors=True)


main()
