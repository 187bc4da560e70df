#!/opt/venv/bin/python
"""plant.py DEF.py [--tests]: writes /verif/seeded/<id>/ from definitions and confirms each in a scratch copy of /repo.
A definition file holds BUGS = [dict(id, property, edits=[(file, old, new), ...], needs, breaks, demo=<python source>), ...]."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, "seeded")
SCR = "/tmp/plant-scratch"
DEMO = """#!/bin/bash
# exit 0: the property holds; nonzero: it is broken.  Run with cwd = the repository.
D="$(cd "$(dirname "$0")" && pwd)"
S="$(mktemp -d)"; trap 'rm -rf "$S"' EXIT
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$S" SCRATCH="$S" OPENBLAS_NUM_THREADS=1
/opt/venv/bin/python -W ignore "$D/demo.py"
"""
PRE = "import os, sys, tempfile\nsys.stdout.reconfigure(line_buffering=True)\nSCRATCH = os.environ['SCRATCH']\n"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def fresh():
    shutil.rmtree(SCR, ignore_errors=True)
    assert sh("cp -a %s %s" % (os.environ.get("PLANT_BASE", "/repo"), SCR)).returncode == 0


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = [a for a in sys.argv[2:] if not a.startswith("-")]
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        fresh()
        d = os.path.join(OUT, b["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.py", "w").write(PRE + b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        r0 = sh("bash %s/demo.sh" % d, cwd=SCR, timeout=300)
        for f, old, new in b["edits"]:
            p = os.path.join(SCR, f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run("git diff", shell=True, stdout=subprocess.PIPE, text=True, cwd=SCR).stdout
        open(d + "/patch.diff", "w").write(diff)
        r1 = sh("bash %s/demo.sh" % d, cwd=SCR, timeout=300)
        bad = []
        if r0.returncode:
            bad.append("demo fails unpatched: " + r0.stdout[-600:])
        if r1.returncode == 0:
            bad.append("demo passes patched: " + r1.stdout[-300:])
        line = r1.stdout.strip().splitlines()[-1][:160] if r1.stdout.strip() else ""
        print(b["id"], "OK" if not bad else "BAD " + " | ".join(bad), "--", line, flush=True)
        if "--tests" in sys.argv:
            t = open("/opt/vp/test.sh").read().replace("/repo", SCR)
            open(SCR + "-test.sh", "w").write(t)
            sh("bash %s-test.sh %s-out.json" % (SCR, SCR))
            res = json.load(open(SCR + "-out.json"))
            st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            ok = set(res["passed"])
            print("   tests:", "OK" if st <= ok else "MISSING %s" % sorted(st - ok)[:5], flush=True)
    shutil.rmtree(SCR, ignore_errors=True)


main()
