"""Authoring and confirming planted bugs.
  plant.py new SPEC.py      SPEC defines BUGS = [dict(id, property, file/edits, needs, what, sources, demo)]; writes seeded/<id>/
  plant.py confirm ID...    applies to /repo, builds, runs tests, demo and the property's check, and undoes it"""
import sys, os, json, subprocess, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("PLANT_REPO", "/repo")


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


DEMO = """#!/bin/bash
# run in /repo after the build: exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf -- "$tmp"' EXIT
g++ -std=c++20 -O0 -w -DNF_WITH_GINKGO=0 -DNF_WITH_PETSC=0 -DNEOFOAM_DP_SCALAR=1 %(flags)s -I"$PWD/include" -I"$PWD/_build/include" -I"$here" "$here/demo.cpp" %(src)s -o "$tmp/demo" -lpthread || exit 2
timeout 60 "$tmp/demo"
"""


def new(spec):
    for b in runpy.run_path(spec)["BUGS"]:
        d = "%s/seeded/%s" % (V, b["id"])
        os.makedirs(d, exist_ok=True)
        assert not sh(["git", "-C", R, "status", "--short", "--untracked-files=no"]).stdout, "dirty /repo"
        for f, old, newt in b["edits"]:
            p = os.path.join(R, f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, newt))
        open(d + "/patch.diff", "w").write(sh(["git", "-C", R, "diff"]).stdout)
        sh(["git", "-C", R, "checkout", "--", "."])
        open(d + "/demo.cpp", "w").write(b["demo"])
        for n, t in b.get("files", {}).items():
            os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
            open(os.path.join(d, n), "w").write(t)
        for src, dst in b.get("copy", []):
            (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, os.path.join(d, dst), **({"dirs_exist_ok": True} if os.path.isdir(src) else {}))
        open(d + "/demo.sh", "w").write(DEMO % {"flags": b.get("flags", ""), "src": " ".join('"$PWD/%s"' % s for s in b["sources"])})
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(d + "/meta.json", "w"), indent=1)
        print("wrote", b["id"])


def stable():
    o = "/tmp/plant_out.json"
    r = sh(["bash", "/opt/vp/test.sh", o])
    try:
        j = json.load(open(o))
    except Exception:
        return "no result: " + r.stdout[-300:]
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    passed = set(j.get("passed", j.get("pass", [])))
    return "ok" if base <= passed else "broken: %s" % sorted(base - passed)[:4]


def confirm(ids):
    for i in ids:
        d = "%s/seeded/%s" % (V, i)
        m = json.load(open(d + "/meta.json"))
        clean = sh(["bash", d + "/demo.sh"], cwd=R)
        a = sh(["git", "-C", R, "apply", d + "/patch.diff"])
        if a.returncode:
            print(i, "DOES NOT APPLY", a.stdout)
            continue
        try:
            b = sh(["bash", "/opt/vp/build.sh"])
            t = stable() if b.returncode == 0 else "build failed " + b.stdout[-800:]
            demo = sh(["bash", d + "/demo.sh"], cwd=R)
            c = sh(["python3", "cxv/run.py", m["property"]], cwd=V)
        finally:
            sh(["git", "-C", R, "checkout", "--", "."])
        v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        print("%s: demo clean rc=%d patched rc=%d tests %s | check rc=%d %s" % (i, clean.returncode, demo.returncode, t, c.returncode, v), flush=True)
        if clean.returncode or not demo.returncode or not v:
            print(clean.stdout[-500:], demo.stdout[-500:], c.stdout[-1500:])
        else:
            print("    " + "\n    ".join(c.stdout.splitlines()[:5])[:600])
    sh(["bash", "/opt/vp/build.sh"])


if sys.argv[1] == "new":
    new(sys.argv[2])
else:
    confirm(sys.argv[2:] or sorted(os.listdir(V + "/seeded")))
