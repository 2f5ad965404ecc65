"""python3-vt tools/benign.py SPEC [-f] [ids...]: applies behaviour-preserving edits to a copy of /repo and runs the proofs (-f: full checks)"""
import sys, os, subprocess, json, shutil, runpy, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
full = "-f" in sys.argv
args = [a for a in sys.argv[1:] if a != "-f"]
E = runpy.run_path(args[0])["EDITS"]
W = tempfile.mkdtemp(prefix="benign")
subprocess.run("cp -a /repo/include /repo/src /repo/_build %s/ 2>/dev/null" % W, shell=True)
from concurrent.futures import ThreadPoolExecutor


def one(e):
    if args[1:] and e["id"] not in args[1:]:
        return None
    w = tempfile.mkdtemp(prefix="benign1")
    subprocess.run("cp -a %s/. %s/" % (W, w), shell=True)
    out = []
    for f, o, n in e["edits"]:
        p = os.path.join(w, f)
        s = open(p).read()
        if s.count(o) != 1:
            return e["id"] + ": edit does not match"
        open(p, "w").write(s.replace(o, n))
    env = dict(os.environ, CXV_REPO=w)
    for pid in e["props"]:
        if full:
            r = subprocess.run(["python3-vt", "-m", "cxv.run", pid, "quick"], cwd=V, env=dict(env, CXV_EVID=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            out.append("%s rc=%s %s" % (pid, r.returncode, r.stdout[-300:]))
            continue
        d = tempfile.mkdtemp()
        r = subprocess.run(["python3-vt", "-m", "cxv.worker", pid, d + "/o.json", d + "/lit", "quick"], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        try:
            j = json.load(open(d + "/o.json"))
            bad = [(o["status"], o["name"]) for o in j["obligations"] if o["status"] != "discharged"]
            out.append("%s %s%s%s" % (pid, "ok %d" % len(j["obligations"]) if not bad and not j["undecided"] else "", "".join("\n    %s %s" % b for b in bad[:6]), "".join("\n    OUT %s :: %s" % (n, str(x)[:200]) for n, x in j["undecided"][:6])))
        except Exception as x:
            out.append("%s NO RESULT %s" % (pid, r.stdout[-400:]))
        shutil.rmtree(d)
    shutil.rmtree(w)
    return e["id"] + ": " + " | ".join(out)


with ThreadPoolExecutor(int(os.environ.get("J", "6"))) as ex:
    for r in ex.map(one, E):
        if r:
            print(r, flush=True)
shutil.rmtree(W)
