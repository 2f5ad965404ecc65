"""developer aid: python3-vt tools/prove.py PID [contract substring] - run the proofs of one property, print what is not discharged"""
import sys, os, subprocess, json, tempfile
pid = sys.argv[1]
env = dict(os.environ)
if len(sys.argv) > 2:
    env["CXV_ONLY"] = sys.argv[2]
d = tempfile.mkdtemp()
subprocess.run(["python3-vt", "-m", "cxv.worker", pid, d + "/o.json", d + "/lit", os.environ.get("TIER", "quick")], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=env)
r = json.load(open(d + "/o.json"))
st = {}
for o in r["obligations"]:
    st[o["status"]] = st.get(o["status"], 0) + 1
    if o["status"] != "discharged":
        print("%-10s %s  (%.1fs %s)" % (o["status"], o["name"], o["secs"], o["backend"]))
        if os.environ.get("MODEL"):
            print(o["detail"])
for n, w in r["undecided"]:
    print("UNDECIDED", n, "::", w)
print(st, "wall %.1f" % r.get("wall", 0), "extract %.1f" % r.get("extract_s", 0))
