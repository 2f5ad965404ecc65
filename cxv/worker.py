"""Proof worker (run as `python3-vt -m cxv.worker PID OUT.json LITERALS TIER`): extracts the current source,
generates the obligations of one property and discharges them.  Isolated in its own process so that a crash or
time-out of a solver is an undecided obligation, never an answer."""
import sys, json, time, os, importlib


def one(pid, job, wr, tmo, deadline):
    """one function's contract, in its own process"""
    from .vc import Ctx
    u, n, f = job
    c = Ctx(pid, u, timeout=tmo)
    c.deadline = deadline
    c.group(n, f, c)
    r = {"obligations": [{"name": o.name, "status": o.status, "backend": o.backend, "secs": round(o.secs, 3), "detail": o.detail[:3000], "contract": n} for o in c.obl],
         "undecided": c.undecided, "contracts": c.contracts, "trusted": sorted(map(str, c.X.trusted)), "assumed": sorted(map(str, c.S.assumed)),
         "functions": sorted(map(str, c.X.used))}
    b = json.dumps(r).encode()
    while b:
        b = b[os.write(wr, b):]
    os.close(wr)


def main():
    pid, out, litf, tier = sys.argv[1:5]
    sys.setrecursionlimit(20000)
    t0 = time.time()
    res = {"pid": pid, "obligations": [], "undecided": [], "contracts": [], "trusted": [], "assumed": [], "functions": []}

    def dump():
        with open(out + ".tmp", "w") as f:
            json.dump(res, f)
        os.replace(out + ".tmp", out)
    from .ast import literals, FrontendError, REPO
    mod = importlib.import_module("contracts." + pid)
    specs = getattr(mod, "PARTS", None) or [(mod.UNIT, mod.CONTRACTS)]
    ss, ii = set(), set()
    units = []
    try:
        for spec, cons in specs:
            u = spec.build()
            units.append((u, cons))
            a, b = literals(u, None)
            ss |= set(a)
            ii |= set(b)
    except Exception as e:
        res["undecided"].append(("front end", "%s: %s" % (type(e).__name__, str(e)[:600])))
        open(litf, "w").close()
        dump()
        return
    with open(litf + ".tmp", "w") as f:
        for s in sorted(ss):
            f.write("S " + s.encode("unicode_escape").decode() + "\n")
        for i in sorted(ii):
            f.write("I %d\n" % i)
    os.replace(litf + ".tmp", litf)
    res["extract_s"] = time.time() - t0
    budget = float(os.environ.get("CXV_BUDGET", "300" if tier == "quick" else "780"))
    tmo = 10 if tier == "quick" else 40
    only = os.environ.get("CXV_ONLY")
    jobs = [(u, n, f) for u, cons in units for n, f in cons if not only or only in n]
    par = int(os.environ.get("CXV_JOBS", "6"))
    results = {}
    running = {}
    nxt = 0
    lost = []
    import select
    while nxt < len(jobs) or running:
        while nxt < len(jobs) and len(running) < par:
            rd, wr = os.pipe()
            p = os.fork()
            if p == 0:
                os.close(rd)
                try:
                    one(pid, jobs[nxt], wr, tmo, t0 + budget)
                finally:
                    os._exit(0)
            os.close(wr)
            running[rd] = [p, nxt, b""]
            nxt += 1
        rl, _, _ = select.select(list(running), [], [], 1.0)
        for rd in rl:
            d = os.read(rd, 1 << 20)
            if d:
                running[rd][2] += d
            else:
                p, k, buf = running.pop(rd)
                os.close(rd)
                os.waitpid(p, 0)
                try:
                    results[k] = json.loads(buf)
                except ValueError:
                    lost.append((k, "the proof process ended abnormally"))
        if time.time() > t0 + budget + 30:
            for rd, (p, k, buf) in list(running.items()):
                os.kill(p, 9)
                os.waitpid(p, 0)
                lost.append((k, "time budget used up"))
            lost += [(k, "time budget used up") for k in range(nxt, len(jobs))]
            break
    for k, why in lost:
        res["undecided"].append((jobs[k][1], why))
    for k in sorted(results):
        r = results[k]
        res["obligations"] += r["obligations"]
        res["undecided"] += r["undecided"]
        res["contracts"] += r["contracts"]
        for x in ("trusted", "assumed", "functions"):
            res[x] = sorted(set(res[x]) | set(r[x]))
    res["wall"] = time.time() - t0
    res["done"] = True
    dump()


if __name__ == "__main__":
    main()
