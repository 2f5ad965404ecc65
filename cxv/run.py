#!/usr/bin/env python3
"""One property's check: discharge all obligations of the current source, and replay against the real code.

exit 0  every obligation discharged (or, where the verifier has no answer, the labelled bounded check held)
exit 1  VIOLATION line: a concrete failing history on the real code, or an obligation the verifier refuted"""
import sys, os, json, time, subprocess, shutil, tempfile, importlib, signal

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("CXV_REPO", "/repo")
sys.path.insert(0, VERIF)


def sh(cmd, **k):
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True, **k)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except Exception:
        pass


def wait(p, t):
    try:
        out, _ = p.communicate(timeout=t)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        kill(p)
        out, _ = p.communicate()
        return None, out


def known(pid):
    """committed list of known findings: lines 'known: property=<id> key=<obligation or harness check> <text>'"""
    out = []
    try:
        for l in open(os.path.join(VERIF, "KNOWN_FINDINGS")):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                key = l.split(" key=", 1)[1].split(" ")[0]
                out.append((key, l.split(" key=", 1)[1][len(key):].strip()))
    except FileNotFoundError:
        pass
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = json.load(open(os.path.join(VERIF, "harness", "harness.json"))).get(pid, {})
    tmp = tempfile.mkdtemp(prefix="cxv-%s-" % pid)
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    try:
        return check(pid, tier, seed, t0, spec, tmp, rdir)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def compile_cmd(spec, pid, exe, sanitize):
    src = [os.path.join(VERIF, "harness", spec.get("file", pid + ".cpp"))] + [os.path.join(REPO, s) for s in spec.get("sources", [])]
    fl = ["-std=c++20", "-O1", "-g", "-DNF_WITH_GINKGO=0", "-DNF_WITH_PETSC=0", "-DNEOFOAM_DP_SCALAR=1", "-DNDEBUG", "-w"]
    if sanitize:
        fl += ["-fsanitize=%s" % spec.get("sanitize", "address,undefined"), "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
    fl += ["-I" + os.path.join(VERIF, "harness")] + [f.replace("%V", VERIF).replace("%R", REPO) for f in spec.get("flags", [])]
    fl += ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "_build", "include")]
    return ["g++"] + fl + src + ["-o", exe, "-lpthread"] + spec.get("libs", [])


def check(pid, tier, seed, t0, spec, tmp, rdir):
    env = dict(os.environ)
    env["CXV_TMP"] = tmp
    out, litf, exe = (os.path.join(tmp, x) for x in ("proof.json", "lits", "harness"))
    wk = sh(["python3-vt", "-m", "cxv.worker", pid, out, litf, tier], cwd=VERIF, env=env)
    comp = sh(compile_cmd(spec, pid, exe, True)) if spec else None
    crc, cout = wait(comp, 300) if comp else (None, "no replay harness")
    if comp and crc != 0:      # a change may no longer support the harness's less common instantiations
        comp = sh(compile_cmd(spec, pid, exe, True) + ["-DH_BASIC"])
        crc, cout = wait(comp, 300)
    # harness: real code, model-based oracle
    hres = {"ran": False}
    limit = 200 if tier == "quick" else 420
    if comp and crc == 0:
        tl = time.time()
        while not os.path.exists(litf) and wk.poll() is None and time.time() - tl < 120:
            time.sleep(0.05)
        if not os.path.exists(litf):
            open(litf, "w").close()
        secs = spec.get("secs", 6) if tier == "quick" else spec.get("thorough_secs", 120)
        rep = os.path.join(tmp, "replay.txt")
        e2 = dict(env, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=1", TSAN_OPTIONS="halt_on_error=1:exitcode=66")
        cmd = [exe, "--seed", str(seed), "--secs", str(secs), "--lits", litf, "--replay-out", rep]
        hp = sh(cmd, env=e2, cwd=tmp)
        hrc, hout = wait(hp, secs + 120)
        hres = {"ran": True, "rc": hrc, "out": hout[-6000:], "cmd": cmd}
        if spec.get("only") and hrc:
            # this harness is about one kind of failure; anything else that goes wrong in it is another property's business
            if spec["only"] in hout:
                i = hout.index(spec["only"])
                fr = [l.strip() for l in hout[i:i + 3000].splitlines() if l.strip().startswith("#") and "/NeoFOAM/" in l + "/NeoFOAM/" and ("NeoFOAM" in l)]
                hres["out"] = "FAIL %s %s\n" % (spec["only"], fr[0][:200] if fr else "") + hout[i:i + 6000]
            else:
                hres = {"ran": False, "compile_error": "the harness ended for another reason: " + hout[-600:]}
        if hrc and "FATAL: ThreadSanitizer" in hout:      # the sandbox does not let the race detector start
            hres = {"ran": False, "compile_error": hout[-800:]}
        hres["trace"] = open(rep, errors="replace").read()[-20000:] if os.path.exists(rep) else ""
        for l in hout.splitlines():
            if l.startswith("STATS "):
                try:
                    hres["stats"] = json.loads(l[6:])
                except Exception:
                    pass
    elif comp:
        hres["compile_error"] = cout[-3000:]
    wrc, wout = wait(wk, max(5, (420 if tier == "quick" else 860) - (time.time() - t0)))
    try:
        proof = json.load(open(out))
    except Exception:
        proof = {"obligations": [], "undecided": [("worker", "no result")], "contracts": [], "trusted": [], "assumed": [], "functions": []}
    if not proof.get("done") and not any(n == "front end" for n, _ in proof["undecided"]):
        proof["undecided"].append(("worker", "the proof process ended early (rc=%s): %s" % (wrc, (wout or "")[-400:])))
    return decide(pid, tier, seed, t0, spec, proof, hres, rdir)


def decide(pid, tier, seed, t0, spec, proof, hres, rdir):
    obl = proof["obligations"]
    failed = [o for o in obl if o["status"] == "failed"]
    unknown = [o for o in obl if o["status"] == "unknown"]
    done = [o for o in obl if o["status"] == "discharged"]
    und = list(proof["undecided"])
    kn = known(pid)
    lines, viol = [], []
    # concrete failures
    hfail = None
    if hres.get("ran") and hres.get("rc") != 0:
        what = [l[5:] for l in hres["out"].splitlines() if l.startswith("FAIL ")]
        if hres.get("rc") is None and not what:
            what = ["the harness did not finish (a call does not return)"]
        hfail = what[0] if what else "abnormal termination (rc=%s)" % hres.get("rc")
    knhit = set()
    for k, text in kn:
        for o in list(failed):
            if k in o["name"].replace(" ", "_"):
                failed.remove(o)
                knhit.add((k, text))
    for l in hres.get("out", "").splitlines():
        if l.startswith("KNOWN "):
            for k, text in kn:
                if l[6:].split(" ")[0] == k:
                    knhit.add((k, text))
    for k, text in kn:
        if (k, text) in knhit:
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, text))
    if hfail or failed:
        path = os.path.join(rdir, "%s.txt" % pid)
        with open(path, "w") as f:
            f.write("property %s, seed %d, tier %s\n" % (pid, seed, tier))
            for o in failed:
                f.write("\nFAILED OBLIGATION: %s\n  contract of: %s\n  back end: %s\n  counterexample to the obligation:\n" % (o["name"], o["contract"], o["backend"]))
                f.write("\n".join("    " + l for l in o["detail"].splitlines()) + "\n")
            for o in unknown[:20]:
                f.write("\nUNDECIDED OBLIGATION: %s (%s)\n" % (o["name"], o["detail"]))
            if hfail:
                f.write("\nCONCRETE FAILURE ON THE REAL CODE: %s\n" % hfail)
                f.write("command: %s\n" % " ".join(hres.get("cmd", [])))
                f.write("failing history:\n" + hres.get("trace", "") + "\n--- harness output\n" + hres["out"] + "\n")
            elif hres.get("ran"):
                f.write("\nno failing input found by the replay harness: %s\n" % json.dumps(hres.get("stats", {})))
            else:
                f.write("\nreplay harness not run: %s\n" % hres.get("compile_error", "none"))
        viol.append("VIOLATION property=%s replay=%s%s" % (pid, path, "" if hfail else " no-failing-input-found"))
    full = not failed and not unknown and not und and bool(done)
    st = hres.get("stats", {})
    cov = {
        "obligations": len(obl), "discharged": len(done),
        "checker_cmd": "python3-vt -m cxv.worker %s (clang 18 AST of /repo's working tree -> verification conditions -> z3 %s / cvc5)" % (pid, ""),
        "trusted_base": ["clang 18 front end (AST of the real source)", "cxv: C++ semantics and verification-condition generator (/verif/cxv)", "z3, cvc5"] + ["assumed contract of external function: " + t for t in proof["trusted"]],
        "verifier_accepted_everything": full,
        "failed_obligations": [o["name"] for o in failed],
        "undecided_obligations": [o["name"] for o in unknown],
        "functions_not_within_reach": ["%s: %s" % (n, r[:300]) for n, r in und],
        "contracts": [{"function": n, "obligations": k} for n, k in proof["contracts"]],
        "functions_verified_through": proof["functions"],
        "backends": {b: sum(1 for o in done if o["backend"] == b) for b in sorted({o["backend"] for o in done})},
        "solver_s": round(sum(o["secs"] for o in obl), 2),
        "obligation_names": [o["name"] for o in obl],
    }
    if hres.get("ran"):
        cov["evaluations"] = int(st.get("evaluations", 0))
        cov["distinct_nontrivial"] = int(st.get("nontrivial", 0))
        cov["rule"] = spec.get("rule", "")
        cov["samples"] = st.get("samples", [])
        cov["replay_harness"] = "bounded cross-check on the real code (%ss, seed %d); never counted as proved" % (spec.get("secs", 6), seed)
        if not full:
            cov["bounded_stand_in"] = "the clauses of the functions listed under functions_not_within_reach / undecided_obligations were only tested on the evaluations above"
    else:
        cov["replay_harness"] = "not run: %s" % (hres.get("compile_error", "none")[:800])
    level = spec.get("level", "proof")
    if level == "proof" and not (full or failed):
        level = "exploration"
        cov.setdefault("evaluations", 0)
        cov.setdefault("distinct_nontrivial", 0)
        cov.setdefault("rule", spec.get("rule", ""))
        cov.setdefault("samples", [])
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": sorted(set(proof["assumed"])) + spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    print("%s: %d obligations, %d discharged, %d refuted, %d undecided, %d functions out of reach; harness %s; %.1fs" % (
        pid, len(obl), len(done), len(failed), len(unknown), len(und),
        ("held on %s cases" % st.get("evaluations", "?")) if hres.get("ran") and not hfail else ("FAILED: " + hfail if hfail else "not run"), time.time() - t0))
    for n, r in und:
        print("  bounded stand-in: %s: %s" % (n, r[:200]))
    for o in unknown:
        print("  undecided: %s" % o["name"])
    for o in failed:
        print("  refuted: %s" % o["name"])
    if viol:
        print(viol[0])
        return 1
    if not done and not (hres.get("ran") and hres.get("rc") == 0):
        print("no answer: neither the verifier nor the replay harness could process the current source")
        if "compile_error" in hres:
            print(hres["compile_error"][-1500:])
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
