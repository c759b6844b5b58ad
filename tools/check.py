#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's tree.

1. build the contract verifier (gowp) from /verif/gowp
2. load /repo's current source with the contract files overlaid, generate and
   discharge every obligation of the contracts of the property (and of the
   contracts those rely on)
3. run the bounded replay harness of the property against the real code: it
   looks for a concrete failing input (for a failed obligation, and for the parts
   labelled bounded), it is never counted as proved
4. write /verif/evidence/<property>.json
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
T0 = time.time()


def go_env():
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off",
             GOSUMDB="off", GONOSUMDB="*", CGO_ENABLED="0")
    e.setdefault("HOME", "/root")
    return e


def sh(cmd, cwd=None, env=None, timeout=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or go_env(), timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        out = e.stdout or ""
        if isinstance(out, bytes):
            out = out.decode(errors="replace")
        return -1, out + "\n[timeout after %ss]" % timeout


def load_json(path, default):
    try:
        return json.load(open(path))
    except (OSError, ValueError):
        return default


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    conf = load_json(os.path.join(VERIF, "tools", "props.json"), {}).get(prop, {})
    outdir = os.path.join(VERIF, "out", prop)
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return run(prop, tier, seed, conf, outdir, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def gowp_cmd(exe, prop, tier, rep):
    budget, total = ("240", "620") if tier == "quick" else ("300", "3000")
    return [exe, "-repo", REPO, "-contracts", os.path.join(VERIF, "contracts"),
            "-prop", prop, "-v", "-budget", budget, "-total", total, "-out", rep]


def run(prop, tier, seed, conf, outdir, tmp):
    exe = os.path.join(tmp, "gowp")
    rc, out = sh(["go", "build", "-o", exe, "."], cwd=os.path.join(VERIF, "gowp"), timeout=400)
    if rc != 0:
        print("cannot build the verifier:\n" + out)
        return 2
    rep = os.path.join(tmp, "report.json")
    # harness runs beside the proofs
    hout = os.path.join(tmp, "harness.txt")
    hp = start_harness(prop, tier, seed, conf, tmp, hout)
    rc, vout = sh(gowp_cmd(exe, prop, tier, rep), cwd=tmp, timeout=720 if tier == "quick" else 3300)
    report = load_json(rep, None)
    harness = finish_harness(hp, hout, tier)

    failed, missing = [], []
    cons = []
    if report is None:
        failed.append({"name": prop + "/load", "detail": vout[-3000:]})
    else:
        cons = report["contracts"] or []
        missing = [m for m in (report.get("missing_required") or []) if m.split()[0] == prop]
        for c in cons:
            if c["ok"] or c.get("excused"):
                continue
            if c.get("unsupported"):
                failed.append({"name": c["contract"] + "/unsupported", "detail": c["unsupported"]})
            elif not c.get("failed"):
                failed.append({"name": c["contract"] + "/cover", "detail": "no path reaches the end of the contract, or no obligation"})
            for f in c.get("failed") or []:
                failed.append({"name": f["name"], "func": f.get("func"), "pos": f.get("pos"), "status": f.get("status"),
                               "solver": f.get("solver"), "goal": f.get("goal"), "raw": f.get("raw")})
        for m in missing:
            failed.append({"name": m.split()[1] + "/missing", "detail": "target of the contract not found: " + m})
        if not cons and conf.get("contracts", True):
            failed.append({"name": prop + "/no-contracts", "detail": "no contract was verified"})

    known = load_json(os.path.join(VERIF, "known-findings.json"), {"findings": []})["findings"]
    for k in known:
        if k["property"] == prop and k.get("status") == "open":
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    hfail = harness.get("violation")
    violations = 0
    replay = os.path.join(outdir, "replay.txt")
    if os.path.exists(replay):
        os.remove(replay)
    if hfail:
        violations += 1
    violations += len(failed)
    if failed or hfail:
        with open(replay, "w") as f:
            f.write("property %s\n" % prop)
            if hfail:
                f.write("\n== failing input on the real code (replay: %s)\n%s\n" % (harness.get("cmd", ""), hfail))
            if failed:
                f.write("\n== obligations not discharged (verifier: %s)\n" % " ".join(gowp_cmd("gowp", prop, tier, "report.json")))
                for x in failed:
                    f.write(json.dumps(x, indent=1) + "\n")
            f.write("\n== verifier output\n" + vout[-6000:] + "\n")
            if not hfail:
                f.write("\n== replay harness (no failing input found)\n" + json.dumps(harness, indent=1)[:4000] + "\n")
    write_evidence(prop, tier, seed, conf, report, cons, failed, harness, violations)
    if failed or hfail:
        for x in failed[:12]:
            print("obligation not discharged: %s %s %s" % (x["name"], x.get("pos") or "", x.get("detail") or x.get("status") or ""))
        tail = "" if hfail else " no-failing-input-found"
        print("VIOLATION property=%s replay=%s%s" % (prop, replay, tail))
        return 1
    n = sum(c["total"] for c in cons)
    print("%s: %d contracts, %d obligations discharged; harness: %s; %.1fs" % (
        prop, len(cons), n, harness.get("summary", "none"), time.time() - T0))
    return 0


def start_harness(prop, tier, seed, conf, tmp, hout):
    h = conf.get("harness")
    if not h:
        return None
    procs = []
    for pkg in h:
        d = os.path.join(VERIF, "replay", pkg)
        repl = {}
        for n in sorted(os.listdir(d)):
            if not n.endswith(".go"):
                continue
            m = re.match(r"(c\d\d)_", n)
            if m and m.group(1).upper() != prop:
                continue
            repl[os.path.join(REPO, pkg, "zz_verif_" + n.replace(".go", "_test.go").replace("_test_test", "_test"))] = os.path.join(d, n)
        ov = os.path.join(tmp, "ov-%s.json" % pkg)
        json.dump({"Replace": repl}, open(ov, "w"))
        secs = h[pkg].get(tier, 20)
        e = go_env()
        e.update(VERIF_SEED=str(seed), VERIF_SECS=str(secs), VERIF_TIER=tier, VERIF_HARNESS_OUT=hout, VERIF_TMP=tmp, GOMEMLIMIT="6GiB")
        cmd = [shutil.which("go1.25") or "go", "test", "-overlay", ov, "-vet=off", "-count=1", "-timeout", "%ds" % (secs * 3 + 120), "-run", "^TestVerif%s$" % prop, "./" + pkg]
        p = subprocess.Popen(cmd, cwd=REPO, env=e, stdout=open(hout + "." + pkg + ".log", "w"), stderr=subprocess.STDOUT)
        procs.append((pkg, p, secs * 3 + 300, " ".join(cmd)))
    return procs


def finish_harness(procs, hout, tier):
    if not procs:
        return {"summary": "none"}
    res = {"summary": "", "packages": {}, "cmd": ""}
    for pkg, p, to, cmd in procs:
        try:
            p.wait(timeout=to)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        log = open(hout + "." + pkg + ".log", errors="replace").read()
        r = load_json(hout + "." + pkg, None)
        if r is None:
            # a crash of the test binary (e.g. a fatal error in the code under test) or no build
            if "panic:" in log or "fatal error:" in log or "runtime: goroutine stack exceeds" in log:
                last = ""
                try:
                    last = open(hout + "." + pkg + ".last", errors="replace").read()[:4000]
                except OSError:
                    pass
                if last:
                    res["violation"] = "the code under test crashed on:\n" + last + "\n" + log[:4000]
                    res["cmd"] = cmd
            res["packages"][pkg] = {"error": log[-3000:]}
            res["summary"] += " %s: did not run" % pkg
            continue
        res["packages"][pkg] = {k: r[k] for k in r if k != "violation"}
        res["summary"] += " %s: %d evaluations" % (pkg, r.get("evaluations", 0))
        if r.get("violation"):
            res["violation"] = r["violation"]
            res["cmd"] = cmd
    res["summary"] = res["summary"].strip()
    return res


def write_evidence(prop, tier, seed, conf, report, cons, failed, harness, violations):
    cov = {}
    total = sum(c["total"] for c in cons)
    disc = sum(c["discharged"] for c in cons)
    by = {}
    for c in cons:
        for k, v in c["by_solver"].items():
            by[k] = by.get(k, 0) + v
    cov["obligations"] = total
    cov["discharged"] = disc
    cov["checker_cmd"] = " ".join(gowp_cmd("gowp", prop, tier, "report.json"))
    models = sorted({m for c in cons for m in c.get("models") or []})
    assume = sorted({a for c in cons for a in c.get("assumptions") or []})
    trusted = ["gowp (the condition generator, /verif/gowp), golang.org/x/tools/go/ssa, z3-new 5.3.2, z3 4.8.12, cvc5 1.1.2"]
    trusted += ["trusted contract of " + m for m in models]
    if report:
        used = {u for c in cons for u in c.get("used") or []}
        trusted += ["trusted: " + t for t in (report.get("trusted") or []) if t.split(":")[0] in used]
    cov["trusted_base"] = trusted
    cov["functions_under_contract"] = [
        {"contract": c["contract"], "target": c["target"] or "(lemma or client)", "obligations": c["total"], "discharged": c["discharged"],
         "kinds": c["kinds"], "paths": c["paths"], "covered": c["covered"], "inlined": c.get("inlined") or [], "relies_on": c.get("used") or [],
         "seconds": round(c["seconds"], 2), "excused": bool(c.get("excused"))} for c in cons]
    cov["discharged_by_back_end"] = by
    if report:
        cov["solver_seconds"] = round(report["solver_seconds"], 2)
        cov["solver_runs"] = report["solver_runs"]
        cov["helper_contracts_missing"] = report.get("missing") or []
        cov["contract_files_dropped"] = report.get("dropped") or []
    cov["failed"] = [x["name"] for x in failed]
    b = {"label": "bounded; not counted as proved", "covers": conf.get("bounded", "replay harness: the property's oracle on generated inputs of the real code")}
    b.update(harness)
    cov["bounded_harness"] = b
    ev = {"property": prop, "tier": tier, "seed": seed, "level": conf.get("level", "proof"), "coverage": cov,
          "assumptions": assume + conf.get("assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": violations}
    if conf.get("level") in ("exploration", "fault_enumeration"):
        pk = [p for p in harness.get("packages", {}).values() if "evaluations" in p]
        cov["evaluations"] = sum(p["evaluations"] for p in pk)
        cov["distinct_nontrivial"] = sum(p.get("distinct", 0) for p in pk)
        cov["rule"] = "; ".join(p.get("rule", "") for p in pk)
        cov["samples"] = [s for p in pk for s in (p.get("samples") or [])][:8]
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
