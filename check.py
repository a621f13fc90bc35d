#!/usr/bin/env python3
"""check.py ID — decide one property against /repo's current working tree.

1. extract the functions under contract from /repo (vextract), run Verus on them;
2. build the executable form of the same contract against the compiled /repo
   crates and run it (counterexample search / stated bounded stand-in);
3. report.  Exit 0: held.  Exit 1 + VIOLATION line: broken.
"""
import json, os, re, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, ".target")
CFG = json.load(open(os.path.join(VERIF, "checks.json")))
VERUS_TOOLCHAIN = "1.98.1"
REPO_TOOLCHAIN = "1.91.1"

def env(**kw):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1",
             CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTUP_TOOLCHAIN=REPO_TOOLCHAIN)
    e.update(kw)
    return e

def sh(cmd, timeout, cwd=VERIF, **kw):
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env(**kw), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors="replace", timeout=timeout)
        return p.returncode, p.stdout, p.stderr, time.time() - t
    except subprocess.TimeoutExpired as x:
        d = lambda b: b.decode("utf8", "replace") if isinstance(b, bytes) else (b or "")
        return 124, d(x.stdout), d(x.stderr) + "\n(timeout)", time.time() - t

# ------------------------------------------------------------------ deduction
def build_extractor():
    return sh(["cargo", "build", "--offline", "--release", "--locked", "--target-dir", TARGET + "/extract"], 400, cwd=VERIF + "/extract")

def verus(path, rlimit, extra=()):
    rc, out, err, dt = sh(["verus", path, "--output-json", "--time", "--rlimit", str(rlimit), *extra], 420,
                          RUSTUP_TOOLCHAIN=VERUS_TOOLCHAIN)
    res = None
    try:
        res = json.loads(out[out.index("{"):])
    except Exception:
        pass
    return rc, res, err, dt

CLASSES = [("rlimit", r"Resource limit \(rlimit\) exceeded|while loop: Resource|solver.*(timed out|unknown)"),]
OBL = re.compile(r"^error: (.*)$", re.M)
VERIFICATION_ERRORS = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed",
    "possible arithmetic", "decreases not satisfied", "unable to prove", "possible division", "possible bit shift", "assertion not",
    "recommendation not met", "loop invariant", "requires not satisfied", "cannot show", "could not prove", "failed to prove", "might not", "bitvector assertion", "could not show", "fails to")

def scan_assumptions(text):
    out = []
    for m in re.finditer(r"external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:proof )?(?:broadcast )?(fn|struct|axiom fn) (\w+)", text):
        out.append("external_body %s %s" % (m.group(1), m.group(2)))
    for m in re.finditer(r"assume_specification(?:<[^>]*>)?\s*\[\s*([^\]]+?)\s*\]", text):
        out.append("assume_specification " + re.sub(r"\s+", "", m.group(1)))
    for m in re.finditer(r"axiom fn (\w+)", text):
        out.append("axiom " + m.group(1))
    for m in re.finditer(r"\badmit\(\)", text): out.append("admit")
    for m in re.finditer(r"\bassume\((?!_spec)", text): out.append("assume")
    for m in re.finditer(r"uninterp spec fn (\w+)", text): out.append("uninterpreted " + m.group(1))
    return sorted(set(out))

def prove_one(pid, name, work):
    """Returns dict: status proved | failed | unestablished, + details."""
    tpl = os.path.join(VERIF, "contracts", name + ".vrs")
    src, rep = os.path.join(work, name + ".rs"), os.path.join(work, name + ".extract.json")
    ex = os.path.join(TARGET, "extract/release/vextract")
    d = {"contract": name, "status": "unestablished", "verified": 0, "errors": 0, "solver_s": 0.0, "functions": [], "assumptions": []}
    rc, out, err, _ = sh([ex, REPO, tpl, src, rep], 60)
    if rc != 0:
        d["reason"] = "extraction: " + (err or out).strip()[-1500:]
        return d
    d["functions"] = json.load(open(rep))
    text = open(src).read()
    d["assumptions"] = scan_assumptions(text)
    total = 0.0
    for attempt, rlimit in enumerate((30, 120)):
        rc, res, err, dt = verus(src, rlimit)
        total += dt
        vr = (res or {}).get("verification-results", {})
        d["verified"], d["errors"] = vr.get("verified", 0), vr.get("errors", 0)
        try:
            d["solver_s"] = round(res["times-ms"]["smt"]["total"] / 1000.0, 2)
        except Exception:
            d["solver_s"] = round(dt, 2)
        d["output"] = err[-12000:]
        if rc == 0 and vr.get("success") and d["verified"] > 0:
            d["status"] = "proved"; break
        if res is None or vr.get("encountered-vir-error") or (d["errors"] == 0):
            d["reason"] = "not in the verifier's reach: " + err.strip()[:1500]; break
        if attempt == 1 or not re.search(CLASSES[0][1], err):
            rl = bool(re.search(CLASSES[0][1], err))
            named = [x for x in OBL.findall(err) if not x.startswith("aborting")]
            hard = [x for x in named if any(v in x.lower() for v in VERIFICATION_ERRORS)]
            if hard and not rl:
                d["status"] = "failed"; d["obligations"] = sorted(set(hard))
                d["places"] = re.findall(r"^error: [^\n]*\n(?:[^\n]*\n){0,3}?\s*--> ([^\n]*)", err, re.M)[:8]
            else:
                d["reason"] = "solver limit: " + "; ".join(named)[:600]
            break
    if d["status"] == "proved":
        # vacuity guard: with `assert(false)` at the entry of every function under contract, every one must fail
        can = os.path.join(work, name + "_canary.rs")
        rc, out, err, _ = sh([ex, REPO, tpl, can, rep + ".c"], 60, VP_CANARY="1")
        nf = sum(1 for f in d["functions"] if "function" in f)
        if rc == 0:
            rc, res, err, dt = verus(can, 30)
            bad = (res or {}).get("verification-results", {}).get("errors", 0)
            d["canary"] = {"functions": nf, "entry_false_rejected": bad}
            if bad < nf:
                d["status"] = "unestablished"; d["reason"] = "vacuity guard: %d of %d entry canaries rejected" % (bad, nf)
        else:
            d["status"] = "unestablished"; d["reason"] = "canary extraction failed"
    return d

def deduce(pid, cfg, work, result):
    t = time.time()
    contracts = cfg.get("contracts", [])
    if not contracts:
        result["deduction"] = []; return
    rc, out, err, _ = build_extractor()
    if rc != 0:
        result["deduction"] = [{"contract": c, "status": "unestablished", "reason": "extractor build: " + err[-800:], "verified": 0, "errors": 0, "functions": [], "assumptions": [], "solver_s": 0} for c in contracts]
        return
    rs = [None] * len(contracts)
    def go(i): rs[i] = prove_one(pid, contracts[i], work)
    ths = [threading.Thread(target=go, args=(i,)) for i in range(len(contracts))]
    for i in range(0, len(ths), 3):
        for x in ths[i:i+3]: x.start()
        for x in ths[i:i+3]: x.join()
    result["deduction"] = rs
    result["deduction_wall"] = round(time.time() - t, 2)

# ------------------------------------------------------------------ execution
def execute(pid, cfg, work, result, tier, seed):
    h = cfg.get("harness")
    if not h:
        return
    crate, bins = h["crate"], h["bins"]
    cmd = ["cargo", "build", "--offline", "--target-dir", TARGET + "/h"]
    for b in bins: cmd += ["--bin", b]
    lock = os.path.join(VERIF, "harness", crate, "Cargo.lock")
    saved = open(lock, "rb").read()
    rc, out, err, dt = sh(cmd, 800, cwd=os.path.join(VERIF, "harness", crate))
    if open(lock, "rb").read() != saved:
        open(lock, "wb").write(saved)
    result["harness_build_s"] = round(dt, 1)
    if rc != 0:
        result["harness_error"] = err[-3000:]
        return
    runs = []
    for b in bins:
        o = os.path.join(work, b + ".result.json")
        if os.path.exists(o): os.remove(o)
        scratch = os.path.join(work, "scratch-" + b)
        subprocess.run(["rm", "-rf", scratch]); os.makedirs(scratch)
        rc, out, err, dt = sh([os.path.join(TARGET, "h/debug", b), o], 3000 if tier == "thorough" else 400, cwd=scratch,
                              VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_SCRATCH=scratch, RUST_BACKTRACE="0")
        subprocess.run(["rm", "-rf", scratch])
        if os.path.exists(o):
            r = json.load(open(o))
        elif rc < 0 or rc in (134, 139, 101, 124):
            r = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "failure": {
                "obligation": "the code under test terminates without aborting the process (%s)" % b,
                "detail": "exit %s\n%s" % (rc, (out + err)[-4000:])}}
        else:
            result["harness_error"] = "%s: exit %d %s" % (b, rc, (out + err)[-1500:]); return
        r["bin"] = b
        runs.append(r)
    result["runs"] = runs

# ------------------------------------------------------------------ report
def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    cfg = CFG[pid]
    t0 = time.time()
    work = os.path.join(TARGET, "work", pid)
    os.makedirs(work, exist_ok=True)
    result = {}
    th = threading.Thread(target=deduce, args=(pid, cfg, work, result))
    th.start()
    execute(pid, cfg, work, result, tier, seed)
    th.join()

    ded = result.get("deduction", [])
    runs = result.get("runs", [])
    known = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
    known = [k for k in known if k["property"] == pid]
    failures = [(r["bin"], r["failure"]) for r in runs if r.get("failure")]
    failed = [d for d in ded if d["status"] == "failed"]
    unest = [d for d in ded if d["status"] == "unestablished"]
    for k in known:
        if k.get("status") == "open":
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    violations = 0
    line = None
    rdir = os.path.join(VERIF, "replays"); os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, pid + ".txt")
    if failures or failed:
        violations = len(failures) + len(failed)
        with open(rpath, "w") as f:
            f.write("property %s tier=%s seed=%d\n\n" % (pid, tier, seed))
            for b, x in failures:
                f.write("FAILING INPUT on the compiled code (harness %s)\nobligation: %s\n%s\n\nreplay: VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s\n\n" % (b, x["obligation"], x["detail"], seed, tier, pid))
            for d in failed:
                f.write("FAILED OBLIGATION (Verus, contract %s)\n%s\nat %s\n\nverifier output:\n%s\n" % (d["contract"], "\n".join(d["obligations"]), ", ".join(d.get("places", [])), d.get("output", "")))
        line = "VIOLATION property=%s replay=%s" % (pid, rpath)
        if not failures:
            line += " no-failing-input-found"
    # ---- evidence
    ev = sum(r["evaluations"] for r in runs); dn = sum(r["distinct_nontrivial"] for r in runs)
    proved = [d for d in ded if d["status"] == "proved"]
    cov = {
        "obligations": sum(d["verified"] + d["errors"] for d in ded), "discharged": sum(d["verified"] for d in ded),
        "checker_cmd": "vextract /repo contracts/<name>.vrs out.rs && verus out.rs --rlimit 30 (toolchain %s, Verus 0.2026.09.13, z3)" % VERUS_TOOLCHAIN,
        "trusted_base": sorted(set(["Verus + Z3", "vextract rewriting rules (listed per function under functions_under_contract)"] + [a for d in ded for a in d["assumptions"]])),
        "functions_under_contract": [dict(f, contract=d["contract"], status=d["status"]) for d in ded for f in d["functions"] if "function" in f],
        "types_extracted": [f for d in ded for f in d["functions"] if "function" not in f],
        "solver_s": round(sum(d["solver_s"] for d in ded), 2),
        "deduction": [{k: d.get(k) for k in ("contract", "status", "verified", "errors", "solver_s", "reason", "canary")} for d in ded],
        "evaluations": ev, "distinct_nontrivial": dn,
        "rule": " | ".join(r["rule"] for r in runs), "samples": [s for r in runs for s in r["samples"]][:8],
        "bounded_note": cfg.get("bounded_note", "The executable contract is a bounded check of the compiled code; it is never counted as proved."),
    }
    level = cfg["level"]
    if unest and level == "proof":
        cov["explanation"] = "proof not re-established on this tree for: " + "; ".join("%s (%s)" % (d["contract"], (d.get("reason") or "")[:200]) for d in unest) + ". Decided by the bounded executable contract only."
        if not proved: level = "exploration"
    e = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
         "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
    if "harness_error" in result:
        cov["harness_error"] = result["harness_error"][-1500:]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(e, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for d in ded:
        print("%s contract %s: %s, %d verified, %d errors%s" % (pid, d["contract"], d["status"], d["verified"], d["errors"], (" — " + d["reason"][:1200]) if d.get("reason") else ""))
    for r in runs:
        print("%s harness %s: %d evaluations, %d distinct non-trivial%s" % (pid, r["bin"], r["evaluations"], r["distinct_nontrivial"], ", FAILED" if r.get("failure") else ""))
    if "harness_error" in result:
        print("%s harness unavailable: %s" % (pid, result["harness_error"][-1500:]))
    if line:
        print(line); sys.exit(1)
    if not proved and not runs:
        print("%s: neither the proof nor the executable contract could be run" % pid)
        sys.exit(2)
    sys.exit(0)

main()
