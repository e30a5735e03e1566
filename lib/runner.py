"""Decides one property: proof units (Verus overlays), Kani harnesses, executable contracts.

verdict
  executable contract / counterexample fails on the real code  -> VIOLATION with a replayable input
  obligation fails on code whose annotations still fit          -> VIOLATION ... no-failing-input-found
  obligation cannot be posed (code restructured, construct the
  verifier does not accept, resource limit)                      -> that function is reported as not proved in the
                                                                    evidence; the bounded contract check decides
"""
import hashlib, json, os, re, subprocess, sys, threading, time
sys.path.insert(0, os.path.dirname(__file__))
import vx, kx

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(V, ".build")
ENV = dict(os.environ)
ENV["PATH"] = ENV.get("PATH", "/usr/bin:/bin") + ":/root/.cargo/bin:/usr/local/bin"
ENV["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
ENV["CARGO_NET_OFFLINE"] = "true"


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def known():
    """known-findings.txt: `known: property=C11 key=<key> <what fails>` lines"""
    r = {}
    f = os.path.join(V, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m: r.setdefault(m.group(1), {})[m.group(2)] = m.group(3).strip()
    return r


# the same contracts on another code path the build can select; needs: CPU flags without which the binary cannot run
FLAVOURS = {"": dict(rustflags=None, needs=[]), "avx2": dict(rustflags="-C target-feature=+avx2,+ssse3,+sha,+sse4.1", needs=["avx2", "ssse3", "sha_ni", "sse4_1"])}


def flavour_env(fl):
    env = dict(ENV)
    if fl:
        env["CARGO_TARGET_DIR"] = ENV["CARGO_TARGET_DIR"] + "_" + fl; env["RUSTFLAGS"] = FLAVOURS[fl]["rustflags"]
    return env


def cpu_has(fl):
    try: have = set(re.search(r"^flags\s*:(.*)$", open("/proc/cpuinfo").read(), re.M).group(1).split())
    except Exception: have = set()
    return all(n in have for n in FLAVOURS[fl]["needs"])


def merge(rs):
    """several runs of one property's contracts (different crates or code paths) as one result"""
    for r in rs:
        if r.get("crash") or r.get("error"): 
            v = [v for q in rs for v in q.get("violations", [])]
            return dict(r, violations=v)
    out = {"violations": [], "evaluations": 0, "distinct_nontrivial": 0, "samples": [], "counters": {}}
    for r in rs:
        out["violations"] += r["violations"]; out["evaluations"] += r["evaluations"]; out["distinct_nontrivial"] += r["distinct_nontrivial"]
        out["samples"] += r["samples"][:6]
        for k, v in r["counters"].items(): out["counters"][(r["tag"] + ":" if r["tag"] else "") + k] = v
    return out


def run_all(cfg, prop, seed, tier, timeout, notes=None):
    rs, hs = [], harnesses(cfg)
    for c, fl in hs:
        if fl and not cpu_has(fl):
            if notes is not None: notes.append(f"code path {fl} not run: this CPU lacks it")
            continue
        r = run_falsifier(c, prop, seed, tier, timeout, fl=fl); r["tag"] = (fl or c) if len(hs) > 1 else ""
        rs.append(r)
    return merge(rs)


def harnesses(cfg):
    h = cfg.get("harness") or []
    if isinstance(h, str): h = [h]
    return [tuple(x.split("@")) if "@" in x else (x, "") for x in h]


def build_all(cfg, box):
    for c, fl in harnesses(cfg):
        try:
            p = subprocess.run(["cargo", "build", "--offline", "--release", "--quiet"], cwd=os.path.join(V, "harness", c), env=flavour_env(fl),
                               capture_output=True, text=True, timeout=850, errors="replace")
        except subprocess.TimeoutExpired:
            box["err"] = "harness build timed out"; return
        if p.returncode != 0:
            box["err"] = p.stderr; return


def run_falsifier(crate, prop, seed, tier, timeout, scale=1.0, fl=""):
    env = dict(ENV); env["VERIF_SEED"] = str(seed); env["VERIF_TIER"] = tier; env["VH_SCALE"] = str(scale)
    exe = os.path.join(flavour_env(fl)["CARGO_TARGET_DIR"], "release", crate)
    t = time.time()
    try:
        p = subprocess.run([exe, prop], env=env, capture_output=True, text=True, timeout=timeout, cwd=BUILD, errors="replace")
    except subprocess.TimeoutExpired:
        return {"error": "falsifier timed out", "wall": time.time() - t}
    line = None
    for l in p.stdout.splitlines():
        if l.startswith('{"property"'): line = l
    if line is None:
        if p.returncode < 0 or p.returncode in (134, 139):
            return {"crash": f"the process running the code under test died (status {p.returncode})", "stderr": p.stderr[-3000:], "wall": time.time() - t}
        return {"error": f"falsifier gave no result, status {p.returncode}", "stderr": p.stderr[-3000:], "wall": time.time() - t}
    r = json.loads(line); r["wall"] = time.time() - t
    return r


def write_replay(prop, name, obj):
    d = os.path.join(V, "evidence", "replay"); os.makedirs(d, exist_ok=True)
    f = os.path.join(d, f"{prop}-{name}.json")
    with open(f, "w") as fh: json.dump(obj, fh, indent=1, ensure_ascii=False)
    return f


def decide(prop, cfg, level_default="proof"):
    seed = int(os.environ.get("VERIF_SEED", "0") or "0")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True); os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    kf = known().get(prop, {})
    violations, soft, notes, known_hits = [], [], [], []
    # ---- start the harness build while Verus runs
    bt, box = None, {}
    if cfg.get("harness"):
        bt = threading.Thread(target=build_all, args=(cfg, box), daemon=True); bt.start()
    units = []
    for u in cfg.get("units", []):
        r = vx.verify_unit(os.path.join(V, "proofs", u["file"]), os.path.join(BUILD, "verus"), rlimit=u.get("rlimit", 40), timeout=u.get("timeout", 500))
        canary(u, r)
        units.append(r)
        log(f"[{prop}] unit {r['unit']}: ok={r['ok']} verified={r['verified']} errors={r['errors']} wall={r['wall']:.1f}s changed={r['changed']} not_proved={r['not_proved']}")
    kani = []
    for k in cfg.get("kani", []):
        r = kx.run(os.path.join(V, "proofs", k["file"]), os.path.join(BUILD, "kani"), ENV, timeout=k.get("timeout", 500))
        kani.append(r)
        log(f"[{prop}] kani {r['unit']}: {sum(x['status'] == 'SUCCESSFUL' for x in r['results'])} of {len(r['expected'])} harnesses accepted, not: {[x['harness'] for x in r['results'] if x['status'] != 'SUCCESSFUL']} wall={r['wall']:.1f}s")
    fal = None
    if bt is not None:
        bt.join()
        if box.get("err"):
            log(box["err"][-4000:])
            notes.append("harness did not build against the current tree: " + box["err"][-500:])
            # an API the contracts call no longer exists: nothing bounded can run
            fal = {"error": "build"}
        else:
            fal = run_all(cfg, prop, seed, tier, cfg.get("ftimeout", 400 if tier == "quick" else 850), notes)
    # ---- verdicts
    if fal:
        if fal.get("crash"):
            violations.append({"key": "crash", "what": fal["crash"], "case": f"seed {seed}: rerun {cfg['harness']} {prop}", "stderr": fal.get("stderr", "")})
        for v in fal.get("violations", []):
            if v["key"] in kf: known_hits.append(v)
            else: violations.append(v)
    not_proved, hard_err = [], []
    for r in units:
        not_proved += r["not_proved"]
        for f in r["fails"]:
            if f["fn"] == "(spec/lemma)": continue
            if f["changed"] and f["clean"] and f["skeleton_same"]: soft.append((r, f))
            elif not f["changed"]:
                # the function itself is as before but an obligation about it fails (a callee contract it relies on is unchanged,
                # so this is either solver instability or a changed type/constant)
                (soft if r["changed"] or any(i["status"] == "changed" for i in r["functions"]) else hard_err).append((r, f))
            else: not_proved.append(f["fn"])
        if not r["ok"] and not r["fails"]:
            notes.append(f"unit {r['unit']} not decided: " + (r["other"][0]["msg"] if r["other"] else r["raw"][-300:]))
            not_proved += [f["function"] for f in r["functions"]] if r["verified"] == 0 else []
    for k in kani:
        for x in k["results"]:
            if x["status"] == "FAILED":
                real = [c for c in x["failed"] if "unwinding" not in c and "not currently supported" not in c]
                if real: soft.append((None, {"fn": x["harness"], "msg": "; ".join(real) or "verification failed", "file": None, "rendered": k["out"][-3000:]}))
                else: not_proved.append(x["harness"])
            elif x["status"] != "SUCCESSFUL": not_proved.append(x["harness"])
        missing = [h for h in k["expected"] if not any(h in x["harness"] for x in k["results"])]
        not_proved += missing
        if missing: notes.append(f"kani gave no verdict for {missing}: {k['out'][-400:]}")
    if hard_err and not soft and not violations:
        notes.append("obligations failing on unchanged text: " + "; ".join(f"{f['fn']}: {f['msg']}" for _, f in hard_err))
        not_proved += [f["fn"] for _, f in hard_err]
    # a failed obligation without an input so far: search harder on the real code
    if soft and not violations and fal and not fal.get("error"):
        left = 780 - (time.time() - t0)
        if left > 60 and tier == "quick":
            f2 = run_all(cfg, prop, seed + 7919, "thorough", min(left, 400))
            for v in f2.get("violations", []):
                if v["key"] not in kf: violations.append(v)
    rc = 0
    if violations:
        v = violations[0]
        rp = write_replay(prop, "input", {"property": prop, "seed": seed, "tier": tier, "kind": "executable contract violated on the real code",
              "replay_cmd": f"cd {V} && VERIF_SEED={seed} VERIF_TIER={tier} python3 check.py {prop}", "violations": violations,
              "failed_obligations": [{"function": f["fn"], "obligation": f["msg"], "verifier_output": f["rendered"]} for _, f in soft]})
        print(f"violated: {v['what']}\n  input: {v['case'][:1500]}")
        for _, f in soft[:5]: print(f"  failed obligation: {f['fn']}: {f['msg']}")
        print(f"VIOLATION property={prop} replay={rp}")
        rc = 1
    elif soft:
        rp = write_replay(prop, "obligation", {"property": prop, "kind": "proof obligation not accepted", "failed_obligations": [{"function": f["fn"], "file": f.get("file"), "obligation": f["msg"], "verifier_output": f["rendered"]} for _, f in soft]})
        for _, f in soft[:5]: print(f"failed obligation: {f['fn']}: {f['msg']}\n{f['rendered'][:1200]}")
        print(f"VIOLATION property={prop} replay={rp} no-failing-input-found")
        rc = 1
    for v in known_hits:
        print(f"KNOWN-FINDING: property={prop} {kf[v['key']]}")
    # ---- evidence
    fns = [dict(f, back_end="Verus/Z3", unit=r["unit"]) for r in units for f in r["functions"]]
    npset = set(not_proved)
    for f in fns: f["proved"] = f["function"] not in npset and not any(f["function"] == s[1]["fn"] for s in soft)
    obligations = sum(r["verified"] + r["errors"] for r in units) + sum(x.get("checks", 1) for k in kani for x in k["results"])
    discharged = sum(r["verified"] for r in units) + sum((x.get("checks", 1) - x.get("nfailed", 0)) if x["status"] == "SUCCESSFUL" else 0 for k in kani for x in k["results"])
    level = cfg["level"]
    cov = {}
    if level == "proof" and (units or kani):
        cov.update({"obligations": obligations, "discharged": discharged,
                    "checker_cmd": "; ".join([r["cmd"] for r in units] + [k["cmd"] for k in kani]),
                    "trusted_base": sorted(set(t for r in units for t in r["trusted"])) + cfg.get("trusted", []) + ["Verus 0.2026.09.13 + Z3" if units else "", "Kani 0.68 + CBMC with CaDiCaL / Z3" if kani else "", "lib/vx.py extraction (drops comments, attributes, visibility, debug_assert*; rewrites listed per function)" if units else ""],
                    "functions_under_contract": fns, "kani_harnesses": [x for k in kani for x in k["results"]],
                    "solver_ms": sum(r["smt_ms"] for r in units), "not_proved_this_run": sorted(npset), "canary_rejected": all(r.get("canary") for r in units) if units else None})
        cov["trusted_base"] = [t for t in cov["trusted_base"] if t]
    elif units or kani:
        cov.update({"proved_part": {"obligations": obligations, "discharged": discharged, "functions_under_contract": fns, "kani_harnesses": [x for k in kani for x in k["results"]], "not_proved_this_run": sorted(npset), "trusted_base": sorted(set(t for r in units for t in r["trusted"]))}})
    if fal and not fal.get("error") and not fal.get("crash"):
        ex = {"evaluations": fal["evaluations"], "distinct_nontrivial": fal["distinct_nontrivial"], "rule": cfg.get("rule", "a case counts when its inputs are non-degenerate; distinct by its printed form"), "samples": fal["samples"], "groups": fal["counters"]}
        if level == "proof": cov["executable_contract_bounded"] = ex
        else: cov.update(ex)
    cov["explanation"] = cfg.get("explanation", "")
    cov["notes"] = notes
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "assumptions": cfg.get("assumptions", []) + [f"trusted: {t}" for t in sorted(set(t for r in units for t in r["trusted"]))],
          "violations": len(violations) + (1 if soft and not violations else 0)}
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as fh: json.dump(ev, fh, indent=1, ensure_ascii=False)
    if rc == 0 and fal and fal.get("error"):
        log("check error:", fal.get("error"), fal.get("stderr", "")); rc = 2
    if rc == 0: print(f"held: property={prop} obligations={discharged}/{obligations} not_proved={sorted(npset)} evaluations={(fal or {}).get('evaluations')}")
    return rc


def canary(u, r):
    """vacuity guard: `false` must not follow from the unit's axioms and specifications"""
    if not r["ok"]:
        r["canary"] = None
        return
    text = r["text"]
    i = text.rindex("fn main()")
    inst = u.get("canary", "")
    text = text[:i] + "proof fn vx__canary(" + u.get("canary_params", "") + ") { " + inst + " assert(false); }\n" + text[i:]
    q = vx.run_verus(text, os.path.join(BUILD, "verus"), r["unit"] + "_canary", 20, 200, extra=["--verify-root", "--verify-function", "vx__canary"])
    r["canary"] = q["errors"] == 1
    if not r["canary"]:
        log("canary accepted: the unit's assumptions are inconsistent or it was not checked", q["raw"][-500:])
        r["ok"] = False; r["fails"] = []; r["other"] = [{"msg": "vacuity canary was not rejected"}]; r["verified"] = 0
