"""kx: full-domain Kani contracts on the real code.

A `proofs/*.krs` file holds Kani harnesses (RAW text) and names the items of /repo they call.  On every run each named
item is copied character for character from /repo's working tree (FN / ITEM sections), or a whole source file is compiled in
place (`#[path = "{REPO}/..."] mod m;` inside RAW).  Nothing is dropped or rewritten.  Every harness takes unconstrained
symbolic arguments of a finite machine type and every loop in reach has a constant trip count, so an accepted harness covers
the whole input domain (Kani's unwinding assertions are on: a loop that does not end within the bound fails the harness).

  //#RAW
  //#FN <file> :: [impl <header> ::] fn <name>
  //#ITEM <file> :: struct|enum|const|type|macro_rules <name>
"""
import os, re, subprocess, time
import vx

SRC = {}


def source(path):
    p = os.path.join(vx.REPO, path)
    if p not in SRC: SRC[p] = open(p, encoding="utf-8").read()
    return SRC[p]


def assemble(unit):
    """(text, [missing items], [functions])"""
    out, missing, fns = [], [], []
    for line in open(unit, encoding="utf-8"):
        m = re.match(r"//#(RAW|FN|ITEM)\b\s*(.*)$", line)
        if not m:
            out.append(line.replace("{REPO}", vx.REPO)); continue
        if m.group(1) == "RAW": continue
        parts = [x.strip() for x in m.group(2).split(" :: ")]
        kind, name = parts[-1].split()
        toks = vx.find_item(parts[0], parts[1:-1] or None, kind, name)
        if toks is None:
            missing.append(m.group(2).strip()); continue
        out.append(source(parts[0])[toks[0].pos:toks[-1].end] + "\n")
        if kind == "fn": fns.append(m.group(2).strip())
    return "".join(out), missing, fns


def run(unit, work, env, timeout=600, jobs=6):
    os.makedirs(work, exist_ok=True)
    name = os.path.splitext(os.path.basename(unit))[0]
    t0 = time.time()
    text, missing, fns = assemble(unit)
    f = os.path.join(work, name + ".rs")
    open(f, "w", encoding="utf-8").write(text)
    harnesses = re.findall(r"#\[kani::proof\](?:\s*#\[[^\]]*\])*\s*fn\s+(\w+)", text)
    cmd = ["kani", f, "-j", str(jobs), "--output-format", "terse", "-Z", "unstable-options", "--harness-timeout", "150s"]
    env = dict(env); env["RUSTFLAGS"] = "--edition 2021 -A warnings"
    if missing:
        return {"unit": name, "results": [], "expected": harnesses, "missing": missing, "functions": fns, "out": "items not found: " + "; ".join(missing), "wall": 0.0, "cmd": " ".join(cmd)}
    try:
        p = subprocess.Popen(cmd, cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
        try: out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            import signal
            os.killpg(p.pid, signal.SIGKILL); out, _ = p.communicate(); out += "\nTIMEOUT"
    except FileNotFoundError:
        out = "kani is not installed"
    res, thread = {}, {}
    blocks, cur = {}, None
    for l in out.splitlines():
        m = re.match(r"(?:Thread (\d+): ?)?(.*)$", l)
        if m.group(1) is not None: cur = m.group(1)
        t = m.group(2)
        h = re.match(r"Checking harness ([\w:]+)\.\.\.", t)
        if h:
            thread[cur] = h.group(1); res[h.group(1)] = {"harness": h.group(1), "status": None, "failed": []}; continue
        r = res.get(thread.get(cur))
        if r is None: continue
        h = re.match(r"VERIFICATION:- (\w+)", t)
        if h: r["status"] = h.group(1)
        h = re.match(r"Failed Checks: (.*)", t)
        if h: r["failed"].append(h.group(1))
        h = re.match(r"\s*\*\* (\d+) of (\d+) failed", t)
        if h: r["nfailed"] = int(h.group(1)); r["checks"] = int(h.group(2))
        h = re.match(r"Verification Time: ([\d.]+)s", t)
        if h: r["time"] = float(h.group(1))
    return {"unit": name, "results": list(res.values()), "expected": harnesses, "missing": [], "functions": fns, "out": out[-6000:], "wall": time.time() - t0, "cmd": " ".join(cmd)}


if __name__ == "__main__":
    import sys, json
    r = run(sys.argv[1], "/tmp/vxwork", dict(os.environ), timeout=int(os.environ.get("TMO", "600")))
    for x in sorted(r["results"], key=lambda x: x.get("time", 0)): print(x)
    done = {x["harness"] for x in r["results"] if x["status"] == "SUCCESSFUL"}
    print("ok", len(done), "of", len(r["expected"]), "wall", round(r["wall"], 1), "missing", [h for h in r["expected"] if not any(h == d.split("::")[-1] for d in done)], r["missing"])
    if not r["results"]: print(r["out"])
