#!/usr/bin/env python3
"""check.py ID [quick|thorough]  -- decide one property (see DESIGN.md, "What a check does").

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.  Exit 2: no answer.
"""
import tempfile
import concurrent.futures as cf
import fcntl
import json
import os
import re
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TGT = os.path.join(V, "target")
OSMX = os.path.join(TGT, "extract/debug/osmx")
HARNESS = os.path.join(TGT, "harness/debug/vharness")
VERUS_ERRORS = "see unit log"


def sh_env():
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
    env = dict(x.split("=", 1) for x in out.decode(errors="replace").split("\0") if "=" in x)
    env.pop("RUSTFLAGS", None)
    return env


ENV = sh_env()


def cargo_build(name, target):
    """Build a crate of /verif against /repo's working tree. Returns (ok, log)."""
    d = os.path.join(V, name)
    os.makedirs(TGT, exist_ok=True)
    with open(os.path.join(TGT, f".lock-{target}"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        lock = os.path.join(d, "Cargo.lock")
        if not os.path.exists(lock):
            shutil.copy("/opt/vp/etc/Cargo.lock", lock)
        env = dict(ENV, CARGO_TARGET_DIR=os.path.join(TGT, target))
        r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=d, env=env, capture_output=True, text=True)
        return r.returncode == 0, (r.stdout + r.stderr)[-6000:]


# ------------------------------------------------------------------ verus

FN_RE = re.compile(r"^\s*(?:pub\s+)?(?:broadcast\s+)?(?:(?:open|closed)\s+)?(?:(spec|proof|exec)\s+)?(?:const\s+)?fn\s+(\w+)")
IMPL_RE = re.compile(r"^\s*impl(?:<[^>]*>)?\s+(?:(?:\w|::)+(?:<[^>]*>)?\s+for\s+)?(\w+)")


def functions_of(text):
    """line -> enclosing function name, for the report of a failed obligation"""
    res, cur, impl, indent = {}, "?", None, None
    for i, l in enumerate(text.splitlines(), 1):
        if l.startswith("impl") or l.lstrip().startswith("impl"):
            m = IMPL_RE.match(l)
            if m:
                impl = m.group(1)
        elif l.startswith("}"):
            impl = None
        m = FN_RE.match(l)
        if m:
            cur = (impl + "::" if impl else "") + m.group(2)
        res[i] = cur
    return res


ASSUME_RE = re.compile(r"external_body|assume_specification|external_type_specification|\badmit\s*\(|\bassume\s*\(|\baxiom\b|external_trait_specification")


def scan_assumptions(text):
    lines = text.splitlines()
    out = []
    for i, l in enumerate(lines):
        c = l.split("//")[0]
        if not ASSUME_RE.search(c):
            continue
        name = c.strip()
        if "external_body" in c:
            for k in range(i, min(i + 8, len(lines))):
                m = re.search(r"\b(?:fn|struct)\s+(\w+)", lines[k])
                if m:
                    name = "trusted contract or type (body not verified): " + m.group(1)
                    break
        elif "external_type_specification" in c:
            m = re.search(r"struct\s+\w+[^;]*;", " ".join(lines[i:i + 4]))
            name = "external type: " + (m.group(0) if m else c.strip())
        elif "assume_specification" in c:
            name = "assumed library contract: " + c.strip()[:160]
        elif "axiom" in c:
            name = "axiom: " + c.strip()[:160]
        if name not in out:
            out.append(name)
    return out


def run_verus(path, timeout, rlimit, probe=False):
    t0 = time.time()
    cmd = ["verus", os.path.basename(path), "--crate-type=bin", "--output-json", "--error-format=json", "--time", "--multiple-errors", "2" if probe else "20",
           "--rlimit", str(rlimit), "--num-threads", "4"]
    if probe:
        cmd.append("--no-auto-recommends-check")
    try:
        r = subprocess.run(cmd, cwd=os.path.dirname(path), capture_output=True, text=True, timeout=timeout, env=ENV)
    except subprocess.TimeoutExpired:
        return {"status": "undecided", "why": f"verus did not finish within {timeout} s", "errors": [], "wall": time.time() - t0}
    res = {"errors": [], "wall": time.time() - t0, "cmd": " ".join(cmd), "stderr": r.stderr}
    try:
        j = json.loads(r.stdout[r.stdout.index("{"):])
    except Exception:
        j = {}
    vr = j.get("verification-results", {})
    res["verified"], res["failed"] = vr.get("verified", 0), vr.get("errors", 0)
    tm = j.get("times-ms", {})
    res["smt_ms"] = (tm.get("smt") or {}).get("total", 0)
    res["total_ms"] = tm.get("total", 0)
    res["verus"] = (j.get("verus") or {}).get("version")
    fns = functions_of(open(path).read())
    hard = False
    rl = []
    for line in r.stderr.splitlines():
        if not line.startswith("{"):
            continue
        try:
            d = json.loads(line)
        except Exception:
            continue
        if d.get("level") != "error" or d["message"].startswith("aborting due"):
            continue
        sp = d.get("spans", [])
        pick = next((s for s in sp if s.get("is_primary")), sp[0] if sp else None)
        if "postcondition" in d["message"]:
            pick = next((s for s in sp if "function body" in (s.get("label") or "") or "at this exit" in (s.get("label") or "")), pick)
        fn = fns.get(pick["line_start"], "?") if pick else "?"
        e = {"message": d["message"], "function": fn, "line": pick["line_start"] if pick else 0, "rendered": d.get("rendered", "")[:2500]}
        if d.get("code"):
            hard = True
        low = d["message"].lower()
        if "rlimit" in low or "resource limit" in low or "timed out" in low:
            rl.append(e)
        else:
            res["errors"].append(e)
    if vr.get("success") is True and r.returncode == 0:
        res["status"] = "ok"
    elif not vr or vr.get("encountered-vir-error") or hard or vr.get("verified") is None:
        res["status"] = "undecided"
        res["why"] = "the extracted text is outside the verifier's subset or does not type-check"
    elif vr.get("errors", 0) == 0:
        res["status"] = "undecided"
        res["why"] = "the verifier stopped without a verdict"
    elif res["errors"]:
        res["status"] = "failed"
    else:
        res["status"] = "undecided"
        res["why"] = "resource limit reached"
    res["rlimit_errors"] = rl
    return res


def do_unit(unit, tier, work):
    """extract and verify one unit, with its vacuity probes"""
    d = os.path.join(work, unit)
    os.makedirs(d, exist_ok=True)
    src = os.path.join(V, "contracts", unit + ".vrs")
    out = {"unit": unit, "status": "undecided", "probes": "not run"}
    files = {}
    for probe in ("", "start", "tail"):
        pd = os.path.join(d, probe or "main")
        os.makedirs(pd, exist_ok=True)
        rs, js = os.path.join(pd, "u.rs"), os.path.join(pd, "u.json")
        r = subprocess.run([OSMX, src, REPO, rs, js], capture_output=True, text=True, env=dict(ENV, OSMX_PROBE=probe))
        if probe == "":
            out["log"] = r.stderr
            try:
                rep = json.load(open(js))
            except Exception:
                rep = {"functions": [], "trusted": [], "lost": [r.stderr[-400:]], "lowerings": {}}
            out.update(functions=[f["source"] for f in rep["functions"]], names=[f["name"] for f in rep["functions"]],
                       trusted_fns=rep["trusted"], lost=rep["lost"], lowerings=rep["lowerings"])
            if r.returncode != 0:
                out["why"] = "extraction: " + "; ".join(rep["lost"])[:600]
                return out
            out["assumed"] = scan_assumptions(open(rs).read())
        files[probe] = rs
    limit = 400 if tier == "thorough" else 240
    with cf.ThreadPoolExecutor(3) as ex:
        futs = {p: ex.submit(run_verus, f, limit, 60 if tier == "thorough" else 30, p != "") for p, f in files.items()}
        res = {p: f.result() for p, f in futs.items()}
    m = res[""]
    out.update({k: m.get(k) for k in ("status", "why", "errors", "verified", "failed", "smt_ms", "total_ms", "wall", "cmd", "verus", "rlimit_errors")})
    out["stderr"] = m.get("stderr", "")[-20000:] if m["status"] != "ok" else ""
    # every function under contract must refute assert(false) at its entry and at its exit
    vac = []
    if m["status"] == "ok":
        for p in ("start", "tail"):
            txt = open(files[p]).read()
            want = txt.count("proof { assert(false); }") + txt.count("proof {\n        assert(false);")
            fns = functions_of(txt)
            lines = txt.splitlines()
            probes = [i for i, l in enumerate(lines, 1) if l.strip() == "proof { assert(false); }"]
            bad = {e["line"] for e in res[p]["errors"] if "assertion failed" in e["message"]}
            bad |= {e["line"] for e in res[p].get("rlimit_errors", [])}
            if res[p]["status"] in ("failed",):
                vac += [f"{fns[i]} ({p})" for i in probes if i not in bad]
            elif res[p].get("rlimit_errors"):
                vac += [f"{fns[i]} ({p})" for i in probes if i not in bad]
            elif res[p]["status"] == "ok" and probes:
                vac += [f"{fns[i]} ({p})" for i in probes]
            else:
                vac.append(f"probe run {p}: {res[p].get('why')}")
        out["probes"] = f"{'all refuted' if not vac else 'VACUOUS: ' + ', '.join(vac)}"
        if vac:
            out["status"] = "undecided"
            out["why"] = "vacuity probe not refuted: " + ", ".join(vac)
    return out


# ------------------------------------------------------------------ concrete harness

def resident(pid):
    try:
        return int(open(f"/proc/{pid}/statm").read().split()[1]) * 4096
    except (OSError, ValueError, IndexError):
        return 0


def run_harness(pid, tier, seed, work, tag, budget=0, only=None):
    out = os.path.join(work, f"h-{tag}.json")
    if os.path.exists(out):
        os.remove(out)
    d = os.path.join(work, "scratch")
    os.makedirs(d, exist_ok=True)
    cmd = [HARNESS, pid, "--tier", tier, "--seed", str(seed), "--out", out, "--dir", d]
    if budget:
        cmd += ["--budget", str(budget)]
    if only:
        cmd += ["--only", only]
    with tempfile.TemporaryFile("w+", errors="replace") as so, tempfile.TemporaryFile("w+", errors="replace") as se:
        p = subprocess.Popen(cmd, stdout=so, stderr=se, env=ENV)
        t1, rc, why = time.time(), None, ""
        while rc is None:
            try:
                rc = p.wait(0.5)
            except subprocess.TimeoutExpired:
                # a run that allocates without end is stopped, instead of taking the sandbox with it
                if resident(p.pid) > 20 << 30:
                    why = "\nstopped: more than 20 GB of memory in use"
                elif time.time() - t1 > 780:
                    why = "\nharness timed out"
                if why:
                    p.kill()
                    p.wait()
                    rc = 124 if "timed" in why else p.returncode
        so.seek(0)
        se.seek(0)
        log = so.read()[-3000:] + se.read()[-2000:] + why
    try:
        j = json.load(open(out))
    except Exception:
        j = {"evaluations": 0, "distinct": 0, "rule": "", "samples": [], "violations": []}
    j["rc"], j["log"], j["cmd"] = rc, log, " ".join(cmd)
    return j


# ------------------------------------------------------------------ known findings

def known_findings():
    res = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) (case|obligation)=(\S+) (.*)", l.strip())
            if m:
                res.append(m.groups())
    return res


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    props = json.load(open(os.path.join(V, "props.json")))
    P = props[pid]
    work = os.path.join(V, "work", f"{pid}-{tier}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    evd = os.path.join(V, "evidence")
    os.makedirs(evd, exist_ok=True)
    units = P["units"]

    with cf.ThreadPoolExecutor(8) as ex:
        fx = ex.submit(cargo_build, "extract", "extract") if units else None
        fh = ex.submit(cargo_build, "harness", "harness")
        ok_h, log_h = None, ""
        if fx:
            ok_x, log_x = fx.result()
        else:
            ok_x, log_x = True, ""
        futs = [ex.submit(do_unit, u, tier, work) for u in units] if ok_x else []
        ok_h, log_h = fh.result()
        fhr = ex.submit(run_harness, pid, tier, seed, work, "main") if ok_h else None
        ures = [f.result() for f in futs]
        h = fhr.result() if fhr else None
    if not ok_x:
        ures = [{"unit": u, "status": "undecided", "why": "extractor does not build: " + log_x[-300:]} for u in units]

    failed = [u for u in ures if u["status"] == "failed"]
    undecided = [u for u in ures if u["status"] == "undecided"]
    runs = [h] if h else []

    # a crash of the harness process is looked at once more before it counts
    def crashed(x):
        return x is not None and x["rc"] not in (0, 1)

    if crashed(h):
        h2 = run_harness(pid, "quick", seed, work, "again")
        runs.append(h2)
        if crashed(h2) and h2["rc"] not in (124, -9, 137, 2):
            h2["violations"].append({"key": "abort", "case": "process", "input": h2["cmd"], "detail": f"the process ended abnormally, status {h2['rc']}: {h2['log'][-1500:]}"})

    def found():
        return [v for x in runs for v in x["violations"]]

    if ok_h and not found() and (failed or undecided):
        # a failed or undecided obligation: look harder for a failing input
        runs.append(run_harness(pid, "thorough", seed + 1, work, "search", budget=(150 if failed else 60) if tier == "quick" else 300))
        if crashed(runs[-1]) and runs[-1]["rc"] not in (124, -9, 137, 2):
            runs[-1]["violations"].append({"key": "abort", "case": "process", "input": runs[-1]["cmd"], "detail": f"the process ended abnormally, status {runs[-1]['rc']}: {runs[-1]['log'][-1500:]}"})

    try:
        where = json.load(open(os.path.join(V, "contracts", "where.json")))
    except Exception:
        where = {}
    known = known_findings()
    vs, kn = [], []
    for v in found():
        k = next((x for x in known if x[0] == pid and x[1] == "case" and x[2] == v["case"]), None)
        (kn if k else vs).append((v, k))
    obl = []
    for u in failed:
        for e in u["errors"]:
            name = f"{u['unit']}:{e['function']}:{e['message']}"
            k = next((x for x in known if x[0] == pid and x[1] == "obligation" and x[2] == f"{u['unit']}:{e['function']}"), None)
            if k:
                kn.append((e, k))
            else:
                obl.append({"obligation": name, "unit": u["unit"], "function": e["function"], "kind": e["message"], "verifier_output": e["rendered"]})

    # ---------------- evidence
    verified = sum(u.get("verified") or 0 for u in ures)
    nfail = sum(u.get("failed") or 0 for u in ures)
    ev = sum(x["evaluations"] for x in runs)
    dist = max([x["distinct"] for x in runs] or [0])
    proved = bool(units) and all(u["status"] == "ok" for u in ures)
    level = P["level"] if (P["level"] != "proof" or proved or failed) else "exploration"
    cov = {"evaluations": ev, "distinct_nontrivial": dist, "rule": (runs[0]["rule"] if runs else "harness not built"),
           "samples": ([s for x in runs for s in x["samples"]] or ["(no sample recorded)"])[:6]}
    if units:
        cov.update({
            "obligations": verified + nfail + sum(1 for u in undecided if not u.get("verified")),
            "discharged": verified,
            "checker_cmd": next((u["cmd"] for u in ures if u.get("cmd")), "verus u.rs"),
            "trusted_base": ["Verus 0.2026.09.13 and its bundled Z3, rustc", "extract/ (osmx): lowerings listed in DESIGN.md"] + sorted({a for u in ures for a in u.get("assumed", [])}),
            "functions_under_contract": sorted({f for u in ures for f in u.get("functions", [])}),
            "units": [{k: u.get(k) for k in ("unit", "status", "why", "verified", "failed", "smt_ms", "total_ms", "probes", "lowerings", "trusted_fns")} for u in ures],
            "contracts_used_and_where_discharged": {t: where.get(t, "nowhere") for u in ures for t in (u.get("trusted_fns") or []) for t in [t if isinstance(t, str) else t.get("source", str(t))]},
            "back_end": "Verus -> Z3 (SMT)",
            "solver_ms": sum(u.get("smt_ms") or 0 for u in ures),
        })
    cov["bounded_part"] = P.get("bounded", "")
    evidence = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
                "assumptions": P.get("assumptions", []) + [f"unit {u['unit']} undecided on this tree: {u.get('why')}; only the bounded check stands for it" for u in undecided],
                "wall_s": round(time.time() - t0, 1), "violations": len(vs) + len(obl)}
    with open(os.path.join(evd, pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for e, k in kn:
        print(f"KNOWN-FINDING: property={pid} {k[2]} {k[3]}")
    for u in ures:
        print(f"{pid} unit {u['unit']}: {u['status']}, {u.get('verified') or 0} verified, {u.get('failed') or 0} failed, probes {u.get('probes')}{' -- ' + u['why'] if u.get('why') else ''}")
    for x in runs:
        print(f"{pid} concrete: {x['evaluations']} evaluations, {len(x['violations'])} failing")

    replay = os.path.join(V, "work", f"replay-{pid}.json")
    if vs:
        first = vs[0][0]
        json.dump({"property": pid, "failing_input": first, "all": [v for v, _ in vs][:10], "failed_obligations": obl,
                   "rerun": f"{HARNESS} {pid} --tier {tier} --seed {seed} --only {first['case']}"}, open(replay, "w"), indent=1)
        print(f"  failing case {first['case']}: {first['input'][:300]} :: {first['detail'][:500]}")
        for o in obl[:5]:
            print(f"  failed obligation {o['obligation']}")
        print(f"VIOLATION property={pid} replay={replay}")
        sys.exit(1)
    if obl:
        json.dump({"property": pid, "failed_obligations": obl, "search": [x["cmd"] for x in runs]}, open(replay, "w"), indent=1)
        for o in obl[:10]:
            print(f"  failed obligation {o['obligation']}")
        print(f"VIOLATION property={pid} replay={replay} no-failing-input-found")
        sys.exit(1)
    if not ok_h:
        print(log_h[-3000:])
        if proved:
            print(f"{pid}: the concrete harness does not build; the proof stands alone")
            sys.exit(0)
        sys.exit(2)
    if any(crashed(x) for x in runs):
        print("harness:", [x["rc"] for x in runs], runs[-1]["log"][-1500:])
        if all(crashed(x) for x in runs):
            sys.exit(2)
    print(f"{pid}: held ({'proved' if proved else 'explored'}), {time.time() - t0:.1f} s")
    sys.exit(0)


main()
