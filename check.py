#!/usr/bin/env python3
"""check.py --property ID : decides one property.

1. vx extracts the contracted functions from /repo's current source and Verus discharges
   every obligation of the property's contract units (function by function, unbounded).
2. vh (built against /repo's crates) replays the property on the real code: it supplies the
   failing input for a failed obligation, and stands in (bounded, never counted as proved)
   for functions the verifier cannot reach.
Exit 0 / exit 1 with a VIOLATION line; see DESIGN.md, "Verdicts".
"""
import argparse, concurrent.futures as cf, json, os, re, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
W = os.path.join(V, "work")
sys.path.insert(0, V)
from props import PROPS  # noqa: E402

T0 = time.time()
CORES = os.cpu_count() or 8
SHIM = {"RUSTUP_TOOLCHAIN": "nightly-2025-03-27", "CARGO_NET_OFFLINE": "true", "PROTOC": "/usr/bin/protoc",
        "RUSTC_WRAPPER": "", "CARGO_TERM_COLOR": "never"}


def sh(cmd, env=None, cwd=V, timeout=800):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return 124, "", "timeout"


def log(*a):
    print(f"[{time.time()-T0:6.1f}s]", *a, flush=True)


def build_vx():
    d = os.path.join(V, "tools/vx")
    rc, o, e = sh(["cargo", "build", "--offline", "-q", "--target-dir", os.path.join(W, "vx")], {"CARGO_NET_OFFLINE": "true", "RUSTC_WRAPPER": ""}, d)
    if rc:
        raise SystemExit("vx does not build\n" + e)
    return os.path.join(W, "vx/debug/vx")


LAID = {"harness_x": "hx", "harness_d": "hd"}
LAY = threading.Lock()


def lay_out(name):
    with LAY:
        return sh([sys.executable, "gen.py", REPO, os.path.join(W, LAID[name])], dict(SHIM), os.path.join(V, name))


def build_harness(name):
    d = os.path.join(V, name)
    env = dict(SHIM)
    if name in LAID:
        rc, o, e = lay_out(name)
        if rc:
            return None, "extraction: " + o + e
        d = os.path.join(W, LAID[name])
    rc, o, e = sh(["cargo", "build", "--offline", "-q", "--target-dir", os.path.join(W, "target")], env, d)
    if rc:
        return None, e[-4000:]
    return os.path.join(W, "target/debug", {"harness": "vh", "harness_x": "vhx", "harness_d": "vhd"}[name]), ""


def expand_derives():
    """what /repo's derive macro generates for the sample types, as rustc expands it -> the directory of samples.rs"""
    rc, o, e = lay_out("harness_d")
    if rc == 0:
        rc, o, e = sh(["cargo", "rustc", "--offline", "-q", "-p", "samples", "--lib", "--target-dir", os.path.join(W, "target"), "--", "--cfg", "plain", "-Zunpretty=expanded"], dict(SHIM), os.path.join(W, LAID["harness_d"]))
    d = os.path.join(W, "gen", "derived")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "samples.rs")
    if rc or not o.strip():
        if os.path.exists(f):
            os.remove(f)
        return None, "macro expansion: " + e[-1500:]
    open(f, "w").write(o)
    return d, ""


# ------------------------------------------------------------------ deductive part
DERIVED = {"serdes"}  # units over text the derive macro generates


def fn_at(lines, n):
    for i in range(min(n, len(lines)) - 1, -1, -1):
        m = re.match(r"// ==== (\S+)", lines[i])
        if m:
            return m.group(1)
        if lines[i].startswith("// ==== end"):
            return None
    return None


def parse_errors(stderr, lines):
    """-> list of (message, line, function)"""
    out = []
    for blk in re.split(r"\n(?=error|warning|note: )", "\n" + stderr):
        b = blk.strip("\n")
        if not b.startswith("error"):
            continue
        msg = b.split("\n", 1)[0]
        if "aborting due to" in msg or "could not compile" in msg:
            continue
        locs = [int(x) for x in re.findall(r"-->\s*\S+?:(\d+):\d+", b)] + [int(x) for x in re.findall(r":::\s*\S+?:(\d+):\d+", b)]
        m = re.search(r"-->\s*\S+?:(\d+):\d+", b)
        ln = int(m.group(1)) if m else 0
        out.append((msg, ln, fn_at(lines, ln) if ln else None, b))
    return out


def run_unit(vx, unit, tier):
    """extract + verify one contract unit; returns a dict"""
    res = {"unit": unit, "verified": 0, "errors": 0, "failed": [], "assumed": {}, "lost": {}, "undecided": [], "fns": [], "time_s": 0.0, "ok": False, "broken": None, "trusted": []}
    out = os.path.join(W, "gen", unit + ".rs")
    repf = os.path.join(W, "gen", unit + ".json")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    assume = {}
    t0 = time.time()
    rl = 30
    xenv = {}
    if unit in DERIVED:
        d, e = expand_derives()
        if not d:
            res["broken"] = e
            return res
        xenv = {"VX_GEN": d}
    for attempt in range(8):
        cmd = [vx, REPO, os.path.join(V, "contracts", unit + ".vc"), out, repf] + ([",".join(assume)] if assume else [])
        rc, o, e = sh(cmd, xenv)
        if rc:
            res["broken"] = f"extraction: {o.strip()} {e.strip()[-500:]}"
            break
        rep = json.load(open(repf))
        res["fns"] = [r["fn"] for r in rep if "fn" in r and "assumed" not in r and "lost" not in r]
        res["items"] = [r["item"] for r in rep if "item" in r]
        res["inlined"] = {r["fn"]: r["inlined"] for r in rep if r.get("inlined")}
        res["lost"] = {r["fn"]: r["lost"] for r in rep if "lost" in r}
        res["assumed"] = {r["fn"]: assume.get(r["fn"], r["assumed"]) for r in rep if "assumed" in r}
        lines = open(out).read().split("\n")
        vcmd = ["verus", "--triggers-mode", "silent", "--output-json", "--num-threads", str(max(2, CORES // 2)), "--rlimit", str(rl), out]
        rc, o, e = sh(vcmd, {}, os.path.join(W, "gen"), 500)
        res["cmd"] = " ".join(vcmd)
        try:
            vr = json.loads(o[o.index("{"):])["verification-results"]
        except Exception:
            vr = {"success": False, "verified": 0, "errors": 0, "encountered-vir-error": True}
        res["verified"], res["errors"] = vr.get("verified", 0), vr.get("errors", 0)
        if vr.get("success") and rc == 0:
            res["ok"] = True
            break
        errs = parse_errors(e, lines)
        compile_fail = vr.get("encountered-vir-error") or (vr.get("verified", 0) == 0 and vr.get("errors", 0) == 0)
        if compile_fail:
            bad = {}
            for m, ln, f, b in errs:
                if f and f not in assume:
                    bad[f] = "outside the verifier's reach: " + m
            if not bad:
                res["broken"] = "the extracted text is not accepted by the verifier: " + e[-1500:]
                break
            assume.update(bad)
            continue
        rlim = [x for x in errs if "Resource limit" in x[0] or "rlimit" in x[0].lower()]
        real = [x for x in errs if x not in rlim]
        if rlim and not real and rl < 200:
            rl = 200
            continue
        res["undecided"] = sorted({x[2] or "?" for x in rlim})
        res["failed"] = [{"message": m, "function": f, "text": b} for m, ln, f, b in real]
        if not real and not rlim:
            res["broken"] = e[-1500:]
        res["stderr"] = e[-20000:]
        break
    else:
        res["broken"] = "too many functions outside the verifier's reach"
    res["time_s"] = round(time.time() - t0, 1)
    if os.path.exists(out):
        t = open(out).read()
        res["trusted"] = trusted(t)
    if tier == "thorough" and res["ok"]:
        res["vacuity"] = vacuity(vx, unit, list(res["assumed"]), xenv)
    return res


def trusted(t):
    tr = set()
    for m in re.finditer(r"assume_specification\s*(?:<[^\[]*>)?\s*\[([^;{]*?)\]\s*\(", t):
        tr.add("assumed std contract: " + re.sub(r"\s+", " ", m.group(1)).strip())
    for m in re.finditer(r"external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:open )?(?:proof )?(fn|struct|broadcast proof fn|axiom fn)\s+(\w+)", t):
        tr.add(f"trusted body: {m.group(1)} {m.group(2)}")
    for m in re.finditer(r"uninterp spec fn (\w+)", t):
        tr.add("uninterpreted: " + m.group(1))
    for m in re.finditer(r"\b(assume|admit)\s*\(", t):
        tr.add("unchecked " + m.group(1))
    return sorted(tr)


def vacuity(vx, unit, assumed, xenv):
    """every precondition must be satisfiable: with bodies replaced by assert(false), each function must fail"""
    out = os.path.join(W, "gen", unit + "_vac.rs")
    rc, o, e = sh([vx, REPO, os.path.join(V, "contracts", unit + ".vc"), out, out + ".json"] + ([",".join(assumed)] if assumed else []), dict(xenv, VX_VACUITY="1"))
    if rc:
        return {"error": o + e}
    n = len([r for r in json.load(open(out + ".json")) if "fn" in r and "lost" not in r and "assumed" not in r])
    rc, o, e = sh(["verus", "--triggers-mode", "silent", "--output-json", "--num-threads", str(CORES), "--rlimit", "100", out], {}, os.path.join(W, "gen"), 500)
    try:
        vr = json.loads(o[o.index("{"):])["verification-results"]
    except Exception:
        return {"error": e[-500:]}
    return {"functions": n, "reachable": vr.get("errors", 0), "ok": vr.get("errors", 0) >= n}


# ------------------------------------------------------------------ conformance part
def run_harness(exe, args, seed, cases, timeout=600):
    rc, o, e = sh([exe] + args + ["--seed", str(seed), "--cases", str(cases)], {}, W, timeout)
    m = re.search(r"OK cases=(\d+)", o)
    if rc == 0 and m:
        return "ok", int(m.group(1)), o
    if rc == 1 and "FAIL" in o:
        return "fail", 0, o
    if rc in (-6, -9, -11, 134, 139, 101) or rc < 0:
        return "crash", 0, o + e
    return "error", 0, f"rc={rc} " + o + e


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    P = PROPS[a.property]
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    for d in ("gen", "replay"):
        os.makedirs(os.path.join(W, d), exist_ok=True)
    hs = P.get("harness", [])
    units = P.get("units", [])
    crates = sorted({h["crate"] for h in hs})
    hexe, herr = {}, {}
    with cf.ThreadPoolExecutor(8) as ex:
        fv = ex.submit(build_vx) if units else None
        fh = ex.submit(lambda: [(c,) + build_harness(c) for c in crates])
        ures = []
        if fv:
            vx = fv.result()
            futs = [ex.submit(run_unit, vx, u, tier) for u in units]
            ures = [f.result() for f in futs]
        for c, exe, err in fh.result():
            hexe[c] = exe
            if err:
                herr[c] = err
    for u in ures:
        log(f"unit {u['unit']}: {u['verified']} verified, {len(u['failed'])} failed obligations, {len(u['assumed'])} assumed, {len(u['lost'])} lost, {u['time_s']}s {u['broken'] or ''}")
    failed = [f for u in ures for f in u["failed"]]
    # a unit may serve several properties: only functions this property depends on count here
    if P.get("scope"):
        away = [f for f in failed if f["function"] and not re.search(P["scope"], f["function"])]
        failed = [f for f in failed if f not in away]
        for f in away:
            log(f"outside this property's functions: {f['function']}: {f['message']}")
    # bounded conformance / replay search
    evals, hfail, notes, samples = 0, None, [], []
    runs = []
    for h in hs:
        exe = hexe.get(h["crate"])
        if not exe:
            notes.append(f"conformance harness {h['crate']} did not build: {herr.get(h['crate'], '')[-800:]}")
            continue
        n = h.get("quick", 20000)
        if tier == "thorough":
            n = h.get("thorough", n * 50)
        shards = h.get("shards", 4) if n >= 8 else 1
        for s in range(shards):
            runs.append((exe, h["args"], seed * 100 + s, max(1, n // shards)))
        if failed:
            for s in range(8):
                runs.append((exe, h["args"], seed * 100 + 50 + s, max(1, min(n * 4, h.get("deep", n * 4)))))
    with cf.ThreadPoolExecutor(CORES) as ex:
        for (exe, args, sd, n), (st, k, o) in zip(runs, ex.map(lambda r: run_harness(*r), runs)):
            evals += k
            if st == "ok":
                samples += [x for x in o.split("\n") if x.startswith("SAMPLE")][:1]
            elif st in ("fail", "crash"):
                if hfail is None:
                    hfail = (args, sd, n, o if st == "fail" else "the code under test ended the process (abort / stack overflow / out of memory)\n" + o)
            else:
                notes.append(f"harness {args}: {o[-600:]}")
    if runs:
        log(f"harness: {evals} cases, {'FAIL' if hfail else 'ok'} {'; '.join(notes)[:600]}")
    elif notes:
        log("; ".join(notes)[:2000])
    obligations = sum(u["verified"] + u["errors"] for u in ures)
    discharged = sum(u["verified"] for u in ures)
    degraded = {f: r for u in ures for f, r in list(u["assumed"].items()) + list(u["lost"].items())}
    broken = {u["unit"]: u["broken"] for u in ures if u["broken"]}
    undecided = sorted({f for u in ures for f in u["undecided"]})
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": "; ".join(u.get("cmd", "") for u in ures) or "none",
        "trusted_base": sorted({t for u in ures for t in u["trusted"]}) + [
            "vx extraction (tools/vx): drops error texts, attributes, log output; lowers iterator chains to loops (DESIGN.md)", "Verus 0.2026.09.13 and its Z3"],
        "functions_under_contract": sorted({f for u in ures for f in u["fns"]}),
        "types_extracted": sorted({f for u in ures for f in u.get("items", [])}),
        "inlined_helpers": {k: v for u in ures for k, v in u.get("inlined", {}).items()},
        "functions_assumed_this_run": degraded, "functions_undecided_this_run": undecided, "units_not_verified": broken,
        "failed_obligations": [{"function": f["function"], "message": f["message"]} for f in failed],
        "back_end": "Verus/Z3", "verifier_time_s": {u["unit"]: u["time_s"] for u in ures},
        "evaluations": evals, "rule": P.get("rule", "seeded random cases over the public API, each compared with an independent reference semantics"),
        "bounded_functions": P.get("bounded", []),
        "samples": samples[:3],
        "notes": notes,
    }
    vac = {u["unit"]: u["vacuity"] for u in ures if "vacuity" in u}
    if vac:
        cov["vacuity"] = vac
    viol = None
    rp = os.path.join(W, "replay", f"{a.property}.txt")
    ob = "\n".join(f"failed obligation in {f['function']}: {f['message']}\n{f['text']}\n" for f in failed)
    if hfail:
        args, sd, n, o = hfail
        with open(rp, "w") as fh:
            fh.write(f"property {a.property}: failing input on the real code\nreplay: {os.path.basename(runs[0][0])} {' '.join(args)} --seed {sd} --cases {n}\n\n{o}\n\n{ob}")
        viol = f"VIOLATION property={a.property} replay={rp}"
    elif failed:
        with open(rp, "w") as fh:
            fh.write(f"property {a.property}: obligations no longer discharged; no failing input found in {evals} cases\n\n{ob}")
        viol = f"VIOLATION property={a.property} replay={rp} no-failing-input-found"
    # a run that decided nothing is an error of the check, not a pass
    nothing = not runs and not discharged
    ev = {"property": a.property, "tier": tier, "seed": seed, "level": P.get("level", "proof"), "coverage": cov,
          "assumptions": P.get("assumptions", []) + [f"assumed this run (bounded by the harness only): {f}: {r}" for f, r in degraded.items()],
          "wall_s": round(time.time() - T0, 1), "violations": 1 if viol else 0}
    if ev["level"] == "other":
        cov["explanation"] = P.get("explanation", "")
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", a.property + ".json"), "w"), indent=1)
    for k in known(a.property):
        print("KNOWN-FINDING: " + k)
    if viol:
        for f in failed:
            print(f"failed obligation: {f['function']}: {f['message']}")
        if hfail:
            print(hfail[3][:3000])
        print(viol)
        sys.exit(1)
    if nothing:
        print("nothing could be decided:", json.dumps(broken)[:1500], notes)
        sys.exit(2)
    if degraded or broken or undecided:
        print("DEGRADED (bounded check stood in):", json.dumps({"assumed": degraded, "units": broken, "undecided": undecided})[:2500])
    print(f"OK property={a.property} obligations={obligations} discharged={discharged} cases={evals}")
    sys.exit(0)


def known(prop):
    f = os.path.join(V, "known-findings.txt")
    return [l.strip()[len("known: "):] for l in open(f) if l.startswith("known: property=" + prop + " ")] if os.path.exists(f) else []


if __name__ == "__main__":
    main()
