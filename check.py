#!/usr/bin/env python3
"""Driver: decide one property by symbolic execution of the real code (see DESIGN.md).

usage: check.py PROPERTY [--tier quick|thorough] [--keep]
Builds, from /repo's working tree: the engine (symx), the LLVM IR of decy + harness, and the native replay binary.
Runs every entry of the property in the engine, replays every counterexample natively, validates sampled paths
against native execution, and writes evidence/<property>.json.
"""
import json, os, re, subprocess, sys, tempfile, time, fcntl

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, ".build")
SYMX = os.path.join(B, "symx/release/symx")
TC = "stable"

def die(msg, code=2):
    print("CHECK-ERROR: " + msg)
    sys.exit(code)

def run(cmd, cwd, env=None, log=None, timeout=800):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=open(log, "w"), stderr=subprocess.STDOUT)
    return p

def build(feature):
    os.makedirs(B, exist_ok=True)
    ll = os.path.join(B, "ir-%s.ll" % feature)
    lock = open(os.path.join(B, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    jobs = []
    l1 = os.path.join(B, "build-symx.log")
    jobs.append(("symx", l1, run(["cargo", "+" + TC, "build", "--release", "--offline"], os.path.join(V, "symx"),
                {"CARGO_TARGET_DIR": os.path.join(B, "symx")}, l1)))
    l2 = os.path.join(B, "build-ir.log")
    jobs.append(("ir", l2, run(["cargo", "+" + TC, "rustc", "--offline", "-Zbuild-std=std,panic_abort", "--target",
                "riscv64gc-unknown-linux-gnu", "--lib", "--crate-type", "staticlib", "--features", feature, "--",
                "--emit=llvm-ir=" + ll, "-Cno-vectorize-loops", "-Cno-vectorize-slp"],
                os.path.join(V, "harness"),
                {"CARGO_TARGET_DIR": os.path.join(B, "ir"), "RUSTC_BOOTSTRAP": "1", "RUSTFLAGS": "--cfg decy_verif"}, l2)))
    l3 = os.path.join(B, "build-replay.log")
    jobs.append(("replay", l3, run(["cargo", "+" + TC, "build", "--offline", "--profile", "native", "--bin", "replay",
                "--features", feature], os.path.join(V, "harness"),
                {"CARGO_TARGET_DIR": os.path.join(B, "replay-" + feature), "RUSTFLAGS": "--cfg decy_verif"}, l3)))
    for n, l, p in jobs:
        if p.wait() != 0:
            print(open(l, errors="replace").read()[-4000:])
            die("building %s failed" % n)
    if not os.path.exists(ll):
        # cargo considered the unit fresh but the file is gone: force it
        die("no IR produced; remove %s and retry" % os.path.join(B, "ir"))
    return ll, os.path.join(B, "replay-" + feature, "native/replay")

def replay(binp, entry, values, path, timeout=120):
    with open(path, "w") as f:
        f.write("\n".join(str(v) for v in values) + "\n")
    e = dict(os.environ)
    e["RUST_BACKTRACE"] = "0"
    try:
        with tempfile.TemporaryDirectory(prefix="decy-replay-") as scratch:
            p = subprocess.run([binp, entry, os.path.abspath(path)], capture_output=True, timeout=timeout, env=e, cwd=scratch)
    except subprocess.TimeoutExpired:
        return ("timeout", None, [], "")
    out = p.stdout.decode(errors="replace").splitlines()
    err = p.stderr.decode(errors="replace")
    outs = [l[4:] for l in out if l.startswith("OUT ")] 
    asserts = [l[7:] for l in out if l.startswith("ASSERT ")]
    if p.returncode == 10:
        return ("assert", asserts[0] if asserts else "", outs, err)
    if p.returncode == 0:
        return ("ok", None, outs, err)
    if p.returncode == 77:
        return ("assume", None, outs, err)
    if p.returncode == 78:
        return ("exhausted", None, outs, err)
    if p.returncode < 0 or p.returncode in (101, 134):
        return ("panic", None, outs, err)
    return ("exit %d" % p.returncode, None, outs, err)

def merge(d):
    tot = {}
    inc, reach, fns, viol, samples = {}, {}, set(), {}, []
    for p in d["parts"]:
        for k, v in p.items():
            if isinstance(v, (int, float)):
                tot[k] = max(tot.get(k, 0), v) if k.startswith("max") or k == "nfunctions" else tot.get(k, 0) + v
        for k, v in p["incomplete"].items():
            inc[k] = inc.get(k, 0) + v
        for k, v in p["reach"].items():
            reach[k] = reach.get(k, 0) + v
        fns |= set(p["functions"])
        for v in p["violations"]:
            key = (v["kind"], v["msg"], v["tag"])
            if key in viol:
                viol[key]["count"] += v["count"]
            else:
                viol[key] = v
        samples += p["samples"]
    return tot, inc, reach, fns, list(viol.values()), samples

def known(prop):
    r = []
    for l in open(os.path.join(V, "known_findings.txt")):
        l = l.strip()
        m = re.match(r"known: property=(\S+) entry=(\S+) msg=/(.*?)/ tag=/(.*?)/ :: (.*)$", l)
        if m and m.group(1) == prop:
            r.append({"entry": m.group(2), "msg": re.compile(m.group(3)), "tag": re.compile(m.group(4)), "what": m.group(5), "hits": 0})
    return r

def ints(vals):
    return [v[1] for v in vals]

def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = "quick"
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    elif os.environ.get("VERIF_TIER") in ("quick", "thorough"):
        tier = os.environ["VERIF_TIER"]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    cfg = json.load(open(os.path.join(V, "checks.json")))[prop]
    if cfg.get("kind") == "tv":
        sys.path.insert(0, V)
        import tv
        return tv.main(prop, cfg, tier, seed, t0)
    ll, binp = build(cfg["feature"])
    tb = time.time() - t0
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    rd = os.path.join(V, "replays")
    os.makedirs(rd, exist_ok=True)
    kn = known(prop)
    agg = {}
    allinc, fns, new, errors, detail, samples_ev = {}, set(), [], [], [], []
    validated = 0
    nfn = 0
    exhaustive = True
    for ent in cfg["entries"]:
        if tier == "quick" and ent.get("thorough_only"):
            continue
        name = ent["name"]
        opt = dict(cfg.get("options", {}))
        opt.update(ent.get("options", {}))
        if tier == "thorough":
            opt.update(cfg.get("thorough", {}))
            opt.update(ent.get("thorough", {}))
        out = os.path.join(B, "out-%s-%s.json" % (prop, name))
        if os.path.exists(out):
            os.remove(out)
        dl = opt.get("deadline", 120 if tier == "quick" else 1500)
        if tier == "quick":
            left = 780 - (time.time() - t0)
            if left < 15:
                exhaustive = False
                allinc[name + ": not run, time budget of the quick tier spent"] = 1
                continue
            dl = min(dl, left)
        cmd = [SYMX, ll, "--entry", name, "--out", out, "--jobs", "8", "--deadline", str(dl),
               "--max-steps", str(opt.get("max_steps", 50_000_000)), "--rlimit", str(opt.get("rlimit", 8_000_000)),
               "--max-viol", "400", "--samples", str(opt.get("samples", 20 if tier == "quick" else 60)),
               "--seed", str(seed)] + opt.get("flags", [])
        p = subprocess.run(cmd, capture_output=True, env={**os.environ, "VERIF_TIER": tier})
        if p.returncode != 0 or not os.path.exists(out):
            print((p.stdout + p.stderr).decode(errors="replace")[-3000:])
            die("engine failed on %s" % name)
        d = json.load(open(out))
        tot, inc, reach, f, viol, samples = merge(d)
        for k, v in inc.items():
            allinc[name + ": " + k] = v
        if inc or tot.get("timed_out"):
            exhaustive = False
        fns |= f
        nfn = max(nfn, tot.get("nfunctions", 0))
        for k, v in tot.items():
            agg[k] = max(agg.get(k, 0), v) if k.startswith("max") else agg.get(k, 0) + v
        solver = d["solver"]
        if ent.get("vacuity"):
            # the witness must be violated, and replay natively
            w = [v for v in viol if v["kind"] == "assert" and v["msg"] == "vacuity witness"]
            if not w:
                errors.append("vacuity witness %s not reached" % name)
            else:
                r = replay(binp, name, ints(w[0]["values"]), os.path.join(B, "vac.txt"))
                if r[0] != "assert":
                    errors.append("vacuity witness %s does not replay: %s" % (name, r[0]))
            detail.append({"entry": name, "vacuity_witness": bool(w)})
            continue
        for k in ent.get("reach", []):
            if reach.get(str(k), 0) == 0 and not viol and not tot.get("timed_out"):
                errors.append("%s: assertion site %s never reached" % (name, k))
        # counterexamples
        conf = 0
        for v in viol:
            path = os.path.join(rd, "%s-%s-%d.txt" % (prop, name, len(new)))
            k = None
            for c in kn:
                if c["entry"] == name and c["msg"].search(v["msg"]) and c["tag"].search(v["tag"]):
                    k = c
                    break
            if k and k["hits"] >= 3:
                k["hits"] += 1
                continue
            if not k and len(new) >= 5:
                break
            r = replay(binp, name, ints(v["values"]), path)
            ok = (v["kind"] == "assert" and r[0] == "assert" and r[1] == v["msg"]) or (v["kind"] != "assert" and r[0] in ("panic", "timeout"))
            if not ok:
                errors.append("%s: counterexample does not reproduce natively (engine: %s %s [%s]; native: %s %s) values %s"
                              % (name, v["kind"], v["msg"], v["tag"], r[0], r[1], ints(v["values"])))
                if len(errors) > 5:
                    break
                continue
            conf += 1
            if k:
                k["hits"] += 1
                os.remove(path)
            else:
                new.append((name, v, path))
                with open(path, "a") as fh:
                    fh.write("# property %s entry %s: %s\n# %s\n# case: %s\n# replay: cd /verif && %s %s %s\n# native stderr: %s\n" % (
                        prop, name, v["kind"], v["msg"], v["tag"], os.path.relpath(binp, V), name, os.path.relpath(path, V), r[3].strip().replace("\n", " | ")[:400]))
        # validation of sampled paths against native execution
        samples.sort(key=lambda s: s["key"])
        want = opt.get("samples", 20 if tier == "quick" else 60)
        vd = 0
        for s in samples:
            if vd >= want:
                break
            if s["end"] not in ("ok",):
                continue
            r = replay(binp, name, ints(s["values"]), os.path.join(B, "sample-%s.txt" % prop))
            if r[0] != "ok" or r[2] != s["outs"]:
                errors.append("%s: sampled path disagrees with native run (%s) values %s engine %s native %s" % (
                    name, r[0], ints(s["values"]), s["outs"][:6], r[2][:6]))
                break
            vd += 1
            if len(samples_ev) < 12 and vd <= 3:
                samples_ev.append({"entry": name, "case": s["tag"], "inputs": ints(s["values"])[:40]})
        validated += vd
        detail.append({"entry": name, "paths": tot["paths"], "pruned_by_assumption": tot["pruned"], "assertions": tot["asserts"],
                       "assertions_sent_to_solver": tot["asserts_solver"], "queries": tot["queries"], "unsat": tot["unsat"], "sat": tot["sat"],
                       "unknown": tot["unknown"], "solver_s": round(tot["solver_s"], 2), "max_query_s": tot["max_query_s"],
                       "instructions": tot["steps"], "symbolic_inputs_max": tot["max_vars"], "wall_s": d["wall_s"],
                       "incomplete": inc, "timed_out": bool(tot["timed_out"]), "reach": reach, "violations_confirmed": conf,
                       "paths_validated_natively": vd, "bounds": ent.get("bounds", "")})
        print("%s %s: %d paths, %d assertions, %d queries (%.1fs solver), %d violation case(s), %d validated, %.1fs%s" % (
            prop, name, tot["paths"], tot["asserts"], tot["queries"], tot["solver_s"], conf, vd, d["wall_s"],
            " INCOMPLETE " + json.dumps(inc)[:300] if inc or tot["timed_out"] else ""))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": agg.get("paths", 0), "transitions": agg.get("forks", 0),
            "traces_validated_against_impl": validated,
            "samples": samples_ev or [{"entry": e["entry"]} for e in detail][:3],
            "exhaustive": exhaustive,
            "explanation": "states = symbolic paths explored to their end, transitions = solver-decided forks; every assertion on "
                           "every path is discharged by the solver for all values of the symbolic inputs on that path. exhaustive = every path "
                           "within the stated bounds was finished, with no solver 'unknown' and no time-out.",
            "entries": detail, "solver": solver, "queries_discharged": agg.get("queries", 0), "solver_s": round(agg.get("solver_s", 0), 2),
            "assertions": agg.get("asserts", 0), "decy_functions_encoded": sorted(x for x in fns if x.startswith("decy")),
            "functions_encoded_total": nfn, "instructions": agg.get("steps", 0), "incomplete": allinc,
            "known_findings_seen": [{"what": k["what"], "cases": k["hits"]} for k in kn if k["hits"]],
            "bounds": cfg.get("bounds", ""), "outside_bounds": cfg.get("outside", ""), "build_s": round(tb, 1)},
        "assumptions": cfg.get("assumptions", []) + COMMON,
        "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    for k in kn:
        if k["hits"]:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for n, v, path in new:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  entry %s: %s %s\n  case: %s" % (n, v["kind"], v["msg"], v["tag"]))
    if new:
        sys.exit(1)
    if errors:
        for e in errors:
            print("CHECK-ERROR: " + e)
        sys.exit(2)
    print("%s: held on everything explored (%.1fs)" % (prop, time.time() - t0))
    sys.exit(0)

COMMON = [
    "code is executed symbolically from the LLVM IR rustc emits for riscv64gc (opt-level 1, overflow checks on, panic=abort); the replay runs x86-64",
    "heap allocation never fails; the hash seed is fixed unless the entry says otherwise",
]

if __name__ == "__main__":
    main()
