#!/usr/bin/env python3
"""Runs the solver-based check of one property against /repo's current working tree.

usage: check.py PROPERTY [quick|thorough]

Steps: build the symbolic engine and the native replay binary, run the engine over the property's
harnesses, replay every distinct counterexample natively (only what reproduces is reported),
validate sampled passing paths against the compiled code, write evidence/PROPERTY.json.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "checks"))
import registry, variants  # noqa: E402

ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", GONOSUMDB="*", GONOSUMCHECK="1")
ENV.setdefault("HOME", "/root")


def log(*a):
    print(*a, flush=True)


def run(cmd, cwd, timeout=800, env=None):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout)


def die(msg):
    log("ERROR: " + msg)
    sys.exit(2)


def build_engine(build):
    exe = os.path.join(build, "engine")
    p = run(["go", "build", "-o", exe, "."], os.path.join(VERIF, "engine"))
    if p.returncode:
        die("engine does not build:\n" + p.stdout + p.stderr)
    return exe


def harness_dir(build):
    """The harness module; a copy with its replace directive redirected when VERIF_REPO is set."""
    src = os.path.join(VERIF, "harness")
    if REPO == "/repo":
        return src
    dst = os.path.join(build, "harness")
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst)
    gm = os.path.join(dst, "go.mod")
    s = open(gm).read().replace("=> /repo", "=> " + REPO)
    open(gm, "w").write(s)
    return dst


def build_replay(build, hdir, variant, pkgs, overlay):
    exe = os.path.join(build, "replay-" + variant)
    gen = os.path.join(build, "cmd-" + variant)
    os.makedirs(gen, exist_ok=True)
    tmpl = open(os.path.join(hdir, "cmd", "replay", "main.go.tmpl")).read()
    imps = "\n".join('\t%s "verif/harness/%s"' % (p.replace("/", "_"), p) for p in pkgs)
    ents = "\n".join('\t"%s": %s.Funcs,' % (p, p.replace("/", "_")) for p in pkgs)
    main = os.path.join(gen, "main.go")
    open(main, "w").write(tmpl.replace("//IMPORTS", imps).replace("//ENTRIES", ents))
    ov = dict(overlay)
    ov[os.path.join(hdir, "cmd", "replay", "main.go")] = main
    ovf = os.path.join(gen, "overlay.json")
    json.dump({"Replace": ov}, open(ovf, "w"))
    p = run(["go", "build", "-overlay", ovf, "-o", exe, "./cmd/replay"], hdir)
    if p.returncode:
        die("replay binary (%s) does not build:\n%s%s" % (variant, p.stdout, p.stderr))
    return exe


def replay(exe, pkg, fn, vars_, delays, params, timeout=40, env=None):
    fd, f = tempfile.mkstemp(suffix=".json")
    os.close(fd)
    d = tempfile.mkdtemp()
    try:
        json.dump({"harness": fn, "vars": vars_, "delays": delays or [], "params": params or {}}, open(f, "w"))
        try:
            p = subprocess.run([exe, pkg, fn, f], capture_output=True, text=True, timeout=timeout, cwd=d,
                               env=dict(os.environ, **(env or {})), stdin=subprocess.DEVNULL, errors="replace")
        except subprocess.TimeoutExpired:
            return 6, "VRT-HANG", "", []
        obs = [l[4:] for l in p.stdout.split("\n") if l.startswith("OBS ")]
        return p.returncode, p.stdout, p.stderr, obs
    finally:
        os.unlink(f)
        shutil.rmtree(d, ignore_errors=True)


def reproduces(v, rc, out, err):
    """Does the native run show the same kind of failure the engine predicted?"""
    if v["kind"] == "assert":
        return rc == 1 and ("VRT-ASSERT-FAILED: " + v["msg"]) in out
    if v["kind"] == "panic":
        return rc == 2 and ("panic:" in err or "fatal error:" in err)
    if v["kind"] == "hang":
        return rc == 6 or "all goroutines are asleep" in err
    return False


def load_findings():
    known = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) id=(F\d+) (.*)", l.strip())
            if m:
                known[(m.group(1), m.group(2))] = m.group(3)
    return known


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in registry.PROPS:
        print("usage: check.py PROPERTY [quick|thorough]; properties: " + " ".join(sorted(registry.PROPS)))
        sys.exit(2)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = registry.PROPS[prop]
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    build = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(VERIF, "build"))
    try:
        rc = check(prop, spec, tier, seed, t0, build)
    finally:
        shutil.rmtree(build, ignore_errors=True)
    sys.exit(rc)


def check(prop, spec, tier, seed, t0, build):
    engine = build_engine(build)
    hdir = harness_dir(build)
    by = {}
    for g in spec["groups"]:
        if tier == "quick" and g.get("thorough_only"):
            continue
        by.setdefault(g.get("variant", "plain"), []).append(g)
    known = load_findings()
    tot = dict.fromkeys(["paths", "ok", "transitions", "asserts", "steps", "queries", "cache_hits", "solver_runs", "sat", "unsat",
                         "unknown", "infeasible", "unsupported", "limited", "solver_unknown", "cross_ok", "cross_bad"], 0)
    solver_s = 0.0
    funcs, jobs_ev, notes, samples_ev = set(), [], [], []
    confirmed, unconfirmed, known_hit = [], [], {}
    validated = mismatched = 0
    rdir = os.path.join(VERIF, "replays")
    for vname, groups in by.items():
        var = variants.VARIANTS[vname]
        try:
            overlay = var(build, REPO, VERIF)
        except variants.NotApplicable as e:
            notes.append("variant %s: %s" % (vname, e))
            continue
        pkgs = sorted({g["pkg"] for g in groups})
        exe = build_replay(build, hdir, vname, pkgs, overlay)
        jobs = []
        for g in groups:
            q = dict(g.get("params", {}))
            if tier == "thorough":
                q.update(g.get("deep", {}))
            tmo = g.get("time", 40) if tier == "quick" else g.get("deep_time", 6 * g.get("time", 40))
            jobs.append(dict(name=g["fn"], pkg="verif/harness/" + g["pkg"], fn=g["fn"], params=q,
                             max_steps=g.get("max_steps", 3000000), time_s=tmo, preempt=q.get("preempt", 0),
                             samples=g.get("samples", 8) * (1 if tier == "quick" else 5), seed=seed, max_viol=64,
                             max_conc=g.get("max_conc", 300)))
        cfg = dict(dir=hdir, patterns=["./" + p for p in pkgs], overlay=overlay, env=["GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"], jobs=jobs)
        if tier == "thorough":
            cfg["cross"] = ["cvc5", "--incremental", "--produce-models"]
            cfg["cross_every"] = 97
        cf, of = os.path.join(build, vname + ".json"), os.path.join(build, vname + ".out")
        json.dump(cfg, open(cf, "w"))
        p = run([engine, cf, of], build, timeout=6 * 3600)
        if p.returncode:
            die("engine failed: " + (p.stdout + p.stderr)[-3000:])
        out = json.load(open(of))
        funcs.update(out["funcs"] or [])
        for g, r in zip(groups, out["results"]):
            if r.get("error"):
                die(r["error"])
            for k in tot:
                tot[k] += r.get(k) or 0
            solver_s += r["solver_s"]
            miss = [l for l in g.get("reach", []) if l not in (r["reach"] or [])]
            jobs_ev.append(dict(harness=g["pkg"] + "." + g["fn"], variant=vname, params=r["params"], paths=r["paths"], ok=r["ok"], asserts_decided=r["asserts"],
                                queries=r["queries"], solver_runs=r["solver_runs"], unsat=r["unsat"], sat=r["sat"], solver_s=round(r["solver_s"], 2),
                                wall_s=round(r["wall_s"], 2), longest_path_steps=r["max_steps"], exhausted=not r["truncated"], truncated=r["truncated"],
                                unsupported=r["unsup_msgs"] or [], limits=r["limit_msgs"] or [], reached=r["reach"] or [], not_reached=miss, violations=r["viol_keys"] or {}))
            if r["truncated"]:
                notes.append("%s: bound reduced: %s" % (g["fn"], r["truncated"]))
            if r["unsupported"] or r["limited"] or r["solver_unknown"]:
                notes.append("%s: %d paths not decided (unsupported %d, limits %d, solver unknown %d)" % (g["fn"], r["unsupported"] + r["limited"] + r["solver_unknown"], r["unsupported"], r["limited"], r["solver_unknown"]))
            if miss and not r["violations"]:
                notes.append("%s: not reached: %s" % (g["fn"], ", ".join(miss)))
            # --- counterexamples: replay natively
            env = {"VRT_HANG_S": str(g.get("hang_s", 8))}
            done = {}
            todo = []
            for v in r["violations"] or []:
                if v["kind"] == "limit":
                    continue
                todo.append(v)

            def one(v):
                res = None
                for k in range(g.get("retries", 2)):
                    e = dict(env, VRT_SETTLE_MS=str(40 * (k + 1)), VRT_DELAY_MS=str(60 * (k + 1)))
                    res = replay(exe, g["pkg"], g["fn"], v["vars"], v.get("delays"), r["params"], env=e)
                    if reproduces(v, *res[:3]):
                        return v, res, True
                return v, res, False
            with ThreadPoolExecutor(6) as exr:
                for v, res, ok in exr.map(one, todo):
                    m = re.match(r"\[(F\d+)\]", v["msg"])
                    if ok and m and (prop, m.group(1)) in known:
                        known_hit.setdefault(m.group(1), (v, g))
                        continue
                    key = v["kind"] + "|" + v["msg"] + "|" + v["where"]
                    if ok:
                        if key not in done:
                            done[key] = True
                            confirmed.append((g, vname, v, r["params"], res))
                    else:
                        unconfirmed.append((g, v, res))
            # --- passing paths: the compiled code must observe the same values
            def val(s):
                for k in range(3):
                    res = replay(exe, g["pkg"], g["fn"], s["vars"], s.get("delays"), r["params"],
                                 env={"VRT_SETTLE_MS": str(40 * (k + 1)), "VRT_DELAY_MS": str(60 * (k + 1))})
                    if res[0] == 0 and res[3] == (s["obs"] or []):
                        return s, True, res
                return s, False, res
            sm = [s for s in (r["samples"] or []) if not any(x["name"] == "select" for x in s["vars"] or [])]
            with ThreadPoolExecutor(8) as exr:
                for s, ok, res in exr.map(val, sm):
                    if ok:
                        validated += 1
                        if len(samples_ev) < 12 or (s["obs"] and len([x for x in samples_ev if x["harness"] == g["fn"]]) < 1):
                            samples_ev.append(dict(harness=g["fn"], vars=[[x["name"], x["val"]] for x in s["vars"] or []][:40], observed=(s["obs"] or [])[:12]))
                    else:
                        mismatched += 1
                        notes.append("%s: engine and compiled code disagree on a sampled path: rc=%d" % (g["fn"], res[0]))
                        if os.environ.get("VDBG"):
                            log("MISMATCH", g["fn"], json.dumps(s), res)
    # --- report
    nviol = 0
    if confirmed:
        os.makedirs(rdir, exist_ok=True)
        for g, vname, v, params, res in confirmed:
            nviol += 1
            if nviol > 20:
                continue
            h = hashlib.sha1(json.dumps([g["fn"], v["kind"], v["msg"], v["vars"], v.get("delays")]).encode()).hexdigest()[:10]
            f = os.path.join(rdir, "%s-%s-%s.json" % (prop, g["fn"], h))
            json.dump(dict(property=prop, package=g["pkg"], harness=g["fn"], variant=vname, kind=v["kind"], msg=v["msg"], where=v["where"],
                           vars=v["vars"], delays=v.get("delays") or [], params=params or {},
                           native_output=(res[1][-1500:] + res[2][-2500:])), open(f, "w"), indent=1)
            log("VIOLATION property=%s replay=%s" % (prop, f))
            log("  %s.%s: %s: %s" % (g["pkg"], g["fn"], v["kind"], v["msg"][:300]))
            log("  inputs: " + ", ".join("%s=%d" % (x["name"], x["val"]) for x in v["vars"] or [])[:600])
    for fid, (v, g) in sorted(known_hit.items()):
        log("KNOWN-FINDING: property=%s %s %s" % (prop, fid, known[(prop, fid)]))
    for g, v, res in unconfirmed:
        notes.append("%s: counterexample did not reproduce natively (not reported): %s %s rc=%s" % (g["fn"], v["kind"], v["msg"][:160], res[0]))
        if os.environ.get("VDBG"):
            log("UNCONFIRMED", g["fn"], json.dumps(v), res)
    for n in notes[:40]:
        log("note: " + n)
    exhaustive = not any(j["truncated"] or j["unsupported"] or j["limits"] for j in jobs_ev) and not tot["solver_unknown"]
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2), violations=nviol,
              assumptions=spec.get("assumptions", []) + registry.COMMON_ASSUMPTIONS,
              coverage=dict(states=tot["paths"], transitions=tot["transitions"], traces_validated_against_impl=validated, samples=samples_ev,
                            exhaustive=exhaustive, bounds=spec["bounds"], outside=spec.get("outside", ""), functions_encoded=sorted(funcs), harnesses=jobs_ev,
                            assertions_decided=tot["asserts"], instructions_executed=tot["steps"],
                            queries=dict(total=tot["queries"], answered_from_cache=tot["cache_hits"], solver_runs=tot["solver_runs"], sat=tot["sat"], unsat=tot["unsat"], unknown=tot["unknown"]),
                            solver="z3 4.8.12", solver_s=round(solver_s, 2), cross_checked_with_cvc5=tot["cross_ok"], cross_disagreements=tot["cross_bad"],
                            counterexamples_not_reproduced=len(unconfirmed), trace_mismatches=mismatched, known_findings=sorted(known_hit), notes=notes))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    log("%s %s: %d paths, %d assertions decided, %d solver queries (%d run), %.1fs solver, %d traces validated, %d violations, %.1fs%s" %
        (prop, tier, tot["paths"], tot["asserts"], tot["queries"], tot["solver_runs"], solver_s, validated, nviol, time.time() - t0, "" if exhaustive else " (bounds reduced, see evidence)"))
    return 1 if nviol else 0


if __name__ == "__main__":
    main()
