#!/usr/bin/env python3
"""Decide one property of vipally/gx on /repo's current working tree.

usage: check.py PROPERTY [--tier quick|thorough]

1. gvc (built from /verif/gvc) loads the packages from /repo, generates every proof obligation of the
   contracts in /verif/contracts that belong to the property and has SMT solvers discharge them.
2. The contracts are replayed on the real code by /verif/falsify/PROPERTY (exported API only): a short
   run when the proof went through, a long one, seeded with the solvers' counterexamples, when not.
Exit 0: every obligation discharged. Exit 1 with a VIOLATION line otherwise.
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GX_REPO", "/repo")
MOD = "github.com/vipally/gx"


def sh(cmd, timeout=None, env=None, cwd=None):
    """run in its own process group; on timeout kill the group"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd,
                         start_new_session=True, text=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        import signal
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        return 124, out


def go_env(gopath=None):
    e = dict(os.environ)
    for k in ("GOFLAGS", "GOPATH", "GO111MODULE"):
        e.pop(k, None)
    e["GOTOOLCHAIN"] = "local"
    e["GOPROXY"] = "off"
    e["GOSUMDB"] = "off"
    if gopath:
        e["GOPATH"] = gopath
        e["GO111MODULE"] = "off"
    return e


def build_gvc():
    bdir = os.path.join(VERIF, "build")
    os.makedirs(bdir, exist_ok=True)
    exe = os.path.join(bdir, "gvc")
    h = hashlib.sha256()
    src = os.path.join(VERIF, "gvc")
    for f in sorted(os.listdir(src)):
        if f.endswith(".go") or f in ("go.mod", "go.sum"):
            h.update(f.encode() + open(os.path.join(src, f), "rb").read())
    stamp = os.path.join(bdir, "gvc.stamp")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return exe
    e = go_env()
    e["GO111MODULE"] = "on"
    e["GOFLAGS"] = "-mod=mod"
    tmp = exe + ".%d" % os.getpid()
    rc, out = sh(["go", "build", "-o", tmp, "."], env=e, cwd=src, timeout=600)
    if rc != 0:
        raise RuntimeError("building gvc failed:\n" + out)
    os.rename(tmp, exe)
    open(stamp, "w").write(h.hexdigest())
    return exe


def make_gopath():
    d = tempfile.mkdtemp(prefix="gxverif.")
    src = os.path.join(d, "src", os.path.dirname(MOD))
    os.makedirs(src)
    os.symlink(REPO, os.path.join(src, os.path.basename(MOD)))
    os.symlink(os.path.join(VERIF, "falsify"), os.path.join(d, "src", "falsify"))
    return d


def props_config():
    return json.load(open(os.path.join(VERIF, "checks.json")))


def literals(prop):
    """Numbers and texts in the source the property is anchored in: hints for the replay's inputs."""
    dirs = set()
    for line in open(os.path.join(VERIF, "properties.jsonl")):
        p = json.loads(line)
        if p["id"] == prop:
            dirs = {os.path.dirname(f) for f in p["anchors"]["files"]}
    ints, strs = set(), set()
    for d in sorted(dirs):
        d = os.path.join(REPO, d)
        for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
            if not f.endswith(".go") or f.endswith("_test.go"):
                continue
            t = open(os.path.join(d, f), errors="replace").read()
            t = re.sub(r"(?m)//.*$", "", re.sub(r"(?s)/\*.*?\*/", "", t))
            strs.update(x for x in re.findall(r'"([^"\\\n]{1,40})"', t) if x.isascii())
            t = re.sub(r'"[^"\n]*"', "", t)
            n = {int(x, 0) for x in re.findall(r"\b(0[xX][0-9a-fA-F]+|[1-9][0-9]*)\b", t)}
            n |= {int(a) << int(b) for a, b in re.findall(r"\b([1-9])\s*<<\s*([0-9]{1,2})\b", t)}
            if len(n) <= 500:
                ints |= {x for x in n if x < 1 << 64}
    return {"Ints": sorted(ints)[:2000], "Strs": sorted(strs)[:500]}

def falsify(prop, gp, budget, seed, models, tmp, race=False, exhaust=False):
    """returns (found, record, log)"""
    cwd = os.path.join(gp, "src", "falsify")
    if not os.path.isdir(os.path.join(VERIF, "falsify", prop)):
        return False, None, "no replay program"
    e = go_env(gp)
    e["PWD"] = cwd
    # packages whose atomic operations are scheduled by the replay program: their current source with
    # the import of sync/atomic replaced
    for d in props_config()[prop].get("simcopy", []):
        dst = os.path.join(gp, "src", "simcopy", d)
        os.makedirs(dst, exist_ok=True)
        for f in os.listdir(os.path.join(REPO, d)):
            if f.endswith(".go") and not f.endswith("_test.go"):
                t = open(os.path.join(REPO, d, f), errors="replace").read()
                t = re.sub(r'(?m)^(\s*(?:import\s+)?)(?:atomic\s+)?"sync/atomic"', r'\1atomic "falsify/simatomic"', t)
                open(os.path.join(dst, f), "w").write(t)
    exe = os.path.join(tmp, "fz-" + prop)
    cmd = ["go", "build", "-o", exe]
    if race:
        cmd.append("-race")
    rc, out = sh(cmd + ["falsify/" + prop], env=e, cwd=cwd, timeout=300)
    if rc != 0:
        return False, None, "replay program does not build against the current tree:\n" + out[-3000:]
    e["VERIF_SEED"] = str(seed)
    e["FZ_BUDGET"] = str(budget)
    e["FZ_LITS"] = json.dumps(literals(prop))
    e["FZ_MODELS"] = json.dumps(models)[:60000]
    if exhaust:
        e["FZ_EXHAUST"] = "1"
    e["GORACE"] = "halt_on_error=1"
    work = os.path.join(tmp, "work")
    os.makedirs(work, exist_ok=True)
    limit = budget + 100 if exhaust else budget * 3 + 120
    rc, out = sh([exe], env=e, cwd=work, timeout=limit)
    for line in out.splitlines():
        if line.startswith("FALSIFIED "):
            try:
                return True, json.loads(line[10:]), out[-4000:]
            except ValueError:
                return True, {"what": line[10:]}, out[-4000:]
    if rc == 0:
        return False, None, out[-1500:]
    if rc == 124:
        return True, {"what": "the replay run did not end within %d s" % limit, "case": []}, out[-4000:]
    if "DATA RACE" in out:
        return True, {"what": "data race between goroutines that hold the lock", "case": out[-4000:].splitlines()}, out[-4000:]
    if "fatal error:" in out or "panic:" in out or "SIG" in out:
        return True, {"what": "the real code crashes the program", "case": out[-4000:].splitlines()[:60]}, out[-4000:]
    return False, None, "replay program ended with code %d\n%s" % (rc, out[-3000:])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    cfg = props_config()[prop]
    gvc = build_gvc()
    gp = make_gopath()
    tmp = os.path.join(gp, "tmp")
    os.makedirs(tmp)
    code = 1
    try:
        code = run(prop, tier, seed, cfg, gvc, gp, tmp, t0)
    finally:
        shutil.rmtree(gp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def run(prop, tier, seed, cfg, gvc, gp, tmp, t0):
    rep_file = os.path.join(tmp, "report.json")
    cwd = os.path.join(gp, "src", MOD)
    e = go_env(gp)
    e["PWD"] = cwd
    e["TMPDIR"] = tmp
    runs = [(0, 3, 20)] if tier == "quick" else [(0, 3, 40), (seed + 1, 5, 60), (seed + 2, 5, 60)]
    reports = []
    for (sd, t1, t2) in runs:
        cmd = [gvc, "verify", "-gopath", gp, "-contracts", os.path.join(VERIF, "contracts"), "-prop", prop,
               "-json", rep_file, "-seed", str(sd), "-deadline", str(360 if tier == "quick" else 1700), "-t1", str(t1), "-t2", str(t2), "-dump", os.path.join(tmp, "dump")]
        if os.path.exists(rep_file):
            os.unlink(rep_file)
        rc, out = sh(cmd, env=e, cwd=cwd, timeout=420 if tier == "quick" else 1800)
        rep = {"ok": False, "obligations": 0, "discharged": 0, "failed": []}
        if os.path.exists(rep_file):
            try:
                rep = json.load(open(rep_file))
            except ValueError:
                pass
        rep["rc"], rep["out"] = rc, out
        if rc != 0:
            rep["ok"] = False
        reports.append(rep)
        if not rep.get("ok"):
            break
    # instability guard: under a different solver seed only, a non-proof is not a change in the code
    rep = reports[0]
    proved = bool(rep.get("ok"))
    models = [f["model"] for f in (rep.get("failed") or []) if f.get("model")]
    budget = cfg.get("budget", 4) if proved else cfg.get("budget_fail", 45)
    if tier == "thorough":
        budget = max(budget, cfg.get("budget_thorough", 90))
    found, rec, flog = falsify(prop, gp, budget, seed, models, tmp, cfg.get("race", False),
                               exhaust=cfg.get("enumerable", False) and not proved)
    # a function whose proof does not go through, but whose whole (finite) input space was just run
    # against the property: bounded stand-in, reported as such and not as proved
    complete = None
    if not proved and not found:
        for l in (flog or "").splitlines():
            if l.startswith("FZ-COMPLETE "):
                complete = l[12:]

    known, fixed = known_findings(prop)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))

    viol = []
    code = 0
    if (not proved and not complete) or found:
        code = 1
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        rp = os.path.join(VERIF, "replay", "%s-%s.json" % (prop, tier))
        failed = rep.get("failed") or []
        for f in failed[:5]:
            d = f.get("dump")
            if d and os.path.exists(d):
                q = open(d).read()
                f["query"] = q[-20000:]
        data = {"property": prop, "failed_obligations": failed[:40], "verifier_error": rep.get("error"),
                "verifier_output": rep.get("out", "")[-6000:], "failing_input": rec, "replay_log": flog[-3000:],
                "how_to_replay": "VERIF_SEED=%d FZ_BUDGET=%s python3 %s/check.py %s --tier %s" % (seed, budget, VERIF, prop, tier)}
        json.dump(data, open(rp, "w"), indent=1)
        for f in failed[:12]:
            print("failed obligation: %s: %s at %s [%s]" % (f["function"], f["obligation"], f.get("pos", ""), f["result"]))
        if rep.get("error"):
            print("verifier error:", rep["error"])
        if not proved and not failed and not rep.get("error"):
            print("verifier ended with code %s: %s" % (rep.get("rc"), rep.get("out", "")[-500:]))
        if found:
            print("failing input on the real code:", rec.get("what"))
            for s in (rec.get("case") or [])[:40]:
                print("   ", s)
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
        viol.append({"obligations": [f["function"] + ": " + f["obligation"] for f in failed[:20]],
                     "failing_input": rec, "replay": rp})
    elif complete:
        for f in (rep.get("failed") or [])[:12]:
            print("obligation not discharged: %s: %s at %s [%s]" % (f["function"], f["obligation"], f.get("pos", ""), f["result"]))
        print("%s holds on %s (bounded stand-in: the input space was enumerated; not proved)" % (prop, complete))
    else:
        print("%s holds: %d obligations discharged over %d functions and %d lemmas in %.1f s" %
              (prop, rep["discharged"], len(rep["functions"] or []), len(rep["lemmas"] or []), time.time() - t0))

    trusted = ["gvc (verification condition generator, /verif/gvc)", "go/types and golang.org/x/tools/go/ssa",
               "solvers z3 5.x, z3 4.8.12, cvc5 1.1.2"]
    trusted += ["assumed contract: " + x for x in (rep.get("externs") or [])]
    trusted += ["axiom: " + x for x in (rep.get("axioms") or [])]
    cov = {"obligations": rep.get("obligations", 0), "discharged": rep.get("discharged", 0),
           "checker_cmd": "python3 check.py %s --tier %s" % (prop, tier), "trusted_base": trusted,
           "functions_under_contract": rep.get("functions") or [], "functions_inlined": rep.get("inlined") or [],
           "lemmas": rep.get("lemmas") or [], "obligations_by_backend": rep.get("by_solver") or {},
           "solver_seconds": rep.get("solver_secs") or {}, "obligations_by_function": rep.get("by_function") or {},
           "slowest": rep.get("slowest") or [], "bounded_standins": cfg.get("bounded", []),
           "unverified_surroundings": cfg.get("outside", []),
           "replay_on_real_code": {"budget_s": budget, "result": (flog or "").strip()[-300:]},
           "notes": rep.get("notes") or []}
    if tier == "thorough":
        cov["solver_seed_runs"] = [{"seed": r[0], "obligations": x.get("obligations"), "discharged": x.get("discharged"),
                                    "wall_s": x.get("wall_s")} for r, x in zip(runs, reports)]
    level = cfg.get("level", "proof")
    if complete:
        level = "other"
        cov["explanation"] = "the proof did not go through on this tree; the property was run on " + complete
        cov["bounded_standins"] = cov["bounded_standins"] + ["complete enumeration: " + complete]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": (rep.get("assumed") or []) + cfg.get("assumptions", []),
          "violations": len(viol), "wall_s": round(time.time() - t0, 2)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    return code


def known_findings(prop):
    known, fixed = [], []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                known.append(l.split(" ", 2)[2])
            if l.startswith("fixed: property=%s " % prop):
                fixed.append(l.split(" ", 2)[2])
    return known, fixed


if __name__ == "__main__":
    if sys.argv[1:] == ["--build"]:
        print(build_gvc())
        sys.exit(0)
    main()
