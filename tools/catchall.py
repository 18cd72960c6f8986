#!/usr/bin/env python3
"""catchall.py [ID...]: run each planted bug's check on a scratch copy of /repo with the bug applied, and record the result in doc/catch.json."""
import json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("CATCH_OUT", V + "/doc/catch.json")
W = "/tmp/catchall-repo"
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", W], check=True)
    if subprocess.run(["git", "-C", W, "apply", V + "/seeded/%s/patch.diff" % i]).returncode:
        print(i, "does not apply"); continue
    t = time.time()
    p = subprocess.run(["timeout", "900", "python3", V + "/check.py", m["property"]], capture_output=True, text=True,
                       env=dict(os.environ, GX_REPO=W, VERIF_SEED="1", VERIF_TIER="quick"))
    v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
    obl = [l for l in p.stdout.splitlines() if l.startswith("failed obligation")]
    r = "missed (rc=%d)" % p.returncode
    if p.returncode == 1 and v:
        r = "caught: " + ("proof only" if "no-failing-input" in v[0] else "failing input") + (", %d obligations failed" % len(obl) if obl else ", proof passed")
    d = json.load(open(OUT)) if os.path.exists(OUT) else {}
    d[i] = r
    json.dump(d, open(OUT, "w"), indent=1, sort_keys=True)
    print(i, m["property"], "%ds" % (time.time() - t), r, (obl[:1] or [""])[0][:120], flush=True)
shutil.rmtree(W, ignore_errors=True)
