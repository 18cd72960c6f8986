#!/usr/bin/env python3
"""DESIGN.md from doc/head.md, checks.json, properties.jsonl, the planted bugs' table doc/catch.json, doc/tail.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(V, p)).read()
cfg = json.loads(rd("checks.json"))
na = json.loads(rd("not_applicable.json"))
props = [json.loads(l) for l in rd("properties.jsonl").splitlines() if l.strip()]
out = [rd("doc/head.md"), "## 3. Per property\n\n"]
for p in props:
    c = cfg.get(p["id"])
    out.append("### %s %s\n\n" % (p["id"], p["title"]))
    if c is None:
        out.append("Not applicable: %s\n\n" % na[p["id"]])
        continue
    out.append(c["level_note"] + "\n\n")
    if c.get("assumptions"):
        out.append("Assumed: " + "; ".join(c["assumptions"]) + ".\n\n")
    if c.get("bounded"):
        out.append("Bounded stand-ins: " + "; ".join(map(str, c["bounded"])) + ".\n\n")
    if c.get("outside"):
        out.append("Outside: " + "; ".join(map(str, c["outside"])) + ".\n\n")
    out.append("Contracts on code in: " + ", ".join(p["anchors"]["files"] if "anchors" in p else p.get("files", [])) + ".\n\n")
out.append("## 4. Planted bugs and the checks that catch them\n\n")
out.append("`failing input` means that the replay produced a failing history as well; `proof only` that the failed obligation is all there is.\n\n| bug | property | needs | result |\n|---|---|---|---|\n")
cat = json.loads(rd("doc/catch.json")) if os.path.exists(os.path.join(V, "doc/catch.json")) else {}
for d in sorted(os.listdir(os.path.join(V, "seeded"))) if os.path.isdir(os.path.join(V, "seeded")) else []:
    m = json.loads(rd("seeded/%s/meta.json" % d))
    out.append("| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"].replace("|", "/"), cat.get(d, "not run")))
out.append(rd("doc/tail.md"))
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
