#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and props.json from tools/props.py."""
import json, os, sys, re
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
import props
P = sorted(props.P, key=lambda p: p["id"])
with open(root + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        s = p["statement"]
        n = len(re.findall(r"[.!?](?:\s|$)", s))
        if n > 3: print("warning: statement of", p["id"], "has", n, "sentences")
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": s,
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]} if p["state"] else {})}}) + "\n")
TRUST = ("Bounded: every value, choice and schedule within the stated bounds, decided by z3 over paths of the real code "
         "executed symbolically from Go SSA; trusts the engine's semantics of Go SSA and its models of assembly and runtime functions. "
         "Counterexamples count only after they fail natively against the real code.")
checks = []
for p in P:
    checks.append({"property": p["id"], "quick_cmd": "./check.sh " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
        "technique": "symbolic execution of Go SSA with z3" + (", symbolic schedules" if "schedules" in p["over"] else ""),
        "level": p["level"], "level_note": (p["note"] + " " if p["note"] else "") + TRUST})
na = [{"property": a, "reason": b} for a, b in props.NA]
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
json.dump({p["id"]: {"bounds": p["bounds"], "assumptions": p["assume"], "level": p["level"]} for p in P}, open(root + "/props.json", "w"), indent=1)
open(root + "/props.json", "a").write("\n")

# DESIGN.md from design.md, with the tables of findings and planted bugs
F = [json.loads(l) for l in open(root + "/known_findings.jsonl") if l.strip()]
rows = ["| id | property | what |", "|---|---|---|"]
for d in F: rows.append("| %s | %s | %s |" % (d["id"].split("-")[0] if d["id"].startswith("F") else d["id"], d["property"], re.sub(r"^fixed: property=\S+ ", "", d["what"]).replace("|", "\\|")))
seeds = ["| planted bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
for s in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{s}/meta.json"))
    seeds.append("| %s | %s | %s | %s |" % (s, m["what_it_breaks"], m["needs"], getattr(props, "CAUGHT", {}).get(s, m["property"])))
t = open(here + "/design.md").read().replace("@FINDINGS@", "\n".join(rows)).replace("@SEEDS@", "\n".join(seeds))
open(root + "/DESIGN.md", "w").write(t)
