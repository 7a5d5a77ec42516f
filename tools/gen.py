#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props/config.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "props"))
import config
P, N = config.PROPERTIES, config.NOT_APPLICABLE
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for pid in sorted(list(P) + list(N)):
        t = (P.get(pid) or N[pid])["text"]
        assert len(t["title"]) <= 80, (pid, len(t["title"]))
        f.write(json.dumps(dict(id=pid, **t)) + "\n")
checks = []
for pid in sorted(P):
    c = P[pid]
    note = ("Seeded search over executions of the real code; no violation found on what was explored is evidence, not proof. Bounds: " + c["bounds"].rstrip(".") + ". " + (c["note"] + " " if c["note"] else "") +
            "Trusts the simulator in gsim/ and the oracle in props/" + c["sources"][0] + ".")
    checks.append(dict(property=pid, quick_cmd="./check " + pid, thorough_cmd="env VERIF_TIER=thorough ./check " + pid,
                       technique="deterministic simulation with fault injection: seeded schedule and fault search, reference-model oracle, minimised replay", level="exploration", level_note=note))
m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=[dict(property=p, reason=N[p]["reason"]) for p in sorted(N)],
         notes="No hooks in /repo: every seam is at compiler instrumentation, the allocator, link-time wrapping of locks and clocks, and the library's own template parameters.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

# DESIGN.md: everything after the marker is generated
import glob
from oracles import O
D = os.path.join(V, "DESIGN.md"); MARK = "<!-- generated by tools/gen.py from props/config.py, tools/oracles.py and seeded/ -->"
head = open(D).read().split(MARK)[0].rstrip() + "\n\n"
seeds = {}
for p in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    j = json.load(open(p)); seeds.setdefault(j["property"], []).append((os.path.basename(os.path.dirname(p)), j["needs"]))
fixes = {}
for l in open(os.path.join(V, "known_findings.txt")):
    if l.startswith("fixed: property="):
        w = l.strip().split(" ", 3); fixes.setdefault(w[1].split("=")[1], []).append((w[2], w[3]))
o = [MARK, "", "## The properties one by one", ""]
for pid in sorted(P):
    c, t = P[pid], P[pid]["text"]; oracle, skip = O[pid]
    o += ["### %s %s" % (pid, t["title"]), "", "Harness: `%s`%s. Drawn: %s." % ("`, `".join("props/" + s for s in c["sources"]), " (" + " ".join(c["defines"]) + ")" if c["defines"] else "", t["quantifier"]["text"].rstrip(".")),
          "", "*Oracle.* " + oracle, "", "*Bounds.* " + c["bounds"][0].upper() + c["bounds"][1:].rstrip(".") + "." + (" *Left open.* " + skip if skip else ""), "", "*Why tests cannot settle it.* " + t["why_tests_cant"], ""]
    if c["stub"] if "stub" in c else None: o += ["*Stubs.* " + c["stub"], ""]
    if pid in fixes: o += ["*Defects found and repaired.* " + "; ".join("%s (%s)" % (w, h) for h, w in fixes[pid]) + ".", ""]
    if pid in seeds: o += ["*Planted bugs, all caught by this check.* " + "; ".join("`%s`: %s" % s for s in seeds[pid]) + ".", ""]
o += ["## Not applicable", ""]
for pid in sorted(N): o += ["* %s %s: %s" % (pid, N[pid]["text"]["title"], N[pid]["reason"])]
open(D, "w").write(head + "\n".join(o) + "\n")
