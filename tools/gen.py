#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from tools/props.py, checks.py, tools/design_head.md and tools/seeded_table.md."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V, V + "/tools"]
import props, checks
with open(V + "/properties.jsonl", "w") as f:
    for i, p in sorted(props.P.items()):
        assert len(p["title"]) <= 80, (i, len(p["title"]))
        f.write(json.dumps({"id": i, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
          "anchors": {"files": p["files"], "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]], "mechanism": [dict(zip(("name", "where"), m)) for m in p["mechanism"]], "observe_at": p["observe_at"], "hook_needed": None}}) + "\n")
chk = []; na = []
for i, p in sorted(props.P.items()):
    if p["na"]: na.append({"property": i, "reason": p["na"]}); continue
    s = checks.CHECKS[i]
    modes = ["exact real arithmetic"] if s.get("runner") else sorted({("exact real arithmetic" if u.get("mode", "real") == "real" else "IEEE-754 bit patterns") for u in s.get("units", [])})
    chk.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
      "technique": s.get("technique", "symbolic execution of the real C++ (LLVM bitcode) with Z3, " + " and ".join(modes)), "level": p["level"],
      "level_note": p["note"] or "all inputs and histories within the unit bounds (see evidence units); counterexamples replayed on the %s; " % ("real package with floats" if s.get("runner") else "native build") + "; ".join(modes) + (". Float rounding is abstracted in exact-real units." if "exact real arithmetic" in modes else "")})
json.dump({"version": 1, "setup_cmd": "bash engine/build.sh build", "checks": chk, "not_applicable": na, "notes": "see DESIGN.md; known_findings.txt lists repaired and recorded defects"}, open(V + "/MANIFEST.json", "w"), indent=1)
out = open(V + "/tools/design_head.md").read() + "\n## Properties\n\n"
for i, p in sorted(props.P.items()):
    out += "### %s %s\n\n%s\n\n" % (i, p["title"], "Not applicable: " + p["na"] if p["na"] else p["design"])
    if not p["na"] and "units" in checks.CHECKS[i]:
        for u in checks.CHECKS[i]["units"]: out += "- unit `%s` (%s, %s): quick %s%s\n" % (u["name"], u["h"], "exact reals" if u.get("mode", "real") == "real" else "IEEE bits", u.get("quick", {}).get("D", "-"), "; thorough %s" % u["thorough"]["D"] if "thorough" in u else "")
        out += "\n"
if os.path.exists(V + "/tools/seeded_table.md"): out += open(V + "/tools/seeded_table.md").read()
open(V + "/DESIGN.md", "w").write(out)
