#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/registry.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True
from registry import CHECKS  # noqa: E402

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for pid, p in CHECKS.items():
        f.write(json.dumps({
            "id": pid, "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                        "observe_at": ["public interface, driven by props/%s" %
                                       (pid + ".cpp" if p.get("kind") != "programs" else "programs.py")],
                        "hook_needed": None}}) + "\n")

checks, na = [], []
for pid, p in CHECKS.items():
    src = os.path.join(HERE, "props", pid + ".cpp")
    if p.get("kind") != "programs" and not os.path.exists(src) or \
       p.get("kind") == "programs" and not os.path.exists(os.path.join(HERE, "lib", "programs.py")):
        na.append({"property": pid, "reason": "check not built yet"})
        continue
    checks.append({"property": pid, "quick_cmd": "python3 run_check.py %s quick" % pid,
                   "thorough_cmd": "python3 run_check.py %s thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": p["technique"],
                   "level": "exploration", "level_note": p["note"]})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
               "not_applicable": na,
               "notes": "No hooks in /repo: every property is observed through the public interface."}, f, indent=1)
    f.write("\n")
MISSED_FIRST = set("""c04-many c07-extra-result c06-nested-exception-cleanup c07-connection-rebuilt s01-unset-unwinding
k01-second-base-copy u02-byte-counter p01-short-size p02-memcmp-order p02-memcmp-equal b01-dyn-alias-growth
m02-degrees-type v01-negated-zero v02-sum-narrow v03-pow-exponent v03-scalar-minus v03-div-reciprocal v04-mixed-equal
l03-tiny-pivot l03-copy-float r03-rect-through-old-type x01-precision-kept
c05-release-keeps s01-thrown-not-equal b01-const-vector m02-mix-int""".split())
if os.path.isdir(os.path.join(HERE, "seeded")):
    rows = []
    for b in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        m = os.path.join(HERE, "seeded", b, "meta.json")
        if not os.path.exists(m):
            continue
        m = json.load(open(m))
        star = "*" if b in MISSED_FIRST else ""
        rows.append("| %s%s | %s | %s |" % (b, star, m["property"], m["needs"].replace("|", "/").replace("\n", " ")))
    d = os.path.join(HERE, "DESIGN.md")
    text = open(d).read()
    a, rest = text.split("<!-- bugs:begin -->")
    _, z = rest.split("<!-- bugs:end -->")
    with open(d, "w") as f:
        f.write(a + "<!-- bugs:begin -->\n| bug | caught by | needs |\n|---|---|---|\n" + "\n".join(rows) +
                "\n<!-- bugs:end -->" + z)

print(len(checks), "checks,", len(na), "not claimed")
