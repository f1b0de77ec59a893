#!/usr/bin/env python3
"""Prints the class distribution of the last run of checks: tools/stats.py ID..."""
import json, os, sys
for pid in sys.argv[1:]:
    d = json.load(open(os.path.join(os.path.dirname(__file__), "..", "evidence", pid + ".json")))
    c = d["coverage"]
    print(pid, d["tier"], c["evaluations"], c["distinct_nontrivial"], "%.1fs" % d["wall_s"])
    for f in c.get("facets", []):
        print("  %-26s %8d nontrivial %8d distinct %8d  %s" % (f["name"], f["evaluations"], f["nontrivial"],
              f["distinct_nontrivial"], f["classes"]))
