#!/usr/bin/env python3
"""Makes and confirms planted bugs from spec files, in scratch copies of /repo.

  mkbug.py SPEC.py [ID...]     SPEC.py calls bug(id, property, edits, needs, breaks, demo)
  mkbug.py --verify [ID...]    re-confirms what is in seeded/

For each bug: patch applies to HEAD, removed lines are the original repository's, the copy
builds, its tests pass, demo.sh passes without and fails with the patch; then the check of
the property runs against the patched copy and its result is printed."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
SCRATCH = "/tmp/mkbug"
BASE = "ca91308"
BUGS = []


def bug(bid, prop, edits, needs, breaks, demo, extra=None):
    BUGS.append((bid, prop, edits, needs, breaks, demo, extra or {}))


DEMO_SH = """#!/bin/bash
# exit 0: the guarantee holds; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O1 -g -w -include cstdint -fsanitize=address,undefined -fno-sanitize-recover=all -I"$PWD" \\
	"$here/demo.cpp" -o "$tmp/demo" || exit 1
ASAN_OPTIONS=detect_leaks=0 timeout 120 "$tmp/demo"
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", **kw)


def copy(name):
    d = os.path.join(SCRATCH, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh(["cp", "-a", "/repo", d + "/repo"], "/tmp")
    shutil.rmtree(d + "/repo/_build", ignore_errors=True)
    os.makedirs(d + "/vp")
    for f in os.listdir("/opt/vp"):
        with open("/opt/vp/" + f) as s:
            text = s.read().replace("/repo", d + "/repo").replace("/opt/vp", d + "/vp")
        with open(d + "/vp/" + f, "w") as o:
            o.write(text)
    return d


def demo(bid, repo):
    return subprocess.run(["bash", os.path.join(SEEDED, bid, "demo.sh")], cwd=repo, stdout=subprocess.DEVNULL,
                          stderr=subprocess.DEVNULL, timeout=300).returncode


def original_lines(repo, patch):
    """Every line the patch removes is a line of the original repository."""
    f, bad, n = None, [], 0
    for line in patch.split("\n"):
        m = re.match(r"--- a/(.*)", line)
        if m:
            f = m.group(1)
            blame = sh(["git", "blame", "-s", "-l", f], repo).stdout.split("\n")
            continue
        m = re.match(r"@@ -(\d+)", line)
        if m:
            no = int(m.group(1))
            continue
        if line.startswith("-") and f:
            n += 1
            if not blame[no - 1].lstrip("^").startswith(BASE):
                bad.append(line)
            no += 1
        elif line.startswith(" "):
            no += 1
    return n, bad


def confirm(b):
    bid, prop = b[0], b[1]
    d = copy(bid)
    repo = d + "/repo"
    out = []
    try:
        patch = open(os.path.join(SEEDED, bid, "patch.diff")).read()
        n, bad = original_lines(repo, patch)
        if bad or n == 0:
            out.append("NOT-ORIGINAL %s" % (bad or "no removed line"))
        if demo(bid, repo) != 0:
            out.append("DEMO-FAILS-CLEAN")
        r = sh(["git", "apply", os.path.join(SEEDED, bid, "patch.diff")], repo)
        if r.returncode:
            return bid, prop, ["DOES-NOT-APPLY " + r.stdout]
        r = sh(["bash", d + "/vp/build.sh"], repo)
        if r.returncode:
            out.append("BUILD " + "\n".join(x for x in r.stdout.split("\n") if "error" in x)[:800])
        sh(["bash", d + "/vp/test.sh", d + "/o.json"], repo)
        res = json.load(open(d + "/o.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base.get("passed") or base.get("stable") or base
        missing = [t for t in (stable if isinstance(stable, list) else []) if t not in res["passed"]]
        if missing or len(res["passed"]) < 59:
            out.append("TESTS %d passed, missing %s" % (len(res["passed"]), missing[:4]))
        if demo(bid, repo) == 0:
            out.append("DEMO-PASSES-WITH-BUG")
        env = dict(os.environ, NYTL_REPO=repo, VERIF_SEED="1")
        c = sh(["python3", os.path.join(HERE, "run_check.py"), prop, "quick"], HERE, env=env)
        line = [x for x in c.stdout.split("\n") if x.startswith("VIOLATION")]
        out.append("caught" if c.returncode == 1 and line else "MISSED rc=%d %s" % (c.returncode, c.stdout[-300:]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return bid, prop, out


def make(b):
    bid, prop, edits, needs, breaks, demo_src, extra = b
    d = os.path.join(SEEDED, bid)
    os.makedirs(d, exist_ok=True)
    w = os.path.join(SCRATCH, "mk-" + bid)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(SCRATCH, exist_ok=True)
    sh(["git", "clone", "-q", "/repo", w], "/tmp")
    for f, old, new in edits:
        p = os.path.join(w, f)
        s = open(p).read()
        if s.count(old) != 1:
            print("%s: %d occurrences of %r in %s" % (bid, s.count(old), old, f))
            shutil.rmtree(w)
            return False
        with open(p, "w") as o:
            o.write(s.replace(old, new))
    patch = sh(["git", "diff"], w).stdout
    shutil.rmtree(w)
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    open(os.path.join(d, "demo.cpp"), "w").write(demo_src.lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    for name, text in extra.items():
        open(os.path.join(d, name), "w").write(text)
    return True


def main():
    args = sys.argv[1:]
    if args[0] == "--verify":
        ids = args[1:] or sorted(os.listdir(SEEDED))
        todo = [(i, json.load(open(os.path.join(SEEDED, i, "meta.json")))["property"]) for i in ids]
    else:
        exec(compile(open(args[0]).read(), args[0], "exec"), {"bug": bug})
        todo = [b for b in BUGS if not args[1:] or b[0] in args[1:]]
        todo = [b for b in todo if make(b)]
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        for bid, prop, out in ex.map(confirm, todo):
            print("%-28s %s: %s" % (bid, prop, "; ".join(out)), flush=True)
            bad += out != ["caught"]
    print(len(todo), "bugs,", bad, "with remarks")


main()
