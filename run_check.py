#!/usr/bin/env python3
"""Runs the check of one property.

  run_check.py <ID> quick|thorough      decides the property on /repo's current tree
  run_check.py <ID> replay <file>       re-executes a saved failing case

Exit 0: the property held on everything explored. Exit 1 and a line
"VIOLATION property=<ID> replay=<path>": it is broken. Anything else is an error
of the check itself (exit 3).
"""
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NYTL_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True

import registry  # noqa: E402

WORKERS = 8
GCC_FLAGS = ["-std=c++17", "-O1", "-g1", "-w",
             "-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute",
             "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern",
             "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer"]
CLANG_FLAGS = ["-std=c++17", "-O1", "-g1", "-w",
               "-fsanitize=fuzzer,address,undefined", "-fno-sanitize=nonnull-attribute,function",
               "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern",
               "-D_GLIBCXX_ASSERTIONS", "-DPBT_FUZZER"]


# for the harness that looks for data races
TSAN_FLAGS = [f for f in GCC_FLAGS if "sanitize" not in f] + ["-fsanitize=thread", "-pthread"]


def environment():
    env = dict(os.environ)
    env["LC_ALL"] = "C.UTF-8"
    env["ASAN_OPTIONS"] = ("detect_leaks=0:exitcode=99:max_allocation_size_mb=2000:"
                           "detect_stack_use_after_return=0:strict_init_order=1")
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=97:history_size=4"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=98"
    return env


class CheckError(Exception):
    pass


class CompileError(Exception):
    def __init__(self, log):
        super().__init__("compile error")
        self.log = log


INFRA = re.compile(r"internal compiler error|Killed signal|^Killed|fatal error: Killed|out of memory|No space left|"
                   r"annot allocate memory|fatal error: error writing|Bad address|unable to execute command|Resource temporarily unavailable", re.M)


def compile_all(pid, build, compiler="g++", flags=GCC_FLAGS, name="prog"):
    """Compiles the engine and the harness of the property; returns the program's path."""
    incl = ["-I" + REPO, "-I" + os.path.join(HERE, "lib"), "-I" + os.path.join(HERE, "props")]
    info = registry.CHECKS[pid]
    srcs = [(os.path.join(HERE, "lib", "pbt.cpp"), 0)]
    # a harness may be compiled in several parts at once to save time
    srcs += [(os.path.join(HERE, "props", pid + ".cpp"), i) for i in range(info.get("parts", 1))]
    srcs += [(os.path.join(HERE, "props", s), 0) for s in info.get("extra", [])]
    procs = []
    for i, (s, part) in enumerate(srcs):
        obj = os.path.join(build, "%s%d.o" % (name, i))
        procs.append((s, obj, subprocess.Popen(
            [compiler] + flags + incl + ["-DPBT_PART=%d" % part, "-c", s, "-o", obj], stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, text=True, errors="replace", env=environment())))
    log = ""
    bad = False
    for s, _, p in procs:
        out = p.communicate()[0]
        if p.returncode != 0:
            bad = True
            log += "== %s\n%s\n" % (s, out)
    if not bad:
        prog = os.path.join(build, name)
        p = subprocess.run([compiler] + flags + [o for _, o, _ in procs] + ["-o", prog],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", env=environment())
        if p.returncode == 0:
            return prog
        log += "== link\n" + p.stdout
    if "== " + srcs[0][0] in log:
        raise CheckError("the engine itself does not compile:\n" + log[:4000])
    if INFRA.search(log) or ("error:" not in log and "undefined reference" not in log and
                             "multiple definition" not in log):
        raise CheckError("compiler failed:\n" + log[:4000])
    raise CompileError(log)


def compile_harness(pid, build):
    """The program of the property with its sanitizers."""
    if registry.CHECKS[pid].get("sanitize") != "thread":
        return compile_all(pid, build)
    prog = compile_all(pid, build, flags=TSAN_FLAGS)
    # ThreadSanitizer needs an address space layout that not every kernel gives
    if subprocess.run([prog, "--list"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                      env=environment()).returncode == 0:
        return prog
    print("ThreadSanitizer does not run here: only results are compared")
    return compile_all(pid, build, flags=GCC_FLAGS + ["-pthread"])


def known_findings(pid):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


def write_evidence(pid, tier, seed, coverage, wall, violations, assumptions):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": coverage, "assumptions": assumptions, "wall_s": round(wall, 2),
          "violations": violations}
    tmp = os.path.join(HERE, "evidence", pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(HERE, "evidence", pid + ".json"))


def run_pbt(pid, tier, seed, build, replays):
    """Returns (exit code, coverage)."""
    info = registry.CHECKS[pid]
    prog = compile_harness(pid, build)
    res = os.path.join(build, "result.json")
    scale = info.get("thorough_scale", 15) if tier == "thorough" else 1
    cmd = [prog, "--seed", str(seed), "--workers", str(WORKERS), "--scale", str(scale),
           "--out", res, "--replaydir", replays, "--property", pid,
           "--hang", str(info.get("hang", 10))]
    rc = subprocess.run(cmd, env=environment()).returncode
    data = {}
    if os.path.exists(res):
        data = json.load(open(res))
    cov = {"rule": info["rule"]}
    if rc == 0:
        facets = data["facets"]
        cov["evaluations"] = sum(f["evaluations"] for f in facets)
        cov["distinct_nontrivial"] = sum(f["distinct"] for f in facets)
        cov["samples"] = [{"facet": f["name"], "case": s} for f in facets for s in f["samples"]]
        cov["facets"] = [{"name": f["name"], "evaluations": f["evaluations"],
                          "nontrivial": f["nontrivial"], "distinct_nontrivial": f["distinct"],
                          "classes": f["labels"]} for f in facets]
        for f in facets:
            if f["evaluations"] and f["distinct"] == 0:
                raise CheckError("facet %s generated no non-trivial case" % f["name"])
    else:
        cov["evaluations"] = int(data.get("evaluations", 0))
        cov["distinct_nontrivial"] = 0
        cov["samples"] = [data.get("what", "")]
    if rc not in (0, 1):
        raise CheckError("runner ended with %d" % rc)
    if rc == 0 and tier == "thorough" and info.get("fuzz", True):
        rc, cov["libfuzzer"] = run_fuzzer(pid, info, seed, build, replays, prog, res)
    return rc, cov


def run_fuzzer(pid, info, seed, build, replays, prog, res):
    """Coverage-guided search with the same facets; failing inputs go back to the runner."""
    secs = int(os.environ.get("VERIF_FUZZ_SECONDS", info.get("fuzz_seconds", 90)))
    fuzzer = compile_all(pid, build, "clang++", CLANG_FLAGS, "fuzzer")
    nf = len(subprocess.run([prog, "--list"], capture_output=True, text=True,
                            env=environment()).stdout.splitlines())
    procs = []
    total = 0
    stats = []
    for k in range(WORKERS):
        d = os.path.join(build, "fuzz%d" % k)
        os.makedirs(os.path.join(d, "corpus"))
        env = environment()
        env["PBT_FACET"] = str(k % nf)
        log = open(os.path.join(d, "log"), "w")
        procs.append((k, k % nf, d, subprocess.Popen(
            [fuzzer, "-seed=%d" % (seed * 101 + k + 1), "-max_total_time=%d" % secs, "-max_len=2000",
             "-timeout=20", "-rss_limit_mb=3000", "-print_final_stats=1",
             "-artifact_prefix=" + d + "/", "corpus"], cwd=d, env=env, stdout=log, stderr=log)))
    for k, facet, d, p in procs:
        p.wait()
    rest = [f for f in range(nf) if f >= WORKERS]
    rc = 0
    for k, facet, d, p in procs:
        log = open(os.path.join(d, "log"), errors="replace").read()
        m = re.search(r"stat::number_of_executed_units: (\d+)", log)
        c = re.findall(r"cov: (\d+) ft: (\d+)", log)
        n = int(m.group(1)) if m else 0
        total += n
        stats.append({"facet": facet, "executions": n, "edges": int(c[-1][0]) if c else 0,
                      "features": int(c[-1][1]) if c else 0})
        for f in sorted(os.listdir(d)):
            if rc == 0 and re.match(r"(crash|timeout|oom)-", f):
                rc = subprocess.run(
                    [prog, "--seed", str(seed), "--out", res, "--replaydir", replays, "--property", pid,
                     "--fuzz-input", os.path.join(d, f), "--fuzz-facet", str(facet)],
                    env=environment()).returncode
                if rc == 0 and f.startswith("crash"):
                    print("fuzzer input %s fails only in the clang build" % f)
                    print(log[-3000:])
                    rc = 3
                elif rc == 0:  # time budget hit: inconclusive, not a violation
                    print("fuzzer reported %s, passes in the runner" % f)
                if rc not in (0, 1):
                    raise CheckError("fuzzer input could not be confirmed")
    return rc, {"executions": total, "seconds_per_job": secs, "jobs": stats, "facets_not_fuzzed": rest}


def main():
    if len(sys.argv) < 3 or sys.argv[1] not in registry.CHECKS:
        print(__doc__)
        return 3
    pid, tier = sys.argv[1], sys.argv[2]
    info = registry.CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    start = time.time()
    build = os.path.join(HERE, "build", "%s-%s-%d" % (pid, tier, os.getpid()))
    replays = os.path.join(HERE, "replays")
    shutil.rmtree(build, ignore_errors=True)
    os.makedirs(build)
    os.makedirs(replays, exist_ok=True)
    cov = {"rule": info["rule"], "evaluations": 0, "distinct_nontrivial": 0, "samples": []}
    try:
        if tier == "replay":
            if info.get("kind") == "programs":
                import programs
                return programs.replay(pid, sys.argv[3], build, REPO)
            prog = compile_harness(pid, build)
            return subprocess.run([prog, "--replay", os.path.abspath(sys.argv[3]), "--property", pid,
                                   "--out", os.path.join(build, "r")], env=environment()).returncode
        try:
            if info.get("kind") == "programs":
                import programs
                rc, cov = programs.run(pid, tier, seed, build, replays, REPO, info)
            else:
                rc, cov = run_pbt(pid, tier, seed, build, replays)
        except CompileError as e:
            path = os.path.join(replays, "%s-compile.log" % pid)
            with open(path, "w") as f:
                f.write("# The harness props/%s.cpp uses only documented interfaces and compiles with the\n"
                        "# tree the property was stated for. Replay: run_check.py %s quick\n%s" %
                        (pid, pid, e.log))
            print(e.log[:4000])
            print("documented usage does not compile any more")
            print("VIOLATION property=%s replay=%s" % (pid, path))
            rc = 1
        for k in known_findings(pid):
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        write_evidence(pid, tier, seed, cov, time.time() - start, 1 if rc == 1 else 0,
                       info.get("assumptions", []))
        if rc == 0:
            print("%s %s: held on %d cases (%d distinct non-trivial), %.1f s" %
                  (pid, tier, cov["evaluations"], cov["distinct_nontrivial"], time.time() - start))
        return rc
    except CheckError as e:
        print("check error: %s" % e)
        return 3
    finally:
        shutil.rmtree(build, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
