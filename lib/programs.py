"""Checks that generate whole programs: E01 (compile-time traits) and H01 (headers).

The generated inputs are C++ programs; the compiler, the linker and the built
program are the observers, the Python model below says what has to come out.
"""
import concurrent.futures
import json
import os
import random
import re
import subprocess

WORKERS = 8
INFRA = re.compile(r"internal compiler error|Killed signal|^Killed|fatal error: Killed|out of memory|No space left|"
                   r"annot allocate memory|fatal error: error writing|Bad address|unable to execute command|Resource temporarily unavailable", re.M)


class Infra(Exception):
    pass


def sh(cmd, cwd, timeout=120):
    env = dict(os.environ)
    env["LC_ALL"] = "C.UTF-8"
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        raise Infra("timeout: " + " ".join(cmd))
    out = p.stdout.decode("utf-8", "replace")
    if p.returncode != 0 and INFRA.search(out):
        raise Infra(out[:2000])
    return p.returncode, out


# ---------------------------------------------------------------- E01
PRELUDE = r"""
#include <experimental/type_traits>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
struct S { int v; };
struct Inc;
enum class En { a, b };
union Un { int i; float f; };
template<typename... T> struct Tpl {};
template<typename T> using FT = nytl::FunctionTraits<T>;
template<typename A, typename B> constexpr bool same = std::is_same<A, B>::value;
"""

BASE = ["int", "char", "bool", "double", "unsigned long long", "S", "En", "std::string",
        "std::vector<int>", "std::unique_ptr<int>", "Tpl<>", "Tpl<int, S&, void>", "std::nullptr_t",
        "std::map<int, std::string>", "std::function<void(int)>", "wchar_t", "std::tuple<int, S>"]
POINTEE = BASE + ["void", "Inc"]


def gen_type(r, ret=False):
    """A type that a parameter (or a return type) keeps unchanged in a function type."""
    k = r.randrange(14)
    b = r.choice(BASE)
    if k < 4:
        return b
    if k == 4:
        return "const %s&" % r.choice(BASE + ["Inc"])
    if k == 5:
        return "%s&" % r.choice(BASE + ["Inc"])
    if k == 6:
        return "%s&&" % b
    if k == 7:
        return "%s*" % r.choice(POINTEE)
    if k == 8:
        return "const %s*" % r.choice(POINTEE)
    if k == 9:
        return "const volatile %s* const*" % r.choice(POINTEE)
    if k == 10:
        return "const %s&&" % b
    if k == 11:  # needs an alias because of the declarator syntax
        return "Id<%s (*)(%s)>" % (r.choice(BASE + ["void"]), r.choice(["", "int", "S&, char"]))
    if k == 12:
        return "Id<%s (&)[%d]>" % (b, r.randrange(1, 4))
    return "Id<%s S::*>" % b if r.random() < 0.5 or ret else "Id<%s (&)(%s)>" % (r.choice(["void", b]), b)


KINDS = ["sig", "csig", "fp", "fref", "fdecl", "mp", "cmp", "mpdecl", "cmpdecl", "lambda", "mlambda", "glambda",
         "functor", "cfunctor", "inherited", "finalf", "stdfn", "tfunctor"]
REFS = ["", "&", "&&"]


def gen_sig(r):
    n = r.choice([0, 1, 1, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7, 9, 14])
    ret = gen_type(r, True) if r.random() < 0.75 else "void"
    case = {"kind": r.choice(KINDS), "ref": r.choice(REFS), "ret": ret, "args": [gen_type(r) for _ in range(n)]}
    if case["kind"] in ("sig", "fdecl"):  # a reference to a function type is the function reference
        case["ref"] = r.choice(["", "", "&", "&&"])
    if case["kind"] == "csig":
        case["ref"] = ""
    return {"what": "traits", **case}


def code_sig(c, i):
    """(declarations, type, const?, class or None, callable?)"""
    a = ", ".join(c["args"])
    ret = c["ret"]
    k = c["kind"]
    d, cls = "", None
    const = False
    if k == "sig":
        t = "%s(%s)" % (ret, a)
    elif k == "csig":
        t, const = "%s(%s) const" % (ret, a), True
    elif k == "fp":
        t, const = "%s(*)(%s)" % (ret, a), True
    elif k == "fref":
        t = "%s(&)(%s)" % (ret, a)
    elif k == "fdecl":
        d = "%s fn(%s);" % (ret, a)
        t = "decltype(fn)"
    elif k in ("mp", "cmp"):
        d = "struct C {};"
        const = k == "cmp"
        t = "%s(C::*)(%s)%s" % (ret, a, " const" if const else "")
        cls = "const C" if const else "C"
    elif k in ("mpdecl", "cmpdecl"):
        const = k == "cmpdecl"
        d = "struct C { %s m(%s)%s; int other; };" % (ret, a, " const" if const else "")
        t = "decltype(&C::m)"
        cls = "const C" if const else "C"
    elif k in ("lambda", "mlambda", "glambda"):
        const = k != "mlambda"
        cap = {"lambda": "", "mlambda": "x = 3", "glambda": "&r = g, p = std::unique_ptr<int>()"}[k]
        d = "%sinline auto l = [%s](%s)%s -> %s { throw 1; };" % (
            "inline int g; " if k == "glambda" else "", cap, a, "" if const else " mutable", ret)
        t = "decltype(l)"
    elif k in ("functor", "cfunctor", "inherited", "finalf", "tfunctor"):
        const = k in ("cfunctor", "finalf")
        op = "%s operator()(%s)%s;" % (ret, a, " const" if const else "")
        d = "struct F { int state; static int s; void other(int, int) const; %s };" % op
        t = "F"
        if k == "inherited":
            d += " struct G : public F { using F::F; int more; };"
            t = "G"
        elif k == "finalf":
            d = "struct F final { %s };" % op
        elif k == "tfunctor":
            d = "template<typename T> struct F { T t; %s };" % op
            t = "F<int>"
    elif k == "stdfn":
        t, const = "std::function<%s(%s)>" % (ret, a), True
    if c["ref"]:
        if k == "sig" or k == "mp" or k == "cmp" or k == "fp" or k == "fref":
            t = "Id<%s>%s" % (t, c["ref"])
        else:
            t += c["ref"]
    return d, t, const, cls


def asserts_sig(c, i):
    d, t, const, cls = code_sig(c, i)
    a, ret, n = c["args"], c["ret"], len(c["args"])
    sig = "%s(%s)%s" % (ret, ", ".join(a), " const" if const else "")
    out = ["same<typename FT<T>::ReturnType, %s>" % ret,
           "same<typename FT<T>::ArgTuple, std::tuple<%s>>" % ", ".join(a),
           "FT<T>::NumArgs == %d" % n,
           "FT<T>::IsConst == %s" % ("true" if const else "false"),
           "same<typename FT<T>::Signature, %s>" % sig]
    for j, x in enumerate(a):
        out.append("same<typename FT<T>::template ArgType<%d>, %s>" % (j, x))
    if cls:
        out.append("same<typename FT<T>::Class, %s>" % cls)
    # isCallable is claimed for the types themselves; of references only function references
    if not c["ref"] and c["kind"] != "csig" or c["kind"] in ("sig", "fref", "fdecl") and c["ref"] == "&":
        out.append("nytl::isCallable<T>")
    return ["using T = %s;" % t], d, out


NOTCALL = ["int", "S", "En", "Un", "double", "S*", "S&", "int*", "std::string", "std::vector<int>", "Tpl<>",
           "std::unique_ptr<S>", "int[3]", "bool", "std::nullptr_t", "int S::*", "const S", "void", "void*", "S**",
           "std::pair<int, S>", "Fd", "Nm", "Op", "St"]


def gen_notcall(r):
    return {"what": "notcallable", "types": sorted(set(r.choice(NOTCALL) for _ in range(r.randrange(1, 4))))}


MEMBERS = ["f", "g", "h"]
ATYPES = ["int", "S", "std::string", "En", "S*"]
# implicit conversions from an rvalue of the first to a parameter of the second type
CONV = {("int", "int"), ("S", "S"), ("std::string", "std::string"), ("En", "En"), ("S*", "S*")}


def gen_valid(r):
    """A class with a random set of members and an expression that needs some of them."""
    mem = {}
    for m in MEMBERS:
        if r.random() < 0.6:
            mem[m] = [r.choice(ATYPES) for _ in range(r.randrange(0, 4))]
    case = {"what": "valid", "members": mem, "types": [m for m in ("type", "other") if r.random() < 0.5],
            "data": [m for m in ("x", "y") if r.random() < 0.5], "access": r.choice(["public", "public", "private"]),
            "ops": [o for o in ("+", "<<", "==") if r.random() < 0.5]}
    q = r.randrange(6)
    if q < 2:
        m = r.choice(MEMBERS)
        if m in mem and r.random() < 0.7:
            args = list(mem[m])
            if args and r.random() < 0.35:
                args[r.randrange(len(args))] = r.choice(ATYPES)
            if r.random() < 0.1:
                args.append("int")
        else:
            args = [r.choice(ATYPES) for _ in range(r.randrange(0, 4))]
        case["query"] = ["call", m, args]
    elif q == 2:
        case["query"] = ["type", r.choice(["type", "other"])]
    elif q == 3:
        case["query"] = ["data", r.choice(["x", "y"])]
    elif q == 4:
        case["query"] = ["op", r.choice(["+", "<<", "=="])]
    else:
        case["query"] = ["free", r.choice(["f1", "f2", "f3"]), [r.choice(ATYPES) for _ in range(r.randrange(0, 4))]]
    return case


FREE = {"f1": ["int"], "f2": ["S", "std::string"], "f3": ["En", "S*", "int"]}


def asserts_valid(c, i):
    d = "class X { %s: " % c["access"]
    for m, a in sorted(c["members"].items()):
        d += "void %s(%s); " % (m, ", ".join(a))
    for t in c["types"]:
        d += "using %s = int; " % t
    for t in c["data"]:
        d += "int %s; " % t
    d += "};"
    for o in c["ops"]:
        d += " int operator%s(const X&, const X&);" % o
    q = c["query"]
    pub = c["access"] == "public"
    if q[0] == "call":
        p = ["A%d" % j for j in range(len(q[2]))]
        expr = "decltype(std::declval<T&>().%s(%s))" % (q[1], ", ".join("std::declval<%s>()" % x for x in p))
        want = pub and q[1] in c["members"] and len(c["members"][q[1]]) == len(q[2]) and \
            all((f, t) in CONV for f, t in zip(q[2], c["members"][q[1]]))
        par, args = ["typename T"] + ["typename " + x for x in p], ["X"] + q[2]
    elif q[0] == "type":
        expr, want, par, args = "typename T::" + q[1], pub and q[1] in c["types"], ["typename T"], ["X"]
    elif q[0] == "data":
        expr = "decltype(std::declval<T&>().%s)" % q[1]
        want, par, args = pub and q[1] in c["data"], ["typename T"], ["X"]
    elif q[0] == "op":
        expr = "decltype(std::declval<T>() %s std::declval<U>())" % q[1]
        want, par, args = q[1] in c["ops"], ["typename T", "typename U"], ["X", "X"]
    else:
        p = ["A%d" % j for j in range(len(q[2]))]
        # found by argument dependent lookup through the tag only
        expr = "decltype(%s(%s))" % (q[1], ", ".join(["std::declval<T>()"] + ["std::declval<%s>()" % x for x in p]))
        want = FREE[q[1]] == q[2]
        par, args = ["typename T"] + ["typename " + x for x in p], ["Tag"] + q[2]
        d += " struct Tag {};" + "".join(" int %s(Tag, %s);" % (n, ", ".join(a)) for n, a in sorted(FREE.items()))
    # aliases that take a parameter pack as well, like the documentation suggests
    d += " template<%s> using E = %s;" % (", ".join(par), expr)
    v = "nytl::validExpression<E, %s>" % ", ".join(args)
    out = ["%s == %s" % (v, "true" if want else "false"),
           "%s == std::experimental::is_detected_v<E, %s>" % (v, ", ".join(args)),
           "nytl::validExpression<E, %s> == false" % ", ".join([{"X": "Tpl<>", "Tag": "Tpl<>"}.get(args[0], args[0])] +
                                                            args[1:])]
    return [], d, out


def gen_copy(r):
    return {"what": "copy", "base": r.choice(["NonCopyable", "NonMovable", "NonCopyable"]),
            "access": r.choice(["public", "private", "protected"]), "depth": r.randrange(0, 4),
            "kw": r.choice(["class", "struct"]), "other": r.random() < 0.4, "pos": r.randrange(2),
            "members": [r.choice(["int", "std::string", "std::vector<int>", "std::map<int, S>", "S", "double"])
                        for _ in range(r.randrange(0, 4))],
            "wrap": r.choice(["", "", "std::pair<int, %s>", "std::tuple<%s>", "member"])}


def asserts_copy(c, i):
    bases = ["%s nytl::%s" % (c["access"], c["base"])]
    d = "struct O { int o; std::string s; }; "
    if c["other"]:
        bases.insert(c["pos"], "public O")
    d += "%s D0 : %s { public: %s };" % (c["kw"], ", ".join(bases),
                                         " ".join("%s m%d;" % (m, k) for k, m in enumerate(c["members"])))
    for k in range(c["depth"]):
        d += " struct D%d : public D%d { int n%d; };" % (k + 1, k, k)
    t = "D%d" % c["depth"]
    if c["wrap"] == "member":
        d += " struct W { %s w; };" % t
        t = "W"
    elif c["wrap"] and c["base"] == "NonCopyable":  # the standard's own tuple is odd about non-movable types
        t = c["wrap"] % t
    mv = "true" if c["base"] == "NonCopyable" else "false"
    out = ["std::is_copy_constructible<T>::value == false", "std::is_copy_assignable<T>::value == false",
           "std::is_move_constructible<T>::value == " + mv, "std::is_move_assignable<T>::value == " + mv,
           "std::is_default_constructible<T>::value", "std::is_destructible<T>::value",
           "std::is_default_constructible<nytl::%s>::value == false" % c["base"],
           "std::is_constructible<T, const T&>::value == false",
           "std::is_constructible<T, T&>::value == false"]
    return ["using T = %s;" % t], d, out


def gen_util(r):
    return {"what": "util", "types": [gen_type(r, True) if r.random() < .9 else "void"
                                      for _ in range(r.randrange(1, 9))],
            "value": r.choice(BASE), "cat": r.choice(["", "&", "const &", "&&", "const &&"])}


def asserts_util(c, i):
    t = c["value"] + " " + c["cat"]
    return [], "", ["same<nytl::LastType<%s>, %s>" % (", ".join(c["types"]), c["types"][-1]),
                    "same<nytl::Variadic<%s, %s>, %s>" % (t, c["types"][0], t),
                    "same<decltype(nytl::templatize<int>(std::declval<%s>())), %s>" %
                    (t, t if c["cat"] else c["value"] + "&&"),
                    "std::is_class<nytl::DeriveDummy<%s>>::value" % ", ".join(c["types"])]


NCDECL = ("struct Fd { std::function<void()> member; }; struct Nm { void call(int); }; "
          "struct Op { operator int() const; Op operator+(const Op&) const; int operator[](int); }; "
          "struct St { static void f(int); };")


def case_code(c, i, keep=None):
    """C++ source of one case: a namespace with static_asserts, one per line."""
    if c["what"] == "notcallable":
        using, d, out = [], NCDECL, ["!nytl::isCallable<%s>" % t for t in c["types"]]
    else:
        using, d, out = {"traits": asserts_sig, "valid": asserts_valid, "copy": asserts_copy,
                         "util": asserts_util}[c["what"]](c, i)
    lines = ["namespace case%d {" % i, d] + using
    for k, a in enumerate(out):
        if keep is None or k in keep:
            lines.append('static_assert(%s, "case %d assertion %d");' % (a, i, k))
    lines.append("}")
    return lines, len(out)


HEADS = {"traits": "functionTraits", "notcallable": "functionTraits", "valid": "tmpUtil", "util": "tmpUtil",
         "copy": "nonCopyable"}


def e01_source(cases, heads, keep=None):
    lines = ["#include <nytl/%s.hpp>" % h for h in heads] + PRELUDE.split("\n")
    lines.append("template<typename T> struct IdT { using type = T; }; template<typename T> using Id = typename IdT<T>::type;")
    n = 0
    where = []
    for i, c in enumerate(cases):
        code, k = case_code(c, i, keep)
        n += k
        for line in code:
            where.append((len(lines) + 1, i))
            lines.append(line)
    lines.append("int main() {}")
    return "\n".join(lines) + "\n", n, where


def e01_compile(cases, repo, build, name, compiler, keep=None):
    heads = ["functionTraits", "tmpUtil", "nonCopyable"]
    src, n, where = e01_source(cases, heads, keep)
    path = os.path.join(build, name + ".cpp")
    with open(path, "w") as f:
        f.write(src)
    rc, out = sh([compiler, "-std=c++17", "-w", "-fsyntax-only", "-I" + repo, path], build)
    return rc, out, src, n


def e01_gen(r):
    k = r.random()
    if k < 0.6:
        return gen_sig(r)
    if k < 0.65:
        return gen_notcall(r)
    if k < 0.85:
        return gen_valid(r)
    if k < 0.95:
        return gen_copy(r)
    return gen_util(r)


def e01_nontrivial(c):
    if c["what"] == "traits":
        return len(c["args"]) >= 3 or any("&" in a or "*" in a or "const" in a for a in c["args"])
    if c["what"] == "valid":
        return len(c["members"]) + len(c["types"]) + len(c["data"]) + len(c["ops"]) >= 2
    if c["what"] == "copy":
        return c["depth"] > 0 or c["other"] or len(c["members"]) > 0
    return c["what"] == "util" and len(c["types"]) > 1


def e01_shrink(c, fails):
    """Greedy: drop and simplify parts while the case still fails."""
    def candidates(c):
        for key in ("args", "types", "data", "ops", "members"):
            v = c.get(key)
            if isinstance(v, list):
                for j in range(len(v)):
                    if not (key == "types" and c["what"] in ("util", "notcallable") and len(v) == 1):
                        yield {**c, key: v[:j] + v[j + 1:]}
            elif isinstance(v, dict):
                for j in sorted(v):
                    yield {**c, key: {a: b for a, b in v.items() if a != j}}
        for j, a in enumerate(c.get("args", [])):
            if a != "int":
                yield {**c, "args": c["args"][:j] + ["int"] + c["args"][j + 1:]}
        if c.get("ret", "void") != "void":
            yield {**c, "ret": "void"}
        if c.get("ref"):
            yield {**c, "ref": ""}
        if c.get("depth"):
            yield {**c, "depth": c["depth"] - 1}
        if c.get("other"):
            yield {**c, "other": False}
        if c.get("wrap"):
            yield {**c, "wrap": ""}
    for _ in range(60):
        for n in candidates(c):
            if fails(n):
                c = n
                break
        else:
            return c
    return c


def e01_report(cases, repo, build, compiler, replays):
    """Reduces a failing unit to one small failing case and saves it."""
    name = "shrink"

    def fails(c):
        return e01_compile([c], repo, build, name, compiler)[0] != 0
    bad = cases
    while len(bad) > 1:
        half = bad[:len(bad) // 2]
        if e01_compile(half, repo, build, name, compiler)[0] != 0:
            bad = half
        elif e01_compile(bad[len(bad) // 2:], repo, build, name, compiler)[0] != 0:
            bad = bad[len(bad) // 2:]
        else:
            break
    if len(bad) == 1:
        bad = [e01_shrink(bad[0], fails)]
    rc, out, src, n = e01_compile(bad, repo, build, name, compiler)
    if len(bad) == 1:  # drop the assertions that hold
        keep = set(range(n))
        for k in range(n):
            if len(keep) > 1 and e01_compile(bad, repo, build, name, compiler, keep - {k})[0] != 0:
                keep.discard(k)
        rc, out, src, _ = e01_compile(bad, repo, build, name, compiler, keep)
    path = os.path.join(replays, "E01.cpp")
    with open(path, "w") as f:
        f.write("// replay: run_check.py E01 replay <this file>; compiler: %s\n" % compiler)
        f.write("// " + json.dumps(bad) + "\n" + src)
    print(out[:3000])
    print("the case: %s" % json.dumps(bad))
    print("VIOLATION property=E01 replay=%s" % path)


def e01_run(tier, seed, build, replays, repo, info):
    r = random.Random(seed * 1000003 + 17)
    units = 240 if tier == "quick" else 1800
    per = 50
    seen, kinds, samples = set(), {}, []
    total = 0
    jobs = []
    for u in range(units):
        cases = [e01_gen(r) for _ in range(per)]
        compiler = "clang++" if u % 3 == 2 else "g++"
        jobs.append((cases, compiler, "u%d" % u))
        total += per
        for c in cases:
            kinds[c["what"]] = kinds.get(c["what"], 0) + 1
            if e01_nontrivial(c):
                seen.add(json.dumps(c, sort_keys=True))
            if len(samples) < 12 and r.random() < 0.05:
                samples.append(c)
    asserts = 0
    failed = None

    def job(j):
        rc, out, src, n = e01_compile(j[0], repo, build, j[2], j[1])
        os.unlink(os.path.join(build, j[2] + ".cpp"))
        return j, rc, n
    with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
        for j, rc, n in ex.map(job, jobs):
            asserts += n
            if rc != 0 and failed is None:
                failed = j
    cov = {"rule": info["rule"], "evaluations": total, "distinct_nontrivial": len(seen), "samples": samples,
           "static_assertions": asserts, "kinds": kinds, "translation_units": units}
    if failed:
        e01_report(failed[0], repo, build, failed[1], replays)
        return 1, cov
    return 0, cov


def e01_replay(path, build, repo):
    m = re.search(r"compiler: (\S+)", open(path).readline())
    compiler = m.group(1) if m else "g++"
    rc, out = sh([compiler, "-std=c++17", "-w", "-fsyntax-only", "-I" + repo, os.path.abspath(path)], build)
    print(out[:3000])
    if rc:
        print("VIOLATION property=E01 replay=%s" % path)
        return 1
    print("the case holds")
    return 0


# ---------------------------------------------------------------- H01
def h01_headers(repo):
    out = []
    for base, _, files in os.walk(os.path.join(repo, "nytl")):
        for f in files:
            if f.endswith(".hpp"):
                out.append(os.path.relpath(os.path.join(base, f), repo))
    return sorted(out)


# Per header: standard headers and code that uses it; the code must come out true.
# Only nytl headers named here are guaranteed to be included at that point.
USE = {
    "nytl/approx.hpp": ("<sstream>", r"""
        using nytl::approx;
        bool ok = 1.0 == approx(1.0 + 1e-12) && 1.0 != approx(1.1) && approx(2.f, 0.1) == 2.01f;
        using namespace nytl::approxOps;
        std::ostringstream s; s << approx(2.0);
        return ok && !s.str().empty() && nytl::defaultApproxEpsilon < 1e-3;"""),
    "nytl/approxVec.hpp": ("", r"""
        nytl::Vec<3, double> a {1., 2., 3.};
        nytl::Vec<5, float> c {};
        nytl::Mat<2, 2, float> m {};
        return a == nytl::approx(a) && nytl::approx(m) == m && c == nytl::approx(c) && !(a != nytl::approx(a));"""),
    "nytl/bytes.hpp": ("<vector>", r"""
        nytl::DynWriteBuf dyn;
        nytl::write(dyn, 7);
        nytl::write(dyn, std::vector<short>{1, 2});
        nytl::ReadBuf r(dyn.data(), dyn.size());
        std::byte mem[16] {};
        nytl::WriteBuf w(mem, 16);
        nytl::write(w, 3.5);
        nytl::skip(w, 4);
        nytl::ReadBuf all(mem, 16), first(mem, 8);
        bool ok = nytl::copy<double>(all) == 3.5 && nytl::copyExact<double>(first) == 3.5 && w.size() == 4;
        ok = ok && nytl::read<int>(r) == 7;
        nytl::skip(r, 2);
        short x = 0;
        nytl::read(r, x);
        std::byte other[8];
        nytl::copy(first, nytl::WriteBuf(other, 8));
        return ok && x == 2 && r.empty() && other[7] == mem[7];"""),
    "nytl/callback.hpp": ("<string>", r"""
        nytl::Callback<int(int, const std::string&)> cb;
        int n = 0;
        nytl::Connection c = cb.add([&](int a, const std::string& s) { n += a; return int(s.size()); });
        nytl::TrackedCallback<void()> tc;
        auto t = tc.add([&] { ++n; });
        auto v = cb(4, "abc");
        tc();
        bool ok = v.size() == 1 && v[0] == 3 && n == 5 && c.connected();
        { nytl::UniqueConnection u = cb.add([&](int, const std::string&) { n = 100; return 0; }); }
        c.disconnect(); t.disconnect(); cb(3, ""); tc();
        return ok && n == 5 && !c.connected();"""),
    "nytl/clone.hpp": ("", r"""
        Impl i; i.k = 7;
        const Base& b = i;
        auto c = nytl::clone(b);
        auto d = nytl::cloneMove(*c);
        return c->v() == 7 && d->v() == 7;"""),
    "nytl/connection.hpp": ("", r"""
        nytl::Connection c;
        nytl::UniqueConnection u;
        nytl::TrackedConnection t;
        nytl::ConnectionID a {1}, b {2};
        return !c.connected() && !u.connected() && !t.connected() && !(a.get() == b.get());"""),
    "nytl/flags.hpp": ("", r"""
        nytl::Flags<Fl> f {Fl::a};
        f |= Fl::c;
        return (f & Fl::c) && !(f & Fl::b) && (Fl::a | Fl::c) == f && (Fl::a | f) == f;"""),
    "nytl/functionTraits.hpp": ("<string>", r"""
        return nytl::FunctionTraits<int(char, const std::string&)>::NumArgs == 2 && nytl::isCallable<void()> &&
            !nytl::isCallable<int>;"""),
    "nytl/fwd.hpp": ("", r"""
        nytl::Vec3f* v = nullptr; nytl::Connection* c = nullptr; nytl::TrackedUniqueConnection* t = nullptr;
        nytl::Flags<Fl>* f = nullptr; nytl::span<int>* s = nullptr; nytl::Mat34<float>* m = nullptr;
        return !v && !c && !t && !f && !s && !m;"""),
    "nytl/fwd/flags.hpp": ("", r"nytl::Flags<Fl>* f = nullptr; return !f;"),
    "nytl/fwd/mat.hpp": ("", r"""
        nytl::Mat4f* m = nullptr; nytl::Mat23<int>* n = nullptr; nytl::SquareMat<7, char>* o = nullptr;
        return !m && !n && !o;"""),
    "nytl/fwd/rect.hpp": ("", r"nytl::Rect2f* r = nullptr; nytl::Rect<7, char>* s = nullptr; return !r && !s;"),
    "nytl/fwd/simplex.hpp": ("", r"""
        nytl::Line<2, float>* l = nullptr; nytl::Triangle<3>* t = nullptr; nytl::Simplex<3>* s = nullptr;
        return !l && !t && !s;"""),
    "nytl/fwd/span.hpp": ("", r"nytl::span<int>* s = nullptr; nytl::Span<char, 3>* t = nullptr; return !s && !t;"),
    "nytl/fwd/vec.hpp": ("", r"nytl::Vec2f* a = nullptr; nytl::Vec<9, char>* b = nullptr; return !a && !b;"),
    "nytl/mat.hpp": ("", r"""
        nytl::Mat<2, 3, int> m {1, 2, 3, 4, 5, 6};
        nytl::Mat4f n {};
        nytl::Vec<3, int> v {1, 0, 1};
        auto r = m * v;
        return r[0] == 4 && r[1] == 10 && m.at(1, 2) == 6 && n == n * n;"""),
    "nytl/matOps.hpp": ("<sstream>", r"""
        auto m = nytl::identity<3, double>();
        m[0][2] = 2.;
        auto lu = nytl::luDecomp(m);
        std::ostringstream s; s << m;
        nytl::Mat<3, 4, double> r {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13};
        nytl::reducedRowEcholon(r);
        return nytl::determinant(m) > 0.99 && nytl::transpose(m)[2][0] == 2. && nytl::invertible(m) &&
            nytl::inverse(m)[0][2] < -1.9 && nytl::trace(m) == 3. && !s.str().empty() && nytl::determinant(lu) > 0.99;"""),
    "nytl/math.hpp": ("", r"""
        return nytl::factorial(5) == 120 && nytl::unmapUnsigned(nytl::mapUnsigned(-4)) == -4 &&
            nytl::pair(1u, 2u) != nytl::pair(2u, 1u) && nytl::degrees(nytl::radians(90.)) > 89. &&
            nytl::mix(0., 2., 0.5) == 1. && nytl::smoothstep(0., 1., 0.5) == 0.5;"""),
    "nytl/nonCopyable.hpp": ("<utility>", r"""
        struct N : public nytl::NonCopyable { int i {4}; };
        struct M : public nytl::NonMovable { int i {4}; };
        N a; N b = std::move(a); M c;
        return b.i == 4 && c.i == 4;"""),
    "nytl/quaternion.hpp": ("", r"""
        nytl::Quaternion q {0., 0., 0., 1.}, p {0., 1., 0., 0.};
        auto m = nytl::toMat<3>(q);
        auto v = nytl::apply(q, nytl::Vec3d{1., 2., 3.});
        return q != p && q * p == p && (q + p) - p == q && 2. * q == q + q && m[1][1] == 1. && v.z == 3. &&
            nytl::dot(q, q) == 1. && nytl::norm(q) == 1. &&
            nytl::conjugated(p) == -1. * p && nytl::normalized(p) == p && nytl::slerp(q, p, 0.) == q;"""),
    "nytl/rect.hpp": ("", r"""
        nytl::Rect2i r {{1, 2}, {3, 4}};
        auto d = static_cast<nytl::Rect2d>(r);
        nytl::Rect<3, float> e {};
        return d.size.y == 4. && r.position.x == 1 && e.size[2] == 0.f;"""),
    "nytl/rectOps.hpp": ("<sstream>", r"""
        nytl::Rect2i a {{0, 0}, {4, 4}}, b {{2, 2}, {4, 4}};
        std::ostringstream s; s << a;
        return nytl::intersects(a, b) && nytl::difference(a, b).size() >= 2 && nytl::intersection(a, b).size.x == 2 &&
            nytl::contains(a, nytl::Vec2i{1, 1}) && a != b && !s.str().empty();"""),
    "nytl/recursiveCallback.hpp": ("<string>", r"""
        nytl::RecursiveCallback<int(int)> cb;
        int n = 0;
        nytl::Connection c = cb.add([&](int a) { n += a; return a; });
        nytl::TrackedRecursiveCallback<void()> tc;
        auto t = tc.add([&] { ++n; });
        auto v = cb(4);
        tc();
        bool ok = v.size() == 1 && v[0] == 4 && n == 5 && c.connected();
        c.disconnect(); t.disconnect(); cb(3); tc();
        return ok && n == 5 && !c.connected();"""),
    "nytl/scope.hpp": ("", r"""
        int n = 0;
        { nytl::ScopeGuard a([&] { n += 1; }); nytl::SuccessGuard b([&] { n += 2; }); nytl::ExceptionGuard c([&] { n += 4; }); }
        try { nytl::ExceptionGuard c([&] { n += 8; }); throw 1; } catch(int) {}
        return n == 11;"""),
    "nytl/simplex.hpp": ("", r"""
        nytl::Triangle<3, float> t {};
        t.points()[1].y = 2.f;
        auto d = static_cast<nytl::Triangle<2, double>>(t);
        return d.points()[1].y == 2. && t.pointCount == 3;"""),
    "nytl/span.hpp": ("<vector> <array>", r"""
        std::vector<int> v {1, 2, 3};
        nytl::span<int> s(v);
        nytl::span<const int, 2> f(v.data(), 2);
        int sum = 0;
        for(auto i : s) sum += i;
        return sum == 6 && s.last(2)[0] == 2 && f.size() == 2 && s.subspan(1, 1).size() == 1 && s(2) == 3 &&
            nytl::as_bytes(s).size() == 3 * sizeof(int);"""),
    "nytl/stringParam.hpp": ("<string>", r"""
        nytl::StringParam a("abc"), e; std::string x = "abc"; nytl::StringParam b(x);
        std::string_view sv = a;
        return sv == "abc" && std::string(b.c_str()) == "abc" && e.c_str()[0] == 0;"""),
    "nytl/tmpUtil.hpp": ("", r"""
        nytl::unused(1, 2.f);
        return sizeof(nytl::LastType<int, char>) == 1 && nytl::templatize<int>(4) == 4 && nytl::validExpression<Ref, int> &&
            !nytl::validExpression<Ref, void>;"""),
    "nytl/transform.hpp": ("", r"""
        auto m = nytl::translateMat<4, float>(nytl::Vec<3, float>{1.f, 2.f, 3.f});
        nytl::Mat4f r = nytl::rotateMat(nytl::Vec3f{0.f, 0.f, 1.f}, 0.5f);
        return m[0][3] == 1.f && r[2][2] == 1.f;"""),
    "nytl/utf.hpp": ("", r"""
        std::string s = "a\xc3\xa4" "b";
        std::uint8_t size = 0;
        nytl::nth(s, 1, size);
        bool ok = size == 2;
        nytl::nth(std::string_view(s), 0, size);
        std::u16string_view s16 = u"\u00e4";
        std::u32string_view s32 = U"\u00e4";
        return ok && size == 1 && nytl::charCount(s) == 3 && nytl::nth(s, 2)[0] == 'b' && nytl::toUtf8(s16).size() == 2 &&
            nytl::toUtf8(s32).size() == 2 && nytl::toUtf16(s).size() == 3 && nytl::toUtf16(s32).size() == 1 &&
            nytl::toUtf32(s).size() == 3 && nytl::toUtf32(s16).size() == 1;"""),
    "nytl/vec.hpp": ("", r"""
        nytl::Vec3f a {1.f, 2.f, 3.f};
        nytl::Vec2i b {1, 2};
        nytl::Vec<5, double> c {1., 2., 3., 4., 5.};
        a += a; c *= 2.;
        auto d = static_cast<nytl::Vec3f>(b);
        return a.z == 6.f && b.y == 2 && c[4] == 10. && (a - a) == nytl::Vec3f{} && d.y == 2.f;"""),
    "nytl/vecOps.hpp": ("<sstream>", r"""
        nytl::Vec3f a {1.f, 2.f, 2.f};
        nytl::Vec2i b {1, 2}, d {1, 2};
        nytl::Vec<5, double> c {1., 2., 3., 4., 5.};
        std::ostringstream s; s << a << b << c;
        nytl::normalize(c);
        using namespace nytl::vec::cw::operators;
        auto e = b * d;
        return nytl::length(a) == 3. && nytl::dot(b, d) == 5 && nytl::cross(b, d) == 0 && !s.str().empty() && e.y == 4 &&
            nytl::sum(b) == 3 && nytl::vec::cw::max(b, 2).x == 2;"""),
}

PRE = {
    "nytl/clone.hpp": "struct Base : public nytl::AbstractCloneable<Base> { virtual int v() const = 0; };\n"
                      "struct Impl : public nytl::DeriveCloneable<Impl, Base> { int k {}; int v() const override "
                      "{ return k; } };",
    "nytl/flags.hpp": "enum class Fl : unsigned { a = 1, b = 2, c = 4 };\nNYTL_FLAG_OPS(Fl)",
    "nytl/fwd.hpp": "enum class Fl : unsigned;",
    "nytl/fwd/flags.hpp": "enum class Fl : unsigned;",
    "nytl/tmpUtil.hpp": "template<typename T> using Ref = T&;",
}

# Functions that cross a unit boundary: declared with incomplete types from the first header,
# defined with the complete ones of the second.
CROSS = [
    ("nytl/fwd/vec.hpp", "nytl/vec.hpp", "int %s(const nytl::Vec3f* a, nytl::Vec<5, double>* b, nytl::Vec2u8*)",
     "(nullptr, nullptr, nullptr)", "{ return (a ? 1 : 2) + (b ? 1 : 2) + int(sizeof(nytl::Vec2ui) == 2 * sizeof(unsigned)); }", 5),
    ("nytl/fwd.hpp", "nytl/connection.hpp", "int %s(nytl::Connection* a, nytl::TrackedUniqueConnection* b, nytl::Connectable*)",
     "(nullptr, nullptr, nullptr)", "{ return (a && a->connected() ? 1 : 2) + (b && b->connected() ? 1 : 2); }", 4),
    ("nytl/fwd/mat.hpp", "nytl/mat.hpp", "int %s(const nytl::Mat4f* a, nytl::Mat23<int>* b)",
     "(nullptr, nullptr)", "{ return (a ? 1 : 2) + (b ? 1 : int(b->rows() + b->cols())); }", 7),
    ("nytl/fwd/rect.hpp", "nytl/rect.hpp", "int %s(const nytl::Rect2f* a, nytl::Rect<3, int>*)",
     "(nullptr, nullptr)", "{ return (a ? 1 : 2) + int(sizeof(nytl::Rect2f) == 4 * sizeof(float)); }", 3),
    ("nytl/fwd/span.hpp", "nytl/span.hpp", "int %s(nytl::span<int>* a, nytl::Span<char, 4>* b)",
     "(nullptr, nullptr)", "{ return (a ? 1 : 2) + (b ? 1 : 2) + int(nytl::Span<char, 4>::extent == 4); }", 5),
    ("nytl/fwd/simplex.hpp", "nytl/simplex.hpp", "int %s(nytl::Triangle<3>* a, nytl::Line<2, float>* b)",
     "(nullptr, nullptr)", "{ return (a ? 1 : int(nytl::Triangle<3>::pointCount)) + (b ? 1 : int(nytl::Line<2, float>::pointCount)); }", 5),
    ("nytl/fwd.hpp", "nytl/vec.hpp", "int %s(nytl::Vec4d* a)", "(nullptr)",
     "{ return a ? 1 : int(nytl::Vec4d::size()); }", 4),
]


def fwd_asserts(header):
    """What the names in the forward headers say."""
    sc = {"f": "float", "d": "double", "i": "int", "ui": "unsigned int"}
    fixed = {k + str(b): "std::%sint%d_t" % ("u" if k == "u" else "", b) for k in "ui" for b in (8, 16, 32, 64)}
    out = []
    if header in ("nytl/fwd/vec.hpp", "nytl/fwd.hpp", "nytl/vec.hpp"):
        for n in (2, 3, 4):
            out += ["Vec%d%s, nytl::Vec<%d, %s>" % (n, k, n, v) for k, v in list(sc.items()) + list(fixed.items())]
            out.append("Vec%d<S_>, nytl::Vec<%d, S_>" % (n, n))
    if header in ("nytl/fwd/mat.hpp", "nytl/fwd.hpp", "nytl/mat.hpp"):
        for n in (2, 3, 4):
            out += ["Mat%d%s, nytl::Mat<%d, %d, %s>" % (n, k, n, n, v) for k, v in sc.items()]
            out += ["Mat%d%d<S_>, nytl::Mat<%d, %d, S_>" % (n, m, n, m) for m in (2, 3, 4) if m != n]
            out.append("Mat%d<S_>, nytl::Mat<%d, %d, S_>" % (n, n, n))
            out.append("SquareMat<%d, S_>, nytl::Mat<%d, %d, S_>" % (n + 5, n + 5, n + 5))
    if header in ("nytl/fwd/rect.hpp", "nytl/rect.hpp"):
        for n in (2, 3, 4):
            out += ["Rect%d%s, nytl::Rect<%d, %s>" % (n, k, n, v) for k, v in sc.items()]
            out.append("Rect%d<S_>, nytl::Rect<%d, S_>" % (n, n))
    if header in ("nytl/fwd/simplex.hpp", "nytl/simplex.hpp", "nytl/fwd.hpp"):
        out += ["Line<4, int>, nytl::Simplex<4, int, 1>", "Triangle<4, int>, nytl::Simplex<4, int, 2>",
                "Tetrahedron<4, int>, nytl::Simplex<4, int, 3>", "Simplex<5>, nytl::Simplex<5, double, 5>",
                "Triangle<7>, nytl::Simplex<7, double, 2>"]
    if header in ("nytl/fwd/span.hpp", "nytl/span.hpp", "nytl/fwd.hpp"):
        out += ["Span<S_, 3>, nytl::span<S_, 3>", "Span<S_>, nytl::span<S_, nytl::dynamic_extent>"]
    return ["static_assert(std::is_same<nytl::%s>::value, \"alias\");" % x for x in out]


def ident(h):
    return re.sub(r"\W", "_", h)


STDS = ["<vector>", "<string>", "<cmath>", "<iostream>", "<map>", "<algorithm>", "<functional>", "<cstdlib>", "<memory>",
        "<complex>", "<numeric>", "<optional>", "<variant>", "<cstring>", "<math.h>", "<stdlib.h>", "<random>", "<chrono>",
        "<thread>", "<regex>"]


def unit_source(unit, k, funcs_def, funcs_decl):
    """One translation unit: its includes, one user function per header, one entry function."""
    lines = ["#include %s" % (h if h.startswith("<") else "<%s>" % h) for h in unit["includes"]]
    heads = []
    for h in unit["includes"]:
        if not h.startswith("<") and h not in heads:
            heads.append(h)
    # only what the snippets themselves need, and after all headers
    std = []
    for h in heads:
        std += USE[h][0].split() if h in USE else []
    lines += ["#include %s" % x for x in sorted(set(std))]
    lines += ["#include <type_traits>", "#include <cstdint>"]
    lines.append("namespace { struct S_ {}; }")
    for h in heads:
        if h not in USE:
            continue
        inner = unit["ns"] and h != "nytl/flags.hpp"
        lines.append("namespace u_%s { namespace {" % ident(h))
        lines += fwd_asserts(h)
        if inner:
            lines.append("using namespace nytl;")
        lines.append(PRE.get(h, ""))
        lines.append("bool use() {" + USE[h][1] + "\n}")
        lines.append("}}")
    for f in funcs_def:
        lines.append(f)
    for f in funcs_decl:
        lines.append(f[0])
    lines.append("int unit%d() {" % k)
    n = 0
    for h in heads:
        if h in USE:
            n += 1
            lines.append("if(!u_%s::use()) return %d;" % (ident(h), n))
    for f in funcs_decl:
        n += 1
        lines.append("if(%s) return %d;" % (f[1], n))
    lines.append("return 0; }")
    return "\n".join(lines) + "\n"


def h01_sources(prog):
    """The files of a program."""
    units = prog["units"]
    defs = [[] for _ in units]
    decls = [[] for _ in units]
    for (ci, a, b) in prog["cross"]:
        fwd, full, sig, args, body, want = CROSS[ci]
        if a >= len(units) or b >= len(units) or a == b or fwd not in units[a]["includes"] or \
           full not in units[b]["includes"]:
            continue
        name = "cross_%d_%d_%d" % (ci, a, b)
        if any(name in d for d in defs[b]):
            continue
        defs[b].append(sig % name + body)
        decls[a].append((sig % name + ";", "%s%s != %d" % (name, args, want)))
    files = {}
    for k, u in enumerate(units):
        files["unit%d.cpp" % k] = unit_source(u, k, defs[k], decls[k])
    m = "".join("int unit%d();\n" % k for k in range(len(units)))
    m += "int main() {\n" + "".join("if(int r = unit%d()) return %d + r;\n" % (k, 40 * k)
                                    for k in range(len(units))) + "return 0;\n}\n"
    files["main.cpp"] = m
    return files


def h01_execute(files, repo, work, compiler):
    """Builds and runs a program; returns (kind of failure or None, text)."""
    os.makedirs(work, exist_ok=True)
    objs = []
    for name, src in sorted(files.items()):
        with open(os.path.join(work, name), "w") as f:
            f.write(src)
        rc, out = sh([compiler, "-std=c++17", "-O0", "-w", "-I" + repo, "-c", name, "-o", name + ".o"], work)
        if rc:
            return "compile", "%s:\n%s" % (name, out[:3000])
        objs.append(name + ".o")
    rc, out = sh([compiler] + objs + ["-o", "prog"], work)
    if rc:
        return "link", out[:3000]
    rc, out = sh(["./prog"], work)
    if rc:
        return "run", "exit code %d %s" % (rc, out[:500])
    return None, ""


def h01_clean(work):
    if os.path.isdir(work):
        for f in os.listdir(work):
            os.unlink(os.path.join(work, f))
        os.rmdir(work)


def h01_gen(r, headers):
    nu = r.choice([2, 2, 3])
    units = []
    common = r.sample(headers, min(len(headers), r.choice([0, 1, 2, 3])))
    for _ in range(nu):
        n = r.choice([1, 2, 3, 3, 4, 5, 6, 8, 12])
        inc = r.sample(headers, min(n, len(headers)))
        inc += [h for h in common if h not in inc]
        if r.random() < 0.4:  # include some twice
            inc += [r.choice(inc) for _ in range(r.randrange(1, 4))]
        r.shuffle(inc)
        for _ in range(r.choice([0, 0, 1, 2])):
            inc.insert(r.randrange(1, len(inc) + 1), r.choice(STDS))
        units.append({"includes": inc, "ns": r.random() < 0.3})
    cross = []
    for _ in range(r.choice([0, 1, 2])):
        ci = r.randrange(len(CROSS))
        a, b = r.sample(range(nu), 2)
        for u, h in ((a, CROSS[ci][0]), (b, CROSS[ci][1])):
            if h in headers and h not in units[u]["includes"]:
                units[u]["includes"].insert(r.randrange(len(units[u]["includes"]) + 1), h)
        cross.append([ci, a, b])
    return {"units": units, "cross": cross}


def h01_shrink(prog, kind, repo, work, compiler):
    def fails(p):
        res = h01_execute(h01_sources(p), repo, work, compiler)[0]
        h01_clean(work)
        return res == kind
    for _ in range(40):
        progress = False
        if prog["cross"]:
            for j in range(len(prog["cross"])):
                c = {**prog, "cross": prog["cross"][:j] + prog["cross"][j + 1:]}
                if fails(c):
                    prog, progress = c, True
                    break
        if not progress and len(prog["units"]) > 1 and not prog["cross"]:
            for j in range(len(prog["units"])):
                c = {**prog, "units": prog["units"][:j] + prog["units"][j + 1:]}
                if fails(c):
                    prog, progress = c, True
                    break
        if not progress:
            for u in range(len(prog["units"])):
                inc = prog["units"][u]["includes"]
                for j in range(len(inc)):
                    us = list(prog["units"])
                    us[u] = {**us[u], "includes": inc[:j] + inc[j + 1:]}
                    if fails({**prog, "units": us}):
                        prog, progress = {**prog, "units": us}, True
                        break
                if progress:
                    break
        if not progress:
            for u in range(len(prog["units"])):
                if prog["units"][u]["ns"]:
                    us = list(prog["units"])
                    us[u] = {**us[u], "ns": False}
                    if fails({**prog, "units": us}):
                        prog, progress = {**prog, "units": us}, True
                        break
        if not progress:
            return prog
    return prog


def h01_run(tier, seed, build, replays, repo, info):
    headers = h01_headers(repo)
    r = random.Random(seed * 7919 + 5)
    progs = []
    # each header alone, as first include of two units of one program
    for h in headers:
        progs.append({"units": [{"includes": [h], "ns": False}, {"includes": [h, h], "ns": False}], "cross": []})
    for ci, c in enumerate(CROSS):
        progs.append({"units": [{"includes": [c[0]], "ns": False}, {"includes": [c[1]], "ns": False}], "cross": [[ci, 0, 1]]})
    progs.append({"units": [{"includes": list(headers), "ns": False},
                            {"includes": list(reversed(headers)), "ns": True}], "cross": []})
    # every ordered pair in thorough, the random programs sample them in quick
    if tier == "thorough":
        for a in headers:
            for b in headers:
                if a != b:
                    progs.append({"units": [{"includes": [a, b], "ns": False}], "cross": []})
    for _ in range(60 if tier == "quick" else 300):
        progs.append(h01_gen(r, headers))
    comps = ["g++", "clang++"]
    # in quick clang only gets the headers alone and all of them together
    basic = len(headers) + len(CROSS) + 1
    jobs = [(p, c, "w%d_%s" % (i, c)) for i, p in enumerate(progs) for c in comps
            if c == "g++" or tier == "thorough" or i < basic]
    stop = []

    def job(j):
        if stop:
            return j, None, ""
        work = os.path.join(build, j[2])
        kind, text = h01_execute(h01_sources(j[0]), repo, work, j[1])
        h01_clean(work)
        if kind:
            stop.append(j)
        return j, kind, text
    failed = None
    seen, pairs, units = set(), set(), 0
    with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
        for j, kind, text in ex.map(job, jobs):
            if kind and failed is None:
                failed = (j, kind, text)
            for u in j[0]["units"]:
                units += 1
                inc = [h for h in u["includes"] if not h.startswith("<")]
                for a in range(len(inc)):
                    for b in range(a + 1, len(inc)):
                        pairs.add((inc[a], inc[b]))
            if sum(len(set(u["includes"])) for u in j[0]["units"]) >= 3 and len(j[0]["units"]) > 1:
                seen.add(json.dumps(j[0], sort_keys=True))
    cov = {"rule": info["rule"], "evaluations": len(jobs), "distinct_nontrivial": len(seen),
           "samples": [p for p in progs[-8:]], "translation_units": units, "headers": len(headers),
           "headers_without_user_code": [h for h in headers if h not in USE],
           "ordered_header_pairs": len(pairs), "compilers": comps}
    if failed:
        (prog, compiler, _), kind, text = failed
        prog = h01_shrink(prog, kind, repo, os.path.join(build, "shrink"), compiler)
        files = h01_sources(prog)
        kind, text = h01_execute(files, repo, os.path.join(build, "shrink"), compiler)
        path = os.path.join(replays, "H01.json")
        with open(path, "w") as f:
            json.dump({"program": prog, "compiler": compiler, "kind": kind, "files": files, "output": text}, f, indent=1)
        print("%s failed: %s" % (kind, text))
        print("the program: %s" % json.dumps(prog))
        print("VIOLATION property=H01 replay=%s" % path)
        return 1, cov
    return 0, cov


def h01_replay(path, build, repo):
    data = json.load(open(path))
    kind, text = h01_execute(data["files"], repo, os.path.join(build, "replay"), data["compiler"])
    if kind:
        print("%s failed: %s" % (kind, text))
        print("VIOLATION property=H01 replay=%s" % path)
        return 1
    print("the program works")
    return 0


def run(pid, tier, seed, build, replays, repo, info):
    import constants
    try:
        return {"E01": e01_run, "E02": constants.run, "H01": h01_run}[pid](tier, seed, build, replays, repo, info)
    except Infra as e:
        print("check error: %s" % e)
        return 3, {"rule": info["rule"], "evaluations": 0, "distinct_nontrivial": 0, "samples": []}


def replay(pid, path, build, repo):
    import constants
    try:
        return {"E01": e01_replay, "E02": constants.replay, "H01": h01_replay}[pid](path, build, repo)
    except Infra as e:
        print("check error: %s" % e)
        return 3
