"""E02: code that uses nytl in constant expressions.

The generated inputs are small C++ functions built from typed random expression trees and
statements. Each is evaluated by the compiler (constexpr) and again by the built program with
arguments the optimizer cannot see; both have to work and to agree in type and value.
"""
import concurrent.futures
import json
import os
import random
import re

from programs import Infra, WORKERS, sh

PRELUDE = r"""
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
#include <nytl/mat.hpp>
#include <nytl/matOps.hpp>
#include <nytl/math.hpp>
#include <nytl/flags.hpp>
#include <nytl/rect.hpp>
#include <nytl/rectOps.hpp>
#include <nytl/simplex.hpp>
#include <nytl/span.hpp>
#include <nytl/stringParam.hpp>
#include <nytl/tmpUtil.hpp>
#include <array>
#include <cstdio>
#include <type_traits>
enum class Fl : unsigned { a = 1, b = 2, c = 4, d = 0x80000000u };
NYTL_FLAG_OPS(Fl)
enum class Fs : unsigned char { a = 1, b = 2, c = 128 };
NYTL_FLAG_OPS(Fs)
namespace tst {
template<typename T> __attribute__((noinline)) T opaque(T v) { asm volatile("" : : "g"(&v) : "memory"); return v; }
// exact, except for the rounding of floating point numbers
template<typename T> bool same(const T& a, const T& b);
inline bool near(double a, double b) {
	double d = a < b ? b - a : a - b, m = (a < 0 ? -a : a) + (b < 0 ? -b : b);
	return a == b || d <= 1e-6 * m;
}
template<std::size_t D, typename T> bool sameOf(const nytl::Vec<D, T>& a, const nytl::Vec<D, T>& b) {
	for(std::size_t i = 0; i < D; ++i) if(!same(a[i], b[i])) return false;
	return true;
}
template<std::size_t R, std::size_t C, typename T> bool sameOf(const nytl::Mat<R, C, T>& a, const nytl::Mat<R, C, T>& b) {
	for(std::size_t i = 0; i < R; ++i) for(std::size_t j = 0; j < C; ++j) if(!same(a[i][j], b[i][j])) return false;
	return true;
}
template<std::size_t D, typename T> bool sameOf(const nytl::Rect<D, T>& a, const nytl::Rect<D, T>& b) {
	return same(a.position, b.position) && same(a.size, b.size);
}
template<typename T> bool sameOf(const nytl::Flags<T>& a, const nytl::Flags<T>& b) { return a.value() == b.value(); }
template<typename T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0> bool sameOf(T a, T b) {
	if constexpr(std::is_floating_point_v<T>) return near(a, b);
	else return a == b;
}
template<typename T> bool same(const T& a, const T& b) { return sameOf(a, b); }
}
"""

LIM = 1000000


class Gen:
    def __init__(self, r):
        self.r = r
        self.args = []   # (name, type text, value text, kind, mag)

    # -- kinds: ("s", t) scalar, ("v", n, t), ("m", R, C, t), ("r", n, t), ("b",), ("f", enum), ("u",) unsigned
    def num(self, t, lo=-9, hi=9):
        v = self.r.randrange(lo, hi + 1)
        if t == "d":
            return "%d.%s" % (v, self.r.choice(["0", "5", "25"])), abs(v) + 1
        return str(v), abs(v)

    def ttext(self, t):
        return {"i": "int", "d": "double"}[t]

    def type_of(self, k):
        if k[0] == "s":
            return self.ttext(k[1])
        if k[0] == "v":
            return "nytl::Vec<%d, %s>" % (k[1], self.ttext(k[2]))
        if k[0] == "m":
            return "nytl::Mat<%d, %d, %s>" % (k[1], k[2], self.ttext(k[3]))
        if k[0] == "r":
            return "nytl::Rect<%d, %s>" % (k[1], self.ttext(k[2]))
        if k[0] == "f":
            return "nytl::Flags<%s>" % k[1]
        if k[0] == "e":
            return k[1]
        if k[0] == "u":
            return "unsigned int"
        return "bool"

    def arg(self, k):
        """A function parameter of the kind (sometimes one that is there already)."""
        have = [a for a in self.args if a[3] == k]
        if have and self.r.random() < 0.35:
            a = self.r.choice(have)
            return (a[0], k, a[4], [])
        name = "a%d" % len(self.args)
        mag = 0

        def nums(n, lo=-9, hi=9):
            nonlocal mag
            out = []
            for _ in range(n):
                x, m = self.num(k[-1], lo, hi)
                mag = max(mag, m)
                out.append(x)
            return ", ".join(out)
        if k[0] == "s":
            val = nums(1)
        elif k[0] == "v":
            val = "{%s}" % nums(k[1])
        elif k[0] == "m":
            val = "{%s}" % nums(k[1] * k[2])
        elif k[0] == "r":
            val = "{{%s}, {%s}}" % (nums(k[1]), nums(k[1], 0, 9))
        elif k[0] == "u":
            v = self.r.choice([0, 1, 2, 7, 100, 65535, 65536, 2147483647, 2147483648, 4294967295])
            val, mag = "%uu" % v, v
        elif k[0] in "ef":
            val = self.r.choice([k[1] + "::" + x for x in "abc"])
            if k[0] == "f" and self.r.random() < .3:
                val = "nytl::Flags<%s>()" % k[1]
        else:
            val = self.r.choice(["true", "false"])
        t = self.type_of(k)
        self.args.append((name, t, t + val if k[0] in "vmr" else "%s(%s)" % (t, val) if k[0] in "ef" else val, k, mag))
        return (name, k, mag, [])

    def expr(self, k, d):
        """(text, kind, magnitude, children) of the wanted kind."""
        if d <= 0:
            return self.arg(k)
        for _ in range(8):
            e = getattr(self, "x_" + k[0])(k, d)
            if e and e[2] <= LIM:
                return e
        return self.arg(k)

    def mk(self, fmt, k, mag, *ch):
        return (fmt % tuple(c[0] for c in ch), k, mag, list(ch))

    def dim(self):
        return self.r.choice([2, 2, 3, 3, 4, 5, 7])

    def sub(self, t):  # a type whose arithmetic with t gives t
        return t if t == "i" else self.r.choice("id")

    def x_s(self, k, d):
        r, t = self.r, k[1]
        o = r.randrange(22)
        n = self.dim()
        if o == 0:
            a, b = self.expr(("v", n, t), d - 1), self.expr(("v", n, self.sub(t)), d - 1)
            if r.random() < .5:
                a, b = b, a
            return self.mk("nytl::dot(%s, %s)", k, n * a[2] * b[2], a, b)
        if o == 1:
            a = self.expr(("v", n, t), d - 1)
            return self.mk("nytl::sum(%s)", k, n * a[2], a)
        if o == 2:
            a = self.expr(("v", n, t), d - 1)
            return self.mk("nytl::multiply(%s)", k, max(a[2], 1) ** n, a)
        if o in (3, 4):
            a = self.expr(("v", n, t), d - 1)
            f = r.choice(["(%%s)[%d]" % r.randrange(n), "(%s).front()", "(%s).back()", "*(%s).begin()",
                          "*((%s).end() - 1)" if n > 3 else "(%s)[0]", "*((%%s).begin() + %d)" % r.randrange(n) if n != 3 and n != 2 else "(%s).y",
                          "(%%s).data()[0]" if n < 4 else "(%s).front()"]).replace("%%", "%")
            return self.mk(f, k, a[2], a)
        if o == 5:
            a, b = self.expr(("v", 2, t), d - 1), self.expr(("v", 2, self.sub(t)), d - 1)
            return self.mk("nytl::cross(%s, %s)", k, 2 * a[2] * b[2], a, b)
        if o in (6, 7):
            R, C = r.randrange(1, 5), r.randrange(1, 5)
            a = self.expr(("m", R, C, t), d - 1)
            f = r.choice(["(%%s)[%d][%d]", "(%%s).at(%d, %d)", "(%%s).at(%d)[%d]"]) % (r.randrange(R), r.randrange(C))
            return self.mk(f, k, a[2], a)
        if o == 8:
            D = r.randrange(1, 5)
            a = self.expr(("m", D, D, t), d - 1)
            if r.random() < .5:
                return self.mk("nytl::trace(%s)", k, D * a[2], a)
            return self.mk("nytl::multiplyDiagonal(%s)", k, max(a[2], 1) ** D, a)
        if o == 9:
            a = self.expr(("r", n, t), d - 1)
            return self.mk("nytl::size(%s)", k, max(a[2], 1) ** n, a)
        if o == 10:
            a, b = self.expr(k, d - 1), self.expr(k, d - 1)
            op = r.choice("+-*")
            return self.mk("(%s " + op + " %s)", k, a[2] * b[2] if op == "*" else a[2] + b[2], a, b)
        if o == 11 and t == "d":
            a, b, c = (self.expr(k, d - 1) for _ in range(3))
            return self.mk("nytl::mix(%s, %s, %s)", k, (1 + c[2]) * a[2] + c[2] * b[2], a, b, c)
        if o == 12 and t == "d":
            a = self.expr(k, d - 1)
            return self.mk("nytl::smoothstep(%d., %d., %%s)" % (r.randrange(-3, 1), r.randrange(1, 5)), k, 1, a)
        if o == 13 and t == "d":
            a = self.expr(k, d - 1)
            return self.mk("nytl::%s(%%s)" % r.choice(["degrees", "radians"]), k, 60 * a[2], a)
        if o == 14 and t == "i":
            a = self.expr(("u",), d - 1)
            return self.mk("nytl::unmapUnsigned((%s) % 100000u)".replace(" % 1", " %% 1"), k, 50000, a)
        if o == 15 and t == "i":
            a = self.expr(("s", "d"), d - 1)
            return self.mk("[](float v) { int s = 7; auto x = nytl::clampStore(v, -3.f, 4.f, s); "
                           "return s * 10 + int(x); }(static_cast<float>(%s))", k, 15, a)
        if o == 16 and t == "i":
            a, b = self.expr(("b",), d - 1), self.expr(k, d - 1)
            return self.mk("(%s ? 3 : %s)", k, max(3, b[2]), a, b)
        if o == 17:  # the members of the two and three dimensional vectors are no array
            n = max(n, 4)
            a = self.expr(("v", n, t), d - 1)
            return self.mk("[](const auto& v) { " + self.ttext(t) + " s {}; for(auto x : v) s += x; return s; }(%s)", k, n * a[2], a)
        if o in (18, 19):  # spans over local storage
            a = self.expr(("v", 4, t), d - 1)
            off, cnt = r.randrange(0, 3), 0
            cnt = r.randrange(1, 5 - off)
            T = self.ttext(t)
            mk = r.choice(["nytl::span<const %s> s(b);" % T, "nytl::span<%s> s(b);" % T, "nytl::span<%s, 4> s(b);" % T,
                           "nytl::span<const %s> s(b, 4);" % T, "nytl::span<%s> s(b, b + 4);" % T, "auto s = nytl::make_span(b);",
                           "auto s = nytl::make_span(b, b + 4);", "auto s = nytl::make_span(b, std::size_t(4));",
                           "nytl::span<%s, 4> q(b); nytl::span<const %s> s(q);" % (T, T),
                           "std::array<%s, 4> c {b[0], b[1], b[2], b[3]}; nytl::span<const %s> s(c);" % (T, T),
                           "const std::array<%s, 4> c {b[0], b[1], b[2], b[3]}; nytl::span<const %s> q(c), s; s = q;" % (T, T)])
            sub = r.choice(["s.subspan(%d, %d)" % (off, cnt), "s.subspan(%d)" % off, "s.first(%d)" % cnt, "s.last(%d)" % cnt,
                            "s.template first<%d>()" % cnt, "s.template last<%d>()" % cnt, "s.template subspan<%d, %d>()" % (off, cnt),
                            "s.template subspan<%d>()" % off, "s"])
            res = r.choice(["for(auto x : w) r += x;", "r += w[w.size() - 1];", "r += w.front() + w.back();",
                            "r += *w.rbegin(); r += *w.crbegin();", "for(auto i = w.cbegin(); i != w.cend(); ++i) r = x2(r) + *i;"
                            .replace("x2(r)", "r"), "r += w(0);", "r += w.data()[w.size() - 1];",
                            "if(!w.empty()) r += w.size_bytes() / sizeof(r);"])
            return self.mk("[](const auto& v) { %s b[4] {v[0], v[1], v[2], v[3]}; %s auto w = %s; %s r {}; %s return r; }(%%s)" %
                           (T, mk, sub, T, res), k, 4 * a[2] + 4, a)
        if o == 20 and t == "i":
            txt = r.choice(["", "a", "abc", "a\\\\0b".replace("\\\\0", "-"), "hello world"])
            f = r.choice(["int(p.size())", "int(p.empty())", "int(p.data()[0])", "int(p == \"abc\")", "int(p.length())"])
            a = self.expr(k, d - 1)
            return self.mk("([] { constexpr nytl::StringParam p%s; return %s; }() + %%s)" %
                           ('("%s")' % txt if txt or r.random() < .5 else "", f), k, a[2] + 200, a)
        if o == 21:
            a = self.expr(("v", 2, t), d - 1)
            T = self.ttext(t)
            return self.mk("[](const auto& v) { nytl::Simplex<2, %s, %d> s {}; s.points()[1] = v; auto c = "
                           "static_cast<nytl::Simplex<%d, %s, %d>>(s); return c.points()[1][0] + c.points_[1].back(); }(%%s)" %
                           ((T,) + r.choice([(1, 1, T, 1), (2, 2, T, 2), (2, 3, T, 2), (1, 2, T, 1)])), k, a[2], a)
        return None

    def x_u(self, k, d):
        o = self.r.randrange(5)
        if o == 0:
            a = self.expr(("s", "i"), d - 1)
            return self.mk("nytl::mapUnsigned(%s)", k, 1, a)
        if o == 1:
            a, b = self.expr(k, d - 1), self.expr(k, d - 1)
            return self.mk("nytl::pair(%s %% 3000u, %s %% 3000u)", k, 1, a, b)
        if o == 2:
            return self.mk("(nytl::factorial(%%s %%%% %du) %%%% 65536u)" % self.r.randrange(1, 13) if 0 else
                           "static_cast<unsigned>(nytl::factorial(%%s %%%% %du))" % self.r.randrange(1, 13), k, 1, self.expr(k, d - 1))
        if o == 3:
            a = self.expr(("f", "Fl"), d - 1)
            return self.mk("(%s).value()", k, 1, a)
        a = self.expr(("v", self.dim(), self.r.choice("id")), d - 1)
        return self.mk("static_cast<unsigned>((%s).size())", k, 1, a)

    def x_v(self, k, d):
        r, n, t = self.r, k[1], k[2]
        s = ("s", t)
        o = r.randrange(20)
        if o < 3:
            a, b = self.expr(k, d - 1), self.expr(("v", n, self.sub(t)), d - 1)
            if r.random() < .5:
                a, b = b, a
            if o == 2:
                return self.mk("nytl::vec::cw::multiply(%s, %s)", k, a[2] * b[2], a, b)
            return self.mk("(%s " + "+-"[o] + " %s)", k, a[2] + b[2], a, b)
        if o == 3:
            a = self.expr(k, d - 1)
            return self.mk(r.choice("+-") + "(%s)", k, a[2], a)
        if o == 4:
            f, a = self.expr(("s", self.sub(t)), d - 1), self.expr(k, d - 1)
            return self.mk("(%s * %s)", k, f[2] * a[2], f, a)
        if o == 5:
            a, b = self.expr(k, d - 1), self.expr(k, d - 1)
            return self.mk("nytl::vec::cw::" + r.choice(["max", "min"]) + "(%s, %s)", k, max(a[2], b[2]), a, b)
        if o == 6:
            a, b = self.expr(k, d - 1), self.expr(s, d - 1)
            return self.mk("nytl::vec::cw::" + r.choice(["max", "min"]) + "(%s, %s)", k, max(a[2], b[2]), a, b)
        if o == 7:
            a = self.expr(k, d - 1)
            lo, hi = r.randrange(-5, 1), r.randrange(1, 9)
            c = (lo, hi) if t == "i" else ("%d." % lo, "%d." % hi)
            return self.mk("nytl::vec::cw::clamp(%%s, %s, %s)" % c, k, 9, a)
        if o == 8:
            t2 = r.choice("id") if t == "d" else "i"
            a = self.expr(("v", n + r.choice([-1, 0, 0, 1]) if n > 2 else n, t2), d - 1)
            return self.mk("static_cast<%s>(%%s)" % self.type_of(k), k, a[2], a)
        if o == 9 and n == 3:
            a, b = self.expr(k, d - 1), self.expr(("v", 3, self.sub(t)), d - 1)
            return self.mk("nytl::cross(%s, %s)", k, 2 * a[2] * b[2], a, b)
        if o == 10:
            a, b = self.expr(k, d - 1), self.expr(k, d - 1)
            return self.mk("nytl::mirror(%s, %s)", k, 2 * a[2] + b[2], a, b)
        if o == 11 and n <= 4:
            C = r.randrange(2, 5)
            a, b = self.expr(("m", n, C, t), d - 1), self.expr(("v", C, self.sub(t)), d - 1)
            return self.mk("(%s * %s)", k, C * a[2] * b[2], a, b)
        if o == 12 and n <= 4:
            C = r.randrange(2, 5)
            a = self.expr(("m", n, C, t), d - 1)
            return self.mk("nytl::col(%%s, %d)" % r.randrange(C), k, a[2], a)
        if o == 13 and n <= 4:
            a = self.expr(("m", r.randrange(1, 4), n, t), d - 1)
            return self.mk("(%s)[0]", k, a[2], a)
        if o == 14:
            a = self.expr(("r", n, t), d - 1)
            if t == "d" and r.random() < .5:
                return self.mk("nytl::center(%s)", k, 2 * a[2], a)
            return self.mk("(%s)." + r.choice(["position", "size"]), k, a[2], a)
        if o in (15, 16):
            a, b = self.expr(k, d - 1), self.expr(s, d - 1)
            op = r.choice("+-*")
            mag = a[2] * b[2] if op == "*" else a[2] + b[2]
            x = self.mk("[](const auto& v, auto f) { using namespace nytl::vec::cw::operators; using namespace nytl::vec::operators; return v " + op + " f; }(%s, %s)" if
                        r.random() < .5 else
                        "[](const auto& v, auto f) { using namespace nytl::vec::cw::operators; return f " + op + " v; }(%s, %s)",
                        k, mag, a, b)
            return x
        if o == 17:
            a, b = self.expr(k, d - 1), self.expr(k, d - 1)
            return self.mk("[](const auto& v, const auto& w) { using namespace nytl::vec::cw::operators; return v * w; }(%s, %s)",
                           k, a[2] * b[2], a, b)
        if o == 18 and t == "d":
            a = self.expr(k, d - 1)
            q = r.choice(["v / %d." % r.randrange(1, 9), "v / (%d. + v * v)" % r.randrange(1, 9)])
            return self.mk("[](const auto& v) { using namespace nytl::vec::cw::operators; using namespace nytl::vec::operators; return %s; }(%%s)" % q, k, a[2], a)
        if o == 19:
            a, b = self.expr(k, d - 1), self.expr(s, d - 1)
            st = r.choice(["v += v; v *= 2;", "v -= f * v;", "v[%d] = f;" % (n - 1), "v.front() = f; v.back() += 1;",
                           "*v.begin() = f;"] + (["for(auto& x : v) x += f;"] if n > 3 else []))
            return self.mk("[](auto v, auto f) { " + st + " return nytl::templatize<int>(v); }(%s, %s)", k, 4 * a[2] * (1 + b[2]) + b[2] + 1, a, b)
        return None

    def x_m(self, k, d):
        r, R, C, t = self.r, k[1], k[2], k[3]
        o = r.randrange(9)
        if o < 2:
            a, b = self.expr(k, d - 1), self.expr(("m", R, C, self.sub(t)), d - 1)
            return self.mk("(%s " + "+-"[o] + " %s)", k, a[2] + b[2], a, b)
        if o == 2:
            M = r.randrange(2, 5)
            a, b = self.expr(("m", R, M, t), d - 1), self.expr(("m", M, C, self.sub(t)), d - 1)
            return self.mk("(%s * %s)", k, M * a[2] * b[2], a, b)
        if o == 3:
            a = self.expr(("m", C, R, t), d - 1)
            return self.mk("nytl::transpose(%s)", k, a[2], a)
        if o == 4:
            f, a = self.expr(("s", self.sub(t)), d - 1), self.expr(k, d - 1)
            return self.mk("(%s * %s)", k, f[2] * a[2], f, a)
        if o == 5:
            a = self.expr(k, d - 1)
            return self.mk("-(%s)", k, a[2], a)
        if o == 6 and R == C:
            return ("nytl::identity<%d, %s>()" % (R, self.ttext(t)), k, 1, [])
        if o == 7:
            a = self.expr(("m", R + r.choice([0, 1]), C + r.choice([0, 1]), self.sub(t)), d - 1)
            return self.mk("static_cast<%s>(%%s)" % self.type_of(k), k, a[2], a)
        if o == 8:
            a, b = self.expr(k, d - 1), self.expr(("v", R, t), d - 1) if R > 1 else None
            st = ["m += m;", "m -= 2 * m;", "m *= 3;", "nytl::one(m);", "m[0][%d] = 4;" % (C - 1), "m.at(%d, 0) += 2;" % (R - 1)]
            if R == C:
                st += ["m *= m;", "nytl::identity(m);"]
            if b:
                st2 = st + ["nytl::col(m, %d, v);" % r.randrange(C)] * 2
                return self.mk("[](auto m, const auto& v) { (void) v; " + r.choice(st2) + " return m; }(%s, %s)", k,
                               max(4 * a[2] + 4, R * a[2] * a[2], b[2]), a, b)
            return self.mk("[](auto m) { " + r.choice(st) + " return m; }(%s)", k, max(4 * a[2] + 4, R * a[2] * a[2]), a)
        return None

    def x_r(self, k, d):
        o = self.r.randrange(3)
        if o == 0:
            a, b = self.expr(k, d - 1), self.expr(k, d - 1)
            return self.mk("nytl::intersection(%s, %s)", k, 2 * (a[2] + b[2]), a, b)
        v = ("v", k[1], k[2])
        if o == 1:
            a, b = self.expr(v, d - 1), self.expr(v, d - 1)
            return self.mk(self.type_of(k) + "{%s, nytl::vec::cw::max(%s, 0" + ("." if k[2] == "d" else "") + ")}", k, a[2] + b[2], a, b)
        a, b = self.expr(k, d - 1), self.expr(v, d - 1)
        return self.mk("[](auto r, const auto& v) { r.position += v; return r; }(%s, %s)", k, a[2] + b[2], a, b)

    def x_b(self, k, d):
        r = self.r
        o = r.randrange(9)
        n, t = self.dim(), r.choice("id")
        if o == 0:
            a, b = self.expr(("v", n, t), d - 1), self.expr(("v", n, r.choice("id")), d - 1)
            return self.mk("(%s " + r.choice(["==", "!="]) + " %s)", k, 1, a, b)
        if o == 1:
            R, C = r.randrange(1, 5), r.randrange(1, 5)
            a, b = self.expr(("m", R, C, t), d - 1), self.expr(("m", R, C, t), d - 1)
            return self.mk("(%s " + r.choice(["==", "!="]) + " %s)", k, 1, a, b)
        if o in (2, 3):
            a, b = self.expr(("r", n, t), d - 1), self.expr(("v", n, r.choice("id")), d - 1)
            return self.mk("nytl::" + r.choice(["contains", "containsReal"]) + "(%s, %s)", k, 1, a, b)
        if o in (4, 5):
            a, b = self.expr(("r", n, t), d - 1), self.expr(("r", n, r.choice("id")), d - 1)
            return self.mk("nytl::" + r.choice(["intersects", "intersectsReal"]) + "(%s, %s)", k, 1, a, b)
        if o == 6:
            D = r.randrange(1, 5)
            return self.mk("nytl::symmetric(%s)", k, 1, self.expr(("m", D, D, t), d - 1))
        e = r.choice(["Fl", "Fs"])
        a, b = self.expr(("f", e), d - 1), self.expr(("f", e), d - 1)
        if o == 7:
            return self.mk("(%s " + r.choice(["==", "!="]) + " %s)", k, 1, a, b)
        return self.mk("static_cast<bool>(%s & %s)", k, 1, a, b)

    def x_e(self, k, d):
        return None

    def x_f(self, k, d):
        r, e = self.r, k[1]
        o = r.randrange(6)

        def side():
            return self.expr(k, d - 1) if r.random() < .6 else self.arg(("e", e))
        if o < 2:
            a, b = side(), side()
            return self.mk("(%s " + r.choice("|&^") + " %s)", k, 1, a, b)
        if o == 2:
            return self.mk("~(%s)", k, 1, self.arg(("e", e)))
        if o == 3:
            return self.mk("nytl::Flags<%s>(nytl::invertFlags, %%s)" % e, k, 1, self.arg(("e", e)))
        if o == 4:
            a, b = self.expr(k, d - 1), side()
            return self.mk("[](auto f, auto g) { f " + r.choice("|&^") + "= g; return f; }(%s, %s)", k, 1, a, b)
        return self.mk("nytl::Flags<%s>{%%s}" % e, k, 1, side())


KINDS = [("s", "i"), ("s", "d"), ("v", 2, "i"), ("v", 2, "d"), ("v", 3, "i"), ("v", 3, "d"), ("v", 4, "d"), ("v", 5, "i"),
         ("v", 7, "d"), ("m", 2, 3, "i"), ("m", 3, 3, "d"), ("m", 1, 2, "d"), ("m", 4, 4, "i"), ("r", 2, "i"), ("r", 3, "d"),
         ("b",), ("b",), ("u",), ("f", "Fl"), ("f", "Fs")]


def gen(r):
    g = Gen(r)
    k = r.choice(KINDS)
    e = g.expr(k, r.choice([1, 2, 2, 3, 3, 4]))
    return {"args": [a[:3] for a in g.args], "type": g.type_of(k), "node": e}


def nodes(e):
    yield e
    for c in e[3]:
        yield from nodes(c)


def depth(e):
    return 1 + max([depth(c) for c in e[3]], default=0)


def case_source(c, i):
    used = [a for a in c["args"] if re.search(r"\b%s\b" % a[0], c["node"][0])]
    par = ", ".join("const %s& %s" % (a[1], a[0]) for a in used)
    return [
        "namespace case%d {" % i,
        "constexpr auto f(%s) { return %s; }" % (par, c["node"][0]),
        "constexpr auto c = f(%s);" % ", ".join(a[2] for a in used),
        'static_assert(std::is_same<std::remove_const_t<decltype(c)>, %s>::value, "type");' % c["type"] if c["type"] else "",
        "bool run() { auto r = f(%s); return tst::same<std::remove_const_t<decltype(c)>>(c, r); }" %
        ", ".join("tst::opaque<%s>(%s)" % (a[1], a[2]) for a in used),
        "}"]


def source(cases):
    lines = PRELUDE.strip().split("\n")
    for i, c in enumerate(cases):
        lines += case_source(c, i)
    lines.append("int main() { int bad = 0;")
    lines += ['if(!case%d::run()) { std::printf("case %d differs\\n"); bad = 1; }' % (i, i) for i in range(len(cases))]
    lines.append("return bad; }")
    return "\n".join(lines) + "\n"


def execute(cases, repo, build, name, src=None):
    """None if the unit holds, otherwise what failed."""
    src = src or source(cases)
    path = os.path.join(build, name + ".cpp")
    prog = os.path.join(build, name)
    with open(path, "w") as f:
        f.write(src)
    rc, out = sh(["g++", "-std=c++17", "-w", "-O0", "-I" + repo, path, "-o", prog], build, 240)
    if rc:
        return "compile", out
    rc, out = sh([prog], build)
    os.unlink(prog)
    return ("run", "exit %d %s" % (rc, out)) if rc else None


def shrink(c, fails):
    for _ in range(30):
        for n in sorted(nodes(c["node"]), key=lambda e: len(e[0])):
            if n is c["node"] or n[0] in [a[0] for a in c["args"]]:
                continue
            x = {**c, "node": n, "type": ""}
            if fails(x):
                c = x
                break
        else:
            break
    return c


def report(cases, repo, build, replays):
    bad = cases
    while len(bad) > 1:
        half = bad[:len(bad) // 2]
        rest = bad[len(bad) // 2:]
        if execute(half, repo, build, "shrink"):
            bad = half
        elif execute(rest, repo, build, "shrink"):
            bad = rest
        else:
            break
    if len(bad) == 1:
        bad = [shrink(bad[0], lambda c: execute([c], repo, build, "shrink") is not None)]
    res = execute(bad, repo, build, "shrink")
    path = os.path.join(replays, "E02.cpp")
    with open(path, "w") as f:
        f.write("// replay: run_check.py E02 replay <this file>\n" + source(bad))
    print("%s: %s" % (res[0], res[1][:2500]) if res else "the unit failed only as a whole")
    print("the expression: %s" % bad[0]["node"][0])
    print("VIOLATION property=E02 replay=%s" % path)


def run(tier, seed, build, replays, repo, info):
    r = random.Random(seed * 7368787 + 3)
    units, per = (40, 60) if tier == "quick" else (500, 80)
    jobs, total, seen, samples, ops = [], 0, set(), [], {}
    for u in range(units):
        cases = [gen(r) for _ in range(per)]
        jobs.append((cases, "u%d" % u))
        total += per
        for c in cases:
            text = c["node"][0]
            for o in set(re.findall(r"nytl::(?:vec::cw::)?\w+|\.\w+(?=\()", text)):
                ops[o] = ops.get(o, 0) + 1
            if depth(c["node"]) >= 3:
                seen.add(text)
                if len(samples) < 12 and r.random() < .02:
                    samples.append({"expression": text, "type": c["type"], "args": [a[2] for a in c["args"]]})
    failed = []

    def job(j):
        if failed:
            return
        res = execute(j[0], repo, build, j[1])
        os.unlink(os.path.join(build, j[1] + ".cpp"))
        if res:
            failed.append(j)
    with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
        list(ex.map(job, jobs))
    cov = {"rule": info["rule"], "evaluations": total, "distinct_nontrivial": len(seen), "samples": samples,
           "translation_units": units, "operations": ops}
    if failed:
        report(failed[0][0], repo, build, replays)
        return 1, cov
    return 0, cov


def replay(path, build, repo):
    res = execute([], repo, build, "replay", open(path).read())
    if res:
        print("%s: %s" % (res[0], res[1][:2500]))
        print("VIOLATION property=E02 replay=%s" % path)
        return 1
    print("the case holds")
    return 0
