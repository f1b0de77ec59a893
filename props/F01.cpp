// F01: flag expressions against unsigned integer arithmetic.
#include "pbt.hpp"
#include <nytl/flags.hpp>

#include <cstring>
#include <type_traits>

namespace {

enum class E8 : std::uint8_t { none = 0, a = 1, b = 2, c = 4, top = 0x80, all = 0xFF };
enum class E16 : std::uint16_t { none = 0, a = 1, b = 2, c = 0x100, top = 0x8000, all = 0xFFFF };
enum class E32 : std::uint32_t { none = 0, a = 1, b = 2, c = 0x10000, top = 0x80000000u, all = 0xFFFFFFFFu };
enum class E64 : std::uint64_t { none = 0, a = 1, b = 2, c = 0x100000000ull, top = 0x8000000000000000ull,
	all = 0xFFFFFFFFFFFFFFFFull };
enum class EInt { none = 0, a = 1, b = 2, c = 0x400, top = 0x40000000 };
enum class ES64 : std::int64_t { none = 0, a = 1, b = 2, c = 0x100000000ll, top = 0x4000000000000000ll };
NYTL_FLAG_OPS(E8)
NYTL_FLAG_OPS(E16)
NYTL_FLAG_OPS(E32)
NYTL_FLAG_OPS(E64)
NYTL_FLAG_OPS(EInt)
NYTL_FLAG_OPS(ES64)

// usable in constant expressions
static_assert((E8::a | E8::b).value() == 3);
static_assert(((E8::a | E8::b) & E8::b) == E8::b);
static_assert((~E16::a).value() == 0xFFFE);
static_assert((E32::a ^ (E32::a | E32::b)).value() == 2);
static_assert(nytl::Flags<E64>(nytl::invertFlags, E64::a).value() == ~1ull);
static_assert(nytl::Flags<E64>() == nytl::Flags<E64>(E64::none));

template<typename E> struct Eval {
	using U = std::underlying_type_t<E>;
	using F = nytl::Flags<E>;
	using M = std::make_unsigned_t<U>;

	pbt::Ctx& c;
	unsigned ops {};
	bool usedEnum {}, usedFlags {};

	static M u(U v) { return static_cast<M>(v); }
	static M u(const F& f) { return static_cast<M>(f.value()); }

	M bits() {
		M v {};
		switch(c.draw(3)) {
			case 0: v = static_cast<M>(M(1) << c.draw(sizeof(M) * 8 - 1)); break;
			case 1: v = static_cast<M>(c.draw(7)); break;
			case 2: v = static_cast<M>(c.draw(~0ull)); break;
			case 3: v = static_cast<M>(c.draw(1) ? ~M(0) : M(0)); break;
		}
		return v;
	}

	F leaf(M& m) {
		m = bits();
		auto e = static_cast<E>(m);
		switch(c.draw(2)) {
			case 0: return F(e);
			case 1: m = static_cast<M>(~m); return F(nytl::invertFlags, e);
			default: m = static_cast<M>(~m); return ~e;
		}
	}

	void check(const F& f, M m, const char* what) {
		EXPECT(u(f) == m, what, ": value is ", std::uint64_t(u(f)), " instead of ", std::uint64_t(m));
	}

	// builds an expression, returns its flags and sets the expected value
	F expr(int depth, M& m) {
		if(depth == 0 || c.chance(1, 4)) return leaf(m);
		++ops;
		M ml {}, mr {};
		unsigned op = static_cast<unsigned>(c.draw(2));
		auto apply = [&](M a, M b) -> M {
			return static_cast<M>(op == 0 ? (a | b) : op == 1 ? (a & b) : (a ^ b));
		};
		F res;
		switch(c.draw(5)) {
			case 0: { // enum, enum
				usedEnum = true;
				ml = bits(); mr = bits();
				E l = static_cast<E>(ml), r = static_cast<E>(mr);
				res = op == 0 ? (l | r) : op == 1 ? (l & r) : (l ^ r);
				m = apply(ml, mr);
				check(res, m, "enum op enum");
				check(op == 0 ? (r | l) : op == 1 ? (r & l) : (r ^ l), m, "enum op enum, swapped");
				break;
			}
			case 1: { // enum, flags
				usedEnum = usedFlags = true;
				ml = bits();
				E l = static_cast<E>(ml);
				const F r = expr(depth - 1, mr);
				res = op == 0 ? (l | r) : op == 1 ? (l & r) : (l ^ r);
				m = apply(ml, mr);
				check(res, m, "enum op flags");
				check(r, mr, "right operand");
				check(op == 0 ? (r | l) : op == 1 ? (r & l) : (r ^ l), m, "flags op enum");
				break;
			}
			case 2: { // flags, flags
				usedFlags = true;
				const F l = expr(depth - 1, ml);
				const F r = expr(depth - 1, mr);
				res = op == 0 ? (l | r) : op == 1 ? (l & r) : (l ^ r);
				m = apply(ml, mr);
				check(res, m, "flags op flags");
				check(op == 0 ? (r | l) : op == 1 ? (r & l) : (r ^ l), m, "flags op flags, swapped");
				check(l, ml, "left operand");
				check(r, mr, "right operand");
				break;
			}
			case 3: { // assignment with flags
				usedFlags = true;
				F l = expr(depth - 1, ml);
				const F r = expr(depth - 1, mr);
				m = apply(ml, mr);
				F& ret = op == 0 ? (l |= r) : op == 1 ? (l &= r) : (l ^= r);
				EXPECT(&ret == &l, "assignment returns another object");
				check(l, m, "flags op= flags");
				check(r, mr, "right operand");
				res = l;
				break;
			}
			case 4: { // assignment with enum
				usedEnum = usedFlags = true;
				F l = expr(depth - 1, ml);
				mr = bits();
				E r = static_cast<E>(mr);
				m = apply(ml, mr);
				F& ret = op == 0 ? (l |= r) : op == 1 ? (l &= r) : (l ^= r);
				EXPECT(&ret == &l, "assignment returns another object");
				check(l, m, "flags op= enum");
				res = l;
				break;
			}
			case 5: { // with itself
				usedFlags = true;
				F l = expr(depth - 1, ml);
				m = apply(ml, ml);
				check(op == 0 ? (l | l) : op == 1 ? (l & l) : (l ^ l), m, "flags op same flags");
				check(l, ml, "operand");
				op == 0 ? (l |= l) : op == 1 ? (l &= l) : (l ^= l);
				check(l, m, "flags op= same flags");
				res = l;
				break;
			}
		}
		return res;
	}

	void run() {
		M m {};
		const F f = expr(int(c.range(1, 5)), m);
		if(ops >= 3 && usedEnum && usedFlags) c.nontrivial();
		c.note("flags of ", sizeof(U), " bytes, ", ops, " operators, value ", std::uint64_t(m));
		check(f, m, "expression");

		// observers
		static_assert(std::is_same_v<std::decay_t<decltype(f.value())>, U>);
		U conv = f;
		EXPECT(u(conv) == m, "conversion to the underlying type");
		EXPECT(static_cast<U>(f) == f.value(), "conversion to the underlying type");
		EXPECT(static_cast<bool>(f) == (m != 0), "conversion to bool");
		EXPECT((f ? true : false) == (m != 0), "condition");
		EXPECT(u(static_cast<U>(~f)) == static_cast<M>(~m), "~flags");
		check(F(nytl::invertFlags, static_cast<E>(m)), static_cast<M>(~m), "invertFlags");
		check(~static_cast<E>(m), static_cast<M>(~m), "~enum");
		EXPECT(u(F {}) == 0, "default constructed flags");

		// comparison, with values differing in one bit as well
		M m2 = m;
		if(c.boolean()) m2 = static_cast<M>(m ^ static_cast<M>(M(1) << c.draw(sizeof(M) * 8 - 1)));
		const F g(static_cast<E>(m2));
		EXPECT((f == g) == (m == m2), "flags == flags");
		EXPECT((f != g) == (m != m2), "flags != flags");
		EXPECT((f == static_cast<E>(m2)) == (m == m2), "flags == enum");
		EXPECT((f != static_cast<E>(m2)) == (m != m2), "flags != enum");

		// copies are independent
		F h = f;
		h ^= static_cast<E>(M(1));
		check(f, m, "original after changing the copy");
		h = f;
		check(h, m, "assigned copy");

		// storage in another type
		using F64 = nytl::Flags<E, std::uint64_t>;
		auto base = static_cast<E>(static_cast<M>(m & (static_cast<M>(~M(0)) >> 1)));
		F64 wide(base);
		EXPECT(wide.value() == static_cast<std::uint64_t>(base), "flags stored in another type");
		wide |= static_cast<E>(M(1));
		EXPECT(wide.value() == (static_cast<std::uint64_t>(base) | 1), "flags stored in another type");
		EXPECT(F64(nytl::invertFlags, base).value() == ~static_cast<std::uint64_t>(base),
			"inverted flags stored in another type");
		// also with bits that the enumeration does not have
		const std::uint64_t hi = ~static_cast<std::uint64_t>(base), lo = static_cast<std::uint64_t>(wide.value());
		const F64 inv(nytl::invertFlags, base);
		EXPECT((inv == wide) == (hi == lo) && (inv != wide) == (hi != lo), "comparison of flags stored in another type");
		EXPECT((inv & wide).value() == (hi & lo) && (inv | wide).value() == (hi | lo) && (inv ^ wide).value() == (hi ^ lo),
			"operation on flags stored in another type");
		const F64 cut(static_cast<E>(static_cast<M>(~static_cast<M>(base)))); // the same in the bits of the enumeration
		EXPECT((inv == cut) == (hi == cut.value()) && (inv != cut) == (hi != cut.value()), "comparison of flags stored in another type");
		auto a = inv, o = inv, x = inv;
		a &= wide;
		o |= wide;
		x ^= wide;
		EXPECT(a.value() == (hi & lo) && o.value() == (hi | lo) && x.value() == (hi ^ lo), "assigning operation on flags stored in another type");
		EXPECT(static_cast<std::uint64_t>(inv) == hi && (inv.value() != 0) == (hi != 0), "value of flags stored in another type");
	}
};

template<typename E> void run(pbt::Ctx& c) { Eval<E> e {c}; e.run(); }

} // namespace

FACET(expressions, 400000) {
	switch(c.draw(5)) {
		case 0: run<E8>(c); break;
		case 1: run<E16>(c); break;
		case 2: run<E32>(c); break;
		case 3: run<E64>(c); break;
		case 4: run<EInt>(c); break;
		case 5: run<ES64>(c); break;
	}
}
