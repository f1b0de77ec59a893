// I01: independent objects and calls do not influence each other, in one thread and in several.
#include "pbt.hpp"
#include <nytl/approx.hpp>
#include <nytl/approxVec.hpp>
#include <nytl/bytes.hpp>
#include <nytl/callback.hpp>
#include <nytl/clone.hpp>
#include <nytl/connection.hpp>
#include <nytl/flags.hpp>
#include <nytl/functionTraits.hpp>
#include <nytl/mat.hpp>
#include <nytl/matOps.hpp>
#include <nytl/math.hpp>
#include <nytl/quaternion.hpp>
#include <nytl/rect.hpp>
#include <nytl/rectOps.hpp>
#include <nytl/recursiveCallback.hpp>
#include <nytl/scope.hpp>
#include <nytl/simplex.hpp>
#include <nytl/span.hpp>
#include <nytl/stringParam.hpp>
#include <nytl/transform.hpp>
#include <nytl/utf.hpp>
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>

#include <atomic>
#include <cstring>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

enum class Bit : unsigned { a = 1, b = 2, c = 4, d = 8 };
NYTL_FLAG_OPS(Bit)

namespace {

struct Step { unsigned op; std::uint64_t seed; };

// Everything random inside a step comes from its seed
struct Rng {
	std::uint64_t s;
	std::uint64_t next() {
		s += 0x9E3779B97F4A7C15ull;
		auto z = s;
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	std::uint64_t below(std::uint64_t n) { return next() % n; }
	int in(int lo, int hi) { return lo + int(below(hi - lo + 1)); }
	double real() { return double(in(-4000, 4000)) / 64; }
	double positive() { return double(in(1, 4000)) / 64; }
};

struct Shape : nytl::AbstractCloneable<Shape> {
	virtual ~Shape() = default;
	virtual std::string text() const = 0;
};
struct Circle : nytl::DeriveCloneable<Circle, Shape> {
	std::string name; std::vector<int> parts;
	std::string text() const override { return "c" + name + std::to_string(parts.size()); }
};
struct Square : nytl::Cloneable<Square> {
	std::string name;
	virtual ~Square() = default;
};

enum class Mode { alone, woven, threads };

constexpr unsigned opCount = 30;

// A sequence of steps with objects of its own. Everything it observes goes to the log.
class Program {
public:
	std::string log;
	std::function<void()> hook; // called from inside of handlers and guards
	unsigned inside {};

	explicit Program(const std::vector<Step>& s) : steps_(s) {}

	bool done() const { return pos_ == steps_.size(); }
	bool busy() const { return busy_; }
	void step() {
		busy_ = true;
		auto s = steps_[pos_++];
		out(s.op);
		Rng r {s.seed};
		try {
			run(s.op, r);
		} catch(const std::exception& e) {
			log += e.what();
		}
		busy_ = false;
	}
	// destroys the objects, their destruction is part of the log
	void finish() {
		busy_ = true;
		unique_.clear();
		tracked_.clear();
		simple_.reset();
		rec_.reset();
		recT_.reset();
		busy_ = false;
	}

private:
	using Simple = nytl::Callback<int(int)>;
	using Rec = nytl::RecursiveCallback<int(int)>;
	using RecT = nytl::TrackedRecursiveCallback<void(std::string)>;

	std::vector<Step> steps_;
	std::size_t pos_ {};
	bool busy_ {};

	// logs its destruction
	struct Token {
		Program* p; int id;
		Token(Program* pr, int i) : p(pr), id(i) {}
		~Token() { p->out("~"); p->out(id); }
	};

	std::unique_ptr<Simple> simple_ {new Simple()};
	std::unique_ptr<Rec> rec_ {new Rec()};
	std::unique_ptr<RecT> recT_ {new RecT()};
	std::vector<nytl::Connection> conns_;          // of rec_
	std::vector<nytl::Connection> simpleConns_;
	std::vector<nytl::TrackedConnection> tracked_; // of recT_
	std::vector<nytl::UniqueConnection> unique_;   // of rec_
	nytl::DynWriteBuf buf_;
	int ids_ {};
	unsigned depth_ {};

	void out(const std::string& s) { log += s; log += ' '; }
	void out(const char* s) { log += s; log += ' '; }
	template<typename T> std::enable_if_t<std::is_arithmetic_v<T>> out(const T& v) {
		if constexpr(std::is_integral_v<T>) log += std::to_string(v);
		else {
			char b[40];
			std::snprintf(b, sizeof(b), "%a", double(v));
			log += b;
		}
		log += ' ';
	}
	template<std::size_t D, typename T> void out(const nytl::Vec<D, T>& v) { for(auto& x : v) out(x); }
	template<std::size_t R, std::size_t C, typename T> void out(const nytl::Mat<R, C, T>& m) {
		for(auto i = 0u; i < R; ++i) out(m[i]);
	}
	template<std::size_t D, typename T> void out(const nytl::Rect<D, T>& r) { out(r.position); out(r.size); }
	void out(const nytl::Quaternion& q) { out(q.x); out(q.y); out(q.z); out(q.w); }

	template<std::size_t D, typename T> nytl::Vec<D, T> vec(Rng& r) {
		nytl::Vec<D, T> v {};
		for(auto& x : v) x = T(r.real());
		return v;
	}
	template<std::size_t R, std::size_t C, typename T> nytl::Mat<R, C, T> mat(Rng& r) {
		nytl::Mat<R, C, T> m {};
		for(auto i = 0u; i < R; ++i) m[i] = vec<C, T>(r);
		return m;
	}
	nytl::Quaternion quat(Rng& r) {
		return nytl::Quaternion::yxz(r.real(), r.real(), r.real());
	}
	std::u32string text32(Rng& r) {
		std::u32string s;
		auto n = r.below(12);
		for(auto i = 0u; i < n; ++i) {
			switch(r.below(4)) {
				case 0: s += char32_t(r.in('a', 'z')); break;
				case 1: s += char32_t(r.in(0x80, 0x7FF)); break;
				case 2: s += char32_t(r.in(0x800, 0xD7FF)); break;
				case 3: s += char32_t(r.in(0x10000, 0x10FFFF)); break;
			}
		}
		return s;
	}

	void other() { if(hook) { ++inside; hook(); } }

	// what a function of rec_ does when called
	int react(int id, int kind, int arg) {
		out("f"); out(id); out(arg);
		if(kind & 1) other();
		if(depth_ < 2) {
			++depth_;
			auto depth = nytl::ScopeGuard([&] { --depth_; });
			if(kind & 2) for(auto v : rec_->call(arg + 1)) out(v);
			if(kind & 4 && !conns_.empty()) out(rec_->disconnect(conns_[id % conns_.size()].id()));
			if(kind & 8) addRec(kind / 16);
			if(kind & 16) { other(); throw std::runtime_error("boom"); }
		}
		return id * 3 + arg;
	}
	void addRec(int kind) {
		if(ids_ > 40) return;
		auto id = ids_++;
		auto token = std::make_shared<Token>(this, id);
		conns_.push_back(rec_->add([this, id, kind, token](int arg) { return react(id, kind, arg); }));
	}

	void run(unsigned op, Rng& r) {
		switch(op) {
		case 0: addRec(int(r.below(32))); break;
		case 1: for(auto v : rec_->call(r.in(0, 9))) out(v); break;
		case 2: if(!conns_.empty()) out(rec_->disconnect(conns_[r.below(conns_.size())].id())); break;
		case 3: if(r.below(3) == 0) { rec_->clear(); out("cleared"); } break;
		case 4: { // unique connections
			if(r.below(2) && !unique_.empty()) { out("drop"); unique_.erase(unique_.begin() + r.below(unique_.size())); }
			else if(!conns_.empty()) {
				auto i = r.below(conns_.size());
				unique_.emplace_back(conns_[i]);
				conns_.erase(conns_.begin() + i);
				out("own");
			}
			break;
		}
		case 5: {
			auto id = ids_++;
			auto token = std::make_shared<Token>(this, id);
			simpleConns_.push_back(simple_->add([this, id, token](int a) { out("s"); out(id); other(); return a + id; }));
			break;
		}
		case 6: for(auto v : simple_->call(r.in(0, 9))) out(v); break;
		case 7: if(!simpleConns_.empty()) out(simple_->disconnect(simpleConns_[r.below(simpleConns_.size())].id())); break;
		case 8: {
			auto id = ids_++;
			auto token = std::make_shared<Token>(this, id);
			tracked_.push_back(recT_->add([this, id, token](nytl::TrackedConnection c, std::string s) {
				out(s); out(id); other();
				if(s.size() % 3 == 0) c.disconnect();
				out(c.connected());
			}));
			break;
		}
		case 9: recT_->call(std::string(r.below(30), 'x')); for(auto& t : tracked_) out(t.connected()); break;
		case 10: { // scope guards
			try {
				nytl::ScopeGuard a([&] { out("a"); other(); });
				nytl::SuccessGuard b([&] { out("b"); });
				nytl::ExceptionGuard c([&] { out("c"); other(); });
				if(r.below(2)) a.unset();
				if(r.below(2)) throw 3;
			} catch(int) { out("caught"); }
			break;
		}
		case 11: { // clones
			Circle c;
			c.name = std::string(r.below(30), 'n');
			c.parts.resize(r.below(9));
			const Shape& s = c;
			auto x = nytl::clone(s);
			auto y = nytl::cloneMove(*x);
			out(x->text()); out(y->text()); out(c.text());
			Square q;
			q.name = std::to_string(r.next());
			out(nytl::clone(q)->name);
			break;
		}
		case 12: { // buffers
			auto v = std::uint32_t(r.next());
			auto d = r.real();
			nytl::write(buf_, v);
			nytl::write(buf_, d);
			nytl::ReadBuf in(buf_);
			while(in.size() >= 12) {
				out(nytl::read<std::uint32_t>(in));
				double got;
				nytl::read(in, got);
				out(got);
			}
			if(buf_.size() > 100) buf_.clear();
			break;
		}
		case 13: { // unicode
			auto s = text32(r);
			auto u8 = nytl::toUtf8(s);
			auto u16 = nytl::toUtf16(s);
			out(u8);
			out(nytl::charCount(u8));
			out(nytl::toUtf32(u8) == s);
			out(nytl::toUtf8(u16) == u8);
			out(nytl::toUtf32(u16) == s);
			out(nytl::toUtf16(u8) == u16);
			if(!s.empty()) {
				auto i = r.below(s.size());
				out(nytl::nth(u8, i).data());
				std::uint8_t size;
				out(nytl::nth(u8, i, size) != 0);
				out(unsigned(size));
			}
			break;
		}
		case 14: {
			auto f = Bit::a | Bit(1u << r.below(4));
			f ^= ~Bit(1u << r.below(4));
			out(f.value());
			out(bool(f & Bit::c));
			break;
		}
		case 15: {
			auto v = r.real();
			auto e = r.below(2) ? 0.1 : 1e-8;
			out(v == nytl::approx(v + r.real() * 1e-3, e));
			out(vec<3, double>(r) == nytl::approx(vec<3, double>(r), 2.0));
			out(mat<2, 2, double>(r) == nytl::approx(mat<2, 2, double>(r), 3.0));
			break;
		}
		case 16: {
			out(nytl::factorial(unsigned(r.below(21))));
			out(nytl::pair(unsigned(r.below(1000)), unsigned(r.below(1000))));
			out(nytl::unmapUnsigned(nytl::mapUnsigned(r.in(-1000, 1000))));
			out(nytl::mix(r.real(), r.real(), 0.25));
			out(nytl::smoothstep(-2.0, 7.0, r.real()));
			out(nytl::degrees(r.real())); out(nytl::radians(r.real()));
			int store;
			out(nytl::clampStore(float(r.real()), -5.f, 5.f, store)); out(store);
			break;
		}
		case 17: {
			auto a = vec<3, double>(r), b = vec<3, double>(r);
			a[0] += 100; b[1] += 100;
			out(a + b); out(a - b); out(2.0 * a); out(nytl::dot(a, b)); out(nytl::cross(a, b));
			out(nytl::length(a)); out(nytl::distance(a, b)); out(nytl::angle(a, b)); out(nytl::normalized(a));
			out(nytl::mirror(a, b)); out(nytl::sum(a)); out(nytl::multiply(b));
			break;
		}
		case 18: {
			namespace cw = nytl::vec::cw;
			auto a = vec<5, float>(r), b = vec<5, float>(r);
			out(cw::max(a, b)); out(cw::min(a, 1.f)); out(cw::multiply(a, b)); out(cw::abs(a)); out(cw::floor(b));
			out(cw::sqrt(cw::abs(a))); out(cw::pow(cw::abs(a), 2)); out(cw::clamp(a, -3.f, 3.f)); out(cw::sin(a));
			cw::ip::ceil(b);
			out(b);
			break;
		}
		case 19: {
			auto a = mat<3, 4, double>(r);
			auto b = mat<4, 3, double>(r);
			out(a * b); out(b * a); out(nytl::transpose(a)); out(nytl::rowEcholonCopy(a)); out(nytl::reducedRowEcholonCopy(b));
			out(a * vec<4, double>(r)); out(nytl::col(a, r.below(4)));
			nytl::swapRow(a, 0, r.below(3)); nytl::swapCol(a, 1, r.below(4));
			out(a);
			out(nytl::identity<3, int>());
			break;
		}
		case 20: {
			auto a = mat<4, 4, double>(r);
			for(auto i = 0u; i < 4; ++i) a[i][i] += 300;
			auto lu = nytl::luDecomp(a);
			out(lu.lower); out(lu.upper); out(lu.perm); out(lu.sign);
			out(nytl::determinant(a)); out(nytl::determinant(lu)); out(nytl::inverse(a)); out(nytl::invertible(a));
			out(nytl::luEvaluate(lu, vec<4, double>(r)));
			out(nytl::symmetric(a)); out(nytl::trace(a));
			break;
		}
		case 21: {
			auto a = mat<2, 2, int>(r);
			out(nytl::determinant(a)); out(nytl::multiplyDiagonal(a));
			nytl::one(a);
			out(a);
			break;
		}
		case 22: {
			nytl::Rect<2, int> a {vec<2, int>(r), {r.in(0, 60), r.in(0, 60)}}, b {vec<2, int>(r), {r.in(0, 60), r.in(0, 60)}};
			out(nytl::intersects(a, b)); out(nytl::intersectsReal(a, b)); out(nytl::intersection(a, b));
			for(auto& d : nytl::difference(a, b)) out(d);
			out(nytl::size(a)); out(nytl::contains(a, b.position)); out(nytl::containsReal(b, a.position));
			nytl::Rect<3, double> c {vec<3, double>(r), {r.positive(), r.positive(), r.positive()}};
			auto d = c;
			d.position += 0.1 * vec<3, double>(r);
			for(auto& p : nytl::difference(c, d)) out(p);
			out(nytl::center(c));
			break;
		}
		case 23: {
			auto p = quat(r), q = quat(r);
			out(p * q); out(p + q); out(nytl::norm(p)); out(nytl::normalized(q)); out(nytl::conjugated(p));
			out(nytl::apply(q, vec<3, double>(r))); out(nytl::slerp(p, q, 0.3)); out(nytl::dot(p, q));
			out(nytl::toMat<4, double>(q)); out(nytl::Quaternion::fromMat(nytl::toMat<3, double>(p)));
			for(auto a : nytl::eulerAngles(q, nytl::RotationSequence(r.below(12)))) out(a);
			break;
		}
		case 24: {
			out(nytl::scaleMat(vec<3, float>(r))); out(nytl::translateMat(vec<3, double>(r))); out(nytl::rotateMat<3, double>(r.real()));
			out(nytl::rotateMat(nytl::normalized(vec<3, double>(r) + nytl::Vec3d {100., 0., 0.}), r.real()));
			out(nytl::rotate(vec<3, double>(r), nytl::Vec3d {0., 1., 0.}, r.real()));
			auto m = nytl::identity<4, double>();
			nytl::rotate(m, nytl::Vec3d {0., 0., 1.}, r.real());
			nytl::translate(m, vec<3, double>(r));
			nytl::scale(m, vec<3, double>(r));
			out(m);
			out(nytl::multPos(m, vec<3, double>(r)));
			for(auto& b : nytl::base(nytl::normalized(vec<3, double>(r) + nytl::Vec3d {0., 100., 0.}))) out(b);
			break;
		}
		case 25: {
			auto n = r.positive(), f = n + r.positive();
			out(nytl::perspective(0.5 + n / 100, 1.5, n, f)); out(nytl::perspectiveRev(0.5, 1.5, n, f)); out(nytl::perspectiveRevInf(0.5, 1.5, n));
			out(nytl::ortho(-n, f, -2 * n, 3 * f, n, f)); out(nytl::frustum(-n, f, -2 * n, 3 * f, n, f)); out(nytl::frustumRev(-n, f, -2 * n, 3 * f, n, f));
			out(nytl::lookAt(quat(r), vec<3, double>(r)));
			out(nytl::lookAt(vec<3, double>(r) + nytl::Vec3d {100., 0., 0.}, nytl::Vec3d {0., 1., 0.}, nytl::Vec3d {0., 1., 0.}));
			break;
		}
		case 26: { // printing
			std::ostringstream os;
			using namespace nytl;
			os << vec<4, float>(r) << mat<2, 3, int>(r) << Rect<2, int> {vec<2, int>(r), {1, 2}} << mat<2, 2, double>(r);
			{
				using namespace nytl::approxOps;
				os << nytl::approx(r.real());
			}
			nytl::print(os, vec<3, double>(r), "<", ">", "|");
			out(os.str());
			break;
		}
		case 27: { // spans, string params
			std::vector<int> v(r.below(9) + 2);
			for(auto& x : v) x = r.in(0, 99);
			nytl::span<int> s(v);
			out(s.size()); out(s.front()); out(s.back()); out(s.first(1)[0]); out(s.last(2)[0]); out(s == nytl::span<int>(v));
			for(auto b : nytl::as_bytes(nytl::span<const int>(v))) out(int(b));
			std::string text = std::to_string(r.next());
			nytl::StringParam p(text);
			out(p.c_str()); out(nytl::StringParam().c_str()); out(p.size());
			break;
		}
		case 28: {
			nytl::Simplex<3, double, 2> t {};
			for(auto i = 0u; i < 3; ++i) t.points()[i] = vec<3, double>(r);
			auto u = static_cast<nytl::Simplex<2, int, 2>>(t);
			for(auto i = 0u; i < 3; ++i) out(u.points()[i]);
			out(static_cast<nytl::Vec<5, int>>(vec<3, float>(r)));
			out(static_cast<nytl::Mat<2, 2, int>>(mat<2, 2, double>(r)));
			break;
		}
		case 29: { // a failing operation
			out(nytl::nth("ab", 1 + r.below(3)).data());
			simple_->add(std::function<int(int)> {});
			break;
		}
		}
	}
};

// Runs the programs one after the other
std::vector<std::string> alone(const std::vector<std::vector<Step>>& steps) {
	std::vector<std::string> r;
	for(auto& s : steps) {
		Program p(s);
		while(!p.done()) p.step();
		p.finish();
		r.push_back(p.log);
	}
	return r;
}

void compare(pbt::Ctx& c, const std::vector<std::string>& expected, const std::vector<std::string>& got, const char* how) {
	for(std::size_t i = 0; i < expected.size(); ++i) {
		if(expected[i] == got[i]) continue;
		std::size_t k = 0;
		while(k < expected[i].size() && k < got[i].size() && expected[i][k] == got[i][k]) ++k;
		auto from = k > 60 ? k - 60 : 0;
		c.fail(__FILE__, __LINE__, pbt::str("program ", i, " observes something else ", how, ": ...", got[i].substr(from, 160),
			" instead of ...", expected[i].substr(from, 160)));
	}
}

std::vector<std::vector<Step>> programs(pbt::Ctx& c, std::size_t maxCount, std::size_t maxSteps) {
	std::vector<std::vector<Step>> r(2 + c.draw(maxCount - 2));
	// few different operations are more likely to meet
	unsigned some[4];
	auto few = c.boolean();
	for(auto& s : some) s = unsigned(c.draw(opCount - 1));
	for(std::size_t i = 0; i < r.size(); ++i) {
		std::string text;
		while(c.more(r[i].size(), maxSteps, 19, 20)) {
			unsigned op = few ? some[c.draw(3)] : c.chance(1, 2) ? unsigned(c.draw(9)) : unsigned(c.draw(opCount - 1));
			r[i].push_back({op, c.draw(0xFFFFFFFF)});
			text += pbt::str(" ", op, ":", r[i].back().seed);
		}
		c.note("program ", i, ":", text, "; ");
	}
	return r;
}

bool common(const std::vector<std::vector<Step>>& p) {
	for(auto& a : p[0]) for(auto& b : p[1]) if(a.op == b.op && a.seed != b.seed) return true;
	return false;
}

} // namespace

#if PBT_PART == 0
// one step of this, one step of that, also from inside of handlers
FACET(woven, 60000) {
	auto steps = programs(c, 3, 30);
	const auto expected = alone(steps);
	c.nontrivial(common(steps));

	std::vector<std::unique_ptr<Program>> ps;
	for(auto& s : steps) ps.emplace_back(new Program(s));
	auto depth = 0u;
	auto next = [&](bool stop) {
		std::vector<Program*> ready;
		for(auto& p : ps) if(!p->done() && !p->busy()) ready.push_back(p.get());
		if(ready.empty() || (stop && (depth > 2 || !c.chance(2, 3)))) return false;
		++depth;
		ready[c.draw(ready.size() - 1)]->step();
		--depth;
		return true;
	};
	for(auto& p : ps) p->hook = [&] { while(next(true)); };
	while(next(false));
	std::vector<std::string> got;
	auto inside = 0u;
	for(auto& p : ps) {
		p->finish();
		got.push_back(p->log);
		inside += p->inside;
	}
	c.label(inside > 0, "steps from inside of handlers");
	compare(c, expected, got, "when interleaved with others");
	compare(c, expected, alone(steps), "when repeated");
}
#else
// every program in a thread of its own; data races are reported by ThreadSanitizer
FACET(threads, 20000) {
	auto steps = programs(c, 4, 20);
	const auto expected = alone(steps);
	c.nontrivial(common(steps));

	std::vector<std::string> got(steps.size());
	std::vector<std::thread> threads;
	std::atomic<unsigned> waiting {unsigned(steps.size())};
	for(std::size_t i = 0; i < steps.size(); ++i) {
		threads.emplace_back([&, i] {
			Program p(steps[i]);
			--waiting;
			while(waiting.load() > 0) std::this_thread::yield();
			while(!p.done()) p.step();
			p.finish();
			got[i] = p.log;
		});
	}
	for(auto& t : threads) t.join();
	compare(c, expected, got, "when others run in parallel");
}
#endif
