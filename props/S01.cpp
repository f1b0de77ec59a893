// S01: random scope trees, executed with real guards and by a reference interpreter.
#include "pbt.hpp"
#include <nytl/scope.hpp>

#include <functional>
#include <memory>
#include <optional>
#include <stdexcept>

namespace {

enum class K { event, guard, throwing, tryCatch, unwindObject, ret, unset, call };

struct Stmt {
	K kind {};
	int id {};
	int flavor {};      // guard: kind, try: rethrow, throw: type
	bool lvalue {};     // guard: from an lvalue that is replaced afterwards
	std::vector<Stmt> a, b;
};
using Block = std::vector<Stmt>;

struct Gen {
	pbt::Ctx& c;
	int nextId {};
	int budget {40};

	Block block(int depth) {
		Block r;
		while(budget > 0 && c.more(r.size(), 7, 5, 7)) {
			--budget;
			Stmt s;
			s.id = ++nextId;
			switch(depth <= 0 ? c.weighted({2, 0, 2, 0, 0, 1, 1, 0}) : c.weighted({2, 9, 1, 4, 3, 1, 2, 1})) {
				case 0: s.kind = K::event; c.note("e", s.id, " "); break;
				case 1:
					s.kind = K::guard;
					s.flavor = static_cast<int>(c.draw(2));
					s.lvalue = c.chance(1, 3);
					c.note(s.flavor == 0 ? "scope" : s.flavor == 1 ? "success" : "exception", s.lvalue ? "&" : "", s.id);
					if(c.chance(1, 3)) {
						c.note("[");
						s.a = block(depth - 1);
						c.note("]");
					}
					c.note(" ");
					break;
				case 2: s.kind = K::throwing; s.flavor = static_cast<int>(c.draw(2)); c.note("throw", s.id, " "); break;
				case 3:
					s.kind = K::tryCatch;
					s.flavor = c.chance(1, 3);
					c.note("try", s.id, "{ ");
					s.a = block(depth - 1);
					c.note("} catch { ");
					s.b = c.boolean() ? block(depth - 1) : Block {};
					c.note(s.flavor ? "rethrow } " : "} ");
					break;
				case 4:
					s.kind = K::unwindObject;
					c.note("object", s.id, "[");
					s.a = block(depth - 1);
					c.note("] ");
					break;
				case 5: s.kind = K::ret; c.note("return "); break;
				case 6: s.kind = K::unset; s.flavor = static_cast<int>(c.draw(3)); c.note("unset", s.flavor, " "); break;
				case 7:
					s.kind = K::call;
					c.note("{ ");
					s.a = block(depth - 1);
					c.note("} ");
					break;
			}
			r.push_back(std::move(s));
			if(r.back().kind == K::throwing || r.back().kind == K::ret) break;
		}
		if(budget > 0 && c.chance(1, 3) && (r.empty() || (r.back().kind != K::throwing && r.back().kind != K::ret))) {
			Stmt s;
			s.kind = K::throwing;
			s.id = ++nextId;
			s.flavor = static_cast<int>(c.draw(2));
			c.note("throw", s.id, " ");
			r.push_back(s);
		}
		return r;
	}
};

// - the real thing -
struct CustomError { int id; };

struct Real {
	std::vector<int> log;
	std::vector<std::function<void()>> unsets; // of the living guards, innermost last

	void guardFn(int id, const Block& body) {
		log.push_back(id);
		auto saved = std::move(unsets); // guards outside cannot be unset from here
		unsets.clear();
		struct Restore {
			std::vector<std::function<void()>>& to; std::vector<std::function<void()>> from;
			~Restore() { to = std::move(from); }
		} restore {unsets, std::move(saved)};
		exec(body, 0);
	}

	template<typename G> void rest(G& g, const Block& b, std::size_t i) {
		unsets.push_back([&g] { g.unset(); });
		struct Pop { std::vector<std::function<void()>>& v; ~Pop() { v.pop_back(); } } pop {unsets};
		exec(b, i);
	}

	void exec(const Block& b, std::size_t i) {
		for(; i < b.size(); ++i) {
			auto& s = b[i];
			switch(s.kind) {
				case K::event: log.push_back(s.id); break;
				case K::guard: {
					if(s.lvalue) {
						std::function<void()> f = [&] { log.push_back(-1); };
						auto replace = [&] { f = [&] { guardFn(s.id, s.a); }; };
						if(s.flavor == 0) { nytl::ScopeGuard g(f); replace(); rest(g, b, i + 1); }
						else if(s.flavor == 1) { nytl::SuccessGuard g(f); replace(); rest(g, b, i + 1); }
						else { nytl::ExceptionGuard g(f); replace(); rest(g, b, i + 1); }
					} else {
						if(s.flavor == 0) { nytl::ScopeGuard g([&] { guardFn(s.id, s.a); }); rest(g, b, i + 1); }
						else if(s.flavor == 1) { nytl::SuccessGuard g([&] { guardFn(s.id, s.a); }); rest(g, b, i + 1); }
						else { nytl::ExceptionGuard g([&, own = std::make_unique<int>(s.id)] { guardFn(*own, s.a); }); rest(g, b, i + 1); }
					}
					return;
				}
				case K::throwing:
					log.push_back(s.id);
					if(s.flavor == 0) throw std::runtime_error("error");
					if(s.flavor == 1) throw s.id;
					throw CustomError {s.id};
				case K::tryCatch:
					try {
						exec(s.a, 0);
					} catch(...) {
						log.push_back(s.id);
						exec(s.b, 0);
						if(s.flavor) throw;
					}
					break;
				case K::unwindObject: {
					struct Object {
						Real& r; const Stmt& s;
						~Object() {
							r.log.push_back(s.id);
							auto saved = std::move(r.unsets);
							r.unsets.clear();
							try { r.exec(s.a, 0); } catch(...) { r.log.push_back(-s.id); }
							r.unsets = std::move(saved);
						}
					} object {*this, s};
					exec(b, i + 1);
					return;
				}
				case K::ret: return;
				case K::unset:
					if(!unsets.empty()) unsets[unsets.size() - 1 - s.flavor % unsets.size()]();
					break;
				case K::call: exec(s.a, 0); break;
			}
		}
	}
};

// - the reference: exceptions are plain return values -
struct Model {
	std::vector<int> log;
	std::vector<bool*> unsets;
	bool guardSawException {}, guardInUnwinding {};
	int unwinding {};

	// returns whether an exception leaves the block
	bool isolated(const Block& b) {
		auto saved = std::move(unsets);
		unsets.clear();
		auto r = exec(b, 0);
		unsets = std::move(saved);
		return r;
	}

	bool exec(const Block& b, std::size_t i) {
		for(; i < b.size(); ++i) {
			auto& s = b[i];
			switch(s.kind) {
				case K::event: log.push_back(s.id); break;
				case K::guard: {
					if(unwinding) guardInUnwinding = true;
					bool active = true;
					unsets.push_back(&active);
					auto thrown = exec(b, i + 1);
					unsets.pop_back();
					if(thrown) guardSawException = true;
					if(active && (s.flavor == 0 || (s.flavor == 1) == !thrown)) {
						log.push_back(s.id);
						unwinding += thrown;
						isolated(s.a);
						unwinding -= thrown;
					}
					return thrown;
				}
				case K::throwing:
					log.push_back(s.id);
					return true;
				case K::tryCatch:
					if(exec(s.a, 0)) {
						log.push_back(s.id);
						if(exec(s.b, 0) || s.flavor) return true;
					}
					break;
				case K::unwindObject: {
					auto thrown = exec(b, i + 1);
					log.push_back(s.id);
					unwinding += thrown;
					if(isolated(s.a)) log.push_back(-s.id);
					unwinding -= thrown;
					return thrown;
				}
				case K::ret: return false;
				case K::unset:
					if(!unsets.empty()) *unsets[unsets.size() - 1 - s.flavor % unsets.size()] = false;
					break;
				case K::call: if(exec(s.a, 0)) return true; break;
			}
		}
		return false;
	}
};

void tree(pbt::Ctx& c, int depth, int budget) {
	Gen gen {c, 0, budget};
	auto b = gen.block(depth);
	Model m;
	auto expected = m.exec(b, 0);
	Real r;
	bool thrown = false;
	try { r.exec(b, 0); } catch(...) { thrown = true; }
	EXPECT(thrown == expected, "exception left: ", thrown, ", expected: ", expected);
	if(r.log != m.log) {
		std::string got, exp;
		for(auto x : r.log) got += " " + std::to_string(x);
		for(auto x : m.log) exp += " " + std::to_string(x);
		EXPECT(false, "executed:", got, ", expected:", exp);
	}
	c.nontrivial(m.guardSawException || m.guardInUnwinding);
	c.label(m.guardSawException, "an exception passed a guard");
	c.label(m.guardInUnwinding, "guard created while unwinding");
}

} // namespace

FACET(small, 80000) { tree(c, 2, 10); }
FACET(big, 120000) { tree(c, 4, 40); }

// Guards in dynamic storage and of several function types
FACET(objects, 30000) {
	int runs = 0;
	std::vector<std::unique_ptr<nytl::ScopeGuard<std::function<void()>>>> guards;
	auto n = c.range(1, 6);
	int expected = 0;
	c.note(n, " guards:");
	for(auto i = 0; i < n; ++i) {
		guards.push_back(std::make_unique<nytl::ScopeGuard<std::function<void()>>>([&runs] { ++runs; }));
		if(c.chance(1, 3)) {
			guards.back()->unset();
			if(c.boolean()) guards.back()->unset();
			c.note(" unset");
		} else {
			c.note(" set");
			++expected;
		}
	}
	EXPECT(runs == 0, "function was run before the guard was destroyed");
	struct Counter {
		int calls {};
		void operator()() { ++calls; }
	} counter;
	struct ConstCounter {
		int* calls;
		void operator()() const { ++*calls; }
	};
	int constCalls = 0;
	const ConstCounter constCounter {&constCalls};
	auto how = c.draw(3);
	{
		nytl::ScopeGuard a(counter);
		nytl::SuccessGuard b(counter);
		nytl::ExceptionGuard d(counter);
		nytl::ScopeGuard e(constCounter);
		if(how & 1) a.unset();
		if(how & 2) b.unset();
		guards.clear();
	}
	EXPECT(runs == expected, runs, " functions were run, expected ", expected);
	EXPECT(counter.calls == !(how & 1) + !(how & 2), "lvalue function ran ", counter.calls, " times");
	EXPECT(constCalls == 1, "constant function ran ", constCalls, " times");
	c.nontrivial(expected != n);
}

namespace {

// runs f while the given number of exceptions is being processed
void whileUnwinding(int depth, const std::function<void()>& f) {
	if(depth == 0) { f(); return; }
	struct Inner {
		int depth;
		const std::function<void()>& f;
		~Inner() { whileUnwinding(depth - 1, f); }
	};
	try {
		Inner i {depth, f};
		throw depth;
	} catch(int) {}
}

// Guards made, unset and destroyed while different numbers of exceptions are processed
template<typename G> void unsetAnywhere(pbt::Ctx& c) {
	std::optional<G> guard;
	int runs = 0;
	auto made = static_cast<int>(c.draw(3)), unset = static_cast<int>(c.draw(3)), destroyed = static_cast<int>(c.draw(3));
	auto twice = c.boolean();
	c.note("made at ", made, ", unset at ", unset, ", destroyed at ", destroyed, " exceptions");
	whileUnwinding(made, [&] { guard.emplace([&runs] { ++runs; }); });
	EXPECT(runs == 0, "function was run before the guard was destroyed");
	whileUnwinding(unset, [&] { guard->unset(); if(twice) guard->unset(); });
	whileUnwinding(destroyed, [&] { guard.reset(); });
	EXPECT(runs == 0, "function of an unset guard was run");
	c.nontrivial(made != unset || unset != destroyed);
}

// A guard that is destroyed while other exceptions are processed than when it was made. If there
// are no more of them than at the beginning its scope was left without one, otherwise it is being
// destroyed by at least one of the exceptions that were added.
template<typename G> void lifeAnywhere(pbt::Ctx& c, bool onSuccess, bool onException) {
	std::optional<G> guard;
	int runs = 0;
	auto made = static_cast<int>(c.draw(3)), destroyed = static_cast<int>(c.draw(made + 3));
	c.note("made at ", made, ", destroyed at ", destroyed, " exceptions");
	whileUnwinding(made, [&] { guard.emplace([&runs] { ++runs; }); });
	EXPECT(runs == 0, "function was run before the guard was destroyed");
	whileUnwinding(destroyed, [&] { guard.reset(); });
	auto expected = destroyed > made ? onException : onSuccess;
	EXPECT(runs == expected, "function was run ", runs, " times instead of ", expected);
	c.nontrivial(made != destroyed);
}

} // namespace

FACET(life_anywhere, 6000) {
	using F = std::function<void()>;
	switch(c.draw(2)) {
		case 0: lifeAnywhere<nytl::ScopeGuard<F>>(c, true, true); break;
		case 1: lifeAnywhere<nytl::SuccessGuard<F>>(c, true, false); break;
		case 2: lifeAnywhere<nytl::ExceptionGuard<F>>(c, false, true); break;
	}
}
FACET(unset_anywhere, 6000) {
	using F = std::function<void()>;
	switch(c.draw(2)) {
		case 0: unsetAnywhere<nytl::ScopeGuard<F>>(c); break;
		case 1: unsetAnywhere<nytl::SuccessGuard<F>>(c); break;
		case 2: unsetAnywhere<nytl::ExceptionGuard<F>>(c); break;
	}
}
