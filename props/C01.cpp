// C01: histories of operations from outside of handlers against a list model.
#include "pbt.hpp"
#include "aged.hpp"
#include <nytl/callback.hpp>
#include <nytl/recursiveCallback.hpp>

#include <memory>

namespace {

template<typename CB> struct IsRecursive : std::false_type {};
template<typename S, typename I> struct IsRecursive<nytl::RecursiveCallback<S, I>> : std::true_type {};

template<typename CB> struct Sig;
template<template<typename, typename> class C, typename Ret, typename... Args, typename ID>
struct Sig<C<Ret(Args...), ID>> {
	using R = Ret;
	using Function = std::function<Ret(Args...)>;
	using Connection = nytl::ConnectionT<nytl::ConnectableT<ID>, ID>;
	using ConnFunction = std::function<Ret(Connection, Args...)>;
};

// produces and checks results of the callback's result type
template<typename R> struct Result {
	static R make(int k) { return R(k); }
	static bool is(const R& r, int k) { return r == R(k); }
};
template<> struct Result<std::string> {
	static std::string make(int k) { return "result with some more characters " + std::to_string(k); }
	static bool is(const std::string& r, int k) { return r == make(k); }
};
template<> struct Result<std::unique_ptr<int>> {
	static std::unique_ptr<int> make(int k) { return std::make_unique<int>(k); }
	static bool is(const std::unique_ptr<int>& r, int k) { return r && *r == k; }
};
template<> struct Result<bool> {
	static bool make(int k) { return k % 3 == 0; }
	static bool is(bool r, int k) { return r == make(k); }
};

// many: starts with up to that many functions (and some ids already used up)
template<typename CB>
void history(pbt::Ctx& c, unsigned many = 0, unsigned worn = 0, bool old = false) {
	using S = Sig<CB>;
	using R = typename S::R;
	using Connection = typename CB::Connection;
	constexpr bool recursive = IsRecursive<CB>::value;
	static_assert(std::is_same_v<Connection, typename S::Connection>);

	std::vector<int> log;
	std::vector<std::pair<Connection, int>> conns; // all connections ever returned, with function
	std::vector<int> registered;           // the model: functions in order
	std::vector<bool> removedFrom;
	int next = 0;
	bool removedSome = false, callAfterRemoval = false;

	auto isRegistered = [&](int k) {
		for(auto x : registered) if(x == k) return true;
		return false;
	};
	auto modelRemove = [&](int k) {
		for(auto it = registered.begin(); it != registered.end(); ++it)
			if(*it == k) { registered.erase(it); removedSome = true; return; }
	};

	auto object = old ? aged::make<CB>(c) : std::make_unique<CB>();
	auto& cb = *object;
	auto fn = [&](int k) {
		return typename S::Function([&log, k](int arg) -> R {
			log.push_back(k * 100 + arg);
			if constexpr(!std::is_void_v<R>) return Result<R>::make(k * 100 + arg);
		});
	};
	auto connFn = [&](int k) {
		return typename S::ConnFunction([&log, k](Connection, int arg) -> R {
			log.push_back(k * 100 + arg);
			if constexpr(!std::is_void_v<R>) return Result<R>::make(k * 100 + arg);
		});
	};
	auto check = [&](int arg, bool op) {
		log.clear();
		std::vector<int> expected;
		for(auto k : registered) expected.push_back(k * 100 + arg);
		if constexpr(std::is_void_v<R>) {
			if(op) cb(arg); else cb.call(arg);
		} else {
			auto res = op ? cb(arg) : cb.call(arg);
			EXPECT(res.size() == expected.size(), "got ", res.size(), " results, expected ", expected.size());
			for(std::size_t i = 0; i < expected.size() && i < res.size(); ++i)
				EXPECT(Result<R>::is(res[i], expected[i]), "result ", i, " is wrong");
		}
		if(log != expected) {
			std::string a, b;
			for(auto x : log) a += " " + std::to_string(x / 100);
			for(auto x : expected) b += " " + std::to_string(x / 100);
			EXPECT(log == expected, "called:", a, ", registered:", b);
		}
		if(removedSome && !registered.empty()) callAfterRemoval = true;
	};

	if(many) {
		auto used = c.size(worn ? worn : many), count = c.size(many);
		c.note(used, " added and removed, ", count, " added; ");
		for(auto i = 0u; i < used; ++i) {
			auto conn = cb.add(fn(next++));
			EXPECT(conn.connected(), "new connection not connected");
			EXPECT(cb.disconnect(conn.id()), "disconnect of the last function returned false");
			if(i % (worn ? 997 : 16) == 0) conns.emplace_back(conn, next - 1);
		}
		for(auto i = 0u; i < count; ++i) {
			registered.push_back(next);
			auto conn = cb.add(fn(next++));
			EXPECT(conn.connected() && conn.connectable() == &cb, "new connection not connected");
			conns.emplace_back(conn, next - 1);
		}
		check(3, false);
	}
	auto max = c.chance(1, 4) ? 40u : 14u;
	for(std::size_t n = 0; c.more(n, max, 19, 20) && !c.failed(); ++n) {
		switch(c.weighted({8, 3, 6, 3, 2, 2, 1, 1})) {
			case 0: { // add
				auto k = next++;
				auto how = c.draw(recursive ? 4 : 2);
				c.note("f", k, " = add(", how, "); ");
				Connection conn;
				if(how == 0) conn = cb.add(fn(k));
				else if(how == 1) conn = (cb += fn(k));
				else if(how == 2) { auto f = fn(k); conn = (cb += f); }
				if constexpr(recursive) {
					if(how == 3) conn = cb.add(connFn(k));
					else if(how == 4) conn = (cb += connFn(k));
				}
				registered.push_back(k);
				EXPECT(conn.connected(), "connection of f", k, " is not connected");
				EXPECT(conn.connectable() == &cb, "wrong connectable");
				conns.emplace_back(conn, k);
				break;
			}
			case 1: { // call
				auto arg = static_cast<int>(c.draw(9));
				c.note("call(", arg, "); ");
				check(arg, c.boolean());
				break;
			}
			case 2: { // disconnect by id
				if(conns.empty()) break;
				auto& e = c.pickFrom(conns);
				if(!e.first.connectable()) break;
				auto was = isRegistered(e.second);
				c.note("disconnect id of f", e.second, "; ");
				auto r = cb.disconnect(e.first.id());
				EXPECT(r == was, "disconnect of f", e.second, " returned ", r);
				modelRemove(e.second);
				break;
			}
			case 3: { // disconnect by connection
				if(conns.empty()) break;
				auto& e = c.pickFrom(conns);
				c.note("disconnect connection of f", e.second, "; ");
				e.first.disconnect();
				EXPECT(!e.first.connected(), "still connected after disconnect");
				modelRemove(e.second);
				break;
			}
			case 4: { // disconnect the n-th registered function
				if(registered.empty()) break;
				auto k = registered[c.draw(registered.size() - 1)];
				for(auto& e : conns) {
					if(e.second != k || !e.first.connectable()) continue;
					c.note("disconnect registered f", k, "; ");
					auto r = cb.disconnect(e.first.id());
					EXPECT(r, "disconnect of registered f", k, " returned false");
					modelRemove(k);
					break;
				}
				break;
			}
			case 5: { // empty functions
				c.note("add empty; ");
				bool thrown = false;
				auto how = c.draw(recursive ? 3 : 1);
				try {
					if(how == 0) cb.add(typename S::Function {});
					else if(how == 1) cb += typename S::Function {};
					if constexpr(recursive) {
						if(how == 2) cb.add(typename S::ConnFunction {});
						else if(how == 3) cb += typename S::ConnFunction {};
					}
				} catch(const std::invalid_argument&) {
					thrown = true;
				}
				EXPECT(thrown, "no std::invalid_argument for an empty function");
				break;
			}
			case 6: { // assign
				auto k = next++;
				auto how = c.draw(recursive ? 1 : 0);
				c.note("f", k, " = assign(", how, "); ");
				Connection conn;
				if(how == 0) conn = (cb = fn(k));
				if constexpr(recursive) if(how == 1) conn = (cb = connFn(k));
				if(!registered.empty()) removedSome = true;
				registered.assign(1, k);
				EXPECT(conn.connected(), "connection of f", k, " is not connected");
				conns.emplace_back(conn, k);
				break;
			}
			case 7:
				c.note("clear; ");
				if(!registered.empty()) removedSome = true;
				cb.clear();
				registered.clear();
				break;
		}
		if(c.chance(1, 2)) check(1, false);
	}
	check(2, true);
	c.nontrivial(callAfterRemoval);
	c.label(registered.size() > 3, "more than 3 registered at the end");
	c.label(removedSome, "some removed");
	c.label(next > 10, "more than 10 added");
}

} // namespace

FACET(callback_void, 60000) { history<nytl::Callback<void(int)>>(c); }
FACET(callback_int, 40000) { history<nytl::Callback<int(int)>>(c); }
FACET(tracked_void, 60000) { history<nytl::TrackedCallback<void(int)>>(c); }
FACET(tracked_string, 30000) { history<nytl::TrackedCallback<std::string(int)>>(c); }
FACET(recursive_void, 60000) { history<nytl::RecursiveCallback<void(int)>>(c); }
FACET(recursive_int, 40000) { history<nytl::RecursiveCallback<int(int)>>(c); }
FACET(recursive_tracked_void, 60000) { history<nytl::TrackedRecursiveCallback<void(int)>>(c); }
FACET(recursive_tracked_string, 30000) { history<nytl::TrackedRecursiveCallback<std::string(int)>>(c); }
FACET(recursive_moveonly, 20000) { history<nytl::RecursiveCallback<std::unique_ptr<int>(int)>>(c); }
FACET(callback_moveonly, 20000) { history<nytl::Callback<std::unique_ptr<int>(int)>>(c); }
FACET(many_void, 4000) { history<nytl::Callback<void(int)>>(c, 300); }
FACET(many_int, 4000) { history<nytl::Callback<int(int)>>(c, 300); }
FACET(many_tracked, 4000) { history<nytl::TrackedCallback<std::string(int)>>(c, 300); }
FACET(many_recursive_void, 4000) { history<nytl::RecursiveCallback<void(int)>>(c, 300); }
FACET(many_recursive_int, 4000) { history<nytl::RecursiveCallback<int(int)>>(c, 300); }
FACET(many_recursive_tracked, 4000) { history<nytl::TrackedRecursiveCallback<int(int)>>(c, 300); }
FACET(recursive_bool, 20000) { history<nytl::RecursiveCallback<bool(int)>>(c); }
FACET(worn_void, 300) { history<nytl::Callback<void(int)>>(c, 300, 70000); }
FACET(worn_tracked, 300) { history<nytl::TrackedCallback<void(int)>>(c, 300, 70000); }
FACET(worn_recursive_void, 300) { history<nytl::RecursiveCallback<void(int)>>(c, 300, 70000); }
FACET(aged_void, 20000) { history<nytl::Callback<void(int)>>(c, 0, 0, true); }
FACET(aged_tracked, 15000) { history<nytl::TrackedCallback<int(int)>>(c, 0, 0, true); }
FACET(aged_recursive_void, 20000) { history<nytl::RecursiveCallback<void(int)>>(c, 0, 0, true); }
FACET(aged_recursive_tracked, 15000) { history<nytl::TrackedRecursiveCallback<int(int)>>(c, 0, 0, true); }
