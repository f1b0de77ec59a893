// Interpreter for random programs on one callback whose handlers change and call it again.
//
// The model is the list of registered functions. Starting a call takes a snapshot of it;
// while the call runs, every handler that is executed must be the next one of the snapshot
// of the innermost running call, and at the end of the call the snapshot must be used up
// (or an exception thrown by the last executed handler arrives).
#pragma once

#include "pbt.hpp"
#include "aged.hpp"
#include <nytl/callback.hpp>
#include <nytl/recursiveCallback.hpp>

#include <algorithm>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace cbw {

template<typename CB> struct Traits;
template<template<typename, typename> class C, typename Ret, typename ID>
struct Traits<C<Ret(int), ID>> {
	using R = Ret;
	using Id = ID;
	using Function = std::function<Ret(int)>;
	using Connection = nytl::ConnectionT<nytl::ConnectableT<ID>, ID>;
	using ConnFunction = std::function<Ret(Connection, int)>;
	static constexpr bool recursive =
		std::is_same_v<C<Ret(int), ID>, nytl::RecursiveCallback<Ret(int), ID>>;
};

struct Boom { // thrown by handlers, not derived from std::exception
	int number;
	std::string text;
};

struct Options {
	bool handlerThrows {};
	unsigned maxDepth {4};
	unsigned budget {60};
	unsigned maxOps {25};
	unsigned many {}; // starts with up to that many functions
	unsigned deep {}; // and with calls nested up to that depth
	unsigned worn {}; // after up to that many earlier calls (and registrations, if wornIds)
	bool wornIds {};
	bool aged {}; // huge counters, see aged.hpp
};

// Called by the world at every step
struct Hooks {
	std::function<void(int k)> added = [](int) {};          // function k has been registered
	std::function<void()> beforeAdd = [] {};
	std::function<void(bool outer)> step = [](bool) {};     // after every operation
	std::function<void(bool inside)> state = [](bool) {};   // an outermost call starts or ended
};

template<typename CB>
class World {
public:
	using T = Traits<CB>;
	using R = typename T::R;
	using Connection = typename CB::Connection;
	static constexpr bool recursive = T::recursive;

	struct Active {
		std::vector<int> snapshot;
		std::size_t idx {};
		std::vector<int> results;
		int arg {};
	};

	pbt::Ctx& c;
	Options opt;
	Hooks hooks;
	std::unique_ptr<CB> cb {std::make_unique<CB>()};
	std::vector<Connection> conns;  // k -> connection of function k
	std::vector<std::weak_ptr<std::string>> tokens; // k -> owned by function object k
	std::vector<int> registered;
	std::vector<Active> stack;
	unsigned budget;
	std::size_t maxConns {30};
	unsigned dive {};
	bool quiet {};
	int runs {};
	int booms {};
	std::function<bool()> idThrows; // set: add may throw from the id (returns whether armed)

	// classification
	bool removalInside {}, addInside {}, nestedCall {}, clearInside {}, selfRemoval {};
	bool thrownAfterChange {}, changedInThisCall {};
	bool removedBy[3] {}; // disconnect, clear, assign

	World(pbt::Ctx& ctx, Options o) : c(ctx), opt(o), budget(o.budget) {
		if(opt.aged) cb = aged::make<CB>(c);
	}

	bool isRegistered(int k) const {
		return std::find(registered.begin(), registered.end(), k) != registered.end();
	}

	// body of handler k
	int handler(int k, int arg) {
		if(stack.empty()) {
			EXPECT(!stack.empty(), "function ", k, " was called although no call is running");
			return 0;
		}
		auto level = stack.size();
		{
			auto& a = stack.back();
			if(a.idx >= a.snapshot.size()) {
				EXPECT(false, "function ", k, " was called, expected the end of the call at depth ", level);
			} else {
				EXPECT(a.snapshot[a.idx] == k, "function ", k, " was called, expected ",
					a.snapshot[a.idx], " at depth ", level);
			}
			EXPECT(a.arg == arg, "wrong argument");
			++a.idx;
		}
		auto res = ++runs * 10 + k % 10;
		if(!quiet && !c.failed()) {
			c.note("f", k, "{");
			if(recursive && dive > 0 && stack.size() <= dive) { // one chain of nested calls down to that depth
				if(stack.size() == dive) dive = 0;
				nestedCall = true;
				callMaybeCatch(false);
				hooks.step(false);
			}
			while(budget > 0 && !c.failed() && c.chance(2, 5)) {
				if(!recursive) {
					break;
				}
				--budget;
				operation(k);
				hooks.step(false);
			}
			if(opt.handlerThrows && c.chance(1, 8)) {
				c.note("throw}; ");
				if(changedInThisCall) thrownAfterChange = true;
				throw Boom {++booms, "some text that is long enough for the heap"};
			}
			c.note("}; ");
		}
		EXPECT(stack.size() == level, "unbalanced calls");
		if(stack.size() == level) stack.back().results.push_back(res);
		return res;
	}

	// The function objects own memory they use until the end of the handler.
	struct Fn {
		World* w;
		std::shared_ptr<std::string> shared;
		std::string own;
		int k;

		Fn(World& world, int kk) : w(&world), shared(std::make_shared<std::string>(30, 'x')),
			own(40, static_cast<char>('a' + kk % 26)), k(kk) {}

		R run(int arg) const {
			auto r = w->handler(k, arg);
			for(auto ch : own) if(ch != static_cast<char>('a' + k % 26)) { w->c.fail(__FILE__, __LINE__, "function object destroyed while running"); break; }
			if(shared->size() != 30) w->c.fail(__FILE__, __LINE__, "function object destroyed while running");
			if constexpr(std::is_void_v<R>) (void) r;
			else return r;
		}
	};
	Fn object(int k) {
		Fn f(*this, k);
		tokens.resize(k);
		tokens.push_back(f.shared);
		return f;
	}
	auto fn(int k) {
		return typename T::Function([f = object(k)](int arg) -> R { return f.run(arg); });
	}
	auto connFn(int k) {
		return typename T::ConnFunction([f = object(k)](Connection conn, int arg) -> R {
			auto& w = *f.w;
			auto& c = w.c;
			EXPECT(conn.connectable() == w.cb.get(), "wrong connectable passed to the handler");
			return f.run(arg);
		});
	}

	// Calls the callback and compares with the model. The exception of a handler passes.
	void call(bool outer) {
		auto arg = runs + 1;
		stack.push_back({registered, 0, {}, arg});
		auto depth = stack.size();
		auto useOp = quiet ? false : c.boolean();
		auto expectedBoom = booms;
		if(outer) hooks.state(true);
		try {
			if constexpr(std::is_void_v<R>) {
				if(useOp) (*cb)(arg); else cb->call(arg);
			} else {
				auto res = useOp ? (*cb)(arg) : cb->call(arg);
				REQUIRE(stack.size() == depth, "unbalanced calls");
				EXPECT(std::vector<int>(res.begin(), res.end()) == stack.back().results,
					"returned results differ from what the functions returned");
			}
		} catch(const Boom& b) {
			EXPECT(b.number == booms && booms > expectedBoom &&
				b.text == "some text that is long enough for the heap", "another exception arrived");
			REQUIRE(stack.size() == depth, "unbalanced calls");
			stack.pop_back();
			if(outer) { changedInThisCall = false; hooks.state(false); }
			throw;
		}
		if(stack.size() != depth) {
			EXPECT(stack.size() == depth, "unbalanced calls");
			return;
		}
		auto& a = stack.back();
		if(a.idx < a.snapshot.size())
			EXPECT(false, "function ", a.snapshot[a.idx], " was not called at depth ", depth);
		stack.pop_back();
		if(outer) { changedInThisCall = false; hooks.state(false); }
	}

	// call; the exception may be caught here
	void callMaybeCatch(bool outer) {
		c.note("call(");
		if(!opt.handlerThrows) {
			call(outer);
			c.note("); ");
			return;
		}
		auto catches = outer || c.chance(1, 2);
		if(!catches) {
			call(outer);
			c.note("); ");
			return;
		}
		try {
			call(outer);
		} catch(const Boom&) {
			c.note("caught ");
		}
		c.note("); ");
	}

	void add(bool assign) {
		auto k = static_cast<int>(conns.size());
		auto how = c.draw(recursive ? 3 : 1);
		c.note(assign ? "assign f" : "add f", k, "; ");
		hooks.beforeAdd();
		auto armed = !assign && idThrows && idThrows();
		bool thrown = false;
		if(assign) {
			if(!registered.empty()) removedBy[2] = true;
			registered.clear(); // the assignment clears first
		}
		Connection conn;
		try {
			if constexpr(recursive) {
				if(how == 2) conn = assign ? (*cb = connFn(k)) : cb->add(connFn(k));
				if(how == 3) conn = assign ? (*cb = connFn(k)) : (*cb += connFn(k));
			}
			if(how == 0) conn = assign ? (*cb = fn(k)) : cb->add(fn(k));
			if(how == 1) conn = assign ? (*cb = fn(k)) : (*cb += fn(k));
		} catch(int) {
			c.note("id throws; ");
			thrown = true;
		}
		EXPECT(thrown == armed, "exception of the id did not arrive");
		if(thrown) return;
		EXPECT(conn.connected(), "new connection is not connected");
		conns.push_back(conn);
		registered.push_back(k);
		hooks.added(k);
		if(!stack.empty()) { addInside = true; changedInThisCall = true; }
	}

	void disconnect(int k, int self) {
		auto was = isRegistered(k);
		if(!stack.empty() && was) {
			removalInside = true;
			changedInThisCall = true;
			if(k == self) selfRemoval = true;
		}
		if(was) removedBy[0] = true;
		registered.erase(std::remove(registered.begin(), registered.end(), k), registered.end());
		if(c.boolean()) {
			c.note("conn", k, ".disconnect; ");
			auto conn = conns[k];
			conn.disconnect();
			EXPECT(!conn.connected(), "connected after disconnect");
		} else {
			c.note("disconnect id of f", k, "; ");
			auto r = cb->disconnect(conns[k].id());
			EXPECT(r == was, "disconnect of ", was ? "registered" : "removed", " function ", k,
				" returned ", r);
		}
	}

	// one random operation; self: function inside of which we are or -1
	void operation(int self) {
		auto inside = self >= 0;
		switch(c.weighted({4, 3, 3, 2, 1, 1, 1})) {
			case 0:
				if(conns.size() < maxConns) add(false);
				break;
			case 1:
				if(stack.size() >= opt.maxDepth) break;
				if(inside) nestedCall = true;
				callMaybeCatch(!inside);
				break;
			case 2: // any function, also removed ones
				if(!conns.empty()) disconnect(static_cast<int>(c.draw(conns.size() - 1)), self);
				break;
			case 3: // a registered one
				if(!registered.empty()) disconnect(registered[c.draw(registered.size() - 1)], self);
				break;
			case 4: // itself
				if(inside) disconnect(self, self);
				break;
			case 5:
				c.note("clear; ");
				if(!registered.empty()) {
					removedBy[1] = true;
					if(inside) clearInside = changedInThisCall = true;
				}
				registered.clear();
				cb->clear();
				break;
			case 6:
				if(conns.size() < maxConns) add(true);
				break;
		}
	}

	// Outside of calls exactly the registered functions exist.
	void alive() {
		if(!stack.empty() || c.failed()) return;
		for(auto k = 0u; k < conns.size() && k < tokens.size(); ++k) {
			auto is = isRegistered(static_cast<int>(k));
			EXPECT(tokens[k].expired() != is, "function object ", k, is ? " was destroyed although it is registered" :
				" still exists although it was removed");
		}
	}

	// a whole program
	void run() {
		if(opt.many) {
			auto n = c.size(opt.many);
			c.note(n, " functions; ");
			for(auto i = 0u; i < n; ++i) add(false);
			maxConns = conns.size() + 30;
			opt.maxDepth = std::min(opt.maxDepth, 3u);
			budget = opt.budget;
		} else {
			for(auto n = c.draw(4); n > 0; --n) add(false);
		}
		if(opt.worn) {
			auto calls = c.size(opt.worn), ids = opt.wornIds ? c.size(opt.worn) : 0;
			auto first = c.boolean();
			c.note("after ", calls, " calls and ", ids, " other registrations; ");
			quiet = true;
			auto use = [&] {
				for(auto i = 0u; i < calls && !c.failed(); ++i) call(true);
			};
			if(first) use();
			for(auto i = 0u; i < ids && !c.failed(); ++i) {
				typename T::Function f = [](int) -> R { if constexpr(!std::is_void_v<R>) return R {}; };
				auto conn = cb->add(f);
				EXPECT(conn.connected(), "new connection ", i, " is not connected");
				EXPECT(cb->disconnect(conn.id()), "new connection ", i, " can not be disconnected");
			}
			if(!first) use();
			quiet = false;
		}
		if(opt.deep) {
			dive = static_cast<unsigned>(c.size(opt.deep));
			opt.maxDepth = std::max(opt.maxDepth, dive + 3);
		}
		for(unsigned n = 0; c.more(n, opt.maxOps, 12, 13) && !c.failed(); ++n) {
			operation(-1);
			alive();
			hooks.step(true);
			if(c.failed()) break;
			if(c.chance(1, 2)) { // handlers do nothing: which functions are there?
				quiet = true;
				call(true);
				quiet = false;
				hooks.step(true);
			}
			budget = std::max(budget, 15u);
		}
		if(c.failed()) return;
		quiet = true;
		call(true);
		hooks.step(true);
		quiet = false;
		c.label(nestedCall, "nested call");
		c.label(removalInside, "removal inside a handler");
		c.label(clearInside, "clear inside a handler");
		c.label(addInside, "add inside a handler");
		c.label(selfRemoval, "handler removed itself");
		c.label(booms > 0, "a handler threw");
		c.label(thrownAfterChange, "thrown after changes in the same call");
	}
};

} // namespace cbw
