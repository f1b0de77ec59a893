// C07: the handlers' view of the arguments of a call.
#include "pbt.hpp"
#include <nytl/callback.hpp>
#include <nytl/recursiveCallback.hpp>

#include <map>
#include <memory>
#include <type_traits>

namespace {

template<typename CB> constexpr bool isRecursive = false;
template<typename S, typename I> constexpr bool isRecursive<nytl::RecursiveCallback<S, I>> = true;

std::string text(pbt::Ctx& c) {
	std::string s;
	auto len = c.weighted({2, 3, 3}) == 0 ? 0 : c.range(1, c.boolean() ? 60 : 8);
	for(auto i = 0; i < len; ++i) s += static_cast<char>('a' + c.draw(25));
	return s;
}

std::vector<int> ints(pbt::Ctx& c) {
	std::vector<int> v;
	for(auto n = c.draw(6); n > 0; --n) v.push_back(static_cast<int>(c.sym(1000)));
	return v;
}

// by value: string, vector, shared_ptr and number
template<template<typename, typename> class C, typename ID>
void byValue(pbt::Ctx& c) {
	using CB = C<std::string(std::string, std::vector<int>, std::shared_ptr<int>, double), ID>;
	using Conn = typename CB::Connection;
	CB cb;
	auto s = text(c);
	auto v = ints(c);
	auto p = std::make_shared<int>(static_cast<int>(c.sym(50)));
	auto d = c.real(-10, 10);
	auto n = static_cast<long long>(c.chance(1, 10) ? 1 + c.size(80) : c.range(1, 5));
	std::vector<std::string> expected;
	int called = 0;
	auto sCopy = s;
	auto vCopy = v;
	c.note("s='", s, "' ints=", v.size(), " handlers:");

	auto check = [&](int k, const std::string& hs, const std::vector<int>& hv, const std::shared_ptr<int>& hp, double hd) {
		++called;
		EXPECT(hs == sCopy, "handler ", k, " got '", hs, "' instead of '", sCopy, "'");
		EXPECT(hv == vCopy, "handler ", k, " got another vector");
		EXPECT(hp == p, "handler ", k, " got another pointer");
		EXPECT(hd == d, "handler ", k, " got another number");
	};
	for(auto k = 0; k < n; ++k) {
		auto kind = c.draw(isRecursive<CB> ? 4 : 3);
		c.note(" ", kind);
		expected.push_back(s + std::to_string(k));
		switch(kind) {
			case 0: // only looks
				cb += [&, k](const std::string& hs, const std::vector<int>& hv, const std::shared_ptr<int>& hp, double hd) {
					check(k, hs, hv, hp, hd);
					return hs + std::to_string(k);
				};
				break;
			case 1: // modifies its own parameters
				cb += [&, k](std::string hs, std::vector<int> hv, std::shared_ptr<int> hp, double hd) {
					check(k, hs, hv, hp, hd);
					auto r = hs + std::to_string(k);
					hs = "changed";
					hv.push_back(1);
					hp.reset();
					return r;
				};
				break;
			case 2: // takes them over
				cb += [&, k](std::string&& hs, std::vector<int>&& hv, std::shared_ptr<int>&& hp, double hd) {
					check(k, hs, hv, hp, hd);
					auto taken = std::move(hv);
					auto takenP = std::move(hp);
					return std::move(hs) + std::to_string(k);
				};
				break;
			case 3: // generic
				cb.add(std::function<std::string(std::string, std::vector<int>, std::shared_ptr<int>, double)>(
					[&, k](auto hs, auto hv, auto hp, auto hd) {
						check(k, hs, hv, hp, hd);
						auto r = std::move(hs);
						return r + std::to_string(k);
					}));
				break;
			case 4: // with connection
				if constexpr(isRecursive<CB>) {
					auto idp = std::make_shared<Conn>();
					*idp = cb.add(std::function<std::string(Conn, std::string, std::vector<int>, std::shared_ptr<int>, double)>(
						[&, k, idp](Conn conn, std::string hs, std::vector<int> hv, std::shared_ptr<int> hp, double hd) {
							check(k, hs, hv, hp, hd);
							EXPECT(conn.connected(), "own connection is not connected");
							EXPECT(conn.connectable() == idp->connectable(), "own connection has another callback");
							EXPECT(conn.id().get() == idp->id().get(), "own connection has another id");
							return std::move(hs) + std::to_string(k);
						}));
				}
				break;
		}
	}
	auto how = c.draw(3);
	std::vector<std::string> res;
	if(how == 0) res = cb(s, v, p, d);
	else if(how == 1) res = cb.call(s, v, p, d);
	else if(how == 2) {
		auto s2 = s;
		auto v2 = v;
		res = cb(std::move(s2), std::move(v2), std::shared_ptr<int>(p), +d);
	} else {
		auto s2 = s;
		auto v2 = v;
		res = cb.call(std::move(s2), std::move(v2), std::shared_ptr<int>(p), +d);
	}
	EXPECT(called == n, called, " handlers were called, not ", n);
	EXPECT(res == expected, "wrong results");
	EXPECT(s == sCopy && v == vCopy && p, "the caller's objects were changed");
	c.nontrivial(n >= 2 && (!s.empty() || !v.empty()));
}

// references reach the caller's objects
template<template<typename, typename> class C, typename ID>
void byReference(pbt::Ctx& c) {
	using CB = C<int(std::string&, const std::vector<int>&, int*, std::string, std::string&&), ID>;
	using Conn = typename CB::Connection;
	CB cb;
	auto s = text(c);
	auto v = ints(c);
	auto val = text(c);
	auto rv = text(c);
	auto valCopy = val, rvCopy = rv;
	auto model = s;
	int number = 0;
	auto n = static_cast<long long>(c.chance(1, 10) ? 1 + c.size(80) : c.range(1, 5));
	std::vector<int> expected;
	std::string seen; // expected string at the next handler
	c.note("s='", s, "' value='", val, "' ", n, " handlers");
	for(auto k = 0; k < n; ++k) {
		auto modify = c.boolean();
		auto conn = isRecursive<CB> && c.chance(1, 3);
		c.note(modify ? " m" : " r");
		auto body = [&, k, modify](std::string& hs, const std::vector<int>& hv, int* hp, std::string hval, std::string&& hrv) {
			EXPECT(&hs == &s, "handler ", k, ": reference to another string");
			EXPECT(&hv == &v, "handler ", k, ": reference to another vector");
			EXPECT(hp == &number, "handler ", k, ": other pointer");
			EXPECT(&hrv == &rv, "handler ", k, ": rvalue reference to another string");
			EXPECT(hrv == rvCopy, "handler ", k, ": referenced rvalue was changed");
			EXPECT(hs == model, "handler ", k, " sees '", hs, "' instead of '", model, "'");
			EXPECT(hval == valCopy, "handler ", k, " got '", hval, "' instead of '", valCopy, "'");
			hval.clear();
			if(modify) {
				hs += "x";
				model += "x";
				*hp += 1;
			}
			return static_cast<int>(*hp) * 10 + k;
		};
		if constexpr(isRecursive<CB>) {
			if(conn) cb += [body](Conn, std::string& hs, const std::vector<int>& hv, int* hp, std::string hval, std::string&& hrv) {
				return body(hs, hv, hp, std::move(hval), std::move(hrv));
			};
		}
		if(!conn) cb += body;
		expected.push_back(k);
		if(modify) seen += "x";
		expected.back() += 10 * static_cast<int>(seen.size());
	}
	std::vector<int> res;
	if(c.boolean()) res = cb(s, v, &number, val, std::move(rv));
	else res = cb.call(s, v, &number, val, std::move(rv));
	EXPECT(res == expected, "wrong results");
	EXPECT(s == model, "caller's string is '", s, "', not '", model, "'");
	EXPECT(val == valCopy, "caller's value was changed");
	c.nontrivial(n >= 2 && !val.empty());
}

// a move-only argument with one function
template<template<typename, typename> class C, typename ID>
void moveOnly(pbt::Ctx& c) {
	using CB = C<void(std::unique_ptr<std::string>, std::string), ID>;
	using Conn = typename CB::Connection;
	CB cb;
	auto s = text(c);
	auto name = text(c);
	int called = 0;
	std::unique_ptr<std::string> got;
	auto conn = isRecursive<CB> && c.boolean();
	auto extra = c.chance(1, 10) ? c.size(80) : c.draw(2); // functions that are gone again
	for(auto i = 0u; i < extra; ++i) {
		auto cn = cb += [&](std::unique_ptr<std::string>, std::string) { called += 100; };
		cn.disconnect();
	}
	if constexpr(isRecursive<CB>) {
		if(conn) cb += [&](Conn, std::unique_ptr<std::string> p, std::string n) {
			++called;
			EXPECT(n == name, "other string");
			got = std::move(p);
		};
	}
	if(!conn) cb += [&](std::unique_ptr<std::string> p, std::string n) {
		++called;
		EXPECT(n == name, "other string");
		got = std::move(p);
	};
	auto p = std::make_unique<std::string>(s);
	auto raw = p.get();
	c.note("'", s, "' '", name, "'");
	if(c.boolean()) cb(std::move(p), name); else cb.call(std::move(p), name);
	EXPECT(called == 1, "called ", called);
	EXPECT(got.get() == raw && *got == s, "other object");
	c.nontrivial(!name.empty());
}

// the connection given to a handler is its own
template<typename ID>
void selfConnection(pbt::Ctx& c) {
	using CB = nytl::RecursiveCallback<int(int), ID>;
	using Conn = typename CB::Connection;
	CB cb;
	auto n = static_cast<int>(c.chance(1, 10) ? 1 + c.size(80) : c.range(1, 8));
	std::vector<Conn> conns(n);
	std::vector<bool> wants(n, false), takes(n, false), reg(n, true);
	std::vector<Conn> got(n); // the connections the handlers received
	std::vector<int> log;
	auto how = c.draw(2); // add, +=, =
	for(auto i = 0; i < n; ++i) {
		takes[i] = c.chance(2, 3);
		wants[i] = takes[i] && c.chance(1, 2);
		c.note(takes[i] ? (wants[i] ? "C" : "c") : "p");
		std::function<int(Conn, int)> f = [&, i](Conn conn, int arg) {
			log.push_back(i);
			got[i] = conn;
			EXPECT(conn.connected(), "own connection not connected");
			EXPECT(conn.connectable() == &cb && conn.id().get() == conns[i].id().get(), "not the own connection");
			if(wants[i] && arg) {
				conn.disconnect();
				EXPECT(!conn.connected(), "connected after disconnect");
				reg[i] = false;
			}
			return arg + i;
		};
		std::function<int(int)> g = [&, i](int arg) { log.push_back(i); return arg + i; };
		if(i == 0 && how == 2) conns[i] = takes[i] ? (cb = f) : (cb = g);
		else if(how == 1) conns[i] = takes[i] ? (cb += f) : (cb += g);
		else conns[i] = takes[i] ? cb.add(f) : cb.add(g);
	}
	auto removeFirst = c.chance(1, 3) ? c.range(0, n - 1) : -1;
	if(removeFirst >= 0) {
		cb.disconnect(conns[removeFirst].id());
		reg[removeFirst] = false;
	}
	for(auto round = 0; round < 3; ++round) {
		std::vector<int> expected, results;
		for(auto i = 0; i < n; ++i) if(reg[i]) { expected.push_back(i); results.push_back(i + (round == 1)); }
		log.clear();
		auto r = cb(round == 1);
		EXPECT(log == expected, "round ", round, ": wrong functions called");
		EXPECT(r == results, "round ", round, ": wrong results");
		constexpr auto tracked = std::is_same_v<ID, nytl::TrackedConnectionID>;
		for(auto i = 0; i < n; ++i) {
			if(!takes[i] || !got[i].connectable()) continue;
			EXPECT(got[i].connectable() == &cb, "f", i, " received a connection to another callback");
			if(tracked) EXPECT(got[i].connected() == reg[i], "connection received by f", i, " reports ", got[i].connected());
		}
		if(round == 1) { // they also work outside of the handlers
			auto i = static_cast<int>(c.range(0, n - 1));
			if(takes[i] && reg[i] && c.chance(2, 3)) {
				c.note(" outside ", i);
				got[i].disconnect();
				reg[i] = false;
				if(tracked) EXPECT(!conns[i].connected(), "connection of f", i, " still reports connected");
			} else if(takes[i] && reg[i] && tracked) {
				c.note(" registration ", i);
				conns[i].disconnect();
				reg[i] = false;
				EXPECT(!got[i].connected(), "connection received by f", i, " still reports connected");
			}
		}
	}
	c.nontrivial(n >= 2);
}

} // namespace

FACET(value_plain, 25000) { byValue<nytl::Callback, nytl::ConnectionID>(c); }
FACET(value_tracked, 15000) { byValue<nytl::Callback, nytl::TrackedConnectionID>(c); }
FACET(value_recursive, 25000) { byValue<nytl::RecursiveCallback, nytl::ConnectionID>(c); }
FACET(value_recursive_tracked, 15000) { byValue<nytl::RecursiveCallback, nytl::TrackedConnectionID>(c); }
FACET(reference_plain, 25000) { byReference<nytl::Callback, nytl::ConnectionID>(c); }
FACET(reference_recursive, 25000) { byReference<nytl::RecursiveCallback, nytl::ConnectionID>(c); }
FACET(moveonly_plain, 15000) { moveOnly<nytl::Callback, nytl::ConnectionID>(c); }
FACET(moveonly_recursive, 15000) { moveOnly<nytl::RecursiveCallback, nytl::TrackedConnectionID>(c); }
FACET(self_plain, 25000) { selfConnection<nytl::ConnectionID>(c); }
FACET(self_tracked, 25000) { selfConnection<nytl::TrackedConnectionID>(c); }
