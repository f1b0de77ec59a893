// C05: slots of unique connections with an ownership model.
#include "pbt.hpp"
#include <nytl/callback.hpp>
#include <nytl/recursiveCallback.hpp>

#include <algorithm>
#include <array>
#include <functional>
#include <memory>
#include <optional>

namespace {

template<typename CB>
void program(pbt::Ctx& c, unsigned many = 0) {
	using Conn = typename CB::Connection;
	using ID = decltype(std::declval<Conn>().id());
	using Unique = nytl::UniqueConnectionT<nytl::ConnectableT<ID>, ID>;

	static_assert(!std::is_copy_constructible_v<Unique> && !std::is_copy_assignable_v<Unique>);

	std::array<CB, 2> cbs;
	std::array<std::vector<int>, 2> registered;
	std::vector<int> cbOf, log;
	std::vector<std::pair<Conn, int>> released; // not owned any more
	std::array<std::optional<Unique>, 5> slots;
	std::array<int, 5> owns;                     // slot -> function, -1: empty
	owns.fill(-1);
	bool movedOwned = false, disconnectedOther = false;

	auto isReg = [&](int k) {
		auto& v = registered[cbOf[k]];
		return std::find(v.begin(), v.end(), k) != v.end();
	};
	auto drop = [&](int k) {
		if(k < 0) return;
		auto& v = registered[cbOf[k]];
		v.erase(std::remove(v.begin(), v.end(), k), v.end());
		for(auto o : owns) if(o >= 0 && o != k && movedOwned) disconnectedOther = true;
	};
	auto add = [&](int b) {
		auto k = static_cast<int>(cbOf.size());
		cbOf.push_back(b);
		registered[b].push_back(k);
		return std::pair<Conn, int>(cbs[b].add([&log, k] { log.push_back(k); }), k);
	};
	auto check = [&] {
		for(auto b = 0u; b < 2; ++b) {
			log.clear();
			cbs[b]();
			if(log != registered[b]) {
				std::string got, exp;
				for(auto x : log) got += " " + std::to_string(x);
				for(auto x : registered[b]) exp += " " + std::to_string(x);
				EXPECT(false, "callback ", b, " called", got, ", expected", exp);
			}
		}
		for(auto i = 0u; i < slots.size(); ++i) {
			if(!slots[i]) continue;
			EXPECT(slots[i]->connected() == (owns[i] >= 0), "slot ", i, " connected: ", slots[i]->connected());
			if(owns[i] >= 0) EXPECT(slots[i]->connectable() == &cbs[cbOf[owns[i]]], "slot ", i, ": wrong connectable");
			else {
				EXPECT(!slots[i]->connectable(), "slot ", i, " is empty but has a connectable");
				EXPECT(slots[i]->id().get() <= 0, "slot ", i, " is empty but has the id ", slots[i]->id().get());
			}
		}
	};
	auto destroy = [&](unsigned i) {
		if(!slots[i]) return;
		drop(owns[i]);
		owns[i] = -1;
		slots[i].reset();
	};

	if(many) {
		for(auto b = 0; b < 2; ++b) {
			auto k = c.size(many);
			c.note(k, " functions in cb", b, "; ");
			for(auto i = 0u; i < k; ++i) {
				auto e = add(b);
				if(c.chance(1, 4)) released.push_back(e);
			}
		}
	}
	for(unsigned n = 0; c.more(n, 30, 20, 21) && !c.failed(); ++n) {
		auto i = static_cast<unsigned>(c.draw(slots.size() - 1));
		auto j = static_cast<unsigned>(c.draw(slots.size() - 1));
		auto b = static_cast<int>(c.draw(1));
		switch(c.weighted({5, 4, 4, 2, 2, 2, 2, 2, 1, 2, 1})) {
			case 0: { // new function owned by a new object
				destroy(i);
				auto [conn, k] = add(b);
				c.note("slot", i, " = unique(f", k, " in cb", b, "); ");
				if(c.boolean()) slots[i].emplace(conn);
				else slots[i].emplace(cbs[b], conn.id());
				owns[i] = k;
				break;
			}
			case 1: { // move assignment
				if(i == j || !slots[i] || !slots[j]) break;
				c.note("slot", i, " = move(slot", j, "); ");
				if(owns[j] >= 0) movedOwned = true;
				drop(owns[i]);
				auto& ref = (*slots[i] = std::move(*slots[j]));
				EXPECT(&ref == &*slots[i], "assignment returns another object");
				owns[i] = owns[j];
				owns[j] = -1;
				break;
			}
			case 2: // move construction
				if(i == j || !slots[j]) break;
				destroy(i);
				c.note("slot", i, "(move(slot", j, ")); ");
				if(owns[j] >= 0) movedOwned = true;
				slots[i].emplace(std::move(*slots[j]));
				owns[i] = owns[j];
				owns[j] = -1;
				break;
			case 3: // release
				if(!slots[i]) break;
				c.note("release slot", i, "; ");
				if constexpr(true) {
					auto conn = slots[i]->release();
					EXPECT(conn.connected() == (owns[i] >= 0), "released connection connected: ", conn.connected());
					if(owns[i] >= 0) {
						movedOwned = true;
						EXPECT(conn.connectable() == &cbs[cbOf[owns[i]]], "released connection has wrong connectable");
						released.emplace_back(conn, owns[i]);
					}
					owns[i] = -1;
				}
				break;
			case 4: // disconnect
				if(!slots[i]) break;
				c.note("disconnect slot", i, "; ");
				drop(owns[i]);
				owns[i] = -1;
				slots[i]->disconnect();
				break;
			case 5: // destroy
				c.note("destroy slot", i, "; ");
				destroy(i);
				break;
			case 6: // use a released connection
				if(released.empty()) break;
				{
					auto at = c.draw(released.size() - 1);
					auto r = released[at];
					released.erase(released.begin() + at);
					if(!isReg(r.second)) break;
					if(c.boolean()) {
						c.note("disconnect released f", r.second, "; ");
						drop(r.second);
						r.first.disconnect();
					} else {
						c.note("own released f", r.second, " in slot", i, "; ");
						destroy(i);
						slots[i].emplace(r.first);
						owns[i] = r.second;
					}
				}
				break;
			case 7: // swap
				if(i == j || !slots[i] || !slots[j]) break;
				c.note("swap slot", i, " slot", j, "; ");
				std::swap(*slots[i], *slots[j]);
				std::swap(owns[i], owns[j]);
				if(owns[i] >= 0 || owns[j] >= 0) movedOwned = true;
				break;
			case 8: // empty object
				destroy(i);
				c.note("slot", i, " = unique(); ");
				slots[i].emplace();
				break;
			case 9: { // assign a temporary
				if(!slots[i]) break;
				auto [conn, k] = add(b);
				c.note("slot", i, " assigned f", k, " in cb", b, "; ");
				drop(owns[i]);
				*slots[i] = Unique(conn);
				owns[i] = k;
				break;
			}
			case 10: // a function without owner
				c.note("f", cbOf.size(), " in cb", b, "; ");
				add(b);
				break;
		}
		check();
	}
	for(auto i = 0u; i < slots.size() && !c.failed(); ++i) {
		destroy(i);
		check();
	}
	c.nontrivial(movedOwned && disconnectedOther);
	c.label(!released.empty(), "released connections at the end");
}

// Unique connections that are owned by registered functions: they disconnect when the function
// they are part of is destroyed, i.e. when that function is removed.
template<typename CB, bool tracked, bool recursive>
void owners(pbt::Ctx& c) {
	using Conn = typename CB::Connection;
	using ID = decltype(std::declval<Conn>().id());
	using Unique = nytl::UniqueConnectionT<nytl::ConnectableT<ID>, ID>;

	struct Function {
		int cb;
		Conn conn;
		std::weak_ptr<std::array<Unique, 2>> box; // what the function owns
		std::array<int, 2> owns {-1, -1};         // function or -1
	};
	std::array<std::unique_ptr<CB>, 2> cbs {std::make_unique<CB>(), std::make_unique<CB>()};
	std::array<std::vector<int>, 2> registered;
	std::vector<Function> fns;
	std::vector<int> log, pending;
	std::array<std::optional<Unique>, 4> slots;
	std::array<int, 4> owns {-1, -1, -1, -1};
	std::function<void(int)> action; // run by the functions
	auto calling = -1;
	auto cascades = 0, inside = 0, cleared = 0;

	auto isReg = [&](int k) {
		auto& v = registered[fns[k].cb];
		return std::find(v.begin(), v.end(), k) != v.end();
	};
	// function k is removed: what it owns as well, as soon as it is destroyed
	std::function<void(int)> drop = [&](int k) {
		if(k < 0 || !isReg(k)) return;
		auto& v = registered[fns[k].cb];
		v.erase(std::find(v.begin(), v.end(), k));
		if(fns[k].cb == calling) { pending.push_back(k); ++inside; return; }
		for(auto o : fns[k].owns) if(o >= 0 && isReg(o)) { ++cascades; drop(o); }
	};
	auto add = [&](int b, bool assign) {
		auto k = int(fns.size());
		auto box = std::make_shared<std::array<Unique, 2>>();
		if(assign) while(!registered[b].empty()) drop(registered[b].front());
		Function f {b, {}, box, {-1, -1}};
		auto fn = [&log, &action, k, box = std::move(box)] {
			log.push_back(k);
			if(action) action(k);
		};
		box.reset();
		f.conn = assign ? (*cbs[b] = std::move(fn)) : cbs[b]->add(std::move(fn));
		fns.push_back(f);
		registered[b].push_back(k);
		return k;
	};
	auto show = [](auto& v) { std::string r; for(auto x : v) r += " " + std::to_string(x); return r; };
	auto check = [&] {
		for(auto b = 0u; b < 2; ++b) {
			if(!cbs[b]) continue;
			log.clear();
			(*cbs[b])();
			EXPECT(log == registered[b], "callback ", b, " called", show(log), ", expected", show(registered[b]));
		}
		for(auto k = 0u; k < fns.size(); ++k)
			EXPECT(fns[k].box.expired() == !isReg(k), "function ", k, fns[k].box.expired() ? " was destroyed" : " still exists");
		auto state = [&](const Unique& u, int o) {
			if(o < 0) EXPECT(!u.connected(), "empty connection is connected");
			else if(tracked || isReg(o)) EXPECT(u.connected() == isReg(o), "connection to function ", o, " connected: ", u.connected());
		};
		for(auto i = 0u; i < slots.size(); ++i) if(slots[i]) state(*slots[i], owns[i]);
		for(auto& f : fns) if(auto box = f.box.lock()) for(auto i = 0u; i < 2; ++i) state((*box)[i], f.owns[i]);
	};
	auto destroy = [&](unsigned i) {
		if(!slots[i]) return;
		drop(owns[i]);
		owns[i] = -1;
		slots[i].reset();
	};

	for(unsigned n = 0; c.more(n, 30, 20, 21) && !c.failed(); ++n) {
		auto i = unsigned(c.draw(slots.size() - 1));
		auto b = int(c.draw(1));
		auto some = fns.empty() ? -1 : int(c.draw(fns.size() - 1));
		switch(c.weighted({5, 3, 8, 3, 2, 2, 1, 1, recursive ? 4u : 0u})) {
			case 0: { // new function owned by a slot
				destroy(i);
				auto k = add(b, false);
				c.note("slot", i, " = unique(f", k, " in cb", b, "); ");
				slots[i].emplace(fns[k].conn);
				owns[i] = k;
				break;
			}
			case 1: // a function that is not owned
				c.note("f", fns.size(), " in cb", b, "; ");
				add(b, false);
				break;
			case 2: { // a function gets what a slot has
				if(some < 0 || !slots[i] || !isReg(some)) break;
				auto j = unsigned(c.draw(1));
				auto box = fns[some].box.lock();
				if(!box) { EXPECT(box, "function ", some, " was destroyed"); break; }
				if(fns[some].owns[j] >= 0) break;
				c.note("f", some, " owns slot", i, " (f", owns[i], "); ");
				(*box)[j] = std::move(*slots[i]);
				fns[some].owns[j] = owns[i];
				owns[i] = -1;
				break;
			}
			case 3: // disconnect some function that is not owned by an object that still exists
				if(some < 0 || std::count(owns.begin(), owns.end(), some)) break;
				c.note("disconnect f", some, "; ");
				if(c.boolean()) {
					auto was = isReg(some);
					drop(some);
					EXPECT(cbs[fns[some].cb]->disconnect(fns[some].conn.id()) == was, "disconnect is ", !was);
				} else {
					drop(some);
					auto conn = fns[some].conn;
					conn.disconnect();
				}
				break;
			case 4:
				c.note("destroy slot", i, "; ");
				destroy(i);
				break;
			case 5:
				if(!slots[i]) break;
				c.note("disconnect slot", i, "; ");
				drop(owns[i]);
				owns[i] = -1;
				slots[i]->disconnect();
				break;
			case 6:
				c.note("clear cb", b, "; ");
				while(!registered[b].empty()) { drop(registered[b].front()); ++cleared; }
				cbs[b]->clear();
				break;
			case 7:
				c.note("cb", b, " = f", fns.size(), "; ");
				add(b, true);
				break;
			case 8: { // the same inside of a call
				auto steps = 1 + c.draw(2);
				c.note("call cb", b, " {");
				auto snapshot = registered[b];
				calling = b;
				action = [&](int) {
					if(!steps || !c.boolean()) return;
					--steps;
					auto j = unsigned(c.draw(slots.size() - 1));
					auto f = int(c.draw(fns.size() - 1));
					switch(c.draw(3)) {
						case 0: c.note("destroy slot", j, "; "); destroy(j); break;
						case 1:
							if(std::count(owns.begin(), owns.end(), f)) break;
							c.note("disconnect f", f, "; ");
							drop(f);
							{ auto conn = fns[f].conn; conn.disconnect(); }
							break;
						case 2: {
							auto k = add(b, false);
							c.note("f", k, "; ");
							break;
						}
						case 3: {
							if(c.draw(3)) break;
							c.note("clear; ");
							while(!registered[b].empty()) drop(registered[b].front());
							cbs[b]->clear();
							break;
						}
					}
				};
				log.clear();
				(*cbs[b])();
				EXPECT(log == snapshot, "callback ", b, " called", show(log), ", expected", show(snapshot));
				action = {};
				calling = -1;
				for(auto k : pending) for(auto o : fns[k].owns) if(o >= 0 && isReg(o)) { ++cascades; drop(o); }
				pending.clear();
				c.note("}; ");
				break;
			}
		}
		check();
	}
	for(auto i = 0u; i < slots.size() && !c.failed(); ++i) {
		destroy(i);
		check();
	}
	for(auto b = 0; b < 2 && !c.failed(); ++b) {
		while(!registered[b].empty()) drop(registered[b].front());
		if(tracked && c.boolean()) { c.note("destroy cb", b, "; "); cbs[b].reset(); }
		else { c.note("clear cb", b, "; "); cbs[b]->clear(); }
		check();
	}
	c.nontrivial(cascades > 0);
	c.label(cascades > 1, "several owned connections");
	c.label(inside > 0, "removed inside a call");
	c.label(cleared > 0, "cleared");
}

} // namespace

FACET(plain, 80000) { program<nytl::Callback<void()>>(c); }
FACET(tracked, 80000) { program<nytl::TrackedCallback<void()>>(c); }
FACET(recursive, 80000) { program<nytl::RecursiveCallback<void()>>(c); }
FACET(recursive_tracked, 80000) { program<nytl::TrackedRecursiveCallback<void()>>(c); }
FACET(many_plain, 6000) { program<nytl::Callback<void()>>(c, 120); }
FACET(many_recursive, 6000) { program<nytl::TrackedRecursiveCallback<void()>>(c, 120); }
FACET(owners_plain, 60000) { owners<nytl::Callback<void()>, false, false>(c); }
FACET(owners_tracked, 40000) { owners<nytl::TrackedCallback<void()>, true, false>(c); }
FACET(owners_recursive, 80000) { owners<nytl::RecursiveCallback<void()>, false, true>(c); }
FACET(owners_recursive_tracked, 40000) { owners<nytl::TrackedRecursiveCallback<void()>, true, true>(c); }
