// C04: several tracked callbacks, their lifetimes and many copies of their connections.
#include "pbt.hpp"
#include <nytl/callback.hpp>
#include <nytl/recursiveCallback.hpp>

#include <algorithm>
#include <array>
#include <memory>

namespace {

using Rec = nytl::TrackedRecursiveCallback<void(int)>;
using Simple = nytl::TrackedCallback<void(int)>;
using Conn = nytl::TrackedConnection;

struct Slot {
	std::unique_ptr<Rec> rec;
	std::unique_ptr<Simple> simple;
	int running {};
	std::vector<int> registered;
	bool alive() const { return rec || simple; }
};

struct Copy {
	Conn conn;
	int k;
	bool dropped; // disconnect() was called on this object
};

struct World {
	struct Active { int slot; std::vector<int> snapshot; std::size_t idx; };

	pbt::Ctx& c;
	std::array<Slot, 3> slots {};
	std::vector<int> slotOf;           // function -> slot
	std::vector<bool> registered;      // function -> registered
	std::vector<Copy> copies;
	std::vector<Active> stack;
	unsigned budget {60};
	std::size_t maxFunctions {40}, maxCopies {60};
	bool observedByCopy {}, destroyed {}, lateDisconnect {}, insideRemoval {};

	explicit World(pbt::Ctx& ctx) : c(ctx) {}

	bool accessible(int s) const { // may operations be done on it?
		return slots[s].alive() && !(slots[s].simple && slots[s].running);
	}

	void removed(int k, const Copy* by) {
		registered[k] = false;
		auto& v = slots[slotOf[k]].registered;
		v.erase(std::remove(v.begin(), v.end(), k), v.end());
		for(auto& cp : copies) if(cp.k == k && &cp != by && !cp.dropped) observedByCopy = true;
		if(!stack.empty()) insideRemoval = true;
	}
	void removeAll(int s) {
		auto v = slots[s].registered;
		for(auto k : v) removed(k, nullptr);
	}

	void check() {
		for(auto& cp : copies) {
			auto expected = cp.k >= 0 && registered[cp.k] && !cp.dropped;
			EXPECT(cp.conn.connected() == expected, "connection of f", cp.k, " reports ",
				cp.conn.connected(), ", function is registered: ", cp.k >= 0 && registered[cp.k]);
		}
	}

	void handler(int k) {
		if(stack.empty() || stack.back().idx >= stack.back().snapshot.size() ||
				stack.back().snapshot[stack.back().idx] != k) {
			EXPECT(false, "function ", k, " called unexpectedly");
			return;
		}
		++stack.back().idx;
		if(c.failed()) return;
		c.note("f", k, "{");
		while(budget > 0 && !c.failed() && c.chance(2, 5)) {
			--budget;
			operation();
			check();
		}
		c.note("} ");
	}

	void add(int s) {
		auto k = static_cast<int>(slotOf.size());
		auto& sl = slots[s];
		auto how = c.draw(3);
		c.note(how == 3 ? "assign f" : "add f", k, " to cb", s, "; ");
		if(how == 3) removeAll(s);
		slotOf.push_back(s);
		registered.push_back(true);
		sl.registered.push_back(k);
		Conn conn;
		if(sl.rec) {
			if(how == 0) conn = sl.rec->add(std::function<void(int)>([this, k](int) { handler(k); }));
			else if(how == 1) conn = sl.rec->add(std::function<void(Conn, int)>([this, k](Conn self, int) {
				copies.push_back({self, k, false});
				check();
				handler(k);
			}));
			else if(how == 2) conn = (*sl.rec += [this, k](int) { handler(k); });
			else conn = (*sl.rec = [this, k](int) { handler(k); });
		} else {
			if(how < 2) conn = sl.simple->add([this, k](int) { handler(k); });
			else if(how == 2) conn = (*sl.simple += [this, k](int) { handler(k); });
			else conn = (*sl.simple = [this, k](int) { handler(k); });
		}
		copies.push_back({conn, k, false});
	}

	void call(int s) {
		auto& sl = slots[s];
		c.note("call cb", s, "(");
		stack.push_back({s, sl.registered, 0});
		++sl.running;
		if(sl.rec) (*sl.rec)(1); else (*sl.simple)(1);
		--sl.running;
		EXPECT(stack.back().idx == stack.back().snapshot.size(), "not all functions were called");
		stack.pop_back();
		c.note("); ");
	}

	void operation() {
		auto s = static_cast<int>(c.draw(2));
		switch(c.weighted({5, 3, 4, 3, 3, 2, 1, 2})) {
			case 0:
				if(!slots[s].alive()) {
					auto rec = !c.chance(1, 4);
					c.note("create cb", s, rec ? "; " : " (simple); ");
					if(rec) slots[s].rec = std::make_unique<Rec>();
					else slots[s].simple = std::make_unique<Simple>();
				}
				if(accessible(s) && slotOf.size() < maxFunctions) add(s);
				break;
			case 1: // copy a connection
				if(copies.empty() || copies.size() > maxCopies) break;
				if(c.boolean()) {
					auto cp = c.pickFrom(copies);
					c.note("copy connection of f", cp.k, "; ");
					copies.push_back(cp);
				} else {
					auto& a = c.pickFrom(copies);
					auto b = c.pickFrom(copies);
					c.note("assign connection of f", b.k, " to one of f", a.k, "; ");
					a = b;
				}
				break;
			case 2: { // disconnect through a connection
				if(copies.empty()) break;
				auto i = c.draw(copies.size() - 1);
				auto k = copies[i].k;
				if(k < 0) break;
				if(slots[slotOf[k]].simple && slots[slotOf[k]].running) break;
				if(registered[k] && !copies[i].dropped) removed(k, &copies[i]);
				else lateDisconnect = true;
				copies[i].dropped = true;
				c.note("disconnect connection ", i, " of f", k, "; ");
				copies[i].conn.disconnect();
				break;
			}
			case 3: { // disconnect by id
				if(copies.empty()) break;
				auto& cp = c.pickFrom(copies);
				if(cp.k < 0 || cp.dropped || !accessible(slotOf[cp.k])) break;
				// a connection of a destroyed callback must not be given to its successor
				auto& sl = slots[slotOf[cp.k]];
				auto target = sl.rec ? static_cast<nytl::TrackedConnectable*>(sl.rec.get()) :
					static_cast<nytl::TrackedConnectable*>(sl.simple.get());
				auto was = static_cast<bool>(registered[cp.k]);
				if(!was) break;
				EXPECT(cp.conn.connectable() == target, "wrong connectable");
				c.note("disconnect id of f", cp.k, "; ");
				auto id = cp.conn.id();
				removed(cp.k, nullptr);
				auto r = target->disconnect(id);
				EXPECT(r, "disconnect returned false");
				break;
			}
			case 4:
				if(accessible(s) && stack.size() < 4) call(s);
				break;
			case 5:
				if(!accessible(s)) break;
				c.note("clear cb", s, "; ");
				removeAll(s);
				if(slots[s].rec) slots[s].rec->clear(); else slots[s].simple->clear();
				break;
			case 6: // a default constructed connection
				c.note("default connection; ");
				copies.push_back({Conn {}, -1, false});
				copies.back().conn.disconnect();
				break;
			case 7:
				if(!slots[s].alive() || slots[s].running) break;
				c.note("destroy cb", s, "; ");
				removeAll(s);
				slots[s].rec.reset();
				slots[s].simple.reset();
				slots[s] = {};
				destroyed = true;
				break;
		}
	}
};

} // namespace

namespace {
void histories(pbt::Ctx& c, unsigned many) {
	World w(c);
	if(many) {
		for(auto s = 0; s < 2; ++s) {
			if(c.boolean()) w.slots[s].rec = std::make_unique<Rec>();
			else w.slots[s].simple = std::make_unique<Simple>();
			auto n = c.size(many);
			for(auto i = 0u; i < n; ++i) w.add(s);
		}
		w.check();
		w.maxFunctions = w.slotOf.size() + 20;
		w.maxCopies = w.copies.size() + 40;
	}
	for(unsigned n = 0; c.more(n, 40, 20, 21) && !c.failed(); ++n) {
		w.operation();
		w.check();
		if(w.budget < 15) w.budget = 15;
	}
	if(!c.failed()) {
		for(auto& s : w.slots) {
			s.rec.reset();
			s.simple.reset();
		}
		std::fill(w.registered.begin(), w.registered.end(), false);
		w.check();
		for(auto& cp : w.copies) cp.conn.disconnect(); // nothing there any more
	}
	c.nontrivial(w.observedByCopy);
	c.label(w.destroyed, "a callback was destroyed");
	c.label(w.lateDisconnect, "disconnect of a removed function");
	c.label(w.insideRemoval, "removal inside a handler");
}
} // namespace

FACET(histories, 160000) { histories(c, 0); }
FACET(many, 12000) { histories(c, 100); }

namespace {

template<typename CB>
void own(pbt::Ctx& c) {
	CB cb;
	std::vector<int> log;
	std::vector<typename CB::Connection> conns;
	auto n = static_cast<long long>(c.chance(1, 8) ? 1 + c.size(150) : c.range(1, 8));
	for(auto i = 0; i < n; ++i) conns.push_back(cb.add([&log, i] { log.push_back(i); }));
	std::vector<bool> reg(n, true);
	auto ops = c.range(1, 8);
	c.note(n, " functions; ");
	for(auto o = 0; o < ops; ++o) {
		auto i = c.range(0, n - 1);
		c.note("disconnect ", i, "; ");
		EXPECT(conns[i].connected() == reg[i], "connected before disconnect");
		conns[i].disconnect();
		reg[i] = false;
		EXPECT(!conns[i].connected(), "connected after disconnect");
		for(auto k = 0; k < n; ++k) EXPECT(conns[k].connected() == reg[k], "another connection changed");
	}
	cb();
	std::vector<int> expected;
	for(auto k = 0; k < n; ++k) if(reg[k]) expected.push_back(k);
	EXPECT(log == expected, "wrong functions are registered");
	c.nontrivial(n > 1);
}

} // namespace

FACET(own_plain, 15000) { own<nytl::Callback<void()>>(c); }
FACET(own_recursive, 15000) { own<nytl::RecursiveCallback<void()>>(c); }
FACET(own_tracked, 15000) { own<nytl::TrackedCallback<void()>>(c); }
FACET(own_tracked_recursive, 15000) { own<nytl::TrackedRecursiveCallback<void()>>(c); }
