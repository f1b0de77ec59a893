// C08: connections to connectables of our own that record (and sometimes refuse) every disconnect.
#include "pbt.hpp"
#include <nytl/connection.hpp>

#include <array>
#include <iostream>
#include <memory>
#include <new>
#include <optional>
#include <stdexcept>
#include <vector>

namespace {

// - id types -
struct SharedId { // an id with identity, like TrackedConnectionID but not convertible from anything
	std::shared_ptr<std::int64_t> p;
	int get() const { return p ? static_cast<int>(*p) : -1; }
};
struct BigId { // larger than a pointer, default is far from zero
	std::array<std::int64_t, 5> pad {{0, -5, -6, -7, -8}};
	std::int64_t get() const noexcept { return pad[0]; }
};

template<typename ID> struct Make;
template<> struct Make<nytl::ConnectionID> {
	static nytl::ConnectionID make(std::int64_t v) { return {v}; }
	static constexpr bool shared = false, big = true;
	static void set(nytl::ConnectionID&, std::int64_t) {}
};
template<> struct Make<nytl::TrackedConnectionID> {
	static nytl::TrackedConnectionID make(std::int64_t v) { return {v}; }
	static constexpr bool shared = true, big = true;
	static void set(nytl::TrackedConnectionID& i, std::int64_t v) { i.set(v); }
};
template<> struct Make<SharedId> {
	static SharedId make(std::int64_t v) { return {std::make_shared<std::int64_t>(v)}; }
	static constexpr bool shared = true, big = false;
	static void set(SharedId& i, std::int64_t v) { *i.p = v; }
};
template<> struct Make<BigId> {
	static BigId make(std::int64_t v) { BigId r; r.pad[0] = v; r.pad[4] = ~v; return r; }
	static constexpr bool shared = false, big = true;
	static void set(BigId&, std::int64_t) {}
};

struct Refused : public std::runtime_error { using std::runtime_error::runtime_error; };
struct Own : public std::exception { const char* what() const noexcept override { return "own"; } };

// what the connectables have been asked to disconnect
struct Event { int who; std::int64_t id; };
struct Log {
	std::vector<Event> events;
	unsigned refuse {0}; // the next one throws this
	void call(int who, std::int64_t id) {
		events.push_back({who, id});
		auto r = refuse;
		refuse = 0;
		switch(r) {
			case 1: throw Refused("no");
			case 2: throw std::logic_error("not logical");
			case 3: throw std::bad_alloc();
			case 4: throw Own();
			case 5: throw std::exception();
		}
	}
};

template<typename ID> struct Derived : public nytl::ConnectableT<ID> {
	Log* log; int who;
	Derived(Log& l, int w) : log(&l), who(w) {}
	bool disconnect(const ID& id) override { log->call(who, id.get()); return who % 2; }
};
template<typename ID> struct SecondBase { virtual ~SecondBase() = default; std::array<int, 3> data {{7, 8, 9}}; };
template<typename ID> struct Multi : public SecondBase<ID>, public nytl::ConnectableT<ID> {
	Log* log; int who;
	Multi(Log& l, int w) : log(&l), who(w) {}
	bool disconnect(const ID& id) override { log->call(who, id.get()); return false; }
};
// not derived from anything
template<typename ID> struct Plain {
	Log* log; int who;
	Plain(Log& l, int w) : log(&l), who(w) {}
	int disconnect(const ID& id) { log->call(who, id.get()); return 3; }
};

struct Quiet { // the destructors print warnings
	std::streambuf* old;
	Quiet() : old(std::cerr.rdbuf(nullptr)) {}
	~Quiet() { std::cerr.rdbuf(old); std::cerr.clear(); }
};

// C: the type the connections know, I: the types of the objects
template<typename ID, typename C, typename... I>
void program(pbt::Ctx& c) {
	using Conn = nytl::ConnectionT<C, ID>;
	using Unique = nytl::UniqueConnectionT<C, ID>;
	static_assert(std::is_nothrow_move_constructible_v<Unique> && std::is_nothrow_move_assignable_v<Unique>);
	static_assert(!std::is_copy_constructible_v<Unique> && !std::is_copy_assignable_v<Unique>);
	static_assert(std::is_nothrow_destructible_v<Unique> && std::is_copy_constructible_v<Conn>);

	Quiet quiet;
	Log log;
	std::vector<std::shared_ptr<void>> keep;
	std::vector<C*> objects;
	(([&] {
		auto p = std::make_shared<I>(log, static_cast<int>(objects.size()));
		keep.push_back(p);
		objects.push_back(static_cast<C*>(p.get()));
	})(), ...);

	// ids: the model knows the current value of each one
	struct IdM { ID id; std::int64_t value; };
	std::vector<IdM> ids;
	struct Held { int who {-1}; int id {-1}; }; // who -1: empty
	std::array<std::optional<Conn>, 4> conns;
	std::array<std::optional<Unique>, 4> uniques;
	std::array<Held, 4> ch, uh;
	std::vector<Event> expect;
	bool moved = false, thrown = false, called = false, nonpos = false;

	auto live = [&](const Held& h) { return h.who >= 0 && ids[h.id].value > 0; };
	// what a disconnect of h has to do
	auto wanted = [&](const Held& h) {
		if(live(h)) {
			expect.push_back({h.who, ids[h.id].value});
			called = true;
		} else if(h.who >= 0) nonpos = true;
	};
	auto showHeld = [&](const char* what, unsigned i, auto& o, const Held& h) {
		EXPECT(o.connected() == live(h), what, i, " connected() is ", o.connected());
		if(h.who >= 0) {
			EXPECT(o.connectable() == objects[h.who], what, i, ": connectable() is another object");
			EXPECT(o.id().get() == ids[h.id].value, what, i, ": id() is ", o.id().get(), " not ", ids[h.id].value);
		} else {
			EXPECT(o.connectable() == nullptr, what, i, " is empty but has a connectable");
			EXPECT(o.id().get() <= 0, what, i, " is empty but has an id");
		}
	};
	auto check = [&] {
		bool ok = log.events.size() == expect.size();
		for(auto i = 0u; ok && i < expect.size(); ++i)
			ok = log.events[i].who == expect[i].who && log.events[i].id == expect[i].id;
		if(!ok) {
			std::string g, e;
			for(auto& x : log.events) g += " " + std::to_string(x.who) + ":" + std::to_string(x.id);
			for(auto& x : expect) e += " " + std::to_string(x.who) + ":" + std::to_string(x.id);
			EXPECT(false, "disconnect was called with (object:id)", g, ", expected", e);
		}
		log.events.clear();
		expect.clear();
		log.refuse = 0;
		for(auto i = 0u; i < conns.size(); ++i) {
			if(conns[i]) showHeld("connection ", i, *conns[i], ch[i]);
			if(uniques[i]) showHeld("unique ", i, *uniques[i], uh[i]);
		}
	};
	auto refuse = [&](const Held& h) {
		if(!live(h) || !c.chance(1, 4)) return false;
		c.note("(refused) ");
		log.refuse = 1 + c.draw(4);
		thrown = true;
		return true;
	};
	auto destroy = [&](unsigned i) {
		if(!uniques[i]) return;
		refuse(uh[i]);
		wanted(uh[i]);
		uh[i] = {};
		uniques[i].reset();
		check();
	};
	auto newId = [&] {
		if(!ids.empty() && c.chance(1, 4)) return static_cast<int>(c.draw(ids.size() - 1));
		std::int64_t v = 1 + static_cast<std::int64_t>(ids.size());
		switch(c.weighted({8, 1, 1, 1})) {
			case 1: v = 0; break;
			case 2: v = -1 - static_cast<std::int64_t>(c.draw(3)); break;
			case 3: v = Make<ID>::big ? (std::int64_t(1) << (31 + c.draw(31))) : 2147483647; break;
		}
		ids.push_back({Make<ID>::make(v), v});
		return static_cast<int>(ids.size()) - 1;
	};

	for(unsigned n = 0; c.more(n, 30, 20, 21) && !c.failed(); ++n) {
		auto i = static_cast<unsigned>(c.draw(3));
		auto j = static_cast<unsigned>(c.draw(3));
		switch(c.weighted({4, 4, 3, 3, 3, 2, 2, 2, 2, 2, 1, 1, 1})) {
			case 0: { // new connection
				auto w = static_cast<int>(c.draw(objects.size() - 1));
				auto d = newId();
				c.note("conn", i, "(o", w, ", id", d, "=", ids[d].value, "); ");
				conns[i].emplace(*objects[w], ids[d].id);
				ch[i] = {w, d};
				break;
			}
			case 1: { // new unique connection
				destroy(i);
				if(conns[j] && c.boolean()) {
					c.note("unique", i, "(conn", j, "); ");
					uniques[i].emplace(*conns[j]);
					uh[i] = ch[j];
				} else {
					auto w = static_cast<int>(c.draw(objects.size() - 1));
					auto d = newId();
					c.note("unique", i, "(o", w, ", id", d, "=", ids[d].value, "); ");
					uniques[i].emplace(*objects[w], ids[d].id);
					uh[i] = {w, d};
				}
				break;
			}
			case 2: { // disconnect a connection
				if(!conns[i]) break;
				c.note("conn", i, ".disconnect(); ");
				auto r = refuse(ch[i]);
				wanted(ch[i]);
				try {
					conns[i]->disconnect();
					EXPECT(!r, "the exception of the connectable got lost");
				} catch(const std::exception&) {
					EXPECT(r, "an exception from nowhere");
					conns[i].reset(); // what it holds now is not specified
				}
				ch[i] = {};
				break;
			}
			case 3: { // disconnect a unique connection
				if(!uniques[i]) break;
				c.note("unique", i, ".disconnect(); ");
				auto r = refuse(uh[i]);
				auto h = uh[i];
				wanted(h);
				try {
					uniques[i]->disconnect();
					EXPECT(!r, "the exception of the connectable got lost");
					uh[i] = {};
				} catch(const std::exception&) {
					EXPECT(r, "an exception from nowhere");
					// may try it again, but nothing else
					auto before = log.events.size();
					uniques[i].reset();
					if(log.events.size() == before + 1) wanted(h);
					uh[i] = {};
				}
				break;
			}
			case 4: // move assignment
				if(i == j || !uniques[i] || !uniques[j]) break;
				c.note("unique", i, " = move(unique", j, "); ");
				moved = moved || live(uh[j]);
				refuse(uh[i]);
				wanted(uh[i]);
				EXPECT(&(*uniques[i] = std::move(*uniques[j])) == &*uniques[i], "the assignment returns something else");
				uh[i] = uh[j];
				uh[j] = {};
				break;
			case 5: // move construction
				if(i == j || !uniques[j]) break;
				destroy(i);
				c.note("unique", i, "(move(unique", j, ")); ");
				moved = moved || live(uh[j]);
				uniques[i].emplace(std::move(*uniques[j]));
				uh[i] = uh[j];
				uh[j] = {};
				break;
			case 6: // release
				if(!uniques[i]) break;
				c.note("conn", j, " = unique", i, ".release(); ");
				moved = moved || live(uh[i]);
				conns[j].emplace(uniques[i]->release());
				ch[j] = uh[i];
				uh[i] = {};
				break;
			case 7: // copy
				if(!conns[i]) break;
				c.note("conn", j, " = conn", i, "; ");
				if(conns[j]) *conns[j] = Conn(*conns[i]);
				else conns[j].emplace(*conns[i]);
				ch[j] = ch[i];
				break;
			case 8: // destruction
				c.note("destroy unique", i, "; ");
				destroy(i);
				break;
			case 9: // the connectable changes the id behind our back
				if(!Make<ID>::shared || ids.empty()) break;
				if constexpr(Make<ID>::shared) {
					auto& d = c.pickFrom(ids);
					d.value = c.boolean() ? 0 : static_cast<std::int64_t>(c.draw(200)) - 50;
					c.note("an id becomes ", d.value, "; ");
					Make<ID>::set(d.id, d.value);
				}
				break;
			case 10: // empty ones
				destroy(i);
				c.note("unique", i, "(); ");
				uniques[i].emplace();
				break;
			case 11:
				c.note("conn", i, "(); ");
				conns[i].emplace();
				ch[i] = {};
				break;
			case 12: // a temporary
				if(!uniques[i]) break;
				{
					auto w = static_cast<int>(c.draw(objects.size() - 1));
					auto d = newId();
					c.note("unique", i, " = Unique(o", w, ", id", d, "=", ids[d].value, "); ");
					refuse(uh[i]);
					wanted(uh[i]);
					*uniques[i] = Unique(*objects[w], ids[d].id);
					uh[i] = {w, d};
				}
				break;
		}
		check();
	}
	for(auto& x : conns) x.reset(); // plain connections never disconnect by themselves
	check();
	for(auto i = 0u; i < uniques.size() && !c.failed(); ++i) destroy(i);
	c.nontrivial(called && (moved || thrown));
	c.label(thrown, "refused");
	c.label(nonpos, "id not positive");
	c.label(moved, "moved");
}

template<typename ID> using Base = nytl::ConnectableT<ID>;
using I1 = nytl::ConnectionID;
using I2 = nytl::TrackedConnectionID;

} // namespace

FACET(plain_ids, 120000) { program<I1, Base<I1>, Derived<I1>, Multi<I1>, Derived<I1>>(c); }
FACET(tracked_ids, 120000) { program<I2, Base<I2>, Multi<I2>, Derived<I2>>(c); }
FACET(shared_ids, 80000) { program<SharedId, Base<SharedId>, Derived<SharedId>, Multi<SharedId>>(c); }
FACET(big_ids, 80000) { program<BigId, Base<BigId>, Derived<BigId>, Multi<BigId>>(c); }
FACET(own_classes, 120000) {
	switch(c.draw(3)) {
		case 0: program<I1, Plain<I1>, Plain<I1>, Plain<I1>>(c); break;
		case 1: program<BigId, Plain<BigId>, Plain<BigId>, Plain<BigId>>(c); break;
		case 2: program<I2, Multi<I2>, Multi<I2>, Multi<I2>>(c); break;
		case 3: program<SharedId, Plain<SharedId>, Plain<SharedId>, Plain<SharedId>>(c); break;
	}
}
