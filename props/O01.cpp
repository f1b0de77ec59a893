// O01: operations in which an allocation of memory fails.
#include "pbt.hpp"
#include <nytl/callback.hpp>
#include <nytl/recursiveCallback.hpp>
#include <nytl/connection.hpp>
#include <nytl/clone.hpp>
#include <nytl/utf.hpp>
#include <nytl/bytes.hpp>
#include <nytl/span.hpp>

#include <algorithm>
#include <array>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <new>
#include <string>
#include <vector>

// The allocator of this program: counts and, while armed, refuses.
namespace mem {

constexpr long never = -1;
long left = never;        // allocations until refusing, never: not armed
bool lasting {};          // refuse everything from then on
bool fired {};            // something was refused
long counted {};          // allocations made while armed that were not released

struct Head { std::uint64_t magic; std::uint64_t tracked; };
constexpr std::uint64_t magic = 0x6e79746c6d656d21ull;
static_assert(sizeof(Head) == 16);

void* get(std::size_t n) {
	auto tracked = left != never;
	if(tracked) {
		if(left == 0) {
			fired = true;
			if(!lasting) left = 1000000;
			throw std::bad_alloc();
		}
		--left;
	}
	auto p = static_cast<Head*>(std::malloc(n + sizeof(Head)));
	if(!p) throw std::bad_alloc();
	p->magic = magic;
	p->tracked = tracked;
	if(tracked) ++counted;
	return p + 1;
}

void put(void* p) noexcept {
	if(!p) return;
	auto h = static_cast<Head*>(p) - 1;
	if(h->magic != magic) std::abort();
	h->magic = 0;
	if(h->tracked) --counted;
	std::free(h);
}

// no faults while it exists
struct Off {
	long left_ = left;
	Off() { left = never; }
	~Off() { left = left_; }
};

// faults while it exists
struct On {
	long left_ = left;
	bool lasting_ = lasting;
	On(long n, bool l) { left = n; lasting = l; }
	~On() { left = left_; lasting = lasting_; }
};

} // namespace mem

void* operator new(std::size_t n) { return mem::get(n); }
void* operator new[](std::size_t n) { return mem::get(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return mem::get(n); } catch(...) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return mem::get(n); } catch(...) { return nullptr; } }
void operator delete(void* p) noexcept { mem::put(p); }
void operator delete[](void* p) noexcept { mem::put(p); }
void operator delete(void* p, std::size_t) noexcept { mem::put(p); }
void operator delete[](void* p, std::size_t) noexcept { mem::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { mem::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { mem::put(p); }

namespace {

// Runs an operation with the given fault. Returns whether it failed.
template<typename F> bool fails(long at, bool lasting, F&& f) {
	mem::On on(at, lasting);
	mem::fired = false;
	try {
		f();
		mem::left = mem::never;
		return false;
	} catch(const std::bad_alloc&) {
		mem::left = mem::never;
		return true;
	}
}

struct Plan { long at; bool lasting; };
Plan plan(pbt::Ctx& c) {
	// 0: no fault
	auto n = c.weighted({3, 5});
	if(!n) return {1000000, false};
	return {c.range(0, 5), c.chance(1, 3)};
}

// - callbacks -
template<typename CB> constexpr bool isRecursive = false;
template<typename S, typename I> constexpr bool isRecursive<nytl::RecursiveCallback<S, I>> = true;
template<typename Id> constexpr bool isTracked = std::is_same_v<Id, nytl::TrackedConnectionID>;

// Counts the living copies of a function
struct Token {
	std::map<int, int>* live; int id;
	Token(std::map<int, int>& l, int i) : live(&l), id(i) { mem::Off off; ++(*live)[id]; }
	Token(const Token& o) : live(o.live), id(o.id) { mem::Off off; ++(*live)[id]; }
	~Token() { --(*live)[id]; }
	Token& operator=(const Token&) = delete;
};

template<typename CB, typename Ret, typename Arg> struct World {
	using Conn = typename CB::Connection;
	pbt::Ctx& c;
	struct Func { std::string text; Conn conn {}; bool registered {true}; bool removesSelf {}; int nested {}; };
	std::map<int, int> live;
	std::map<int, Func> funcs;
	std::vector<int> order;                       // registered functions
	struct Frame { std::vector<int> expected; std::size_t next {}; };
	std::vector<Frame> frames;
	int ids {};
	unsigned failures {}, survived {}, insideFailures {};
	bool quiet {};                                // handlers do nothing but being called
	int budget {12};
	std::unique_ptr<CB> cb {new CB()};
	Arg arg;

	World(pbt::Ctx& ctx, Arg a) : c(ctx), arg(std::move(a)) {}

	template<typename F> auto result(int id, F&& value) {
		(void) id;
		if constexpr(!std::is_void_v<Ret>) return value();
	}

	Ret handler(int id, const Conn* conn, const Arg& got) {
		{
			mem::Off off;
			if(frames.empty()) c.fail(__FILE__, __LINE__, "a function was called outside of any call");
			else {
				auto& f = frames.back();
				if(f.next >= f.expected.size() || f.expected[f.next] != id)
					c.fail(__FILE__, __LINE__, pbt::str("function ", id, " was called, expected ",
						f.next < f.expected.size() ? f.expected[f.next] : -1));
				++f.next;
			}
			EXPECT(got == arg, "function ", id, " got another argument");
			if(conn) EXPECT(conn->connectable() == cb.get(), "function ", id, " got the connection of another callback");
			if(!quiet) acts(id, conn);
		}
		if constexpr(!std::is_void_v<Ret>) {
			if constexpr(std::is_same_v<Ret, std::string>) return std::string(30, char('a' + id % 26));
			else return Ret(id);
		}
	}

	void acts(int id, const Conn* conn) {
		if constexpr(isRecursive<CB>) {
			auto& f = funcs[id];
			if(f.removesSelf && f.registered) {
				if(conn) {
					auto copy = *conn;
					copy.disconnect();
					removed(id);
				} else if(cb->disconnect(f.conn.id())) removed(id);
				else c.fail(__FILE__, __LINE__, "a registered function could not be disconnected");
			}
			auto before = failures;
			if(f.nested & 1 && budget-- > 0) add();
			if(f.nested & 2 && budget-- > 0 && frames.size() < 3) call();
			insideFailures += failures - before;
		} else (void) id, (void) conn;
	}

	void removed(int id) {
		funcs[id].registered = false;
		order.erase(std::find(order.begin(), order.end(), id));
	}

	// Plain function objects, all of them with a different way to be stored
	struct Small {
		World* w; int id;
		Ret operator()(Arg a) const { return w->handler(id, nullptr, a); }
	};
	struct Owning {
		World* w; int id; Token token;
		Ret operator()(const Arg& a) const { return w->handler(id, nullptr, a); }
	};
	struct Large {
		World* w; int id; Token token; std::array<char, 100> data {};
		Ret operator()(Arg a) { return w->handler(id, nullptr, a); }
	};
	struct WithConn {
		World* w; int id; Token token;
		Ret operator()(Conn conn, Arg a) const { return w->handler(id, &conn, a); }
	};

	void add() {
		auto id = ids++;
		auto kind = c.draw(isRecursive<CB> ? 4 : 3);
		auto p = plan(c);
		Func f;
		f.removesSelf = isRecursive<CB> && c.chance(1, 3);
		f.nested = isRecursive<CB> && frames.size() < 2 && c.chance(1, 3) ? int(c.range(1, 3)) : 0;
		c.note(std::string(frames.size() * 2, ' '), "add ", id, " kind ", kind, " fault at ", p.at, p.lasting ? " lasting" : "",
			f.removesSelf ? ", removes itself" : "", f.nested & 1 ? ", adds" : "", f.nested & 2 ? ", calls" : "", "; ");
		auto failed = false;
		switch(kind) {
			case 0: failed = fails(p.at, p.lasting, [&] { f.conn = cb->add(Small {this, id}); }); break;
			case 1: failed = fails(p.at, p.lasting, [&] { f.conn = (*cb += Owning {this, id, Token(live, id)}); }); break;
			case 2: failed = fails(p.at, p.lasting, [&] { f.conn = cb->add(Large {this, id, Token(live, id)}); }); break;
			case 3: {
				std::function<Ret(Arg)> func = Owning {this, id, Token(live, id)};
				failed = fails(p.at, p.lasting, [&] { f.conn = cb->add(func); });
				if(failed) EXPECT(bool(func), "the function passed to a failed add is gone");
				break;
			}
			case 4:
				if constexpr(isRecursive<CB>)
					failed = fails(p.at, p.lasting, [&] { f.conn = cb->add(std::function<Ret(Conn, Arg)>(WithConn {this, id, Token(live, id)})); });
				break;
		}
		if(failed) {
			++failures;
			EXPECT(mem::fired, "bad_alloc although memory was available");
			EXPECT(live[id] == 0 || !frames.empty(), "a function whose registration failed is alive");
			return;
		}
		if(mem::fired) ++survived;
		EXPECT(f.conn.connected(), "connection of a new function is not connected");
		EXPECT(f.conn.connectable() == cb.get(), "connection belongs to another callback");
		for(auto& o : funcs) if(o.second.registered && !isTracked<decltype(f.conn.id())>)
			EXPECT(o.second.conn.id().get() != f.conn.id().get(), "id of function ", id, " is the one of ", o.first);
		funcs[id] = f;
		order.push_back(id);
	}

	void call() {
		auto p = plan(c);
		if(quiet) p = {1000000, false};
		if(!quiet) c.note(std::string(frames.size() * 2, ' '), "call, fault at ", p.at, p.lasting ? " lasting" : "", "; ");
		frames.push_back({order, 0});
		auto depth = frames.size();
		auto failed = false;
		if constexpr(std::is_void_v<Ret>) {
			failed = fails(p.at, p.lasting, [&] { cb->call(arg); });
		} else {
			std::vector<Ret> ret;
			failed = fails(p.at, p.lasting, [&] { ret = cb->call(arg); });
			if(!failed) {
				const auto& e = frames.back().expected;
				EXPECT(ret.size() == e.size(), "call returned ", ret.size(), " results, expected ", e.size());
				for(std::size_t i = 0; i < e.size() && i < ret.size(); ++i) {
					if constexpr(std::is_same_v<Ret, std::string>)
						EXPECT(ret[i] == std::string(30, char('a' + e[i] % 26)), "wrong result at ", i);
					else EXPECT(ret[i] == Ret(e[i]), "wrong result at ", i);
				}
			}
		}
		REQUIRE(frames.size() == depth, "call frames");
		if(failed) {
			++failures;
			EXPECT(mem::fired, "bad_alloc although memory was available");
		} else {
			EXPECT(frames.back().next == frames.back().expected.size(), "only ", frames.back().next, " functions were called of ",
				frames.back().expected.size());
			if(mem::fired) ++survived;
		}
		frames.pop_back();
	}

	// outside of calls: exactly the expected functions are registered and alive
	void check() {
		quiet = true;
		call();
		quiet = false;
		for(auto& f : funcs) {
			if constexpr(isTracked<decltype(f.second.conn.id())>) {
				EXPECT(f.second.conn.connected() == f.second.registered, "tracked connection of ", f.first);
			}
		}
		for(auto& l : live) {
			auto f = funcs.find(l.first);
			auto reg = f != funcs.end() && f->second.registered;
			EXPECT((l.second > 0) == reg, "function ", l.first, reg ? " is registered but dead" : " is not registered but alive");
		}
	}

	void run(unsigned ops) {
		for(auto i = 0u; c.more(i, ops, 11, 12); ++i) {
			budget = 12;
			switch(c.weighted({5, 4, 2, 1, 1})) {
				case 0: add(); break;
				case 1: call(); break;
				case 2: { // needs no memory
					if(order.empty()) break;
					auto id = c.pickFrom(order);
					c.note("disconnect ", id, " without memory", "; ");
					auto r = false;
					auto conn = funcs[id].conn;
					auto failed = fails(0, true, [&] { r = cb->disconnect(conn.id()); });
					EXPECT(!failed && r, "disconnecting function ", id, " failed");
					removed(id);
					break;
				}
				case 3: {
					c.note("clear without memory", "; ");
					EXPECT(!fails(0, true, [&] { cb->clear(); }), "clear failed");
					for(auto& f : funcs) f.second.registered = false;
					order.clear();
					break;
				}
				case 4: {
					c.note("destroy without memory", "; ");
					EXPECT(!fails(0, true, [&] { cb.reset(); }), "destruction failed");
					for(auto& f : funcs) f.second.registered = false;
					order.clear();
					for(auto& l : live) EXPECT(l.second == 0, "function ", l.first, " outlives its callback");
					for(auto& f : funcs) {
						if constexpr(isTracked<decltype(f.second.conn.id())>)
							EXPECT(!f.second.conn.connected(), "tracked connection of a destroyed callback");
					}
					funcs.clear();
					cb.reset(new CB());
					break;
				}
			}
			check();
			if(c.failed()) return;
		}
	}
};

template<typename CB, typename Ret, typename Arg> void program(pbt::Ctx& c, Arg arg, unsigned ops = 14) {
	auto before = mem::counted;
	{
		World<CB, Ret, Arg> w(c, std::move(arg));
		w.run(ops);
		c.nontrivial(w.failures > 0 && w.ids > 1);
		c.label(w.insideFailures > 0, "failure inside a handler");
		c.label(w.survived > 0, "operation finished although an allocation failed");
	}
	EXPECT(mem::counted == before, mem::counted - before, " allocations were not released");
}

// - clone -
struct Shape : nytl::AbstractCloneable<Shape> {
	virtual std::string text() const = 0;
	virtual ~Shape() = default;
};
struct Data {
	std::string name;
	std::vector<std::string> parts;
	std::shared_ptr<int> shared;
};
struct One : nytl::DeriveCloneable<One, Shape> {
	Data data;
	std::string text() const override {
		std::string r = data.name;
		for(auto& p : data.parts) r += "," + p;
		return r;
	}
};
struct Other : nytl::AbstractCloneable<Other> {
	virtual ~Other() = default;
	virtual const std::string& second() const = 0;
};
struct Two : nytl::DeriveCloneable<Two, Other, Shape> {
	Data data;
	std::string more;
	const std::string& second() const override { return more; }
	std::string text() const override {
		std::string r = data.name;
		for(auto& p : data.parts) r += "," + p;
		return r;
	}
};
struct Node : nytl::Cloneable<Node> {
	Data data;
	std::string text() const {
		std::string r = data.name;
		for(auto& p : data.parts) r += "," + p;
		return r;
	}
	virtual ~Node() = default;
};

template<typename T, typename Base> void cloning(pbt::Ctx& c) {
	auto before = mem::counted;
	{
		T obj;
		auto n = c.draw(4);
		obj.data.name = std::string(c.draw(40), 'n');
		for(auto i = 0u; i < n; ++i) obj.data.parts.push_back(std::string(c.draw(40), char('a' + i)));
		obj.data.shared = std::make_shared<int>(7);
		Base& base = obj;
		auto text = base.text();
		auto p = plan(c);
		auto move = c.boolean();
		c.note(move ? "cloneMove" : "clone", " of ", text, ", fault at ", p.at, "; ");
		std::unique_ptr<Base> ret;
		auto failed = fails(p.at, p.lasting, [&] {
			if(move) ret = nytl::cloneMove(base);
			else ret = nytl::clone(static_cast<const Base&>(base));
		});
		if(failed) {
			EXPECT(mem::fired, "bad_alloc although memory was available");
			EXPECT(base.text() == text, "a failed ", move ? "cloneMove" : "clone", " changed the object to ", base.text());
			EXPECT(obj.data.shared.use_count() == 1, "part of a failed clone is alive");
		} else {
			REQUIRE(ret != nullptr, "clone is null");
			EXPECT(ret->text() == text, "the clone is ", ret->text());
			if(!move) EXPECT(base.text() == text, "clone changed the object");
		}
		c.nontrivial(failed && (!n || p.at > 0 || move));
	}
	EXPECT(mem::counted == before, mem::counted - before, " allocations were not released");
}

// - strings -
void strings(pbt::Ctx& c) {
	auto before = mem::counted;
	{
		std::u32string s;
		auto n = c.size(60);
		for(std::size_t i = 0; i < n; ++i) {
			switch(c.draw(3)) {
				case 0: s += char32_t(c.range('a', 'z')); break;
				case 1: s += char32_t(c.range(0x80, 0x7FF)); break;
				case 2: s += char32_t(c.range(0x800, 0xD7FF)); break;
				case 3: s += char32_t(c.range(0x10000, 0x10FFFF)); break;
			}
		}
		const auto utf32 = s;
		const auto utf8 = nytl::toUtf8(utf32);
		const auto utf16 = nytl::toUtf16(utf8);
		auto p = plan(c);
		auto which = c.draw(5);
		c.note("conversion ", which, " of ", n, " characters, fault at ", p.at, "; ");
		std::string r8;
		std::u16string r16;
		std::u32string r32;
		auto failed = fails(p.at, p.lasting, [&] {
			switch(which) {
				case 0: r8 = nytl::toUtf8(utf16); break;
				case 1: r8 = nytl::toUtf8(utf32); break;
				case 2: r16 = nytl::toUtf16(utf8); break;
				case 3: r16 = nytl::toUtf16(utf32); break;
				case 4: r32 = nytl::toUtf32(utf8); break;
				case 5: r32 = nytl::toUtf32(utf16); break;
			}
		});
		if(failed) EXPECT(mem::fired, "bad_alloc although memory was available");
		else if(which < 2) EXPECT(r8 == utf8, "wrong conversion to utf8");
		else if(which < 4) EXPECT(r16 == utf16, "wrong conversion to utf16");
		else EXPECT(r32 == utf32, "wrong conversion to utf32");
		c.nontrivial(failed);
	}
	EXPECT(mem::counted == before, mem::counted - before, " allocations were not released");
}

// - buffers -
void buffers(pbt::Ctx& c) {
	auto before = mem::counted;
	{
		nytl::DynWriteBuf buf;
		std::vector<std::byte> model;
		model.reserve(4096);
		auto failures = 0u;
		for(auto i = 0u; c.more(i, 20, 15, 16); ++i) {
			auto p = plan(c);
			std::vector<unsigned char> src = c.pattern(c.size(100));
			auto number = std::uint32_t(c.draw(0xFFFFFFFF));
			auto kind = c.draw(2);
			const void* data = &number;
			auto size = sizeof(number);
			if(kind == 1) { data = src.data(); size = src.size(); }
			if(kind == 2) { data = src.data(); size = src.size() / 4 * 4; }
			c.note("write ", size, " bytes after ", model.size(), ", fault at ", p.at, "; ");
			auto failed = fails(p.at, p.lasting, [&] {
				switch(kind) {
					case 0: nytl::write(buf, number); break;
					case 1: nytl::write(buf, src); break;
					case 2: nytl::write(buf, nytl::ReadBuf(reinterpret_cast<const std::byte*>(src.data()), size)); break;
				}
			});
			if(failed) {
				++failures;
				EXPECT(mem::fired, "bad_alloc although memory was available");
			} else if(size) {
				auto b = static_cast<const std::byte*>(data);
				model.insert(model.end(), b, b + size);
			}
			EXPECT(buf == model, failed ? "a failed write changed the buffer" : "wrong bytes in the buffer");
		}
		c.nontrivial(failures > 0 && !model.empty());
	}
	EXPECT(mem::counted == before, mem::counted - before, " allocations were not released");
}

} // namespace

const std::string text = "an argument that does not fit into a short string";

FACET(recursive_plain, 150000) { program<nytl::RecursiveCallback<void(int)>, void, int>(c, 5); }
FACET(recursive_tracked, 100000) { program<nytl::TrackedRecursiveCallback<int(std::string)>, int, std::string>(c, text); }
FACET(recursive_results, 100000) { program<nytl::RecursiveCallback<std::string(int)>, std::string, int>(c, 8); }
FACET(simple_plain, 100000) { program<nytl::Callback<int(std::string)>, int, std::string>(c, text); }
FACET(simple_tracked, 100000) { program<nytl::TrackedCallback<std::string(int)>, std::string, int>(c, 6); }
FACET(clone, 200000) {
	switch(c.draw(3)) {
		case 0: cloning<One, Shape>(c); break;
		case 1: cloning<Two, Shape>(c); break;
		case 2: cloning<Node, Node>(c); break;
		case 3: cloning<One, One>(c); break;
	}
}
FACET(utf, 150000) { strings(c); }
FACET(buffer, 80000) { buffers(c); }
