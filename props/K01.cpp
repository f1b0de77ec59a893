// K01: clone and cloneMove over a family of class hierarchies.
#include "pbt.hpp"
#include <nytl/clone.hpp>

#include <memory>
#include <string>
#include <typeinfo>
#include <utility>

namespace {

long live = 0; // alive payloads, to find leaks and double destruction

// Copyable payload with a value that a move empties
struct Data {
	std::string text;
	std::uint64_t num {};
	std::shared_ptr<int> shared = std::make_shared<int>(0);
	Data() { ++live; }
	Data(const Data& o) : text(o.text), num(o.num), shared(std::make_shared<int>(*o.shared)) { ++live; }
	Data(Data&& o) : text(std::move(o.text)), num(o.num), shared(std::move(o.shared)) { ++live; }
	~Data() { --live; num = 0xdeaddeaddeaddeadull; }
};

struct Snapshot {
	std::string text;
	std::uint64_t num;
	int val;
	bool operator==(const Snapshot& o) const { return text == o.text && num == o.num && val == o.val; }
};

void fill(pbt::Ctx& c, Data& d) {
	d.text.clear();
	for(auto n = c.range(0, 40); n > 0; --n) d.text.push_back(char('a' + c.draw(25)));
	d.num = c.draw(~0ull);
	*d.shared = int(c.sym(1000));
}
Snapshot snap(const Data& d) { return {d.text, d.num, d.shared ? *d.shared : -12345}; }

// - hierarchies -
struct Plain1 { virtual ~Plain1() = default; int p1 {7}; };
struct Plain2 { double p2[3] {1, 2, 3}; };

// abstract base, single inheritance, three levels
struct Shape : nytl::AbstractCloneable<Shape> {
	virtual std::uint64_t tag() const = 0;
	Data shapeData;
};
struct Circle : nytl::DeriveCloneable<Circle, Shape> {
	std::uint64_t tag() const override { return circleData.num; }
	Data circleData;
};
struct Ring : nytl::DeriveCloneable<Ring, Circle> {
	Data ringData;
};

// concrete base
struct Node : nytl::Cloneable<Node> {
	Data nodeData;
	virtual int kind() const { return 1; }
};
struct Leaf : nytl::DeriveCloneable<Leaf, Node> {
	Data leafData;
	int kind() const override { return 2; }
};

// two and three bases of different size
struct Named : nytl::AbstractCloneable<Named> {
	virtual const Data& name() const = 0;
	char pad[40] {};
};
struct Sized : nytl::AbstractCloneable<Sized> {
	Data sizedData;
	virtual int size() const = 0;
};
struct Pair : nytl::DeriveCloneable<Pair, Shape, Named> {
	std::uint64_t tag() const override { return pairData.num ^ 1; }
	const Data& name() const override { return pairData; }
	Data pairData;
};
struct Triple : nytl::DeriveCloneable<Triple, Named, Sized, Node> {
	const Data& name() const override { return tripleData; }
	int size() const override { return 3; }
	int kind() const override { return 3; }
	Data tripleData;
};
// derived from a class with several bases, and from two derived ones
struct Pair2 : nytl::DeriveCloneable<Pair2, Pair> {
	Data pair2Data;
};
struct Mixed : nytl::DeriveCloneable<Mixed, Leaf, Circle> {
	Data mixedData;
};
// the clone base is not at the start although there is only one
struct Late : Plain1, nytl::DeriveCloneable<Late, Circle> {
	Data lateData;
};
struct Late2 : Plain2, Plain1, nytl::DeriveCloneable<Late2, Sized, Leaf> {
	int size() const override { return 9; }
	Data late2Data;
};
// with constructor of the base
struct Ctor : nytl::Cloneable<Ctor> {
	explicit Ctor(int v) : value(v) {}
	int value;
	Data ctorData;
};
struct CtorDerived : nytl::DeriveCloneable<CtorDerived, Ctor> {
	CtorDerived() : nytl::DeriveCloneable<CtorDerived, Ctor>(42) {}
	Data ctorDerivedData;
};

// classes whose constructors tell apart how they are called
struct Fussy : nytl::DeriveCloneable<Fussy, Shape> {
	Fussy() = default;
	Fussy(const Fussy& o) : DeriveCloneable(o), fussyData(o.fussyData) {}
	Fussy(Fussy&& o) : DeriveCloneable(std::move(o)), fussyData(std::move(o.fussyData)) {}
	Fussy(Fussy& o) : DeriveCloneable(static_cast<const Fussy&>(o)), fussyData(o.fussyData) { o.fussyData.num ^= 1; }
	Fussy(const Fussy&& o) : DeriveCloneable(o), fussyData(o.fussyData) { fussyData.num ^= 1; }
	std::uint64_t tag() const override { return fussyData.num; }
	Data fussyData;
};
struct FussyRoot : nytl::Cloneable<FussyRoot> {
	FussyRoot() = default;
	FussyRoot(const FussyRoot& o) : Cloneable(o), rootData(o.rootData) {}
	FussyRoot(FussyRoot&& o) : Cloneable(std::move(o)), rootData(std::move(o.rootData)) {}
	FussyRoot(FussyRoot& o) : Cloneable(static_cast<const FussyRoot&>(o)), rootData(o.rootData) { o.rootData.num ^= 1; }
	FussyRoot(const FussyRoot&& o) : Cloneable(o), rootData(o.rootData) { rootData.num ^= 1; }
	virtual ~FussyRoot() = default;
	Data rootData;
};
struct FussyTwo : nytl::DeriveCloneable<FussyTwo, Named, FussyRoot> {
	FussyTwo() = default;
	FussyTwo(const FussyTwo& o) : DeriveCloneable(o), twoData(o.twoData) {}
	FussyTwo(FussyTwo&& o) : DeriveCloneable(std::move(o)), twoData(std::move(o.twoData)) {}
	template<typename T> explicit FussyTwo(T&& o) : twoData(o.twoData) { twoData.num ^= 1; }
	const Data& name() const override { return twoData; }
	Data twoData;
};

void mix(Snapshot& a, const Data& d) {
	auto s = snap(d);
	a.text += "/" + s.text;
	a.num = a.num * 31 + s.num;
	a.val = a.val * 7 + s.val;
}

struct Access {
	template<typename F> static void each(Circle& o, F f) { f(o.shapeData); f(o.circleData); }
	template<typename F> static void each(Ring& o, F f) { f(o.shapeData); f(o.circleData); f(o.ringData); }
	template<typename F> static void each(Node& o, F f) { f(o.nodeData); }
	template<typename F> static void each(Leaf& o, F f) { f(o.nodeData); f(o.leafData); }
	template<typename F> static void each(Pair& o, F f) { f(o.shapeData); f(o.pairData); }
	template<typename F> static void each(Pair2& o, F f) { f(o.shapeData); f(o.pairData); f(o.pair2Data); }
	template<typename F> static void each(Triple& o, F f) { f(o.sizedData); f(o.nodeData); f(o.tripleData); }
	template<typename F> static void each(Mixed& o, F f)
		{ f(o.nodeData); f(o.leafData); f(o.shapeData); f(o.circleData); f(o.mixedData); }
	template<typename F> static void each(Late& o, F f) { f(o.shapeData); f(o.circleData); f(o.lateData); }
	template<typename F> static void each(Late2& o, F f)
		{ f(o.sizedData); f(o.nodeData); f(o.leafData); f(o.late2Data); }
	template<typename F> static void each(Fussy& o, F f) { f(o.shapeData); f(o.fussyData); }
	template<typename F> static void each(FussyRoot& o, F f) { f(o.rootData); }
	template<typename F> static void each(FussyTwo& o, F f) { f(o.rootData); f(o.twoData); }
	template<typename F> static void each(CtorDerived& o, F f) { f(o.ctorData); f(o.ctorDerivedData); }
};

template<typename X> Snapshot state(X& x) {
	Snapshot s {"", 0, 0};
	Access::each(x, [&](Data& d) { mix(s, d); });
	return s;
}

template<typename X> void refill(pbt::Ctx& c, X& x) {
	Access::each(x, [&](Data& d) { fill(c, d); });
}

struct Holder {
	virtual ~Holder() = default;
};
template<typename B> struct HolderT : Holder {
	std::unique_ptr<B> ptr;
	explicit HolderT(std::unique_ptr<B> p) : ptr(std::move(p)) {}
};

// Clones (or moves) x through B and checks the result; returns the new object
template<typename X, typename B>
X* step(pbt::Ctx& c, X& x, bool move, std::unique_ptr<Holder>& keep) {
	auto before = state(x);
	auto count = live;
	std::size_t parts = 0;
	Access::each(x, [&](Data&) { ++parts; });
	B& b = x;
	auto raw = reinterpret_cast<char*>(static_cast<B*>(&x)) - reinterpret_cast<char*>(&x);
	if(raw != 0) c.nontrivial();

	auto res = move ? nytl::cloneMove(b) : nytl::clone(static_cast<const B&>(b));
	static_assert(std::is_same_v<decltype(nytl::clone(b)), std::unique_ptr<B>>);
	static_assert(std::is_same_v<decltype(nytl::cloneMove(b)), std::unique_ptr<B>>);
	REQUIRE(res, "result is null");
	EXPECT(live == count + long(parts), "object count: ", live, " instead of ", count + long(parts));

	B& rb = *res;
	REQUIRE(typeid(rb) == typeid(X), "dynamic type of the copy is ", typeid(rb).name());
	auto* rx = dynamic_cast<X*>(&rb);
	REQUIRE(rx && rx != &x, "copy is not a new object");
	REQUIRE(static_cast<B*>(rx) == &rb, "wrong base returned");

	EXPECT(state(*rx) == before, "copy differs: ", state(*rx).text, " instead of ", before.text);
	if(!move) {
		EXPECT(state(x) == before, "original was changed");
		// independent of each other
		refill(c, x);
		EXPECT(state(*rx) == before, "copy changed with the original");
		auto orig = state(x);
		Snapshot s {"", 0, 0};
		Access::each(*rx, [&](Data& d) { d.text += "!"; *d.shared += 1; d.num ^= 5; });
		EXPECT(state(x) == orig, "original changed with the copy");
	} else {
		Access::each(x, [&](Data& d) { EXPECT(!d.shared, "value was copied, not moved out"); });
	}
	keep = std::make_unique<HolderT<B>>(std::move(res));
	return rx;
}

template<typename X, typename... Bs>
void chain(pbt::Ctx& c) {
	auto count = live;
	{
		X start;
		refill(c, start);
		X* cur = &start;
		std::unique_ptr<Holder> keep;
		using Step = X* (*)(pbt::Ctx&, X&, bool, std::unique_ptr<Holder>&);
		static constexpr Step steps[] = {&step<X, Bs>...};
		auto n = c.range(1, 5);
		if(n >= 2) c.nontrivial();
		for(auto i = 0; i < n && !c.failed(); ++i) {
			auto which = c.draw(sizeof...(Bs) - 1);
			auto move = c.chance(1, 3);
			c.note(typeid(X).name(), " via base ", which, move ? " moved" : " cloned");
			std::unique_ptr<Holder> next;
			cur = steps[which](c, *cur, move, next);
			keep = std::move(next); // destroys the previous object
		}
	}
	EXPECT(live == count, "objects leaked or destroyed twice: ", live - count);
}

} // namespace

FACET(hierarchies, 60000) {
	switch(c.draw(14)) {
		case 0: chain<Circle, Circle, Shape>(c); break;
		case 1: chain<Ring, Ring, Circle, Shape>(c); break;
		case 2: chain<Node, Node>(c); break;
		case 3: chain<Leaf, Leaf, Node>(c); break;
		case 4: chain<Pair, Pair, Shape, Named>(c); break;
		case 5: chain<Pair2, Pair2, Pair, Shape, Named>(c); break;
		case 6: chain<Triple, Triple, Named, Sized, Node>(c); break;
		case 7: chain<Mixed, Mixed, Leaf, Node, Circle, Shape>(c); break;
		case 8: chain<Late, Late, Circle, Shape>(c); break;
		case 9: chain<Late2, Late2, Sized, Leaf, Node>(c); break;
		case 10: chain<CtorDerived, CtorDerived, Ctor>(c); break;
		case 11: chain<Pair2, Pair, Named, Shape>(c); break;
		case 12: chain<Fussy, Fussy, Shape>(c); break;
		case 13: chain<FussyRoot, FussyRoot>(c); break;
		case 14: chain<FussyTwo, FussyTwo, Named, FussyRoot>(c); break;
	}
}

namespace {

// move-only hierarchies
struct Job : nytl::AbstractCloneMovable<Job> {
	virtual int run() = 0;
	char pad[24] {};
};
struct Task : nytl::CloneMovable<Task> {
	std::unique_ptr<int> task;
};
struct PrintJob : nytl::DeriveCloneMovable<PrintJob, Job> {
	std::unique_ptr<int> print;
	int run() override { return *print; }
};
struct Both : nytl::DeriveCloneMovable<Both, Job, Task> {
	std::unique_ptr<int> both;
	int run() override { return *both; }
};
struct Deep : nytl::DeriveCloneMovable<Deep, Both> {
	std::unique_ptr<int> deep;
};
struct LateJob : Plain2, Plain1, nytl::DeriveCloneMovable<LateJob, Task> {
	std::unique_ptr<int> late;
};

template<typename F> void eachPtr(Task& o, F f) { f(o.task); }
template<typename F> void eachPtr(PrintJob& o, F f) { f(o.print); }
template<typename F> void eachPtr(Both& o, F f) { f(o.task); f(o.both); }
template<typename F> void eachPtr(Deep& o, F f) { f(o.task); f(o.both); f(o.deep); }
template<typename F> void eachPtr(LateJob& o, F f) { f(o.task); f(o.late); }

template<typename X, typename B>
X* moveStep(pbt::Ctx& c, X& x, std::unique_ptr<Holder>& keep) {
	std::vector<int*> ptrs;
	std::vector<int> vals;
	eachPtr(x, [&](std::unique_ptr<int>& p) { ptrs.push_back(p.get()); vals.push_back(*p); });
	B& b = x;
	if(static_cast<void*>(&b) != static_cast<void*>(&x)) c.nontrivial();
	auto res = nytl::cloneMove(b);
	REQUIRE(res, "result is null");
	B& rb = *res;
	REQUIRE(typeid(rb) == typeid(X), "dynamic type of the moved object is ", typeid(rb).name());
	auto* rx = dynamic_cast<X*>(&rb);
	REQUIRE(rx && rx != &x, "not a new object");
	REQUIRE(static_cast<B*>(rx) == &rb, "wrong base returned");
	std::size_t i = 0;
	eachPtr(*rx, [&](std::unique_ptr<int>& p) {
		REQUIRE(p.get() == ptrs[i], "value was not moved");
		EXPECT(*p == vals[i], "wrong value");
		++i;
	});
	eachPtr(x, [&](std::unique_ptr<int>& p) { EXPECT(!p, "source still owns the value"); });
	keep = std::make_unique<HolderT<B>>(std::move(res));
	return rx;
}

template<typename X, typename... Bs>
void moveChain(pbt::Ctx& c) {
	X start;
	eachPtr(start, [&](std::unique_ptr<int>& p) { p = std::make_unique<int>(int(c.sym(100000))); });
	X* cur = &start;
	std::unique_ptr<Holder> keep;
	using Step = X* (*)(pbt::Ctx&, X&, std::unique_ptr<Holder>&);
	static constexpr Step steps[] = {&moveStep<X, Bs>...};
	auto n = c.range(1, 5);
	if(n >= 2) c.nontrivial();
	for(auto i = 0; i < n && !c.failed(); ++i) {
		auto which = c.draw(sizeof...(Bs) - 1);
		c.note(typeid(X).name(), " via base ", which);
		std::unique_ptr<Holder> next;
		cur = steps[which](c, *cur, next);
		keep = std::move(next);
	}
}

} // namespace

FACET(moveOnly, 40000) {
	switch(c.draw(4)) {
		case 0: moveChain<Task, Task>(c); break;
		case 1: moveChain<PrintJob, PrintJob, Job>(c); break;
		case 2: moveChain<Both, Both, Job, Task>(c); break;
		case 3: moveChain<Deep, Deep, Both, Job, Task>(c); break;
		case 4: moveChain<LateJob, LateJob, Task>(c); break;
	}
}
