// C06: programs with injected exceptions from handlers and id constructors.
#include "cbworld.hpp"
#include "recid.hpp"

namespace {

template<typename CB>
void program(pbt::Ctx& c, unsigned depth, unsigned budget, unsigned ops, unsigned many = 0, unsigned deep = 0,
		unsigned worn = 0) {
	cbw::Options o;
	o.handlerThrows = true;
	o.maxDepth = depth;
	o.budget = budget;
	o.maxOps = ops;
	o.many = many;
	o.deep = deep;
	o.worn = worn;
	o.wornIds = std::is_same_v<typename cbw::Traits<CB>::Id, nytl::ConnectionID>;
	cbw::armed = 0;
	cbw::insideCall = false;
	cbw::World<CB> w(c, o);
	unsigned idThrown = 0;
	if constexpr(std::is_base_of_v<cbw::ValueId, typename cbw::Traits<CB>::Id>) {
		w.hooks.beforeAdd = [] { cbw::armed = 0; };
		w.hooks.added = [](int) { cbw::armed = 0; };
		w.idThrows = [&] {
			auto arm = c.chance(1, 5);
			cbw::armed = arm ? 1 : 0;
			idThrown += arm;
			return arm;
		};
	}
	w.hooks.state = [&](bool inside) { cbw::insideCall = inside; };
	w.run();
	cbw::armed = 0;
	c.nontrivial(cbw::Traits<CB>::recursive ? w.thrownAfterChange : (w.booms > 0 && w.removedBy[0]));
	c.label(idThrown > 0, "an id constructor threw");
}

// An exception of an id constructor leaves a handler and crosses running calls.
template<typename CB>
void idThrowsInside(pbt::Ctx& c) {
	cbw::armed = 0;
	cbw::insideCall = true;
	CB cb;
	std::vector<int> log;
	std::vector<typename CB::Connection> conns;
	auto n = c.range(1, 6);
	auto at = c.range(0, n - 1);
	auto depth = c.range(1, 3); // calls running when the id throws
	auto level = 0;
	std::vector<bool> registered(n, true);
	auto removeBefore = c.chance(1, 2) ? c.range(0, n - 1) : -1;
	c.note(n, " functions, f", at, " adds at depth ", depth, ", removes f", removeBefore, " before");
	for(auto i = 0; i < n; ++i) {
		conns.push_back(cb.add([&, i](int arg) {
			log.push_back(i);
			if(arg == 0 || i != at) return;
			if(++level < depth) {
				cb(1);
				return;
			}
			if(removeBefore >= 0) {
				cb.disconnect(conns[removeBefore].id());
				registered[removeBefore] = false;
			}
			cbw::armed = 1;
			cb.add([&](int) { log.push_back(100); });
		}));
	}
	bool thrown = false;
	try { cb(1); } catch(int i) { thrown = i == 42; }
	cbw::armed = 0;
	EXPECT(thrown, "the exception of the id did not arrive");
	std::vector<int> expected;
	for(auto d = 0; d < depth; ++d) for(auto i = 0; i <= at; ++i) expected.push_back(i);
	EXPECT(log == expected, "wrong functions were called before the exception");
	log.clear();
	expected.clear();
	cb(0);
	for(auto i = 0; i < n; ++i) if(registered[i]) expected.push_back(i);
	EXPECT(log == expected, "wrong functions are registered after the exception");
	for(auto i = 0; i < n; ++i) {
		EXPECT(conns[i].id().rec->removed == (registered[i] ? 0u : 1u), "notification of the id of f", i);
		EXPECT(conns[i].id().rec->error.empty(), conns[i].id().rec->error);
	}
	c.nontrivial(n > 1 && removeBefore >= 0);
}

} // namespace


FACET(recursive_plain, 30000) { program<nytl::RecursiveCallback<void(int)>>(c, 4, 60, 20); }
FACET(recursive_tracked, 30000) { program<nytl::TrackedRecursiveCallback<int(int)>>(c, 4, 60, 20); }
FACET(recursive_value, 24000) { program<nytl::RecursiveCallback<int(int), cbw::ValueId>>(c, 4, 60, 20); }
FACET(recursive_shared, 24000) { program<nytl::RecursiveCallback<void(int), cbw::SharedId>>(c, 4, 60, 20); }
FACET(simple_plain, 16000) { program<nytl::Callback<int(int)>>(c, 1, 0, 20); }
FACET(simple_shared, 16000) { program<nytl::Callback<void(int), cbw::SharedId>>(c, 1, 0, 20); }
FACET(id_inside_value, 6000) { idThrowsInside<nytl::RecursiveCallback<void(int), cbw::ValueId>>(c); }
FACET(id_inside_shared, 6000) { idThrowsInside<nytl::RecursiveCallback<void(int), cbw::SharedId>>(c); }
FACET(recursive_many, 5000) { program<nytl::RecursiveCallback<void(int)>>(c, 3, 60, 10, 120); }
FACET(recursive_dive, 8000) { program<nytl::TrackedRecursiveCallback<int(int)>>(c, 3, 60, 10, 0, 300); }
FACET(simple_many, 5000) { program<nytl::Callback<int(int)>>(c, 1, 0, 10, 120); }
FACET(recursive_worn, 400) { program<nytl::RecursiveCallback<int(int)>>(c, 4, 80, 15, 0, 0, 70000); }
