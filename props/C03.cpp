// C03: histories on a callback with an id type that records set() and removed().
#include "cbworld.hpp"
#include "recid.hpp"

namespace {

template<typename CB>
void program(pbt::Ctx& c, unsigned depth, unsigned budget, unsigned many = 0, unsigned deep = 0,
		unsigned worn = 0) {
	cbw::Options o;
	o.maxDepth = depth;
	o.budget = budget;
	o.maxOps = 18;
	o.many = many;
	o.deep = deep;
	o.worn = worn;
	cbw::armed = 0;
	cbw::insideCall = false;
	std::vector<std::shared_ptr<cbw::Record>> recs;
	cbw::World<CB> w(c, o);

	auto check = [&](bool outer) {
		for(std::size_t k = 0; k < recs.size(); ++k) {
			auto& r = *recs[k];
			EXPECT(r.error.empty(), "id of f", k, ": ", r.error);
			if(w.isRegistered(static_cast<int>(k))) {
				EXPECT(r.removed == 0, "id of registered function ", k, " was told removed()");
				EXPECT(r.sets == 0, "id of registered function ", k, " was set");
			} else if(outer) {
				EXPECT(r.removed == 1, "id of removed function ", k, " was told removed() ", r.removed, " times");
			} else {
				EXPECT(r.removed <= 1, "id of removed function ", k, " was told removed() twice");
			}
		}
	};
	w.hooks.added = [&](int k) {
		REQUIRE(static_cast<std::size_t>(k) == recs.size(), "harness");
		auto id = w.conns[k].id();
		REQUIRE(id.rec, "connection with a default constructed id");
		EXPECT(id.get() == id.rec->initial && id.get() > 0, "id of the connection is not the constructed one");
		recs.push_back(id.rec);
		if(k > 0) EXPECT(recs[k] != recs[k - 1], "id used twice");
	};
	w.hooks.step = check;
	w.hooks.state = [&](bool inside) { cbw::insideCall = inside; };
	w.run();
	auto left = w.registered.size();
	w.registered.clear();
	w.cb.reset();
	if(!c.failed()) {
		c.note("destroy; ");
		check(true);
	}
	c.nontrivial(w.removedBy[0] + w.removedBy[1] + w.removedBy[2] + (left > 0) >= 2 || w.removalInside || w.clearInside);
	c.label(left > 0, "destroyed with registered functions");
}

} // namespace

FACET(recursive_value, 60000) { program<nytl::RecursiveCallback<void(int), cbw::ValueId>>(c, 4, 50); }
FACET(recursive_shared, 60000) { program<nytl::RecursiveCallback<void(int), cbw::SharedId>>(c, 4, 50); }
FACET(recursive_int, 30000) { program<nytl::RecursiveCallback<int(int), cbw::SharedId>>(c, 3, 30); }
FACET(recursive_many, 6000) { program<nytl::RecursiveCallback<void(int), cbw::SharedId>>(c, 3, 50, 150); }
FACET(recursive_dive, 8000) { program<nytl::RecursiveCallback<void(int), cbw::SharedId>>(c, 3, 50, 0, 300); }
FACET(simple_many, 6000) { program<nytl::Callback<void(int), cbw::SharedId>>(c, 1, 0, 150); }
FACET(simple_value, 40000) { program<nytl::Callback<void(int), cbw::ValueId>>(c, 1, 0); }
FACET(simple_shared, 40000) { program<nytl::Callback<int(int), cbw::SharedId>>(c, 1, 0); }
FACET(recursive_worn, 400) { program<nytl::RecursiveCallback<void(int), cbw::SharedId>>(c, 4, 80, 0, 0, 70000); }
