// C02: random programs of operations executed from within handlers (see cbworld.hpp).
#include "cbworld.hpp"

namespace {

template<typename CB>
void program(pbt::Ctx& c, unsigned depth, unsigned budget, unsigned ops, unsigned many = 0, unsigned deep = 0,
		unsigned worn = 0, bool aged = false) {
	cbw::Options o;
	o.maxDepth = depth;
	o.budget = budget;
	o.maxOps = ops;
	o.many = many;
	o.deep = deep;
	o.worn = worn;
	o.wornIds = true;
	o.aged = aged;
	cbw::World<CB> w(c, o);
	w.run();
	c.nontrivial((w.removalInside || w.clearInside) && (w.addInside || w.nestedCall));
}

} // namespace

FACET(plain_void, 60000) { program<nytl::RecursiveCallback<void(int)>>(c, 4, 60, 20); }
FACET(tracked_void, 60000) { program<nytl::TrackedRecursiveCallback<void(int)>>(c, 4, 60, 20); }
FACET(plain_int, 40000) { program<nytl::RecursiveCallback<int(int)>>(c, 4, 60, 20); }
FACET(tracked_int, 40000) { program<nytl::TrackedRecursiveCallback<int(int)>>(c, 4, 60, 20); }
FACET(shallow, 60000) { program<nytl::RecursiveCallback<void(int)>>(c, 2, 12, 6); }
FACET(many_void, 6000) { program<nytl::RecursiveCallback<void(int)>>(c, 3, 60, 8, 150); }
FACET(many_tracked, 6000) { program<nytl::TrackedRecursiveCallback<int(int)>>(c, 3, 60, 8, 150); }
FACET(dive_void, 10000) { program<nytl::RecursiveCallback<void(int)>>(c, 3, 80, 8, 0, 300); }
FACET(dive_tracked, 10000) { program<nytl::TrackedRecursiveCallback<int(int)>>(c, 3, 80, 8, 0, 300); }
FACET(deep, 10000) { program<nytl::TrackedRecursiveCallback<int(int)>>(c, 8, 150, 30); }
FACET(worn_void, 400) { program<nytl::RecursiveCallback<void(int)>>(c, 4, 80, 20, 0, 0, 70000); }
FACET(worn_tracked, 400) { program<nytl::TrackedRecursiveCallback<void(int)>>(c, 4, 80, 20, 0, 0, 70000); }
FACET(worn_int, 400) { program<nytl::RecursiveCallback<int(int)>>(c, 4, 80, 20, 0, 0, 70000); }
FACET(aged_void, 20000) { program<nytl::RecursiveCallback<void(int)>>(c, 4, 60, 20, 0, 0, 0, true); }
FACET(aged_tracked, 20000) { program<nytl::TrackedRecursiveCallback<int(int)>>(c, 4, 60, 20, 0, 0, 0, true); }
