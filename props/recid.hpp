// Connection id types that record what the callback tells them.
#pragma once

#include <cstdint>
#include <memory>
#include <string>

namespace cbw {

struct Record {
	std::int64_t initial {};
	std::int64_t value {};
	unsigned removed {};
	unsigned sets {};
	std::string error;
};

inline unsigned armed {};        // ids to construct until one throws, 0: none throws
inline bool insideCall {};       // maintained by the harness

inline void maybeThrow() {
	if(armed && --armed == 0) throw 42;
}

// The value belongs to each copy, like in nytl::ConnectionID
struct ValueId {
	std::int64_t value {};
	std::shared_ptr<Record> rec;

	ValueId() = default;
	ValueId(std::int64_t v) : value(v), rec(std::make_shared<Record>()) {
		rec->initial = rec->value = v;
		if(v <= 0) rec->error = "constructed with a value that is not positive";
		maybeThrow();
	}
	std::int64_t get() const noexcept { return value; }
	void set(std::int64_t v) noexcept {
		if(!rec) return;
		++rec->sets;
		if(v >= 0) rec->error = "set to a value that is not negative";
		if(rec->removed) rec->error = "set after removed";
		if(!insideCall) rec->error = "set although no call is running";
		rec->value = value = v;
	}
	void removed() noexcept {
		if(!rec) return;
		if(rec->removed++) rec->error = "removed called twice";
	}
};

// All copies share the value, like in nytl::TrackedConnectionID
struct SharedId : ValueId {
	SharedId() = default;
	SharedId(std::int64_t v) : ValueId(v) {}
	std::int64_t get() const noexcept { return rec ? rec->value : 0; }
	void removed() noexcept {
		ValueId::removed();
		if(rec) rec->value = 0;
	}
};

} // namespace cbw
