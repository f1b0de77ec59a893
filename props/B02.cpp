// B02: operations around the end of the buffer, with a throwing assertion.
#include "pbt.hpp"
struct Overflow {};
#define NYTL_BYTES_ASSERT(x) if(!(x)) { throw Overflow {}; }
#include <nytl/bytes.hpp>

#include <memory>

namespace {

struct Twelve { std::uint32_t a, b, c; };

// a size around the given one
std::size_t near(pbt::Ctx& c, std::size_t n) {
	switch(c.weighted({4, 4, 3, 3, 2, 1})) {
		case 0: return c.draw(n);
		case 1: return n;
		case 2: return n + 1;
		case 3: return n ? n - 1 : 0;
		case 4: return n + c.draw(40);
		default: return 0;
	}
}

// numbers whose sum or difference with a size wraps around or changes its sign
std::size_t huge(pbt::Ctx& c, std::size_t left) {
	auto base = c.pick<std::size_t>({~std::size_t(0), std::size_t(1) << 63, std::size_t(1) << 32, std::size_t(1) << 31,
		~std::size_t(0) - left, (std::size_t(1) << 63) + left, (std::size_t(1) << 32) + left});
	return base + static_cast<std::size_t>(c.sym(3)) > left ? base + static_cast<std::size_t>(c.sym(3)) : base;
}

template<typename F> bool overflows(F&& f) {
	try { f(); } catch(const Overflow&) { return true; }
	return false;
}

struct State {
	bool overflowed {}, succeeded {}, overflowAfterSuccess {}, exact {};
	void done(bool thrown, bool usedUp) {
		if(thrown && succeeded) overflowAfterSuccess = true;
		if(!thrown) succeeded = true;
		if(!thrown && usedUp) exact = true;
	}
};

std::vector<std::byte> randomBytes(pbt::Ctx& c, std::size_t n) {
	std::vector<std::byte> r(n);
	if(n > 400) {
		auto p = c.pattern(n);
		std::memcpy(r.data(), p.data(), n);
		return r;
	}
	for(auto& b : r) b = std::byte(c.draw(255));
	return r;
}

template<typename T>
void readValue(pbt::Ctx& c, nytl::ReadBuf& buf, State& st, const std::vector<std::byte>& mem, std::size_t pos) {
	auto left = buf.size();
	auto fits = left >= sizeof(T);
	auto before = buf;
	T val;
	std::memset(&val, 0x5A, sizeof(val));
	T untouched = val;
	bool advances = true;
	bool thrown = false;
	auto how = c.draw(4);
	auto ok = fits;
	c.note(how == 0 ? "read<" : how == 1 ? "read(" : how == 2 ? "copy<" : how == 3 ? "copyExact<" : "readbytes<", sizeof(T), "> ");
	switch(how) {
		case 0: thrown = overflows([&] { val = nytl::read<T>(buf); }); break;
		case 1: thrown = overflows([&] { nytl::read(buf, val); }); break;
		case 2: thrown = overflows([&] { val = nytl::copy<T>(buf); }); advances = false; break;
		case 3: thrown = overflows([&] { val = nytl::copyExact<T>(buf); }); advances = false; ok = left == sizeof(T); break;
		case 4: thrown = overflows([&] { nytl::read(buf, nytl::bytes(val)); }); break;
	}
	EXPECT(thrown == !ok, "reading ", sizeof(T), " of ", left, " bytes: ", thrown ? "threw" : "did not throw");
	if(thrown || !advances) {
		EXPECT(buf.size() == before.size() && buf.data() == before.data(), "buffer was advanced");
	} else {
		EXPECT(buf.size() == left - sizeof(T), "buffer has ", buf.size(), " bytes left");
	}
	if(thrown) EXPECT(std::memcmp(&val, &untouched, sizeof(T)) == 0, "target was changed by a failing read");
	else if(ok) EXPECT(std::memcmp(&val, mem.data() + pos, sizeof(T)) == 0, "wrong value");
	st.done(thrown, left == sizeof(T));
}

} // namespace

FACET(reading, 150000) {
	auto size = c.chance(1, 200) ? c.size(70000) : c.weighted({1, 3, 2}) == 0 ? 0 : c.draw(60);
	auto mem = std::make_unique<std::byte[]>(size); // exact: ASan reports reads behind it
	auto model = randomBytes(c, size);
	std::copy(model.begin(), model.end(), mem.get());
	nytl::ReadBuf buf(mem.get(), size);
	State st;
	c.note(size, " bytes: ");
	for(auto n = 0u; c.more(n, 12, 9, 10) && !c.failed(); ++n) {
		auto left = buf.size();
		auto pos = size - left;
		switch(c.draw(6)) {
			case 0: readValue<std::uint8_t>(c, buf, st, model, pos); break;
			case 1: readValue<std::uint32_t>(c, buf, st, model, pos); break;
			case 2: readValue<Twelve>(c, buf, st, model, pos); break;
			case 3: {
				auto k = c.chance(1, 12) ? huge(c, left) : near(c, left);
				c.note("skip(", k, ") ");
				auto thrown = overflows([&] { nytl::skip(buf, k); });
				EXPECT(thrown == (k > left), "skip ", k, " of ", left, " bytes: ", thrown ? "threw" : "did not throw");
				EXPECT(buf.size() == (thrown ? left : left - k), "wrong size after skip");
				if(!buf.empty()) EXPECT(buf.data() == mem.get() + (size - buf.size()), "wrong position after skip");
				st.done(thrown, k == left);
				break;
			}
			case 4: { // into a vector
				auto k = near(c, left);
				std::vector<std::byte> target(k, std::byte(0x5A));
				c.note("read vector(", k, ") ");
				auto thrown = overflows([&] {
					if(k % 2) nytl::read(buf, target);
					else nytl::read(buf, nytl::WriteBuf(target.data(), k));
				});
				EXPECT(thrown == (k > left), "read ", k, " of ", left, " bytes: ", thrown ? "threw" : "did not throw");
				EXPECT(buf.size() == (thrown ? left : left - k), "wrong size after read");
				for(auto i = 0u; i < k; ++i)
					if(target[i] != (thrown ? std::byte(0x5A) : model[pos + i])) { EXPECT(false, "wrong byte ", i); break; }
				st.done(thrown, k == left);
				break;
			}
			case 5: { // copy to a buffer: exact sizes only
				auto k = near(c, left);
				auto target = std::make_unique<std::byte[]>(k);
				std::fill_n(target.get(), k, std::byte(0x5A));
				c.note("copy(", k, ") ");
				auto thrown = overflows([&] { nytl::copy(buf, nytl::WriteBuf(target.get(), k)); });
				EXPECT(thrown == (k != left), "copy of ", left, " to ", k, " bytes: ", thrown ? "threw" : "did not throw");
				EXPECT(buf.size() == left, "copy advanced the buffer");
				for(auto i = 0u; i < k; ++i)
					if(target[i] != (thrown ? std::byte(0x5A) : model[pos + i])) { EXPECT(false, "wrong byte ", i); break; }
				st.done(thrown, k == left);
				break;
			}
			case 6: { // vector of larger elements
				auto k = near(c, left / 4);
				std::vector<std::uint32_t> target(k, 0x5A5A5A5A);
				c.note("read uint32 vector(", k, ") ");
				auto thrown = overflows([&] { nytl::read(buf, target); });
				EXPECT(thrown == (k * 4 > left), "read ", k * 4, " of ", left, " bytes: ", thrown ? "threw" : "did not throw");
				EXPECT(buf.size() == (thrown ? left : left - k * 4), "wrong size after read");
				st.done(thrown, k * 4 == left);
				break;
			}
		}
	}
	c.nontrivial(st.overflowAfterSuccess);
	c.label(st.exact, "used up exactly");
}

FACET(writing, 150000) {
	auto size = c.chance(1, 200) ? c.size(70000) : c.weighted({1, 3, 2}) == 0 ? 0 : c.draw(60);
	auto mem = std::make_unique<std::byte[]>(size);
	auto model = randomBytes(c, size);
	std::copy(model.begin(), model.end(), mem.get());
	nytl::WriteBuf buf(mem.get(), size);
	State st;
	c.note(size, " bytes: ");
	auto value = [&](auto val) {
		auto left = buf.size();
		auto pos = size - left;
		c.note("write<", sizeof(val), "> ");
		auto thrown = overflows([&] { nytl::write(buf, val); });
		EXPECT(thrown == (sizeof(val) > left), "write ", sizeof(val), " to ", left, " bytes: ", thrown ? "threw" : "did not throw");
		EXPECT(buf.size() == (thrown ? left : left - sizeof(val)), "wrong size after write");
		if(!thrown && sizeof(val) <= left) std::memcpy(model.data() + pos, &val, sizeof(val));
		st.done(thrown, left == sizeof(val));
	};
	for(auto n = 0u; c.more(n, 12, 9, 10) && !c.failed(); ++n) {
		auto left = buf.size();
		auto pos = size - left;
		switch(c.draw(6)) {
			case 0: value(static_cast<std::uint8_t>(c.draw(255))); break;
			case 1: value(static_cast<std::uint32_t>(c.draw(0xFFFFFFFF))); break;
			case 2: value(Twelve {1, 2, static_cast<std::uint32_t>(c.draw(500))}); break;
			case 3: {
				auto k = c.chance(1, 12) ? huge(c, left) : near(c, left);
				c.note("skip(", k, ") ");
				auto thrown = overflows([&] { nytl::skip(buf, k); });
				EXPECT(thrown == (k > left), "skip ", k, " of ", left, " bytes: ", thrown ? "threw" : "did not throw");
				EXPECT(buf.size() == (thrown ? left : left - k), "wrong size after skip");
				st.done(thrown, k == left);
				break;
			}
			case 4: case 5: { // bytes
				auto k = near(c, left);
				auto src = randomBytes(c, k);
				auto kind = c.draw(2);
				c.note("write bytes(", k, ") ");
				auto thrown = overflows([&] {
					if(kind == 0) nytl::write(buf, nytl::ReadBuf(src));
					else if(kind == 1) nytl::write(buf, src);
					else nytl::write(buf, nytl::span<std::byte>(src));
				});
				EXPECT(thrown == (k > left), "write ", k, " to ", left, " bytes: ", thrown ? "threw" : "did not throw");
				EXPECT(buf.size() == (thrown ? left : left - k), "wrong size after write");
				if(!thrown && k <= left) std::copy(src.begin(), src.end(), model.begin() + pos);
				st.done(thrown, k == left);
				break;
			}
			case 6: { // copy into the rest
				auto k = near(c, left);
				auto src = randomBytes(c, k);
				c.note("copy(", k, ") ");
				auto thrown = overflows([&] { nytl::copy(nytl::ReadBuf(src), buf); });
				EXPECT(thrown == (k != left), "copy ", k, " to ", left, " bytes: ", thrown ? "threw" : "did not throw");
				EXPECT(buf.size() == left, "copy advanced the buffer");
				if(!thrown && k == left) std::copy(src.begin(), src.end(), model.begin() + pos);
				st.done(thrown, k == left);
				break;
			}
		}
		EXPECT(buf.empty() || buf.data() == mem.get() + (size - buf.size()), "wrong position");
		EXPECT(std::equal(model.begin(), model.end(), mem.get()), "wrong content");
	}
	c.nontrivial(st.overflowAfterSuccess);
	c.label(st.exact, "used up exactly");
}

// dynamic buffers take everything
FACET(growing, 40000) {
	nytl::DynWriteBuf buf;
	std::vector<std::byte> model;
	auto n = c.range(1, 12);
	for(auto i = 0; i < n; ++i) {
		auto src = randomBytes(c, c.chance(1, 50) ? c.size(60000) : c.draw(c.chance(1, 6) ? 300 : 20));
		EXPECT(!overflows([&] { nytl::write(buf, src); }), "write to a growing buffer threw");
		model.insert(model.end(), src.begin(), src.end());
		EXPECT(buf == model, "wrong content");
	}
	c.note(n, " writes, ", model.size(), " bytes");
	nytl::ReadBuf src = buf;
	EXPECT(!overflows([&] { nytl::skip(src, model.size()); }) && src.empty(), "skip of everything");
	EXPECT(overflows([&] { nytl::skip(src, 1); }), "skip behind the end did not throw");
	c.nontrivial(n > 2);
}
