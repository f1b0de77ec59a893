// B01: writing and reading typed items against a memcpy model.
#include "pbt.hpp"
#include <nytl/bytes.hpp>
#include <nytl/vec.hpp>

#include <array>
#include <functional>
#include <memory>
#include <string>

namespace {

struct Pod {
	std::int32_t a;
	float b;
	std::uint16_t c[3];
	std::uint8_t d, e;
};
enum class Color : std::uint16_t { red = 1, green = 0xABCD };

template<typename T> std::vector<std::byte> raw(const T& v) {
	std::vector<std::byte> r(sizeof(T));
	std::memcpy(r.data(), &v, sizeof(T));
	return r;
}

template<typename T> T randomValue(pbt::Ctx& c) {
	T t;
	unsigned char b[sizeof(T)];
	for(auto& x : b) x = static_cast<unsigned char>(c.draw(255));
	std::memcpy(&t, b, sizeof(T));
	return t;
}

bool same(const std::vector<std::byte>& a, const std::vector<std::byte>& b) {
	return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size()) == 0);
}

// An item that knows how to write itself and to be read and compared again
struct Item {
	virtual ~Item() = default;
	virtual std::vector<std::byte> expected() const = 0;
	virtual void write(pbt::Ctx&, nytl::DynWriteBuf&) = 0;
	virtual void write(pbt::Ctx&, nytl::WriteBuf&) = 0;
	virtual void read(pbt::Ctx&, nytl::ReadBuf&) = 0;
	int kind {};
};

template<typename T>
struct ValueItem : Item {
	T value;
	explicit ValueItem(T v) : value(v) {}
	std::vector<std::byte> expected() const override { return raw(value); }
	template<typename B> void doWrite(pbt::Ctx& c, B& b) {
		const T& cv = value;
		switch(c.draw(3)) {
			case 0: nytl::write(b, value); break;
			case 1: nytl::write(b, cv); break;
			case 2: nytl::write(b, T(value)); break;
			case 3: nytl::write(b, nytl::ReadBuf(nytl::bytes(cv))); break;
		}
	}
	void write(pbt::Ctx& c, nytl::DynWriteBuf& b) override { doWrite(c, b); }
	void write(pbt::Ctx& c, nytl::WriteBuf& b) override { doWrite(c, b); }
	void read(pbt::Ctx& c, nytl::ReadBuf& b) override {
		auto e = raw(value);
		auto before = b;
		if(c.boolean()) {
			auto v = nytl::copy<T>(b);
			EXPECT(same(raw(v), e), "copy<T> differs");
			auto v2 = nytl::copyExact<T>(b.first(sizeof(T)));
			EXPECT(same(raw(v2), e), "copyExact<T> differs");
			EXPECT(b.data() == before.data() && b.size() == before.size(), "copy advanced the buffer");
		}
		switch(c.draw(3)) {
			case 0: {
				auto v = nytl::read<T>(b);
				EXPECT(same(raw(v), e), "read<T> differs");
				break;
			}
			case 1: {
				auto v = randomValue<T>(c);
				nytl::read(b, v);
				EXPECT(same(raw(v), e), "read(value) differs");
				break;
			}
			case 2: {
				auto v = randomValue<T>(c);
				nytl::read(b, nytl::WriteBuf(nytl::bytes(v)));
				EXPECT(same(raw(v), e), "read(bytes) differs");
				break;
			}
			case 3: {
				auto v = randomValue<T>(c);
				nytl::copy(b.first(sizeof(T)), nytl::bytes(v));
				EXPECT(same(raw(v), e), "copy to bytes differs");
				EXPECT(b.data() == before.data(), "copy advanced the buffer");
				nytl::skip(b, sizeof(T));
				break;
			}
		}
	}
};

template<typename T>
struct ListItem : Item {
	std::vector<T> values;
	explicit ListItem(pbt::Ctx& c) {
		if(c.chance(1, 40)) { // large, up to some ten thousand bytes
			values.resize(c.size(40000 / sizeof(T)));
			auto p = c.pattern(values.size() * sizeof(T));
			if(!p.empty()) std::memcpy(static_cast<void*>(values.data()), p.data(), p.size());
		} else {
			for(auto n = c.range(0, 6); n > 0; --n) values.push_back(randomValue<T>(c));
		}
	}
	std::vector<std::byte> expected() const override {
		std::vector<std::byte> r;
		for(auto& v : values) { auto b = raw(v); r.insert(r.end(), b.begin(), b.end()); }
		return r;
	}
	template<typename B> void doWrite(pbt::Ctx& c, B& b) {
		const auto& cv = values;
		switch(c.draw(4)) {
			case 0: nytl::write(b, values); break;
			case 1: nytl::write(b, cv); break;
			case 2: nytl::write(b, nytl::span<T>(values)); break;
			case 3: { auto s = nytl::span<const T>(cv); nytl::write(b, s); break; }
			case 4: nytl::write(b, nytl::ReadBuf(nytl::bytes(cv))); break;
		}
	}
	void write(pbt::Ctx& c, nytl::DynWriteBuf& b) override { doWrite(c, b); }
	void write(pbt::Ctx& c, nytl::WriteBuf& b) override { doWrite(c, b); }
	void read(pbt::Ctx& c, nytl::ReadBuf& b) override {
		std::vector<T> v(values.size());
		switch(c.draw(3)) {
			case 0: nytl::read(b, v); break;
			case 1: { auto s = nytl::span<T>(v); nytl::read(b, s); break; }
			case 2: nytl::read(b, nytl::bytes(v)); break;
			case 3: for(auto& x : v) x = nytl::read<T>(b); break;
		}
		ListItem other(*this);
		other.values = v;
		EXPECT(same(other.expected(), expected()), "read list differs");
	}
};

std::unique_ptr<Item> item(pbt::Ctx& c) {
	std::unique_ptr<Item> r;
	auto k = static_cast<int>(c.draw(10));
	switch(k) {
		case 0: r = std::make_unique<ValueItem<std::uint8_t>>(randomValue<std::uint8_t>(c)); break;
		case 1: r = std::make_unique<ValueItem<std::int32_t>>(randomValue<std::int32_t>(c)); break;
		case 2: r = std::make_unique<ValueItem<std::uint64_t>>(randomValue<std::uint64_t>(c)); break;
		case 3: r = std::make_unique<ValueItem<double>>(c.real(-1e9, 1e9)); break;
		case 4: r = std::make_unique<ValueItem<Pod>>(randomValue<Pod>(c)); break;
		case 5: r = std::make_unique<ValueItem<Color>>(c.boolean() ? Color::green : Color::red); break;
		case 6: r = std::make_unique<ValueItem<std::array<std::int16_t, 3>>>(randomValue<std::array<std::int16_t, 3>>(c)); break;
		case 7: r = std::make_unique<ListItem<std::int32_t>>(c); break;
		case 8: r = std::make_unique<ListItem<std::uint8_t>>(c); break;
		case 9: r = std::make_unique<ListItem<Pod>>(c); break;
		case 10: r = std::make_unique<ValueItem<nytl::Vec3f>>(nytl::Vec3f{
			float(c.real(-5, 5)), float(c.real(-5, 5)), float(c.real(-5, 5))}); break;
	}
	r->kind = k;
	return r;
}

std::vector<std::unique_ptr<Item>> items(pbt::Ctx& c) {
	std::vector<std::unique_ptr<Item>> r;
	auto max = c.chance(1, 4) ? 25u : 8u;
	while(c.more(r.size(), max, 9, 10)) r.push_back(item(c));
	bool mixed = false;
	for(auto& i : r) {
		c.note(i->kind, "(", i->expected().size(), ") ");
		if(i->kind != r[0]->kind) mixed = true;
	}
	c.nontrivial(r.size() >= 3 && mixed);
	return r;
}

void readBack(pbt::Ctx& c, nytl::ReadBuf src, std::vector<std::unique_ptr<Item>>& list, const std::vector<std::byte>& all) {
	auto total = src.size();
	std::size_t pos = 0;
	auto begin = src.data();
	for(auto& i : list) {
		if(c.failed()) return;
		auto size = i->expected().size();
		if(c.chance(1, 5)) nytl::skip(src, size);
		else i->read(c, src);
		pos += size;
		EXPECT(src.size() == total - pos, "reading item of kind ", i->kind, " left ", src.size(), " bytes, expected ", total - pos);
		EXPECT(src.empty() || src.data() == begin + pos, "buffer advanced wrongly");
	}
	EXPECT(src.empty(), "bytes left at the end");
	EXPECT(same(std::vector<std::byte>(begin, begin + total), all), "reading changed the buffer");
}

} // namespace

// a single struct larger than any register or page
template<std::size_t N> struct Big {
	unsigned char data[N];
};
template<std::size_t N> void big(pbt::Ctx& c) {
	auto p = c.pattern(N);
	auto b = std::make_unique<Big<N>>();
	std::copy(p.begin(), p.end(), b->data);
	auto gap = c.draw(9);
	std::vector<std::byte> mem(gap + N + gap, std::byte(0x77));
	nytl::WriteBuf dst(mem.data() + gap, mem.size() - gap);
	nytl::DynWriteBuf dyn(gap, std::byte(0x77));
	nytl::write(dst, *b);
	nytl::write(dyn, *b);
	EXPECT(dst.size() == gap, "left after writing: ", dst.size());
	EXPECT(dyn.size() == gap + N, "size after writing: ", dyn.size());
	std::vector<std::byte> model(gap, std::byte(0x77));
	for(auto x : p) model.push_back(std::byte(x));
	EXPECT(same(dyn, model), "dynamic buffer differs");
	model.insert(model.end(), gap, std::byte(0x77));
	EXPECT(same(mem, model), "fixed buffer differs");
	if(c.failed()) return;
	nytl::ReadBuf src(mem.data(), mem.size());
	nytl::skip(src, gap);
	auto r = std::make_unique<Big<N>>();
	switch(c.draw(2)) {
		case 0: nytl::read(src, *r); break;
		case 1: *r = nytl::read<Big<N>>(src); break;
		case 2: *r = nytl::copy<Big<N>>(src); nytl::skip(src, N); break;
	}
	EXPECT(src.size() == gap, "left after reading: ", src.size());
	EXPECT(std::memcmp(r->data, p.data(), N) == 0, "other value read");
	c.note(N, " bytes at ", gap);
	c.nontrivial();
}

template<typename T> void manyElements(pbt::Ctx& c) {
	auto n = c.chance(1, 2) ? c.pick<std::size_t>({255, 256, 32767, 32768, 65535, 65536, 65537, 70000}) : c.size(80000);
	std::vector<T> v(n);
	auto p = c.pattern(n * sizeof(T));
	if(n) std::memcpy(static_cast<void*>(v.data()), p.data(), p.size());
	const auto& cv = v;
	c.note(n, " elements of ", sizeof(T), " bytes");
	c.nontrivial(n > 0);
	auto view = [&](auto b, const char* how) {
		EXPECT(b.size() == p.size(), how, ": size ", b.size(), ", expected ", p.size());
		EXPECT(b.empty() || static_cast<const void*>(b.data()) == v.data(), how, ": other address");
	};
	view(nytl::bytes(v), "bytes(vector)");
	view(nytl::bytes(cv), "bytes(const vector)");
	view(nytl::bytes(nytl::span<T>(v)), "bytes(span)");
	view(nytl::bytes(nytl::span<const T>(cv)), "bytes(const span)");
	if(c.failed()) return;
	std::vector<std::byte> e(p.size());
	if(n) std::memcpy(e.data(), p.data(), p.size());
	nytl::DynWriteBuf dyn;
	if(c.boolean()) nytl::write(dyn, v); else nytl::write(dyn, cv);
	EXPECT(same(dyn, e), "written to a dynamic buffer: ", dyn.size(), " bytes");
	std::vector<std::byte> mem(p.size() + 3, std::byte(7));
	nytl::WriteBuf dst(mem.data(), mem.size());
	if(c.boolean()) nytl::write(dst, v); else nytl::write(dst, nytl::span<const T>(cv));
	EXPECT(dst.size() == 3, "left after writing ", dst.size());
	EXPECT(same(std::vector<std::byte>(mem.begin(), mem.end() - 3), e), "written to a fixed buffer");
	EXPECT(mem[p.size()] == std::byte(7), "wrote behind the end");
	std::vector<T> r(n);
	nytl::ReadBuf src(mem.data(), mem.size());
	if(c.boolean()) nytl::read(src, r); else nytl::read(src, nytl::bytes(r));
	EXPECT(src.size() == 3, "left after reading ", src.size());
	EXPECT(n == 0 || std::memcmp(r.data(), p.data(), p.size()) == 0, "other values read");
	// skipping any part, in both kinds of buffers
	auto k = c.draw(p.size());
	nytl::ReadBuf rb(mem.data(), mem.size());
	nytl::WriteBuf wb(mem.data(), mem.size());
	nytl::skip(rb, k);
	nytl::skip(wb, k);
	EXPECT(rb.size() == mem.size() - k && rb.data() == mem.data() + k, "skip(ReadBuf, ", k, ") left ", rb.size());
	EXPECT(wb.size() == mem.size() - k && wb.data() == mem.data() + k, "skip(WriteBuf, ", k, ") left ", wb.size());
}

FACET(many_elements, 2000) {
	switch(c.draw(3)) {
		case 0: manyElements<std::uint8_t>(c); break;
		case 1: manyElements<std::uint16_t>(c); break;
		case 2: manyElements<std::int32_t>(c); break;
		case 3: manyElements<Pod>(c); break;
	}
}

FACET(big_values, 4000) {
	switch(c.draw(5)) {
		case 0: big<17>(c); break;
		case 1: big<64>(c); break;
		case 2: big<255>(c); break;
		case 3: big<300>(c); break;
		case 4: big<5000>(c); break;
		case 5: big<70001>(c); break;
	}
}

FACET(dynamic_buffer, 70000) {
	auto list = items(c);
	nytl::DynWriteBuf buf;
	std::vector<std::byte> model;
	for(auto n = c.range(0, 5); n > 0; --n) {
		buf.push_back(std::byte(c.draw(255)));
		model.push_back(buf.back());
	}
	auto prefix = buf.size();
	if(c.chance(1, 4)) buf.reserve(c.draw(200));
	for(auto& i : list) {
		i->write(c, buf);
		auto e = i->expected();
		model.insert(model.end(), e.begin(), e.end());
		EXPECT(buf.size() == model.size(), "size after writing item of kind ", i->kind);
		EXPECT(same(buf, model), "content after writing item of kind ", i->kind);
		if(c.failed()) return;
	}
	nytl::ReadBuf src = buf;
	EXPECT(src.size() == buf.size(), "read buffer size");
	nytl::skip(src, prefix);
	readBack(c, src, list, std::vector<std::byte>(model.begin() + prefix, model.end()));
}

FACET(fixed_buffer, 70000) {
	auto list = items(c);
	std::size_t need = 0;
	for(auto& i : list) need += i->expected().size();
	auto before = c.range(0, 4);
	auto extra = c.range(0, 6);
	std::vector<std::byte> mem(before + need + extra);
	for(auto& b : mem) b = std::byte(0xA5);
	auto model = mem;
	nytl::WriteBuf dst(mem.data() + before, need + extra);
	std::size_t pos = before;
	for(auto& i : list) {
		auto e = i->expected();
		if(c.chance(1, 8)) { // leave a hole
			nytl::skip(dst, e.size());
			std::copy(mem.begin() + pos, mem.begin() + pos + e.size(), model.begin() + pos);
			// then fill it through another buffer
			nytl::WriteBuf hole(mem.data() + pos, e.size());
			i->write(c, hole);
			EXPECT(hole.empty(), "writing exactly the size of the buffer left ", hole.size());
		} else {
			i->write(c, dst);
		}
		std::copy(e.begin(), e.end(), model.begin() + pos);
		pos += e.size();
		EXPECT(dst.size() == mem.size() - pos, "buffer has ", dst.size(), " bytes left, expected ", mem.size() - pos);
		EXPECT(dst.empty() || dst.data() == mem.data() + pos, "buffer advanced wrongly");
		EXPECT(same(mem, model), "content after writing item of kind ", i->kind);
		if(c.failed()) return;
	}
	nytl::WriteBuf written(mem.data() + before, need);
	nytl::ReadBuf src = written;
	readBack(c, src, list, std::vector<std::byte>(model.begin() + before, model.begin() + before + need));
}

// bytes() of everything
FACET(views, 60000) {
	auto viewOf = [&](auto view, const void* data, std::size_t size, const char* how) {
		EXPECT(view.size() == size, how, ": size ", view.size(), ", expected ", size);
		EXPECT(size == 0 || static_cast<const void*>(view.data()) == data, how, ": other address");
	};
	auto pod = randomValue<Pod>(c);
	const auto& cpod = pod;
	static_assert(std::is_same_v<decltype(nytl::bytes(pod)), nytl::WriteBuf>);
	static_assert(std::is_same_v<decltype(nytl::bytes(cpod)), nytl::ReadBuf>);
	viewOf(nytl::bytes(pod), &pod, sizeof(Pod), "bytes(struct)");
	viewOf(nytl::bytes(cpod), &pod, sizeof(Pod), "bytes(const struct)");
	std::vector<double> v(c.draw(5));
	const auto& cv = v;
	static_assert(std::is_same_v<decltype(nytl::bytes(v)), nytl::WriteBuf>);
	static_assert(std::is_same_v<decltype(nytl::bytes(cv)), nytl::ReadBuf>);
	viewOf(nytl::bytes(v), v.data(), v.size() * sizeof(double), "bytes(vector)");
	viewOf(nytl::bytes(cv), v.data(), v.size() * sizeof(double), "bytes(const vector)");
	viewOf(nytl::bytes(nytl::span<double>(v)), v.data(), v.size() * sizeof(double), "bytes(span)");
	viewOf(nytl::bytes(nytl::span<const double>(v)), v.data(), v.size() * sizeof(double), "bytes(span<const>)");
	std::array<std::int16_t, 7> arr {};
	nytl::span<std::int16_t, 7> fixed(arr);
	viewOf(nytl::bytes(fixed), arr.data(), sizeof(arr), "bytes(span of fixed extent)");
	auto part = nytl::span<std::int16_t>(arr).subspan(c.draw(3), 3);
	viewOf(nytl::bytes(part), part.data(), 6, "bytes(subspan)");
	std::initializer_list<std::int32_t> il = {1, 2, static_cast<std::int32_t>(c.draw(100)), 4};
	viewOf(nytl::bytes(il), il.begin(), il.size() * 4, "bytes(initializer_list)");
	int carr[3] {};
	viewOf(nytl::bytes(carr), carr, sizeof(carr), "bytes(C array)");

	// writing through the view changes the object
	auto at = c.draw(sizeof(Pod) - 1);
	auto val = std::byte(c.draw(255));
	auto expected = raw(pod);
	expected[at] = val;
	nytl::bytes(pod)[at] = val;
	EXPECT(same(raw(pod), expected), "writing to a byte of the view");
	Pod other;
	nytl::copy(nytl::bytes(cpod), nytl::bytes(other));
	EXPECT(same(raw(other), raw(pod)), "copy of the bytes");
	nytl::DynWriteBuf dyn;
	nytl::write(dyn, il);
	EXPECT(dyn.size() == il.size() * 4 && std::memcmp(dyn.data(), il.begin(), dyn.size()) == 0, "written initializer list");
	c.note("struct, ", v.size(), " doubles, byte ", at);
	c.nontrivial(!v.empty());
}
