// C20: network connection parameters, field by field
#include "common.h"
#include "cip/connectionManager/NetworkConnectionParametersBuilder.h"

using namespace eipScanner::cip;
using B = connectionManager::NetworkConnectionParametersBuilder;

namespace {

enum Field { OWNER, TYPE, PRIORITY, SIZE_TYPE, SIZE, FIELDS };
const char* NAMES[] = {"redundant owner", "connection type", "priority", "size type", "connection size"};
struct Where { int shift; uint32_t mask; };
Where where(int field, bool large) {
	static const Where small[] = {{15, 1}, {13, 3}, {10, 3}, {9, 1}, {0, 0x1ff}}, big[] = {{31, 1}, {29, 3}, {26, 3}, {25, 1}, {0, 0xffff}};
	return large ? big[field] : small[field];
}
uint32_t put(uint32_t word, int field, bool large, uint32_t v) {
	Where w = where(field, large);
	return (word & ~(w.mask << w.shift)) | (v & w.mask) << w.shift;
}
uint32_t take(uint32_t word, int field, bool large) {
	Where w = where(field, large);
	return word >> w.shift & w.mask;
}
uint32_t get(const B& b, int field) {
	switch (field) {
		case OWNER: return b.getRedundantOwner();
		case TYPE: return b.getConnectionType();
		case PRIORITY: return b.getPriority();
		case SIZE_TYPE: return b.getType();
		default: return b.getConnectionSize();
	}
}
// whatever a setter returns: an object of its own is not the one it was called for
B& same(B& b) { return b; }
B& same(B&& b) { static B other; other = b; return other; }
B& set(B& b, int field, uint32_t v) {
	switch (field) {
		case OWNER: return same(b.setRedundantOwner(static_cast<B::RedundantOwner>(v)));
		case TYPE: return same(b.setConnectionType(static_cast<B::ConnectionType>(v)));
		case PRIORITY: return same(b.setPriority(static_cast<B::Priority>(v)));
		case SIZE_TYPE: return same(b.setType(static_cast<B::Type>(v)));
		default: return same(b.setConnectionSize(static_cast<CipUint>(v)));
	}
}
void compare(Ctx& c, B& b, uint32_t word, bool large) {
	if (b.build() != word) c.fail(fmt("the word is %08x instead of %08x (%s)", b.build(), word, large ? "large" : "small"));
	for (int f = 0; f < FIELDS; ++f)
		if (get(b, f) != take(word, f, large)) c.fail(fmt("%s of %08x is %u instead of %u (%s)", NAMES[f], word, get(b, f), take(word, f, large), large ? "large" : "small"));
	c.compared();
}
const std::vector<uint32_t>& sizes(bool large) {
	static const std::vector<uint32_t> s = {0, 1, 2, 0xff, 0x100, 0x155, 0x1fe, 0x1ff}, l = {0, 1, 0xff, 0x100, 0x1ff, 0x200, 0x3ff, 0x5555, 0x8000, 0xfe00, 0xfffe, 0xffff};
	return large ? l : s;
}
uint32_t value(Ctx& c, int field, bool large) {
	static const int n[] = {2, 4, 4, 2};
	return field == SIZE ? c.pick(sizes(large), "value") : c.choose(n[field], "value");
}

} // namespace

void mc::define(Registry& r) {
	int depth = r.tier(4, 5);
	r.bound(fmt("all sequences of up to %d setters with all the values of the fields (sizes: boundary values), both layouts, several initial words, chained and not", depth));
	r.bound("small layout: all sizes above its 9 bits do not touch the other fields, over all 128 words of the others");
	r.bound("all 65536 initial words in the small layout; all 16 bit halves in the large one; all sizes; each setter afterwards");

	r.add("sequences", [depth](Ctx& c) {
		bool large = c.choose(2), chained = c.choose(2);
		static const std::vector<uint32_t> smallWords = {0, 0xffff}, largeWords = {0, 0xffffffff};
		uint32_t word = c.pick(large ? largeWords : smallWords);
		B b(word, large);
		B* p = &b;
		compare(c, b, word, large);
		int n = c.choose(depth + 1, "setters");
		for (int i = 0; i < n; ++i) {
			int f = c.choose(FIELDS, "field");
			uint32_t v = value(c, f, large);
			c.step(fmt("%s = %u", NAMES[f], v));
			B& result = set(*p, f, v);
			c.check(&result == &b, "a setter returns another object");
			if (chained) p = &result;
			word = put(word, f, large, v);
			compare(c, b, word, large);
			c.state(mix(word, large));
		}
		c.obs(word);
	});
	r.add("chain of all", [](Ctx& c) {
		bool large = c.choose(2);
		uint32_t o = c.choose(2), t = c.choose(4), p = c.choose(4), v = c.choose(2), s = c.pick(sizes(large));
		B b = B(0, large).setConnectionType(static_cast<B::ConnectionType>(t)).setPriority(static_cast<B::Priority>(p)).setRedundantOwner(static_cast<B::RedundantOwner>(o))
			.setType(static_cast<B::Type>(v)).setConnectionSize(s);
		uint32_t word = put(put(put(put(put(0, OWNER, large, o), TYPE, large, t), PRIORITY, large, p), SIZE_TYPE, large, v), SIZE, large, s);
		compare(c, b, word, large);
		const B copy = b;
		B again(copy.getConnectionSize(), large);
		again.setType(copy.getType()).setRedundantOwner(copy.getRedundantOwner()).setPriority(copy.getPriority()).setConnectionType(copy.getConnectionType());
		c.equal(again.build(), word, "the word set again from the getters");
		c.obs(word);
		c.state(word);
	});
	r.add("all words", [](Ctx& c) {
		bool large = c.choose(2);
		int half = large ? c.choose(2) : 0;
		uint32_t high = c.choose(256);
		for (uint32_t low = 0; low < 256; ++low) {
			uint32_t word = (high << 8 | low) << 16 * half;
			if (large && !half) word |= 0xA5A50000u;
			if (large && half) word |= 0x5A5Au;
			B b(word, large);
			compare(c, b, word, large);
			for (int f = 0; f < FIELDS; ++f) for (uint32_t v : std::vector<uint32_t>{0, 1, f == SIZE ? 0x1ffu : f == OWNER || f == SIZE_TYPE ? 1u : 3u}) {
				B d(word, large);
				set(d, f, v);
				uint32_t expected = put(word, f, large, v);
				compare(c, d, expected, large);
				set(set(d, f, take(word, f, large)), (f + 1) % FIELDS, take(word, (f + 1) % FIELDS, large));
				compare(c, d, word, large);
			}
			c.state(mix(word, large));
		}
		c.obs(mix(high, mix(half, large)));
	});
	r.add("sizes beyond the field", [](Ctx& c) {
		// whatever size is taken for, the other fields stay
		uint32_t word = c.choose(2) ? 0xfe00 : c.choose(128) << 9;
		int high = 2 + c.choose(254);
		for (int low = 0; low < 256; ++low) {
			B b(word, false);
			b.setConnectionSize(high << 8 | low);
			for (int f = 0; f < SIZE; ++f) if (get(b, f) != take(word, f, false)) c.fail(fmt("the size %d changes the ", high << 8 | low) + NAMES[f]);
			if ((b.build() & ~0x1ffu) != word) c.fail(fmt("the size %d changes the word %x to %x", high << 8 | low, word, b.build()));
			c.compared();
		}
		c.obs(mix(word, high));
		c.state(mix(word, high));
	});
	r.add("all sizes", [](Ctx& c) {
		bool large = c.choose(2);
		uint32_t initial = c.choose(2) ? 0xffffffffu : 0;
		if (!large) initial &= 0xffff;
		int high = c.choose(large ? 256 : 2);
		for (int low = 0; low < 256; ++low) {
			B b(initial, large);
			uint32_t s = high << 8 | low;
			b.setConnectionSize(s);
			compare(c, b, put(initial, SIZE, large, s), large);
			c.state(mix(b.build(), large));
		}
		c.obs(mix(high, mix(initial, large)));
	});
}
