// C01: Buffer - encoding, decoding, sticky validity, no access outside of the data
#include "mc/mc.h"
#include "mc/ref.h"
#include "utils/Buffer.h"
#include "cip/CipString.h"
#include "cip/CipRevision.h"
#include "sockets/EndPoint.h"
#include <cmath>
#include <limits>

using namespace mc;
using eipScanner::utils::Buffer;
using namespace eipScanner::cip;
using eipScanner::sockets::EndPoint;

namespace {

enum Type { U8, I8, U16, I16, U32, I32, U64, I64, F32, F64, BYTES, WORDS, SHORT_STRING, STRING, REVISION, ENDPOINT, TYPES };
const char* NAMES[] = {"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64", "bytes", "words", "short string", "string", "revision", "endpoint"};

struct Value {
	Type type;
	uint64_t bits = 0;  // numbers (bit pattern); revision: major | minor << 8; endpoint: ip << 16 | port
	Bytes data;         // bytes, strings
	std::vector<uint16_t> words;
	std::string str() const {
		if (type == BYTES || type == SHORT_STRING || type == STRING) return std::string(NAMES[type]) + " " + show(data);
		if (type == WORDS) return "words " + show(words);
		return fmt("%s %llx", NAMES[type], static_cast<unsigned long long>(bits));
	}
	Bytes encoding() const { // the reference
		ref::W w;
		switch (type) {
			case U8: case I8: return w.u8(bits);
			case U16: case I16: return w.u16(bits);
			case U32: case I32: case F32: return w.u32(bits);
			case U64: case I64: case F64: return w.u64(bits);
			case BYTES: return w.raw(data);
			case WORDS: for (auto x : words) w.u16(x); return w;
			case SHORT_STRING: return w.u8(data.size()).raw(data);
			case STRING: return w.u16(data.size()).raw(data);
			case REVISION: return w.u8(bits).u8(bits >> 8);
			case ENDPOINT: return w.raw(ref::sockaddrItem(static_cast<uint32_t>(bits >> 16), static_cast<uint16_t>(bits)));
			default: return w;
		}
	}
};

std::string dotted(uint32_t ip) { return fmt("%u.%u.%u.%u", ip >> 24, (ip >> 16) & 255, (ip >> 8) & 255, ip & 255); }

void write(Buffer& b, const Value& v) {
	switch (v.type) {
		case U8: b << static_cast<uint8_t>(v.bits); break;
		case I8: b << static_cast<int8_t>(v.bits); break;
		case U16: b << static_cast<uint16_t>(v.bits); break;
		case I16: b << static_cast<int16_t>(v.bits); break;
		case U32: b << static_cast<uint32_t>(v.bits); break;
		case I32: b << static_cast<int32_t>(v.bits); break;
		case U64: b << static_cast<uint64_t>(v.bits); break;
		case I64: b << static_cast<int64_t>(v.bits); break;
		case F32: { float f; uint32_t u = static_cast<uint32_t>(v.bits); memcpy(&f, &u, 4); b << f; break; }
		case F64: { double f; memcpy(&f, &v.bits, 8); b << f; break; }
		case BYTES: b << v.data; break;
		case WORDS: b << v.words; break;
		case SHORT_STRING: b << CipShortString(std::string(v.data.begin(), v.data.end())); break;
		case STRING: b << CipString(v.data); break;
		case REVISION: b << CipRevision(static_cast<uint8_t>(v.bits), static_cast<uint8_t>(v.bits >> 8)); break;
		case ENDPOINT: b << EndPoint(dotted(static_cast<uint32_t>(v.bits >> 16)), static_cast<int>(v.bits & 0xffff)); break;
		default: break;
	}
}

/// Reads the type of v (and lengths of v) from b; returns the value read
Value read(Buffer& b, const Value& v) {
	Value r;
	r.type = v.type;
	switch (v.type) {
		case U8: { uint8_t x = 0; b >> x; r.bits = x; break; }
		case I8: { int8_t x = 0; b >> x; r.bits = static_cast<uint8_t>(x); break; }
		case U16: { uint16_t x = 0; b >> x; r.bits = x; break; }
		case I16: { int16_t x = 0; b >> x; r.bits = static_cast<uint16_t>(x); break; }
		case U32: { uint32_t x = 0; b >> x; r.bits = x; break; }
		case I32: { int32_t x = 0; b >> x; r.bits = static_cast<uint32_t>(x); break; }
		case U64: { uint64_t x = 0; b >> x; r.bits = x; break; }
		case I64: { int64_t x = 0; b >> x; r.bits = static_cast<uint64_t>(x); break; }
		case F32: { float x = 0; b >> x; uint32_t u; memcpy(&u, &x, 4); r.bits = u; break; }
		case F64: { double x = 0; b >> x; memcpy(&r.bits, &x, 8); break; }
		case BYTES: { Bytes x(v.data.size()); b >> x; r.data = x; break; }
		case WORDS: { std::vector<uint16_t> x(v.words.size()); b >> x; r.words = x; break; }
		case SHORT_STRING: { CipShortString x; b >> x; r.data = x.getData(); 
			if (b.isValid()) { ctx().equal(static_cast<size_t>(x.getLength()), x.getData().size(), "length of a read short string");
			auto s = x.toStdString(); ctx().equal(Bytes(s.begin(), s.end()), r.data, "text of a read short string"); } break; }
		case STRING: { CipString x; b >> x; r.data = x.getData();
			if (b.isValid()) ctx().equal(static_cast<size_t>(x.getLength()), x.getData().size(), "length of a read string"); break; }
		case REVISION: { CipRevision x; b >> x; r.bits = x.getMajorRevision() | x.getMinorRevision() << 8; break; }
		case ENDPOINT: {
			EndPoint x("", 0);
			b >> x;
			r.bits = static_cast<uint64_t>(sim::ip(x.getHost())) << 16 | static_cast<uint16_t>(x.getPort());
			if (b.isValid() && b.pos() <= b.size()) {
				ctx().equal(ntohl(x.getAddr().sin_addr.s_addr), static_cast<uint32_t>(v.bits >> 16), "binary address of a read endpoint");
				ctx().equal(ntohs(x.getAddr().sin_port), static_cast<uint16_t>(v.bits), "binary port of a read endpoint");
				ctx().equal(static_cast<int>(x.getAddr().sin_family), AF_INET, "address family of a read endpoint");
			}
			break;
		}
		default: break;
	}
	return r;
}

void same(const Value& got, const Value& v, const char* what) {
	ctx().check(got.bits == v.bits && got.data == v.data && got.words == v.words,
		std::string(what) + ": " + v.str() + " is read as " + got.str());
}

Value num(Type t, uint64_t bits) { Value v; v.type = t; v.bits = bits; return v; }
Value bytes(Type t, Bytes d) { Value v; v.type = t; v.data = std::move(d); return v; }
Value words(std::vector<uint16_t> w) { Value v; v.type = WORDS; v.words = std::move(w); return v; }
uint64_t ep(const char* ip, uint16_t port) { return static_cast<uint64_t>(sim::ip(ip)) << 16 | port; }

Bytes ramp(size_t n, uint8_t from = 1) {
	Bytes b(n);
	for (size_t i = 0; i < n; ++i) b[i] = static_cast<uint8_t>(from + i * 7);
	return b;
}

const std::vector<Value>& alphabet() {
	static const std::vector<Value> a = {
		num(U8, 0x81), num(U8, 0), num(I8, 0x80), num(I8, 0x7f),
		num(U16, 0x8001), num(U16, 0x00ff), num(I16, 0x8000), num(I16, 0xff7f),
		num(U32, 0x80000001), num(U32, 0x0000ff00), num(I32, 0x80000000), num(I32, 0xff7f8081),
		num(U64, 0x8182838485868788), num(U64, 0xff00000000), num(I64, 0x8000000000000000), num(I64, 0xfffffffffffffffe),
		num(F32, 0x3f800000), num(F32, 0x80000001), num(F64, 0xbff0000000000001), num(F64, 0x7ff0000000000000),
		bytes(BYTES, {}), bytes(BYTES, {0xff}), bytes(BYTES, {1, 0, 0x80}), words({}), words({0x80ff}), words({0xff80, 0x0100}),
		bytes(SHORT_STRING, {}), bytes(SHORT_STRING, {'a'}), bytes(SHORT_STRING, {0xe9, 0, 0xff}),
		bytes(STRING, {}), bytes(STRING, {'b', 0x80}), num(REVISION, 0x80ff), num(REVISION, 0x0102),
		num(ENDPOINT, ep("192.168.1.254", 44818)), num(ENDPOINT, ep("0.0.0.0", 0x8001)), num(ENDPOINT, ep("255.0.128.1", 255)),
	};
	return a;
}

/// Small alphabet for longer histories: one value of each shape
const std::vector<Value>& small() {
	static const std::vector<Value> a = {num(U8, 0x81), num(I16, 0x80ff), num(U32, 0x80000001), num(F64, 0xbff0000000000001),
		bytes(BYTES, {1, 0x80}), bytes(SHORT_STRING, {0xe9, 'x'})};
	return a;
}

void readBeyond(Ctx& c, Buffer& b, const std::vector<Value>& types, int n) {
	for (int i = 0; i < n; ++i) {
		const Value& t = c.pick(types, "further read");
		c.step("read " + t.str() + " from the invalid buffer");
		read(b, t);
		if (t.encoding().empty()) continue; // reads nothing
		c.check(!b.isValid(), "the buffer is valid again after a further read of " + t.str());
	}
}

void fifo(Ctx& c, const std::vector<Value>& alpha, int depth) {
	Buffer b;
	Bytes model;
	std::deque<Value> pending;
	size_t pos = 0;
	for (int i = 0; i < depth; ++i) {
		int nPending = pending.empty() ? 0 : 1;
		int op = c.choose(static_cast<int>(alpha.size()) + 1 + nPending, "operation");
		if (op == 0) break; // the end
		if (op <= static_cast<int>(alpha.size())) {
			const Value& v = alpha[op - 1];
			c.step("write " + v.str());
			write(b, v);
			Bytes e = v.encoding();
			model.insert(model.end(), e.begin(), e.end());
			pending.push_back(v);
		} else {
			Value v = pending.front();
			pending.pop_front();
			c.step("read " + v.str());
			same(read(b, v), v, "round trip");
			pos += v.encoding().size();
		}
		c.equal(b.data(), model, "data()");
		c.equal(b.size(), model.size(), "size()");
		c.equal(b.pos(), pos, "pos()");
		c.check(b.isValid(), "the buffer is not valid though nothing was read beyond the end");
		c.equal(b.empty(), pos == model.size(), "empty()");
		c.state(mix(hash(model), pos));
	}
	while (!pending.empty()) {
		Value v = pending.front();
		pending.pop_front();
		same(read(b, v), v, "round trip at the end");
		pos += v.encoding().size();
		c.equal(b.pos(), pos, "pos() at the end");
	}
	c.check(b.isValid() && b.empty(), "all was read, the buffer must be valid and empty");
	c.obs(model);
}

void single(Ctx& c, const Value& v) {
	Buffer b;
	c.step("write and read " + v.str());
	write(b, v);
	Bytes e = v.encoding();
	c.equal(b.data(), e, "encoding of " + v.str());
	same(read(b, v), v, "round trip");
	c.check(b.isValid() && b.empty() && b.pos() == e.size(), "the read consumes exactly the encoding of " + v.str());
	Buffer d(e);
	c.check(d.isValid() && d.size() == e.size() && d.pos() == 0, "a buffer made of data");
	same(read(d, v), v, "decoding");
	c.check(d.isValid() && d.empty() && d.pos() == e.size(), "decoding consumes exactly the encoding of " + v.str());
	c.obs(e);
	c.state(hash(e));
}

} // namespace

void mc::define(Registry& r) {
	r.bound(fmt("all write/read histories of up to %d operations over %zu typed values, of up to %d over %zu", r.tier(2, 3), alphabet().size(), r.tier(4, 6), small().size()));
	r.bound("all 256 8-bit and 65536 16-bit values; all one-bit, all-but-one-bit and one-byte patterns of 32/64-bit values; all string and array lengths to 600 and around the limits");
	r.bound("every truncation of every pair of typed values, followed by further reads of every type");
	int d1 = r.tier(2, 3), d2 = r.tier(4, 6);
	r.add("fifo/full", [d1](Ctx& c) { fifo(c, alphabet(), d1); });
	r.add("fifo/small", [d2](Ctx& c) { fifo(c, small(), d2); });
	r.add("sequence", [&r](Ctx& c) { // write k, then read k
		Buffer b(c.choose(2, "capacity") ? 64 : 0);
		std::vector<Value> vs;
		Bytes model;
		int k = r.tier(2, 3);
		for (int i = 0; i < k; ++i) {
			vs.push_back(c.pick(alphabet(), "value"));
			c.step("write " + vs.back().str());
			write(b, vs.back());
			Bytes e = vs.back().encoding();
			model.insert(model.end(), e.begin(), e.end());
			c.state(hash(model));
		}
		c.equal(b.data(), model, "data()");
		for (auto& v : vs) same(read(b, v), v, "round trip");
		c.check(b.isValid() && b.empty(), "valid and empty after reading everything");
		c.obs(model);
		readBeyond(c, b, small(), 1);
	});
	// complete value ranges
	r.add("values/8", [](Ctx& c) { Type t = c.choose(2) ? I8 : U8; single(c, num(t, c.choose(256))); });
	r.add("values/16", [](Ctx& c) {
		Type t = c.choose(2) ? I16 : U16;
		single(c, num(t, c.choose(65536)));
	});
	r.add("values/words", [](Ctx& c) {
		uint16_t w = static_cast<uint16_t>(c.choose(65536));
		single(c, words({w, static_cast<uint16_t>(~w)}));
	});
	r.add("values/wide", [](Ctx& c) {
		Type t = c.pick(std::vector<Type>{U32, I32, U64, I64, F32, F64});
		int bits = t == U32 || t == I32 || t == F32 ? 32 : 64;
		uint64_t mask = bits == 32 ? 0xffffffffull : ~0ull;
		int kind = c.choose(4);
		uint64_t v;
		if (kind == 0) v = 1ull << c.choose(bits);
		else if (kind == 1) v = ~(1ull << c.choose(bits));
		else if (kind == 2) v = static_cast<uint64_t>(c.choose(256)) << (8 * c.choose(bits / 8));
		else v = ~(static_cast<uint64_t>(c.choose(256)) << (8 * c.choose(bits / 8)));
		single(c, num(t, v & mask));
	});
	r.add("values/float", [](Ctx& c) {
		static const std::vector<double> d = {0.0, -0.0, 1.0, -1.5, 0.1, M_PI, 1e-45, 1e38, 3.4e38, 1e-300, 1e300, std::numeric_limits<double>::denorm_min(),
			std::numeric_limits<double>::max(), std::numeric_limits<double>::lowest(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(),
			std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::epsilon()};
		double x = c.pick(d);
		if (c.choose(2)) { uint64_t u; memcpy(&u, &x, 8); single(c, num(F64, u)); }
		else { float f = static_cast<float>(x); uint32_t u; memcpy(&u, &f, 4); single(c, num(F32, u)); }
	});
	r.add("values/revision", [](Ctx& c) { single(c, num(REVISION, c.choose(65536))); });
	r.add("values/endpoint", [](Ctx& c) {
		if (c.choose(2)) { single(c, num(ENDPOINT, ep("10.20.30.40", static_cast<uint16_t>(c.choose(65536))))); return; }
		uint32_t b = static_cast<uint32_t>(c.choose(256)) << (8 * c.choose(4));
		single(c, num(ENDPOINT, static_cast<uint64_t>((c.choose(2) ? 0x01020304u : 0u) ^ b) << 16 | 2222));
	});
	r.add("lengths", [](Ctx& c) {
		int kind = c.choose(4);
		if (kind == 0) single(c, bytes(SHORT_STRING, ramp(c.choose(256))));
		else if (kind == 1) {
			int n = c.choose(606);
			static const int extra[] = {1000, 4095, 32767, 32768, 65534, 65535};
			single(c, bytes(STRING, ramp(n < 600 ? n : extra[n - 600])));
		} else if (kind == 2) single(c, bytes(BYTES, ramp(c.choose(600))));
		else {
			std::vector<uint16_t> w(c.choose(300));
			for (size_t i = 0; i < w.size(); ++i) w[i] = static_cast<uint16_t>(0x8001 + 257 * i);
			single(c, words(w));
		}
	});
	r.add("long arrays", [](Ctx& c) {
		// longer than any 16 bit length field
		static const std::vector<int> sizes = {32767, 32768, 65535, 65536, 65537, 70000, 131071, 131072, 131073, 200000};
		int n = c.pick(sizes);
		if (c.choose(2)) single(c, bytes(BYTES, ramp(n)));
		else {
			std::vector<uint16_t> w(n);
			for (size_t i = 0; i < w.size(); ++i) w[i] = static_cast<uint16_t>(0x8001 + 257 * i + (i >> 16));
			single(c, words(w));
		}
	});
	// truncations
	int further = r.tier(1, 2);
	r.add("truncated", [further](Ctx& c) {
		std::vector<Value> vs{c.pick(alphabet(), "first")};
		if (int k = c.choose(static_cast<int>(alphabet().size()) + 1, "second")) vs.push_back(alphabet()[k - 1]);
		Bytes all;
		for (auto& v : vs) { Bytes e = v.encoding(); all.insert(all.end(), e.begin(), e.end()); }
		if (all.empty()) return;
		size_t cut = c.choose(static_cast<int>(all.size()), "length");
		Bytes part(all.begin(), all.begin() + cut);
		part.shrink_to_fit();
		c.step(fmt("only %zu of %zu bytes", cut, all.size()));
		Buffer b(part);
		size_t end = 0;
		bool valid = true;
		for (auto& v : vs) {
			size_t need = v.encoding().size();
			Value got = read(b, v);
			end += need;
			if (valid && end <= cut) {
				same(got, v, "complete value of truncated data");
				c.check(b.isValid(), "valid up to the end of the data");
				c.equal(b.pos(), end, "pos()");
			} else if (need) {
				valid = false;
				c.check(!b.isValid(), "reading " + v.str() + fmt(" beyond the %zu bytes leaves the buffer valid", cut));
			}
			c.state(mix(hash(part), mix(end, valid)));
		}
		c.equal(b.size(), cut, "size() of truncated data");
		c.obs(part);
		if (!valid) readBeyond(c, b, small(), further);
	});
	r.add("empty", [](Ctx& c) {
		Buffer b1, b2(16), b3(Bytes{});
		Buffer& b = *c.pick(std::vector<Buffer*>{&b1, &b2, &b3});
		c.check(b.isValid() && b.empty() && b.size() == 0 && b.pos() == 0, "an empty buffer is valid");
		const Value& t = c.pick(alphabet());
		read(b, t);
		// a string of no known length needs its length
		size_t need = t.encoding().size();
		c.equal(b.isValid(), need == 0, "validity after reading " + t.str() + " from an empty buffer");
		if (need) readBeyond(c, b, alphabet(), 1);
		c.obs(t.str());
	});
	// one far read: the length prefix promises more than there is
	r.add("prefix", [](Ctx& c) {
		bool isShort = c.choose(2);
		int declared = c.pick(std::vector<int>{1, 2, 3, 127, 128, 200, 255, 256, 600, 32767, 32768, 65535});
		if (isShort && declared > 255) return;
		int present = c.choose(4);
		if (present >= declared) return;
		Bytes d = isShort ? Bytes(ref::W().u8(declared).raw(ramp(present))) : Bytes(ref::W().u16(declared).raw(ramp(present)));
		d.shrink_to_fit();
		Buffer b(d);
		if (isShort) { CipShortString s; b >> s; } else { CipString s; b >> s; }
		c.check(!b.isValid(), fmt("a string of %d bytes is read from %d bytes", declared, present));
		c.obs(d);
		readBeyond(c, b, alphabet(), 1);
	});
}
