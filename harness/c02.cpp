// C02: object paths
#include "mc/mc.h"
#include "mc/ref.h"
#include "cip/EPath.h"
#include "Yaskawa_EPath.h"

using namespace mc;
using eipScanner::cip::EPath;
using eipScanner::cip::Yaskawa_EPath;

namespace {

const std::vector<int> IDS = {0, 1, 2, 0x20, 0x24, 0x30, 0x7f, 0x80, 0xff, 0x100, 0x101, 0x1ff, 0x2021, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff};
const std::vector<int> IDS8 = {0, 1, 2, 0x20, 0x21, 0x24, 0x25, 0x30, 0x31, 0x64, 0x7f, 0x80, 0xfe, 0xff};

EPath make(const ref::Path& p) {
	if (p.attr >= 0) return EPath(static_cast<uint16_t>(p.cls), static_cast<uint16_t>(p.inst), static_cast<uint16_t>(p.attr));
	if (p.inst >= 0) return EPath(static_cast<uint16_t>(p.cls), static_cast<uint16_t>(p.inst));
	return EPath(static_cast<uint16_t>(p.cls));
}
Yaskawa_EPath makeY(const ref::Path& p) {
	if (p.attr >= 0) return Yaskawa_EPath(static_cast<uint8_t>(p.cls), static_cast<uint8_t>(p.inst), static_cast<uint8_t>(p.attr));
	if (p.inst >= 0) return Yaskawa_EPath(static_cast<uint8_t>(p.cls), static_cast<uint8_t>(p.inst));
	return Yaskawa_EPath(static_cast<uint8_t>(p.cls));
}
bool fits8(const ref::Path& p) { return p.cls < 256 && p.inst < 256 && p.attr < 256; }

template <typename P>
void decode(Ctx& c, const Bytes& data, const P& expected, const ref::Path& p, const char* what) {
	// into a fresh path and into one that already has other content
	P fresh, used = P(7, 8, 9);
	for (P* q : {&fresh, &used}) {
		auto o = attempt([&] { q->expandPaddedPath(data); });
		c.check(!o.threw, std::string(what) + " of " + p.str() + " is refused: " + o.what);
		c.check(*q == expected, std::string(what) + ": " + hex(data) + " decodes to " + q->toString() + " instead of " + p.str());
		c.equal(static_cast<int>(q->getClassId()), std::max(0, p.cls), "class id");
		c.equal(static_cast<int>(q->getObjectId()), std::max(0, p.inst), "instance id");
		c.equal(static_cast<int>(q->getAttributeId()), std::max(0, p.attr), "attribute id");
	}
}

void one(Ctx& c, const ref::Path& p) {
	c.step("path " + p.str());
	EPath e = make(p);
	Bytes b16 = e.packPaddedPath();
	c.equal(b16, ref::encodePath(p, 16), "16 bit encoding of " + p.str());
	c.equal(static_cast<size_t>(e.getSizeInWords()) * 2, b16.size(), "declared length (16 bit) of " + p.str());
	c.equal(e.packPaddedPath(false), b16, "explicit 16 bit encoding of " + p.str());
	decode(c, b16, e, p, "16 bit encoding");
	EPath again;
	again.expandPaddedPath(b16);
	c.equal(again.packPaddedPath(), b16, "encoding of the decoded path");
	c.equal(again.getSizeInWords(), e.getSizeInWords(), "declared length of the decoded path");
	c.state(hash(b16));
	if (fits8(p)) {
		Bytes b8 = e.packPaddedPath(true);
		c.equal(b8, ref::encodePath(p, 8), "8 bit encoding of " + p.str());
		c.equal(static_cast<size_t>(e.getSizeInWords(true)) * 2, b8.size(), "declared length (8 bit) of " + p.str());
		decode(c, b8, e, p, "8 bit encoding");
		c.state(hash(b8));
		Yaskawa_EPath y = makeY(p);
		c.equal(y.packPaddedPath(), ref::encodePath(p, 8), "Yaskawa encoding of " + p.str());
		c.equal(static_cast<size_t>(y.getSizeInWords()) * 2, b8.size(), "declared length (Yaskawa) of " + p.str());
		decode(c, b8, y, p, "Yaskawa encoding");
	}
	c.obs(b16);
}

ref::Path pickPath(Ctx& c, const std::vector<int>& ids) {
	ref::Path p;
	int parts = 1 + c.choose(3, "parts");
	p.cls = c.pick(ids, "class");
	if (parts > 1) p.inst = c.pick(ids, "instance");
	if (parts > 2) p.attr = c.pick(ids, "attribute");
	return p;
}

/// What the reference says about arbitrary bytes: 0 valid and canonical, 1 must be refused, 2 nothing is claimed
int judge(const Bytes& d, ref::Path& p, bool yaskawa) {
	p = ref::parsePath(d);
	size_t i = 0;
	bool weird = false;
	while (i < d.size()) {
		unsigned s = d[i];
		bool narrow = s == 0x20 || s == 0x24 || s == 0x30;
		bool wide = s == 0x21 || s == 0x25 || s == 0x31;
		if (!narrow && !wide) return weird ? 2 : 1; // unknown
		size_t need = narrow ? 2 : 4;
		if (i + need > d.size()) return weird ? 2 : 1; // incomplete
		if (wide && yaskawa && d[i + 3] != 0) weird = true; // the vendor path is 8 bit: larger ids are not claimed
		if (wide && d[i + 1] != 0) weird = true; // the pad byte
		i += need;
	}
	if (weird || !p.ok) return 2;
	return 0;
}

template <typename P>
void arbitrary(Ctx& c, const Bytes& d, bool yaskawa) {
	ref::Path p;
	int verdict = judge(d, p, yaskawa);
	Bytes exact(d);
	exact.shrink_to_fit();
	P path;
	auto o = attempt([&] { path.expandPaddedPath(exact); });
	if (verdict == 1) c.check(o.threw, "the incomplete or unknown path " + hex(d) + " is accepted as " + path.toString());
	if (verdict == 0) {
		c.check(!o.threw, "the path " + hex(d) + " is refused: " + o.what);
		if constexpr (std::is_same_v<P, EPath>) c.check(path == make(p), "the path " + hex(d) + " is decoded as " + path.toString());
		else c.check(path == makeY(p), "the path " + hex(d) + " is decoded as " + path.toString());
	}
	c.obs(d);
	c.obs(o.threw ? 1 : 2);
	c.state(mix(hash(d), verdict));
}

} // namespace

void mc::define(Registry& r) {
	r.bound("all paths of 1 to 3 parts over boundary ids; every id position through all 65536 (256 for 8 bit) values; all pairs of different paths compared");
	r.bound("every truncation and every replacement of one byte (256 values) of the encodings; all byte sequences up to 2 (thorough 3) bytes; sequences of 1 to 140 segments");
	r.add("boundary/16", [](Ctx& c) { one(c, pickPath(c, IDS)); });
	r.add("boundary/8", [](Ctx& c) { one(c, pickPath(c, IDS8)); });
	r.add("all ids", [](Ctx& c) {
		int which = c.choose(5);
		int v = c.choose(65536);
		ref::Path p;
		p.cls = 1;
		if (which == 0) p.cls = v;
		else if (which == 1) { p.cls = v; p.inst = 0; }
		else if (which == 2) p.inst = v;
		else if (which == 3) { p.inst = v; p.attr = 0; }
		else { p.inst = 1; p.attr = v; }
		one(c, p);
	});
	if (r.thorough()) {
		r.add("all 8 bit pairs", [](Ctx& c) {
			ref::Path p;
			int k = c.choose(3);
			int v = c.choose(65536);
			int a = v & 255, b = v >> 8;
			p.cls = k == 0 ? a : k == 1 ? a : 1;
			p.inst = k == 0 ? b : k == 1 ? 0 : a;
			p.attr = k == 0 ? -1 : b;
			one(c, p);
		});
	}
	r.add("equality", [](Ctx& c) {
		static const std::vector<int> ids{0, 1, 2, 256};
		ref::Path a = pickPath(c, ids), b = pickPath(c, ids);
		c.equal(make(a) == make(b), a == b, "equality of " + a.str() + " and " + b.str());
		if (fits8(a) && fits8(b)) c.equal(makeY(a) == makeY(b), a == b, "equality (Yaskawa) of " + a.str() + " and " + b.str());
		c.obs(a.str() + b.str());
		c.state(hash(a.str() + b.str()));
	});
	r.add("truncated", [](Ctx& c) {
		static const std::vector<int> ids{0, 5, 0x24, 0x2120, 0xff};
		ref::Path p = pickPath(c, ids);
		int width = c.choose(2) ? 8 : 16;
		if (width == 8 && !fits8(p)) return;
		Bytes d = ref::encodePath(p, width);
		d.resize(1 + c.choose(static_cast<int>(d.size()), "length"));
		c.step("decode " + hex(d));
		if (c.choose(2, "Yaskawa")) arbitrary<Yaskawa_EPath>(c, d, true);
		else arbitrary<EPath>(c, d, false);
	});
	r.add("mutated", [](Ctx& c) {
		static const std::vector<int> ids{0, 5, 0x2120};
		ref::Path p = pickPath(c, ids);
		int width = c.choose(2) ? 8 : 16;
		if (width == 8 && !fits8(p)) return;
		Bytes d = ref::encodePath(p, width);
		d[c.choose(static_cast<int>(d.size()), "position")] = static_cast<uint8_t>(c.choose(256, "byte"));
		c.step("decode " + hex(d));
		if (c.choose(2, "Yaskawa")) arbitrary<Yaskawa_EPath>(c, d, true);
		else arbitrary<EPath>(c, d, false);
	});
	r.add("mixed widths", [](Ctx& c) {
		ref::W w;
		ref::Path p;
		auto seg = [&](uint8_t t, int& v) {
			v = c.pick(std::vector<int>{0, 1, 0x25, 0xff});
			if (c.choose(2)) w.u8(t).u8(v); else w.u8(t + 1).u8(0).u16(v);
		};
		int parts = 1 + c.choose(3);
		seg(0x20, p.cls);
		if (parts > 1) seg(0x24, p.inst);
		if (parts > 2) seg(0x30, p.attr);
		Bytes d = w;
		c.step("decode " + hex(d));
		decode(c, d, make(p), p, "mixed encoding");
		if (c.choose(2, "Yaskawa")) arbitrary<Yaskawa_EPath>(c, d, true);
		c.obs(d);
		c.state(hash(d));
	});
	r.add("long sequences", [](Ctx& c) {
		// many segments: the last one of each kind counts
		ref::W w;
		int n = 1 + c.choose(140, "segments"), how = c.choose(6, "kinds"), wide = c.choose(3, "width");
		for (int i = 0; i < n; ++i) {
			static const int orders[6][4] = {{0, 1, 2, 0}, {0, 0, 0, 1}, {2, 1, 0, 1}, {0, 2, 2, 2}, {1, 1, 1, 0}, {0, 1, 1, 2}};
			uint8_t type = std::vector<uint8_t>{0x20, 0x24, 0x30}[orders[how][i % 4]];
			if (wide == 1 || (wide == 2 && i % 2)) w.u8(type + 1).u8(0).u16(0x100 + i);
			else w.u8(type).u8(1 + i);
		}
		Bytes d = w;
		arbitrary<EPath>(c, d, false);
		if (wide == 0) arbitrary<Yaskawa_EPath>(c, d, true);
		d.pop_back();
		arbitrary<EPath>(c, d, false);
	});
	int n = r.tier(2, 3);
	r.add("short sequences", [n](Ctx& c) {
		static const std::vector<int> bytesAlphabet = {0, 1, 0x1f, 0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x28, 0x2c, 0x30, 0x31, 0x32, 0x34, 0x40, 0x91, 0xff};
		Bytes d{static_cast<uint8_t>(c.choose(256))};
		for (int i = 0; i < n; ++i) {
			int k = c.choose(static_cast<int>(bytesAlphabet.size()) + 1);
			if (!k) break;
			d.push_back(static_cast<uint8_t>(bytesAlphabet[k - 1]));
		}
		if (c.choose(2, "Yaskawa")) arbitrary<Yaskawa_EPath>(c, d, true);
		else arbitrary<EPath>(c, d, false);
	});
}
