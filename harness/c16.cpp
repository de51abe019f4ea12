// C16: parameter objects
#include "common.h"
#include "ParameterObject.h"

using namespace eipScanner;

namespace {

struct Param {
	Bytes value{0x39, 0x30}, minimum{1, 0}, maximum{0xff, 0x7f}, dflt{2, 1};
	Bytes link;
	uint16_t descriptor = 0;
	uint8_t type = 0xC7;
	std::string name = "Freq", units = "Hz", help = "Some help";
	uint16_t multiplier = 1, divisor = 1, base = 1;
	uint16_t offset = 0;
	uint8_t precision = 0;
	Bytes unread = pattern(16, 77); // the scaling attributes in the reply with all of them are wrong on purpose
	bool scalable() const { return descriptor & 4; }
	void sizeTo(size_t n) {
		value = pattern(n, 1);
		minimum = pattern(n, 2);
		maximum = pattern(n, 3);
		dflt = pattern(n, 4);
	}
	/// Returns also the size of what must be there
	Bytes all(bool full, size_t* need = nullptr) const {
		ref::W w;
		w.raw(value).u8(link.size()).raw(link).u16(descriptor).u8(type);
		if (need) *need = w.b.size();
		w.u8(value.size()).shortString(name).shortString(units).shortString(help).raw(minimum).raw(maximum).raw(dflt);
		if (need && full) *need = w.b.size();
		w.raw(unread).u8(precision);
		if (need && full && scalable()) *need = w.b.size();
		return w.u16(0x0101).u8(3); // and more
	}
	bool attribute(int id, Bytes& b) const {
		switch (id) {
			case 1: b = value; return true;
			case 2: b = {static_cast<uint8_t>(link.size())}; return true;
			case 3: b = link; return true;
			case 4: b = ref::W().u16(descriptor); return true;
			case 5: b = {type}; return true;
			case 6: b = {static_cast<uint8_t>(value.size())}; return true;
			case 7: b = ref::W().shortString(name); return true;
			case 8: b = ref::W().shortString(units); return true;
			case 9: b = ref::W().shortString(help); return true;
			case 10: b = minimum; return true;
			case 11: b = maximum; return true;
			case 12: b = dflt; return true;
			case 13: b = ref::W().u16(multiplier); return true;
			case 14: b = ref::W().u16(divisor); return true;
			case 15: b = ref::W().u16(base); return true;
			case 16: b = ref::W().u16(offset); return true;
			case 21: b = {precision}; return true;
		}
		return false;
	}
};

uint64_t number(const Bytes& b) {
	uint64_t v = 0;
	for (size_t i = 0; i < b.size() && i < 8; ++i) v |= static_cast<uint64_t>(b[i]) << 8 * i;
	return v;
}

template <typename T>
void values(Ctx& c, const ParameterObject& o, const Param& p, bool full) {
	auto as = [](const Bytes& b) { T v; uint64_t n = number(b); memcpy(&v, &n, sizeof v); return v; };
	auto eq = [&](T got, T expected, const char* what) { if (memcmp(&got, &expected, sizeof got)) c.equal(got, expected, what); c.compared(); };
	eq(o.getActualValue<T>(), as(p.value), "value");
	if (full) {
		eq(o.getMinValue<T>(), as(p.minimum), "minimum");
		eq(o.getMaxValue<T>(), as(p.maximum), "maximum");
		eq(o.getDefaultValue<T>(), as(p.dflt), "default");
	}
}

void verify(Ctx& c, const ParameterObject& o, const Param& p, int id, bool full) {
	switch (p.value.size()) {
		case 1: values<uint8_t>(c, o, p, full); values<int8_t>(c, o, p, full); break;
		case 2: values<uint16_t>(c, o, p, full); values<int16_t>(c, o, p, full); break;
		case 4: values<uint32_t>(c, o, p, full); values<int32_t>(c, o, p, full); values<float>(c, o, p, full); break;
		case 8: values<uint64_t>(c, o, p, full); values<int64_t>(c, o, p, full); values<double>(c, o, p, full); break;
	}
	c.equal(static_cast<int>(o.getType()), static_cast<int>(p.type), "type");
	c.equal(o.isScalable(), p.scalable(), "scalable");
	c.equal(o.isReadOnly(), (p.descriptor & 16) != 0, "read only");
	c.equal(o.hasFullAttributes(), full, "full attributes");
	c.equal(static_cast<int>(o.getParameter()), id, "number of the parameter");
	c.equal(static_cast<int>(o.getInstanceId()), id, "instance id");
	c.equal(static_cast<int>(o.getClassId()), 0x0F, "class id");
	uint64_t h = mix(mix(number(p.value), p.type), mix(p.descriptor, id));
	if (full) {
		c.equal(o.getName(), p.name, "name");
		c.equal(o.getUnits(), p.units, "units");
		c.equal(o.getHelp(), p.help, "help");
		h = mix(h, mix(hash(p.name), mix(hash(p.units), hash(p.help))));
		if (p.scalable()) {
			c.equal(o.getScalingMultiplier(), p.multiplier, "multiplier");
			c.equal(o.getScalingDivisor(), p.divisor, "divisor");
			c.equal(o.getScalingBase(), p.base, "base");
			c.equal(o.getScalingOffset(), static_cast<int16_t>(p.offset), "offset");
			c.equal(static_cast<int>(o.getPrecision()), static_cast<int>(p.precision), "precision");
			h = mix(h, mix(mix(p.multiplier, p.divisor), mix(p.base, mix(p.offset, p.precision))));
		}
	}
	if (!full || !p.scalable()) {
		// neutral
		c.equal(static_cast<int>(o.getScalingMultiplier()), 1, "multiplier without scaling");
		c.equal(static_cast<int>(o.getScalingDivisor()), 1, "divisor without scaling");
		c.equal(static_cast<int>(o.getScalingBase()), 1, "base without scaling");
		c.equal(static_cast<int>(o.getScalingOffset()), 0, "offset without scaling");
	}
	c.obs(h);
	c.state(h);
}

struct Rig {
	Ctx& c;
	World w;
	std::map<int, Param> params;
	std::shared_ptr<SessionInfo> si;
	int reads = 0;
	// the n-th request from now is answered wrongly
	int badAt = -1, badKind = 0;
	uint8_t status = 0x0E;
	int cut = 0;
	bool spoilt = false; // a necessary reply was made wrong

	explicit Rig(Ctx& ctx) : c(ctx) {
		w.dev.onCip = [this](const ref::CipRequest& q) { return cip(q); };
		si = w.session();
	}
	bool full = true;
	ref::CipReply cip(const ref::CipRequest& q) {
		if (q.path.cls != 0x0F || !q.data.empty() || (q.service != 1 && q.service != 0x0E) || (q.service == 1) != (q.path.attr < 0)) {
			w.dev.problem("unexpected request " + q.str());
			return ref::CipReply::error(8);
		}
		auto it = params.find(q.path.inst);
		if (it == params.end()) { w.dev.problem("unexpected instance " + q.str()); return ref::CipReply::error(5); }
		Bytes b;
		size_t need = 0;
		if (q.service == 1) b = it->second.all(full, &need);
		else if (it->second.attribute(q.path.attr, b)) need = b.size();
		else return ref::CipReply::error(0x14);
		int n = reads++;
		ref::CipReply r(b);
		if (n == badAt) {
			if (badKind == 0) { spoilt = true; r.status = status; r.additional.assign(n % 3, 0x10); }
			if (badKind == 1) {
				size_t size = need - std::min<size_t>(need, cut);
				if (size < need) spoilt = true;
				r.data.resize(size);
			}
			if (badKind == 3) for (int i = 0; i < cut; ++i) r.data.push_back(0xD0 + i);
			if (badKind == 2) { spoilt = true; r = ref::CipReply::error(status); }
		}
		return r;
	}
	std::unique_ptr<ParameterObject> object;
	Outcome read(int id, int how = 0) {
		reads = 0;
		spoilt = false;
		object.reset();
		auto o = attempt([&] {
			if (how == 0) object = std::make_unique<ParameterObject>(id, full, si);
			else if (how == 1) object = std::make_unique<ParameterObject>(id, full, si, std::make_shared<MessageRouter>());
			else object = std::make_unique<ParameterObject>(id, full, si, std::make_shared<MessageRouter>(true));
		});
		c.step(o.threw ? "raises " + o.what : "read");
		w.conforming(c);
		return o;
	}
	void good(int id, int how = 0) {
		auto o = read(id, how);
		if (o.threw) c.fail("reading the parameter fails: " + o.what);
		verify(c, *object, params[id], id, full);
	}
};

} // namespace

void mc::define(Registry& r) {
	int depth = r.tier(4, 6);
	r.bound("all data sizes 0..255, all string lengths 0..255 for each string, all link path lengths 0..255, all 65536 descriptors, all types, all values of each byte of the scaling attributes, with and without full attributes and scaling");
	r.bound("each of the requests refused with each of 255 statuses, each reply truncated to each shorter length or longer by 1 to 9 bytes");
	r.bound(fmt("all histories of %d updates: changed value, same value, refused, too short; two objects", depth));
	r.bound("all words of up to 2 of 4 kinds of updates, repeated to 300 (thorough 1100) updates of one object");

	r.add("data sizes", [](Ctx& c) {
		Rig g(c);
		int size = c.choose(256);
		Param p;
		p.sizeTo(size);
		p.descriptor = c.choose(2) * 4 | 0x10;
		p.link = pattern(c.choose(2) * 8);
		p.precision = 3;
		p.multiplier = 100;
		g.full = c.choose(2);
		g.params[5] = p;
		g.good(5, c.choose(2));
		// at the end: an update
		g.params[5].value = pattern(size, 9);
		auto o = attempt([&] { g.object->updateValue(g.si); });
		c.check(!o.threw, "updating the value fails: " + o.what);
		verify(c, *g.object, g.params[5], 5, g.full);
	});
	r.add("values", [](Ctx& c) {
		// each byte of the values
		Rig g(c);
		static const std::vector<int> sizes = {1, 2, 4, 8};
		int size = c.pick(sizes), which = c.choose(4), byte = c.choose(size), high = c.choose(16);
		g.full = c.choose(2);
		Param p;
		p.sizeTo(size);
		for (int low = 0; low < 16; ++low) {
			Bytes& b = which == 0 ? p.value : which == 1 ? p.minimum : which == 2 ? p.maximum : p.dflt;
			b[byte] = high << 4 | low;
			g.params[1] = p;
			g.good(1);
		}
	});
	r.add("named types", [](Ctx& c) {
		// the names of the library stand for the numbers of CIP
		struct Named { const char* name; cip::CipDataTypes value; int wire; };
		static const std::vector<Named> names = {
			{"ANY", cip::CipDataTypes::ANY, 0x00}, {"BOOL", cip::CipDataTypes::BOOL, 0xc1}, {"SINT", cip::CipDataTypes::SINT, 0xc2}, {"INT", cip::CipDataTypes::INT, 0xc3}, {"DINT", cip::CipDataTypes::DINT, 0xc4}, {"LINT", cip::CipDataTypes::LINT, 0xc5}, {"USINT", cip::CipDataTypes::USINT, 0xc6}, {"UINT", cip::CipDataTypes::UINT, 0xc7}, {"UDINT", cip::CipDataTypes::UDINT, 0xc8}, {"ULINT", cip::CipDataTypes::ULINT, 0xc9}, {"REAL", cip::CipDataTypes::REAL, 0xca}, {"LREAL", cip::CipDataTypes::LREAL, 0xcb}, {"STIME", cip::CipDataTypes::STIME, 0xcc}, {"DATE", cip::CipDataTypes::DATE, 0xcd}, {"DATE_OF_DAY", cip::CipDataTypes::DATE_OF_DAY, 0xce}, {"DATE_AND_TIME", cip::CipDataTypes::DATE_AND_TIME, 0xcf}, {"STRING", cip::CipDataTypes::STRING, 0xd0}, {"BYTE", cip::CipDataTypes::BYTE, 0xd1}, {"WORD", cip::CipDataTypes::WORD, 0xd2}, {"DWORD", cip::CipDataTypes::DWORD, 0xd3}, {"LWORD", cip::CipDataTypes::LWORD, 0xd4}, {"STRING2", cip::CipDataTypes::STRING2, 0xd5}, {"FTIME", cip::CipDataTypes::FTIME, 0xd6}, {"LTIME", cip::CipDataTypes::LTIME, 0xd7}, {"ITIME", cip::CipDataTypes::ITIME, 0xd8}, {"STRINGN", cip::CipDataTypes::STRINGN, 0xd9}, {"SHORT_STRING", cip::CipDataTypes::SHORT_STRING, 0xda}, {"TIME", cip::CipDataTypes::TIME, 0xdb}, {"EPATH", cip::CipDataTypes::EPATH, 0xdc}, {"ENG_UNIT", cip::CipDataTypes::ENG_UNIT, 0xdd}, {"USINT_USINT", cip::CipDataTypes::USINT_USINT, 0xa0}, {"USINT6", cip::CipDataTypes::USINT6, 0xa2}, {"MEMBER_LIST", cip::CipDataTypes::MEMBER_LIST, 0xa3}, {"BYTE_ARRAY", cip::CipDataTypes::BYTE_ARRAY, 0xa4}};
		const auto& n = c.pick(names, "name");
		Rig g(c);
		g.full = c.choose(2);
		Param p;
		p.sizeTo(4);
		p.type = n.wire;
		p.descriptor = c.choose(4, "scalable, read only") * 4;
		if (p.descriptor & 8) p.descriptor ^= 8 | 16;
		p.precision = 9;
		p.multiplier = 300; p.divisor = 301; p.base = 302; p.offset = 303;
		g.params[1] = p;
		g.good(1);
		c.check(g.object->getType() == n.value, fmt("the type %02x is not reported as ", n.wire) + n.name);
	});
	r.add("strings", [](Ctx& c) {
		Rig g(c);
		int which = c.choose(3), length = c.choose(256);
		Param p;
		p.descriptor = 4;
		p.precision = 7;
		static const std::vector<int> others = {0, 1, 255};
		int other = c.pick(others);
		std::string s(length, ' ');
		for (int i = 0; i < length; ++i) s[i] = static_cast<char>(i + length);
		p.name = which == 0 ? s : std::string(other, 'n');
		p.units = which == 1 ? s : std::string(other, 'u');
		p.help = which == 2 ? s : std::string(other, 'h');
		g.params[1] = p;
		g.good(1);
	});
	r.add("descriptors", [](Ctx& c) {
		Rig g(c);
		int high = c.choose(256), group = c.choose(4);
		g.full = c.choose(2);
		for (int low = group * 64; low < group * 64 + 64; ++low) {
			Param p;
			p.descriptor = high << 8 | low;
			p.multiplier = 3;
			p.precision = 1 + high;
			p.type = low;
			g.params[1] = p;
			g.good(1);
		}
	});
	r.add("scaling attributes", [](Ctx& c) {
		Rig g(c);
		int which = c.choose(9), high = c.choose(16);
		for (int low = 0; low < 16; ++low) {
			int x = high << 4 | low;
			Param p;
			p.descriptor = 4;
			p.multiplier = 11; p.divisor = 12; p.base = 13; p.offset = 14; p.precision = 15;
			switch (which) {
				case 0: p.multiplier = x; break;
				case 1: p.multiplier = x << 8 | 0x80; break;
				case 2: p.divisor = x; break;
				case 3: p.divisor = x << 8 | 0x80; break;
				case 4: p.base = x; break;
				case 5: p.base = x << 8 | 0x80; break;
				case 6: p.offset = x; break;
				case 7: p.offset = x << 8 | 0x80; break;
				case 8: p.precision = x; break;
			}
			g.params[1] = p;
			g.good(1);
		}
	});
	r.add("link paths and instances", [](Ctx& c) {
		Rig g(c);
		static const std::vector<int> ids = {1, 2, 41, 255, 256, 610, 65535};
		int id = c.pick(ids), n = c.choose(256);
		g.full = c.choose(2);
		Param p;
		p.link = pattern(n, 5);
		p.descriptor = n % 2 ? 0x14 : 0;
		for (int i : ids) { g.params[i] = Param(); g.params[i].name = "other"; g.params[i].sizeTo(4); }
		g.params[id] = p;
		g.good(id, id < 256 ? c.choose(3) : c.choose(2));
	});
	r.add("refused", [](Ctx& c) {
		// without scaling there are two requests, else six
		Rig g(c);
		g.full = c.choose(2);
		Param p;
		p.descriptor = c.choose(2) * 4;
		g.params[1] = p;
		g.badAt = c.choose(g.full && p.scalable() ? 6 : 2);
		g.badKind = c.choose(2) ? 2 : 0;
		g.status = 1 + c.choose(255);
		auto o = g.read(1);
		c.check(o.threw == g.spoilt, g.spoilt ? fmt("status %u of request %d is not refused", g.status, g.badAt) : "raises: " + o.what);
		c.obs(o.type);
		g.badAt = -1;
		g.good(1);
	});
	r.add("truncated", [](Ctx& c) {
		Rig g(c);
		g.full = c.choose(2);
		Param p;
		p.descriptor = c.choose(2) * 4;
		static const std::vector<int> sizes = {0, 1, 2, 4, 8};
		p.sizeTo(c.pick(sizes));
		p.link = pattern(c.choose(3));
		g.params[1] = p;
		g.badAt = c.choose(g.full && p.scalable() ? 6 : 2);
		g.badKind = 1;
		size_t need = 2;
		if (g.badAt == 0) need = 1;
		if (g.badAt == 1) p.all(g.full, &need);
		g.cut = c.choose(static_cast<int>(need) + 1);
		auto o = g.read(1);
		if (g.spoilt) c.check(o.threw, fmt("a reply without the last %d bytes to request %d is not refused", g.cut, g.badAt));
		else {
			c.check(!o.threw, "reading the parameter fails: " + o.what);
			verify(c, *g.object, p, 1, g.full);
		}
		c.obs(o.type);
	});
	r.add("surplus", [](Ctx& c) {
		// what follows the attribute is not a part of it
		Rig g(c);
		g.full = c.choose(2);
		Param p;
		p.descriptor = c.choose(2) * 4;
		static const std::vector<int> sizes = {1, 2, 4, 8};
		p.sizeTo(c.pick(sizes));
		p.multiplier = 300; p.divisor = 301; p.base = 302; p.offset = 303; p.precision = 2;
		g.params[1] = p;
		g.badAt = c.choose(g.full && p.scalable() ? 6 : 2);
		g.badKind = 3;
		g.cut = 1 + c.choose(9);
		g.good(1);
		g.badAt = 0;
		g.reads = 0;
		g.params[1].value = pattern(p.value.size(), 60);
		auto o = attempt([&] { g.object->updateValue(g.si); });
		c.check(!o.threw, "updating the value fails: " + o.what);
		verify(c, *g.object, g.params[1], 1, g.full);
	});
	r.add("updates", [depth](Ctx& c) {
		Rig g(c);
		static const std::vector<int> sizes = {2, 8};
		Param p;
		p.sizeTo(c.pick(sizes));
		p.descriptor = 4;
		g.full = c.choose(2);
		g.params[1] = p;
		g.params[2] = p;
		g.params[2].value = pattern(p.value.size(), 40);
		std::vector<std::unique_ptr<ParameterObject>> objects;
		std::map<int, Param> shown = g.params;
		for (int i = 1; i <= 2; ++i) { g.good(i); objects.push_back(std::move(g.object)); }
		for (int i = 0; i < depth; ++i) {
			int which = c.choose(2), kind = c.choose(5);
			g.badAt = -1;
			g.spoilt = false;
			g.reads = 0;
			Param& now = g.params[which + 1];
			if (kind == 1) {
				// everything else changes too, but only the value is updated
				now.value = pattern(p.value.size(), 50 + i);
				now.minimum = pattern(p.value.size(), 70 + i);
				now.name += "x";
				now.multiplier += 5;
			}
			if (kind == 2) { g.badAt = 0; g.badKind = 0; g.status = 1 + i; }
			if (kind == 3) { g.badAt = 0; g.badKind = 1; g.cut = 1; now.value = pattern(p.value.size(), 90 + i); }
			if (kind == 4) { g.badAt = 0; g.badKind = 1; g.cut = 100; }
			auto o = attempt([&] { objects[which]->updateValue(g.si); });
			c.step(fmt("update %d of kind %d", which + 1, kind));
			c.equal(o.threw, kind >= 2, "update of kind " + std::to_string(kind) + " raises");
			c.equal(g.reads, 1, "number of requests");
			if (kind < 2) shown[which + 1].value = now.value;
			for (int k = 0; k < 2; ++k) verify(c, *objects[k], shown[k + 1], k + 1, g.full);
		}
		g.w.conforming(c);
	});
	int many = r.tier(300, 1100);
	r.add("many updates", [many](Ctx& c) {
		// one object for a long time
		Rig g(c);
		static const std::vector<int> sizes = {1, 2, 4, 8};
		Param p;
		p.sizeTo(c.pick(sizes));
		p.descriptor = 4;
		g.full = c.choose(2);
		g.params[1] = p;
		Param shown = p;
		g.good(1);
		Word word(c, 4, 2);
		for (int i = 0; i < many; ++i) {
			int kind = word[i];
			g.badAt = -1;
			g.reads = 0;
			if (kind != 1) g.params[1].value = pattern(p.value.size(), 50 + i);
			if (kind == 2) { g.badAt = 0; g.badKind = 0; g.status = 1 + i % 255; }
			if (kind == 3) { g.badAt = 0; g.badKind = 1; g.cut = 1; }
			auto o = attempt([&] { g.object->updateValue(g.si); });
			c.equal(o.threw, kind >= 2, fmt("update %d of kind %d raises", i, kind));
			c.equal(g.reads, 1, "number of requests");
			if (kind < 2) shown.value = g.params[1].value;
			verify(c, *g.object, shown, 1, g.full);
			if (i % 64 == 0) c.alive();
		}
		g.w.conforming(c);
	});
	r.add("local", [](Ctx& c) {
		static const std::vector<uint16_t> w = {0, 1, 0xff, 0x100, 0x8000, 0xffff};
		ParameterObject o(c.choose(2) ? 65535 : 3, c.choose(2), 4);
		Param p;
		p.name = p.units = p.help = "";
		p.type = 0;
		bool ro = false, scalable = false;
		for (int i = 0; i < 3; ++i) switch (c.choose(11)) {
			case 0: o.setScalingMultiplier(p.multiplier = c.pick(w)); break;
			case 1: o.setScalingDivisor(p.divisor = c.pick(w)); break;
			case 2: o.setScalingBase(p.base = c.pick(w)); break;
			case 3: p.offset = c.pick(w); o.setScalingOffset(static_cast<int16_t>(p.offset)); break;
			case 4: o.setPrecision(p.precision = c.choose(2) * 255); break;
			case 5: p.name = std::string(c.choose(3) * 100, 'n'); o.setName(p.name); break;
			case 6: p.units = std::string(c.choose(3) * 100, 'u'); o.setUnits(p.units); break;
			case 7: p.help = std::string(c.choose(3) * 200, 'h'); o.setHelp(p.help); break;
			case 8: scalable = c.choose(2); o.setScalable(scalable); break;
			case 9: ro = c.choose(2); o.setReadOnly(ro); break;
			case 10: p.type = c.choose(2) ? 0xC7 : 0xDD; o.setType(static_cast<cip::CipDataTypes>(p.type)); break;
		}
		c.equal(o.getScalingMultiplier(), p.multiplier, "multiplier");
		c.equal(o.getScalingDivisor(), p.divisor, "divisor");
		c.equal(o.getScalingBase(), p.base, "base");
		c.equal(o.getScalingOffset(), static_cast<int16_t>(p.offset), "offset");
		c.equal(static_cast<int>(o.getPrecision()), static_cast<int>(p.precision), "precision");
		c.equal(o.getName(), p.name, "name");
		c.equal(o.getUnits(), p.units, "units");
		c.equal(o.getHelp(), p.help, "help");
		c.equal(o.isScalable(), scalable, "scalable");
		c.equal(o.isReadOnly(), ro, "read only");
		c.equal(static_cast<int>(o.getType()), static_cast<int>(p.type), "type");
		c.obs(mix(mix(p.multiplier, p.divisor), mix(mix(p.base, p.offset), mix(p.precision, mix(hash(p.name), hash(p.units))))));
	});
	r.add("created empty", [](Ctx& c) {
		// an object created without requests can be updated like others
		Rig g(c);
		static const std::vector<int> ids = {1, 2, 0x00ff, 0x0100, 0xffff};
		int id = c.pick(ids, "instance"), size = 1 << c.choose(4, "size");
		bool full = c.choose(2, "full attributes");
		ParameterObject o(id, full, size);
		Param p;
		p.sizeTo(size);
		g.params[id] = p;
		Param shown;
		shown.value = shown.minimum = shown.maximum = shown.dflt = Bytes(size, 0);
		shown.name = shown.units = shown.help = "";
		shown.type = 0;
		auto look = [&](const ParameterObject& of) {
			verify(c, of, shown, id, full);
			if (!full) { verify(c, of, shown, id, full); c.check(of.getName().empty() && of.getUnits().empty() && of.getHelp().empty(), "texts"); }
			c.equal(static_cast<int>(of.getPrecision()), 0, "precision");
		};
		look(o);
		for (int i = 0; i < 3; ++i) {
			int what = c.choose(5, "operation");
			if (what == 0) {
				g.params[id].value = pattern(size, 40 + i);
				g.reads = 0;
				o.updateValue(g.si);
				c.equal(g.reads, 1, "number of requests");
				shown.value = g.params[id].value;
				c.step("update");
			} else if (what == 1) {
				g.reads = 0;
				g.badAt = 0;
				g.badKind = c.choose(2, "refused or cut");
				g.cut = 1;
				c.check(attempt([&] { o.updateValue(g.si); }).threw, "a bad reply to an update is accepted");
				g.badAt = -1;
				c.step("refused update");
			} else {
				// as many bytes as the type has
				auto set = [&](auto value) {
					using T = decltype(value);
					if (what == 2) o.setEngMinValue<T>(value);
					if (what == 3) o.setEngMaxValue<T>(value);
					if (what == 4) o.setEngDefaultValue<T>(value);
					Bytes b(size);
					memcpy(b.data(), &value, size);
					(what == 2 ? shown.minimum : what == 3 ? shown.maximum : shown.dflt) = b;
				};
				if (size == 1) set(static_cast<uint8_t>(200 + i));
				if (size == 2) set(static_cast<int16_t>(-12345 - i));
				if (size == 4) set(static_cast<uint32_t>(0x87654321u + i));
				if (size == 8) set(static_cast<int64_t>(-0x123456789aLL + i));
				c.step("set a limit");
			}
			look(o);
		}
		ParameterObject copy = o;
		if (c.choose(2)) o.updateValue(g.si);
		look(copy);
		g.w.conforming(c);
	});
}
