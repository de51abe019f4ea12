// C18: identity objects
#include "common.h"
#include "IdentityObject.h"

using namespace eipScanner;

namespace {

struct Values {
	uint16_t vendor = 1, type = 0x96, code = 9, status = 0x30;
	uint8_t major = 5, minor = 1;
	uint32_t serial = 0x808de192;
	std::string name = "PowerFlex 525";
	Bytes encode() const { return ref::W().u16(vendor).u16(type).u16(code).u8(major).u8(minor).u16(status).u32(serial).shortString(name); }
};

void verify(Ctx& c, const IdentityObject& o, const Values& v, int instance) {
	c.equal(o.getVendorId(), v.vendor, "vendor id");
	c.equal(o.getDeviceType(), v.type, "device type");
	c.equal(o.getProductCode(), v.code, "product code");
	c.equal(static_cast<int>(o.getRevision().getMajorRevision()), static_cast<int>(v.major), "major revision");
	c.equal(static_cast<int>(o.getRevision().getMinorRevision()), static_cast<int>(v.minor), "minor revision");
	c.equal(o.getStatus(), v.status, "status");
	c.equal(o.getSerialNumber(), v.serial, "serial number");
	c.equal(o.getProductName(), v.name, "product name");
	c.equal(static_cast<int>(o.getClassId()), 1, "class id");
	c.equal(static_cast<int>(o.getInstanceId()), instance, "instance id");
	uint64_t h = mix(mix(v.vendor, v.type), mix(mix(v.code, v.major << 8 | v.minor), mix(mix(v.status, v.serial), mix(hash(v.name), instance))));
	c.obs(h);
	c.state(h);
}

struct Rig {
	Ctx& c;
	World w;
	std::map<int, Values> instances;
	int reads = 0, last = -1;
	uint8_t status = 0;
	std::vector<uint16_t> additional;
	int cut = 0;
	Bytes surplus;
	std::shared_ptr<SessionInfo> si;

	explicit Rig(Ctx& ctx) : c(ctx) {
		w.dev.onCip = [this](const ref::CipRequest& q) {
			if (q.service != 1 || q.path.cls != 1 || q.path.attr >= 0 || !q.data.empty()) { w.dev.problem("unexpected request " + q.str()); return ref::CipReply::error(8); }
			++reads;
			last = q.path.inst;
			if (!instances.count(q.path.inst)) return ref::CipReply::error(5);
			ref::CipReply r(instances[q.path.inst].encode());
			if (status) { r.status = status; r.additional = additional; }
			r.data.insert(r.data.end(), surplus.begin(), surplus.end());
			r.data.resize(r.data.size() - cut);
			return r;
		};
		si = w.session();
	}
	std::unique_ptr<IdentityObject> object;
	Outcome read(int instance, int how = 0) {
		reads = 0;
		last = -1;
		object.reset();
		auto o = attempt([&] {
			if (how == 0) object = std::make_unique<IdentityObject>(instance, si);
			else if (how == 1) object = std::make_unique<IdentityObject>(instance, si, std::make_shared<MessageRouter>());
			else object = std::make_unique<IdentityObject>(instance, si, std::make_shared<MessageRouter>(true));
		});
		c.step(o.threw ? "raises " + o.what : "read");
		w.conforming(c);
		c.equal(reads, 1, "number of requests");
		c.equal(last, instance, "requested instance");
		return o;
	}
	void good(int instance, int how = 0) {
		auto o = read(instance, how);
		if (o.threw) c.fail("reading the identity fails: " + o.what);
		verify(c, *object, instances[instance], instance);
	}
	void bad(int instance, const std::string& what) {
		auto o = read(instance);
		c.check(o.threw, what + " is not refused");
		c.obs(o.type);
	}
};

} // namespace

void mc::define(Registry& r) {
	r.bound("each byte of each attribute through all 256 values; all name lengths 0..255; instances 1, 2, 255, 256, 65535 and class level; all 255 refusing statuses with additional words; every truncation; surplus bytes 0..8; all characters in names that are set; all histories of 4 reads of several instances");
	r.bound("all words of up to 2 of 5 kinds of reads, repeated to 300 (thorough 1100) objects");
	r.bound("all 65536 revisions compared with 149 or more others and printed");

	r.add("values", [](Ctx& c) {
		Rig g(c);
		int field = c.choose(14), high = c.choose(16), how = c.choose(3);
		for (int low = 0; low < 16; ++low) {
			Values v;
			uint8_t x = high << 4 | low;
			switch (field) {
				case 0: v.vendor = x; break;
				case 1: v.vendor = x << 8 | 0x7f; break;
				case 2: v.type = x; break;
				case 3: v.type = x << 8 | 0xff; break;
				case 4: v.code = x; break;
				case 5: v.code = x << 8 | 0xfe; break;
				case 6: v.major = x; break;
				case 7: v.minor = x; break;
				case 8: v.status = x; break;
				case 9: v.status = x << 8 | 0xff; break;
				case 10: v.serial = x | 0xfedcba00u; break;
				case 11: v.serial = x << 24 | x << 8; break;
				case 12: v.name = std::string(x, 'A' + x % 26); break;
				case 13: v.name = std::string("\0x", 2) + static_cast<char>(x) + "\xff"; break;
			}
			g.instances[1] = v;
			g.good(1, how);
		}
	});
	r.add("instances", [](Ctx& c) {
		Rig g(c);
		static const std::vector<int> ids = {1, 2, 3, 127, 128, 255, 256, 257, 32768, 65535};
		int id = c.pick(ids);
		for (int i : ids) { Values v; v.serial = i; v.name = "instance " + std::to_string(i); g.instances[i] = v; }
		int how = id < 256 ? c.choose(3) : c.choose(2);
		g.good(id, how);
	});
	r.add("all combinations of boundary values", [](Ctx& c) {
		Rig g(c);
		static const std::vector<uint16_t> w = {0, 0xff, 0x100, 0xffff};
		static const std::vector<uint32_t> d = {0, 0xffff, 0x80000000u, 0xffffffffu};
		static const std::vector<std::string> n = {"", "a", std::string(255, 'z')};
		Values v;
		v.vendor = c.pick(w);
		v.type = c.pick(w);
		v.code = c.pick(w);
		v.status = c.pick(w);
		v.serial = c.pick(d);
		v.name = c.pick(n);
		v.major = c.choose(2) ? 255 : 0;
		v.minor = c.choose(2) ? 255 : 0;
		g.instances[1] = v;
		g.good(1);
	});
	r.add("refused", [](Ctx& c) {
		Rig g(c);
		g.instances[1] = Values();
		g.status = 1 + c.choose(255);
		int n = c.choose(3);
		for (int i = 0; i < n; ++i) g.additional.push_back(0x0100 + i);
		g.bad(1, fmt("status %u", g.status));
		// the session is still usable
		g.status = 0;
		g.good(1);
	});
	r.add("truncated", [](Ctx& c) {
		Rig g(c);
		Values v;
		static const std::vector<std::string> n = {"", "a", "PowerFlex", std::string(255, 'z')};
		v.name = c.pick(n);
		g.instances[1] = v;
		int size = static_cast<int>(v.encode().size());
		g.cut = 1 + c.choose(size);
		g.bad(1, fmt("a reply of %d of %d bytes", size - g.cut, size));
		g.cut = 0;
		g.good(1);
	});
	r.add("surplus", [](Ctx& c) {
		// the attributes after the name are of no interest
		Rig g(c);
		g.instances[1] = Values();
		g.surplus = pattern(c.choose(9));
		g.good(1, c.choose(2));
	});
	r.add("histories", [](Ctx& c) {
		Rig g(c);
		for (int i = 1; i <= 2; ++i) { Values v; v.serial = i; v.vendor = i; v.name = "n" + std::to_string(i); g.instances[i] = v; }
		std::vector<std::pair<int, std::unique_ptr<IdentityObject>>> kept;
		std::vector<Values> then;
		for (int i = 0; i < 4; ++i) {
			int id = 1 + c.choose(3), what = c.choose(4);
			g.cut = what == 1 ? 3 : 0;
			g.status = what == 2 ? 0x13 : 0;
			if (what == 3) g.instances[1].name += "x";
			if (what == 1 || what == 2 || id == 3) g.bad(id, "a bad reply");
			else {
				g.good(id);
				then.push_back(g.instances[id]);
				kept.emplace_back(id, std::move(g.object));
			}
		}
		for (size_t i = 0; i < kept.size(); ++i) verify(c, *kept[i].second, then[i], kept[i].first);
	});
	r.add("ids of objects", [](Ctx& c) {
		static const std::vector<int> ids = {0, 1, 0x0f, 0x37, 0xff, 0x100, 0x300, 0x7fff, 0x8000, 0xffff};
		int cls = c.pick(ids, "class"), inst = c.pick(ids, "instance");
		BaseObject o(cls, inst);
		c.equal(static_cast<int>(o.getClassId()), cls, "class id of an object");
		c.equal(static_cast<int>(o.getInstanceId()), inst, "instance id of an object");
		c.obs(mix(cls, inst));
		c.state(mix(cls, inst));
	});
	r.add("local names", [](Ctx& c) {
		// every character anywhere in a name, every length
		IdentityObject o(1);
		Values v;
		v.vendor = v.type = v.code = v.status = v.major = v.minor = 0;
		v.serial = 0;
		int what = c.choose(4), high = c.choose(16);
		for (int low = 0; low < 16; ++low) {
			char x = static_cast<char>(high << 4 | low);
			switch (what) {
				case 0: v.name = std::string(1, x); break;
				case 1: v.name = std::string("ab") + x + "cd"; break;
				case 2: v.name = std::string("ab") + x; break;
				case 3: v.name = std::string(high << 4 | low, 'k'); break;
			}
			o.setProductName(v.name);
			verify(c, o, v, 1);
			IdentityObject copy(2);
			copy = o;
			verify(c, copy, v, 1);
		}
	});
	r.add("local", [](Ctx& c) {
		static const std::vector<uint16_t> w = {0, 1, 0xff, 0x100, 0xffff};
		static const std::vector<uint32_t> d = {0, 0xffff, 0x80000000u, 0xffffffffu};
		int instance = c.choose(2) ? 65535 : 1;
		IdentityObject o(instance);
		Values v;
		v.vendor = v.type = v.code = v.status = v.major = v.minor = 0;
		v.serial = 0;
		v.name = "";
		verify(c, o, v, instance);
		for (int i = 0; i < 3; ++i) switch (c.choose(7)) {
			case 0: o.setVendorId(v.vendor = c.pick(w)); break;
			case 1: o.setDeviceType(v.type = c.pick(w)); break;
			case 2: o.setProductCode(v.code = c.pick(w)); break;
			case 3: o.setStatus(v.status = c.pick(w)); break;
			case 4: o.setSerialNumber(v.serial = c.pick(d)); break;
			case 5: v.name = std::string(c.choose(3) * 127, 'q'); o.setProductName(v.name); break;
			case 6: v.major = c.choose(2) * 255; v.minor = c.choose(2) * 254; o.setRevision(cip::CipRevision(v.major, v.minor)); break;
		}
		verify(c, o, v, instance);
		IdentityObject copy = o;
		o.setVendorId(v.vendor + 1);
		verify(c, copy, v, instance);
	});
	r.add("revisions", [](Ctx& c) {
		// equal exactly if both parts are
		int major = c.choose(256, "major revision");
		static const std::vector<uint8_t> parts = {0, 1, 2, 9, 10, 12, 99, 100, 127, 128, 254, 255};
		for (int minor = 0; minor < 256; ++minor) {
			const cip::CipRevision x(major, minor);
			c.equal(x.toString(), std::to_string(major) + "." + std::to_string(minor), "text of the revision");
			c.equal(static_cast<int>(x.getMajorRevision()), major, "major revision");
			c.equal(static_cast<int>(x.getMinorRevision()), minor, "minor revision");
			auto both = [&](uint8_t a, uint8_t b) {
				const cip::CipRevision y(a, b);
				bool same = a == major && b == minor;
				if ((x == y) != same || (y == x) != same) c.fail("wrong equality of " + x.toString() + " and " + y.toString());
				c.compared();
			};
			both(major, minor);
			for (auto a : parts) for (auto b : parts) both(a, b);
			both(major, minor ^ 1); both(major ^ 1, minor); both(minor, major); both(major ^ 128, minor ^ 128); both(major + 1, minor - 1);
		}
		c.obs(major);
		c.state(major);
	});
	int many = r.tier(300, 1100);
	r.add("many reads", [many](Ctx& c) {
		// each object shows what the device said when it was made
		Rig g(c);
		Word word(c, 5, 2);
		std::vector<std::pair<std::unique_ptr<IdentityObject>, Values>> all;
		for (int i = 0; i < many; ++i) {
			int l = word[i];
			Values v;
			v.serial = 0x01000000u * (i % 251) + i;
			v.vendor = i;
			v.minor = i % 255;
			v.name = l == 1 ? "" : "device " + std::to_string(i);
			g.instances[1] = v;
			g.status = l == 3 ? 1 + i % 255 : 0;
			g.cut = l == 4 ? 1 : 0;
			if (l >= 3) g.bad(1, "a wrong reply");
			else {
				g.good(1, l);
				all.emplace_back(std::move(g.object), v);
			}
			if (i % 32 == 0) c.alive();
		}
		for (auto& [o, v] : all) verify(c, *o, v, 1);
	});
}
