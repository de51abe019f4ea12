// C15: discovery
#include "common.h"
#include "DiscoveryManager.h"
#include <sys/socket.h>

using namespace eipScanner;
using namespace sim;

namespace {

struct Identity {
	uint32_t addr = ip("10.0.0.9");
	uint16_t port = 44818;
	uint16_t vendor = 1, type = 0x96, code = 9, status = 0x30;
	uint8_t major = 5, minor = 1;
	uint32_t serial = 0x808de192;
	std::string name = "PowerFlex";
	uint8_t state = 3;
	uint16_t version = 1;
	bool operator==(const Identity& o) const {
		return addr == o.addr && port == o.port && vendor == o.vendor && type == o.type && code == o.code && status == o.status && major == o.major
			&& minor == o.minor && serial == o.serial && name == o.name;
	}
	std::string str() const { return fmt("%u.%u.%u.%u:%u vendor=%u type=%u code=%u revision=%u.%u status=%u serial=%u name=", addr >> 24, addr >> 16 & 255, addr >> 8 & 255, addr & 255, port, vendor, type, code, major, minor, status, serial) + name; }
	Bytes item() const {
		return ref::W().u16(version).raw(ref::sockaddrItem(addr, port)).u16(vendor).u16(type).u16(code).u8(major).u8(minor).u16(status).u32(serial).shortString(name).u8(state);
	}
};

Bytes frame(const Bytes& body) { return ref::encap(ref::LIST_IDENTITY, 0, 0, body); }
Bytes frame(const std::vector<Identity>& v) {
	std::vector<ref::Item> items;
	for (auto& i : v) items.push_back({0xC, i.item()});
	return frame(ref::cpf(items));
}

struct Rig {
	Ctx& c;
	World w;
	struct Arrival { Bytes data; Time delay; std::vector<Identity> expected; bool optional; int error = 0; };
	std::vector<Arrival> arrivals;
	int requests = 0;
	uint16_t replyPort = 0;
	uint32_t broadcast = ip("10.0.0.255");
	uint16_t port = 44818;

	explicit Rig(Ctx& ctx) : c(ctx) {
		w.net.onDatagram = [this](const Datagram& d) {
			++requests;
			replyPort = d.from.port;
			ref::Frame f;
			c.check(ref::parseEncap(d.data, f) && f.command == ref::LIST_IDENTITY && f.length == 0 && f.session == 0 && f.status == 0 && f.options == 0, "wrong request " + hex(d.data));
			c.check(d.to == Addr{broadcast, port}, "the request goes to " + d.to.str());
			Sock* s = w.net.find(d.fd, "audit");
			c.check(s && s->options[{SOL_SOCKET, SO_BROADCAST}] != 0, "the socket is not allowed to broadcast");
			for (auto& a : arrivals) {
				if (a.error) w.net.datagramError(replyPort, a.error, w.net.now() + a.delay);
				else w.net.datagram({a.expected.empty() ? ip("10.0.0.66") : a.expected[0].addr, 44818}, replyPort, a.data, w.net.now() + a.delay);
			}
		};
	}
	void answer(const Bytes& d, const std::vector<Identity>& e, Time delay = 10 * MS, bool optional = false) { arrivals.push_back({d, delay, e, optional}); }

	std::vector<Identity> got;
	Outcome discover(int timeoutMs = 1000) {
		got.clear();
		requests = 0;
		DiscoveryManager m("10.0.0.255", 44818, milliseconds(timeoutMs));
		return run(m);
	}
	Outcome run(DiscoveryManager& m) {
		auto o = attempt([&] {
			for (auto& d : m.discover()) {
				Identity i;
				auto host = d.socketAddress.getHost();
				i.addr = ip(host);
				i.port = d.socketAddress.getPort();
				// the same as one made from the text
				const sockets::EndPoint same(host, i.port);
				c.check(d.socketAddress == same && !(d.socketAddress != same) && !(d.socketAddress < same) && !(same < d.socketAddress), "the address " + same.toString() + " differs from itself made from text");
				c.equal(static_cast<int>(d.socketAddress.getAddr().sin_family), AF_INET, "family of the address");
				i.vendor = d.identityObject.getVendorId();
				i.type = d.identityObject.getDeviceType();
				i.code = d.identityObject.getProductCode();
				i.major = d.identityObject.getRevision().getMajorRevision();
				i.minor = d.identityObject.getRevision().getMinorRevision();
				i.status = d.identityObject.getStatus();
				i.serial = d.identityObject.getSerialNumber();
				i.name = d.identityObject.getProductName();
				got.push_back(i);
			}
		});
		c.step(o.threw ? "raises " + o.what : fmt("%zu devices", got.size()));
		return o;
	}
	/// All the expected ones in order of their arrival
	void verify(const Outcome& o) {
		if (o.threw) c.fail("the discovery fails: " + o.what);
		c.equal(requests, 1, "number of requests");
		auto sorted = arrivals;
		std::stable_sort(sorted.begin(), sorted.end(), [](auto& a, auto& b) { return a.delay < b.delay; });
		size_t k = 0;
		for (auto& a : sorted) {
			// optional datagrams: all or nothing
			bool all = k + a.expected.size() <= got.size() && std::equal(a.expected.begin(), a.expected.end(), got.begin() + k);
			if (all) k += a.expected.size();
			else if (!a.optional) c.fail("not reported: " + a.expected[0].str() + (k < got.size() ? " but " + got[k].str() : "") + " for " + hex(a.data));
		}
		if (k != got.size()) c.fail("reported: " + got[k].str());
		c.compared();
		observe();
	}
	void observe() {
		uint64_t h = got.size();
		for (auto& i : got) h = mix(h, hash(i.str()));
		c.obs(h);
		c.state(mix(h, arrivals.size()));
	}
};

Identity other(int k) {
	Identity i;
	i.addr = ip("192.168.7.0") + k;
	i.serial = 0x01020300u + k;
	i.name = "device " + std::to_string(k);
	i.vendor = 0x100 + k;
	return i;
}

/// The shapes of one datagram
constexpr int SHAPES = 13;
void shape(Rig& g, int s, int k, Time delay) {
	Identity a = other(k), b = other(k + 50);
	Bytes good = frame({a});
	auto items = [](std::vector<ref::Item> v, int n = -1) { return frame(ref::cpf(v, n)); };
	Bytes shortItem = a.item();
	switch (s) {
		case 0: g.answer(good, {a}, delay); break;
		case 1: g.answer(frame({a, b}), {a, b}, delay); break;
		case 2: good.resize(good.size() - 5); g.answer(good, {}, delay); break;
		case 3: g.answer({}, {}, delay); break;
		case 4: good.resize(23); g.answer(good, {}, delay); break;
		case 5: g.answer(items({{0x100, a.item()}, {0x8000, pattern(16)}}), {}, delay); break;
		case 6: g.answer(items({{0x100, pattern(5)}, {0xC, a.item()}, {0, {}}}), {a}, delay); break;
		case 7: shortItem.resize(30); g.answer(items({{0xC, shortItem}, {0xC, b.item()}}), {b}, delay); break;
		case 8: g.answer(items({{0xC, {}}}), {}, delay); break;
		case 9: a.name = std::string(255, 'n'); g.answer(frame({a}), {a}, delay); break;
		case 10: g.answer(items({}), {}, delay); break;
		case 11: g.answer(items({{0xC, a.item()}}, 2), {a}, delay, true); break; // fewer items than announced
		case 12: good.resize(24); g.answer(good, {}, delay); break;
	}
}

} // namespace

void mc::define(Registry& r) {
	int depth = r.tier(4, 5);
	r.bound(fmt("all sequences of up to %d datagrams of %d shapes (good, two items, truncated, empty, foreign items, short items, ...) arriving at the same or different times", depth, SHAPES));
	r.bound("all words of up to 3 of 6 kinds of answers, repeated to 300 (thorough 1100) discoveries by one manager; up to 16 items in one answer");
	r.bound("all truncation lengths of an answer and of an item; all values of each byte of the fields; all combinations of zero, all ones and another value of all fields; all name lengths 0..255; all single interrupts and socket errors at each call");

	r.add("sequences", [depth](Ctx& c) {
		Rig g(c);
		int n = c.choose(depth + 1, "datagrams");
		for (int i = 0; i < n; ++i) shape(g, c.choose(SHAPES, "shape"), i, 10 * MS);
		g.verify(g.discover());
	});
	r.add("times", [](Ctx& c) {
		Rig g(c);
		static const std::vector<int> delays = {0, 1, 499, 500, 999};
		for (int i = 0; i < 3; ++i) {
			static const std::vector<int> some = {0, 1, 2, 3, 7};
			shape(g, c.pick(some, "shape"), i, c.pick(delays, "delay") * MS);
		}
		Time before = g.w.net.now();
		g.verify(g.discover());
		c.check(g.w.net.now() - before >= 1000 * MS, "the discovery ends too early");
	});
	r.add("silence", [](Ctx& c) {
		Rig g(c);
		static const std::vector<int> ms = {1, 10, 999, 1000, 1001, 2500};
		int t = c.pick(ms);
		g.verify(g.discover(t));
		c.equal(g.w.net.now(), t * MS, "time of the end");
		// too late ones are not reported
		g.answer(frame({Identity()}), {}, t * MS + 2 * MS);
		g.verify(g.discover(t));
	});
	r.add("truncated", [](Ctx& c) {
		Rig g(c);
		Identity a = other(1), b = other(2);
		Bytes d = frame({a, b});
		d.resize(c.choose(static_cast<int>(d.size())));
		g.answer(frame({other(3)}), {other(3)});
		// with the first item complete it may be reported
		if (d.size() >= frame({a}).size()) g.answer(d, {a}, 10 * MS, true);
		else g.answer(d, {});
		g.answer(frame({other(4)}), {other(4)});
		g.verify(g.discover());
	});
	r.add("truncated item", [](Ctx& c) {
		Rig g(c);
		Identity a = other(1), b = other(2);
		Bytes full = a.item();
		Bytes d = full;
		d.resize(c.choose(static_cast<int>(d.size())));
		bool stateMissing = d.size() == full.size() - 1;
		bool first = c.choose(2);
		std::vector<ref::Item> v{{0xC, d}, {0xC, b.item()}};
		if (!first) std::swap(v[0], v[1]);
		if (stateMissing) {
			// the name is complete
			g.answer(frame(ref::cpf({{0xC, d}})), {a}, 10 * MS, true);
			g.answer(frame(ref::cpf({{0xC, b.item()}})), {b});
		} else g.answer(frame(ref::cpf(v)), {b});
		g.verify(g.discover());
	});
	r.add("surplus", [](Ctx& c) {
		// items and datagrams longer than needed: reported as they are or not at all
		Rig g(c);
		Identity a = other(1);
		Bytes item = a.item();
		int where = c.choose(2), n = 1 + c.choose(8);
		if (where) item.insert(item.end(), n, 0x55);
		Bytes d = frame(ref::cpf({{0xC, item}}));
		if (!where) d.insert(d.end(), n, 0x55);
		g.answer(d, {a}, 10 * MS, true);
		g.answer(frame({other(3)}), {other(3)});
		g.verify(g.discover());
	});
	r.add("field values", [](Ctx& c) {
		// each byte of the fields takes all values
		Rig g(c);
		int field = c.choose(20);
		int high = c.choose(16);
		for (int low = 0; low < 16; ++low) {
			Identity i;
			uint8_t v = high << 4 | low;
			switch (field) {
				case 0: case 1: case 2: case 3: i.addr = (i.addr & ~(0xffu << 8 * field)) | v << 8 * field; break;
				case 4: i.port = v; break;
				case 5: i.port = v << 8 | 0x12; break;
				case 6: i.vendor = v; break;
				case 7: i.vendor = v << 8; break;
				case 8: i.type = v; break;
				case 9: i.type = v << 8 | 1; break;
				case 10: i.code = v; break;
				case 11: i.code = v << 8 | 1; break;
				case 12: i.major = v; break;
				case 13: i.minor = v; break;
				case 14: i.status = v; break;
				case 15: i.status = v << 8 | 0x34; break;
				case 16: case 17: i.serial = v << 16 * (field - 16) | 0xff00ff00u; break;
				case 18: i.name = std::string(v, 'a' + v % 26); break;
				case 19: i.name = std::string("x") + static_cast<char>(v) + "y"; i.state = v; i.version = v; break;
			}
			g.answer(frame({i}), {i});
		}
		g.verify(g.discover(100));
	});
	r.add("extreme values", [](Ctx& c) {
		// each field as a whole zero, all ones or in the middle, in all combinations
		static const std::vector<uint32_t> v = {0, 0xffffffffu, 0x01020304u};
		Rig g(c);
		Identity i;
		i.vendor = c.pick(v);
		i.type = c.pick(v);
		i.code = c.pick(v);
		i.major = c.pick(v);
		i.minor = c.pick(v);
		i.status = c.pick(v);
		i.serial = c.pick(v);
		static const std::vector<int> names = {0, 1, 255};
		i.name = std::string(c.pick(names), 'n');
		i.state = i.version = i.vendor;
		static const std::vector<uint32_t> addrs = {0, 0xffffffffu, 0x0a000009u};
		i.addr = c.pick(addrs);
		static const std::vector<uint16_t> ports = {0, 0xffff, 44818};
		i.port = c.pick(ports);
		g.answer(frame({i}), {i});
		g.answer(frame({other(1), i}), {other(1), i}, 11 * MS);
		g.verify(g.discover(100));
	});
	r.add("many devices", [](Ctx& c) {
		Rig g(c);
		int n = 1 + c.choose(200), per = 1 + c.choose(6);
		for (int i = 0; i < n; ++i) {
			std::vector<Identity> v;
			for (int k = 0; k < per; ++k) v.push_back(other(i * 8 + k));
			g.answer(frame(v), v, (i % 7) * MS);
		}
		g.verify(g.discover(100));
	});
	r.add("sizes", [](Ctx& c) {
		// answers of every size up to that of the receive buffer
		Rig g(c);
		int size = 130 + c.choose(504 - 130 + 1), shape = c.choose(3);
		std::vector<ref::Item> items;
		std::vector<Identity> e;
		auto add = [&](int k, size_t name) { Identity i = other(k); i.name = std::string(name, 'a' + k); items.push_back({0xC, i.item()}); e.push_back(i); };
		auto total = [&] { return frame(ref::cpf(items)).size(); };
		if (shape == 0) { add(1, 2); add(2, 0); } // two identities
		else if (shape == 1) { add(1, 0); items.push_back({0x8000, {}}); } // a foreign item
		else { add(1, 0); }
		int missing = size - static_cast<int>(total());
		if (missing < 0) return;
		if (shape == 1) items[1].data = pattern(missing);
		else {
			if (shape == 0 && missing > 255) { items.clear(); e.clear(); add(1, 2 + missing - 255 > 255 ? 255 : 2 + missing - 255); add(2, 0); missing = size - static_cast<int>(total()); }
			if (missing > 255) return;
			items.pop_back();
			e.pop_back();
			add(3, missing);
		}
		Bytes d = frame(ref::cpf(items));
		if (static_cast<int>(d.size()) != size) c.fail("sizes");
		g.answer(d, e);
		g.answer(frame({other(4)}), {other(4)});
		g.verify(g.discover());
	});
	r.add("item positions", [](Ctx& c) {
		// identities among other items
		Rig g(c);
		std::vector<ref::Item> items;
		std::vector<Identity> e;
		int n = c.choose(7);
		for (int i = 0; i < n; ++i) {
			int k = c.choose(4);
			if (k == 0) { e.push_back(other(i)); items.push_back({0xC, other(i).item()}); }
			if (k == 1) items.push_back({static_cast<uint16_t>(c.choose(2) ? 0x8001 : 0xC00), pattern(3)});
			if (k == 2) items.push_back({0, {}});
			if (k == 3) { Bytes b = other(i).item(); b.resize(20); items.push_back({0xC, b}); }
		}
		g.answer(frame(ref::cpf(items)), e);
		g.verify(g.discover(100));
	});
	r.add("again", [](Ctx& c) {
		// the same manager again
		Rig g(c);
		DiscoveryManager m("10.0.0.255", 44818, milliseconds(50));
		for (int i = 0; i < 2; ++i) {
			g.arrivals.clear();
			static const std::vector<int> some = {0, 1, 2, 3, 7, 11};
			for (int k = 0; k < 2; ++k) shape(g, c.pick(some), i * 2 + k, (10 + 40 * k) * MS - 1);
			g.got.clear();
			g.requests = 0;
			g.verify(g.run(m));
		}
	});
	r.add("addresses", [](Ctx& c) {
		Rig g(c);
		static const std::vector<std::string> hosts = {"255.255.255.255", "172.28.255.255", "192.168.1.255", "10.0.0.1", "127.0.0.1"};
		static const std::vector<int> ports = {44818, 1, 65535, 0x0100, 0x00ff};
		auto host = c.pick(hosts);
		int port = c.pick(ports);
		g.broadcast = ip(host);
		g.port = port;
		g.answer(frame({other(1)}), {other(1)});
		DiscoveryManager m(host, port, milliseconds(50));
		g.verify(g.run(m));
	});
	r.add("interrupts", [](Ctx& c) {
		Rig g(c);
		g.w.net.faults = F_RECV_EINTR;
		shape(g, 0, 1, 10 * MS);
		shape(g, 2, 2, 10 * MS);
		shape(g, 1, 3, 20 * MS);
		g.verify(g.discover(100));
	}, 3);
	r.add("failing calls", [](Ctx& c) {
		Rig g(c);
		g.w.net.faults = F_SOCKET | F_SETUP | F_UDP_SEND | F_UDP_RECV;
		shape(g, 0, 1, 10 * MS);
		shape(g, 1, 3, 20 * MS);
		auto o = g.discover(100);
		bool failed = c.deviations() > 0;
		if (failed) {
			c.check(o.threw, "a socket error is not raised");
			c.equal(o.type, std::string("std::system_error"), "kind of the exception");
			c.obs(o.code);
		} else g.verify(o);
		c.equal(g.w.net.openFds().size(), size_t(0), "open sockets");
	}, 2);
	r.add("socket errors", [](Ctx& c) {
		// an error at a time among the answers
		Rig g(c);
		static const std::vector<int> errors = {ECONNREFUSED, ENETDOWN, ENOMEM, EHOSTUNREACH, ENETUNREACH, EINVAL, ETIMEDOUT};
		int e = c.pick(errors), at = c.choose(3);
		shape(g, 0, 1, 10 * MS);
		shape(g, 3, 2, 20 * MS);
		Rig::Arrival a{{}, at * 15 * MS, {}, false, e};
		g.arrivals.push_back(a);
		auto o = g.discover(100);
		c.check(o.threw, "the socket error is not raised");
		c.equal(o.type, std::string("std::system_error"), "kind of the exception");
		c.equal(o.code, e, "code of the exception");
	});
	r.add("many items", [](Ctx& c) {
		// in one answer: as many as fit
		Rig g(c);
		int kind = c.choose(4), n = 1 + c.choose(16);
		std::vector<ref::Item> items;
		std::vector<Identity> e;
		for (int k = 0; k < (kind ? 40 : n); ++k) {
			Identity i = other(k);
			i.name = "";
			bool foreign = kind == 1 ? k % n : kind == 2 ? k < n : kind == 3 ? k + 1 < 40 : false;
			ref::Item it = foreign ? ref::Item{0x100, {}} : ref::Item{0xC, i.item()};
			items.push_back(it);
			if (frame(ref::cpf(items)).size() > 504) { items.pop_back(); if (foreign) break; continue; }
			if (!foreign) e.push_back(i);
		}
		g.answer(frame(ref::cpf(items)), e);
		g.answer(frame({other(60)}), {other(60)}, 11 * MS);
		g.verify(g.discover(100));
	});
	int many = r.tier(300, 1100);
	r.add("again and again", [many](Ctx& c) {
		// one manager for many discoveries
		Rig g(c);
		DiscoveryManager m("10.0.0.255", 44818, milliseconds(5));
		static const std::vector<int> some = {0, 1, 2, 3, 7, -1};
		Word word(c, static_cast<int>(some.size()), 3);
		for (int i = 0; i < many; ++i) {
			g.arrivals.clear();
			if (some[word[i]] >= 0) shape(g, some[word[i]], i % 40, MS);
			g.got.clear();
			g.requests = 0;
			g.verify(g.run(m));
			if (i % 16 == 0) c.alive();
		}
	});
}
