// C11: production of originator data
#include "io.h"

using namespace eipScanner;
using namespace sim;

namespace {

struct Format {
	int cls = 1;
	bool rt = false, fixed = true, large = false;
	unsigned size = 4;
};

struct Conn {
	Format f;
	uint32_t id = 0;
	Time api = 0, last = 0;
	Addr to;
	IOConnection::WPtr io;
	Bytes data;                 // the reference of what is to be sent
	std::vector<Bytes> script;  // what the send listener makes of it (one after the other)
	int how = 0;                // 0 no listener, 1 in place, 2 by setDataToSend
	int produced = 0, listened = 0, skipped = 0;
	bool first = true, endless = false; // the script begins again
	uint32_t seq = 0;
	uint16_t count = 0;
	bool open = true;
};

struct Rig {
	Ctx& c;
	IoWorld w;
	ref::Device second;
	std::shared_ptr<SessionInfo> si, si2;
	ConnectionManager m;
	std::vector<std::unique_ptr<Conn>> conns;
	size_t seen = 0;
	std::vector<std::pair<size_t, Bytes>> events;

	explicit Rig(Ctx& ctx) : c(ctx) {
		w.net.horizon = 20000000;
		si = w.session();
	}
	Conn& open(const Format& f, uint32_t api, int how = 0, uint32_t rpi = 0) {
		auto p = ioParameters(rpi ? rpi : api, 0x7fffffff);
		int shift = f.large ? 16 : 0;
		p.o2tNetworkConnectionParams = ((0x4000u | (f.fixed ? 0 : 0x0200)) << shift) | f.size;
		p.t2oNetworkConnectionParams = (0x4000u << shift) | 4;
		p.transportTypeTrigger = f.cls;
		p.o2tRealTimeFormat = f.rt;
		p.connectionTimeoutMultiplier = 7;
		w.o2tApi = api;
		auto x = std::make_unique<Conn>();
		x->f = f;
		x->io = m.forwardOpen(si, p, f.large);
		c.check(!x->io.expired(), "no connection");
		x->id = w.opens.back().o2tId;
		x->api = Time(api) * US;
		x->last = w.net.now();
		x->to = {ip("10.0.0.1"), 2222};
		x->how = how;
		Conn* k = x.get();
		if (how) x->io.lock()->setSendDataListener([k](std::vector<uint8_t>& d) {
			if (k->endless || k->listened < static_cast<int>(k->script.size())) {
				auto& n = k->script[k->listened % k->script.size()];
				if (k->how == 1) d = n;
				else k->io.lock()->setDataToSend(n);
			}
			++k->listened;
		});
		conns.push_back(std::move(x));
		return *k;
	}
	void setData(Conn& x, const Bytes& d) {
		x.io.lock()->setDataToSend(d);
		x.data = d;
	}
	/// lost: the sending of a due production fails
	void service(int ms = 0) {
		c.step(fmt("service %d ms", ms));
		std::vector<int> listened;
		for (auto& x : conns) listened.push_back(x->listened);
		auto o = attempt([&] { m.handleConnections(milliseconds(ms)); });
		c.check(!o.threw, "servicing raises: " + o.what);
		Time now = w.net.now();
		std::vector<bool> used(w.net.sent.size(), false);
		for (size_t k = 0; k < conns.size(); ++k) {
			auto& x = *conns[k];
			bool due = x.open && now - x.last >= x.api;
			if (due) {
				x.last = now;
				++x.produced;
				if (x.how) {
					c.equal(x.listened, listened[k] + 1, fmt("calls of the send listener of connection %zu for a due production", k));
					if (x.endless || x.listened <= static_cast<int>(x.script.size())) x.data = x.script[(x.listened - 1) % x.script.size()];
				}
			} else if (x.how) c.equal(x.listened, listened[k], fmt("calls of the send listener of connection %zu although nothing is due", k));
			bool send = due && !(x.f.fixed && x.data.size() != x.f.size);
			int n = 0;
			for (size_t i = seen; i < w.net.sent.size(); ++i) {
				auto& d = w.net.sent[i];
				std::vector<ref::Item> items;
				if (!ref::parseCpf(d.data, items) || items.size() != 2 || items[0].type != 0x8002 || items[1].type != 0xB1 || items[0].data.size() != 8)
					c.fail("malformed implicit message " + hex(d.data));
				ref::R a(items[0].data);
				if (a.u32() != x.id) continue;
				used[i] = true;
				++n;
				c.check(send, fmt("connection %zu sends too early or data of the wrong size: ", k) + hex(d.data));
				c.check(n == 1, fmt("connection %zu sends twice", k));
				c.check(d.to == x.to, fmt("connection %zu sends to ", k) + d.to.str() + " instead of " + x.to.str());
				uint32_t seq = a.u32();
				ref::R p(items[1].data);
				uint16_t count = x.f.cls ? p.u16() : 0;
				uint32_t header = x.f.rt ? p.u32() : 1;
				Bytes data = p.rest();
				c.check(p.ok, "incomplete header in " + hex(d.data));
				c.equal(header, 1u, "run mode header");
				c.equal(data, x.data, fmt("data of connection %zu", k));
				if (!x.first) {
					// productions without a message may or may not count
					uint32_t step = seq - x.seq;
					c.check(step >= 1 && step <= 1u + x.skipped, fmt("the sequence number of connection %zu goes from %u to %u", k, x.seq, seq));
					if (x.f.cls) {
						uint16_t by = count - x.count;
						c.check(by >= 1 && by <= 1 + x.skipped, fmt("the sequence count of connection %zu goes from %u to %u", k, x.count, count));
					}
				}
				x.first = false;
				x.seq = seq;
				x.count = count;
				x.skipped = d.sendResult ? x.skipped + 1 : 0;
				if (d.sendResult) { x.skipped = 1; }
			}
			if (send) c.equal(n, 1, fmt("messages of connection %zu", k));
			else if (due) ++x.skipped;
			if (n) c.check(now == w.net.sent.back().time, "sent at another time");
			c.obs(mix(n, k));
			c.state(mix(mix(x.produced, now - x.last), k));
		}
		for (size_t i = seen; i < w.net.sent.size(); ++i) c.check(used[i], "a message of an unknown connection " + hex(w.net.sent[i].data));
		seen = w.net.sent.size();
		c.compared();
	}
};

const std::vector<Bytes> SCRIPT = {{1, 1, 1, 1}, {2, 2, 2, 2}, {3, 3, 3}, {4, 4, 4, 4}, {}, {6, 6, 6, 6}, {7, 7, 7, 7, 7}, {8, 8, 8, 8}, {9, 9, 9, 9}};

} // namespace

void mc::define(Registry& r) {
	int depth = r.tier(5, 7);
	r.bound(fmt("all schedules of %d service calls separated by 0, 1 us, half, just below, just, just above one and several intervals, for intervals 1 us .. 2^32-1 us", depth));
	r.bound("all words of up to 2 of 5 pauses, repeated to 1100 (thorough 5000) services with listeners; 320 (thorough 640) connections");
	r.bound("two and three connections with different intervals; all formats and sizes; all send failures up to 2 per schedule; wrap-around of the sequence count (66000 productions)");

	r.add("schedules", [depth](Ctx& c) {
		Rig g(c);
		static const std::vector<uint32_t> apis = {1000, 10000, 1500, 1, 0xffffffffu};
		uint32_t api = c.pick(apis, "interval");
		static const std::vector<uint32_t> asked = {0, 12345, 1, 0xffffffffu, 999};
		auto& x = g.open(Format(), api, 1, api == 1000 ? c.choose(2) * 12345 : c.pick(asked, "requested interval"));
		x.script = SCRIPT;
		Time a = x.api;
		int n = depth - (api != 1000);
		for (int i = 0; i < n; ++i) {
			static const char* names[] = {"0", "1 us", "half", "just below", "exactly", "just above", "several"};
			int k = c.choose(7, "pause");
			Time d = k == 0 ? 0 : k == 1 ? US : k == 2 ? a / 2 / US * US : k == 3 ? a - US : k == 4 ? a : k == 5 ? a + US : 3 * a + 7 * US;
			c.step(fmt("pause: %s", names[k]));
			g.w.net.advance(d);
			g.service(0);
		}
	});
	r.add("servicing intervals", [](Ctx& c) {
		// regular servicing with any period: each production as soon as the interval has passed
		Rig g(c);
		static const std::vector<uint32_t> apis = {1000, 2500, 10000, 100000, 333};
		static const std::vector<int> periods = {1, 7, 10, 99, 100, 101, 333, 500, 999, 1000, 1001, 1500, 1999, 2000, 3001, 9999, 10001, 50000};
		static const std::vector<uint32_t> asked = {0, 1, 500, 0x7fffffffu};
		auto& x = g.open(Format(), c.pick(apis), 0, c.pick(asked, "requested interval"));
		g.setData(x, {1, 2, 3, 4});
		int us = c.pick(periods);
		int k = std::min<int>(3000, std::max<int>(40, 5 * x.api / US / us));
		for (int i = 0; i < k; ++i) { g.w.net.advance(us * US); g.service(0); }
		c.obs(x.produced);
		c.check(x.produced > 0 || k * us * US < x.api, "nothing was produced");
	});
	int rounds = r.tier(3, 4);
	r.add("waiting services", [rounds](Ctx& c) {
		// the time passes within the service calls; data arrive meanwhile
		Rig g(c);
		static const std::vector<uint32_t> apis = {1000, 2500, 10000, 3000};
		auto& x = g.open(Format(), c.pick(apis), c.choose(3));
		x.script = SCRIPT;
		g.setData(x, {1, 2, 3, 4});
		for (int i = 0; i < rounds; ++i) {
			static const std::vector<int> waits = {0, 1, 2, 3, 10};
			int ms = c.pick(waits, "wait");
			if (c.choose(2, "data arrive")) {
				g.w.net.datagram({ip("10.0.0.1"), 2222}, 2222, ref::implicitMessage(g.w.opens[0].t2oId, 1, {1, 0, 9, 9, 9, 9}), g.w.net.now() + ms * MS / 2);
			}
			g.w.net.advance(c.choose(2) * 400 * US);
			g.service(ms);
		}
	});
	r.add("two connections", [depth](Ctx& c) {
		Rig g(c);
		auto& x = g.open(Format(), 1000, 1);
		Format f;
		f.cls = 0;
		f.rt = true;
		f.size = 3;
		g.w.net.advance(c.choose(2) * 300 * US);
		auto& y = g.open(f, 1500, 2);
		x.script = SCRIPT;
		y.script = {{1, 1, 1}, {2, 2}, {3, 3, 3}, {4, 4, 4}, {5, 5, 5}, {6}};
		static const std::vector<int> pauses = {0, 300, 500, 700, 1000, 1500, 4000};
		for (int i = 0; i < depth; ++i) {
			g.w.net.advance(c.pick(pauses, "pause") * US);
			g.service(0);
		}
	});
	r.add("formats", [](Ctx& c) {
		Rig g(c);
		Format f;
		f.cls = c.choose(4);
		f.rt = c.choose(2);
		f.fixed = c.choose(2) == 0;
		f.large = c.choose(2);
		static const std::vector<unsigned> sizes = {0, 1, 2, 4, 5, 100, 490, 65000};
		f.size = c.pick(sizes);
		if (!f.large && f.size > 490) f.size = 480;
		auto& x = g.open(f, 1000, c.choose(3));
		for (int d : {0, 1, -1, 0, 2, 0}) {
			int n = static_cast<int>(f.size) + d;
			if (!f.fixed && d > 0) n = f.size / 2;
			if (n < 0) n = 0;
			Bytes data = pattern(n, 7 + d);
			if (x.how) x.script.push_back(data);
			else g.setData(x, data);
			g.w.net.advance(1000 * US);
			g.service(0);
		}
	});
	r.add("small sizes", [](Ctx& c) {
		// every size of data against every connection size
		Rig g(c);
		Format f;
		f.size = c.choose(10);
		f.cls = c.choose(2);
		f.rt = c.choose(2);
		auto& x = g.open(f, 1000);
		for (int n = 0; n < 16; ++n) {
			g.setData(x, pattern(n, n));
			g.w.net.advance(1000 * US);
			g.service(0);
		}
	});
	r.add("without data", [](Ctx& c) {
		// nothing was set: empty data
		Rig g(c);
		Format f;
		f.size = c.choose(2);
		f.fixed = c.choose(2);
		f.rt = c.choose(2);
		g.open(f, 1000);
		for (int n = 0; n < 3; ++n) { g.w.net.advance(1000 * US); g.service(0); }
	});
	r.add("addresses", [](Ctx& c) {
		Rig g(c);
		static const std::vector<uint32_t> ips = {0, ip("10.0.0.1"), ip("10.0.0.2"), ip("192.168.255.254"), ip("239.192.1.3"), ip("1.2.3.4")};
		static const std::vector<int> ports = {2222, 1, 0x08ff, 0xae08, 65535, 255, 256};
		uint32_t a = c.pick(ips);
		int port = c.pick(ports);
		int form = c.choose(5);
		ref::Item o2t{0x8000, ref::sockaddrItem(a, port)}, t2o{0x8001, ref::sockaddrItem(ip("239.1.2.3"), 3333)}, odd{0x0086, {1, 2, 3}};
		if (form == 0) g.w.openItems = {o2t};
		if (form == 1) g.w.openItems = {t2o};
		if (form == 2) g.w.openItems = {o2t, t2o};
		if (form == 3) g.w.openItems = {t2o, o2t};
		if (form == 4) g.w.openItems = {odd, t2o, o2t, odd};
		auto& x = g.open(Format(), 1000);
		if (form != 1) x.to = {a ? a : ip("10.0.0.1"), static_cast<uint16_t>(port)};
		g.w.openItems.clear();
		auto& y = g.open(Format(), 1000);
		g.setData(x, {1, 2, 3, 4});
		g.setData(y, {5, 6, 7, 8});
		for (int i = 0; i < 3; ++i) { g.w.net.advance(1000 * US); g.service(0); }
	});
	r.add("other device", [](Ctx& c) {
		// the device's own address
		Rig g(c);
		static const std::vector<std::string> hosts = {"10.0.0.2", "172.16.254.1", "127.0.0.1", "1.1.1.1"};
		auto host = c.pick(hosts);
		g.w.net.listeners[{ip(host), 44818}] = &g.w.dev;
		auto& x = g.open(Format(), 1000);
		g.si = std::make_shared<SessionInfo>(host, 44818, milliseconds(1000));
		bool item = c.choose(2);
		if (item) g.w.openItems = {{0x8000, ref::sockaddrItem(0, 5555)}};
		auto& y = g.open(Format(), 2000);
		y.to = {ip(host), static_cast<uint16_t>(item ? 5555 : 2222)};
		g.setData(x, {1, 2, 3, 4});
		g.setData(y, {5, 6, 7, 8});
		for (int i = 0; i < 5; ++i) { g.w.net.advance(1000 * US); g.service(0); }
	});
	r.add("failing sends", [](Ctx& c) {
		Rig g(c);
		auto& x = g.open(Format(), 1000, 1);
		Format f;
		f.rt = true;
		auto& y = g.open(f, 1000 + 500 * c.choose(2), 1);
		std::vector<Bytes> script(SCRIPT.begin() + c.choose(3, "data"), SCRIPT.end());
		x.script = y.script = script;
		g.w.net.faults = F_UDP_SEND;
		for (int i = 0; i < 6; ++i) { g.w.net.advance(1000 * US); g.service(0); }
		g.w.net.faults = 0;
		for (int i = 0; i < 2; ++i) { g.w.net.advance(2000 * US); g.service(0); }
	}, r.tier(3, 4));
	r.add("closing", [](Ctx& c) {
		// a closed connection produces no more, the others do
		Rig g(c);
		for (int i = 0; i < 3; ++i) g.setData(g.open(Format(), 1000 + 500 * i), {1, 2, 3, static_cast<uint8_t>(i)});
		for (int i = 0; i < 5; ++i) {
			g.w.net.advance(1000 * US);
			int k = c.choose(4, "close");
			if (k < 3 && g.conns[k]->open) {
				g.m.forwardClose(g.si, g.conns[k]->io);
				g.conns[k]->open = false;
			}
			g.service(0);
		}
	});
	r.add("long", [](Ctx& c) {
		// the 16 bit sequence count wraps, the sequence number does not
		Rig g(c);
		Format f;
		f.cls = 1 + 2 * c.choose(2);
		f.rt = c.choose(2);
		auto& x = g.open(f, 1000);
		g.setData(x, {1, 2, 3, 4});
		for (int i = 0; i < 66000; ++i) {
			g.w.net.advance(1000 * US);
			g.service(0);
			g.w.net.sent.clear();
			g.seen = 0;
			if (i % 1000 == 0) c.alive();
		}
	});
	r.add("long pauses", [](Ctx& c) {
		// hours and days without servicing
		Rig g(c);
		static const std::vector<uint32_t> apis = {1000, 5000000, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu};
		auto& x = g.open(Format(), c.pick(apis));
		g.setData(x, {1, 2, 3, 4});
		static const std::vector<int64_t> pauses = {1, 0x7ffffffe, 0x7fffffff, 0x80000000ll, 0xfffffffell, 0xffffffffll, 0x100000000ll, 0x100000001ll, 24ll * 3600 * 1000000};
		for (int i = 0; i < 3; ++i) { g.w.net.advance(c.pick(pauses) * US); g.service(0); }
	});
	int many = r.tier(1100, 5000);
	r.add("long with listeners", [many](Ctx& c) {
		Rig g(c);
		auto& x = g.open(Format(), 1000, 1 + c.choose(2));
		x.script = SCRIPT;
		x.endless = true;
		Format f;
		f.cls = 0;
		f.rt = true;
		auto& y = g.open(f, 1500, 2);
		y.script = {{1, 1, 1, 1}, {2, 2}, {3, 3, 3, 3}};
		y.endless = true;
		static const std::vector<int> pauses = {0, 300, 1000, 1500, 4000};
		Word word(c, static_cast<int>(pauses.size()), 2);
		for (int i = 0; i < many; ++i) {
			g.w.net.advance(pauses[word[i]] * US);
			g.service(0);
			g.w.net.sent.clear();
			g.seen = 0;
			if (i % 64 == 0) c.alive();
		}
	});
	int connections = r.tier(320, 640);
	r.add("many connections", [connections](Ctx& c) {
		// all of them produce
		Rig g(c);
		Word word(c, 3, 2);
		for (int i = 0; i < connections; ++i) {
			auto& x = g.open(Format(), 1000 + 500 * word[i], word[i]);
			x.script = {pattern(4, i), pattern(4, 2 * i + 1)};
			x.endless = true;
			if (!word[i]) g.setData(x, pattern(4, i));
		}
		for (int i = 0; i < 6; ++i) {
			g.w.net.advance(1000 * US);
			g.service(0);
			g.w.net.sent.clear();
			g.seen = 0;
			c.alive();
		}
	});
}
