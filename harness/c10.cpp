// C10: received implicit messages
#include "io.h"
#include <algorithm>

using namespace eipScanner;
using namespace sim;

namespace {

struct Call {
	size_t conn;
	uint32_t header;
	uint16_t seq;
	Bytes data;
	bool operator==(const Call& o) const { return conn == o.conn && header == o.header && seq == o.seq && data == o.data; }
	std::string str() const { return fmt("connection %zu header %u sequence %u data ", conn, header, seq) + hex(data, 40); }
};

struct Format {
	int cls = 1;      // transport class
	bool rt = false;  // T2O real time header
	bool fixed = true;
	unsigned size = 4;
	bool large = false;
	size_t overhead() const { return (rt ? 4 : 0) + (cls ? 2 : 0); }
};

struct Conn {
	Format f;
	uint32_t id = 0;
	IOConnection::WPtr io;
	bool open = true;
};

struct Rig {
	Ctx& c;
	IoWorld w;
	std::shared_ptr<SessionInfo> si;
	ConnectionManager m;
	std::vector<Conn> conns;
	std::vector<Call> calls, expected;
	std::vector<std::pair<Time, Bytes>> waiting;
	std::vector<bool> optional; // parallel to expected: may also be dropped
	bool hold = false;          // the user keeps the connections alive
	std::vector<IOConnection::SPtr> held;

	explicit Rig(Ctx& ctx) : c(ctx) {
		w.net.horizon = 5000000;
		si = w.session();
	}
	void open(const Format& f, uint32_t id = 0) {
		auto p = ioParameters(0x7fffffff, 0x7fffffff);
		int shift = f.large ? 16 : 0;
		uint32_t type = id ? 0x2000 : 0x4000;
		p.t2oNetworkConnectionParams = ((type | (f.fixed ? 0 : 0x0200)) << shift) | f.size;
		p.o2tNetworkConnectionParams = (0x4000u << shift) | 4;
		p.transportTypeTrigger = f.cls;
		p.t2oRealTimeFormat = f.rt;
		p.connectionTimeoutMultiplier = 7;
		w.t2oOverride = id;
		Conn x;
		x.f = f;
		x.io = m.forwardOpen(si, p, f.large);
		x.id = w.opens.back().t2oId;
		c.check(!x.io.expired(), "no connection");
		size_t k = conns.size();
		x.io.lock()->setReceiveDataListener([this, k](cip::CipUdint h, cip::CipUint s, const std::vector<uint8_t>& d) { calls.push_back({k, h, s, d}); });
		conns.push_back(x);
		if (hold) held.push_back(x.io.lock());
	}
	void close(size_t k) {
		auto o = attempt([&] { m.forwardClose(si, conns[k].io); });
		c.check(!o.threw, "closing raises: " + o.what);
		conns[k].open = false;
	}
	static Bytes payload(const Format& f, uint32_t header, uint16_t seq, const Bytes& data) {
		ref::W w;
		if (f.rt) w.u32(header);
		if (f.cls) w.u16(seq);
		return w.raw(data);
	}
	/// What a datagram means
	void expect(const Bytes& d) {
		ref::R r(d);
		unsigned count = r.u16();
		std::vector<ref::Item> items;
		bool odd = false;
		for (unsigned i = 0; i < count && r.ok; ++i) {
			if (r.end()) { odd = true; break; } // fewer items than announced
			ref::Item it;
			it.type = r.u16();
			unsigned len = r.u16();
			it.data = r.take(len);
			items.push_back(it);
		}
		if (!r.ok || items.size() < 2) return;
		odd = odd || !r.end() || items.size() != 2 || items[0].type != 0x8002 || items[1].type != 0xB1 || items[0].data.size() != 8;
		if (items[0].data.size() < 4) return;
		ref::R a(items[0].data);
		uint32_t id = a.u32();
		for (size_t k = 0; k < conns.size(); ++k) {
			auto& x = conns[k];
			if (!x.open || x.id != id) continue;
			ref::R p(items[1].data);
			Call call{k, 0, 0, {}};
			if (x.f.rt) call.header = p.u32();
			if (x.f.cls) call.seq = p.u16();
			if (!p.ok) return;
			call.data = p.rest();
			if (x.f.fixed && call.data.size() != x.f.size) return;
			expected.push_back(call);
			optional.push_back(odd);
		}
	}
	void arrive(const Bytes& d, Time delay = 0) {
		w.net.datagram({ip("10.0.0.1"), 2222}, 2222, d, w.net.now() + delay);
		waiting.push_back({w.net.now() + delay, d});
	}
	void service(int ms) {
		// dispatched in the order of arrival
		std::stable_sort(waiting.begin(), waiting.end(), [](auto& a, auto& b) { return a.first < b.first; });
		size_t n = 0;
		for (; n < waiting.size() && waiting[n].first <= w.net.now() + ms * MS; ++n) expect(waiting[n].second);
		waiting.erase(waiting.begin(), waiting.begin() + n);
		c.step(fmt("service %d ms", ms));
		auto o = attempt([&] { m.handleConnections(milliseconds(ms)); });
		c.check(!o.threw, "servicing raises: " + o.what);
	}
	void verify(const char* when) {
		size_t k = 0;
		for (size_t i = 0; i < expected.size(); ++i) {
			if (k < calls.size() && calls[k] == expected[i]) { ++k; continue; }
			if (optional[i]) continue;
			c.fail("missing or wrong reception " + std::string(when) + ": expected " + expected[i].str() + (k < calls.size() ? " but got " + calls[k].str() : ""));
		}
		if (k != calls.size()) c.fail("unexpected reception " + std::string(when) + ": " + calls[k].str());
		c.compared();
		if (!hold) for (auto& x : conns) c.check(x.io.expired() == !x.open, "a connection was closed or closed ones exist");
		c.obs(calls.size());
		uint64_t h = 3;
		for (auto& x : calls) h = mix(h, mix(hash(x.data), mix(x.header, mix(x.seq, x.conn))));
		c.obs(h);
		c.state(h);
		calls.clear();
		expected.clear();
		optional.clear();
	}
	Bytes valid(size_t k, uint32_t seq = 1, uint32_t header = 1, int size = -1) {
		auto& x = conns[k];
		return ref::implicitMessage(x.id, seq, payload(x.f, header, seq, pattern(size < 0 ? x.f.size : size, seq + k)));
	}
};

Format pickFormat(Ctx& c) {
	Format f;
	f.cls = c.choose(4, "class");
	f.rt = c.choose(2, "real time");
	f.fixed = c.choose(2, "size type") == 0;
	return f;
}

} // namespace

void mc::define(Registry& r) {
	int depth = r.tier(4, 5), steps = r.tier(6, 8);
	r.bound("all formats (class 0..3, header, fixed/variable) x payload sizes 0..16 and limits; all 65536 sequence counts; connection ids different in each single bit");
	r.bound("1 to 4 further items of 4 kinds after the data");
	r.bound("every truncation and every single byte value of a message for each of 6 formats");
	r.bound(fmt("all sequences of up to %d datagrams of 9 shapes for 3 connections with neighbouring ids, arriving before or during the service calls, with closings in between", depth));

	r.bound(fmt("all histories of %d opens, closes, reopens with the same id, messages and service calls of 2 connections, kept by the user or not, with targets that produce before the open has returned", steps));
	r.bound("all words of up to 3 of 6 kinds of messages and services, repeated to 1100 (thorough 4000) steps; 320 (thorough 640) connections at once and in succession");

	r.add("formats and sizes", [](Ctx& c) {
		Rig g(c);
		Format f = pickFormat(c);
		f.size = c.pick(std::vector<unsigned>{0, 1, 4, 10});
		g.open(f);
		static const std::vector<uint32_t> headers = {0, 1, 0x80000000u, 0xffffffffu, 0x01020304};
		static const std::vector<uint32_t> seqs = {0, 1, 0x00ff, 0x0100, 0x7fff, 0x8000, 0xffff};
		uint32_t h = c.pick(headers), s = c.pick(seqs);
		for (int size = 0; size <= 16; ++size) g.arrive(g.valid(0, s, h, size));
		// raw payload lengths: shorter than the header, too
		for (int n = 0; n <= 20; ++n) g.arrive(ref::implicitMessage(g.conns[0].id, s, pattern(n, h + n)));
		g.service(0);
		g.verify("");
	});
	r.add("large", [](Ctx& c) {
		Rig g(c);
		Format f = pickFormat(c);
		f.large = true;
		static const std::vector<unsigned> sizes = {503, 504, 505, 508, 509, 510, 511, 1472, 4096, 8192, 32767, 32768, 65480};
		f.size = c.pick(sizes);
		g.open(f);
		g.arrive(g.valid(0, 1));
		g.arrive(g.valid(0, 2, 1, f.size - 1));
		g.arrive(g.valid(0, 3, 1, f.size + 1));
		if (!f.fixed) g.arrive(g.valid(0, 4, 1, 65507 - 18 - f.overhead()));
		g.service(0);
		g.verify("");
	});
	r.add("all sequence counts", [](Ctx& c) {
		Rig g(c);
		Format f;
		f.cls = 1 + 2 * c.choose(2);
		f.rt = c.choose(2);
		g.open(f);
		int high = c.choose(256);
		for (int low = 0; low < 256; ++low) {
			g.arrive(g.valid(0, high << 8 | low, low));
			if (low % 64 == 63) g.service(0);
		}
		g.verify("");
	});
	r.add("ids", [](Ctx& c) {
		// an id and others which differ in one bit; messages for each of the 33
		Rig g(c);
		static const std::vector<uint32_t> ids = {0x00010001, 0xffffffffu, 0x80000000u, 0x12345678};
		uint32_t id = c.pick(ids);
		int bit = c.choose(32);
		g.open(Format(), id);
		bool second = c.choose(2);
		if (second) g.open(Format(), id ^ (1u << bit) ? id ^ (1u << bit) : 77);
		for (int b = 0; b < 32; ++b) g.arrive(ref::implicitMessage(id ^ (1u << b), 5, {9, 0, 1, 2, 3, 4}));
		g.arrive(ref::implicitMessage(id, 5, {9, 0, 5, 6, 7, 8}));
		g.service(0);
		g.verify("");
		if (second) {
			g.m.forwardClose(g.si, g.conns[0].io);
			g.conns[0].open = false;
			g.arrive(ref::implicitMessage(id, 6, {9, 0, 5, 6, 7, 8}));
			g.arrive(g.valid(1));
			g.service(0);
			g.verify("after closing the first");
		}
	});
	static const std::vector<Format> six = {{1, false, true, 4}, {1, true, true, 4}, {0, false, false, 3}, {0, true, true, 0}, {3, true, false, 5}, {2, false, true, 1}};
	r.add("truncated", [](Ctx& c) {
		Rig g(c);
		g.open(c.pick(six));
		g.open(Format());
		Bytes d = g.valid(0);
		d.resize(c.choose(static_cast<int>(d.size())));
		g.arrive(d);
		g.arrive(g.valid(1));
		g.arrive(g.valid(0));
		g.service(0);
		g.verify("");
	});
	r.add("one wrong byte", [](Ctx& c) {
		Rig g(c);
		g.open(c.pick(six));
		g.open(Format());
		Bytes d = g.valid(0);
		size_t pos = c.choose(static_cast<int>(d.size()));
		int high = c.choose(16);
		for (int low = 0; low < 16; ++low) {
			Bytes e = d;
			e[pos] = high << 4 | low;
			g.arrive(e);
			g.service(0);
			g.verify("of the damaged message");
		}
		g.arrive(g.valid(1));
		g.arrive(g.valid(0));
		g.service(0);
		g.verify("after the damaged messages");
	});
	r.add("further items", [](Ctx& c) {
		// the data are those of the item after the address
		Rig g(c);
		Format f = c.pick(six);
		g.open(f);
		g.open(Format());
		int n = c.choose(4, "further items"), kind = c.choose(4, "kind");
		std::vector<ref::Item> items{{0x8002, ref::W().u32(g.conns[0].id).u32(1)}, {0xB1, Rig::payload(f, 1, 7, pattern(f.size, 9))}};
		for (int i = 0; i < n; ++i) {
			if (kind == 0) items.push_back({0xB1, Rig::payload(f, 2, 8, pattern(f.size, 60 + i))});
			if (kind == 1) items.push_back({0x8002, ref::W().u32(g.conns[1].id).u32(1)});
			if (kind == 2) items.push_back({0, {}});
			if (kind == 3) items.push_back({static_cast<uint16_t>(0x8000 + i), ref::sockaddrItem(0x0a000005, 2222)});
		}
		g.arrive(ref::cpf(items));
		g.service(0);
		g.verify("of the message with further items");
		g.arrive(g.valid(1));
		g.arrive(g.valid(0));
		g.service(0);
		g.verify("after it");
	});
	r.add("sequences", [depth](Ctx& c) {
		Rig g(c);
		Format a, b, d;
		b.rt = true;
		d.cls = 0;
		d.fixed = false;
		g.open(a, 0x00050005);
		g.open(b, 0x00060005);
		g.open(d, 0x00000005);
		for (int i = 0; i < depth; ++i) {
			int op = c.choose(12, "datagram");
			Time delay = 0;
			if (op < 9) delay = c.choose(2, "arrives") ? 5 * MS : 0;
			c.step(fmt("datagram %d", op));
			uint32_t seq = 100 - i;
			switch (op) {
				case 0: case 1: case 2: g.arrive(g.valid(op, seq), delay); break;
				case 3: g.arrive(ref::implicitMessage(0x00070005, seq, pattern(6)), delay); break;      // unknown
				case 4: g.arrive(g.valid(0, seq, 1, 5), delay); break;                                   // wrong size
				case 5: g.arrive(ref::implicitMessage(0x00060005, seq, {1, 2, 3, 4, 5}), delay); break;  // shorter than the header
				case 6: g.arrive({}, delay); break;
				case 7: g.arrive({2, 0, 0x02, 0x80, 8}, delay); break;
				case 8: g.arrive(ref::cpf({{0x8002, {5, 0, 5}}, {0xB1, {1, 0, 9, 9, 9, 9}}}), delay); break; // short id
				case 9: g.service(10); g.verify("after servicing"); break;
				case 10: case 11: {
					g.service(10);
					g.verify("before closing");
					size_t k = op - 10;
					g.m.forwardClose(g.si, g.conns[k].io);
					g.conns[k].open = false;
					break;
				}
			}
		}
		g.service(10);
		g.verify("at the end");
	});
	r.add("histories", [steps](Ctx& c) {
		// connections are opened, closed and opened again with the same ids; messages wait meanwhile,
		// and the target may produce as soon as it has accepted
		Rig g(c);
		g.hold = c.choose(2, "connections kept by the user");
		static const uint32_t ids[2] = {0x00050005, 0x00060005};
		int current[2] = {-1, -1};
		bool bound = false;
		uint32_t seq = 0;
		for (int i = 0; i < steps; ++i) {
			int op = c.choose(5, "operation");
			if (op == 4) { c.step("service"); g.service(0); g.verify("after servicing"); continue; }
			int k = op % 2;
			if (op < 2 && current[k] < 0) {
				int early = bound ? c.choose(2, "produces at once") : 0;
				c.step(fmt("open %d%s", k, early ? ", produces at once" : ""));
				Bytes d = ref::implicitMessage(ids[k], ++seq, ref::W().u16(seq).raw(pattern(4, seq)));
				auto normal = g.w.dev.onCip;
				if (early) g.w.dev.onCip = [&g, normal, d](const ref::CipRequest& q) { g.arrive(d); return normal(q); };
				g.open(Format(), ids[k]);
				g.w.dev.onCip = normal;
				bound = true;
				current[k] = static_cast<int>(g.conns.size()) - 1;
			} else if (op < 2) {
				c.step(fmt("close %d", k));
				g.close(current[k]);
				current[k] = -1;
			} else {
				if (!bound) continue;
				c.step(fmt("message %d", k));
				++seq;
				g.arrive(ref::implicitMessage(ids[k], seq, ref::W().u16(seq).raw(pattern(4, seq))));
			}
		}
		g.service(0);
		g.verify("at the end");
	});
	r.add("without listeners", [](Ctx& c) {
		// connections without listeners take data, too
		IoWorld w;
		auto si = w.session();
		ConnectionManager m;
		auto io = m.forwardOpen(si, ioParameters(10000, 10000));
		c.check(!io.expired(), "no connection");
		for (int i = 0; i < 20; ++i) {
			w.net.datagram({ip("10.0.0.1"), 2222}, 2222, ref::implicitMessage(w.opens[0].t2oId, i, {1, 0, 9, 9, 9, 9}), w.net.now());
			auto o = attempt([&] { m.handleConnections(milliseconds(10)); });
			c.check(!o.threw && !io.expired(), "servicing without listeners");
		}
		c.step("served");
		c.state(1);
	});
	r.add("replaced listeners", [](Ctx& c) {
		// the listener set last is the one that is called
		Rig g(c);
		g.open(Format());
		for (int i = 0; i < 3; ++i) {
			int which = c.choose(3);
			int hits = 0;
			if (which) g.conns[0].io.lock()->setReceiveDataListener([&](auto, auto, auto&) { ++hits; });
			else g.conns[0].io.lock()->setReceiveDataListener([&](cip::CipUdint h, cip::CipUint s, const std::vector<uint8_t>& d) { g.calls.push_back({0, h, s, d}); });
			g.arrive(g.valid(0, i));
			g.service(0);
			if (which) {
				c.equal(hits, 1, "calls of the new listener");
				c.check(g.calls.empty(), "the replaced listener is called");
				g.expected.clear();
				g.optional.clear();
			} else g.verify("");
		}
	});
	int many = r.tier(1100, 4000);
	r.add("long", [many](Ctx& c) {
		// a connection takes as many messages as there are
		Rig g(c);
		g.open(Format());
		Format f;
		f.cls = 0;
		f.rt = true;
		g.open(f);
		Word word(c, 6, 3);
		for (int i = 0; i < many; ++i) {
			switch (word[i]) {
				case 0: g.arrive(g.valid(0, i)); break;
				case 1: g.arrive(g.valid(1, i, i)); break;
				case 2: g.service(0); break;
				case 3: g.arrive(g.valid(0, i)); g.service(1); break;
				case 4: g.arrive(g.valid(0, i, 1, 5)); g.service(0); break;
				case 5: g.arrive({2, 0, 0x02, 0x80, 8}); g.service(0); break;
			}
			if (word[i] >= 2) g.verify("after a service");
			if (i % 32 == 31) { g.service(0); g.verify("after some steps"); c.alive(); }
		}
		g.arrive(g.valid(1));
		g.arrive(g.valid(0));
		g.service(0);
		g.verify("at the end");
	});
	int connections = r.tier(320, 640);
	r.add("many connections", [connections](Ctx& c) {
		// at once and in succession
		Rig g(c);
		Word word(c, 4, 2);
		bool succession = c.choose(2);
		std::vector<size_t> last;
		for (int i = 0; i < connections; ++i) {
			Format f = six[word[i]];
			g.open(f);
			if (succession && i >= 2) g.close(i - 2);
			g.arrive(g.valid(i, i));
			if (i % 3 == 0 && i) g.arrive(g.valid(i - 1, i));
			g.service(0);
			if (i < 40 || i % 16 == 0) g.verify(fmt("after %d opens", i + 1).c_str());
			if (i % 16 == 0) c.alive();
		}
		for (int i = 0; i < connections; ++i) g.arrive(g.valid(i, 9));
		g.service(0);
		g.verify("at the end");
	});
}
