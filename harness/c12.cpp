// C12: the watchdog of connections
#include "io.h"

using namespace eipScanner;
using namespace sim;

namespace {

struct Conn {
	uint32_t t2oId = 0, o2tId = 0;
	Time timeout = 0, last = 0;
	IOConnection::WPtr io;
	bool open = true;
	int closed = 0, expectedClosed = 0, received = 0, expectedReceived = 0;
	size_t sentAtClose = 0;
};

struct Rig {
	Ctx& c;
	IoWorld w;
	std::shared_ptr<SessionInfo> si;
	ConnectionManager m;
	std::vector<std::unique_ptr<Conn>> conns;
	struct Arrival { Time at; size_t conn; };
	std::vector<Arrival> arrivals; // valid ones
	bool strictTime = true;

	explicit Rig(Ctx& ctx) : c(ctx) {
		w.net.horizon = 5000000;
		si = w.session();
	}
	Conn& open(int code, uint32_t t2oApi, uint32_t o2tApi = 0x7fffffff, uint32_t rpi = 0) {
		auto p = ioParameters(o2tApi, rpi ? rpi : t2oApi);
		p.connectionTimeoutMultiplier = code;
		w.t2oApi = t2oApi;
		auto x = std::make_unique<Conn>();
		x->io = m.forwardOpen(si, p);
		c.check(!x->io.expired(), "no connection");
		x->t2oId = w.opens.back().t2oId;
		x->o2tId = w.opens.back().o2tId;
		x->timeout = Time(4ll << code) * t2oApi * US;
		x->last = w.net.now();
		Conn* k = x.get();
		auto io = x->io.lock();
		io->setDataToSend({1, 2, 3, 4});
		io->setCloseListener([k, this] { ++k->closed; k->sentAtClose = w.net.sent.size(); });
		io->setReceiveDataListener([k](auto, auto, auto) { ++k->received; });
		conns.push_back(std::move(x));
		return *k;
	}
	/// kind 0 good, 1 wrong size, 2 too short for its header, 3 foreign id, 4 malformed, 5 empty
	void data(size_t i, int kind, Time delay = 0) {
		auto& x = *conns[i];
		c.step(fmt("datagram %d for connection %zu in %lld us", kind, i, (long long) delay / US));
		uint32_t id = x.t2oId;
		Bytes d;
		switch (kind) {
			case 0: d = ref::implicitMessage(id, 1, {1, 0, 9, 8, 7, 6}); arrivals.push_back({w.net.now() + delay, i}); break;
			case 1: d = ref::implicitMessage(id, 1, {1, 0, 9, 8, 7}); break;
			case 2: d = ref::implicitMessage(id, 1, {1}); break;
			case 3: d = ref::implicitMessage(id ^ 0x80000000u, 1, {1, 0, 9, 8, 7, 6}); break;
			case 4: d = ref::implicitMessage(id, 1, {1, 0, 9, 8, 7, 6}); d.resize(d.size() - 1); break;
			case 5: break;
		}
		w.net.datagram({ip("10.0.0.1"), 2222}, 2222, d, w.net.now() + delay);
	}
	void pass(Time d) {
		c.step(fmt("%lld us pass", (long long) d / US));
		w.net.advance(d);
	}
	void service(int ms = 0) {
		c.step(fmt("service %d ms", ms));
		Time start = w.net.now(), end = start + ms * MS;
		std::stable_sort(arrivals.begin(), arrivals.end(), [](auto& a, auto& b) { return a.at < b.at; });
		while (!arrivals.empty() && arrivals[0].at <= end) {
			auto& x = *conns[arrivals[0].conn];
			if (x.open) { ++x.expectedReceived; x.last = std::max(start, arrivals[0].at); }
			arrivals.erase(arrivals.begin());
		}
		for (auto& x : conns) if (x->open && end - x->last > x->timeout) { x->open = false; ++x->expectedClosed; }
		size_t before = w.net.sent.size();
		auto o = attempt([&] { m.handleConnections(milliseconds(ms)); });
		c.check(!o.threw, "servicing raises: " + o.what);
		c.equal(w.net.now(), end, "end of the service call");
		bool any = false;
		for (size_t k = 0; k < conns.size(); ++k) {
			auto& x = *conns[k];
			any = any || x.open;
			if (x.closed != x.expectedClosed)
				c.fail(fmt("connection %zu: close listener called %d times instead of %d, %lld us after the last reception with a timeout of %lld us", k, x.closed,
					x.expectedClosed, (long long) (end - x.last) / US, (long long) x.timeout / US));
			c.compared();
			c.equal(x.received, x.expectedReceived, fmt("receptions of connection %zu", k));
			c.equal(x.io.expired(), !x.open, fmt("connection %zu is gone", k));
			for (size_t i = std::max(before, x.open ? w.net.sent.size() : x.sentAtClose); i < w.net.sent.size(); ++i) {
				ref::R a(w.net.sent[i].data);
				a.take(6);
				c.check(a.u32() != x.o2tId, "a closed connection sends");
			}
			c.obs(mix(x.open, x.closed));
			c.state(mix(mix(k, end - x.last), mix(x.open, x.timeout)));
		}
		c.equal(m.hasOpenConnections(), any, "open connections");
	}
};

} // namespace

void mc::define(Registry& r) {
	int depth = r.tier(6, 8);
	r.bound(fmt("all schedules of up to %d operations: pauses below, at and above the timeout, datagrams of 6 kinds (arriving before or during the services), services of 0 and 5 ms", depth));
	r.bound("all multiplier codes 0..7 x intervals 1 us .. 2^32-1 us at 1 us below, at and above the timeout, with requested intervals equal to, shorter and longer than the accepted one");

	r.bound("transport classes 0..3 x real time header x fixed/variable x layouts x sizes 0, 1, 4, 500 x complete, longer, shorter and incomplete messages at the last moment");
	r.bound("all words of up to 2 of 5 kinds of receptions, repeated to 1100 (thorough 4000) services; 300 connections lost at once or in turn");

	r.add("schedules", [depth](Ctx& c) {
		Rig g(c);
		auto& x = g.open(0, 10000, c.choose(2) ? 1000 : 0x7fffffff, 7000);
		Time t = x.timeout;
		for (int i = 0; i < depth; ++i) {
			int op = c.choose(6, "operation");
			if (op == 0) g.pass(t / 2);
			if (op == 1) g.pass(t - US);
			if (op == 2) g.pass(US);
			if (op == 3) g.data(0, 0);
			if (op == 4) g.service(0);
			if (op == 5) g.service(5);
		}
		g.service(0);
		g.pass(t);
		g.service(0);
		g.pass(US);
		g.service(0);
		c.check(!x.open, "still open");
		g.data(0, 0);
		g.service(0);
	});
	r.add("codes and intervals", [](Ctx& c) {
		Rig g(c);
		static const std::vector<uint32_t> apis = {1, 2, 100, 999, 1000, 1001, 2500, 10000, 1000000, 8388607, 8388608, 16777216, 0x7fffffff, 0x80000000u, 0xffffffffu};
		int code = c.choose(8);
		uint32_t api = c.pick(apis);
		// requested: as accepted, shorter, longer
		int asked = c.choose(4);
		uint32_t rpi = asked == 0 ? api : asked == 1 ? 1 : asked == 2 ? 0xffffffffu : api > 0x80000000u ? api - 1 : api * 2;
		auto& x = g.open(code, api, 0x7fffffff, rpi);
		g.service(0);
		int variant = c.choose(4);
		Time t = x.timeout;
		if (variant == 0) { g.pass(t); g.service(0); g.pass(US); g.service(0); }
		if (variant == 1) { g.pass(t - US); g.service(0); g.data(0, 0); g.pass(t / 2); g.service(0); g.pass(t); g.service(0); g.pass(US); g.service(0); }
		if (variant == 2) { g.pass(t + US); g.service(0); }
		if (variant == 3) { g.pass(t * 3); g.data(0, 0); g.service(0); g.pass(t); g.service(0); g.pass(US); g.service(0); }
		c.check(!x.open, "still open");
	});
	r.add("kinds of datagrams", [](Ctx& c) {
		// what counts as reception, and when
		Rig g(c);
		auto& x = g.open(1, 5000);
		auto& y = g.open(2, 4000);
		(void) y;
		Time t = x.timeout;
		for (int i = 0; i < 3; ++i) {
			int kind = c.choose(7, "kind"), when = c.choose(3, "when");
			g.pass(t - 2 * MS);
			if (kind < 6) g.data(kind == 6, kind, when * 2 * MS);
			else g.data(1, 0, when * 2 * MS);
			if (c.choose(2)) g.service(5);
			else g.service(0);
		}
		g.service(0);
	});
	r.add("many services", [](Ctx& c) {
		// frequent servicing does not change the instant
		Rig g(c);
		static const std::vector<int> periods = {1, 7, 100, 333, 999, 1000, 1001, 1999, 2500};
		int us = c.pick(periods);
		int code = c.choose(3);
		auto& x = g.open(code, c.choose(2) ? 777 : 2500, 1000);
		int stop = c.choose(3);
		for (int i = 0; x.open && i < 90000; ++i) {
			if (stop && i % 3 == 0 && g.w.net.now() < stop * 20 * MS) g.data(0, 0);
			g.w.net.advance(us * US);
			g.service(0);
		}
		c.check(!x.open, "still open");
		for (int i = 0; i < 3; ++i) { g.w.net.advance(us * US); g.service(0); }
	});
	r.add("several connections", [depth](Ctx& c) {
		// different timeouts
		Rig g(c);
		g.open(0, 1000, 3000);
		g.open(1, 1000, 3000);
		g.w.net.advance(500 * US);
		g.open(0, 3000, 0x7fffffff);
		for (int i = 0; i < depth - 1; ++i) {
			int op = c.choose(6, "operation");
			if (op < 3) g.data(op, 0);
			if (op == 3) g.pass(3900 * US);
			if (op == 4) g.pass(200 * US);
			if (op == 5) g.service(c.choose(2) ? 4 : 0);
		}
		g.service(0);
	});
	r.add("closed explicitly", [](Ctx& c) {
		// no close listener, no watchdog
		Rig g(c);
		auto& x = g.open(0, 1000);
		auto& y = g.open(0, 2000);
		g.pass(c.choose(3) * 2000 * US);
		int which = c.choose(2);
		auto& z = which ? y : x;
		g.m.forwardClose(g.si, z.io);
		z.open = false;
		for (int i = 0; i < 4; ++i) { g.pass(2500 * US); g.service(0); }
		c.check(!x.open && !y.open, "still open");
	});
	r.add("formats", [](Ctx& c) {
		// what is valid data depends on the format of the connection; also no data at all can be valid
		IoWorld w;
		auto si = w.session();
		ConnectionManager m;
		auto p = ioParameters(0x7fffffff, 10000);
		int cls = c.choose(4);
		bool header = c.choose(2), fixed = c.choose(2), large = c.choose(2);
		int size = c.pick(std::vector<int>{0, 1, 4, 500});
		p.transportTypeTrigger = cls;
		p.t2oRealTimeFormat = header;
		uint32_t word = 0x4800u | (fixed ? 0 : 0x200);
		p.t2oNetworkConnectionParams = large ? word << 16 | size : word | size;
		p.o2tNetworkConnectionParams = large ? 0x48000004u : 0x4804u;
		w.t2oApi = 10000;
		w.o2tApi = 0x7fffffff;
		auto io = m.forwardOpen(si, p, large);
		c.check(!io.expired(), "no connection");
		int closed = 0, received = 0;
		io.lock()->setCloseListener([&] { ++closed; });
		io.lock()->setReceiveDataListener([&](auto, auto, auto) { ++received; });
		int kind = c.choose(5); // complete, one more, one less, header cut off, one byte
		size_t head = (cls ? 2 : 0) + (header ? 4 : 0);
		size_t length = kind == 0 ? head + size : kind == 1 ? head + size + 1 : kind == 2 ? head + std::max(size - 1, 0) : kind == 3 ? (head ? head - 1 : 0) : 1;
		bool valid = length >= head && (!fixed || length - head == static_cast<size_t>(size));
		int n = 1 + c.choose(3);
		for (int i = 0; i < n; ++i) {
			w.net.advance(40 * MS);
			c.step(fmt("%zu bytes for class %d, %sheader, %s size %d", length, cls, header ? "" : "no ", fixed ? "fixed" : "variable", size));
			w.net.datagram({ip("10.0.0.1"), 2222}, 2222, ref::implicitMessage(w.opens.back().t2oId, i + 1, pattern(length, i)), w.net.now());
			m.handleConnections(milliseconds(0));
			c.equal(io.expired(), false, "closed at the timeout");
			c.equal(received, valid ? i + 1 : 0, "receptions");
			if (!valid) break;
		}
		w.net.advance(US);
		m.handleConnections(milliseconds(0));
		c.equal(io.expired(), !valid, "the connection is gone");
		c.equal(closed, valid ? 0 : 1, "calls of the close listener");
		w.net.advance(40 * MS);
		m.handleConnections(milliseconds(0));
		c.check(io.expired() && closed == 1 && !m.hasOpenConnections(), "the connection is not closed at last");
		c.obs(mix(mix(cls, header), mix(mix(fixed, large), mix(size, kind))));
		c.state(mix(mix(cls, header), mix(mix(fixed, valid), mix(size, length))));
	});
	r.add("uptime", [](Ctx& c) {
		// the clock may be far along
		Rig g(c);
		static const std::vector<int64_t> ups = {0, 1, 24ll * 3600, 50ll * 24 * 3600, 3650ll * 24 * 3600};
		g.w.net.steadyBase = c.pick(ups) * SEC;
		auto& x = g.open(c.choose(8), 10000);
		Time t = x.timeout;
		g.pass(t);
		g.service(0);
		c.check(x.open, "closed too early");
		g.pass(US);
		g.service(0);
		c.check(!x.open, "still open");
	});
	int many = r.tier(1100, 4000);
	r.add("many receptions", [many](Ctx& c) {
		// the instant does not depend on what has been before
		Rig g(c);
		auto& x = g.open(1, 2000);
		auto& y = g.open(2, 3000, 5000);
		Word word(c, 5, 2);
		int stop = many - c.choose(3) * (many / 3);
		for (int i = 0; i < many; ++i) {
			int l = word[i];
			if (i < stop) {
				if (l == 0) g.data(0, 0);
				if (l == 1) { g.w.net.advance(x.timeout); g.data(0, 0); }
				if (l == 2) { g.w.net.advance(x.timeout / 2); g.data(0, 0); g.data(1, 0); }
				if (l == 3) { g.data(0, 1); g.w.net.advance(US); }
				if (l == 4) g.data(1, 0);
			} else if (x.open) g.w.net.advance(i == stop ? x.timeout - 3 * US : US);
			g.service(0);
			if (i % 64 == 0) c.alive();
		}
		for (auto* k : {&x, &y}) for (int i = 0; i < 4 && k->open; ++i) {
			g.w.net.advance(std::max<Time>(US, k->last + k->timeout - g.w.net.now() - US + (i > 1) * US));
			g.service(0);
		}
	});
	r.add("lost one after the other", [](Ctx& c) {
		// many connections of one manager time out, at once or in turn
		Rig g(c);
		int n = 300, step = c.choose(3);
		for (int i = 0; i < n; ++i) {
			auto& x = g.open(i % 3, 1000);
			(void) x;
			if (step == 2) { g.w.net.advance(MS); g.service(0); }
			if (i % 16 == 0) c.alive();
		}
		for (int i = 0; i < (step ? 40 : 5); ++i) {
			g.w.net.advance(step ? MS : 4 * MS);
			g.service(0);
			c.alive();
		}
	});
}
