// C25: configured timeouts
#include "io.h"
#include "DiscoveryManager.h"
#include "MessageRouter.h"
#include "sockets/TCPSocket.h"
#include "sockets/UDPSocket.h"

using namespace eipScanner;
using namespace sim;
using sockets::EndPoint;
using sockets::TCPSocket;

namespace {

struct Rig {
	Ctx& c;
	IoWorld w;
	explicit Rig(Ctx& ctx) : c(ctx) {}
	Time before = 0;
	int interruptsBefore = 0;
	Outcome measure(const std::function<void()>& f) {
		before = w.net.now();
		interruptsBefore = w.net.interrupts;
		auto o = attempt(f);
		c.step(fmt("ends after %lld us", (long long) (w.net.now() - before) / US) + (o.threw ? ": " + o.what : ""));
		c.obs(w.net.now() - before);
		c.obs(o.threw);
		c.state(mix(o.threw, (w.net.now() - before) / US));
		return o;
	}
	/// ended at the given time (interrupts may make it up to 1 ms inexact, a restarted wait up to the same again)
	void took(Time expected, bool restarts = false) {
		Time d = w.net.now() - before;
		int k = w.net.interrupts - interruptsBefore;
		c.compared();
		if (d < expected - (k ? MS : 0)) c.fail(fmt("ends after %lld us already instead of %lld us", (long long) d / US, (long long) expected / US));
		if (d > expected * (restarts ? 1 + k : 1) + MS) c.fail(fmt("ends only after %lld us instead of %lld us", (long long) d / US, (long long) expected / US));
	}
	void raises(const Outcome& o, Time expected, bool restarts = false) {
		c.check(o.threw, "no exception at the timeout");
		took(expected, restarts);
	}
	/// all the timeouts: each millisecond up to 3 s and around longer whole seconds
	int timeout() {
		static const std::vector<int> longer = {3001, 3999, 4000, 4001, 9999, 10000, 10001, 59999, 60000, 60001, 3599999, 3600000, 3600001, 86400000, 2000000000};
		int i = c.choose(3000 + static_cast<int>(longer.size()), "timeout");
		int t = i < 3000 ? i + 1 : longer[i - 3000];
		c.step(fmt("timeout of %d ms", t));
		return t;
	}
	int some() {
		static const std::vector<int> t = {1, 2, 5, 10, 100, 500, 999, 1000, 1001, 1500, 1999, 2000, 2001, 2500, 60000, 3600000};
		return c.pick(t, "timeout");
	}
};

Bytes identity(uint32_t serial) {
	return ref::encap(0x63, 0, 0, ref::cpf({{0x0C, ref::W().u16(1).raw(ref::sockaddrItem(ip("10.0.0.9"), 44818)).u16(1).u16(2).u16(3).u8(1).u8(2).u16(4).u32(serial).shortString("name").u8(3)}}));
}

} // namespace

void mc::define(Registry& r) {
	r.bound("every timeout of 1 to 3000 ms and around 4, 10, 60, 3600, 86400 and 2000000 s");
	r.bound("silence or an answer 1 us or 1 ms before or after the timeout, at connecting, registering, requests in a row, opening, closing, discovering, servicing; up to 3 interrupts at every wait");

	r.add("connecting", [](Ctx& c) {
		Rig g(c);
		int t = g.timeout(), how = c.choose(2);
		g.w.net.connecting = Connecting::SILENT;
		auto o = g.measure([&] { if (how) TCPSocket s(EndPoint("10.0.0.1", 44818), milliseconds(t)); else g.w.session(t); });
		g.raises(o, t * MS);
		c.check(g.w.net.openFds().empty(), "a socket is left open");
	});
	r.add("connecting late", [](Ctx& c) {
		Rig g(c);
		int t = g.timeout();
		static const std::vector<Time> late = {-MS, -1 * US, 1 * US, MS};
		Time d = c.pick(late);
		g.w.net.connectDelay = t * MS + d;
		bool ok = d < 0;
		if (g.w.net.connectDelay <= 0) return;
		auto o = g.measure([&] { TCPSocket s(EndPoint("10.0.0.1", 44818), milliseconds(t)); });
		// up to 1 ms later is within the granularity
		if (d > 0 && d <= MS && !o.threw) { g.took(t * MS + d); return; }
		c.check(o.threw == !ok, o.threw ? "the connection in time fails: " + o.what : "the late connection succeeds");
		g.took(ok ? t * MS + d : t * MS);
	});
	r.add("defaults", [](Ctx& c) {
		// without a timeout it is one second
		Rig g(c);
		int how = c.choose(4);
		if (how < 3) {
			g.w.net.connecting = Connecting::SILENT;
			auto o = g.measure([&] {
				if (how == 0) TCPSocket s("10.0.0.1", 44818);
				else if (how == 1) TCPSocket s(EndPoint("10.0.0.1", 44818));
				else SessionInfo s("10.0.0.1", 44818);
			});
			g.raises(o, SEC);
		} else {
			g.w.dev.onFrame = [](Stream&, const ref::Frame&) { return true; };
			auto o = g.measure([&] { SessionInfo s("10.0.0.1", 44818); });
			g.raises(o, SEC + g.w.net.connectDelay);
		}
	});
	r.add("registering", [](Ctx& c) {
		Rig g(c);
		int t = g.timeout();
		if (t * MS <= 2 * g.w.net.connectDelay) return;
		g.w.dev.onFrame = [](Stream&, const ref::Frame&) { return true; };
		auto o = g.measure([&] { g.w.session(t); });
		g.raises(o, t * MS + g.w.net.connectDelay);
		c.check(g.w.net.openFds().empty(), "a socket is left open");
	});
	r.add("registering late", [](Ctx& c) {
		Rig g(c);
		int t = g.timeout();
		static const std::vector<Time> late = {-MS, -1 * US, 1 * US, 2 * MS};
		Time d = c.pick(late);
		if (t * MS + d <= 0) return;
		g.w.dev.delay = t * MS + d;
		auto o = g.measure([&] { g.w.session(t); });
		if (d > 0 && d < MS && !o.threw) { g.took(t * MS + d + g.w.net.connectDelay); return; }
		c.check(o.threw == (d > 0), o.threw ? "the answer in time is refused: " + o.what : "an answer which is too late is taken");
		g.took((d < 0 ? t * MS + d : t * MS) + g.w.net.connectDelay);
	});
	r.add("requests", [](Ctx& c) {
		// the k-th request is not answered, nor are the next ones
		Rig g(c);
		int t = g.timeout(), good = c.choose(3);
		MessageRouter m;
		g.w.dev.onCip = [](const ref::CipRequest&) { return ref::CipReply(Bytes{1, 2}); };
		auto si = g.w.session(t);
		for (int i = 0; i < good; ++i) m.sendRequest(si, 0x0E, cip::EPath(1, 1, 1));
		g.w.dev.onFrame = [](Stream&, const ref::Frame& f) { return f.command == ref::SEND_RR; };
		for (int i = 0; i < 2; ++i) {
			auto o = g.measure([&] { m.sendRequest(si, 0x0E, cip::EPath(1, 1, 1)); });
			g.raises(o, t * MS);
		}
	});
	r.add("request late", [](Ctx& c) {
		Rig g(c);
		int t = g.timeout();
		static const std::vector<Time> late = {-MS, -1 * US, 1 * US, 2 * MS};
		Time d = c.pick(late);
		if (t * MS + d <= 0) return;
		MessageRouter m;
		g.w.dev.onCip = [](const ref::CipRequest&) { return ref::CipReply(Bytes{1, 2}); };
		auto si = g.w.session(t);
		g.w.dev.delay = t * MS + d;
		auto o = g.measure([&] { m.sendRequest(si, 0x0E, cip::EPath(1, 1, 1)); });
		if (d > 0 && d < MS && !o.threw) { g.took(t * MS + d); return; }
		c.check(o.threw == (d > 0), o.threw ? "the answer in time is refused: " + o.what : "an answer which is too late is taken");
		g.took(d < 0 ? t * MS + d : t * MS);
	});
	r.add("several sessions", [](Ctx& c) {
		// each has its own timeout, also when others are made and destroyed
		Rig g(c);
		MessageRouter m;
		std::vector<std::pair<std::shared_ptr<SessionInfo>, int>> s;
		g.w.dev.onCip = [](const ref::CipRequest&) { return ref::CipReply(Bytes{1, 2}); };
		for (int i = 0; i < 3; ++i) { int t = g.some(); s.push_back({g.w.session(t), t}); }
		int gone = c.choose(4);
		if (gone < 3) s.erase(s.begin() + gone);
		g.w.dev.onFrame = [](Stream&, const ref::Frame& f) { return f.command == ref::SEND_RR; };
		for (auto& [si, t] : s) {
			auto o = g.measure([&] { m.sendRequest(si, 0x0E, cip::EPath(1, 1, 1)); });
			g.raises(o, t * MS);
		}
	});
	r.add("opening and closing", [](Ctx& c) {
		Rig g(c);
		int t = g.some(), large = c.choose(2);
		ConnectionManager m;
		auto si = g.w.session(t);
		auto w = m.forwardOpen(si, ioParameters(4000000, 200000000));
		g.w.dev.onFrame = [](Stream&, const ref::Frame& f) { return f.command == ref::SEND_RR; };
		auto o = g.measure([&] { m.forwardOpen(si, ioParameters(1000, 1000), large); });
		g.raises(o, t * MS);
		o = g.measure([&] { m.forwardClose(si, w); });
		g.raises(o, t * MS);
	});
	r.add("discovering", [](Ctx& c) {
		Rig g(c);
		int t = g.timeout();
		DiscoveryManager m("10.0.0.255", 44818, milliseconds(t));
		for (int i = 0; i < 2; ++i) {
			IdentityItem::Vec found;
			auto o = g.measure([&] { found = m.discover(); });
			c.check(!o.threw, "the discovery fails: " + o.what);
			c.equal(found.size(), size_t(0), "devices");
			g.took(t * MS);
		}
	});
	r.add("discovering some", [](Ctx& c) {
		// the answers are returned, and the end is between the timeout and the timeout after the last answer
		Rig g(c);
		int t = g.some();
		static const std::vector<int> parts = {0, 10, 50, 90, 99};
		int n = c.choose(4);
		Time last = 0;
		std::vector<Time> at;
		for (int i = 0; i < n; ++i) { last = std::max(last, t * MS / 100 * c.pick(parts)); at.push_back(last); }
		g.w.net.onDatagram = [&](const Datagram& d) { for (int i = 0; i < n; ++i) g.w.net.datagram({ip("10.0.0.9"), 44818}, d.from.port, identity(i), g.w.net.now() + at[i]); };
		DiscoveryManager m("10.0.0.255", 44818, milliseconds(t));
		IdentityItem::Vec found;
		auto o = g.measure([&] { found = m.discover(); });
		c.check(!o.threw, "the discovery fails: " + o.what);
		c.equal(found.size(), at.size(), "devices");
		Time d = g.w.net.now() - g.before;
		c.check(d >= t * MS, fmt("the discovery ends after %lld us", (long long) d / US));
		c.check(d <= last + t * MS + MS, fmt("the discovery ends only after %lld us", (long long) d / US));
	});
	r.add("servicing", [](Ctx& c) {
		Rig g(c);
		int t = g.timeout(), n = c.choose(3);
		ConnectionManager m;
		auto si = g.w.session();
		for (int i = 0; i < n; ++i) {
			auto p = ioParameters(4000000, 4000000000u);
			p.connectionTimeoutMultiplier = 7;
			m.forwardOpen(si, p);
		}
		for (int i = 0; i < 2; ++i) {
			auto o = g.measure([&] { m.handleConnections(milliseconds(t)); });
			c.check(!o.threw, "servicing raises: " + o.what);
			g.took(t * MS);
		}
		auto o = g.measure([&] { m.handleConnections(milliseconds(0)); });
		c.check(!o.threw, "servicing raises: " + o.what);
		g.took(0);
	});
	r.add("servicing traffic", [](Ctx& c) {
		// data does not make it longer
		Rig g(c);
		int t = g.some(), n = c.choose(5);
		static const std::vector<int> parts = {0, 10, 50, 90, 99};
		ConnectionManager m;
		auto si = g.w.session();
		auto p = ioParameters(4000000, 4000000000u);
		p.connectionTimeoutMultiplier = 7;
		m.forwardOpen(si, p);
		for (int i = 0; i < n; ++i) g.w.net.datagram({ip("10.0.0.1"), 2222}, 2222, ref::implicitMessage(g.w.opens[0].t2oId, i, {1, 0, 1, 2, 3, 4}), g.w.net.now() + t * MS / 100 * c.pick(parts));
		auto o = g.measure([&] { m.handleConnections(milliseconds(t)); });
		c.check(!o.threw, "servicing raises: " + o.what);
		Time d = g.w.net.now() - g.before;
		c.check(d >= t * MS - (n ? MS : 0) && d <= t * MS + MS, fmt("servicing takes %lld us", (long long) d / US));
	});
	r.add("interrupts", [](Ctx& c) {
		Rig g(c);
		static const std::vector<int> ts = {1, 10, 999, 1000, 1001, 2500};
		int t = c.pick(ts), what = c.choose(5);
		DiscoveryManager d("10.0.0.255", 44818, milliseconds(t));
		ConnectionManager m;
		MessageRouter router;
		std::shared_ptr<SessionInfo> si;
		if (what == 4) si = g.w.session(t);
		if (what == 4) g.w.dev.onFrame = [](Stream&, const ref::Frame& f) { return f.command == ref::SEND_RR; };
		if (what == 3) { auto s = g.w.session(); auto p = ioParameters(4000000, 4000000000u); p.connectionTimeoutMultiplier = 7; m.forwardOpen(s, p); }
		if (what == 0) g.w.net.connecting = Connecting::SILENT;
		g.w.net.faults = F_SELECT_EINTR | F_RECV_EINTR | F_CONNECT_EINTR;
		Outcome o;
		switch (what) {
			case 0: o = g.measure([&] { g.w.session(t); }); g.raises(o, t * MS); break;
			case 1: case 3: o = g.measure([&] { m.handleConnections(milliseconds(t)); }); c.check(!o.threw, "servicing raises: " + o.what); g.took(t * MS); break;
			case 2: o = g.measure([&] { d.discover(); }); if (!o.threw) g.took(t * MS, true); break;
			case 4: o = g.measure([&] { router.sendRequest(si, 0x0E, cip::EPath(1, 1, 1)); }); g.raises(o, t * MS, true); break;
		}
	}, 3);
}
