// C09: open connections
#include "io.h"

using namespace eipScanner;
using namespace sim;

namespace {

struct Conn {
	OpenRecord rec;
	ConnectionParameters p;
	IOConnection::WPtr w;
	IOConnection::SPtr held;
	bool open = true;
	Time last = 0, timeout = 0;
	std::shared_ptr<int> received = std::make_shared<int>(0), closed = std::make_shared<int>(0);
	int expectedReceived = 0, expectedClosed = 0;
};

struct Rig {
	Ctx& c;
	IoWorld w;
	std::shared_ptr<SessionInfo> si, other;
	std::unique_ptr<ConnectionManager> m = std::make_unique<ConnectionManager>();
	std::vector<Conn> conns;
	int brokenReply = 0; // 1 encapsulation error, 2 silent, 3 truncated frame data
	bool faulty = false;
	std::function<void(ConnectionParameters&)> tweak = [](auto&) {};

	explicit Rig(Ctx& ctx) : c(ctx) {
		w.dev.onFrame = [this](Stream& s, const ref::Frame& f) {
			if (f.command != ref::SEND_RR || !brokenReply) return false;
			if (brokenReply == 1) s.push(ref::encap(f.command, f.session, 0x64, {}, f.context), 50 * US);
			if (brokenReply == 3) s.push(ref::encap(f.command, f.session, 0, {0, 0, 0}, f.context), 50 * US);
			return true;
		};
		si = w.session(300);
	}

	void verify(const std::string& when) {
		bool any = false;
		for (auto& x : conns) any = any || x.open;
		c.equal(m->hasOpenConnections(), any, "open connections are reported " + when);
		uint64_t h = 7;
		for (size_t i = 0; i < conns.size(); ++i) {
			auto& x = conns[i];
			if (x.open) c.check(!x.w.expired(), fmt("connection %zu is gone ", i) + when);
			else if (!x.held) c.check(x.w.expired(), fmt("connection %zu still exists ", i) + when);
			c.equal(*x.received, x.expectedReceived, fmt("receptions of connection %zu ", i) + when);
			c.equal(*x.closed, x.expectedClosed, fmt("close notifications of connection %zu ", i) + when);
			h = mix(h, x.open * 2 + !!x.held);
		}
		c.state(h);
		c.obs(h);
		for (auto& p : w.dev.problems) c.fail("the device received a wrong message: " + p);
	}

	ConnectionParameters parameters(bool large) {
		auto p = ioParameters(1000000, 10000);
		p.originatorSerialNumber = 0x89ab1000 + conns.size();
		p.originatorVendorId = 0x9c55 + conns.size();
		if (large) {
			p.connectionPath = pattern(2 * (30 + conns.size() % 200), 5);
			p.o2tNetworkConnectionParams = (p.o2tNetworkConnectionParams & 0xfe00) << 16 | 4;
			p.t2oNetworkConnectionParams = (p.t2oNetworkConnectionParams & 0xfe00) << 16 | 4;
			p.connectionTimeoutMultiplier = 2;
		} else p.connectionPath = {0x20, 0x04, 0x24, static_cast<uint8_t>(conns.size()), 0x2c, 1, 0x2c, 2};
		tweak(p);
		return p;
	}

	/// kind 0 standard, 1 large, 2 the target chooses the same id each time, 3 refused, 4 truncated, 5 encapsulation error, 6 silent, 7 malformed
	void open(int kind) {
		c.step(fmt("open, kind %d", kind));
		bool large = kind == 1;
		auto p = parameters(large);
		w.t2oOverride = 0;
		if (kind == 2) {
			p.t2oNetworkConnectionParams = (p.t2oNetworkConnectionParams & ~0x6000u) | NetworkConnectionParams::MULTICAST;
			w.t2oOverride = 0x99000001;
			// never the id of an open connection
			while (std::any_of(conns.begin(), conns.end(), [&](auto& x) { return x.open && x.rec.t2oId == w.t2oOverride; })) ++w.t2oOverride;
		}
		w.openStatus = kind == 3 ? 1 : 0;
		w.openAdditional = {0x0103};
		w.openDropTail = kind == 4 ? 3 : 0;
		brokenReply = kind == 5 ? 1 : kind == 6 ? 2 : kind == 7 ? 3 : 0;
		size_t before = w.opens.size();
		Conn x;
		auto o = attempt([&] { x.w = large ? m->largeForwardOpen(si, p) : m->forwardOpen(si, p); });
		brokenReply = 0;
		bool accepted = kind <= 2;
		if (kind <= 4) c.equal(w.opens.size(), before + 1, "number of open requests");
		if (faulty && o.threw) return;
		c.check(o.threw == (kind >= 4), o.threw ? "the open fails: " + o.what : "the failing open raises nothing");
		if (!accepted) {
			c.check(x.w.expired(), "a refused open returns a connection");
			return;
		}
		c.check(!x.w.expired(), "an accepted open returns no connection");
		x.rec = w.opens.back();
		x.p = p;
		x.last = w.net.now();
		x.timeout = Time(4 << p.connectionTimeoutMultiplier) * p.t2oRPI * US;
		auto io = x.w.lock();
		io->setReceiveDataListener([n = x.received](auto, auto, auto) { ++*n; });
		io->setCloseListener([n = x.closed] { ++*n; });
		io->setDataToSend({1, 2, 3, 4});
		conns.push_back(x);
	}

	void close(size_t i, bool refuse, bool otherSession) {
		auto& x = conns[i];
		c.step(fmt("close %zu (%s%s)", i, x.open ? "open" : x.held ? "held" : "gone", refuse ? ", refused" : ""));
		w.closeStatus = refuse ? 1 : 0;
		size_t before = w.closes.size(), frames = w.dev.frames.size();
		auto o = attempt([&] { m->forwardClose(otherSession ? other : si, x.w); });
		c.check(!o.threw, "closing raises: " + o.what);
		if (x.open) c.equal(w.closes.size(), before + 1, "number of close requests");
		else c.check(w.closes.size() <= before + (x.held ? 1 : 0), "a close request for a connection that is gone");
		c.equal(w.dev.frames.size() - frames, w.closes.size() - before, "number of messages");
		if (w.closes.size() > before) {
			auto& r = w.closes.back();
			c.equal(r.fc.serial, x.rec.fo.serial, "serial number of the close request");
			c.equal(r.fc.vendor, x.p.originatorVendorId, "vendor id of the close request");
			c.equal(r.fc.originatorSerial, x.p.originatorSerialNumber, "originator serial number of the close request");
			c.equal(r.fc.path, x.p.connectionPath, "path of the close request");
			c.equal(static_cast<int>(r.fc.reserved), 0, "reserved byte of the close request");
		}
		x.open = false;
	}

	void service() {
		for (auto& x : conns)
			if (x.open && w.net.now() - x.last > x.timeout) { x.open = false; ++x.expectedClosed; }
		auto o = attempt([&] { m->handleConnections(milliseconds(0)); });
		if (!faulty) c.check(!o.threw, "servicing raises: " + o.what);
	}

	void data(size_t i) {
		auto& x = conns[i];
		c.step(fmt("data for %zu", i));
		w.net.datagram({ip("10.0.0.1"), 2222}, 2222, ref::implicitMessage(x.rec.t2oId, 1, {1, 0, 9, 8, 7, 6}), w.net.now());
		// who has this id now
		for (auto& y : conns)
			if (y.open && y.rec.t2oId == x.rec.t2oId) { ++y.expectedReceived; y.last = w.net.now(); }
	}

	void finish() {
		// all the open connections still work, the others do not
		for (size_t i = 0; i < conns.size(); ++i) data(i);
		service();
		verify("after the final data");
		// which close in any case
		for (size_t i = 0; i < conns.size(); ++i) { close(i, false, false); verify("after a final close"); }
		c.equal(m->hasOpenConnections(), false, "open connections at the end");
	}
};

} // namespace

void mc::define(Registry& r) {
	int depth = r.tier(4, 5);
	r.bound(fmt("all histories of up to %d operations: open (standard, large, id chosen and reused by the target, refused, truncated reply, encapsulation error, silence, malformed), close of any connection ever opened (accepted or refused), time-outs, data, holding a connection; longer ones over a smaller alphabet; close requests for boundary vendors, serial numbers, paths and other parameters", depth));
	r.bound("all words of up to 2 kinds of opens, repeated to 320 (thorough 640) connections at once, and in succession beside another one");

	auto history = [](Ctx& c, int depth, bool small) {
		Rig g(c);
		for (int i = 0; i < depth; ++i) {
			int n = static_cast<int>(g.conns.size());
			int opens = small ? 3 : 8;
			int op = c.choose(opens + 2 + 4 * n, "operation");
			if (op < opens) g.open(small ? (op == 2 ? 3 : op == 1 ? 2 : 0) : op);
			else if ((op -= opens) == 0) { c.step("50 ms pass"); g.w.net.advance(50 * MS); g.service(); }
			else if (op == 1) { c.step("200 ms pass"); g.w.net.advance(200 * MS); g.service(); }
			else {
				op -= 2;
				size_t k = op / 4;
				switch (op % 4) {
					case 0: g.close(k, false, false); break;
					case 1: g.close(k, true, false); break;
					case 2: g.w.net.advance(20 * MS); g.data(k); g.service(); break;
					case 3: c.step(fmt("hold %zu", k)); g.conns[k].held = g.conns[k].w.lock(); break;
				}
			}
			g.verify(fmt("after operation %d", i));
		}
		g.finish();
	};
	r.add("histories", [history, depth](Ctx& c) { history(c, depth, false); });
	int deeper = r.tier(5, 6);
	r.add("deeper", [history, deeper](Ctx& c) { history(c, deeper, true); });
	r.add("close through another session", [](Ctx& c) {
		Rig g(c);
		ref::Device& d = g.w.dev;
		g.other = g.w.session(300);
		(void) d;
		g.open(0);
		g.open(1);
		g.open(2);
		size_t a = c.choose(3), b = c.choose(3);
		g.close(a, c.choose(2), true);
		g.verify("after the first close");
		g.close(b, c.choose(2), c.choose(2));
		g.verify("after the second close");
		g.finish();
	});
	r.add("close statuses", [](Ctx& c) {
		// any refusal of the target
		Rig g(c);
		g.open(0);
		g.open(1);
		g.w.closeStatus = 0;
		int status = c.choose(256);
		g.w.dev.onCip = [&](const ref::CipRequest& q) {
			auto r = g.w.cip(q);
			if (q.service == 0x4E) return status ? ref::CipReply::error(status, std::vector<uint16_t>(status % 3, 0x107)) : r;
			return r;
		};
		g.close(c.choose(2), false, false);
		g.verify("after the close");
		g.finish();
	});
	r.add("close requests", [](Ctx& c) {
		// the close names the connection as the open did, whatever its other parameters
		Rig g(c);
		static const std::vector<uint16_t> vendors = {0, 1, 0xff, 0x100, 0xffff};
		static const std::vector<uint32_t> serials = {0, 1, 0xffff, 0x10000, 0x80000000u, 0xffffffffu};
		static const std::vector<size_t> paths = {0, 2, 4, 128, 256, 508, 510};
		int kind = c.choose(2), shape = c.choose(6);
		for (int i = 0; i < 2; ++i) {
			uint16_t vendor = i ? 7 : c.pick(vendors, "vendor");
			uint32_t serial = i ? 0 : c.pick(serials, "serial number");
			size_t path = i ? 6 : c.pick(paths, "path");
			g.tweak = [=](ConnectionParameters& p) {
				p.originatorVendorId = vendor;
				p.originatorSerialNumber = serial;
				p.connectionPath = pattern(path, 9);
				switch (shape) {
					case 1: p.priorityTimeTick = 5; p.timeoutTicks = 0xff; break;
					case 2: p.transportTypeTrigger = 0; break;
					case 3: p.transportTypeTrigger = NetworkConnectionParams::CLASS3; p.o2tRealTimeFormat = p.t2oRealTimeFormat = true; break;
					case 4: p.o2tNetworkConnectionId = 0x11223344; p.connectionSerialNumber = 99; break;
					case 5: p.connectionTimeoutMultiplier = 7; p.o2tRPI = 0xffffffffu; break;
				}
			};
			g.open(kind);
		}
		int first = c.choose(2);
		g.close(first, false, false);
		g.verify("after the first close");
		g.close(!first, false, false);
		g.verify("after the second close");
		g.finish();
	});
	r.add("open statuses", [](Ctx& c) {
		Rig g(c);
		g.open(c.choose(2));
		int status = 1 + c.choose(255), words = c.choose(3), large = c.choose(2);
		c.step(fmt("status %d", status));
		g.w.openStatus = status;
		g.w.openAdditional.assign(words, 0x100 + status);
		IOConnection::WPtr p;
		auto o = attempt([&] { p = g.m->forwardOpen(g.si, g.parameters(large), large); });
		c.check(!o.threw, "a refused open raises: " + o.what);
		c.check(p.expired(), "a refused open returns a connection");
		g.w.openStatus = 0;
		g.verify("after the refused open");
		g.finish();
	});
	r.add("broken off replies", [](Ctx& c) {
		// the reply of an accepting target ends too early, with and without the application's part
		Rig g(c);
		bool first = c.choose(2);
		if (first) g.open(0);
		static const std::vector<int> sizes = {0, 1, 2, 5, 127, 128, 255};
		int large = c.choose(2), words = c.pick(sizes, "words of the application"), tail = 2 * words;
		int cut = c.choose(words > 5 ? 60 : tail + 27, "missing bytes");
		if (words > 5 && cut >= 30) cut += tail - 30;
		c.step(fmt("%d words of the application, %d bytes missing", words, cut));
		g.w.openReplyWords = words;
		g.w.openDropTail = cut;
		Conn x;
		auto p = g.parameters(large);
		auto o = attempt([&] { x.w = g.m->forwardOpen(g.si, p, large); });
		g.w.openReplyWords = g.w.openDropTail = 0;
		// the last byte of the fixed part is reserved
		if (cut > tail + 1) c.check(o.threw, fmt("a reply without its last %d bytes is accepted", cut));
		if (cut == 0) c.check(!o.threw, "a complete reply is refused: " + o.what);
		c.check(o.threw == x.w.expired(), o.threw ? "a connection in spite of an error" : "no connection without an error");
		if (!o.threw) {
			x.rec = g.w.opens.back();
			x.p = p;
			x.last = g.w.net.now();
			x.timeout = Time(4 << p.connectionTimeoutMultiplier) * p.t2oRPI * US;
			x.w.lock()->setReceiveDataListener([n = x.received](auto, auto, auto) { ++*n; });
			x.w.lock()->setCloseListener([n = x.closed] { ++*n; });
			x.w.lock()->setDataToSend({1, 2, 3, 4});
			g.conns.push_back(x);
		}
		g.verify("after the reply");
		if (c.choose(2)) { g.open(0); g.verify("after a further open"); }
		g.finish();
	});
	r.add("broken off addresses", [](Ctx& c) {
		// an accepting target names the address of its data only in part
		Rig g(c);
		bool first = c.choose(2);
		if (first) g.open(0);
		int large = c.choose(2), size = c.choose(17, "bytes of the address"), other = c.choose(3, "other item");
		auto bytes = ref::sockaddrItem(ip("10.0.0.1"), 2222);
		bytes.resize(size);
		g.w.openItems = {{0x8000, bytes}};
		if (other == 1) g.w.openItems.push_back({0x8001, ref::sockaddrItem(ip("239.1.2.3"), 2222)});
		if (other == 2) g.w.openItems.insert(g.w.openItems.begin(), ref::Item{0x8001, ref::sockaddrItem(ip("239.1.2.3"), 2222)});
		Conn x;
		auto p = g.parameters(large);
		auto o = attempt([&] { x.w = g.m->forwardOpen(g.si, p, large); });
		g.w.openItems.clear();
		c.step(fmt("%d bytes of the address", size));
		// the last eight bytes are unused
		if (size < 8) c.check(o.threw, fmt("an address of %d bytes is accepted", size));
		if (size == 16) c.check(!o.threw, "a complete address is refused: " + o.what);
		c.check(o.threw == x.w.expired(), o.threw ? "a connection in spite of an error" : "no connection without an error");
		if (!o.threw) {
			x.rec = g.w.opens.back();
			x.p = p;
			x.last = g.w.net.now();
			x.timeout = Time(4 << p.connectionTimeoutMultiplier) * p.t2oRPI * US;
			x.w.lock()->setReceiveDataListener([n = x.received](auto, auto, auto) { ++*n; });
			x.w.lock()->setCloseListener([n = x.closed] { ++*n; });
			x.w.lock()->setDataToSend({1, 2, 3, 4});
			g.conns.push_back(x);
		}
		g.verify("after the reply");
		if (c.choose(2)) { g.open(0); g.verify("after a further open"); }
		g.finish();
	});
	r.add("failing sockets", [](Ctx& c) {
		Rig g(c);
		int ok = c.choose(2);
		if (ok) g.open(0);
		g.faulty = true;
		g.w.net.faults = F_SOCKET | F_SETUP;
		g.open(c.choose(2));
		g.w.net.faults = 0;
		g.faulty = false;
		g.verify("after an open whose sockets may have failed");
		g.open(0);
		g.verify("after a further open");
		g.finish();
	}, 2);
	r.add("many connections", [](Ctx& c) {
		// 20 connections, closed in various orders
		Rig g(c);
		static const int steps[] = {1, 3, 7, 9, 11, 13, 17, 19};
		int start = c.choose(20), step = steps[c.choose(8)];
		for (int i = 0; i < 20; ++i) g.open(i % 3);
		g.verify("after opening");
		for (int i = 0; i < 20; ++i) {
			g.close((start + i * step) % 20, i % 3 == 0, false);
			g.verify("after a close");
			if (i == 10) { g.open(0); g.verify("after a reopening"); }
		}
		g.finish();
	});
	int many = r.tier(320, 640);
	r.add("many at once", [many](Ctx& c) {
		// as many connections as a program may have at once
		Rig g(c);
		Word word(c, 3, 2);
		for (int i = 0; i < many; ++i) {
			g.open(word[i]);
			if (i < 40 || i % 32 == 0 || i > many - 3) g.verify(fmt("after %d opens", i + 1));
			if (i % 16 == 0) c.alive();
		}
		g.service();
		g.verify("after servicing them");
		for (int i = 0; i < many; ++i) g.data(i);
		g.service();
		g.verify("after data for all of them");
		bool backwards = c.choose(2);
		for (int i = 0; i < many; ++i) {
			g.close(backwards ? many - 1 - i : i, false, false);
			if (i % 16 == 0) { g.verify(fmt("after %d closes", i + 1)); c.alive(); }
		}
		g.verify("at the end");
	});
	r.add("many in succession", [many](Ctx& c) {
		// one opened and closed (or lost) after the other by the same manager, another one stays
		Rig g(c);
		g.open(0);
		Word word(c, 7, 2);
		for (int i = 0; i < many; ++i) {
			int l = word[i];
			size_t k = g.conns.size();
			g.open(l < 3 ? l : l == 3 ? 3 : l == 4 ? 5 : 0);
			if (g.conns.size() > k) {
				g.data(k);
				g.data(0);
				g.service();
				if (l == 5) { g.w.net.advance(200 * MS); g.data(0); g.service(); }
				else g.close(k, l == 6, false);
			}
			if (i < 40 || i % 8 == 0) g.verify(fmt("after round %d", i));
			if (i % 16 == 0) c.alive();
		}
		g.finish();
	});
}
