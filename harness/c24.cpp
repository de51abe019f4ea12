// C24: listeners open and close connections
#include "io.h"

using namespace eipScanner;
using namespace sim;

namespace {

struct Rig {
	struct Conn {
		OpenRecord rec;
		IOConnection::WPtr w;
		IOConnection::SPtr held;
		bool open = true, closing = false; // closing: its close listener runs
		Time last = 0, produced = 0;
		int received = 0, sent = 0, closed = 0;
		int thisRound = 0; // calls of the send listener
		bool maySend = false, mustSend = false;
	};
	struct Waiting { uint32_t id; Bytes payload; };

	Ctx& c;
	IoWorld w;
	std::shared_ptr<SessionInfo> si;
	ConnectionManager m;
	std::vector<std::unique_ptr<Conn>> conns;
	std::deque<Waiting> waiting;
	bool ticking = false, enabled = true, multicast = false, closedElsewhere = false;
	int maxConns = 6;
	size_t sentBefore = 0;
	uint8_t mark = 0;
	Time t2oTimeout = 40 * MS, interval = 10 * MS;

	explicit Rig(Ctx& ctx) : c(ctx), si(w.session(300)) {}

	Conn* owner(uint32_t id) {
		for (auto& x : conns) if (x->open && x->rec.t2oId == id) return x.get();
		return nullptr;
	}
	size_t index(Conn* x) { for (size_t i = 0; i < conns.size(); ++i) if (conns[i].get() == x) return i; return 99; }

	// -- the listeners
	void listen(Conn* x) {
		auto io = x->w.lock();
		// captures which are on the heap with the listener
		std::vector<int> big(20, static_cast<int>(index(x)));
		io->setReceiveDataListener([this, x, big](auto header, auto seq, const std::vector<uint8_t>& data) {
			c.step(fmt("receive listener of %zu", index(x)));
			c.check(x->open, fmt("the closed connection %zu receives data", index(x)));
			c.check(!ticking, "data is received after the productions");
			while (!waiting.empty() && !owner(waiting.front().id)) waiting.pop_front();
			c.check(!waiting.empty() && owner(waiting.front().id) == x, fmt("connection %zu receives data which is not for it", index(x)));
			Bytes expected(waiting.front().payload.begin() + 2, waiting.front().payload.end());
			c.equal(data, expected, "received data");
			waiting.pop_front();
			x->last = w.net.now();
			++x->received;
			act(x, 0);
			c.check(data == expected && big == std::vector<int>(20, static_cast<int>(index(x))), "the data of the listener has changed");
			(void) header; (void) seq;
		});
		io->setSendDataListener([this, x, big](std::vector<uint8_t>& data) {
			c.step(fmt("send listener of %zu", index(x)));
			startTicks();
			c.check(x->open, fmt("the closed connection %zu produces data", index(x)));
			c.check(w.net.now() - x->produced >= interval, fmt("connection %zu produces too early", index(x)));
			c.check(++x->thisRound == 1, fmt("connection %zu produces twice", index(x)));
			x->produced = w.net.now();
			x->maySend = x->mustSend = true;
			++x->sent;
			data = {static_cast<uint8_t>(index(x)), 1, 2, 3};
			act(x, 1);
			if (!x->open) x->mustSend = false;
			else c.equal(data, Bytes{static_cast<uint8_t>(index(x)), 1, 2, 3}, "data of the send listener");
			c.check(big == std::vector<int>(20, static_cast<int>(index(x))), "the data of the listener has changed");
		});
		io->setCloseListener([this, x, big] {
			c.step(fmt("close listener of %zu", index(x)));
			startTicks();
			c.check(x->open, fmt("the closed connection %zu is closed again", index(x)));
			c.check(w.net.now() - x->last > t2oTimeout, fmt("connection %zu is closed too early", index(x)));
			x->open = false;
			x->closing = true;
			++x->closed;
			c.equal(x->closed, 1, "close notifications");
			act(x, 2);
			x->closing = false;
			c.check(big == std::vector<int>(20, static_cast<int>(index(x))), "the data of the listener has changed");
		});
		io->setDataToSend({9, 9, 9, 9});
	}
	/// what has arrived must have been received when the productions begin
	void startTicks() {
		if (ticking) return;
		ticking = true;
		delivered();
	}
	void delivered() {
		while (!waiting.empty() && !owner(waiting.front().id)) waiting.pop_front();
		if (!waiting.empty()) c.fail(fmt("data for connection %zu is not received", index(owner(waiting.front().id))));
	}

	/// What a listener of x does
	void act(Conn* x, int kind) {
		if (!enabled) return;
		int n = static_cast<int>(conns.size());
		// 0 nothing, 1.. close k, then open: new, with the id of a closed one, refused, failing, large; hold, send data
		int op = c.deviate(1 + n + 8, "action");
		if (op == 0) return;
		--op;
		if (op < n) { close(op); observe(); return; }
		op -= n;
		switch (op) {
			case 0: open(0); break;
			case 1: open(1); break;
			case 2: open(2); break;
			case 3: open(3); break;
			case 4: open(4); break;
			case 5: c.step("hold itself"); x->held = x->w.lock(); break;
			case 6: { // replace itself
				size_t i = index(x);
				close(i);
				open(1);
				break;
			}
			case 7: for (size_t i = 0; i < size_t(n); ++i) close(i); open(0); break;
		}
		observe();
		(void) kind;
	}
	void observe() {
		bool any = false, unsure = false;
		for (auto& x : conns) { any = any || x->open; unsure = unsure || x->closing; }
		if (any || !unsure) c.equal(m.hasOpenConnections(), any, "open connections are reported within a listener");
	}

	void open(int kind) {
		if (static_cast<int>(conns.size()) >= maxConns) return;
		c.step(fmt("open, kind %d", kind));
		auto p = ioParameters(interval / US, t2oTimeout / 4 / US);
		p.originatorSerialNumber = conns.size();
		w.t2oOverride = 0;
		if (kind == 1 || multicast) {
			// the id is chosen by the target: that of a connection which is closed, if there is one
			p.t2oNetworkConnectionParams = (p.t2oNetworkConnectionParams & ~0x6000u) | NetworkConnectionParams::MULTICAST;
			w.t2oOverride = 0x99000001;
			for (auto& x : conns) if (!x->open) w.t2oOverride = x->rec.t2oId;
			if (owner(w.t2oOverride)) w.t2oOverride = 0x99000001;
			while (owner(w.t2oOverride)) ++w.t2oOverride;
		}
		if (kind == 4) {
			p.o2tNetworkConnectionParams = (p.o2tNetworkConnectionParams & 0xfe00) << 16 | 4;
			p.t2oNetworkConnectionParams = (p.t2oNetworkConnectionParams & 0xfe00) << 16 | 4;
		}
		w.openStatus = kind == 2 ? 1 : 0;
		w.openDropTail = kind == 3 ? 5 : 0;
		IOConnection::WPtr r;
		size_t before = w.opens.size();
		auto o = attempt([&] { r = m.forwardOpen(si, p, kind == 4); });
		w.openStatus = 0;
		w.openDropTail = 0;
		c.equal(w.opens.size(), before + 1, "open requests");
		c.check(o.threw == (kind == 3), o.threw ? "opening raises " + o.what : "the failing open raises nothing");
		bool ok = kind != 2 && kind != 3;
		c.check(r.expired() == !ok, ok ? "the accepted open gives no connection" : "the refused open gives a connection");
		if (!ok) return;
		auto x = std::make_unique<Conn>();
		x->rec = w.opens.back();
		x->w = r;
		x->last = x->produced = w.net.now();
		conns.push_back(std::move(x));
		listen(conns.back().get());
	}

	void close(size_t i) {
		auto& x = *conns[i];
		c.step(fmt("close %zu (%s)", i, x.open ? "open" : x.closing ? "closing" : x.held ? "held" : "gone"));
		size_t before = w.closes.size();
		auto o = attempt([&] { m.forwardClose(si, x.w); });
		c.check(!o.threw, "closing raises " + o.what);
		if (x.open) {
			c.equal(w.closes.size(), before + 1, "close requests");
			c.equal(w.closes.back().fc.serial, x.rec.fo.serial, "serial number of the close request");
			c.equal(w.closes.back().fc.originatorSerial, x.rec.fo.originatorSerial, "originator serial number of the close request");
		}
		else c.check(w.closes.size() <= before + 1, "too many close requests");
		x.open = false;
	}

	void data(size_t i) {
		Bytes payload = {mark, 0, ++mark, 1, 2, 3};
		w.net.datagram({ip("10.0.0.1"), 2222}, 2222, ref::implicitMessage(conns[i]->rec.t2oId, mark, payload), w.net.now());
		waiting.push_back({conns[i]->rec.t2oId, payload});
	}

	void service() {
		ticking = false;
		sentBefore = w.net.sent.size();
		for (auto& x : conns) { x->thisRound = 0; x->maySend = x->mustSend = false; }
		std::vector<Conn*> due, late;
		auto o = attempt([&] { m.handleConnections(milliseconds(0)); });
		c.check(!o.threw, "servicing raises " + o.what);
		delivered();
		// everything which was due is done
		for (auto& x : conns) {
			if (!x->open) continue;
			c.check(w.net.now() - x->last <= t2oTimeout, fmt("connection %zu is not closed", index(x.get())));
			c.check(w.net.now() - x->produced < interval, fmt("connection %zu does not produce", index(x.get())));
		}
		std::map<uint32_t, int> counts;
		for (size_t i = sentBefore; i < w.net.sent.size(); ++i) {
			auto& d = w.net.sent[i].data;
			std::vector<ref::Item> items;
			c.check(ref::parseCpf(d, items) && items.size() == 2 && items[0].data.size() == 8, "malformed message");
			ref::R r(items[0].data);
			uint32_t id = r.u32();
			++counts[id];
			Conn* x = nullptr;
			for (auto& y : conns) if (y->rec.o2tId == id) x = y.get();
			c.check(x && x->maySend, "a message for a connection which has not produced");
			c.equal(Bytes(items[1].data.begin() + 2, items[1].data.end()), Bytes{static_cast<uint8_t>(index(x)), 1, 2, 3}, "sent data");
		}
		for (auto& x : conns) {
			int n = counts[x->rec.o2tId];
			c.check(x->mustSend ? n == 1 : n <= (x->maySend ? 1 : 0), fmt("connection %zu sends %d messages", index(x.get()), n));
		}
		verify("after servicing");
	}

	void verify(const std::string& when) {
		bool any = false;
		uint64_t h = 3;
		for (auto& x : conns) {
			any = any || x->open;
			if (x->open) c.check(!x->w.expired(), fmt("connection %zu is gone ", index(x.get())) + when);
			else if (!x->held) c.check(x->w.expired(), fmt("connection %zu still exists ", index(x.get())) + when);
			h = mix(h, mix(x->open + 2 * !!x->held, mix(x->received, mix(x->sent, x->closed))));
		}
		c.equal(m.hasOpenConnections(), any, "open connections are reported " + when);
		c.state(h);
		c.obs(h);
		for (auto& p : w.dev.problems) c.fail("the device received a wrong message: " + p);
		for (auto& p : w.net.misuse) c.fail(p);
	}

	void finish() {
		enabled = false;
		for (int i = 0; i < 2; ++i) {
			w.net.advance(15 * MS);
			for (size_t k = 0; k < conns.size(); ++k) if (conns[k]->open) data(k);
			service();
		}
		size_t opens = 0;
		for (auto& x : conns) opens += x->open || x->held;
		// one for each connection, the one which receives and that of the session
		c.check(w.net.openFds().size() <= opens + 2, "sockets of closed connections are open");
		for (size_t k = 0; k < conns.size(); ++k) close(k);
		for (auto& x : conns) x->held.reset();
		verify("at the end");
		w.net.advance(100 * MS);
		service();
	}
};

} // namespace

void mc::define(Registry& r) {
	int actions = r.tier(2, 3);
	r.bound(fmt("2 to 3 connections which receive, produce and time out in several rounds; up to %d actions at any listener calls: close any connection (also itself or one that is gone), open (new, with the id of a closed connection, refused, truncated, large), hold, replace itself, close all and open", actions));

	auto all = [](Ctx& c, int n, int modes) {
		Rig g(c);
		// 0 data in both rounds, 1 none: times out in the second, 2 in the first only
		std::vector<int> mode{0};
		for (int i = 1; i < n; ++i) mode.push_back(c.choose(modes));
		g.w.closeStatus = modes > 2 && c.choose(2);
		for (int i = 0; i < n; ++i) g.open(0);
		g.w.net.advance(20 * MS);
		for (int i = 0; i < n; ++i) if (mode[i] != 1) g.data(i);
		g.service();
		g.w.net.advance(25 * MS);
		g.data(0);
		for (int i = 1; i < n; ++i) if (mode[i] == 0) g.data(i);
		g.data(0);
		g.service();
		g.finish();
	};
	r.add("two connections", [all](Ctx& c) { all(c, 2, 3); }, actions);
	int modes = r.tier(2, 3);
	r.add("three connections", [all, modes](Ctx& c) { all(c, 3, modes); }, 2);
	r.add("ids chosen by the target", [](Ctx& c) {
		// connections with ids that the target reuses
		Rig g(c);
		g.multicast = true;
		int n = 1 + c.choose(2), first = c.choose(2);
		for (int i = 0; i < n; ++i) g.open(0);
		g.w.net.advance(20 * MS);
		if (first) for (int i = 0; i < n; ++i) g.data(i);
		g.service();
		g.w.net.advance(25 * MS);
		g.data(0);
		g.data(0);
		g.service();
		g.w.net.advance(30 * MS);
		g.service();
		g.finish();
	}, actions);
	r.add("all time out", [](Ctx& c) {
		// at the same service call, the first listener may close the others
		Rig g(c);
		g.maxConns = 8;
		int n = 2 + c.choose(2);
		for (int i = 0; i < n; ++i) g.open(c.choose(2));
		g.w.net.advance(50 * MS);
		if (c.choose(2)) g.data(c.choose(n));
		g.service();
		g.w.net.advance(50 * MS);
		g.service();
		g.finish();
	}, actions);
	r.add("one round, more actions", [](Ctx& c) {
		Rig g(c);
		for (int i = 0; i < 2; ++i) g.open(0);
		g.w.net.advance(15 * MS);
		for (int i = 0; i < 2; ++i) g.data(i);
		g.service();
		g.finish();
	}, actions + 1);
}
