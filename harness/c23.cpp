// C23: waiting on sockets
#include "common.h"
#include "sockets/BaseSocket.h"
#include "sockets/UDPBoundSocket.h"
#include "sockets/TCPSocket.h"

using namespace eipScanner;
using namespace sim;
using sockets::BaseSocket;
using sockets::EndPoint;
using sockets::UDPBoundSocket;

namespace {

struct Rig {
	Ctx& c;
	World w;
	struct Message { Time at; Bytes data; bool served = false; };
	struct Socket { BaseSocket::SPtr s; std::vector<Message> messages; size_t next = 0; int calls = 0; std::map<size_t, int> overtaken; };
	std::vector<Socket> sockets;
	std::vector<BaseSocket::SPtr> waited;
	Time handlerTime = 0, start = 0, lastHandler = 0;
	int wakes = 0;
	std::function<void(size_t)> inHandler;
	bool checkTimes = true;

	explicit Rig(Ctx& ctx) : c(ctx) {}
	void add(bool waitedFor = true) {
		size_t k = sockets.size();
		Socket x;
		auto s = std::make_shared<UDPBoundSocket>(EndPoint("0.0.0.0", static_cast<int>(3000 + k)));
		x.s = s;
		x.s->setBeginReceiveHandler([this, k](BaseSocket& b) { handle(k, b); });
		sockets.push_back(x);
		if (waitedFor) waited.push_back(x.s);
	}
	void handle(size_t k, BaseSocket& b) {
		auto& x = sockets[k];
		++x.calls;
		++wakes;
		c.check(&b == x.s.get(), "the handler gets another socket");
		if (x.next >= x.messages.size() || x.messages[x.next].at > w.net.now()) c.fail(fmt("the handler of socket %zu is called without data", k));
		auto& m = x.messages[x.next++];
		m.served = true;
		x.overtaken.clear();
		for (size_t j = 0; j < sockets.size(); ++j) {
			auto& y = sockets[j];
			if (j == k || y.next >= y.messages.size() || y.messages[y.next].at > w.net.now()) continue;
			if (std::find(waited.begin(), waited.end(), y.s) == waited.end()) continue;
			if (++y.overtaken[k] > 2) c.fail(fmt("socket %zu is served again and again while data of socket %zu is waiting", k, j));
		}
		c.step(fmt("socket %zu", k));
		if (checkTimes && handlerTime == 0) c.equal(w.net.now(), std::max(m.at, start), "time of the service");
		c.equal(b.Receive(1000), m.data, "received data");
		c.obs(mix(k, w.net.now() - start));
		if (handlerTime) w.net.advance(handlerTime);
		lastHandler = w.net.now();
		if (inHandler) inHandler(k);
	}
	void arrive(size_t k, Time delay) {
		Bytes d = {static_cast<uint8_t>(k), static_cast<uint8_t>(sockets[k].messages.size())};
		w.net.datagram({ip("10.0.0.1"), 9}, static_cast<uint16_t>(3000 + k), d, w.net.now() + delay);
		auto& v = sockets[k].messages;
		Message m{w.net.now() + delay, d};
		// the served ones are before
		v.insert(std::upper_bound(v.begin() + sockets[k].next, v.end(), m, [](auto& a, auto& b) { return a.at < b.at; }), m);
	}
	Outcome wait(int ms) {
		start = w.net.now();
		lastHandler = start;
		wakes = 0;
		auto o = attempt([&] { BaseSocket::select(waited, milliseconds(ms)); });
		c.step(fmt("select %d ms ends after %lld us", ms, (long long) (w.net.now() - start) / US) + (o.threw ? " raises " + o.what : ""));
		return o;
	}
	void verify(int ms) {
		auto o = wait(ms);
		if (o.threw) c.fail("the waiting raises " + o.what);
		ended(ms);
	}
	void ended(int ms) {
		Time end = start + ms * MS, now = w.net.now();
		bool woken = wakes || w.net.interrupts;
		if (now < end - (woken ? MS - 1 : 0)) c.fail(fmt("the waiting ends %lld us too early", (long long) (end - now) / US));
		if (now > std::max(end, lastHandler) + (woken ? MS - 1 : 0)) c.fail(fmt("the waiting ends %lld us too late", (long long) (now - end) / US));
		for (size_t k = 0; k < sockets.size(); ++k) {
			bool in = std::find(waited.begin(), waited.end(), sockets[k].s) != waited.end();
			for (auto& m : sockets[k].messages) {
				if (m.served && !in) c.fail(fmt("socket %zu is not waited for", k));
				if (!m.served && in && m.at <= std::max(start, end - MS)) c.fail(fmt("data of socket %zu after %lld us is not served", k, (long long) (m.at - start) / US));
			}
			c.compared();
			c.state(mix(k, mix(sockets[k].next, mix(sockets[k].messages.size(), now - start))));
		}
	}
};

} // namespace

void mc::define(Registry& r) {
	int depth = r.tier(4, 5);
	r.bound(fmt("up to 3 sockets, all assignments of up to %d datagrams to sockets and arrival times (before, during, at and after the waiting), timeouts of 0 to 5 ms, handlers which take 0, 0.3 or 3 ms", depth));
	r.bound("4 to 300 sockets in one wait, each of them ready alone or all of them; all words of up to 3 of 5 arrivals, repeated to 320 (thorough 1100) waits");
	r.bound("up to 3 interrupts at every call in every position, a failing call at every position, a raising handler at every call, timeouts around whole seconds");

	r.add("arrivals", [depth](Ctx& c) {
		Rig g(c);
		static const std::vector<Time> times = {0, 1500 * US, 3 * MS, 4500 * US, 5 * MS + 500 * US};
		int n = c.choose(4, "sockets"), k = n ? c.choose(depth + 1, "datagrams") : 0;
		for (int i = 0; i < n; ++i) g.add();
		for (int i = 0; i < k; ++i) g.arrive(c.choose(n, "socket"), c.pick(times, "arrival"));
		g.verify(5);
		g.verify(2);
	});
	r.add("slow handlers", [](Ctx& c) {
		Rig g(c);
		static const std::vector<Time> times = {0, 700 * US, 2 * MS, 3900 * US}, takes = {300 * US, 3 * MS, 20 * MS};
		g.handlerTime = c.pick(takes);
		int n = 1 + c.choose(2), k = c.choose(5);
		for (int i = 0; i < n; ++i) g.add();
		for (int i = 0; i < k; ++i) g.arrive(c.choose(n), c.pick(times));
		g.verify(5);
		g.verify(5);
	});
	r.add("bursts", [](Ctx& c) {
		// many waiting datagrams are all served, also with a timeout of 0
		Rig g(c);
		int n = 1 + c.choose(3), k = c.choose(60), ms = c.choose(2) * 5;
		for (int i = 0; i < n; ++i) g.add();
		for (int i = 0; i < k; ++i) g.arrive(i % n, 0);
		int more = c.choose(3);
		for (int i = 0; i < more; ++i) g.arrive(i % n, 2 * MS);
		g.verify(ms);
		if (!ms && more) g.verify(5);
	});
	r.add("others", [](Ctx& c) {
		// sockets which are not in the set
		Rig g(c);
		for (int i = 0; i < 3; ++i) g.add(c.choose(2));
		for (int i = 0; i < 3; ++i) { if (c.choose(2)) g.arrive(i, 0); if (c.choose(2)) g.arrive(i, MS); }
		g.verify(5);
		g.waited.clear();
		for (auto& s : g.sockets) g.waited.push_back(s.s);
		g.checkTimes = false;
		g.verify(0);
	});
	r.add("timeouts", [](Ctx& c) {
		Rig g(c);
		static const std::vector<int> ms = {0, 1, 2, 10, 500, 998, 999, 1000, 1001, 1500, 1999, 2000, 2001, 60000, 3600000};
		int t = c.pick(ms), n = c.choose(3);
		for (int i = 0; i < n; ++i) g.add();
		static const std::vector<int> parts = {-1, 0, 25, 50, 75, 99};
		int at = c.pick(parts);
		if (n && at >= 0) g.arrive(n - 1, t * MS / 100 * at);
		g.w.net.advance(c.choose(2) * 999999 * US);
		g.checkTimes = false;
		g.verify(t);
		g.verify(t);
	});
	r.add("repeated", [](Ctx& c) {
		// waiting again and again with pauses
		Rig g(c);
		g.add();
		g.add();
		for (int i = 0; i < 3; ++i) {
			for (int k = 0; k < 2; ++k) if (c.choose(2)) g.arrive(k, c.choose(2) * 4500 * US);
			if (c.choose(2)) g.w.net.advance(2 * MS);
			g.checkTimes = false;
			g.verify(c.choose(2) * 5);
		}
	});
	r.add("interrupts", [](Ctx& c) {
		Rig g(c);
		g.w.net.faults = F_SELECT_EINTR | F_RECV_EINTR;
		static const std::vector<Time> times = {0, 1500 * US, 3 * MS};
		int n = c.choose(3), k = n ? c.choose(3) : 0;
		for (int i = 0; i < n; ++i) g.add();
		for (int i = 0; i < k; ++i) g.arrive(c.choose(n), c.pick(times));
		g.verify(5);
	}, 3);
	r.add("errors", [](Ctx& c) {
		Rig g(c);
		static const std::vector<Time> times = {0, 1500 * US, 3 * MS};
		int n = c.choose(3), k = n ? c.choose(3) : 0;
		for (int i = 0; i < n; ++i) g.add();
		for (int i = 0; i < k; ++i) g.arrive(c.choose(n), c.pick(times));
		g.w.net.faults = F_SELECT_ERROR;
		auto o = g.wait(5);
		g.w.net.faults = 0;
		bool failed = c.deviations() > 0;
		c.equal(o.threw, failed, "the error is raised");
		if (failed) {
			c.equal(o.type, std::string("std::system_error"), "kind of the exception");
			c.equal(o.code, ENOMEM, "code of the exception");
			g.checkTimes = false;
			g.verify(5);
		} else g.ended(5);
	}, 1);
	r.add("raising handlers", [](Ctx& c) {
		Rig g(c);
		int n = 1 + c.choose(2), k = 1 + c.choose(4), at = c.choose(k), calls = 0;
		for (int i = 0; i < n; ++i) g.add();
		for (int i = 0; i < k; ++i) g.arrive(c.choose(n), c.choose(2) * MS);
		g.inHandler = [&](size_t) { if (calls++ == at) throw std::runtime_error("of the handler"); };
		auto o = g.wait(5);
		c.check(o.threw && o.what == "of the handler", "the exception of the handler is lost");
		c.equal(calls, at + 1, "calls until the exception");
		g.checkTimes = false;
		g.verify(5);
		c.equal(calls, k, "all the calls");
	});
	r.add("arrivals during handlers", [](Ctx& c) {
		// data which arrives while a handler runs, for the same or another socket
		Rig g(c);
		g.add();
		g.add();
		g.add();
		g.checkTimes = false;
		int left = 3;
		g.inHandler = [&](size_t) { if (left > 0 && --left >= 0) g.arrive(c.choose(3), c.choose(2) * MS); };
		g.arrive(c.choose(3), 0);
		g.verify(5);
		for (auto& s : g.sockets) c.equal(s.next, s.messages.size(), "served datagrams");
	});
	r.add("busy sockets", [](Ctx& c) {
		// a socket whose data does not end does not keep the others from being served
		Rig g(c);
		int n = 2 + c.choose(2), busy = c.choose(n), left = 8;
		Time later = c.choose(2) * 100 * US;
		for (int i = 0; i < n; ++i) { g.add(); if (i == busy || c.choose(2)) g.arrive(i, 0); }
		g.handlerTime = c.choose(2) * 400 * US;
		g.checkTimes = false;
		g.inHandler = [&](size_t k) { if (static_cast<int>(k) == busy && left-- > 0) g.arrive(k, later); };
		g.verify(5);
		if (!later) for (auto& s : g.sockets) c.equal(s.next, s.messages.size(), "served datagrams");
	});
	r.add("streams", [](Ctx& c) {
		// TCP and UDP sockets together
		struct Peer : TcpPeer { std::vector<Time> pushes; void onConnect(Stream& s) override { for (auto t : pushes) s.push({7, 8, 9}, t); } } peer;
		Rig g(c);
		static const std::vector<Time> times = {2 * MS, 4 * MS, 20 * MS};
		int n = c.choose(3);
		Time before = 0;
		for (int i = 0; i < n; ++i) peer.pushes.push_back(before = std::max(before, c.pick(times)));
		g.w.net.listeners[{ip("10.0.0.7"), 5000}] = &peer;
		auto tcp = std::make_shared<sockets::TCPSocket>(EndPoint("10.0.0.7", 5000), milliseconds(1000));
		Time base = g.w.net.streams.back()->connectedAt;
		size_t served = 0;
		tcp->setBeginReceiveHandler([&](BaseSocket& b) {
			if (served >= peer.pushes.size() || base + peer.pushes[served] > g.w.net.now()) c.fail("the handler of the stream is called without data");
			++served;
			++g.wakes;
			c.equal(b.Receive(3), Bytes{7, 8, 9}, "received data");
		});
		g.add();
		g.waited.insert(g.waited.begin() + c.choose(2), tcp);
		if (c.choose(2)) g.arrive(0, 2 * MS);
		if (c.choose(2)) g.arrive(0, 0);
		g.verify(10);
		size_t expected = 0;
		for (auto t : peer.pushes) expected += base + t <= g.start + 9 * MS;
		c.equal(served, expected, "services of the stream");
	});
	int many = r.tier(70, 300);
	r.add("many sockets", [many](Ctx& c) {
		// each of the sockets is served, however many there are
		Rig g(c);
		static const std::vector<int> counts = {4, 5, 8, 16, 17, 32, 33, 64, 65, 300};
		int n = c.pick(counts);
		for (int i = 0; i < n; ++i) g.add();
		int all = c.choose(3), k = c.choose(std::min(n, many));
		if (n > many) k = k * n / many;
		if (all) for (int i = 0; i < n; ++i) g.arrive((i + k) % n, all == 2 ? (i % 5) * MS : 0);
		else g.arrive(k, MS);
		g.verify(10);
		for (auto& s : g.sockets) c.equal(s.next, s.messages.size(), "served datagrams");
	});
	int rounds = r.tier(320, 1100);
	r.add("long", [rounds](Ctx& c) {
		// waiting for the same sockets again and again
		Rig g(c);
		for (int i = 0; i < 3; ++i) g.add();
		Word word(c, 5, 3);
		for (int i = 0; i < rounds; ++i) {
			int l = word[i];
			if (l < 3) g.arrive(l, 0);
			if (l == 3) { g.arrive(0, 500 * US); g.arrive(2, 500 * US); }
			g.verify(l == 4 ? 0 : 2);
			for (auto& s : g.sockets) { c.equal(s.next, s.messages.size(), "served datagrams"); s.messages.clear(); s.next = 0; }
			if (i % 64 == 0) c.alive();
		}
	});
}
