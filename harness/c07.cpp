// C07: every descriptor is closed exactly once
#include "io.h"
#include "DiscoveryManager.h"
#include "MessageRouter.h"
#include "sockets/TCPSocket.h"
#include "sockets/UDPBoundSocket.h"

using namespace eipScanner;
using namespace sim;

namespace {

constexpr uint32_t ALL = F_RECV_EINTR | F_SEND_PARTIAL | F_SEND_EINTR | F_SELECT_EINTR | F_RECV_RESET | F_SEND_RESET | F_FIN
	| F_CONNECT_EINTR | F_SOCKET | F_SETUP | F_CONNECT | F_SELECT_ERROR | F_UDP_SEND | F_UDP_RECV;

void audit(Ctx& c, Net& n, size_t expectedOpen, const std::string& when) {
	c.check(n.misuse.empty(), n.misuse.empty() ? "" : n.misuse[0]);
	auto fds = n.openFds();
	c.equal(fds.size(), expectedOpen, "open sockets " + when);
	c.equal(n.socketsOpened, n.socketsClosed + fds.size(), "sockets opened minus closed " + when);
	c.obs(fds.size());
	c.state(mix(n.socketsOpened, n.socketsClosed));
}

Bytes identityReply() {
	Bytes item = ref::W().u16(1).raw(ref::sockaddrItem(ip("10.0.0.9"), 44818)).u16(1).u16(2).u16(3).u8(1).u8(2).u16(0).u32(77).shortString("abc").u8(3);
	return ref::encap(ref::LIST_IDENTITY, 0, 0, ref::cpf({{0xC, item}}));
}

} // namespace

void mc::define(Registry& r) {
	int dev = r.tier(2, 3), depth = r.tier(4, 6);
	r.bound(fmt("up to %d failures at any system calls of: connecting, sessions, discovery, bound sockets, opening, servicing and closing connections", dev));
	r.bound("all words of up to 2 of 8 kinds of rounds, repeated to 300 (thorough 1100) rounds");
	r.bound(fmt("all histories of %d operations (open in 6 variants, close, service, time-out, discover, hold, destroy session or manager) without faults, half as long with one fault; the descriptor 0 given to none, the first, second or third socket", depth));

	r.add("tcp socket", [](Ctx& c) {
		World w;
		w.net.failOnMisuse = true;
		w.net.zeroFd = c.choose(2, "descriptor 0 is free");
		w.net.faults = ALL;
		{
			std::unique_ptr<sockets::TCPSocket> s;
			int how = c.choose(3);
			auto o = attempt([&] {
				if (how == 0) s = std::make_unique<sockets::TCPSocket>(sockets::EndPoint("10.0.0.1", 44818), milliseconds(500));
				else if (how == 1) s = std::make_unique<sockets::TCPSocket>(sockets::EndPoint("10.0.0.1", 44818));
				else s = std::make_unique<sockets::TCPSocket>("10.0.0.1", 44818);
			});
			c.step(o.threw ? "failed" : "connected");
			audit(c, w.net, o.threw ? 0 : 1, "after connecting");
			if (!o.threw) {
				s->setRecvTimeout(milliseconds(100));
				attempt([&] { s->Send(pattern(30)); });
				attempt([&] { s->Receive(4); });
				audit(c, w.net, 1, "while the socket exists");
			}
		}
		audit(c, w.net, 0, "at the end");
	}, dev + 1);
	r.add("session", [](Ctx& c) {
		World w;
		w.net.failOnMisuse = true;
		w.net.zeroFd = c.choose(2, "descriptor 0 is free");
		w.net.faults = ALL;
		std::shared_ptr<SessionInfo> si;
		auto o = attempt([&] { si = w.session(300); });
		audit(c, w.net, o.threw ? 0 : 1, "after creating the session");
		if (si) attempt([&] { MessageRouter().sendRequest(si, 0x0e, cip::EPath(1, 1)); });
		audit(c, w.net, o.threw ? 0 : 1, "after the request");
		si.reset();
		audit(c, w.net, 0, "at the end");
	}, dev);
	r.add("udp sockets", [](Ctx& c) {
		World w;
		w.net.failOnMisuse = true;
		w.net.zeroFd = c.choose(2, "descriptor 0 is free");
		w.net.faults = ALL;
		{
			std::unique_ptr<sockets::UDPBoundSocket> a, b;
			auto o = attempt([&] { a = std::make_unique<sockets::UDPBoundSocket>("0.0.0.0", 2222); });
			audit(c, w.net, o.threw ? 0 : 1, "after the first");
			auto o2 = attempt([&] { b = std::make_unique<sockets::UDPBoundSocket>(sockets::EndPoint("10.0.0.1", 2222)); });
			audit(c, w.net, !o.threw + !o2.threw, "after the second");
			std::unique_ptr<sockets::UDPSocket> u;
			auto o3 = attempt([&] { u = std::make_unique<sockets::UDPSocket>("10.0.0.1", 2222); });
			audit(c, w.net, !o.threw + !o2.threw + !o3.threw, "after the third");
			if (u) {
				u->setRecvTimeout(milliseconds(10));
				attempt([&] { u->Send({1, 2, 3}); });
				attempt([&] { u->Receive(10); });
				sockets::EndPoint e("", 0);
				attempt([&] { u->ReceiveFrom(10, e); });
			}
			audit(c, w.net, !o.threw + !o2.threw + !o3.threw, "before the end");
		}
		audit(c, w.net, 0, "at the end");
	}, dev);
	r.add("discovery", [](Ctx& c) {
		World w;
		w.net.failOnMisuse = true;
		w.net.zeroFd = c.choose(2, "descriptor 0 is free");
		w.net.faults = ALL;
		int n = c.choose(3);
		w.net.onDatagram = [&](const Datagram& d) {
			for (int i = 0; i < n; ++i) w.net.datagram({ip("10.0.0.9"), 44818}, d.from.port, i ? Bytes{1, 2, 3} : identityReply(), w.net.now() + 10 * MS);
		};
		DiscoveryManager m("10.0.0.255", 44818, milliseconds(100));
		for (int i = 0; i < 2; ++i) {
			attempt([&] { m.discover(); });
			audit(c, w.net, 0, "after discovering");
		}
	}, dev);
	auto history = [](Ctx& c, int depth, uint32_t faults) {
		IoWorld w;
		w.net.failOnMisuse = true;
		w.net.zeroFd = c.choose(4, "descriptor 0 is free");
		auto si = w.session(300);
		auto m = std::make_unique<ConnectionManager>();
		std::vector<IOConnection::WPtr> all;
		std::vector<IOConnection::SPtr> held;
		w.net.faults = faults;
		bool bound = false, session = true;
		auto alive = [&] { size_t k = 0; for (auto& x : all) k += !x.expired(); return k; };
		auto expected = [&] { return alive() + (session ? 1 : 0) + (bound ? 1 : 0); };
		for (int i = 0; i < depth && m; ++i) {
			int op = c.choose(11, "operation");
			c.step(fmt("operation %d", op));
			if (op <= 5 && session) {
				w.openItems.clear();
				w.openStatus = 0;
				w.openDropTail = 0;
				if (op == 1) w.openItems = {{0x8000, ref::sockaddrItem(ip("10.0.0.7"), 3000)}};
				if (op == 2) w.openItems = {{0x8000, ref::sockaddrItem(0, 2222)}};
				if (op == 3) w.openStatus = 1;
				if (op == 4) w.openDropTail = 5;
				if (op == 5) w.openItems = {{0x8000, Bytes{0, 2, 3}}}; // truncated address
				IOConnection::WPtr p;
				auto o = attempt([&] { p = m->forwardOpen(si, ioParameters(10000, 10000)); });
				if (!faults) c.check(o.threw == (op == 4 || op == 5), "open: " + o.what);
				if (!faults && op <= 2) c.check(!p.expired(), "no connection");
				if (!p.expired()) all.push_back(p);
			} else if (op == 6) {
				if (!all.empty() && session) attempt([&] { m->forwardClose(si, all[c.choose(static_cast<int>(all.size()), "which")]); });
			} else if (op == 7) attempt([&] { m->handleConnections(milliseconds(5)); });
			else if (op == 8) { w.net.advance(SEC); attempt([&] { m->handleConnections(milliseconds(0)); }); }
			else if (op == 9) { if (!all.empty()) if (auto p = all.back().lock()) held.push_back(p); }
			else if (op == 10) {
				if (c.choose(2)) { si.reset(); session = false; }
				else { m.reset(); bound = false; }
			}
			// one bound socket at most, from the first open on
			size_t boundNow = 0;
			for (auto& x : w.net.socks) boundNow += x.second.open && x.second.bound && x.second.local.port == 2222;
			c.check(boundNow <= (m ? 1 : 0), fmt("%zu sockets are bound to the implicit port", boundNow));
			bound = boundNow;
			audit(c, w.net, expected(), fmt("after operation %d", op));
		}
		if (c.choose(2, "destruction order")) { si.reset(); m.reset(); }
		else { m.reset(); si.reset(); }
		held.clear();
		audit(c, w.net, 0, "at the end");
	};
	r.add("history", [history, depth](Ctx& c) { history(c, depth, 0); });
	int fdepth = r.tier(3, 4);
	r.add("history with faults", [history, fdepth](Ctx& c) { history(c, fdepth, ALL); }, r.tier(1, 2));
	r.add("connection with faults", [](Ctx& c) {
		IoWorld w;
		w.net.failOnMisuse = true;
		w.net.zeroFd = c.choose(4, "descriptor 0 is free");
		auto si = w.session(300);
		auto m = std::make_unique<ConnectionManager>();
		w.net.faults = ALL;
		if (c.choose(2)) w.openItems = {{0x8000, ref::sockaddrItem(ip("10.0.0.7"), 3000)}};
		IOConnection::WPtr p;
		size_t before = w.net.openFds().size();
		c.equal(before, size_t(1), "sockets before");
		attempt([&] { p = m->forwardOpen(si, ioParameters(10000, 10000)); });
		if (p.expired()) c.check(w.net.openFds().size() <= 2, "more than the session and the bound socket open after a failed open");
		if (auto q = p.lock()) q->setDataToSend({1, 2, 3, 4});
		if (!w.opens.empty()) w.net.datagram({ip("10.0.0.1"), 2222}, 2222, ref::implicitMessage(w.opens[0].t2oId, 1, {1, 0, 9, 9, 9, 9}), w.net.now() + 2 * MS);
		attempt([&] { m->handleConnections(milliseconds(10)); });
		if (!p.expired()) attempt([&] { m->forwardClose(si, p); });
		if (p.expired()) c.check(w.net.openFds().size() <= 2, "a socket of the closed connection stays open");
		audit(c, w.net, w.net.openFds().size(), "before the destruction");
		m.reset();
		audit(c, w.net, 1, "after the destruction of the manager");
		si.reset();
		audit(c, w.net, 0, "at the end");
	}, dev);
	int many = r.tier(300, 1100);
	r.add("long", [many](Ctx& c) {
		// nothing is left over from any of many rounds
		IoWorld w;
		w.net.failOnMisuse = true;
		w.net.onDatagram = [&](const Datagram& d) { if (d.to.port == 44818) w.net.datagram({ip("10.0.0.9"), 44818}, d.from.port, identityReply(), w.net.now() + MS); };
		auto si = w.session(300);
		auto m = std::make_unique<ConnectionManager>();
		DiscoveryManager disco("10.0.0.255", 44818, milliseconds(5));
		Word word(c, 8, 2);
		bool bound = false;
		std::vector<IOConnection::WPtr> all;
		auto open = [&](uint32_t rpi = 10000) {
			IOConnection::WPtr p;
			attempt([&] { p = m->forwardOpen(si, ioParameters(rpi, rpi)); });
			if (!p.expired()) { all.push_back(p); bound = true; }
			return p;
		};
		for (int i = 0; i < many; ++i) {
			int l = word[i];
			if (l == 0) { auto p = open(); attempt([&] { m->forwardClose(si, p); }); }
			if (l == 1) { open(); w.net.advance(SEC); attempt([&] { m->handleConnections(milliseconds(0)); }); }
			if (l == 2) attempt([&] { disco.discover(); });
			if (l == 3) { w.openStatus = 1; open(); w.openStatus = 0; }
			if (l == 4) { w.openDropTail = 5; open(); w.openDropTail = 0; bound = true; }
			if (l == 5) { auto other = w.session(300); attempt([&] { MessageRouter().sendRequest(other, 0x0e, cip::EPath(1, 1)); }); }
			if (l == 6) { m = std::make_unique<ConnectionManager>(); bound = false; open(); }
			if (l == 7) { w.net.connecting = Connecting::REFUSED_LATER; attempt([&] { w.session(300); }); w.net.connecting = Connecting::IN_PROGRESS; }
			all.erase(std::remove_if(all.begin(), all.end(), [](auto& x) { return x.expired(); }), all.end());
			size_t boundNow = 0;
			for (auto& x : w.net.socks) boundNow += x.second.open && x.second.bound && x.second.local.port == 2222;
			c.check(boundNow <= 1, "several sockets are bound to the implicit port");
			audit(c, w.net, 1 + boundNow + all.size(), fmt("after round %d", i));
			if (i % 16 == 0) { c.alive(); c.step(fmt("round %d", i)); }
		}
		m.reset();
		audit(c, w.net, 1, "after the destruction of the manager");
		si.reset();
		audit(c, w.net, 0, "at the end");
	});
}
