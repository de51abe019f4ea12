// C27: failures of the transport are reported with the error of the system
#include "io.h"
#include "DiscoveryManager.h"
#include "FileObject.h"
#include "IdentityObject.h"
#include "ParameterObject.h"
#include "MessageRouter.h"
#include "sockets/TCPSocket.h"
#include "sockets/UDPBoundSocket.h"
#include <cerrno>
#include <system_error>

using namespace eipScanner;
using namespace sim;
using sockets::EndPoint;
using sockets::TCPSocket;
using sockets::UDPSocket;
using sockets::UDPBoundSocket;

namespace {

/// The messages of the library must not replace the errors
struct Disturbing : utils::LogAppenderIf { void print(utils::LogLevel, const std::string&) override { errno = EDOM; } };

struct Result {
	bool threw = false, system = false;
	int code = 0;
	bool generic = false;
	std::string what;
};

Result run(const std::function<void()>& f) {
	Result r;
	auto o = attempt([&] {
		try { f(); }
		catch (const std::system_error& e) {
			r.system = true;
			r.code = e.code().value();
			r.generic = e.code().category() == std::generic_category() || e.code().category() == std::system_category();
			throw;
		}
	});
	r.threw = o.threw;
	r.what = o.what;
	return r;
}

struct Rig {
	Ctx& c;
	IoWorld w;
	explicit Rig(Ctx& ctx) : c(ctx) {}

	/// One operation. silence: it waited for the whole timeout (then that code is right as well)
	Result op(const std::string& name, const std::function<void()>& f, std::vector<int> others = {}, bool refused = false, bool mayEnd = false) {
		size_t before = w.net.errors.size();
		auto r = run(f);
		c.step(name + (r.threw ? r.system ? fmt(" raises the error %d: ", r.code) + r.what : " raises " + r.what : " ends"));
		int last = 0;
		bool must = false;
		for (size_t i = before; i < w.net.errors.size(); ++i) {
			auto& e = w.net.errors[i];
			std::string call = e.call;
			if (call == "shutdown" || call == "close") continue;
			c.note(fmt("    the error %d of ", e.code) + call);
			last = e.code;
			if (call == "fcntl" || call == "setsockopt" || call == "getsockopt") others.push_back(e.code);
			else if (!mayEnd) must = true;
		}
		if (last) {
			if (must) c.check(r.threw, name + fmt(" hides the error %d of a system call", last));
			if (r.threw) {
				c.check(r.system, name + fmt(" does not report the error %d of a system call but: ", last) + r.what);
				bool known = r.code == last;
				for (int o : others) known = known || r.code == o;
				c.check(known, name + fmt(" reports the error %d instead of %d", r.code, last));
			}
		} else if (r.threw && r.system) {
			bool known = false;
			for (int o : others) known = known || r.code == o;
			c.check(known, name + fmt(" reports the error %d, which no system call has", r.code));
		} else if (r.threw) c.check(refused, name + " raises without an error: " + r.what);
		if (r.system) c.check(r.generic, name + " reports an error of an unknown category");
		c.obs(mix(r.threw, mix(r.system, r.code)));
		c.state(mix(mc::hash(name), mix(r.threw, r.code)));
		return r;
	}
	void must(const Result& r, int code, const std::string& what) {
		c.check(r.threw, what + " is not reported");
		c.check(r.system, what + " is not reported as an error of the system but: " + r.what);
		c.equal(r.code, code, "error of " + what);
	}
	void mustNot(const Result& r, const std::string& what) {
		c.check(r.threw, what + " is not reported");
		c.check(!r.system, what + fmt(" is reported as the error %d of the system", r.code));
	}
};

constexpr uint32_t TCP_FAULTS = F_RECV_SHORT | F_RECV_EINTR | F_RECV_RESET | F_SEND_PARTIAL | F_SEND_EINTR | F_SEND_RESET | F_SELECT_EINTR | F_SELECT_ERROR | F_SOCKET | F_SETUP | F_CONNECT | F_CONNECT_EINTR | F_FIN;
constexpr uint32_t UDP_FAULTS = F_UDP_RECV | F_UDP_SEND | F_SOCKET | F_SETUP | F_RECV_EINTR;

} // namespace

void mc::define(Registry& r) {
	int devs = r.tier(2, 3);
	World::logLevel = utils::LogLevel::TRACE;
	utils::Logger::setAppender(std::make_unique<Disturbing>());
	r.bound(fmt("every failing system call with every error of the simulation, up to %d deviations (failing, interrupted, partial calls), in: creating a session, exchanges, reading objects, uploads, discovery, opening and closing implicit connections, the sockets used directly", devs));

	r.add("session", [](Ctx& c) {
		Rig g(c);
		g.w.net.faults = TCP_FAULTS;
		g.w.dev.onCip = [](const ref::CipRequest& q) { return ref::CipReply(q.data); };
		std::shared_ptr<SessionInfo> si;
		// the end of the stream is reported as ECONNRESET, silence as ETIMEDOUT
		g.op("creating the session", [&] { si = g.w.session(); }, {ECONNRESET, ETIMEDOUT});
		for (int i = 0; i < 2 && si; ++i) {
			auto r = g.op("the exchange", [&] { MessageRouter().sendRequest(si, 0x0e, cip::EPath(1, 1, 7), Bytes{1, 2, 3}); }, {ECONNRESET});
			if (r.threw) break;
		}
		auto r = g.op("destroying the session", [&] { si.reset(); }, {}, false, true);
		c.check(!r.threw, "destroying the session raises");
	}, devs);
	r.add("objects", [](Ctx& c) {
		Rig g(c);
		g.w.dev.onCip = [](const ref::CipRequest& q) {
			if (q.path.cls == 0x37) return ref::CipReply(q.service == 0x4B ? ref::W().u32(3).u8(10) : q.service == 0x4F ? ref::W().u8(0).u8(4).u8(1).u8(2).u8(3).u16(0) : ref::W().u8(2));
			if (q.path.cls == 1) return ref::CipReply(ref::W().u16(1).u16(2).u16(3).u8(1).u8(2).u16(4).u32(5).shortString("Drive"));
			if (q.service == 1) return ref::CipReply(ref::W().u16(0x1234).u8(0).u16(0).u8(0xC7).u8(2));
			return ref::CipReply(q.path.attr == 6 ? Bytes{2} : Bytes{0x34, 0x12});
		};
		auto si = g.w.session();
		g.w.net.faults = F_RECV_RESET | F_SEND_RESET | F_RECV_EINTR | F_FIN;
		int what = c.choose(3, "object");
		g.op("the operation", [&] {
			if (what == 0) IdentityObject(1, si);
			if (what == 1) { ParameterObject p(3, false, si); p.updateValue(si); }
			if (what == 2) {
				FileObject f(0xC8, si);
				f.beginUpload(si, [](auto, auto&) {});
				while (f.handleTransfers(si)) {}
			}
		}, {ECONNRESET});
	}, 1);
	r.add("timeouts", [](Ctx& c) {
		Rig g(c);
		static const std::vector<int> timeouts = {1, 300, 1000, 2500};
		int timeout = c.pick(timeouts, "timeout");
		int what = c.choose(9, "silence or refusal");
		std::shared_ptr<SessionInfo> si;
		bool established = what >= 4;
		if (what == 0) g.w.net.connecting = Connecting::SILENT;
		if (what == 1) g.w.net.connecting = Connecting::REFUSED_LATER;
		if (what == 2) g.w.net.connecting = Connecting::REFUSED_NOW;
		if (what == 3) g.w.net.listeners.clear();
		int cut = 0, mode = 0; // 1 silence, 2 end, 3 reset
		g.w.dev.onCip = [](const ref::CipRequest&) { return ref::CipReply(Bytes{1, 2, 3}); };
		g.w.dev.deliver = [&](Stream& s, const ref::Frame&, const Bytes& b) {
			if (!mode) { s.push(b, 50 * US); return; }
			if (cut) s.push(Bytes(b.begin(), b.begin() + cut), 50 * US);
			if (mode == 2) s.pushFin(100 * US);
			if (mode == 3) s.pushRst(100 * US);
		};
		if (!established) {
			auto r = g.op("creating the session", [&] { si = g.w.session(timeout); }, {ETIMEDOUT});
			g.must(r, what == 0 ? ETIMEDOUT : ECONNREFUSED, what == 0 ? "a silent host" : "a refused connection");
			return;
		}
		if (what < 7) {
			// in the exchange
			si = g.w.session(timeout);
			mode = what - 3;
			cut = c.choose(47, "bytes of the reply");
			auto r = g.op("the exchange", [&] { MessageRouter().sendRequest(si, 0x0e, cip::EPath(1, 1, 7)); }, {ECONNRESET});
			g.must(r, mode == 1 ? EAGAIN : ECONNRESET, mode == 1 ? "a missing reply" : "a reply that breaks off");
		} else {
			mode = what - 6; // while registering
			cut = c.choose(28, "bytes of the reply");
			auto r = g.op("creating the session", [&] { si = g.w.session(timeout); }, {ECONNRESET});
			g.must(r, mode == 1 ? EAGAIN : ECONNRESET, mode == 1 ? "a missing reply" : "a reply that breaks off");
		}
	});
	r.add("refusals", [](Ctx& c) {
		// what the device refuses or does wrong is no error of the system
		Rig g(c);
		int what = c.choose(6, "refusal");
		std::shared_ptr<SessionInfo> si;
		if (what == 0) {
			g.w.dev.registerStatus = 1 + c.choose(105);
			g.mustNot(g.op("creating the session", [&] { si = g.w.session(); }, {}, true), "a refused registration");
			return;
		}
		si = g.w.session();
		Bytes good = ref::rrReply({0x8e, 0, 0, 0, 1, 2});
		g.w.dev.onFrame = [&](Stream& s, const ref::Frame& f) {
			if (f.command != ref::SEND_RR) return false;
			if (what == 1) s.push(ref::encap(f.command, f.session, 1 + c.choose(105), {}, f.context), 50 * US);
			if (what == 2) s.push(ref::encap(f.command, f.session ^ (1u << c.choose(32)), 0, good, f.context), 50 * US);
			if (what == 3) s.push(ref::encap(f.command, f.session, 0, Bytes(good.begin(), good.begin() + c.choose(static_cast<int>(good.size()) - 2)), f.context), 50 * US);
			return what < 4;
		};
		g.w.dev.onCip = [&](const ref::CipRequest&) { return what == 4 ? ref::CipReply::error(1 + c.choose(255)) : ref::CipReply(Bytes{1}); };
		if (what < 4) g.mustNot(g.op("the exchange", [&] { MessageRouter().sendRequest(si, 0x0e, cip::EPath(1, 1, 7)); }, {}, true), "a wrong answer");
		else if (c.choose(2)) g.mustNot(g.op("reading the identity", [&] { IdentityObject(1, si); }, {}, true), "a refused or truncated identity");
		else g.mustNot(g.op("reading a parameter", [&] { ParameterObject(1, true, si); }, {}, true), "a refused or truncated parameter");
	});
	r.add("discovery", [](Ctx& c) {
		Rig g(c);
		g.w.net.faults = UDP_FAULTS;
		int answers = c.choose(3, "answers"), error = c.choose(4, "later error");
		static const int errors[] = {0, ECONNREFUSED, ENETUNREACH, EHOSTUNREACH};
		g.w.net.onDatagram = [&](const Datagram& d) {
			ref::W id;
			id.u16(1).raw(ref::sockaddrItem(ip("10.0.0.9"), 44818)).u16(7).u16(8).u16(9).u8(1).u8(2).u16(0x30).u32(0x1234567).shortString("Device").u8(3);
			for (int i = 0; i < answers; ++i) g.w.net.datagram({ip("10.0.0.9"), 44818}, d.from.port, ref::encap(ref::LIST_IDENTITY, 0, 0, ref::cpf({{0xC, id}})), g.w.net.now() + (i + 1) * 10 * MS);
			if (error) g.w.net.datagramError(d.from.port, errors[error], g.w.net.now() + 15 * MS);
		};
		size_t found = 0, before = g.w.net.errors.size();
		bool quiet = true; // the last error is that of the expired timeout
		auto r = run([&] { found = DiscoveryManager("10.0.0.255", 44818, milliseconds(50)).discover().size(); });
		int last = 0;
		bool ignorable = true;
		for (size_t i = before; i < g.w.net.errors.size(); ++i) {
			auto& e = g.w.net.errors[i];
			std::string call = e.call;
			if (call == "shutdown" || call == "close") continue;
			last = e.code;
			if (!(call == "setsockopt" || call == "fcntl" || call == "getsockopt")) ignorable = false;
			if (e.code != EAGAIN) quiet = false;
		}
		c.step(r.threw ? fmt("discovery raises %d: ", r.code) + r.what : "discovery ends");
		if (last == EAGAIN) {
			if (quiet) { c.check(!r.threw, "the end of a discovery is reported as an error: " + r.what); c.equal(found, static_cast<size_t>(answers), "number of devices"); }
		} else {
			c.check(last != 0, "the discovery ends early");
			if (!ignorable) c.check(r.threw, fmt("the discovery hides the error %d", last));
			if (r.threw) {
				c.check(r.system, fmt("the discovery does not report the error %d of a system call but: ", last) + r.what);
				c.equal(r.code, last, "error of the discovery");
			}
		}
		c.obs(mix(r.threw, mix(r.code, found)));
		c.state(mix(r.threw, mix(r.code, found)));
	}, devs);
	r.add("implicit connections", [](Ctx& c) {
		Rig g(c);
		auto si = g.w.session();
		ConnectionManager m;
		IOConnection::WPtr io;
		bool early = c.choose(2, "one connection before");
		if (early) m.forwardOpen(si, ioParameters(10000, 10000), false);
		g.w.net.faults = UDP_FAULTS | F_RECV_RESET | F_SEND_RESET | F_FIN;
		auto r = g.op("opening", [&] { io = m.forwardOpen(si, ioParameters(10000, 10000), c.choose(2)); }, {ECONNRESET});
		c.check(r.threw == io.expired(), "an error with a connection, or none without");
		if (!r.threw) g.op("closing", [&] { m.forwardClose(si, io); }, {ECONNRESET});
	}, devs);
	r.add("servicing", [](Ctx& c) {
		// errors of waiting and receiving
		Rig g(c);
		auto si = g.w.session();
		ConnectionManager m;
		auto io = m.forwardOpen(si, ioParameters(10000, 10000), false);
		io.lock()->setDataToSend({1, 2, 3, 4});
		g.w.net.faults = F_SELECT_ERROR | F_SELECT_EINTR | F_UDP_RECV | F_RECV_EINTR;
		for (int i = 0; i < 2; ++i) {
			if (c.choose(2, "data")) g.w.net.datagram({ip("10.0.0.1"), 2222}, 2222, ref::implicitMessage(g.w.opens[0].t2oId, 1 + i, {1, 0, 9, 8, 7, 6}), g.w.net.now());
			g.w.net.advance(5 * MS);
			g.op("servicing", [&] { m.handleConnections(milliseconds(1)); });
		}
	}, devs);
	r.add("stream sockets", [](Ctx& c) {
		Rig g(c);
		struct Echo : TcpPeer {
			int mode = 0;
			void onData(Stream& s, const Bytes& b) override {
				if (mode == 0) s.push(b, 50 * US);
				if (mode == 1) { s.push(Bytes(b.begin(), b.begin() + b.size() / 2), 50 * US); s.pushFin(10 * US); }
				if (mode == 2) { s.push(Bytes(b.begin(), b.begin() + b.size() / 2), 50 * US); s.pushRst(10 * US); }
			}
		} echo;
		echo.mode = c.choose(4, "peer");
		g.w.net.listeners[g.w.addr] = &echo;
		g.w.net.faults = TCP_FAULTS;
		std::unique_ptr<TCPSocket> s;
		g.op("connecting", [&] { s = c.choose(2, "timeout") ? std::make_unique<TCPSocket>(EndPoint("10.0.0.1", 44818), milliseconds(20)) : std::make_unique<TCPSocket>("10.0.0.1", 44818); }, {ETIMEDOUT});
		if (!s) return;
		s->setRecvTimeout(milliseconds(100));
		Bytes data = pattern(6), got;
		if (g.op("sending", [&] { s->Send(data); }).threw) return;
		auto r = g.op("receiving", [&] { got = s->Receive(data.size()); }, {ECONNRESET});
		if (!r.threw) c.equal(got, data, "bytes received");
		else if (echo.mode == 3 && c.deviations() == 0) g.must(r, EAGAIN, "silence");
		g.op("the end", [&] { s.reset(); }, {}, false, true);
	}, devs);
	r.add("datagram sockets", [](Ctx& c) {
		Rig g(c);
		g.w.net.faults = UDP_FAULTS;
		std::unique_ptr<UDPSocket> s;
		bool bound = c.choose(2, "bound");
		g.op("creating", [&] { if (bound) s = std::make_unique<UDPBoundSocket>(EndPoint("10.0.0.1", 2222)); else s = std::make_unique<UDPSocket>("10.0.0.1", 2222); });
		if (!s) return;
		s->setRecvTimeout(milliseconds(30));
		uint16_t port = 0;
		g.w.net.onDatagram = [&](const Datagram& d) { port = d.from.port; };
		static const std::vector<size_t> sizes = {0, 1, 500, 65507, 65508};
		size_t size = c.pick(sizes, "size");
		Bytes data = pattern(size);
		auto sent = g.op("sending", [&] { s->Send(data); });
		if (size > 65507) g.must(sent, EMSGSIZE, "too long a datagram");
		if (sent.threw) return;
		int what = c.choose(3, "answer");
		if (what == 1) g.w.net.datagram({ip("10.0.0.1"), 2222}, port, {1, 2, 3}, g.w.net.now() + 10 * MS);
		if (what == 2) g.w.net.datagramError(port, EHOSTUNREACH, g.w.net.now() + 10 * MS);
		Bytes got;
		EndPoint from("1.2.3.4", 5);
		bool how = c.choose(2, "with the sender");
		auto r = g.op("receiving", [&] { got = how ? s->ReceiveFrom(100, from) : s->Receive(100); });
		if (c.deviations() == 0) {
			if (what == 0) g.must(r, EAGAIN, "silence");
			if (what == 1) { c.check(!r.threw, "receiving fails"); c.equal(got, Bytes{1, 2, 3}, "datagram"); if (how) c.equal(from.toString(), std::string("10.0.0.1:2222"), "sender"); }
			if (what == 2) g.must(r, EHOSTUNREACH, "an unreachable host");
		}
		g.op("the end", [&] { s.reset(); }, {}, false, true);
	}, devs);
}
