// C06: the life of a session
#include "common.h"
#include "MessageRouter.h"

using namespace eipScanner;

namespace {

/// What is on the wire of one connection
struct Wire {
	std::vector<ref::Frame> frames;
	Bytes rest;
};
Wire parseWire(const Bytes& b) {
	Wire w;
	size_t pos = 0;
	while (b.size() - pos >= 24) {
		size_t len = 24 + (b[pos + 2] | b[pos + 3] << 8);
		if (b.size() - pos < len) break;
		ref::Frame f;
		ref::parseEncap(Bytes(b.begin() + pos, b.begin() + pos + len), f);
		w.frames.push_back(f);
		pos += len;
	}
	w.rest.assign(b.begin() + pos, b.end());
	return w;
}

void registered(Ctx& c, const ref::Frame& f) {
	c.equal(static_cast<int>(f.command), static_cast<int>(ref::REGISTER), "the first message");
	c.equal(f.data, Bytes{1, 0, 0, 0}, "RegisterSession data (version, options)");
	c.equal(f.session, 0u, "handle of RegisterSession");
	c.equal(f.status, 0u, "status of RegisterSession");
	c.equal(f.options, 0u, "options of RegisterSession");
}

/// Everything about the finished connection of a session that was established with this handle
void finished(Ctx& c, sim::Net& net, size_t stream, uint32_t handle, bool intact) {
	auto& st = *net.streams.at(stream);
	Wire w = parseWire(st.sent);
	c.check(!w.frames.empty(), "nothing was sent");
	registered(c, w.frames[0]);
	int unregisters = 0;
	for (size_t i = 1; i < w.frames.size(); ++i) {
		auto& f = w.frames[i];
		c.check(f.command != ref::REGISTER, "a second RegisterSession");
		c.equal(f.session, handle, fmt("handle of the message with command %02x", f.command));
		if (f.command == ref::UNREGISTER) {
			++unregisters;
			c.check(f.data.empty(), "UnRegisterSession has data");
			c.check(f.status == 0 && f.options == 0, "UnRegisterSession has a status or options");
			c.check(i + 1 == w.frames.size(), "a message after UnRegisterSession");
		}
	}
	if (intact) {
		c.equal(unregisters, 1, "number of UnRegisterSession messages");
		c.check(w.rest.empty(), "an incomplete message at the end: " + hex(w.rest));
	} else c.check(unregisters <= 1, "more than one UnRegisterSession");
	c.check(st.clientShut, "the connection is still open");
	c.obs(st.sent);
}

void nothingOpen(Ctx& c, sim::Net& net) { c.equal(net.openFds().size(), size_t(0), "open sockets"); }

} // namespace

void mc::define(Registry& r) {
	using namespace sim;
	int depth = r.tier(5, 6), dev = r.tier(3, 4);
	r.bound(fmt("all histories of up to %d operations of 9 kinds (answered, refused, wrong status, wrong handle, truncated, late, closed, reset, idle) before the destruction", depth));
	r.bound("all words of up to 2 of 4 kinds of sessions, repeated to 300 (thorough 680) sessions, alive one, three or all at once");
	r.bound(fmt("up to %d deviations of any system call between connecting and destruction; 14 ways of failing to register; all single bits of handle and status", dev));

	r.add("history", [depth](Ctx& c) {
		World w;
		static const std::vector<uint32_t> handles = {0x11223344, 0xffffffffu, 1};
		w.dev.handle = c.pick(handles);
		int mode = 0;
		w.dev.onFrame = [&](Stream& s, const ref::Frame& f) {
			if (f.command != ref::SEND_RR) return false;
			Bytes ok = ref::encap(ref::SEND_RR, f.session, 0, ref::rrReply(Bytes{0x8e, 0, 0, 0, 7}), f.context);
			switch (mode) {
				case 0: s.push(ok, 50 * US); break;
				case 1: s.push(ref::encap(ref::SEND_RR, f.session, 0, ref::rrReply(Bytes{0x8e, 0, 8, 0}), f.context), 50 * US); break;
				case 2: s.push(ref::encap(ref::SEND_RR, f.session, 0x64, {}, f.context), 50 * US); break;
				case 3: s.push(ref::encap(ref::SEND_RR, f.session + 1, 0, ref::rrReply(Bytes{0x8e, 0, 0, 0}), f.context), 50 * US); break;
				case 4: s.push(ref::encap(ref::SEND_RR, f.session, 0, ref::rrReply(Bytes{0x8e}), f.context), 50 * US); break;
				case 5: break; // silent
				case 6: s.push(Bytes(ok.begin(), ok.begin() + 20), 50 * US); s.pushFin(50 * US); break;
				case 7: s.pushRst(50 * US); break;
				default: break;
			}
			return true;
		};
		auto si = w.session(200);
		c.equal(w.net.streams.size(), size_t(1), "connections");
		bool intact = true;
		int n = c.choose(depth + 1, "operations");
		for (int i = 0; i < n; ++i) {
			mode = c.choose(9, "operation");
			c.step(fmt("operation %d", mode));
			if (mode == 8) w.net.advance(10 * SEC);
			else {
				size_t before = w.dev.frames.size();
				cip::MessageRouterResponse resp;
				auto o = attempt([&] { resp = MessageRouter().sendRequest(si, 0x0e, cip::EPath(1, 1, 1), {}); });
				if (intact) {
					c.equal(w.dev.frames.size(), before + 1, "number of messages for a request");
					c.check(o.threw == (mode >= 2), o.threw ? "the request fails: " + o.what : "the request does not fail");
				} else c.check(o.threw, "a request on a closed connection does not fail");
				c.obs(o.threw);
				if (mode == 6 || mode == 7) intact = false;
			}
			c.state(mix(mode, intact * 16 + i));
		}
		c.equal(si->getSessionHandle(), w.dev.handle, "handle");
		c.step("destroy");
		si.reset();
		finished(c, w.net, 0, w.dev.handle, intact);
		nothingOpen(c, w.net);
	});
	r.add("handles", [](Ctx& c) {
		World w;
		int k = c.choose(37);
		w.dev.handle = k < 32 ? 1u << k : k == 32 ? 0xffffffffu : k == 33 ? 0x7fffffff : k == 34 ? 0x00ff00ff : k == 35 ? 0xff00ff00 : 0;
		std::shared_ptr<SessionInfo> si;
		auto o = attempt([&] { si = w.session(); });
		if (k == 36) {
			// a handle of zero: refused, or a session like any other
			c.obs(o.threw);
			c.state(k);
			if (o.threw) { nothingOpen(c, w.net); return; }
		} else if (o.threw) c.fail("no session: " + o.what);
		c.equal(si->getSessionHandle(), w.dev.handle, "handle");
		MessageRouter().sendRequest(si, 0x0e, cip::EPath(1, 1, 1));
		c.equal(w.dev.requests.size(), size_t(1), "requests");
		w.conforming(c);
		si.reset();
		finished(c, w.net, 0, w.dev.handle, true);
		nothingOpen(c, w.net);
		c.state(k);
	});
	r.add("refused registration", [](Ctx& c) {
		World w;
		int kind = c.choose(14);
		uint32_t status = 1;
		if (kind == 0) { int b = c.choose(33); status = b == 32 ? 0xffffffffu : 1u << b; }
		bool withHandle = c.choose(2);
		int sessionTimeout = c.choose(2) ? 1000 : 300;
		w.dev.onFrame = [&](Stream& s, const ref::Frame& f) {
			if (f.command != ref::REGISTER) return false;
			uint32_t h = withHandle ? w.dev.handle : 0;
			Bytes ok = ref::encap(f.command, h, 0, f.data, f.context);
			switch (kind) {
				case 0: s.push(ref::encap(f.command, h, status, f.data, f.context), 50 * US); break;
				case 1: s.push(ref::encap(f.command, h, 0x69, {}, f.context), 50 * US); break;
				case 2: s.pushFin(50 * US); break;
				case 3: s.pushRst(50 * US); break;
				case 4: s.push(Bytes(ok.begin(), ok.begin() + 10), 50 * US); s.pushFin(50 * US); break;
				case 5: s.push(Bytes(ok.begin(), ok.begin() + 26), 50 * US); s.pushFin(50 * US); break;
				case 6: break;                                                                                   // silent
				case 7: s.push(Bytes(ok.begin(), ok.begin() + 23), 50 * US); break;                               // incomplete
				case 8: s.push(Bytes(ok.begin(), ok.begin() + 24), 50 * US); break;                               // without the data
				case 9: s.push(Bytes(ok.begin(), ok.begin() + 27), 50 * US); break;
				default: break;
			}
			return true;
		};
		if (kind == 10) w.net.connecting = Connecting::REFUSED_NOW;
		if (kind == 11) w.net.connecting = Connecting::REFUSED_LATER;
		if (kind == 12) w.net.connecting = Connecting::UNREACHABLE_NOW;
		if (kind == 13) w.net.connecting = Connecting::SILENT;
		std::shared_ptr<SessionInfo> si;
		c.step(fmt("failing registration %d status %x", kind, status));
		auto o = attempt([&] { si = w.session(sessionTimeout); });
		c.check(o.threw, "the session is established although the device did not accept it");
		nothingOpen(c, w.net);
		for (auto& st : w.net.streams) {
			c.check(st->clientShut, "the connection stays open");
			auto wire = parseWire(st->sent);
			c.check(wire.frames.size() == 1 && wire.rest.empty(), "something else than one RegisterSession was sent");
			registered(c, wire.frames[0]);
		}
		// the next attempt is not affected
		w.dev.onFrame = nullptr;
		w.net.connecting = Connecting::IN_PROGRESS;
		size_t next = w.net.streams.size();
		o = attempt([&] { si = w.session(); });
		c.check(!o.threw, "the following attempt fails: " + o.what);
		c.equal(si->getSessionHandle(), w.dev.handle, "handle");
		si.reset();
		finished(c, w.net, next, w.dev.handle, true);
		nothingOpen(c, w.net);
		c.obs(kind);
		c.state(mix(kind, status));
	});
	r.add("faults", [](Ctx& c) {
		World w;
		w.net.faults = F_RECV_SHORT | F_RECV_EINTR | F_SEND_PARTIAL | F_SEND_EINTR | F_SELECT_EINTR | F_RECV_RESET | F_SEND_RESET | F_FIN | F_CONNECT_EINTR | F_SOCKET | F_SETUP | F_CONNECT | F_SELECT_ERROR;
		std::shared_ptr<SessionInfo> si;
		auto o = attempt([&] { si = w.session(); });
		c.obs(o.threw);
		if (o.threw) {
			nothingOpen(c, w.net);
			for (auto& st : w.net.streams) c.check(st->clientShut, "the connection stays open");
			return;
		}
		c.equal(si->getSessionHandle(), w.dev.handle, "handle");
		o = attempt([&] { MessageRouter().sendRequest(si, 0x0e, cip::EPath(1, 1, 1)); });
		c.obs(o.threw);
		c.state(o.threw);
		si.reset();
		finished(c, w.net, 0, w.dev.handle, c.deviations() == 0);
		nothingOpen(c, w.net);
	}, dev);
	r.add("benign faults", [](Ctx& c) {
		World w;
		w.net.faults = F_RECV_SHORT | F_RECV_EINTR | F_SEND_PARTIAL | F_SEND_EINTR | F_SELECT_EINTR;
		std::shared_ptr<SessionInfo> si;
		auto o = attempt([&] { si = w.session(); });
		c.check(!o.threw, "the session cannot be established: " + o.what);
		if (c.choose(2)) attempt([&] { MessageRouter().sendRequest(si, 0x0e, cip::EPath(1, 1, 1)); });
		si.reset();
		finished(c, w.net, 0, w.dev.handle, true);
		nothingOpen(c, w.net);
		c.state(1);
	}, dev + 1);
	int steps = r.tier(5, 7);
	r.add("several sessions", [steps](Ctx& c) {
		// creations, requests and destructions of two sessions in any order
		World w;
		std::shared_ptr<SessionInfo> s[2];
		uint32_t h[2] = {0, 0};
		size_t stream[2] = {0, 0};
		uint32_t next = 0x100;
		for (int i = 0; i < steps; ++i) {
			int k = c.choose(2), op = c.choose(2);
			if (!s[k]) {
				bool refuse = op == 1;
				w.dev.handle = next++;
				w.dev.registerStatus = refuse ? 0x2 : 0;
				c.step(fmt("create %d refuse %d", k, refuse));
				stream[k] = w.net.streams.size();
				auto o = attempt([&] { s[k] = w.session(); });
				c.check(o.threw == refuse, "creation");
				h[k] = w.dev.handle;
			} else if (op == 0) {
				c.step(fmt("request %d", k));
				size_t before = w.dev.frames.size();
				w.dev.onFrame = nullptr;
				w.dev.handle = h[k];
				auto o = attempt([&] { MessageRouter().sendRequest(s[k], 0x0e, cip::EPath(1, 1, 1)); });
				c.check(!o.threw, "request: " + o.what);
				c.equal(w.dev.frames.size(), before + 1, "messages");
				c.equal(w.dev.frames.back().session, h[k], "handle of the request");
			} else {
				c.step(fmt("destroy %d", k));
				s[k].reset();
				finished(c, w.net, stream[k], h[k], true);
			}
			c.equal(w.net.openFds().size(), size_t(!!s[0] + !!s[1]), "open sockets");
			for (int j = 0; j < 2; ++j) if (s[j]) {
				c.equal(s[j]->getSessionHandle(), h[j], "handle");
				c.check(!w.net.streams[stream[j]]->clientShut, "the connection of the other session is shut");
			}
			c.state(mix(!!s[0] * 2 + !!s[1], i));
		}
		for (int k = 0; k < 2; ++k) if (s[k]) { s[k].reset(); finished(c, w.net, stream[k], h[k], true); }
		nothingOpen(c, w.net);
	});
	int many = r.tier(300, 680);
	r.add("many sessions", [many](Ctx& c) {
		// one after the other or all at once; each with its own handle
		World w;
		int how = c.choose(3, "lifetime");
		Word word(c, 4, 2);
		std::vector<std::shared_ptr<SessionInfo>> open;
		std::vector<uint32_t> handles;
		size_t closed = 0;
		for (int i = 0; i < many; ++i) {
			int l = word[i];
			w.dev.handle = 0x01020000u + 77 * i;
			if (l == 3) {
				w.net.connecting = Connecting::REFUSED_NOW;
				auto o = attempt([&] { w.session(); });
				c.check(o.threw, "a refused connection is a session");
				w.net.connecting = Connecting::IN_PROGRESS;
				continue;
			}
			std::shared_ptr<SessionInfo> si;
			auto o = attempt([&] { si = w.session(); });
			c.check(!o.threw, "opening a session fails: " + o.what);
			c.equal(si->getSessionHandle(), w.dev.handle, "handle");
			c.equal(w.net.streams.size(), handles.size() + 1, "connections");
			for (int k = 0; k < l; ++k) {
				auto q = attempt([&] { MessageRouter().sendRequest(si, 0x0e, cip::EPath(1, 1, 1), {}); });
				c.check(!q.threw, "the request fails: " + q.what);
			}
			handles.push_back(w.dev.handle);
			open.push_back(si);
			si.reset();
			while (open.size() > (how == 0 ? 0 : how == 1 ? 3 : 1000)) {
				open.erase(open.begin());
				finished(c, w.net, closed, handles[closed], true);
				++closed;
			}
			c.equal(w.net.openFds().size(), open.size(), "open sockets");
			if (i % 16 == 0) c.alive();
		}
		while (!open.empty()) {
			open.erase(open.begin());
			finished(c, w.net, closed, handles[closed], true);
			++closed;
			c.state(open.size());
		}
		nothingOpen(c, w.net);
		w.conforming(c);
		c.step("all closed");
	});
}
