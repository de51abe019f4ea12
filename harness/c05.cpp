// C05: exchanges over an unreliable stream
#include "common.h"
#include "eip/EncapsPacket.h"

using namespace eipScanner;
using eip::EncapsPacket;

namespace {

EncapsPacket makeRequest(const SessionInfo& si, const Bytes& data) {
	EncapsPacket p;
	p.setCommand(eip::EncapsCommands::SEND_RR_DATA);
	p.setSessionHandle(si.getSessionHandle());
	p.setData(data);
	return p;
}

/// A session whose device answers request i with answer i
struct Rig {
	World w;
	std::shared_ptr<SessionInfo> si;
	std::vector<Bytes> answers;  // complete frames
	size_t answered = 0;
	// how the frame goes out; default: at once
	std::function<void(sim::Stream&, const Bytes&, size_t index)> out;
	std::vector<Bytes> received; // by the device
	size_t size = 10;
	std::function<Bytes(size_t)> answerData = [this](size_t i) { return pattern(size, 100 + i); };
	std::function<Bytes(size_t, const ref::Frame&)> answerFrame;
	bool timedOut = false; // an exchange of this session ended by the timeout

	Rig() {
		w.dev.onFrame = [this](sim::Stream& s, const ref::Frame& f) {
			if (f.command != ref::SEND_RR) return false;
			size_t i = answered++;
			received.push_back(f.data);
			Bytes frame = answerFrame ? answerFrame(i, f) : ref::encap(f.command, w.dev.handle, 0, answerData(i), f.context);
			answers.push_back(frame);
			if (out) out(s, frame, i);
			else s.push(frame, 50 * US);
			return true;
		};
	}
	bool open(Ctx& c, bool mustSucceed) {
		auto o = attempt([&] { si = w.session(); });
		c.obs(o.threw);
		if (mustSucceed) c.check(!o.threw, "opening the session fails: " + o.what);
		if (!o.threw) c.equal(si->getSessionHandle(), w.dev.handle, "session handle");
		return !o.threw;
	}
	enum Need { MUST_ANSWER, MUST_RAISE, MAY_RAISE };
	/// One exchange: true if answered
	bool exchange(Ctx& c, const Bytes& data, Need need) {
		size_t index = answered;
		size_t before = w.sentOn().size();
		c.step(fmt("exchange %zu with %zu bytes", index, data.size()));
		auto request = makeRequest(*si, data);
		Bytes requestBytes = ref::encap(ref::SEND_RR, w.dev.handle, 0, data);
		EncapsPacket reply;
		sim::Time start = w.net.now();
		auto o = attempt([&] { reply = si->sendAndReceive(request); });
		c.obs(o.threw);
		Bytes sent(w.sentOn().begin() + before, w.sentOn().end());
		c.state(mix(hash(sent), o.threw * 2 + (need == MUST_ANSWER)));
		c.check(sent.size() <= requestBytes.size() && std::equal(sent.begin(), sent.end(), requestBytes.begin()),
			"the request on the wire is not the one given: " + hex(sent));
		if (o.threw) {
			c.note("raised " + o.type + ": " + o.what);
			c.check(need != MUST_ANSWER, "the exchange fails although the device answered completely and in time: " + o.what);
			if (w.net.now() - start >= 500 * MS) timedOut = true;
			return false;
		}
		Bytes got = reply.pack();
		c.obs(got);
		c.equal(sent, requestBytes, "the request on the wire");
		c.check(answered > index, "an answer was returned although the device did not answer this request");
		if (got != answers[index] && timedOut) {
			c.finding("stale-reply-after-receive-timeout", fmt("exchange %zu returns %s instead of its own reply, after an exchange that had timed out", index, hex(got).c_str()));
			return true;
		}
		c.check(need != MUST_RAISE, "an answer is returned although the device did not give a complete and valid one: " + hex(got));
		c.equal(got, answers[index], "the returned reply");
		c.equal(reply.getData(), Bytes(answers[index].begin() + 24, answers[index].end()), "the data of the reply");
		return true;
	}
};

} // namespace

void mc::define(Registry& r) {
	using namespace sim;
	int dev = r.tier(3, 4);
	r.bound(fmt("up to %d environment deviations (short read of 1, half, all but 1; EINTR at once or while waiting; reset; close; partial send; send EINTR/EPIPE/ECONNRESET) at any calls of: connect, register, 2 exchanges, unregister", dev));
	r.bound("all words of up to 3 of 6 kinds of exchanges, repeated to 320 (thorough 1100) exchanges of one session");
	r.bound("replies cut at every 1 and 2 positions with delays around the timeout; FIN and RST at every byte; all bits of status and handle; sizes 0..65535 at the limits");

	// the stream segments, interrupts and accepts partially: the answer must be returned
	for (size_t size : {size_t(0), size_t(1), size_t(10)})
		r.add(fmt("benign faults/%zu", size), [size](Ctx& c) {
			Rig g;
			g.size = size;
			g.w.net.faults = F_RECV_SHORT | F_RECV_EINTR | F_SEND_PARTIAL | F_SEND_EINTR | F_SELECT_EINTR | F_CONNECT_EINTR;
			g.open(c, true);
			for (int i = 0; i < 2; ++i) g.exchange(c, pattern(i ? 3 : 30, i), Rig::MUST_ANSWER);
			g.si.reset();
		}, dev);
	r.add("all faults", [](Ctx& c) {
		Rig g;
		g.w.net.faults = F_RECV_SHORT | F_RECV_EINTR | F_SEND_PARTIAL | F_SEND_EINTR | F_SELECT_EINTR | F_RECV_RESET | F_SEND_RESET | F_FIN | F_CONNECT_EINTR;
		if (!g.open(c, false)) return;
		for (int i = 0; i < 2; ++i) g.exchange(c, pattern(5, i), Rig::MAY_RAISE);
		g.si.reset();
	}, dev);
	r.add("cut once", [](Ctx& c) {
		Rig g;
		static const std::vector<Time> delays = {0, 1 * MS, 999 * MS, 1000 * MS - 50 * US - 1};
		int cut = c.choose(35);
		Time d = c.pick(delays);
		g.out = [&](Stream& s, const Bytes& b, size_t i) {
			if (i != 0) { s.push(b, 50 * US); return; }
			s.push(Bytes(b.begin(), b.begin() + cut), 25 * US);
			s.push(Bytes(b.begin() + cut, b.end()), 50 * US + d);
		};
		g.open(c, true);
		g.exchange(c, pattern(5), Rig::MUST_ANSWER);
		g.exchange(c, pattern(6), Rig::MUST_ANSWER);
		g.si.reset();
	});
	r.add("cut twice", [](Ctx& c) {
		Rig g;
		static const std::vector<Time> delays = {0, 400 * MS};
		int cut1 = c.choose(35), cut2 = c.choose(35);
		if (cut2 < cut1) return;
		Time d1 = c.pick(delays), d2 = c.pick(delays);
		g.out = [&](Stream& s, const Bytes& b, size_t) {
			s.push(Bytes(b.begin(), b.begin() + cut1), 25 * US);
			s.push(Bytes(b.begin() + cut1, b.begin() + cut2), 50 * US + d1);
			s.push(Bytes(b.begin() + cut2, b.end()), 75 * US + d1 + d2);
		};
		g.open(c, true);
		g.exchange(c, pattern(5), Rig::MUST_ANSWER);
		g.exchange(c, pattern(6), Rig::MUST_ANSWER);
		g.si.reset();
	});
	r.add("byte by byte", [](Ctx& c) {
		Rig g;
		g.size = c.choose(64);
		int chunk = 1 + c.choose(5);
		Time d = c.choose(2) ? 1 * MS : 0;
		g.out = [&](Stream& s, const Bytes& b, size_t) {
			for (size_t i = 0; i < b.size(); i += chunk) s.push(Bytes(b.begin() + i, b.begin() + std::min(b.size(), i + chunk)), 10 * US + d * (i / chunk));
		};
		g.open(c, true);
		for (int i = 0; i < 3; ++i) g.exchange(c, pattern(i), Rig::MUST_ANSWER);
		g.si.reset();
	});
	r.add("closed", [](Ctx& c) {
		Rig g;
		int at = c.choose(35), rst = c.choose(2), later = c.choose(2);
		size_t which = c.choose(2);
		g.out = [&](Stream& s, const Bytes& b, size_t i) {
			if (i != which) { s.push(b, 50 * US); return; }
			s.push(Bytes(b.begin(), b.begin() + at), 25 * US);
			Time d = later ? 100 * MS : 25 * US;
			if (rst) s.pushRst(d);
			else s.pushFin(d);
		};
		g.open(c, true);
		for (size_t i = 0; i < 4; ++i)
			g.exchange(c, pattern(5), i < which ? Rig::MUST_ANSWER : i > which ? Rig::MUST_RAISE : at == 34 ? Rig::MAY_RAISE : Rig::MUST_RAISE);
		g.si.reset();
	});
	r.add("closed while idle", [](Ctx& c) {
		Rig g;
		int rst = c.choose(2);
		g.open(c, true);
		g.exchange(c, pattern(5), Rig::MUST_ANSWER);
		if (rst) g.w.net.streams[0]->pushRst(0);
		else g.w.net.streams[0]->pushFin(0);
		if (c.choose(2)) g.w.net.advance(MS);
		for (int i = 0; i < 2; ++i) g.exchange(c, pattern(5), Rig::MUST_RAISE);
		g.si.reset();
	});
	r.add("timeout", [](Ctx& c) {
		// the (rest of the) reply comes too late or never; then more exchanges
		Rig g;
		int at = c.choose(34);
		static const std::vector<Time> delays = {1001 * MS, 1500 * MS, 2500 * MS, FOREVER};
		Time d = c.pick(delays);
		int pause = c.choose(2);
		g.out = [&](Stream& s, const Bytes& b, size_t i) {
			if (i) { s.push(b, 50 * US); return; }
			if (at) s.push(Bytes(b.begin(), b.begin() + at), 25 * US);
			if (d < FOREVER) s.push(Bytes(b.begin() + at, b.end()), d);
		};
		g.open(c, true);
		// when the wait has to end is a matter of C13 and C25; what is returned must be the answer in any case
		g.exchange(c, pattern(5), d < FOREVER ? Rig::MAY_RAISE : Rig::MUST_RAISE);
		if (pause) g.w.net.advance(3 * SEC);
		for (int i = 0; i < 3; ++i) g.exchange(c, pattern(6), Rig::MAY_RAISE);
		g.si.reset();
	});
	r.add("status", [](Ctx& c) {
		Rig g;
		static const std::vector<uint32_t> statuses = [] {
			std::vector<uint32_t> v{3, 0x64, 0x65, 0x69, 0xffffffffu, 0xffff0000u};
			for (int i = 0; i < 32; ++i) v.push_back(1u << i);
			return v;
		}();
		uint32_t status = c.pick(statuses);
		size_t size = c.choose(2) ? 10 : 0;
		bool zeroHandle = c.choose(2);
		g.answerFrame = [&](size_t i, const ref::Frame& f) {
			if (i != 1) return ref::encap(f.command, f.session, 0, pattern(4, i), f.context);
			return ref::encap(f.command, zeroHandle ? 0 : f.session, status, pattern(size), f.context);
		};
		g.open(c, true);
		g.exchange(c, pattern(5), Rig::MUST_ANSWER);
		g.exchange(c, pattern(5), Rig::MUST_RAISE);
		g.exchange(c, pattern(5), Rig::MUST_ANSWER);
		g.si.reset();
	});
	r.add("handle", [](Ctx& c) {
		Rig g;
		static const std::vector<uint32_t> handles = {0x11223344, 1, 0x80000000u, 0xffffffffu, 0x00010000};
		g.w.dev.handle = c.pick(handles);
		uint32_t h = g.w.dev.handle;
		int k = c.choose(36);
		uint32_t wrong = k < 32 ? h ^ (1u << k) : k == 32 ? 0 : k == 33 ? ~h : k == 34 ? h + 1 : h << 1;
		if (wrong == h) return;
		size_t size = c.choose(2) ? 10 : 0;
		g.answerFrame = [&](size_t i, const ref::Frame& f) {
			return ref::encap(f.command, i == 1 ? wrong : h, 0, pattern(size, i), f.context);
		};
		g.open(c, true);
		g.exchange(c, pattern(5), Rig::MUST_ANSWER);
		g.exchange(c, pattern(5), Rig::MUST_RAISE);
		g.exchange(c, pattern(5), Rig::MUST_ANSWER);
		g.si.reset();
	});
	r.add("sizes", [](Ctx& c) {
		static const std::vector<int> sizes = {0, 1, 255, 256, 257, 4095, 32767, 32768, 65534, 65535};
		Rig g;
		g.size = c.pick(sizes);
		Bytes data = pattern(c.pick(sizes));
		g.w.net.faults = F_RECV_SHORT | F_SEND_PARTIAL;
		g.open(c, true);
		g.exchange(c, data, Rig::MUST_ANSWER);
		g.exchange(c, pattern(3), Rig::MUST_ANSWER);
		g.si.reset();
	}, 1);
	r.add("all reply sizes", [](Ctx& c) {
		Rig g;
		int base = 256 * c.choose(256);
		g.open(c, true);
		int step = 17;
		for (int s = base; s < base + 256; s += step) {
			g.size = s;
			g.exchange(c, pattern(s % 50), Rig::MUST_ANSWER);
		}
		g.si.reset();
	});
	r.add("two sessions", [](Ctx& c) {
		// interleaved exchanges of two sessions with the same host
		Rig g;
		g.open(c, true);
		auto first = g.si;
		g.w.dev.handle = 0x55667788;
		std::shared_ptr<SessionInfo> second = g.w.session();
		c.equal(second->getSessionHandle(), 0x55667788u, "handle of the second session");
		c.equal(first->getSessionHandle(), 0x11223344u, "handle of the first session");
		for (int i = 0; i < 4; ++i) {
			bool b = c.choose(2);
			g.w.dev.handle = b ? 0x55667788 : 0x11223344;
			auto& si = b ? second : first;
			EncapsPacket reply;
			auto o = attempt([&] { reply = si->sendAndReceive(makeRequest(*si, pattern(i))); });
			c.check(!o.threw, "the exchange fails: " + o.what);
			c.equal(reply.pack(), g.answers.back(), "the reply");
			c.equal(g.w.dev.frames.back().stream, b ? 1 : 0, "the connection that carried the request");
			c.obs(reply.getData());
			c.state(i * 2 + b);
		}
		g.si.reset();
	});
	int many = r.tier(320, 1100);
	r.add("long", [many](Ctx& c) {
		// one session for many exchanges
		Rig g;
		Word word(c, 6, 3);
		g.out = [&](Stream& s, const Bytes& b, size_t i) {
			int l = word[i];
			if (l == 1) { s.push(Bytes(b.begin(), b.begin() + 10), 25 * US); s.push(Bytes(b.begin() + 10, b.end()), 60 * US); }
			else if (l == 2) for (size_t k = 0; k < b.size(); ++k) s.push(Bytes{b[k]}, (10 + k) * US);
			else if (l == 3) { s.push(Bytes(b.begin(), b.begin() + 24), 25 * US); s.push(Bytes(b.begin() + 24, b.end()), 900 * MS); }
			else s.push(b, 50 * US);
		};
		g.answerFrame = [&](size_t i, const ref::Frame& f) {
			g.size = word[i] == 4 ? 0 : 4 + i % 13;
			return ref::encap(f.command, f.session, word[i] == 5 ? 0x65 : 0, g.answerData(i), f.context);
		};
		g.open(c, true);
		for (int i = 0; i < many; ++i) {
			g.exchange(c, pattern(i % 11, i), word[i] == 5 ? Rig::MUST_RAISE : Rig::MUST_ANSWER);
			if (i % 64 == 0) c.alive();
		}
		g.si.reset();
	});
}
