// C26: logging has no influence on what the library does
#include "io.h"
#include "DiscoveryManager.h"
#include "FileObject.h"
#include "IdentityObject.h"
#include "ParameterObject.h"
#include "MessageRouter.h"
#include "fileObject/FileObjectState.h"
#include "vendor/ra/powerFlex525/DPIFaultManager.h"
#include "vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.h"
#include "vendor/yaskawa/mp3300iec/Yaskawa_EPath.h"
#include <cerrno>
#include <iostream>

using namespace eipScanner;
using namespace eipScanner::utils;
using namespace sim;

namespace {

struct Trace {
	std::vector<std::string> lines;
	void add(const std::string& s) { lines.push_back(s); }
	void op(World& w, const std::string& name, const Outcome& o) {
		add(fmt("at %lld ns: ", static_cast<long long>(w.net.now())) + name + (o.threw ? fmt(" raises %s, code %d: ", o.type.c_str(), o.code) + o.what : " done"));
	}
};

/// What a program's appender may do to the environment of the library
struct Disturbing : LogAppenderIf {
	int value;
	uint64_t& count;
	int how; ///< 0: changes errno, 1: logs messages itself, 2: takes a microsecond, 3: changes level and appender
	int depth = 0;
	explicit Disturbing(int v, uint64_t& n, int how) : value(v), count(n), how(how) {}
	void print(LogLevel l, const std::string& m) override {
		++count;
		(void) m.size();
		if (how == 1 && depth < 2) {
			++depth;
			Logger(l) << "printed " << m;
			Logger(LogLevel::ERROR) << "printed a message of " << m.size();
			--depth;
		}
		if (how == 2 && sim::active()) sim::net().advance(1 * US);
		if (how == 3) Logger::setLogLevel(l == LogLevel::TRACE ? LogLevel::INFO : LogLevel::TRACE);
		errno = value;
	}
};
struct Null : LogAppenderIf { void print(LogLevel, const std::string&) override {} };

struct NullBuffer : std::streambuf {
	int overflow(int c) override { return c; }
	std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};

bool everyLevel = false;

/// Without the times, which an appender which takes time may change
std::string timeless(const std::string& s) {
	std::string r;
	for (size_t i = 0; i < s.size();) {
		size_t at = s.find("at ", i);
		if (at == std::string::npos) { r += s.substr(i); break; }
		size_t j = at + 3;
		while (j < s.size() && isdigit(static_cast<unsigned char>(s[j]))) ++j;
		bool time = j > at + 3 && s.compare(j, 3, " ns") == 0;
		r += s.substr(i, at + 3 - i);
		i = time ? j + 3 : at + 3;
	}
	return r;
}

void compare(Ctx& c, const std::function<void(Ctx&, Trace&)>& run, bool timed = false) {
	static const std::vector<int> values = {0, EAGAIN, EINTR, ENOSPC, EINPROGRESS};
	int level, value, how = 0;
	bool console = false;
	if (c.choose(2, "active appender")) {
		level = everyLevel ? 5 - c.choose(5, "level") : 5;
		value = 0;
		how = 1 + c.choose(timed ? 2 : 3);
		if (timed && how == 2) how = 3;
	} else if (everyLevel) {
		level = 5 - c.choose(5, "level");
		value = c.pick(values, "errno left by the appender");
		console = value == 0 && c.choose(2, "console");
	} else {
		int k = c.choose(4, "logging");
		level = k == 3 ? 3 : 5;
		value = k == 0 ? EAGAIN : k == 1 ? ENOSPC : 0;
		console = k == 3;
	}
	uint64_t messages = 0;
	Trace silent, logged;
	World::logLevel = LogLevel::OFF;
	Logger::setAppender(std::make_unique<Null>());
	c.record();
	c.step("without logging");
	run(c, silent);
	c.repeat();
	c.step(fmt("with level %d", level));
	World::logLevel = static_cast<LogLevel>(level);
	if (!console) Logger::setAppender(std::make_unique<Disturbing>(value, messages, how));
	else Logger::setAppender(std::make_unique<ConsoleAppender>());
	NullBuffer nowhere;
	auto* old = std::cout.rdbuf(&nowhere);
	run(c, logged);
	std::cout.rdbuf(old);
	bool same = c.stop();
	World::logLevel = LogLevel::OFF;
	Logger::setLogLevel(LogLevel::OFF);
	Logger::setAppender(std::make_unique<Null>());
	for (size_t i = 0; i < std::max(silent.lines.size(), logged.lines.size()); ++i) {
		std::string a = i < silent.lines.size() ? silent.lines[i] : "the end", b = i < logged.lines.size() ? logged.lines[i] : "the end";
		c.note("  " + a);
		if (how == 2) { a = timeless(a); b = timeless(b); }
		if (a != b) c.fail(fmt("with log level %d and an appender which %s: ", level, how == 1 ? "logs" : how == 2 ? "takes 1 us" : how == 3 ? "changes the level" : fmt("sets errno to %d", value).c_str()) + b + " instead of " + a);
		c.compared();
		c.state(mc::hash(a));
	}
	c.check(same, "with logging the library makes other calls of the environment than without");
	c.obs(messages);
	for (auto& l : silent.lines) c.obs(l);
}

void wire(World& w, Trace& t) {
	for (auto& f : w.dev.frames) t.add(fmt("frame at %lld ns: command %u, session %u, ", static_cast<long long>(f.at), f.command, f.session) + hex(f.data, 400));
	for (auto& p : w.dev.problems) t.add("problem: " + p);
	for (auto& d : w.net.sent) t.add(fmt("datagram at %lld ns to ", static_cast<long long>(d.time)) + d.to.str() + ": " + hex(d.data, 400));
	for (auto& s : w.net.streams) t.add(fmt("stream: %zu bytes sent, shut %d, closed %d", s->sent.size(), s->clientShut, s->clientClosed));
	t.add(fmt("%llu sockets opened, %llu closed, end at %lld ns", static_cast<unsigned long long>(w.net.socketsOpened), static_cast<unsigned long long>(w.net.socketsClosed), static_cast<long long>(w.net.now())));
	for (auto& m : w.net.misuse) t.add("misuse: " + m);
}

void session(Ctx& c, Trace& t) {
	World w;
	int kind = c.choose(5, "device");
	if (kind == 1) w.dev.registerStatus = 1;
	w.net.faults = F_RECV_SHORT | F_RECV_EINTR | F_RECV_RESET | F_SEND_PARTIAL | F_SEND_EINTR | F_SEND_RESET | F_SELECT_EINTR | F_SELECT_ERROR | F_SOCKET | F_SETUP | F_CONNECT | F_CONNECT_EINTR | F_FIN;
	w.dev.onCip = [&](const ref::CipRequest& q) {
		if (kind == 2) return ref::CipReply::error(0x08, {0x1234, 5});
		return ref::CipReply(pattern(q.data.size() + 3));
	};
	w.dev.onFrame = [&](Stream& s, const ref::Frame& f) {
		if (f.command != ref::SEND_RR) return false;
		if (kind == 3) s.push(ref::encap(f.command, f.session, 0x64, {}, f.context), 50 * US);
		if (kind == 4) s.push(ref::encap(f.command, f.session, 0, {0, 0, 0, 0, 0, 0, 1, 0, 0xB2, 0}, f.context), 50 * US);
		return kind > 2;
	};
	std::shared_ptr<SessionInfo> si;
	t.op(w, "session", attempt([&] { si = w.session(); }));
	for (int i = 0; i < 2 && si; ++i) {
		cip::MessageRouterResponse r;
		auto o = attempt([&] {
			if (i) r = Yaskawa_MessageRouter().sendRequest(si, 0x10, cip::Yaskawa_EPath(0x97, 0, 3), Bytes{2});
			else r = MessageRouter(true).sendRequest(si, 0x0e, cip::EPath(1, 1, 7));
		});
		t.op(w, "exchange", o);
		if (!o.threw) t.add(fmt("status %d, ", static_cast<int>(r.getGeneralStatusCode())) + show(r.getAdditionalStatus()) + " " + show(r.getData()));
		if (!o.threw) t.op(w, "log of the status", attempt([&] { logGeneralAndAdditionalStatus(r); }));
	}
	t.op(w, "end", attempt([&] { si.reset(); }));
	wire(w, t);
}

void discovery(Ctx& c, Trace& t) {
	World w;
	w.net.faults = F_UDP_RECV | F_UDP_SEND | F_SOCKET | F_SETUP | F_RECV_EINTR;
	std::vector<int> kinds;
	int n = c.choose(3, "answers");
	for (int i = 0; i < n; ++i) kinds.push_back(c.choose(5, "answer"));
	w.net.onDatagram = [&](const Datagram& d) {
		for (size_t i = 0; i < kinds.size(); ++i) {
			ref::W id;
			id.u16(1).raw(ref::sockaddrItem(ip("10.0.0.9"), 44818)).u16(7).u16(8).u16(9).u8(1).u8(2).u16(0x30).u32(0x1234567 + i).shortString("Device").u8(3);
			Bytes item = id;
			Bytes good = ref::encap(ref::LIST_IDENTITY, 0, 0, ref::cpf({{0xC, item}}));
			Bytes data = good;
			if (kinds[i] == 1) data = {1, 2, 3};
			if (kinds[i] == 2) data.resize(24 + 7);
			if (kinds[i] == 3) { item.resize(20); data = ref::encap(ref::LIST_IDENTITY, 0, 0, ref::cpf({{0xC, item}})); }
			if (kinds[i] == 4) w.net.datagramError(d.from.port, ECONNREFUSED, w.net.now() + Time(i + 1) * 20 * MS);
			else w.net.datagram({ip("10.0.0.9"), 44818}, d.from.port, data, w.net.now() + Time(i + 1) * 20 * MS);
		}
	};
	for (int i = 0; i < 2; ++i) {
		IdentityItem::Vec v;
		t.op(w, "discovery", attempt([&] { v = DiscoveryManager("10.0.0.255", 44818, milliseconds(100)).discover(); }));
		for (auto& x : v) t.add(x.socketAddress.toString() + fmt(" serial %u ", x.identityObject.getSerialNumber()) + x.identityObject.getProductName());
	}
	wire(w, t);
}

void implicit(Ctx& c, Trace& t) {
	IoWorld w;
	auto si = w.session(300);
	ConnectionManager m;
	int how = c.choose(4, "open");
	w.openStatus = how == 1 ? 1 : 0;
	w.openAdditional = {0x0103};
	w.openDropTail = how == 2 ? 4 : 0;
	w.t2oOverride = 0x55000001;
	if (how == 3) w.openItems = {{0x8000, ref::sockaddrItem(ip("0.0.0.0"), 3333)}};
	auto p = ioParameters(10000, 10000);
	p.t2oNetworkConnectionParams = (p.t2oNetworkConnectionParams & ~0x6000u) | NetworkConnectionParams::MULTICAST;
	p.connectionTimeoutMultiplier = 1; // 80 ms
	w.net.faults = F_UDP_SEND | F_UDP_RECV | F_SELECT_EINTR | F_SELECT_ERROR | F_RECV_EINTR | F_SOCKET | F_SETUP;
	IOConnection::WPtr io;
	t.op(w, "open", attempt([&] { io = m.forwardOpen(si, p, c.choose(2, "large")); }));
	if (auto s = io.lock()) {
		s->setDataToSend({1, 2, 3, 4});
		s->setReceiveDataListener([&t](auto header, auto seq, auto data) { t.add(fmt("received, header %u, count %u, ", static_cast<unsigned>(header), static_cast<unsigned>(seq)) + show(Bytes(data.begin(), data.end()))); });
		s->setSendDataListener([&t](auto& data) { t.add("produced " + show(Bytes(data.begin(), data.end()))); });
		s->setCloseListener([&t] { t.add("closed"); });
	}
	t.add(fmt("a connection: %d", !io.expired()));
	for (int i = 0; i < (everyLevel ? 3 : 2); ++i) {
		int op = c.choose(6, "event");
		auto data = [&](const Bytes& b) { w.net.datagram({ip("10.0.0.1"), 2222}, 2222, b, w.net.now()); };
		switch (op) {
			case 0: data(ref::implicitMessage(0x55000001, i + 1, {1, 0, 9, 8, 7, 6})); break;
			case 1: data(ref::implicitMessage(0x55000002, i + 1, {1, 0, 9, 8, 7, 6})); break;
			case 2: data({1, 0, 2}); break;
			case 3: data(ref::implicitMessage(0x55000001, i + 1, {1, 0, 9, 8})); break;
			case 4: break;
			case 5: w.net.advance(90 * MS); break;
		}
		w.net.advance(10 * MS);
		t.op(w, "servicing", attempt([&] { m.handleConnections(milliseconds(op == 4 ? 5 : 0)); }));
		t.add(fmt("open connections: %d", m.hasOpenConnections()));
	}
	w.net.faults = 0;
	w.closeStatus = c.choose(2, "close") ? 1 : 0;
	t.op(w, "close", attempt([&] { m.forwardClose(si, io); }));
	t.add(fmt("open connections: %d, opened %zu, closed %zu", m.hasOpenConnections(), w.opens.size(), w.closes.size()));
	// serial numbers continue from one connection to the next: not compared
	for (auto& d : w.net.sent) t.add(fmt("datagram at %lld ns to ", static_cast<long long>(d.time)) + d.to.str() + ": " + hex(d.data, 400));
	t.add(fmt("%llu sockets opened, %llu closed, end at %lld ns", static_cast<unsigned long long>(w.net.socketsOpened), static_cast<unsigned long long>(w.net.socketsClosed), static_cast<long long>(w.net.now())));
}

void objects(Ctx& c, Trace& t) {
	World w;
	int badAt = c.choose(14, "wrong reply") - 1, how = c.choose(2), n = 0;
	int what = c.choose(4, "object");
	Bytes content = pattern(25);
	size_t next = 0;
	int cleared = 0;
	w.dev.onCip = [&](const ref::CipRequest& q) {
		ref::CipReply r;
		if (q.path.cls == 1) r = ref::CipReply(ref::W().u16(1).u16(2).u16(3).u8(1).u8(2).u16(4).u32(5).shortString("Drive"));
		else if (q.path.cls == 0x37) {
			if (q.service == 0x0E) r = ref::CipReply(Bytes{2});
			else if (q.service == 0x4B) r = ref::CipReply(ref::W().u32(25).u8(10));
			else {
				Bytes b{static_cast<uint8_t>(next), static_cast<uint8_t>(next == 2 ? 2 : next ? 1 : 0)};
				b.insert(b.end(), content.begin() + std::min<size_t>(25, next * 10), content.begin() + std::min<size_t>(25, next * 10 + 10));
				if (next == 2) { b.push_back(0); b.push_back(0); }
				++next;
				r = ref::CipReply(b);
			}
		} else if (q.path.cls == 0x97) { ++cleared; }
		else if (what == 2) r = ref::CipReply(ref::W().u16(q.path.inst == 7 ? 12 : q.path.inst == 8 ? 3 : 0));
		else if (q.service == 0x0E) r = ref::CipReply(q.path.attr == 6 ? Bytes{2} : Bytes{0x34, 0x12});
		else r = ref::CipReply(ref::W().u16(0x1234).u8(0).u16(4).u8(0xC7).u8(2).shortString("Speed").shortString("Hz").shortString("help").u16(1).u16(9).u16(5).u16(1).u16(1).u16(1).u16(0).u16(0).u16(0).u16(0).u16(0).u8(2));
		if (n++ == badAt) {
			if (how) r.data.resize(r.data.size() / 2);
			else r = ref::CipReply::error(0x0F, {1});
		}
		return r;
	};
	auto si = w.session();
	if (what == 0) t.op(w, "identity", attempt([&] { IdentityObject o(1, si); t.add(o.getProductName() + fmt(" %u", o.getSerialNumber())); }));
	if (what == 1) t.op(w, "parameter", attempt([&] {
		ParameterObject o(3, c.choose(2), si);
		t.add(o.getName() + fmt(" %u %d", o.getActualValue<cip::CipUint>(), o.isScalable()));
		o.updateValue(si);
		t.add(fmt("%u", o.getActualValue<cip::CipUint>()));
	}));
	if (what == 2) t.op(w, "faults", attempt([&] {
		vendor::ra::powerFlex525::DPIFaultManager f(true, false, c.choose(2));
		f.setNewFaultListener([&](const auto& p) { t.add(fmt("fault %d code %d", static_cast<int>(p.getFaultDetails().faultNumber), static_cast<int>(p.getFaultDetails().faultCode))); });
		f.handleFaultParameters(si);
	}));
	if (what == 3) t.op(w, "upload", attempt([&] {
		FileObject f(0xC8, si);
		f.beginUpload(si, [&](auto s, auto& d) { t.add(fmt("end with status %d, ", static_cast<int>(s)) + show(d)); });
		int k = 0;
		while (f.handleTransfers(si) && ++k < 20) {}
		t.add(fmt("%d transfers", k));
	}));
	si.reset();
	t.add(fmt("cleared %d", cleared));
	wire(w, t);
}

} // namespace

void mc::define(Registry& r) {
	int devs = r.tier(1, 2);
	everyLevel = r.thorough();
	r.bound("each history is executed without logging and again, with the same answers of the environment, at level TRACE with appenders which leave errno at EAGAIN, ENOSPC and 0, and at level INFO with the console appender, at level TRACE with appenders which log themselves, take a microsecond or change the level (thorough: every level with errno 0, EAGAIN, EINTR, ENOSPC and EINPROGRESS and with the console appender)");
	r.bound(fmt("histories: session with two exchanges, discovery, implicit connection with two (thorough: three) events, objects, with up to %d faults of system calls", devs));
	r.add("session", [](Ctx& c) { compare(c, session); }, devs);
	r.add("discovery", [](Ctx& c) { compare(c, discovery); }, devs);
	r.add("implicit connection", [](Ctx& c) { compare(c, implicit, true); }, devs);
	r.add("objects", [](Ctx& c) { compare(c, objects); });
}
