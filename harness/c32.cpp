// C32: what the log says about failures, and that it changes nothing else
#include "actors.h"
#include <sys/wait.h>
#include <unistd.h>
#include <cctype>
#include <sys/socket.h>

using eipScanner::utils::Logger;
using eipScanner::utils::LogAppenderIf;
using eipScanner::utils::LogLevel;

namespace {

struct Line { int level; std::string text; };
enum { ERR = 1, WARN = 2, INF = 3, DBG = 4, TRC = 5 };

struct Recorder : LogAppenderIf {
	std::vector<Line>& out;
	explicit Recorder(std::vector<Line>& o) : out(o) {}
	void print(LogLevel l, const std::string& m) override { out.push_back({static_cast<int>(l), m}); }
};
struct Null : LogAppenderIf { void print(LogLevel, const std::string&) override {} };

/// Everything that is logged while it lives
struct Log {
	std::vector<Line> lines;
	explicit Log(int level) {
		World::logLevel = static_cast<LogLevel>(level);
		Logger::setLogLevel(World::logLevel);
		Logger::setAppender(std::make_unique<Recorder>(lines));
	}
	~Log() {
		World::logLevel = LogLevel::OFF;
		Logger::setLogLevel(LogLevel::OFF);
		Logger::setAppender(std::make_unique<Null>());
	}
	Log(const Log&) = delete;
	std::vector<Line> take(int from, int to) {
		std::vector<Line> v;
		for (auto& l : lines) if (l.level >= from && l.level <= to) v.push_back(l);
		lines.clear();
		return v;
	}
};

/// The numbers a message contains: those after 0x and the others
struct Numbers {
	std::vector<uint64_t> hex, dec;
	explicit Numbers(const std::string& s) {
		for (size_t i = 0; i < s.size();) {
			if (!std::isalnum(static_cast<unsigned char>(s[i]))) { ++i; continue; }
			size_t j = i;
			while (j < s.size() && std::isalnum(static_cast<unsigned char>(s[j]))) ++j;
			auto word = s.substr(i, j - i);
			if (word.size() > 2 && word[0] == '0' && (word[1] == 'x' || word[1] == 'X') && word.find_first_not_of("0123456789abcdefABCDEF", 2) == std::string::npos && word.size() < 19)
				hex.push_back(std::stoull(word.substr(2), nullptr, 16));
			else if (word.find_first_not_of("0123456789") == std::string::npos && word.size() < 19) dec.push_back(std::stoull(word));
			i = j;
		}
	}
};
std::string text(const std::vector<Line>& v) {
	std::string s;
	for (auto& l : v) s += fmt(" [%d] ", l.level) + show(l.text);
	return v.empty() ? " nothing" : s;
}
bool has(const std::vector<uint64_t>& v, uint64_t x) { return std::find(v.begin(), v.end(), x) != v.end(); }

/// One message of the level with these numbers (in this order, if they are all of them)
void one(Ctx& c, const std::vector<Line>& v, int level, const std::vector<uint64_t>& hexes, const std::vector<uint64_t>& decs, bool all, const std::string& what) {
	if (v.size() != 1 || v[0].level != level) c.fail("logged about " + what + ":" + text(v));
	Numbers n(v[0].text);
	bool ok = true;
	if (all) ok = n.hex == hexes;
	else for (auto x : hexes) ok = ok && has(n.hex, x);
	for (auto x : decs) ok = ok && has(n.dec, x);
	if (!ok) c.fail("logged about " + what + ": " + show(v[0].text));
	c.compared();
}

// ---- refusals -----------------------------------------------------------------------------------------------

/// Answers everything like a sane device until told to refuse
struct Refusing {
	IoWorld w;
	std::shared_ptr<SessionInfo> si;
	int left = -1; // requests until the refused one
	uint8_t status = 0;
	std::vector<uint16_t> words;
	Refusing() {
		auto io = w.dev.onCip;
		w.dev.onCip = [this, io](const ref::CipRequest& q) {
			if (left-- == 0) return ref::CipReply::error(status, words);
			if (q.path.cls == 6) return io(q);
			switch (q.path.cls) {
				case 1: return ref::CipReply(ref::W().u16(1).u16(2).u16(3).u8(1).u8(2).u16(4).u32(5).shortString("D"));
				case 0x0F:
					if (q.service == 1) return ref::CipReply(ref::W().u16(7).u8(0).u16(4).u8(0xC7).u8(2).shortString("P").shortString("Hz").shortString("h").u16(0).u16(300).u16(7).fill(16, 0).u8(0));
					if (q.path.attr == 6) return ref::CipReply(ref::W().u8(2));
					if (q.path.inst == 8) return ref::CipReply(ref::W().u16(0)); // one fault only
					return ref::CipReply(ref::W().u16(3));
				case 0x37:
					if (q.service == 0x4B) return ref::CipReply(ref::W().u32(12).u8(5));
					if (q.service == 0x4F) return ref::CipReply(ref::W().u8(q.data.at(0)).u8(q.data[0] ? 1 : 0).raw(pattern(5)));
					return ref::CipReply(ref::W().u8(2));
				case 0x97: return ref::CipReply(q.service == 0x10 ? Bytes() : Bytes(50, 1));
				default: return ref::CipReply();
			}
		};
		si = w.session();
	}
};

struct Operation { const char* name; int level; std::function<void(Refusing&)> run; };
std::shared_ptr<MessageRouter> plain() { return std::make_shared<MessageRouter>(); }

const std::vector<Operation>& operations() {
	using cip::EPath;
	static const std::vector<Operation> v = {
		{"an answer the program reports", ERR, [](Refusing& r) { r.left = 0; logGeneralAndAdditionalStatus(MessageRouter().sendRequest(r.si, 0x0E, EPath(4, 1, 3))); }},
		{"an answer of the Yaskawa router", ERR, [](Refusing& r) { r.left = 0; logGeneralAndAdditionalStatus(Yaskawa_MessageRouter().sendRequest(r.si, 0x0E, cip::Yaskawa_EPath(4, 1, 3))); }},
		{"reading an identity", ERR, [](Refusing& r) { r.left = 0; IdentityObject(1, r.si); }},
		{"reading a parameter", ERR, [](Refusing& r) { r.left = 0; ParameterObject(1, false, r.si); }},
		{"reading a whole parameter", ERR, [](Refusing& r) { r.left = 0; ParameterObject(1, true, r.si); }},
		{"the multiplier of a parameter", ERR, [](Refusing& r) { r.left = 1; ParameterObject(1, true, r.si); }},
		{"the divisor of a parameter", ERR, [](Refusing& r) { r.left = 2; ParameterObject(1, true, r.si); }},
		{"the base of a parameter", ERR, [](Refusing& r) { r.left = 3; ParameterObject(1, true, r.si); }},
		{"the offset of a parameter", ERR, [](Refusing& r) { r.left = 4; ParameterObject(1, true, r.si); }},
		{"updating a parameter", ERR, [](Refusing& r) { ParameterObject p(1, true, 2); r.left = 0; p.updateValue(r.si); }},
		{"beginning an upload", ERR, [](Refusing& r) { FileObject f(0xC8, r.si); r.left = 0; f.beginUpload(r.si, [](auto, auto&) {}); }},
		{"the first transfer", ERR, [](Refusing& r) { FileObject f(0xC8, r.si); f.beginUpload(r.si, [](auto, auto&) {}); r.left = 0; f.handleTransfers(r.si); }},
		{"the second transfer", ERR, [](Refusing& r) { FileObject f(0xC8, r.si); f.beginUpload(r.si, [](auto, auto&) {}); f.handleTransfers(r.si); r.left = 0; f.handleTransfers(r.si); }},
		{"reading a fault", ERR, [](Refusing& r) { r.left = 0; DPIFaultParameter(r.si, plain(), 1, true); }},
		{"reading the details of a fault", ERR, [](Refusing& r) { r.left = 1; DPIFaultParameter(r.si, plain(), 1, true); }},
		{"reading a fault object", ERR, [](Refusing& r) { r.left = 0; vendor::ra::powerFlex525::DPIFaultObject(1, r.si); }},
		{"a command to the fault manager", ERR, [](Refusing& r) { r.left = 0; DPIFaultManager(true, false, false).writeCommand(vendor::ra::powerFlex525::DPIFaultManagerCommands::CLEAR_FAULT, r.si); }},
		{"opening a connection", ERR, [](Refusing& r) { r.left = 0; ConnectionManager().forwardOpen(r.si, ioParameters(100000, 100000)); }},
		{"opening a large connection", ERR, [](Refusing& r) { r.left = 0; auto p = ioParameters(100000, 100000); p.o2tNetworkConnectionParams = p.t2oNetworkConnectionParams = 0x40000004; ConnectionManager().largeForwardOpen(r.si, p); }},
		{"closing a connection", WARN, [](Refusing& r) { ConnectionManager m; auto io = m.forwardOpen(r.si, ioParameters(100000, 100000)); r.left = 0; m.forwardClose(r.si, io); }},
	};
	return v;
}

void refused(Ctx& c, const Operation& op, uint8_t status, const std::vector<uint16_t>& words) {
	Log log(TRC);
	Refusing r;
	r.status = status;
	r.words = words;
	r.left = -1;
	auto o = attempt([&] { op.run(r); });
	c.step(fmt("%s refused with %x, %zu words", op.name, status, words.size()));
	auto v = log.take(ERR, WARN);
	std::vector<uint64_t> hexes{status};
	if (op.level == ERR) for (auto w : words) hexes.push_back(w);
	one(c, v, op.level, hexes, {}, op.level == ERR, fmt("the refusal of %s with status 0x%x and %zu words", op.name, status, words.size()));
	r.w.conforming(c);
	c.obs(o.threw);
	c.state(mix(status, mc::hash(op.name)));
}

// ---- requests -----------------------------------------------------------------------------------------------

void requested(Ctx& c, int router, int service, const std::vector<int>& path) {
	Log log(INF);
	World w;
	w.dev.onCip = [](const ref::CipRequest&) { return ref::CipReply(); };
	auto si = w.session();
	log.take(ERR, TRC);
	auto o = attempt([&] {
		if (router == 2) {
			Yaskawa_MessageRouter r;
			auto s = static_cast<uint8_t>(service);
			if (path.size() == 1) r.sendRequest(si, s, cip::Yaskawa_EPath(path[0]));
			if (path.size() == 2) r.sendRequest(si, s, cip::Yaskawa_EPath(path[0], path[1]), {});
			if (path.size() == 3) r.sendRequest(si, s, cip::Yaskawa_EPath(path[0], path[1], path[2]), {}, {});
		} else {
			MessageRouter r(router == 1);
			auto s = static_cast<uint8_t>(service);
			if (path.size() == 1) r.sendRequest(si, s, cip::EPath(path[0]));
			if (path.size() == 2) r.sendRequest(si, s, cip::EPath(path[0], path[1]), {});
			if (path.size() == 3) r.sendRequest(si, s, cip::EPath(path[0], path[1], path[2]), {}, {});
		}
	});
	if (o.threw) c.fail("a request fails: " + o.what);
	auto v = log.take(ERR, INF);
	std::vector<uint64_t> decs(path.begin(), path.end());
	one(c, v, INF, {static_cast<uint64_t>(service)}, decs, true, fmt("a request of service 0x%x", service));
	c.equal(Numbers(v[0].text).dec, decs, "the path in " + show(v[0].text));
	c.state(mix(service, router));
	c.obs(service);
}

// ---- implicit connections -----------------------------------------------------------------------------------

struct Io {
	Ctx& c;
	Log log{INF};
	IoWorld w;
	std::shared_ptr<SessionInfo> si;
	ConnectionManager m;
	struct Conn { IOConnection::WPtr io; uint32_t o2t, t2o; uint16_t serial; bool open = true; };
	std::vector<Conn> conns;
	int received = 0;

	explicit Io(Ctx& ctx) : c(ctx) {
		si = w.session();
		log.take(ERR, TRC);
	}
	void open(uint32_t o2t, uint32_t t2o, unsigned multiplier = 7) {
		auto p = ioParameters(1000000, 1000000, 6, 5);
		p.t2oNetworkConnectionParams = 0x2000 | 5; // multicast: the device chooses the id
		p.connectionTimeoutMultiplier = multiplier;
		w.nextO2t = o2t;
		w.t2oOverride = t2o;
		auto io = m.forwardOpen(si, p);
		auto& rec = w.opens.back();
		conns.push_back({io, o2t, t2o, rec.fo.serial});
		if (auto s = io.lock()) {
			s->setDataToSend(pattern(6));
			s->setReceiveDataListener([this](auto, auto, auto&) { ++received; });
		}
	}
	std::vector<Line> opened() {
		auto all = log.take(ERR, INF);
		std::vector<Line> v;
		for (auto& l : all) if (l.level < INF) v.push_back(l);
		infos.clear();
		for (auto& l : all) if (l.level == INF) infos.push_back(l);
		return v;
	}
	std::vector<Line> infos;
	void feed(const Bytes& b) {
		w.net.datagram({ip("10.0.0.1"), 2222}, 2222, b, w.net.now());
		m.handleConnections(milliseconds(0));
	}
	Bytes message(uint32_t id, size_t size) { return ref::implicitMessage(id, 1, ref::W().u16(1).raw(pattern(size))); }
	void quiet(const std::string& what) {
		auto v = log.take(ERR, WARN);
		if (!v.empty()) c.fail("logged about " + what + ":" + text(v));
		c.compared();
	}
};

const std::vector<uint32_t> IDS = {1, 9, 10, 0x7fffffff, 0x80000000u, 0xffffffffu};

/// One thing that goes wrong with a connection and what is logged
constexpr int EVENTS = 11;
void event(Io& g, int e, size_t k) {
	auto& c = g.c;
	auto& x = g.conns.at(k);
	auto take = [&] { return g.log.take(ERR, WARN); };
	int before = g.received;
	switch (e) {
		case 0:
			g.feed(g.message(x.t2o, 5));
			if (x.open) { g.quiet("a message"); c.equal(g.received, before + 1, "messages delivered"); }
			else one(c, take(), ERR, {}, {x.t2o}, false, "a message for a closed connection");
			break;
		case 1: g.feed(g.message(x.t2o ^ 0x1234, 5)); one(c, take(), ERR, {}, {x.t2o ^ 0x1234}, false, "a message for an unknown connection"); break;
		case 2: case 3: {
			size_t size = e == 2 ? 4 : 17;
			g.feed(g.message(x.t2o, size));
			if (x.open) one(c, take(), WARN, {}, {x.t2o, 5, size}, false, "a message of a wrong size");
			else one(c, take(), ERR, {}, {x.t2o}, false, "a message for a closed connection");
			break;
		}
		case 4:
			g.feed(ref::implicitMessage(x.t2o, 1, Bytes{7}));
			if (x.open) one(c, take(), WARN, {}, {x.t2o, 1}, false, "a message without its header");
			else one(c, take(), ERR, {}, {x.t2o}, false, "a message for a closed connection");
			break;
		case 5: g.feed(Bytes{2, 0, 2, 0x80}); one(c, take(), WARN, {}, {}, false, "an incomplete datagram"); break;
		case 6: g.feed(ref::cpf({{0x8002, ref::W().u32(x.t2o).u32(1)}})); one(c, take(), WARN, {}, {}, false, "a datagram without data"); break;
		case 7: g.feed(ref::cpf({{0x8002, ref::W().u16(1)}, {0xB1, pattern(7)}})); one(c, take(), WARN, {}, {}, false, "a datagram without connection"); break;
		case 8: { // data of a wrong size is to be sent
			if (!x.open) break;
			x.io.lock()->setDataToSend(pattern(9));
			g.w.net.advance(1000 * MS);
			g.m.handleConnections(milliseconds(0));
			one(c, take(), WARN, {}, {x.o2t, 6, 9}, false, "data of a wrong size");
			x.io.lock()->setDataToSend(pattern(6));
			break;
		}
		case 9: { // the network is down
			if (!x.open) break;
			g.w.net.advance(1000 * MS);
			g.w.net.udpSendError = [](const sim::Datagram&) { return ENETUNREACH; };
			g.m.handleConnections(milliseconds(0));
			g.w.net.udpSendError = {};
			auto v = take();
			size_t open = 0;
			for (auto& y : g.conns) open += y.open;
			if (v.size() != open) c.fail("logged about data that could not be sent:" + text(v));
			for (auto& y : g.conns) {
				int n = 0;
				for (auto& l : v) n += l.level == WARN && has(Numbers(l.text).dec, y.o2t);
				if (y.open && n != 1) c.fail(fmt("logged about data for %u that could not be sent:", y.o2t) + text(v));
			}
			break;
		}
		default: { // closed twice
			g.m.forwardClose(g.si, x.io);
			if (x.open) g.quiet("a close");
			else one(c, take(), WARN, {}, {}, false, "closing a closed connection");
			x.open = false;
			break;
		}
	}
	c.state(mix(e, k));
}

// ---- the level changes nothing else --------------------------------------------------------------------------

struct Told { std::vector<std::string> trace; std::vector<Line> lines; };

/// A program in a process of its own, so that all begin with the same counters
const Told& told(int kind, int at, int how, int level, int* requests = nullptr) {
	static std::map<std::tuple<int, int, int, int>, std::pair<Told, int>> cache;
	auto key = std::make_tuple(kind, at, how, level);
	auto it = cache.find(key);
	if (it == cache.end()) {
		int fd[2];
		if (::pipe(fd)) abort();
		pid_t pid = ::fork();
		if (pid < 0) abort();
		if (pid == 0) {
			std::string out;
			auto add = [&](char k, const std::string& s) {
				out += k;
				for (unsigned char b : s) { out += "0123456789abcdef"[b >> 4]; out += "0123456789abcdef"[b & 15]; }
				out += '\0';
			};
			{
				Log log(level);
				{
					Fixture f{static_cast<LogLevel>(level)};
					auto& h = f.host(0);
					h.failAt = at;
					h.failHow = how;
					auto a = make(kind, f, 1, 0);
					while (!a->done()) a->run();
					add('r', std::to_string(h.requests));
					for (auto& s : a->trace) add('t', s);
					a.reset();
					f.manager.reset();
					for (auto& s : f.net.streams) add('t', "stream " + hex(s->sent));
					for (auto& d : f.net.sent) add('t', "datagram to " + d.to.str() + fmt(" at %lld ", static_cast<long long>(d.time)) + hex(d.data));
					for (auto& m : f.net.misuse) add('t', "misuse " + m);
				}
				for (auto& l : log.lines) add(static_cast<char>('0' + l.level), l.text);
			}
			add('e', "");
			for (size_t n = 0; n < out.size();) n += std::max<ssize_t>(0, ::write(fd[1], out.data() + n, out.size() - n));
			_exit(0);
		}
		::close(fd[1]);
		std::string all;
		char buffer[65536];
		for (ssize_t n; (n = ::read(fd[0], buffer, sizeof buffer)) > 0;) all.append(buffer, n);
		::close(fd[0]);
		::waitpid(pid, nullptr, 0);
		std::pair<Told, int> result;
		bool complete = false;
		for (size_t i = 0, end; (end = all.find('\0', i)) != std::string::npos; i = end + 1) {
			char k = all[i];
			std::string s;
			for (size_t j = i + 1; j + 1 < end; j += 2) s += static_cast<char>(std::stoi(all.substr(j, 2), nullptr, 16));
			if (k == 'e') complete = true;
			else if (k == 'r') result.second = std::stoi(s);
			else if (k == 't') result.first.trace.push_back(s);
			else result.first.lines.push_back({k - '0', s});
		}
		if (!complete) result.first.trace.push_back("(the program ended before its time)");
		it = cache.emplace(key, result).first;
	}
	if (requests) *requests = it->second.second;
	return it->second.first;
}

void sameAtLevel(Ctx& c, int kind, int at, int how, int level) {
	auto& all = told(kind, at, how, TRC);
	auto& some = told(kind, at, how, level);
	c.step(fmt("%s at level %d", KIND[kind], level));
	for (size_t i = 0; i < std::max(all.trace.size(), some.trace.size()); ++i) {
		auto a = i < all.trace.size() ? all.trace[i] : "(the end)", b = i < some.trace.size() ? some.trace[i] : "(the end)";
		if (a != b) c.fail(fmt("%s: at level 5 \"", KIND[kind]) + a + fmt("\" but at level %d \"", level) + b + "\"");
	}
	std::vector<Line> expected;
	for (auto& l : all.lines) if (l.level <= level) expected.push_back(l);
	for (size_t i = 0; i < std::max(expected.size(), some.lines.size()); ++i) {
		bool same = i < expected.size() && i < some.lines.size() && expected[i].level == some.lines[i].level && expected[i].text == some.lines[i].text;
		if (!same) c.fail(fmt("%s: at level 5 the log says", KIND[kind]) + text(expected) + fmt(" but at level %d", level) + text(some.lines));
	}
	c.compared();
	c.obs(mc::hash(fmt("%d %d %d", kind, at, how)));
	c.state(mix(mix(kind, at), mix(how, level)));
}

} // namespace

void mc::define(Registry& r) {
	int depth = r.tier(3, 4);
	r.bound("refusals: 20 operations x statuses 1..255 x 6 lists of additional words; two additional words, one over all 65536 values");
	r.bound("requests: 3 routers x 256 services x 3 path lengths, each id of a path over all its values");
	r.bound(fmt("what goes wrong with implicit connections: all sequences of %d of %d events on 2 connections", depth, EVENTS));
	r.bound("sessions: handles and answers; discovery: malformed replies; a file: all states");
	r.bound("levels: 8 programs x each request refused or answered incompletely x 6 levels, compared to the most detailed one");

	for (int kind = 0; kind < KINDS; ++kind) {
		int n;
		told(kind, -1, 0, TRC, &n);
		for (int l = 0; l < TRC; ++l) told(kind, -1, 0, l);
		for (int at = 0; at < n; ++at) for (int how = 0; how < 3; ++how) for (int l = 0; l <= TRC; ++l) told(kind, at, how, l);
	}
	r.add("levels", [](Ctx& c) {
		int kind = c.choose(KINDS, "program"), n = 0, how = 0;
		told(kind, -1, 0, TRC, &n);
		int at = c.choose(n + 1, "request") - 1;
		if (at >= 0) how = c.choose(3, "how");
		sameAtLevel(c, kind, at, how, c.choose(TRC, "level"));
	});
	r.add("refusals", [](Ctx& c) {
		static const std::vector<std::vector<uint16_t>> words = {{}, {0}, {0x107}, {0xFFFF, 1}, {0xA, 0xB, 0xC}, {1, 1, 0, 0x8000}};
		auto& op = operations()[c.choose(static_cast<int>(operations().size()), "operation")];
		auto& w = c.pick(words, "words");
		refused(c, op, static_cast<uint8_t>(1 + c.choose(255, "status")), w);
	});
	r.add("accepted", [](Ctx& c) {
		auto& op = operations()[c.choose(static_cast<int>(operations().size()), "operation")];
		Log log(TRC);
		Refusing r;
		// what would be refused is asked for, but answered
		r.w.dev.onCip = [&r, inner = r.w.dev.onCip](const ref::CipRequest& q) { r.left = -1; return inner(q); };
		auto o = attempt([&] { op.run(r); });
		auto v = log.take(ERR, WARN);
		bool reports = std::string(op.name).find("an answer") == 0;
		if (reports) one(c, v, ERR, {0}, {}, true, "an answer that is no refusal");
		else if (o.threw || !v.empty()) c.fail(std::string(op.name) + " succeeds, " + (o.threw ? "but raises " + o.what + " " : "") + "logged:" + text(v));
		c.compared();
		c.state(mc::hash(op.name));
	});
	r.add("words", [](Ctx& c) {
		int high = c.choose(256, "high byte"), where = c.choose(2, "position");
		for (int low = 0; low < 256; ++low) {
			auto w = static_cast<uint16_t>(high << 8 | low);
			cip::MessageRouterResponse resp;
			auto bytes = where ? ref::CipReply::error(0x1F, {0x55, w}).encode(0x0E) : ref::CipReply::error(0x1F, {w, 0x55}).encode(0x0E);
			resp.expand(bytes);
			Log log(ERR);
			logGeneralAndAdditionalStatus(resp);
			std::vector<uint64_t> hexes{0x1F, w, 0x55};
			if (where) hexes = {0x1F, 0x55, w};
			one(c, log.take(ERR, TRC), ERR, hexes, {}, true, fmt("the word %x", w));
		}
		c.state(high * 2 + where);
		c.obs(high);
	});
	r.add("requests", [](Ctx& c) {
		int router = c.choose(3, "router"), length = 1 + c.choose(3, "length"), service = c.choose(256, "service");
		std::vector<int> path{0x64, 7, 99};
		path.resize(length);
		requested(c, router, service, path);
	});
	r.add("paths", [](Ctx& c) {
		int router = c.choose(3, "router"), where = c.choose(3, "id");
		int high = router == 0 ? c.choose(256, "high byte") : 0;
		for (int low = 0; low < 256; low += router == 0 ? 15 : 1) {
			std::vector<int> path{1, 2, 3};
			path[where] = high << 8 | low;
			requested(c, router, 0x4E, path);
		}
	});
	r.add("opens and closes", [](Ctx& c) {
		Io g(c);
		uint32_t o2t = c.pick(IDS, "O2T id"), t2o = c.pick(IDS, "T2O id");
		g.open(o2t, t2o, 0);
		if (!g.opened().empty()) c.fail("errors are logged");
		bool ok = false;
		for (auto& l : g.infos) { Numbers n(l.text); ok = ok || (has(n.dec, o2t) && has(n.dec, t2o) && has(n.dec, g.conns[0].serial)); }
		c.check(ok, "the ids of the new connection are not logged:" + text(g.infos));
		switch (c.choose(3, "end")) {
			case 0:
				g.m.forwardClose(g.si, g.conns[0].io);
				if (!g.opened().empty()) c.fail("errors are logged");
				ok = false;
				for (auto& l : g.infos) ok = ok || has(Numbers(l.text).dec, t2o);
				c.check(ok, "the id of the closed connection is not logged:" + text(g.infos));
				break;
			case 1:
				g.w.net.advance(4001 * MS);
				g.m.handleConnections(milliseconds(0));
				one(c, g.log.take(ERR, WARN), WARN, {}, {g.conns[0].serial}, false, "a timeout");
				break;
			default: // the device gives the same id again
				g.open(o2t ^ 5, t2o, 0);
				one(c, g.log.take(ERR, WARN), ERR, {}, {t2o}, false, "an id which is in use");
		}
		c.compared();
		c.state(mix(o2t, t2o));
	});
	r.add("events", [depth](Ctx& c) {
		Io g(c);
		g.open(0xA0000001u, 0x7000u);
		g.open(0xA0000002u, 0xF000u);
		c.check(g.opened().empty(), "errors are logged");
		uint64_t h = 0;
		for (int i = 0; i < depth; ++i) {
			int e = c.choose(EVENTS, "event"), k = c.choose(2, "connection");
			event(g, e, k);
			h = mix(h, e * 2 + k);
		}
		c.obs(h);
	});
	r.add("sessions", [](Ctx& c) {
		static const std::vector<uint32_t> handles = {0, 1, 9, 0x12345678, 0x7fffffff, 0x80000000u, 0xffffffffu};
		Log log(INF);
		World w;
		w.dev.handle = c.pick(handles, "handle");
		int how = c.choose(3, "end");
		{
			auto si = w.session();
			one(c, log.take(ERR, INF), INF, {}, {w.dev.handle}, false, "a new session");
			if (how == 1) { w.net.streams.at(0)->pushRst(0); w.net.advance(MS); }
			if (how == 2) {
				// the answer ends too early
				w.dev.onFrame = [](sim::Stream& s, const ref::Frame&) { s.push(Bytes(11, 0), 0); s.pushFin(0); return true; };
				auto o = attempt([&] { MessageRouter().sendRequest(si, 0x0E, cip::EPath(1, 1)); });
				c.check(o.threw, "an answer of 11 bytes is accepted");
				one(c, log.take(ERR, WARN), WARN, {}, {11, 24}, false, "an incomplete answer");
				w.dev.onFrame = {};
			}
		}
		auto v = log.take(ERR, INF);
		if (how == 0) one(c, v, INF, {}, {w.dev.handle}, false, "the end of a session");
		if (how == 1) one(c, v, WARN, {}, {w.dev.handle}, false, "the failed end of a session");
		c.state(mix(w.dev.handle, how));
		c.obs(how);
	});
	r.add("discovery", [](Ctx& c) {
		static const std::vector<int> kinds = {0, 1, 2, 3, 4};
		Log log(WARN);
		World w;
		int n = 1 + c.choose(3, "replies");
		size_t expected = 0, devices = 0;
		std::vector<Bytes> replies;
		for (int i = 0; i < n; ++i) {
			Bytes item = ref::W().u16(1).raw(ref::sockaddrItem(ip("10.0.0.9"), 44818)).u16(1).u16(8).u16(9).u8(1).u8(2).u16(0x30).u32(i).shortString("X").u8(3);
			Bytes good = ref::encap(ref::LIST_IDENTITY, 0, 0, ref::cpf({{0xC, item}}));
			switch (c.pick(kinds, "reply")) {
				case 0: replies.push_back(good); ++devices; break;
				case 1: good.resize(23); replies.push_back(good); ++expected; break;
				case 2: good.resize(27); replies.push_back(good); ++expected; break;
				case 3: good.pop_back(); replies.push_back(good); ++expected; break;
				default: item.resize(30); replies.push_back(ref::encap(ref::LIST_IDENTITY, 0, 0, ref::cpf({{0xC, item}}))); ++expected; break;
			}
		}
		w.net.onDatagram = [&](const sim::Datagram& d) { for (size_t i = 0; i < replies.size(); ++i) w.net.datagram({ip("10.0.0.9"), 44818}, d.from.port, replies[i], w.net.now() + static_cast<sim::Time>(i + 1) * MS); };
		DiscoveryManager m("10.0.0.255", 44818, milliseconds(50));
		auto found = m.discover();
		auto v = log.take(ERR, WARN);
		bool ok = v.size() == expected && found.size() == devices;
		for (auto& l : v) ok = ok && l.level == WARN;
		if (!ok) c.fail(fmt("%zu malformed replies, %zu devices found, logged:", expected, found.size()) + text(v));
		c.compared();
		c.obs(expected);
		c.state(mix(expected, devices));
	});
	r.add("files", [](Ctx& c) {
		// the states a file object goes through, with its number
		Log log(DBG);
		World w;
		int number = c.pick(std::vector<int>{0, 9, 0xC8, 0x1234, 0xFFFF}, "number");
		int code = c.choose(8, "state"), end = c.choose(5, "end");
		w.dev.onCip = [&](const ref::CipRequest& q) {
			if (q.service == 0x4B) { if (end == 4) return ref::CipReply(Bytes{1}); return ref::CipReply(ref::W().u32(6).u8(6)); }
			if (q.service == 0x4F) {
				if (end == 0) return ref::CipReply(ref::W().u8(0).u8(4).raw(pattern(6)).u16(1));
				if (end == 1) return ref::CipReply(ref::W().u8(5).u8(4).raw(pattern(6)).u16(1));
				if (end == 2) return ref::CipReply(ref::W().u8(0).u8(4).raw(pattern(5)).u16(1));
				return ref::CipReply(ref::W().u8(0));
			}
			return ref::CipReply(ref::W().u8(code));
		};
		auto si = w.session();
		int status = -1;
		auto o = attempt([&] {
			FileObject f(static_cast<cip::CipUint>(number), si);
			f.beginUpload(si, [&](auto s, auto&) { status = s; });
			while (f.handleTransfers(si)) {}
		});
		std::string digits = fmt("%x", number);
		int errors = 0;
		for (auto& l : log.lines) {
			if (l.level > WARN) continue;
			++errors;
			bool named = false;
			for (size_t i = 0; i < l.text.size();) {
				size_t j = i;
				while (j < l.text.size() && std::isalnum(static_cast<unsigned char>(l.text[j]))) ++j;
				named = named || l.text.substr(i, j - i) == digits;
				i = j + 1;
			}
			if (!named) c.fail(fmt("the file 0x%x is not named: ", number) + show(l.text));
		}
		auto starts = [&](const std::string& name) {
			int n = 0;
			for (auto& l : log.lines) n += l.level == DBG && l.text.find("<" + name + ">") != std::string::npos && l.text.find("Start") != std::string::npos;
			return n;
		};
		static const char* NAMES[] = {"NONEXISTENT", "FILE_EMPTY", "FILE_LOADED"};
		bool uploads = code == 2 || code == 3 || code == 5;
		if (code < 3) c.check(starts(NAMES[code]) >= 1, fmt("the state %s is not logged", NAMES[code]));
		c.equal(starts("TRANSFER_UPLOAD_IN_PROGRESS"), uploads && end != 4 ? 1 : 0, "number of uploads logged");
		if (uploads) {
			int expected = (code != 2) + (end != 0);
			c.equal(errors, expected, "number of warnings and errors");
			c.check(end == 0 ? status == 0 : status > 0, "the upload ends with another status");
		}
		c.obs(mix(code, end));
		c.state(mix(mix(code, end), number));
		(void) o;
	});
}
