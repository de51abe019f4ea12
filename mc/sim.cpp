#include "sim.h"
#include <algorithm>
#include <arpa/inet.h>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstring>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

namespace sim {

static Net* theNet = nullptr;
Net& net() { return *theNet; }
bool active() { return theNet != nullptr; }

uint32_t ip(const std::string& dotted) {
	in_addr a{};
	inet_pton(AF_INET, dotted.c_str(), &a);
	return ntohl(a.s_addr);
}

std::string Addr::str() const {
	return mc::fmt("%u.%u.%u.%u:%u", ip >> 24, (ip >> 16) & 255, (ip >> 8) & 255, ip & 255, port);
}

static Addr fromSockaddr(const sockaddr* sa, socklen_t len) {
	Addr a;
	if (sa && len >= sizeof(sockaddr_in)) {
		auto in = reinterpret_cast<const sockaddr_in*>(sa);
		a.ip = ntohl(in->sin_addr.s_addr);
		a.port = ntohs(in->sin_port);
	}
	return a;
}

static void toSockaddr(const Addr& a, sockaddr* sa, socklen_t* len) {
	if (!sa || !len) return;
	sockaddr_in in{};
	in.sin_family = AF_INET;
	in.sin_addr.s_addr = htonl(a.ip);
	in.sin_port = htons(a.port);
	memcpy(sa, &in, std::min<size_t>(*len, sizeof in));
	*len = sizeof in;
}

void Stream::push(const Bytes& data, Time delay) {
	Time at = net().now() + delay;
	if (!incoming.empty()) at = std::max(at, incoming.back().at);
	incoming.push_back({at, Segment::DATA, data});
}
void Stream::pushFin(Time delay) {
	Time at = net().now() + delay;
	if (!incoming.empty()) at = std::max(at, incoming.back().at);
	incoming.push_back({at, Segment::FIN, {}});
}
void Stream::pushRst(Time delay) {
	Time at = net().now() + delay;
	if (!incoming.empty()) at = std::max(at, incoming.back().at);
	incoming.push_back({at, Segment::RST, {}});
}

Net::Net() {
	if (theNet) mc::ctx().fail("harness error: two environments");
	theNet = this;
}
Net::~Net() { theNet = nullptr; }

void Net::advance(Time d) { waitUntil(now_ + d); }

void Net::datagram(Addr from, uint16_t toPort, const Bytes& data, Time at) {
	Datagram d;
	d.time = at;
	d.from = from;
	d.to = {0, toPort};
	d.data = data;
	auto pos = std::upper_bound(flying.begin(), flying.end(), at, [](Time t, const Datagram& x) { return t < x.time; });
	flying.insert(pos, d);
}

void Net::datagramError(uint16_t toPort, int err, Time at) { flyingErrors.insert({at, {toPort, err}}); }

std::vector<int> Net::openFds() const {
	std::vector<int> v;
	for (auto& s : socks) if (s.second.open) v.push_back(s.first);
	return v;
}

Sock* Net::find(int fd, const char* call) {
	auto it = socks.find(fd);
	if (it != socks.end() && it->second.open) return &it->second;
	std::string what = mc::fmt("%s() on descriptor %d which is %s", call, fd, ours(fd) ? "already closed" : "not a descriptor of the library");
	misuse.push_back(what);
	if (failOnMisuse) mc::ctx().fail(what);
	return nullptr;
}

void Net::count(const char* call) {
	lastCall = call;
	mc::ctx().alive();
	if (++calls > horizon) mc::ctx().fail(mc::fmt("does not terminate: more than %llu system calls (the last one is %s)", static_cast<unsigned long long>(horizon), call));
	pump();
}

void Net::pump() {
	for (auto& st : streams) {
		while (!st->incoming.empty() && st->incoming.front().at <= now_) {
			auto seg = std::move(st->incoming.front());
			st->incoming.pop_front();
			if (seg.kind == Segment::DATA) {
				if (st->readyPos == st->ready.size()) { st->ready.clear(); st->readyPos = 0; }
				if (!st->fin && !st->rst) st->ready.insert(st->ready.end(), seg.data.begin(), seg.data.end());
			} else if (seg.kind == Segment::FIN) st->fin = true;
			else { st->rst = true; st->ready.clear(); st->readyPos = 0; }
		}
	}
	while (!flying.empty() && flying.front().time <= now_) {
		Datagram d = flying.front();
		flying.erase(flying.begin());
		Sock* best = nullptr;
		for (auto& s : socks)
			if (s.second.open && !s.second.tcp && s.second.bound && s.second.local.port == d.to.port
				&& (!best || s.second.bindOrder > best->bindOrder)) best = &s.second;
		if (best) best->inbox.push_back(d);
	}
	while (!flyingErrors.empty() && flyingErrors.begin()->first <= now_) {
		auto e = *flyingErrors.begin();
		flyingErrors.erase(flyingErrors.begin());
		for (auto& s : socks)
			if (s.second.open && !s.second.tcp && s.second.bound && s.second.local.port == e.second.first) s.second.pendingError = e.second.second;
	}
	for (auto& p : socks) {
		Sock& s = p.second;
		if (s.open && s.tcp && s.connectCalled && !s.connected && s.connectDone <= now_ && !s.pendingError && s.connectError == 0 && s.willConnect) {
			s.connected = true;
			auto st = std::make_shared<Stream>();
			st->id = static_cast<int>(streams.size());
			st->remote = s.connectedTo;
			st->connectedAt = s.connectDone;
			auto l = listeners.find(s.connectedTo);
			st->peer = l != listeners.end() ? l->second : nullptr;
			s.stream = st;
			streams.push_back(st);
			if (st->peer) st->peer->onConnect(*st);
		} else if (s.open && s.tcp && s.connectCalled && !s.connected && s.connectDone <= now_ && s.connectError) {
			s.pendingError = s.connectError;
			s.connectError = 0;
			s.willConnect = false;
		}
	}
}

Time Net::nextEvent() const {
	Time t = FOREVER;
	for (auto& st : streams) if (!st->clientClosed && !st->incoming.empty()) t = std::min(t, st->incoming.front().at);
	if (!flying.empty()) t = std::min(t, flying.front().time);
	if (!flyingErrors.empty()) t = std::min(t, flyingErrors.begin()->first);
	for (auto& p : socks) {
		auto& s = p.second;
		if (s.open && s.tcp && s.connectCalled && !s.connected && (s.willConnect || s.connectError)) t = std::min(t, s.connectDone);
	}
	return t;
}

void Net::waitUntil(Time t) {
	// step by step, so that everything happens in order
	if (t > now_) ++wallSteps;
	for (;;) {
		Time e = nextEvent();
		if (e > t) break;
		if (e > now_) now_ = e;
		pump();
	}
	if (t > now_) now_ = t;
	pump();
}

bool Net::readable(const Sock& s) const {
	if (!s.open) return false;
	if (s.tcp) {
		if (s.pendingError) return true;
		if (!s.stream) return false;
		return s.stream->readyPos < s.stream->ready.size() || s.stream->fin || s.stream->rst || s.shut;
	}
	return !s.inbox.empty() || s.pendingError;
}

static int err(int e) {
	if (e != EINTR && e != EINPROGRESS) net().errors.push_back({net().lastCall, e});
	errno = e;
	return -1;
}

static void log_(const char* name, int fd, const std::string& detail = "") {
	if (net().logCalls) net().callLog.push_back({net().now(), name, fd, detail});
	if (mc::ctx().verbose()) mc::ctx().note(mc::fmt("      %.6f %s(%d) %s", net().now() / 1e9, name, fd, detail.c_str()));
}

#define log(...) do { if (net().logCalls || mc::ctx().verbose()) log_(__VA_ARGS__); } while (0)

static void interrupted() { ++net().interrupts; }

// ---------------------------------------------------------------------------------------------------------------

static int doSocket(int domain, int type, int) {
	Net& n = net();
	n.count("socket");
	if ((n.faults & F_SOCKET) && mc::ctx().deviate(2, "socket: EMFILE")) { log("socket", -1, "EMFILE"); return err(EMFILE); }
	int fd;
	if (n.zeroFd && !n.zeroUsed && n.socketsOpened + 1 >= static_cast<uint64_t>(n.zeroFd)) { fd = 0; n.zeroUsed = true; }
	else if (n.nextFd < 800) fd = n.nextFd++;
	else if (!n.freeFds.empty()) { fd = n.freeFds.front(); n.freeFds.pop_front(); }
	else return err(EMFILE);
	Sock s;
	s.fd = fd;
	s.tcp = (type & 0xf) == SOCK_STREAM;
	s.nonBlocking = (type & SOCK_NONBLOCK) != 0;
	s.family = domain;
	s.openedAt = n.now();
	n.socks[fd] = s;
	++n.socketsOpened;
	log("socket", fd, s.tcp ? "TCP" : "UDP");
	return fd;
}

static int doClose(int fd) {
	Net& n = net();
	n.count("close");
	Sock* s = n.find(fd, "close");
	log("close", fd);
	if (!s) return err(EBADF);
	s->open = false;
	++n.socketsClosed;
	n.freeFds.push_back(fd);
	if (s->stream) {
		s->stream->clientClosed = true;
		s->stream->closedAt = n.now();
		if (!s->stream->clientShut) { s->stream->clientShut = true; if (s->stream->peer) s->stream->peer->onShutdown(*s->stream); }
		s->stream.reset();
	}
	n.socks.erase(fd);
	return 0;
}

static int doShutdown(int fd, int how) {
	Net& n = net();
	n.count("shutdown");
	Sock* s = n.find(fd, "shutdown");
	log("shutdown", fd);
	if (!s) return err(EBADF);
	if (!s->stream) return err(ENOTCONN);
	if (how != SHUT_RD && !s->stream->clientShut) {
		s->stream->clientShut = true;
		if (s->stream->peer) s->stream->peer->onShutdown(*s->stream);
	}
	if (how != SHUT_WR) s->shut = true;
	return 0;
}

static int doBind(int fd, const sockaddr* sa, socklen_t len) {
	Net& n = net();
	n.count("bind");
	Sock* s = n.find(fd, "bind");
	if (!s) return err(EBADF);
	if ((n.faults & F_SETUP) && mc::ctx().deviate(2, "bind: EADDRINUSE")) { log("bind", fd, "EADDRINUSE"); return err(EADDRINUSE); }
	Addr a = fromSockaddr(sa, len);
	bool reuse = s->options.count({SOL_SOCKET, SO_REUSEADDR}) && s->options[{SOL_SOCKET, SO_REUSEADDR}];
	bool reusePort = s->options.count({SOL_SOCKET, SO_REUSEPORT}) && s->options[{SOL_SOCKET, SO_REUSEPORT}];
	if (a.port)
		for (auto& o : n.socks)
			if (o.second.open && o.second.bound && o.second.tcp == s->tcp && o.second.local.port == a.port
				&& (o.second.local.ip == 0 || a.ip == 0 || o.second.local.ip == a.ip)) {
				auto& oo = o.second.options;
				bool both = (reuse && oo.count({SOL_SOCKET, SO_REUSEADDR}) && oo[{SOL_SOCKET, SO_REUSEADDR}])
					|| (reusePort && oo.count({SOL_SOCKET, SO_REUSEPORT}) && oo[{SOL_SOCKET, SO_REUSEPORT}]);
				if (!both) { log("bind", fd, "EADDRINUSE (really)"); return err(EADDRINUSE); }
			}
	if (!a.port) a.port = n.ephemeral++;
	s->bound = true;
	s->local = a;
	s->bindOrder = ++n.bindCounter;
	log("bind", fd, a.str());
	return 0;
}

static int finishConnect(Sock& s) {
	Net& n = net();
	// blocking connect
	Time deadline = s.sendTimeout ? n.now() + s.sendTimeout : FOREVER;
	Time done = (s.willConnect || s.connectError) ? s.connectDone : n.now() + 127 * SEC;
	if (done > deadline) { n.waitUntil(deadline); return err(EINPROGRESS); }
	n.waitUntil(done);
	if (s.connected) return 0;
	int e = s.pendingError ? s.pendingError : ETIMEDOUT;
	s.pendingError = 0;
	return err(e);
}

static int doConnect(int fd, const sockaddr* sa, socklen_t len) {
	Net& n = net();
	n.count("connect");
	Sock* s = n.find(fd, "connect");
	if (!s) return err(EBADF);
	Addr a = fromSockaddr(sa, len);
	if (!s->tcp) {
		s->connectedTo = a;
		s->connected = true;
		if (!s->bound) { s->bound = true; s->local = {0, n.ephemeral++}; s->bindOrder = ++n.bindCounter; }
		log("connect", fd, "UDP " + a.str());
		return 0;
	}
	if (s->connected) return err(EISCONN);
	if (s->connectCalled) {
		if (s->pendingError) { int e = s->pendingError; s->pendingError = 0; return err(e); }
		if (s->nonBlocking) return err(EALREADY);
		return finishConnect(*s);
	}
	s->connectCalled = true;
	s->connectedTo = a;
	Connecting how = n.connecting;
	bool listening = n.listeners.count(a);
	if (!listening && (how == Connecting::IN_PROGRESS || how == Connecting::IMMEDIATE)) how = Connecting::REFUSED_LATER;
	if (n.faults & F_CONNECT) {
		std::vector<Connecting> alt{how};
		for (auto c : {Connecting::IMMEDIATE, Connecting::REFUSED_NOW, Connecting::REFUSED_LATER, Connecting::UNREACHABLE_NOW, Connecting::SILENT, Connecting::TIMED_OUT_LATER})
			if (c != how && (listening || c != Connecting::IMMEDIATE)) alt.push_back(c);
		how = alt[mc::ctx().deviate(static_cast<int>(alt.size()), "connect")];
	}
	s->connectDone = n.now() + n.connectDelay;
	if ((n.faults & F_CONNECT_EINTR) && !s->nonBlocking && mc::ctx().deviate(2, "connect: EINTR")) {
		interrupted();
		s->willConnect = true;
		log("connect", fd, "EINTR");
		return err(EINTR);
	}
	switch (how) {
		case Connecting::IMMEDIATE:
			s->willConnect = true;
			s->connectDone = n.now();
			n.pump();
			log("connect", fd, a.str() + " immediately");
			return 0;
		case Connecting::REFUSED_NOW: log("connect", fd, "ECONNREFUSED"); return err(ECONNREFUSED);
		case Connecting::UNREACHABLE_NOW: log("connect", fd, "ENETUNREACH"); return err(ENETUNREACH);
		case Connecting::REFUSED_LATER: s->connectError = ECONNREFUSED; break;
		case Connecting::TIMED_OUT_LATER: s->connectError = EHOSTUNREACH; break;
		case Connecting::SILENT: break;
		case Connecting::IN_PROGRESS: s->willConnect = true; break;
	}
	log("connect", fd, mc::fmt("%s in progress (%d)", a.str().c_str(), static_cast<int>(how)));
	if (s->nonBlocking) return err(EINPROGRESS);
	return finishConnect(*s);
}

static ssize_t doSendStream(Sock& s, const uint8_t* data, size_t len, int flags) {
	Net& n = net();
	if (s.pendingError) { int e = s.pendingError; s.pendingError = 0; return err(e); }
	auto broken = [&](int e) -> ssize_t {
		if (e == EPIPE && !(flags & MSG_NOSIGNAL)) { log("send", s.fd, "SIGPIPE"); raise(SIGPIPE); }
		log("send", s.fd, e == EPIPE ? "EPIPE" : "ECONNRESET");
		return err(e);
	};
	if (!s.stream) return err(ENOTCONN);
	auto st = s.stream;
	if (st->rst || st->clientShut) return broken(EPIPE);
	std::vector<int> kinds{0};
	std::vector<size_t> parts{len};
	if (len > 1 && (n.faults & F_SEND_PARTIAL)) {
		for (size_t p : {size_t(1), len - 1, len / 2})
			if (p && p < len && std::find(parts.begin(), parts.end(), p) == parts.end()) { parts.push_back(p); kinds.push_back(0); }
	}
	if (n.faults & F_SEND_EINTR) { parts.push_back(0); kinds.push_back(EINTR); }
	if (n.faults & F_SEND_RESET) { parts.push_back(0); kinds.push_back(EPIPE); parts.push_back(0); kinds.push_back(ECONNRESET); }
	int c = parts.size() > 1 ? mc::ctx().deviate(static_cast<int>(parts.size()), "send") : 0;
	if (kinds[c] == EINTR) { interrupted(); log("send", s.fd, "EINTR"); return err(EINTR); }
	if (kinds[c]) { st->rst = true; st->ready.clear(); st->readyPos = 0; return broken(kinds[c]); }
	size_t k = parts[c];
	Bytes b(data, data + k);
	log("send", s.fd, mc::fmt("%zu of %zu: ", k, len) + mc::hex(b));
	st->sent.insert(st->sent.end(), b.begin(), b.end());
	if (st->fin) st->rst = true; // the peer does not read any more: it answers with RST
	else if (st->peer) {
		if ((flags & MSG_OOB) && !b.empty()) b.pop_back(); // the peer reads urgent data outside of the stream
		if (!b.empty()) st->peer->onData(*st, b);
	}
	return static_cast<ssize_t>(k);
}

static ssize_t doSendDatagram(Sock& s, const uint8_t* data, size_t len, Addr to) {
	Net& n = net();
	if (!s.bound) { s.bound = true; s.local = {0, n.ephemeral++}; s.bindOrder = ++n.bindCounter; }
	Datagram d;
	d.time = n.now();
	d.from = s.local;
	d.to = to;
	d.data.assign(data, data + len);
	d.fd = s.fd;
	int e = 0;
	bool broadcast = (to.ip & 0xff) == 0xff;
	if (s.pendingError) { e = s.pendingError; s.pendingError = 0; }
	else if (len > 65507) e = EMSGSIZE;
	else if (broadcast && !(s.options.count({SOL_SOCKET, SO_BROADCAST}) && s.options[{SOL_SOCKET, SO_BROADCAST}])) e = EACCES;
	else if (n.udpSendError) e = n.udpSendError(d);
	if (!e && (n.faults & F_UDP_SEND)) {
		static const int errors[] = {0, ENETUNREACH, ENOBUFS, EPERM};
		e = errors[mc::ctx().deviate(4, "sendto")];
	}
	d.sendResult = e;
	log("sendto", s.fd, to.str() + (e ? mc::fmt(" error %d ", e) : std::string(" ")) + mc::hex(d.data));
	n.sent.push_back(d);
	if (e) return err(e);
	if (n.onDatagram) n.onDatagram(d);
	return static_cast<ssize_t>(len);
}

static ssize_t doSend(int fd, const void* data, size_t len, int flags, const sockaddr* to, socklen_t tolen, const char* name) {
	Net& n = net();
	n.count(name);
	Sock* s = n.find(fd, name);
	if (!s) return err(EBADF);
	if (s->tcp) {
		if (flags & MSG_DONTROUTE) { log(name, fd, "ENETUNREACH"); return err(ENETUNREACH); } // the target is behind a gateway
		return doSendStream(*s, static_cast<const uint8_t*>(data), len, flags);
	}
	if (flags & (MSG_OOB | MSG_ERRQUEUE)) { log(name, fd, "EOPNOTSUPP"); return err(EOPNOTSUPP); }
	Addr a = to ? fromSockaddr(to, tolen) : s->connectedTo;
	if (!to && !s->connected) return err(EDESTADDRREQ);
	if ((flags & MSG_DONTROUTE) && (a.ip & 0xff) != 0xff) { log(name, fd, "ENETUNREACH"); return err(ENETUNREACH); }
	if (flags & MSG_MORE) { log(name, fd, "kept back: MSG_MORE"); return static_cast<ssize_t>(len); } // nothing leaves the host
	return doSendDatagram(*s, static_cast<const uint8_t*>(data), len, a);
}

static ssize_t doRecv(int fd, void* buf, size_t len, int flags, sockaddr* from, socklen_t* fromlen, const char* name) {
	Net& n = net();
	n.count(name);
	Sock* s = n.find(fd, name);
	if (!s) return err(EBADF);
	if (flags & MSG_OOB) { int e = s->tcp ? EINVAL : EOPNOTSUPP; log(name, fd, mc::fmt("MSG_OOB: error %d", e)); return err(e); }
	if (flags & MSG_ERRQUEUE) { log(name, fd, "MSG_ERRQUEUE: EAGAIN"); return err(EAGAIN); }
	bool block = !s->nonBlocking && !(flags & MSG_DONTWAIT);
	Time deadline = !block ? n.now() : s->recvTimeout ? n.now() + s->recvTimeout : FOREVER;
	if (s->tcp && !s->stream && !s->pendingError) return err(ENOTCONN);
	// deviations
	enum { OK, INTR_NOW, INTR_LATER, RESET, FIN, REFUSED };
	std::vector<int> alt{OK};
	bool readyNow = n.readable(*s);
	if (n.faults & F_RECV_EINTR) { alt.push_back(INTR_NOW); if (!readyNow && block) alt.push_back(INTR_LATER); }
	if (s->tcp && (n.faults & F_RECV_RESET)) alt.push_back(RESET);
	if (s->tcp && (n.faults & F_FIN) && s->stream && !s->stream->fin) alt.push_back(FIN);
	if (!s->tcp && (n.faults & F_UDP_RECV)) alt.push_back(REFUSED);
	int what = alt.size() > 1 ? alt[mc::ctx().deviate(static_cast<int>(alt.size()), name)] : OK;
	if (what == INTR_LATER) {
		Time until = std::min(n.nextEvent(), deadline);
		if (until >= FOREVER) until = n.now() + 2 * SEC;
		n.waitUntil(n.now() + (until - n.now()) / 2);
	}
	if (what == INTR_NOW || what == INTR_LATER) { interrupted(); log(name, fd, "EINTR"); return err(EINTR); }
	if (what == RESET) {
		s->stream->rst = true;
		s->stream->ready.clear();
		s->stream->readyPos = 0;
		s->stream->incoming.clear();
		s->stream->fin = true; // the following reads see the end
		log(name, fd, "ECONNRESET");
		return err(ECONNRESET);
	}
	if (what == FIN) {
		s->stream->ready.clear();
		s->stream->readyPos = 0;
		s->stream->incoming.clear();
		s->stream->fin = true;
	}
	if (what == REFUSED) { log(name, fd, "ECONNREFUSED"); return err(ECONNREFUSED); }
	auto out = static_cast<uint8_t*>(buf);
	size_t got = 0;
	for (;;) {
		while (!n.readable(*s)) {
			Time e = n.nextEvent();
			if (e > deadline) {
				n.waitUntil(deadline);
				if (n.readable(*s)) break;
				if (got) return static_cast<ssize_t>(got);
				log(name, fd, "EAGAIN");
				return err(EAGAIN);
			}
			if (e >= FOREVER) mc::ctx().fail(std::string("blocks forever in ") + name);
			n.waitUntil(e);
		}
		if (s->pendingError) { int e = s->pendingError; s->pendingError = 0; log(name, fd, mc::fmt("error %d", e)); return err(e); }
		if (!s->tcp) {
			Datagram d = s->inbox.front();
			if (!(flags & MSG_PEEK)) s->inbox.pop_front();
			size_t k = std::min(len, d.data.size());
			if (k) memcpy(out, d.data.data(), k);
			toSockaddr(d.from, from, fromlen);
			log(name, fd, mc::fmt("%zu of %zu bytes from ", k, d.data.size()) + d.from.str() + " " + mc::hex(d.data));
			return static_cast<ssize_t>((flags & MSG_TRUNC) ? d.data.size() : k);
		}
		auto& st = *s->stream;
		size_t avail = st.ready.size() - st.readyPos;
		if (avail == 0) {
			if (got) return static_cast<ssize_t>(got);
			if (st.rst && !st.fin) { st.fin = true; log(name, fd, "ECONNRESET"); return err(ECONNRESET); }
			log(name, fd, "end of the stream");
			return 0;
		}
		size_t k = std::min(avail, len - got);
		if (k > 1 && (n.faults & F_RECV_SHORT) && !(flags & MSG_WAITALL)) {
			std::vector<size_t> parts{k};
			for (size_t p : {size_t(1), k - 1, k / 2}) if (p && std::find(parts.begin(), parts.end(), p) == parts.end()) parts.push_back(p);
			k = parts[mc::ctx().deviate(static_cast<int>(parts.size()), "recv: short")];
		}
		if (!(flags & MSG_TRUNC)) memcpy(out + got, st.ready.data() + st.readyPos, k); // TCP with MSG_TRUNC throws the data away
		log(name, fd, mc::fmt("%zu of %zu: ", k, len) + mc::hex(Bytes(out + got, out + got + k)));
		if (flags & MSG_PEEK) return static_cast<ssize_t>(k);
		st.readyPos += k;
		st.consumed += k;
		got += k;
		if (!(flags & MSG_WAITALL) || got == len || len == 0) return static_cast<ssize_t>(got);
	}
}

static bool writable(const Sock& s) {
	if (!s.open) return false;
	if (!s.tcp) return true;
	return s.connected || s.pendingError;
}

struct Want { int fd; bool r, w; bool gotR = false, gotW = false; };

// >= 0: number of ready descriptors; -1: errno
static int waitReady(std::vector<Want>& wants, Time timeout, const char* name) {
	Net& n = net();
	n.count(name);
	for (auto& w : wants) if (!n.find(w.fd, name)) return err(EBADF);
	Time deadline = timeout < 0 ? FOREVER : n.now() + timeout;
	auto ready = [&] {
		int k = 0;
		for (auto& w : wants) {
			auto& s = n.socks[w.fd];
			w.gotR = w.r && n.readable(s);
			w.gotW = w.w && writable(s);
			k += w.gotR + w.gotW;
		}
		return k;
	};
	std::vector<int> alt{0};
	if (n.faults & F_SELECT_EINTR) { alt.push_back(1); if (!ready() && timeout > 0) alt.push_back(2); }
	if (n.faults & F_SELECT_ERROR) alt.push_back(3);
	int what = alt.size() > 1 ? alt[mc::ctx().deviate(static_cast<int>(alt.size()), name)] : 0;
	if (what == 3) { log(name, -1, "ENOMEM"); return err(ENOMEM); }
	if (what) {
		if (what == 2) {
			Time until = std::min(n.nextEvent(), deadline);
			if (until >= FOREVER) until = n.now() + 2 * SEC;
			n.waitUntil(n.now() + (until - n.now()) / 2);
		}
		interrupted();
		log(name, -1, "EINTR");
		return err(EINTR);
	}
	for (;;) {
		int k = ready();
		if (k) { log(name, wants.empty() ? -1 : wants[0].fd, mc::fmt("%d ready", k)); return k; }
		Time e = n.nextEvent();
		if (e > deadline) {
			if (deadline >= FOREVER) mc::ctx().fail(std::string("blocks forever in ") + name);
			n.waitUntil(deadline);
			k = ready();
			log(name, wants.empty() ? -1 : wants[0].fd, k ? "ready" : "timeout");
			return k;
		}
		if (e >= FOREVER) mc::ctx().fail(std::string("blocks forever in ") + name);
		n.waitUntil(e);
	}
}

static int doSelect(int nfds, fd_set* r, fd_set* w, fd_set* e, Time timeout, const char* name) {
	std::vector<Want> wants;
	for (int fd = 0; fd < nfds && fd < FD_SETSIZE; ++fd) {
		bool wr = r && FD_ISSET(fd, r), ww = w && FD_ISSET(fd, w);
		bool we = e && FD_ISSET(fd, e);
		if (wr || ww || we) wants.push_back({fd, wr, ww});
	}
	int k = waitReady(wants, timeout, name);
	if (k < 0) return k;
	if (r) FD_ZERO(r);
	if (w) FD_ZERO(w);
	if (e) FD_ZERO(e);
	for (auto& x : wants) {
		if (x.gotR) FD_SET(x.fd, r);
		if (x.gotW) FD_SET(x.fd, w);
	}
	return k;
}

static int doSetsockopt(int fd, int level, int name, const void* val, socklen_t len) {
	Net& n = net();
	n.count("setsockopt");
	Sock* s = n.find(fd, "setsockopt");
	if (!s) return err(EBADF);
	// a failing SO_RCVTIMEO cannot happen for an open socket and a valid interval
	bool time = level == SOL_SOCKET && (name == SO_RCVTIMEO || name == SO_SNDTIMEO);
	if (!time && (n.faults & F_SETUP) && mc::ctx().deviate(2, "setsockopt: ENOMEM")) { log("setsockopt", fd, "ENOMEM"); return err(ENOMEM); }
	if (time) {
		if (len < sizeof(timeval)) return err(EINVAL);
		timeval tv;
		memcpy(&tv, val, sizeof tv);
		if (tv.tv_usec < 0 || tv.tv_usec >= 1000000) return err(EDOM);
		Time t = tv.tv_sec < 0 ? 1 : tv.tv_sec * SEC + tv.tv_usec * US;
		(name == SO_RCVTIMEO ? s->recvTimeout : s->sendTimeout) = t;
		log("setsockopt", fd, mc::fmt("timeout %.6f", t / 1e9));
		return 0;
	}
	int v = 0;
	if (val && len >= sizeof v) memcpy(&v, val, sizeof v);
	s->options[{level, name}] = v;
	log("setsockopt", fd, mc::fmt("%d/%d = %d", level, name, v));
	return 0;
}

static int doGetsockopt(int fd, int level, int name, void* val, socklen_t* len) {
	Net& n = net();
	n.count("getsockopt");
	Sock* s = n.find(fd, "getsockopt");
	if (!s) return err(EBADF);
	if ((n.faults & F_SETUP) && mc::ctx().deviate(2, "getsockopt: ENOBUFS")) { log("getsockopt", fd, "ENOBUFS"); return err(ENOBUFS); }
	int v = 0;
	if (level == SOL_SOCKET && name == SO_ERROR) {
		v = s->pendingError;
		s->pendingError = 0;
		if (v) n.errors.push_back({"connect", v});
	}
	else if (level == SOL_SOCKET && name == SO_TYPE) v = s->tcp ? SOCK_STREAM : SOCK_DGRAM;
	else if (level == SOL_SOCKET && (name == SO_RCVTIMEO || name == SO_SNDTIMEO)) {
		Time t = name == SO_RCVTIMEO ? s->recvTimeout : s->sendTimeout;
		timeval tv{t / SEC, (t % SEC) / US};
		if (*len >= sizeof tv) { memcpy(val, &tv, sizeof tv); *len = sizeof tv; }
		return 0;
	}
	else if (s->options.count({level, name})) v = s->options[{level, name}];
	if (val && *len >= sizeof v) { memcpy(val, &v, sizeof v); *len = sizeof v; }
	return 0;
}

static int doFcntl(int fd, int cmd, long arg) {
	Net& n = net();
	n.count("fcntl");
	Sock* s = n.find(fd, "fcntl");
	if (!s) return err(EBADF);
	if ((n.faults & F_SETUP) && mc::ctx().deviate(2, "fcntl: ENOLCK")) { log("fcntl", fd, "fails"); return err(ENOLCK); }
	switch (cmd) {
		case F_GETFL: return O_RDWR | (s->nonBlocking ? O_NONBLOCK : 0);
		case F_SETFL: s->nonBlocking = (arg & O_NONBLOCK) != 0; return 0;
		case F_GETFD: return 0;
		case F_SETFD: return 0;
		default: return err(EINVAL);
	}
}

} // namespace sim

using namespace sim;

#define REAL(ret, name, ...) extern "C" ret __real_##name(__VA_ARGS__);
REAL(int, socket, int, int, int)
REAL(int, bind, int, const sockaddr*, socklen_t)
REAL(int, connect, int, const sockaddr*, socklen_t)
REAL(int, close, int)
REAL(int, shutdown, int, int)
REAL(ssize_t, send, int, const void*, size_t, int)
REAL(ssize_t, sendto, int, const void*, size_t, int, const sockaddr*, socklen_t)
REAL(ssize_t, sendmsg, int, const msghdr*, int)
REAL(ssize_t, recv, int, void*, size_t, int)
REAL(ssize_t, recvfrom, int, void*, size_t, int, sockaddr*, socklen_t*)
REAL(ssize_t, recvmsg, int, msghdr*, int)
REAL(ssize_t, read, int, void*, size_t)
REAL(ssize_t, write, int, const void*, size_t)
REAL(ssize_t, readv, int, const iovec*, int)
REAL(ssize_t, writev, int, const iovec*, int)
REAL(int, select, int, fd_set*, fd_set*, fd_set*, timeval*)
REAL(int, pselect, int, fd_set*, fd_set*, fd_set*, const timespec*, const sigset_t*)
REAL(int, poll, pollfd*, nfds_t, int)
REAL(int, ppoll, pollfd*, nfds_t, const timespec*, const sigset_t*)
REAL(int, setsockopt, int, int, int, const void*, socklen_t)
REAL(int, getsockopt, int, int, int, void*, socklen_t*)
REAL(int, getsockname, int, sockaddr*, socklen_t*)
REAL(int, getpeername, int, sockaddr*, socklen_t*)
REAL(int, nanosleep, const timespec*, timespec*)
REAL(int, usleep, unsigned)
REAL(unsigned, sleep, unsigned)
REAL(int, clock_nanosleep, clockid_t, int, const timespec*, timespec*)
REAL(int, clock_gettime, clockid_t, timespec*)
REAL(int, gettimeofday, timeval*, void*)
REAL(time_t, time, time_t*)
extern "C" int __real_fcntl(int, int, ...);
extern "C" int __real_fcntl64(int, int, ...);
extern "C" int __real_ioctl(int, unsigned long, ...);

static std::vector<uint8_t> gather(const iovec* v, size_t n) {
	std::vector<uint8_t> b;
	for (size_t i = 0; i < n; ++i) b.insert(b.end(), static_cast<uint8_t*>(v[i].iov_base), static_cast<uint8_t*>(v[i].iov_base) + v[i].iov_len);
	return b;
}
static size_t room(const iovec* v, size_t n) {
	size_t k = 0;
	for (size_t i = 0; i < n; ++i) k += v[i].iov_len;
	return k;
}
static void scatter(const iovec* v, size_t n, const uint8_t* d, size_t len) {
	for (size_t i = 0; i < n && len; ++i) {
		size_t k = std::min(len, v[i].iov_len);
		memcpy(v[i].iov_base, d, k);
		d += k;
		len -= k;
	}
}

static int64_t clockReads = 0;
static Time steadyNow() {
	if ((++clockReads & 0xff) == 0) mc::ctx().alive();
	Net& n = net();
	if (++n.calls > n.horizon) mc::ctx().fail("does not terminate: polls the clock without end");
	return n.steadyBase + n.now();
}
// The clock of the day is adjusted all the time: by an hour, back and forth, whenever time passes. Only the
// monotonic clock tells durations.
static Time wallOffset() { return 1700000000LL * SEC - (net().wallSteps % 2 ? 3600 * SEC : 0); }

extern "C" {
int __wrap_socket(int d, int t, int p) { return active() ? doSocket(d, t, p) : __real_socket(d, t, p); }
int __wrap_bind(int fd, const sockaddr* a, socklen_t l) { return active() ? doBind(fd, a, l) : __real_bind(fd, a, l); }
int __wrap_connect(int fd, const sockaddr* a, socklen_t l) { return active() ? doConnect(fd, a, l) : __real_connect(fd, a, l); }
int __wrap_close(int fd) { return active() ? doClose(fd) : __real_close(fd); }
int __wrap_shutdown(int fd, int how) { return active() ? doShutdown(fd, how) : __real_shutdown(fd, how); }
ssize_t __wrap_send(int fd, const void* d, size_t n, int f) { return active() ? doSend(fd, d, n, f, nullptr, 0, "send") : __real_send(fd, d, n, f); }
ssize_t __wrap_sendto(int fd, const void* d, size_t n, int f, const sockaddr* a, socklen_t l) {
	return active() ? doSend(fd, d, n, f, a, l, "sendto") : __real_sendto(fd, d, n, f, a, l);
}
ssize_t __wrap_sendmsg(int fd, const msghdr* m, int f) {
	if (!active()) return __real_sendmsg(fd, m, f);
	auto b = gather(m->msg_iov, m->msg_iovlen);
	return doSend(fd, b.data(), b.size(), f, static_cast<sockaddr*>(m->msg_name), m->msg_namelen, "sendmsg");
}
ssize_t __wrap_write(int fd, const void* d, size_t n) {
	if (!active() || !net().ours(fd)) return __real_write(fd, d, n);
	return doSend(fd, d, n, 0, nullptr, 0, "write");
}
ssize_t __wrap_writev(int fd, const iovec* v, int n) {
	if (!active() || !net().ours(fd)) return __real_writev(fd, v, n);
	auto b = gather(v, n);
	return doSend(fd, b.data(), b.size(), 0, nullptr, 0, "writev");
}
ssize_t __wrap_recv(int fd, void* d, size_t n, int f) { return active() ? doRecv(fd, d, n, f, nullptr, nullptr, "recv") : __real_recv(fd, d, n, f); }
ssize_t __wrap_recvfrom(int fd, void* d, size_t n, int f, sockaddr* a, socklen_t* l) {
	return active() ? doRecv(fd, d, n, f, a, l, "recvfrom") : __real_recvfrom(fd, d, n, f, a, l);
}
ssize_t __wrap_recvmsg(int fd, msghdr* m, int f) {
	if (!active()) return __real_recvmsg(fd, m, f);
	std::vector<uint8_t> b(room(m->msg_iov, m->msg_iovlen));
	socklen_t l = m->msg_namelen;
	ssize_t k = doRecv(fd, b.data(), b.size(), f, static_cast<sockaddr*>(m->msg_name), m->msg_name ? &l : nullptr, "recvmsg");
	if (k > 0) scatter(m->msg_iov, m->msg_iovlen, b.data(), std::min<size_t>(k, b.size()));
	m->msg_flags = 0;
	m->msg_controllen = 0;
	return k;
}
ssize_t __wrap_read(int fd, void* d, size_t n) {
	if (!active() || !net().ours(fd)) return __real_read(fd, d, n);
	return doRecv(fd, d, n, 0, nullptr, nullptr, "read");
}
ssize_t __wrap_readv(int fd, const iovec* v, int n) {
	if (!active() || !net().ours(fd)) return __real_readv(fd, v, n);
	std::vector<uint8_t> b(room(v, n));
	ssize_t k = doRecv(fd, b.data(), b.size(), 0, nullptr, nullptr, "readv");
	if (k > 0) scatter(v, n, b.data(), k);
	return k;
}
int __wrap_select(int nfds, fd_set* r, fd_set* w, fd_set* e, timeval* tv) {
	if (!active()) return __real_select(nfds, r, w, e, tv);
	if (tv && (tv->tv_sec < 0 || tv->tv_usec < 0)) return err(EINVAL);
	Time t = tv ? tv->tv_sec * SEC + tv->tv_usec * US : -1;
	Time start = net().now();
	int k = doSelect(nfds, r, w, e, t, "select");
	if (tv) {
		Time left = std::max<Time>(0, t - (net().now() - start));
		tv->tv_sec = left / SEC;
		tv->tv_usec = (left % SEC) / US;
	}
	return k;
}
int __wrap_pselect(int nfds, fd_set* r, fd_set* w, fd_set* e, const timespec* ts, const sigset_t* m) {
	if (!active()) return __real_pselect(nfds, r, w, e, ts, m);
	return doSelect(nfds, r, w, e, ts ? ts->tv_sec * SEC + ts->tv_nsec : -1, "pselect");
}
static int pollAny(pollfd* fds, nfds_t n, Time timeout, const char* name) {
	std::vector<Want> wants;
	for (nfds_t i = 0; i < n; ++i) {
		fds[i].revents = 0;
		if (fds[i].fd >= 0) wants.push_back({fds[i].fd, (fds[i].events & POLLIN) != 0, (fds[i].events & POLLOUT) != 0});
	}
	int k = waitReady(wants, timeout, name);
	if (k < 0) return k;
	int count = 0;
	size_t j = 0;
	for (nfds_t i = 0; i < n; ++i) {
		if (fds[i].fd < 0) continue;
		auto& w = wants[j++];
		auto& s = net().socks[w.fd];
		if (w.gotR) fds[i].revents |= POLLIN;
		if (w.gotW) fds[i].revents |= POLLOUT;
		if ((w.gotR || w.gotW) && s.pendingError) fds[i].revents |= POLLERR;
		count += fds[i].revents != 0;
	}
	return count;
}
int __wrap_poll(pollfd* fds, nfds_t n, int ms) {
	if (!active()) return __real_poll(fds, n, ms);
	return pollAny(fds, n, ms < 0 ? -1 : ms * MS, "poll");
}
int __wrap_ppoll(pollfd* fds, nfds_t n, const timespec* ts, const sigset_t* m) {
	if (!active()) return __real_ppoll(fds, n, ts, m);
	return pollAny(fds, n, ts ? ts->tv_sec * SEC + ts->tv_nsec : -1, "ppoll");
}
int __wrap_setsockopt(int fd, int l, int o, const void* v, socklen_t n) { return active() ? doSetsockopt(fd, l, o, v, n) : __real_setsockopt(fd, l, o, v, n); }
int __wrap_getsockopt(int fd, int l, int o, void* v, socklen_t* n) { return active() ? doGetsockopt(fd, l, o, v, n) : __real_getsockopt(fd, l, o, v, n); }
int __wrap_getsockname(int fd, sockaddr* a, socklen_t* l) {
	if (!active()) return __real_getsockname(fd, a, l);
	net().count("getsockname");
	Sock* s = net().find(fd, "getsockname");
	if (!s) return err(EBADF);
	toSockaddr(s->local, a, l);
	return 0;
}
int __wrap_getpeername(int fd, sockaddr* a, socklen_t* l) {
	if (!active()) return __real_getpeername(fd, a, l);
	net().count("getpeername");
	Sock* s = net().find(fd, "getpeername");
	if (!s) return err(EBADF);
	if (!s->connected) return err(ENOTCONN);
	toSockaddr(s->connectedTo, a, l);
	return 0;
}
int __wrap_fcntl(int fd, int cmd, ...) {
	va_list ap;
	va_start(ap, cmd);
	long arg = va_arg(ap, long);
	va_end(ap);
	return active() ? doFcntl(fd, cmd, arg) : __real_fcntl(fd, cmd, arg);
}
int __wrap_fcntl64(int fd, int cmd, ...) {
	va_list ap;
	va_start(ap, cmd);
	long arg = va_arg(ap, long);
	va_end(ap);
	return active() ? doFcntl(fd, cmd, arg) : __real_fcntl64(fd, cmd, arg);
}
int __wrap_ioctl(int fd, unsigned long req, ...) {
	va_list ap;
	va_start(ap, req);
	void* arg = va_arg(ap, void*);
	va_end(ap);
	if (!active()) return __real_ioctl(fd, req, arg);
	net().count("ioctl");
	Sock* s = net().find(fd, "ioctl");
	if (!s) return err(EBADF);
	if ((net().faults & F_SETUP) && mc::ctx().deviate(2, "ioctl fails")) return err(ENOMEM);
	if (req == FIONBIO) { s->nonBlocking = *static_cast<int*>(arg) != 0; return 0; }
	if (req == FIONREAD) {
		int k = 0;
		if (s->tcp) k = s->stream ? static_cast<int>(s->stream->ready.size() - s->stream->readyPos) : 0;
		else if (!s->inbox.empty()) k = static_cast<int>(s->inbox.front().data.size());
		*static_cast<int*>(arg) = k;
		return 0;
	}
	return err(EINVAL);
}
int __wrap_nanosleep(const timespec* ts, timespec* rem) {
	if (!active()) return __real_nanosleep(ts, rem);
	net().count("nanosleep");
	net().advance(ts->tv_sec * SEC + ts->tv_nsec);
	return 0;
}
int __wrap_usleep(unsigned us) {
	if (!active()) return __real_usleep(us);
	net().count("usleep");
	net().advance(us * US);
	return 0;
}
unsigned __wrap_sleep(unsigned s) {
	if (!active()) return __real_sleep(s);
	net().count("sleep");
	net().advance(s * SEC);
	return 0;
}
int __wrap_clock_nanosleep(clockid_t id, int flags, const timespec* ts, timespec* rem) {
	if (!active()) return __real_clock_nanosleep(id, flags, ts, rem);
	net().count("clock_nanosleep");
	Time t = ts->tv_sec * SEC + ts->tv_nsec;
	if (flags & TIMER_ABSTIME) {
		Time base = id == CLOCK_REALTIME ? wallOffset() : net().steadyBase;
		net().waitUntil(std::max(net().now(), t - base));
	} else net().advance(t);
	return 0;
}
int __wrap_clock_gettime(clockid_t id, timespec* ts) {
	if (!active()) return __real_clock_gettime(id, ts);
	Time t = steadyNow();
	if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) t += wallOffset() - net().steadyBase;
	ts->tv_sec = t / SEC;
	ts->tv_nsec = t % SEC;
	return 0;
}
int __wrap_gettimeofday(timeval* tv, void* z) {
	if (!active()) return __real_gettimeofday(tv, z);
	Time t = steadyNow() - net().steadyBase + wallOffset();
	tv->tv_sec = t / SEC;
	tv->tv_usec = (t % SEC) / US;
	return 0;
}
time_t __wrap_time(time_t* out) {
	if (!active()) return __real_time(out);
	time_t t = (steadyNow() - net().steadyBase + wallOffset()) / SEC;
	if (out) *out = t;
	return t;
}
std::chrono::steady_clock::time_point __real__ZNSt6chrono3_V212steady_clock3nowEv();
std::chrono::steady_clock::time_point __wrap__ZNSt6chrono3_V212steady_clock3nowEv() {
	if (!active()) return __real__ZNSt6chrono3_V212steady_clock3nowEv();
	return std::chrono::steady_clock::time_point(std::chrono::nanoseconds(steadyNow()));
}
std::chrono::system_clock::time_point __real__ZNSt6chrono3_V212system_clock3nowEv();
std::chrono::system_clock::time_point __wrap__ZNSt6chrono3_V212system_clock3nowEv() {
	if (!active()) return __real__ZNSt6chrono3_V212system_clock3nowEv();
	return std::chrono::system_clock::time_point(std::chrono::nanoseconds(steadyNow() - net().steadyBase + wallOffset()));
}
unsigned __real__ZNSt13random_device9_M_getvalEv(void* self);
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void*) {
	if (active() && net().random) return net().random();
	return 0x1234ABCDu;
}
}
