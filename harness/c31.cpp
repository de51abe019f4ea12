// C31: exceptions of the program's callbacks
#include "io.h"
#include "FileObject.h"
#include "sockets/BaseSocket.h"
#include "sockets/UDPBoundSocket.h"
#include "vendor/ra/powerFlex525/DPIFaultManager.h"
#include <new>

using namespace eipScanner;
using namespace sim;

namespace {

// -- what the callbacks raise
struct Own { int id; std::string text; };
struct Derived : std::runtime_error { int id; explicit Derived(int i) : std::runtime_error("derived"), id(i) {} };
constexpr int KINDS = 8;

[[noreturn]] void raise(int kind, int id) {
	switch (kind) {
		case 0: throw std::runtime_error("of the program " + std::to_string(id));
		case 1: throw Own{id, "of the program"};
		case 2: throw std::system_error(EINTR, std::generic_category(), std::to_string(id));
		case 3: throw Derived(id);
		case 4: throw std::out_of_range(std::to_string(id));
		case 5: throw id;
		case 6: throw std::system_error(EAGAIN, std::generic_category(), std::to_string(id));
		default: throw std::bad_alloc();
	}
}
/// Runs f; the kind of the exception or -1, -2 for a foreign one
struct Caught { int kind = -1, id = 0; std::string text; };
Caught run(const std::function<void()>& f) {
	Caught r;
	auto number = [](const char* p) { return std::atoi(p); };
	try { f(); }
	catch (const Own& e) { r = {1, e.id, e.text}; if (e.text != "of the program") r.kind = -2; }
	catch (int e) { r = {5, e, ""}; }
	catch (const std::exception& e) {
		r.text = e.what();
		r.kind = -2;
		if (typeid(e) == typeid(std::runtime_error) && r.text.rfind("of the program ", 0) == 0) { r.kind = 0; r.id = number(r.text.c_str() + 15); }
		else if (typeid(e) == typeid(Derived) && r.text == "derived") { r.kind = 3; r.id = dynamic_cast<const Derived&>(e).id; }
		else if (typeid(e) == typeid(std::out_of_range)) { r.kind = 4; r.id = number(e.what()); }
		else if (typeid(e) == typeid(std::bad_alloc)) { r.kind = 7; r.id = -1; }
		else if (typeid(e) == typeid(std::system_error)) {
			auto& s = dynamic_cast<const std::system_error&>(e);
			if (s.code() == std::error_code(EINTR, std::generic_category())) r.kind = 2;
			if (s.code() == std::error_code(EAGAIN, std::generic_category())) r.kind = 6;
			r.id = number(e.what());
		}
	} catch (...) { r.kind = -2; r.text = "something else"; }
	return r;
}

/// What is expected of the running call of the library
struct Pending {
	int kind = -1, id = 0, counter = 0;
	[[noreturn]] void operator()(Ctx& c, int k) {
		c.check(kind == -1, "a callback is called although another one has raised");
		kind = k;
		id = ++counter;
		c.step(fmt("raises %d of kind %d", id, k));
		raise(k, id);
	}
	/// Runs a call of the library, true if it has raised the exception of a callback
	bool call(Ctx& c, const std::string& what, const std::function<void()>& f) {
		kind = -1;
		auto r = run(f);
		c.compared();
		if (r.kind == -2) c.fail(what + " raises something else: " + r.text);
		if (r.kind != kind || (kind >= 0 && kind != 7 && r.id != id)) c.fail(what + fmt(" ends with the exception %d of kind %d instead of %d of kind %d", r.id, r.kind, id, kind));
		bool raised = kind >= 0;
		kind = -1;
		return raised;
	}
};

// -- connections
struct Rig {
	struct Conn {
		OpenRecord rec;
		IOConnection::WPtr w;
		bool open = true;
		Time last = 0, produced = 0;
		int received = 0, sent = 0, closed = 0, messages = 0;
		uint32_t lastSeq = 0;
	};
	struct Waiting { uint32_t id; Bytes payload; };
	Ctx& c;
	IoWorld w;
	std::shared_ptr<SessionInfo> si;
	std::unique_ptr<ConnectionManager> m = std::make_unique<ConnectionManager>();
	std::vector<std::unique_ptr<Conn>> conns;
	std::deque<Waiting> waiting;
	Pending pending;
	bool enabled = true;
	int kinds = 2;
	uint8_t mark = 0;
	Time t2oTimeout = 40 * MS, interval = 10 * MS;
	size_t sentSeen = 0;

	explicit Rig(Ctx& ctx) : c(ctx), si(w.session(300)) {}

	Conn* owner(uint32_t id) {
		for (auto& x : conns) if (x->open && x->rec.t2oId == id) return x.get();
		return nullptr;
	}
	size_t index(Conn* x) { for (size_t i = 0; i < conns.size(); ++i) if (conns[i].get() == x) return i; return 99; }

	void act(Conn* x) {
		if (!enabled) return;
		// raise; close itself, another one or open a connection before that; the same without raising
		int op = c.deviate(1 + kinds + 6, "action");
		if (op == 0) return;
		--op;
		if (op < kinds) pending(c, kinds == KINDS ? op : op == 0 ? 0 : 1 + c.choose(KINDS - 1, "kind"));
		op -= kinds;
		if (op % 3 == 0) close(index(x));
		else if (op % 3 == 1) close((index(x) + 1) % conns.size());
		else open();
		if (op < 3) pending(c, op);
	}
	void listen(Conn* x) {
		auto io = x->w.lock();
		std::vector<int> big(20, static_cast<int>(index(x)));
		io->setReceiveDataListener([this, x, big](auto, auto, const std::vector<uint8_t>& data) {
			c.step(fmt("receive listener of %zu", index(x)));
			c.check(x->open, "a closed connection receives data");
			c.check(pending.kind == -1, "a listener is called although another one has raised");
			while (!waiting.empty() && !owner(waiting.front().id)) waiting.pop_front();
			c.check(!waiting.empty() && owner(waiting.front().id) == x, fmt("connection %zu receives data which is not for it, or again", index(x)));
			c.equal(data, Bytes(waiting.front().payload.begin() + 2, waiting.front().payload.end()), "received data");
			waiting.pop_front();
			x->last = w.net.now();
			++x->received;
			act(x);
		});
		io->setSendDataListener([this, x, big](std::vector<uint8_t>& data) {
			c.step(fmt("send listener of %zu", index(x)));
			c.check(x->open, "a closed connection produces data");
			c.check(pending.kind == -1, "a listener is called although another one has raised");
			c.check(w.net.now() - x->produced >= interval, fmt("connection %zu produces too early", index(x)));
			x->produced = w.net.now();
			++x->sent;
			data = {static_cast<uint8_t>(index(x)), static_cast<uint8_t>(x->sent), 2, 3};
			act(x);
			++x->messages;
			if (!x->open) --x->messages; // may be sent or not
		});
		io->setCloseListener([this, x, big] {
			c.step(fmt("close listener of %zu", index(x)));
			c.check(x->open, "a closed connection is closed again");
			c.check(pending.kind == -1, "a listener is called although another one has raised");
			c.check(w.net.now() - x->last > t2oTimeout, fmt("connection %zu is closed too early", index(x)));
			x->open = false;
			c.equal(++x->closed, 1, "close notifications");
			act(x);
			c.check(big == std::vector<int>(20, static_cast<int>(index(x))), "the data of the listener has changed");
		});
		io->setDataToSend({9, 9, 9, 9});
	}
	void open() {
		if (conns.size() >= 5) return;
		c.step("open");
		auto p = ioParameters(interval / US, t2oTimeout / 4 / US);
		p.originatorSerialNumber = conns.size();
		size_t before = w.opens.size();
		auto r = m->forwardOpen(si, p);
		c.equal(w.opens.size(), before + 1, "open requests");
		c.check(!r.expired(), "the accepted open gives no connection");
		auto x = std::make_unique<Conn>();
		x->rec = w.opens.back();
		x->w = r;
		x->last = x->produced = w.net.now();
		conns.push_back(std::move(x));
		listen(conns.back().get());
	}
	void close(size_t i) {
		auto& x = *conns[i];
		c.step(fmt("close %zu", i));
		size_t before = w.closes.size();
		m->forwardClose(si, x.w);
		if (x.open) {
			c.equal(w.closes.size(), before + 1, "close requests");
			c.equal(w.closes.back().fc.serial, x.rec.fo.serial, "serial number of the close request");
		}
		x.open = false;
	}
	void data(size_t i) {
		Bytes payload = {mark, 0, ++mark, 1, 2, 3};
		w.net.datagram({ip("10.0.0.1"), 2222}, 2222, ref::implicitMessage(conns[i]->rec.t2oId, mark, payload), w.net.now());
		waiting.push_back({conns[i]->rec.t2oId, payload});
	}
	/// Service calls until one returns normally
	void service() {
		for (int calls = 0;; ++calls) {
			c.check(calls < 60, "the service calls go on raising");
			bool raised = pending.call(c, "the service call", [&] { m->handleConnections(milliseconds(0)); });
			consistent();
			if (!raised) break;
		}
		while (!waiting.empty() && !owner(waiting.front().id)) waiting.pop_front();
		if (!waiting.empty()) c.fail(fmt("data for connection %zu is not received", index(owner(waiting.front().id))));
		for (auto& x : conns) {
			if (!x->open) continue;
			c.check(w.net.now() - x->last <= t2oTimeout, fmt("connection %zu is not closed", index(x.get())));
			c.check(w.net.now() - x->produced < interval, fmt("connection %zu does not produce", index(x.get())));
		}
	}
	/// Between the calls
	void consistent() {
		bool any = false;
		uint64_t h = 3;
		for (auto& x : conns) {
			any = any || x->open;
			if (x->open) c.check(!x->w.expired(), fmt("connection %zu is gone", index(x.get())));
			else c.check(x->w.expired(), fmt("connection %zu still exists", index(x.get())));
			h = mix(h, mix(x->open, mix(x->received, mix(x->sent, x->closed))));
		}
		c.equal(m->hasOpenConnections(), any, "open connections are reported");
		std::map<uint32_t, int> counts;
		for (size_t i = sentSeen; i < w.net.sent.size(); ++i) {
			std::vector<ref::Item> items;
			c.check(ref::parseCpf(w.net.sent[i].data, items) && items.size() == 2 && items[0].data.size() == 8 && items[1].data.size() == 6, "malformed message");
			ref::R r(items[0].data);
			uint32_t id = r.u32(), seq = r.u32();
			Conn* x = nullptr;
			for (auto& y : conns) if (y->rec.o2tId == id) x = y.get();
			c.check(x && seq > x->lastSeq, "a message of an unknown connection or with an old sequence number");
			x->lastSeq = seq;
			if (x->open) { c.equal(items[1].data[2] * 256 + items[1].data[3], static_cast<int>(index(x)) * 256 + x->sent, "data of the message"); --x->messages; }
		}
		sentSeen = w.net.sent.size();
		for (auto& x : conns) if (x->open) c.equal(x->messages, 0, fmt("productions of connection %zu without a message", index(x.get())));
		c.state(h);
		c.obs(h);
		for (auto& p : w.dev.problems) c.fail("the device received a wrong message: " + p);
		for (auto& p : w.net.misuse) c.fail(p);
	}
	void finish() {
		enabled = false;
		for (int i = 0; i < 2; ++i) {
			w.net.advance(15 * MS);
			for (size_t k = 0; k < conns.size(); ++k) if (conns[k]->open) data(k);
			service();
		}
		if (c.choose(2, "end")) {
			for (size_t k = 0; k < conns.size(); ++k) close(k);
			consistent();
			w.net.advance(100 * MS);
			service();
		}
		m.reset();
		c.equal(w.net.openFds().size(), size_t(1), "open sockets besides that of the session");
		for (auto& x : conns) c.check(x->w.expired(), "a connection survives its manager");
		si.reset();
		c.equal(w.net.openFds().size(), size_t(0), "open sockets");
		for (auto& p : w.net.misuse) c.fail(p);
	}
};

// -- uploads
ref::CipReply fileDevice(const ref::CipRequest& q, const Bytes& content, int refuse, int state, int& next) {
	if (q.service == 0x0E) return ref::CipReply({static_cast<uint8_t>(state)});
	if (q.service == 0x4B) {
		next = 0;
		if (refuse == 1) return ref::CipReply::error(8);
		Bytes b = ref::W().u32(refuse == 3 ? content.size() + 1 : content.size()).u8(10);
		if (refuse == 2) b.resize(3);
		return ref::CipReply(b);
	}
	size_t pos = next * 10, n = std::min<size_t>(10, content.size() - pos);
	bool last = pos + n == content.size();
	if (refuse == 4 && next == 1) return ref::CipReply::error(0x10);
	if (refuse == 5 && next == 1) return ref::CipReply(Bytes{});
	if (refuse == 6 && next == 1) return ref::CipReply(Bytes{9, 1});
	if (refuse == 7 && next == 1) return ref::CipReply(Bytes{1, 1, 7});
	ref::W r;
	r.u8(next).u8(last ? (next ? 2 : 4) : next ? 1 : 0).raw(Bytes(content.begin() + pos, content.begin() + pos + n));
	if (last) r.u16(0);
	++next;
	return ref::CipReply(r);
}

} // namespace

void mc::define(Registry& r) {
	int actions = r.tier(3, 4);
	r.bound(fmt("1 to 3 connections which receive, produce and time out; up to %d (two, three: one less) of the listener calls raise (8 kinds of exceptions), also after closing themselves or another connection or opening one", actions));
	r.bound("histories of 3 uploads whose handlers raise, for each way an upload ends; handlers of 1 to 3 sockets with 1 to 3 messages each, any of which raise; fault listeners raising at each fault, in 3 handlings");

	auto rounds = [](Ctx& c, int n, int kinds) {
		Rig g(c);
		g.kinds = kinds;
		std::vector<int> mode{0}; // 0 data in both rounds, 1 none, times out
		for (int i = 1; i < n; ++i) mode.push_back(c.choose(2));
		for (int i = 0; i < n; ++i) g.open();
		g.w.net.advance(20 * MS);
		for (int i = 0; i < n; ++i) if (mode[i] != 1 && g.conns[i]->open) g.data(i);
		g.service();
		g.w.net.advance(25 * MS);
		for (int i = 0; i < n; ++i) if (mode[i] == 0 && g.conns[i]->open) g.data(i);
		if (g.conns[0]->open) g.data(0);
		g.service();
		g.finish();
	};
	r.add("kinds", [rounds](Ctx& c) { rounds(c, 2, KINDS); }, 1);
	r.add("one connection", [rounds](Ctx& c) { rounds(c, 1, 2); }, actions);
	r.add("two connections", [rounds](Ctx& c) { rounds(c, 2, 2); }, actions - 1);
	r.add("three connections", [rounds](Ctx& c) { rounds(c, 3, 2); }, r.tier(2, 3));
	r.add("all time out", [](Ctx& c) {
		Rig g(c);
		int n = 2 + c.choose(2);
		for (int i = 0; i < n; ++i) g.open();
		g.w.net.advance(50 * MS);
		if (c.choose(2)) g.data(c.choose(n));
		g.service();
		g.w.net.advance(50 * MS);
		g.service();
		g.finish();
	}, 2);
	r.add("uploads", [](Ctx& c) {
		World w;
		Bytes content = pattern(25);
		int refuse = 0, next = 0, state = c.choose(3) ? 2 : c.choose(2);
		w.dev.onCip = [&](const ref::CipRequest& q) { return fileDevice(q, content, refuse, state, next); };
		auto si = w.session();
		FileObject file(0xC8, si);
		Pending pending;
		for (int i = 0; i < 3; ++i) {
			if (state == 2) refuse = c.choose(8);
			int kind = c.choose((i == 1 ? KINDS : 2) + 1) - 1;
			int called = 0;
			c.step(fmt("upload %d, refusal %d, kind %d", i, refuse, kind));
			std::string big(100, 'x');
			bool raised = pending.call(c, "the upload", [&] {
				file.beginUpload(si, [&, kind, big](cip::GeneralStatusCodes s, const std::vector<uint8_t>& d) {
					++called;
					c.check((s == 0) == (state == 2 && refuse == 0), "status");
					c.equal(d, s == 0 ? content : Bytes{}, "content");
					if (kind >= 0) pending(c, kind);
				});
				for (int k = 0; file.handleTransfers(si); ++k) if (k > 5) c.fail("the transfers go on");
			});
			c.equal(called, 1, "calls of the handler");
			c.equal(raised, kind >= 0, "the exception is passed on");
			size_t requests = w.dev.requests.size();
			bool more = pending.call(c, "idle handling", [&] { c.check(!file.handleTransfers(si), "the transfers go on after the end"); });
			c.check(!more && w.dev.requests.size() == requests, "the end of the upload is handled again");
			c.equal(called, 1, "calls of the handler");
			c.state(mix(mix(refuse, kind), i));
			c.obs(mix(refuse, kind));
		}
		w.conforming(c);
	});
	r.add("sockets", [](Ctx& c) {
		World w;
		int n = 1 + c.choose(3), messages = 1 + c.choose(3);
		struct S { sockets::BaseSocket::SPtr s; int next = 0; };
		std::vector<S> v(n);
		Pending pending;
		for (int k = 0; k < n; ++k) {
			v[k].s = std::make_shared<sockets::UDPBoundSocket>(sockets::EndPoint("0.0.0.0", 3000 + k));
			v[k].s->setBeginReceiveHandler([&, k](sockets::BaseSocket& b) {
				c.check(&b == v[k].s.get(), "the handler gets another socket");
				c.check(v[k].next < messages, "the handler is called without data");
				int how = c.deviate(3, "action"); // 1: raises after reading, 2: before
				if (how == 2) pending(c, 1 + c.choose(2));
				c.equal(b.Receive(100), Bytes{static_cast<uint8_t>(k), static_cast<uint8_t>(v[k].next)}, "received data");
				++v[k].next;
				c.step(fmt("message of socket %d", k));
				if (how == 1) pending(c, c.choose(KINDS));
			});
			for (int i = 0; i < messages; ++i) w.net.datagram({ip("10.0.0.1"), 2222}, 3000 + k, Bytes{static_cast<uint8_t>(k), static_cast<uint8_t>(i)}, i * MS);
		}
		std::vector<sockets::BaseSocket::SPtr> all;
		for (auto& x : v) all.push_back(x.s);
		for (int calls = 0;; ++calls) {
			c.check(calls < 40, "the waiting goes on raising");
			if (!pending.call(c, "the waiting", [&] { sockets::BaseSocket::select(all, milliseconds(10)); })) break;
		}
		for (auto& x : v) { c.equal(x.next, messages, "messages of a socket"); c.equal(x.s.use_count(), 2L, "owners of a socket"); }
		c.obs(w.net.now());
		c.state(mix(n, messages));
		all.clear();
		v.clear();
		c.equal(w.net.openFds().size(), size_t(0), "open sockets");
		for (auto& p : w.net.misuse) c.fail(p);
	}, r.tier(3, 4));
	r.add("faults of drives", [](Ctx& c) {
		World w;
		int faults = 0, clears = 0;
		w.dev.onCip = [&](const ref::CipRequest& q) {
			if (q.service == 0x0E && q.path.cls == 0x0F) {
				int slot = q.path.inst >= 600 && q.path.inst <= 610 ? q.path.inst - 600 : q.path.inst - 6;
				return ref::CipReply(ref::W().u16(slot >= 1 && slot <= faults ? 3 + slot % 7 : 0));
			}
			++clears;
			return ref::CipReply();
		};
		auto si = w.session();
		vendor::ra::powerFlex525::DPIFaultManager m(true, false, c.choose(2));
		Pending pending;
		int calls = 0, at = 0, kind = 0;
		std::string big(100, 'x');
		m.setNewFaultListener([&, big](const vendor::ra::powerFlex525::DPIFaultParameter& f) {
			c.equal(f.getFaultDetails().faultNumber, ++calls, "number of the fault");
			if (calls == at) pending(c, kind);
		});
		for (int i = 0; i < 3; ++i) {
			faults = i == 2 ? 2 : 1 + c.choose(i == 0 ? 10 : 3);
			at = i == 2 ? 0 : c.choose(faults + 1);
			kind = at ? c.choose(i == 1 ? KINDS : 2) : 0;
			calls = clears = 0;
			bool raised = pending.call(c, "the handling", [&] { m.handleFaultParameters(si); });
			c.equal(raised, at > 0, "the exception is passed on");
			c.equal(calls, at ? at : faults, "reported faults");
			c.equal(clears, at ? 0 : 1, "clear commands");
			c.state(mix(faults, mix(at, kind)));
			c.obs(mix(at, kind));
		}
		w.conforming(c);
	});
}
