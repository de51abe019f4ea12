// C13: whatever the network sends
#include "io.h"
#include "DiscoveryManager.h"
#include "FileObject.h"
#include "IdentityObject.h"
#include "MessageRouter.h"
#include "ParameterObject.h"
#include "cip/EPath.h"
#include "cip/MessageRouterResponse.h"
#include "cip/connectionManager/ForwardOpenResponse.h"
#include "eip/CommonPacket.h"
#include "eip/EncapsPacket.h"
#include "vendor/ra/powerFlex525/DPIFaultManager.h"
#include "vendor/ra/powerFlex525/DPIFaultObject.h"
#include "vendor/yaskawa/mp3300iec/Yaskawa_EPath.h"
#include "vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.h"

using namespace eipScanner;
using namespace sim;
using utils::Logger;
using utils::LogLevel;

namespace {

struct Null : utils::LogAppenderIf {
	uint64_t sum = 0;
	void print(LogLevel, const std::string& m) override { sum += mc::hash(m); }
};

bool deep = false;

/// All the ways to spoil a message. How many there are, and the k-th of them
class Mutations {
public:
	explicit Mutations(const Bytes& message, bool stream) : b(message), tcp(stream) {
		n = b.size();
		if (tcp && n > 24 && b[0] == 0x6F && n >= 24 + 6 + 2 + 4 + 4) tail = n - (24 + 6 + 2 + 4 + 4); // bytes of the data item, if it is the only one
		vals = deep ? 256 : 9;
	}
	int count() const {
		return static_cast<int>(cuts() + fins() + shortened() + items() + n * vals + (n - 1) * 6 + (n > 3 ? (n - 3) * 3 : 0) + 5 + 5);
	}
	struct Result { Bytes data; bool fin = false; std::string what; };
	Result make(size_t k) const {
		Result r;
		r.data = b;
		if (k < cuts()) { r.data.resize(k); r.what = fmt("cut to %zu", k); return r; }
		k -= cuts();
		if (k < fins()) { r.data.resize(k); r.fin = true; r.what = fmt("cut to %zu and closed", k); return r; }
		k -= fins();
		if (k < shortened()) { r.data.resize(24 + k); length(r.data); r.what = fmt("shortened to %zu", k); return r; }
		k -= shortened();
		if (k < items()) {
			r.data.resize(40 + k);
			length(r.data);
			r.data[38] = k;
			r.data[39] = k >> 8;
			r.what = fmt("data item shortened to %zu", k);
			return r;
		}
		k -= items();
		if (k < n * vals) {
			size_t at = k / vals;
			uint8_t old = b[at];
			static const int v[] = {0, 1, 2, 0x7f, 0x80, 0xff};
			int i = static_cast<int>(k % vals);
			r.data[at] = deep ? i : i < 6 ? v[i] : i == 6 ? old + 1 : i == 7 ? old - 1 : old ^ 0x40;
			r.what = fmt("byte %zu is %d", at, r.data[at]);
			return r;
		}
		k -= n * vals;
		if (k < (n - 1) * 6) {
			static const int v[] = {0xffff, 0x0100, 0x7fff, 0x8000, 0xff00, 0};
			size_t at = k / 6;
			int x = v[k % 6];
			r.data[at] = x;
			r.data[at + 1] = x >> 8;
			r.what = fmt("word at %zu is %04x", at, x);
			return r;
		}
		k -= (n - 1) * 6;
		size_t longs = n > 3 ? n - 3 : 0;
		if (k < longs * 3) {
			static const uint32_t v[] = {0xffffffffu, 0x80000000u, 0};
			size_t at = k / 3;
			for (int i = 0; i < 4; ++i) r.data[at + i] = v[k % 3] >> 8 * i;
			r.what = fmt("word at %zu is %08x", at, v[k % 3]);
			return r;
		}
		k -= longs * 3;
		static const size_t more[] = {1, 2, 24, 60, 2000};
		r.data.resize(n + more[k % 5], k < 5 ? 0xff : 0);
		if (k < 5) length(r.data);
		r.what = fmt("%zu more bytes", more[k % 5]);
		return r;
	}

private:
	const Bytes& b;
	bool tcp;
	size_t n = 0, tail = 0, vals;
	size_t cuts() const { return n; }
	size_t fins() const { return tcp ? n : 0; }
	size_t shortened() const { return tcp && n >= 24 ? n - 24 : 0; }
	size_t items() const { return tail; }
	void length(Bytes& d) const {
		if (!tcp || d.size() < 24) return;
		d[2] = d.size() - 24;
		d[3] = (d.size() - 24) >> 8;
	}
};

struct Rig {
	static constexpr int T = 200; // ms
	Ctx& c;
	IoWorld w;
	std::shared_ptr<SessionInfo> si;
	bool mutate = false;
	size_t requests = 0;
	uint64_t sum = 0;
	Bytes file = pattern(20, 3);
	int fileNumber = 0;
	bool fullAttributes = true;
	uint16_t descriptor = 4;
	uint16_t fault = 4;

	explicit Rig(Ctx& ctx) : c(ctx) {
		Logger::setAppender(std::make_unique<Null>());
		Logger::setLogLevel(LogLevel::TRACE);
		w.net.horizon = 300000;
		w.dev.onCip = [this](const ref::CipRequest& q) { ++requests; return cip(q); };
		w.dev.deliver = [this](Stream& s, const ref::Frame&, const Bytes& b) { deliver(s, b); };
	}
	~Rig() { Logger::setLogLevel(LogLevel::OFF); }

	void deliver(Stream& s, const Bytes& b) {
		if (mutate) {
			Mutations m(b, true);
			int k = c.deviate(1 + m.count(), "reply");
			if (k) {
				auto r = m.make(k - 1);
				c.step(r.what);
				s.push(r.data, 50 * US);
				if (r.fin) s.pushFin(50 * US);
				return;
			}
		}
		s.push(b, 50 * US);
	}
	ref::CipReply cip(const ref::CipRequest& q) {
		ref::W r;
		switch (q.path.cls) {
			case 1: return ref::CipReply(r.u16(1).u16(2).u16(3).u8(4).u8(5).u16(6).u32(7).shortString("Device"));
			case 6: return w.cip(q);
			case 0x0F:
				if (q.service == 1) {
					r.u16(5).u8(2).u16(0x0120).u16(descriptor).u8(0xC7).u8(2).shortString("Freq").shortString("Hz").shortString("Help").u16(0).u16(100).u16(50);
					return ref::CipReply(r.fill(16, 1).u8(1));
				}
				if (q.path.attr == 1) return ref::CipReply(r.u16(q.path.inst == 7 || q.path.inst == 8 || q.path.inst > 630 ? fault : 0));
				return ref::CipReply(r.u16(q.path.attr == 4 ? descriptor : 1));
			case 0x37:
				if (q.service == 0x0E) return ref::CipReply(Bytes{2});
				if (q.service == 0x4B) { fileNumber = 0; return ref::CipReply(r.u32(file.size()).u8(8)); }
				{
					size_t at = std::min<size_t>(fileNumber * 8, file.size()), n = std::min<size_t>(8, file.size() - at);
					bool last = at + n == file.size();
					r.u8(fileNumber).u8(fileNumber == 0 ? 0 : last ? 2 : 1).raw(Bytes(file.begin() + at, file.begin() + at + n));
					if (last) r.u16(0x1234);
					++fileNumber;
					return ref::CipReply(r);
				}
			case 0x97:
				if (q.service == 0x10) return ref::CipReply();
				return ref::CipReply(r.u16(4).u8(1).u8(2).str("Motor Overload  ").u64(5).u16(3));
			default: return ref::CipReply(Bytes{1, 2, 3, 4});
		}
	}
	/// A call of the library ends, and soon
	Outcome call(const char* what, const std::function<void()>& f, int answers = 0) {
		requests = w.dev.frames.size();
		auto before = w.net.now();
		auto o = attempt(f);
		Time d = w.net.now() - before;
		size_t n = w.dev.frames.size() - requests;
		c.step(std::string(what) + (o.threw ? " raises " + o.what : " returns"));
		c.check(d <= Time(n + 1 + answers) * (T * MS + MS), fmt("%s takes %lld us", what, (long long) d / US));
		c.obs(mix(o.threw, mc::hash(o.what)));
		c.state(mix(mc::hash(std::string(what)), mix(o.threw, mc::hash(o.what))));
		return o;
	}
	void use(const Bytes& d) { sum = mix(sum, mc::hash(d)); }
	void use(const std::string& d) { sum = mix(sum, mc::hash(d)); }
	void use(uint64_t d) { sum = mix(sum, d); }
	void session() { call("session", [&] { si = w.session(T); }); }
	void end() {
		mutate = false;
		call("end of the session", [&] { si.reset(); });
		for (auto& m : w.net.misuse) c.fail(m);
		c.obs(sum);
	}
	void identity() { call("identity", [&] { IdentityObject o(1, si); use(o.getProductName()); use(o.getSerialNumber()); }); }
	void explicitRequest(int kind = 0) {
		call("request", [&] {
			cip::MessageRouterResponse r;
			if (kind == 0) r = MessageRouter().sendRequest(si, 0x0E, cip::EPath(2, 1, 1), {1});
			else if (kind == 1) r = Yaskawa_MessageRouter().sendRequest(si, cip::ServiceCodes::GET_ATTRIBUTE_ALL, cip::Yaskawa_EPath(2, 1, 1));
			else r = MessageRouter(true).sendRequest(si, 0x0E, cip::EPath(2, 1), {}, {eip::CommonPacketItem(eip::CommonPacketItemIds::O2T_SOCKADDR_INFO, Bytes(16))});
			use(r.getData());
			use(r.getGeneralStatusCode());
			for (auto s : r.getAdditionalStatus()) use(s);
			for (auto& i : r.getAdditionalPacketItems()) { use(i.getData()); use(static_cast<uint64_t>(i.getTypeId())); }
			if (r.getGeneralStatusCode() != cip::SUCCESS) cip::logGeneralAndAdditionalStatus(r);
		});
	}
	void parameter(bool full) {
		std::unique_ptr<ParameterObject> p;
		call("parameter", [&] { p = std::make_unique<ParameterObject>(3, full, si); });
		if (!p) return;
		auto look = [&] {
			use(p->getName());
			use(p->getUnits());
			use(p->getHelp());
			use(p->getActualValue<uint16_t>());
			use(p->getMinValue<uint32_t>());
			use(p->getMaxValue<uint64_t>());
			use(p->getDefaultValue<uint8_t>());
			use(p->getPrecision());
			p->getEngValue<int16_t>();
			p->getEngMaxValue<int16_t>();
		};
		call("look", look);
		call("update", [&] { p->updateValue(si); });
		call("look", look);
	}
	void upload() {
		std::unique_ptr<FileObject> f;
		int called = 0;
		auto o = call("file", [&] { f = std::make_unique<FileObject>(0xC8, si); });
		if (!f) return;
		for (int i = 0; i < 2; ++i) {
			o = call("begin", [&] { f->beginUpload(si, [&](auto s, auto& d) { ++called; use(s); use(d); }); });
			if (o.threw) continue;
			bool again = true;
			for (int n = 0; again && n < 300; ++n) {
				o = call("transfer", [&] { again = f->handleTransfers(si); });
				if (o.threw) break;
			}
			// a device which never sends a last packet is asked again and again
		}
	}
	void faults(bool details) {
		vendor::ra::powerFlex525::DPIFaultManager m(true, false, details);
		m.setNewFaultListener([&](auto& f) { use(f.getFaultDetails().faultCode); use(f.getFullInformation().faultDescription.faultText); });
		for (int i = 0; i < 2; ++i) call("faults", [&] { m.handleFaultParameters(si); });
	}
	void faultRecord() {
		call("fault record", [&] {
			vendor::ra::powerFlex525::DPIFaultObject o(1, si);
			use(o.getFullInformation().faultText.toStdString());
			use(o.getFullInformation().timerValue);
		});
	}
	void listen(IOConnection::WPtr p) {
		auto io = p.lock();
		if (!io) return;
		io->setReceiveDataListener([this](auto h, auto s, const std::vector<uint8_t>& d) { use(h); use(s); use(d); });
		io->setSendDataListener([this](std::vector<uint8_t>& d) { use(d); });
		io->setDataToSend({1, 2, 3, 4});
	}
	void io(bool large, bool items) {
		ConnectionManager m;
		IOConnection::WPtr p, good;
		auto params = ioParameters(10000, 10000);
		if (large) {
			params.o2tNetworkConnectionParams = (params.o2tNetworkConnectionParams & 0xfe00) << 16 | 4;
			params.t2oNetworkConnectionParams = (params.t2oNetworkConnectionParams & 0xfe00) << 16 | 4;
		}
		if (items) w.openItems = {{0x8000, ref::sockaddrItem(ip("10.0.0.77"), 3333)}, {0x8001, ref::sockaddrItem(ip("0.0.0.0"), 2222)}};
		call("open", [&] { p = m.forwardOpen(si, params, large); });
		listen(p);
		uint32_t id = w.opens.empty() ? 5 : w.opens.back().t2oId;
		for (int i = 0; i < 2; ++i) {
			w.net.advance(12 * MS);
			w.net.datagram({ip("10.0.0.1"), 2222}, 2222, ref::implicitMessage(id, i, {1, 0, 1, 2, 3, 4}), w.net.now());
			call("service", [&] { m.handleConnections(milliseconds(0)); });
		}
		call("close", [&] { m.forwardClose(si, p); });
		call("service", [&] { m.handleConnections(milliseconds(0)); });
		mutate = false;
		call("another open", [&] { good = m.forwardOpen(si, params, large); });
		listen(good);
		w.net.advance(12 * MS);
		call("service", [&] { m.handleConnections(milliseconds(0)); });
		w.net.advance(100 * SEC);
		call("service", [&] { m.handleConnections(milliseconds(0)); });
	}
};

Bytes identityAnswer(int items, const std::string& name) {
	std::vector<ref::Item> v;
	for (int i = 0; i < items; ++i) v.push_back({0x0C, ref::W().u16(1).raw(ref::sockaddrItem(ip("10.0.0.9"), 44818)).u16(1).u16(2).u16(3).u8(1).u8(2).u16(4).u32(5).shortString(name).u8(3)});
	return ref::encap(0x63, 0, 0, ref::cpf(v));
}

} // namespace

void mc::define(Registry& r) {
	deep = r.thorough();
	r.bound("every reply of every exchange (register, explicit, identity, parameter, file, drive faults, open and close with and without address items): each cut (silent, closed, with the lengths corrected at each level), each byte replaced by " + std::string(deep ? "all 256" : "9") + " values, each 16 and 32-bit word by extreme values, surplus bytes; then the calls go on");
	r.bound("discovery answers and implicit messages: the same mutations, two mutated ones in a row; all byte strings up to a length as implicit message, answer and input of each decoder");
	r.bound("address sanitizer, 300000 system calls, virtual time at most the timeout per message; log level TRACE");

	auto with = [&r](const char* name, std::function<void(Rig&)> f, int deviations = 1) {
		r.add(name, [f](Ctx& c) {
			Rig g(c);
			g.session();
			g.mutate = true;
			f(g);
			g.end();
		}, deviations);
	};
	r.add("register", [](Ctx& c) {
		Rig g(c);
		g.mutate = true;
		g.session();
		if (g.si) { g.explicitRequest(); g.explicitRequest(); }
		g.mutate = false;
		g.session();
		g.identity();
		g.end();
	}, 1);
	with("explicit", [](Rig& g) { g.explicitRequest(g.c.choose(3)); g.explicitRequest(); g.identity(); });
	with("identity", [](Rig& g) { g.identity(); g.identity(); });
	with("parameter", [](Rig& g) { g.descriptor = 4 * g.c.choose(2); g.parameter(g.c.choose(2)); });
	with("file", [](Rig& g) { g.upload(); });
	with("faults", [](Rig& g) { g.faults(false); });
	with("faults with details", [](Rig& g) { g.faults(true); });
	with("fault record", [](Rig& g) { g.faultRecord(); g.faultRecord(); });
	with("connections", [](Rig& g) { g.io(g.c.choose(2), false); });
	with("connections with addresses", [](Rig& g) { g.io(false, true); });

	// replies whose router reply is well-formed but has any size and one of a few contents
	r.add("sizes", [](Ctx& c) {
		Rig g(c);
		g.session();
		int what = c.choose(7), size = c.choose(deep ? 700 : 300), fill = c.choose(4), status = c.choose(3);
		auto real = g.w.dev.onCip;
		int at = c.choose(3), n = 0;
		g.w.dev.onCip = [&, real](const ref::CipRequest& q) {
			auto r = real(q);
			if (n++ == at) {
				r.data = fill == 0 ? Bytes(size, 0) : fill == 1 ? Bytes(size, 0xff) : fill == 2 ? pattern(size, 8) : Bytes(size, 1);
				if (status == 1) { r.status = 6; }
				if (status == 2) { r.status = 0xff; r.additional.assign(size % 256, 0x101); }
			}
			return r;
		};
		switch (what) {
			case 0: g.explicitRequest(); break;
			case 1: g.identity(); break;
			case 2: g.parameter(true); break;
			case 3: g.upload(); break;
			case 4: g.faults(true); break;
			case 5: g.faultRecord(); break;
			case 6: g.io(false, false); break;
		}
		g.end();
	});
	r.add("large replies", [](Ctx& c) {
		Rig g(c);
		g.session();
		static const std::vector<int> sizes = {1000, 32767, 32768, 65480, 65511};
		int size = c.pick(sizes), what = c.choose(6), fill = c.choose(3);
		g.w.dev.onCip = [&](const ref::CipRequest&) { return ref::CipReply(fill == 0 ? Bytes(size, 0) : fill == 1 ? Bytes(size, 0xff) : pattern(size, 8)); };
		switch (what) {
			case 0: g.explicitRequest(); break;
			case 1: g.identity(); break;
			case 2: g.parameter(true); break;
			case 3: g.upload(); break;
			case 4: g.faults(true); break;
			case 5: g.faultRecord(); break;
		}
		g.end();
	});
	// -- datagrams
	r.add("discovery answers", [](Ctx& c) {
		Rig g(c);
		int items = 1 + c.choose(2);
		Bytes b = identityAnswer(items, "Device");
		Mutations m(b, false), m2(b, true);
		int kind = c.choose(2), k = c.choose(kind ? m2.count() : m.count());
		auto first = kind ? m2.make(k) : m.make(k);
		c.step(first.what);
		g.w.net.onDatagram = [&](const Datagram& d) {
			g.w.net.datagram({ip("10.0.0.9"), 44818}, d.from.port, first.data, g.w.net.now() + MS);
			g.w.net.datagram({ip("10.0.0.9"), 44818}, d.from.port, b, g.w.net.now() + 2 * MS);
		};
		DiscoveryManager dm("10.0.0.255", 44818, milliseconds(Rig::T));
		g.call("discovery", [&] { for (auto& d : dm.discover()) { g.use(d.identityObject.getProductName()); g.use(d.socketAddress.toString()); } }, 2);
		g.end();
	});
	r.add("answers of any size", [](Ctx& c) {
		Rig g(c);
		int size = c.choose(520), fill = c.choose(4), big = c.choose(2);
		Bytes b = fill == 0 ? Bytes(size, 0) : fill == 1 ? Bytes(size, 0xff) : fill == 2 ? pattern(size, 8) : identityAnswer(20, "x");
		if (fill == 3) b.resize(size, 1);
		if (big) b.resize(b.size() + 1000, 2);
		g.w.net.onDatagram = [&](const Datagram& d) { g.w.net.datagram({ip("10.0.0.9"), 44818}, d.from.port, b, g.w.net.now() + MS); };
		DiscoveryManager dm("10.0.0.255", 44818, milliseconds(Rig::T));
		g.call("discovery", [&] { for (auto& d : dm.discover()) { g.use(d.identityObject.getProductName()); g.use(d.socketAddress.toString()); } }, 2);
		g.end();
	});
	auto implicit = [](Ctx& c, int fixed, int header, const std::function<Bytes(uint32_t)>& make, int n) {
		Rig g(c);
		g.session();
		ConnectionManager m;
		auto params = ioParameters(10000, 1000000);
		if (!fixed) params.t2oNetworkConnectionParams |= NetworkConnectionParams::VARIABLE;
		params.t2oRealTimeFormat = header;
		auto p = m.forwardOpen(g.si, params);
		g.listen(p);
		uint32_t id = g.w.opens.back().t2oId;
		for (int i = 0; i < n; ++i) {
			g.w.net.datagram({ip("10.0.0.1"), 2222}, 2222, make(id), g.w.net.now());
			g.w.net.advance(MS);
		}
		g.call("service", [&] { m.handleConnections(milliseconds(1)); });
		g.w.net.advance(12 * MS);
		g.call("service", [&] { m.handleConnections(milliseconds(1)); });
		c.check(m.hasOpenConnections(), "the connection is gone");
		g.end();
	};
	r.add("implicit messages", [implicit](Ctx& c) {
		int fixed = c.choose(2), header = c.choose(2);
		implicit(c, fixed, header, [&](uint32_t id) {
			Bytes b = ref::implicitMessage(id, 1, header ? Bytes{1, 0, 0, 0, 1, 0, 1, 2, 3, 4} : Bytes{1, 0, 1, 2, 3, 4});
			Mutations m(b, false);
			auto x = m.make(c.choose(m.count()));
			c.step(x.what);
			return x.data;
		}, 1);
	});
	r.add("two implicit messages", [implicit](Ctx& c) {
		int fixed = c.choose(2);
		implicit(c, fixed, 0, [&](uint32_t id) {
			Bytes b = ref::implicitMessage(id, 1, {1, 0, 1, 2, 3, 4});
			auto cut = c.choose(static_cast<int>(b.size()) + 1);
			b.resize(cut);
			static const std::vector<int> v = {-1, 0, 1, 0xff};
			int what = c.pick(v);
			if (what >= 0 && b.size() > 0) b[c.choose(2) ? 0 : b.size() - 1] = what;
			return b;
		}, 2);
	});
	r.add("implicit messages of any bytes", [implicit](Ctx& c) {
		// all strings over an alphabet
		static const std::vector<uint8_t> alphabet = {0, 1, 2, 4, 0x80, 0xff};
		int len = c.choose(deep ? 8 : 6);
		Bytes b(len);
		for (auto& x : b) x = c.pick(alphabet);
		implicit(c, 0, 0, [&](uint32_t) { return b; }, 1);
	});
	r.add("implicit sizes", [implicit](Ctx& c) {
		// any size of the data item, the largest datagrams
		static const std::vector<int> big = {1500, 9000, 32768, 65000, 65480, 65489};
		int k = c.choose(600 + 6), fixed = c.choose(2), header = c.choose(2), type = c.choose(3);
		int size = k < 600 ? k : big[k - 600];
		implicit(c, fixed, header, [&](uint32_t id) { return ref::implicitMessage(id, 7, pattern(size), 0x8002, type == 0 ? 0xB1 : type == 1 ? 0xB2 : 0xffff); }, 1);
	});
	r.add("many items", [implicit](Ctx& c) {
		int count = c.choose(300), announced = c.choose(6), size = c.choose(3);
		implicit(c, 1, 0, [&](uint32_t id) {
			std::vector<ref::Item> v;
			for (int i = 0; i < count; ++i) v.push_back({0x8002, i == 0 ? Bytes(ref::W().u32(id).u32(1)) : Bytes(size * 3, 1)});
			static const int a[] = {-1, 0, 1, 2, 0x7fff, 0xffff};
			return ref::cpf(v, a[announced]);
		}, 1);
	});
	// -- the decoders
	r.add("decoders", [](Ctx& c) {
		static const std::vector<uint8_t> alphabet = {0, 1, 2, 4, 0x20, 0x21, 0x24, 0x25, 0x30, 0x31, 0x80, 0xff};
		int len = c.choose(deep ? 7 : 5);
		Bytes prefix(len);
		for (auto& x : prefix) x = c.pick(alphabet);
		uint64_t sum = 0;
		auto use = [&](const Bytes& b) { sum = mix(sum, mc::hash(b)); };
		// and with some continuations
		for (int more : {0, 1, 2, 3, 4, 8, 24, 40}) {
			Bytes b = prefix;
			for (int i = 0; i < more; ++i) b.push_back(i % 3 == 0 ? 1 : 0);
			auto tryIt = [&](const std::function<void()>& f) { auto o = attempt(f); sum = mix(sum, o.threw); c.compared(); };
			tryIt([&] { cip::EPath p; p.expandPaddedPath(b); sum = mix(sum, p.getClassId() + p.getObjectId() + p.getAttributeId()); p.toString(); });
			tryIt([&] { cip::Yaskawa_EPath p; p.expandPaddedPath(b); sum = mix(sum, p.getClassId() + p.getObjectId() + p.getAttributeId()); p.toString(); });
			tryIt([&] { eip::CommonPacket p; p.expand(b); for (auto& i : p.getItems()) use(i.getData()); });
			tryIt([&] { cip::MessageRouterResponse p; p.expand(b); use(p.getData()); for (auto s : p.getAdditionalStatus()) sum = mix(sum, s); });
			tryIt([&] { cip::connectionManager::ForwardOpenResponse p; p.expand(b); use(p.getApplicationReplay()); });
			tryIt([&] { eip::EncapsPacket p; p.expand(b); use(p.getData()); });
			if (b.size() >= eip::EncapsPacket::HEADER_SIZE) tryIt([&] { sum = mix(sum, eip::EncapsPacket::getLengthFromHeader(b)); });
		}
		c.obs(sum);
		c.state(sum);
	});
	if (deep) {
		// two spoilt messages
		with("two spoilt replies", [](Rig& g) { g.explicitRequest(); g.identity(); g.identity(); }, 2);
	}
}
