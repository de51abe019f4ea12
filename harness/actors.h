// Programs that use each part of the library, one step after the other
#pragma once
#include "io.h"
#include "DiscoveryManager.h"
#include "FileObject.h"
#include "IdentityObject.h"
#include "ParameterObject.h"
#include "MessageRouter.h"
#include "Yaskawa_MessageRouter.h"
#include "cip/EPath.h"
#include "cip/connectionManager/NetworkConnectionParametersBuilder.h"
#include "eip/CommonPacket.h"
#include "utils/Buffer.h"
#include "vendor/ra/powerFlex525/DPIFaultManager.h"

using namespace eipScanner;
using sim::Addr;
using sim::ip;
using DPIFaultManager = vendor::ra::powerFlex525::DPIFaultManager;
using DPIFaultParameter = vendor::ra::powerFlex525::DPIFaultParameter;

namespace {

/// A device which knows everything. What it reports depends on its number and on how often it was asked.
struct Host {
	int k;
	ref::Device dev;
	std::map<std::string, int> asked;
	std::map<int, Bytes> written;
	std::function<void(const std::string&)> log;
	std::function<void(uint32_t, uint32_t)> opened;
	uint32_t nextO2t;
	int requests = 0, failAt = -1, failHow = 0; // one request is refused or answered incompletely
	explicit Host(int n) : k(n), nextO2t(0xA0000000u + n * 0x100) {
		dev.handle = 0x100 + n;
		dev.onCip = [this](const ref::CipRequest& q) {
			bool fails = requests++ == failAt;
			if (fails && failHow == 0) {
				if (log) log(fmt("refused %x %d/%d/%d", q.service, q.path.cls, q.path.inst, q.path.attr));
				return ref::CipReply::error(0x10, {0x55});
			}
			auto r = cip(q);
			if (fails && failHow == 1) r.data.resize(r.data.size() / 2);
			if (fails && failHow == 2) r.dropTail = 1;
			return r;
		};
		dev.onFrame = [this](sim::Stream&, const ref::Frame& f) {
			if (f.command != ref::SEND_RR && log) log(fmt("frame %x of session %x", f.command, f.session));
			return false;
		};
	}
	ref::CipReply cip(const ref::CipRequest& q) {
		if (q.path.cls == 6) {
			if (q.service == 0x4E) {
				auto fc = ref::ForwardClose::parse(q);
				if (log) log("close of " + hex(fc.path));
				return ref::CipReply(fc.reply());
			}
			auto fo = ref::ForwardOpen::parse(q);
			if (log) log(fmt("open %u %u %x %x ", fo.o2tRpi, fo.t2oRpi, fo.o2tParams, fo.t2oParams) + hex(fo.path));
			if (opened) opened(nextO2t, fo.t2oId);
			return ref::CipReply(fo.reply(nextO2t++, fo.t2oId, fo.o2tRpi, fo.t2oRpi));
		}
		std::string key = fmt("%d/%d/%d/%d", q.service, q.path.cls, q.path.inst, q.path.attr);
		int n = asked[key]++;
		if (log) log(q.str());
		uint8_t salt = static_cast<uint8_t>(k * 16 + q.path.inst);
		switch (q.path.cls) {
			case 1: return ref::CipReply(ref::W().u16(salt).u16(salt + 1).u16(salt + 2).u8(salt).u8(3).u16(salt + 4).u32(salt + 5).shortString(fmt("Device %d.%d", k, q.path.inst)));
			case 0x0F:
				if (q.path.inst >= 600 || (q.path.inst >= 7 && q.path.inst <= 9)) {
					// the fault queue: two faults, then none; after clearing one more
					bool cleared = asked["cleared"];
					if (q.path.inst == 7) return ref::CipReply(ref::W().u16(2 + k));
					if (q.path.inst == 8) return ref::CipReply(ref::W().u16(cleared ? 0 : 3 + k));
					if (q.path.inst == 9 || q.path.inst < 611) return ref::CipReply(ref::W().u16(0));
					return ref::CipReply(ref::W().u16(q.path.inst + k));
				}
				if (q.service == 1) return ref::CipReply(ref::W().u16(salt + n).u8(0).u16(4).u8(0xC7).u8(2).shortString(fmt("P%d.%d", k, q.path.inst)).shortString(k % 2 ? "Hz" : "Volt").shortString(std::string(k + 1, 'h')).u16(salt).u16(salt + 300).u16(salt + 7).fill(16, 0).u8(k % 3));
				if (q.path.attr == 6) return ref::CipReply(ref::W().u8(2));
				if (q.path.attr == 1) return ref::CipReply(ref::W().u16(1000 * (n + 1) + salt));
				return ref::CipReply(ref::W().u16(q.path.attr == 16 ? 5 + k : 1 + k));
			case 0x37: {
				static const size_t size = 5;
				if (q.service == 0x4B) return ref::CipReply(ref::W().u32(12 + k).u8(size));
				if (q.service == 0x4F) {
					size_t t = q.data.empty() ? 0 : q.data[0], total = 12 + k;
					Bytes file = pattern(total, 50 + salt);
					bool last = (t + 1) * size >= total;
					ref::W w;
					w.u8(t).u8(last ? 2 : t ? 1 : 0).raw(Bytes(file.begin() + std::min(total, t * size), file.begin() + std::min(total, (t + 1) * size)));
					if (last) w.u16(0x1234);
					return ref::CipReply(w);
				}
				return ref::CipReply(ref::W().u8(2));
			}
			case 0x97: asked["cleared"] = 1; return ref::CipReply();
			case 0x64:
				if (q.service == 0x10) { written[q.path.attr] = q.data; return ref::CipReply(); }
				if (q.path.attr == 99) { auto e = ref::CipReply::error(0x14, {static_cast<uint16_t>(0x100 + k)}); e.extra = {{0x8000, Bytes{salt}}}; return e; }
				if (written.count(q.path.attr)) return ref::CipReply(written[q.path.attr]);
				return ref::CipReply(pattern(3 + k + n, salt + q.path.attr));
		}
		return ref::CipReply::error(5);
	}
};

struct Fixture {
	sim::Net net;
	std::map<int, std::unique_ptr<Host>> hosts;
	std::unique_ptr<ConnectionManager> manager = std::make_unique<ConnectionManager>();
	std::map<int, std::shared_ptr<SessionInfo>> common; // sessions used by several
	std::vector<std::string>* trace = nullptr; // of who is running
	size_t sent = 0;
	bool inManager = false;

	explicit Fixture(eipScanner::utils::LogLevel level = eipScanner::utils::LogLevel::OFF) { eipScanner::utils::Logger::setLogLevel(level); }
	Host& host(int k) {
		auto& h = hosts[k];
		if (!h) {
			h = std::make_unique<Host>(k);
			h->log = [this](const std::string& s) { if (trace) trace->push_back("device: " + s); };
			net.listeners[{ip("10.0.0.0") + k + 1, 44818}] = &h->dev;
		}
		return *h;
	}
	static std::string name(int k) { return "10.0.0." + std::to_string(k + 1); }
};

/// Something a program does in several steps
struct Actor {
	Fixture& f;
	int k;      // decides what is done and reported
	int device;
	std::vector<std::string> trace;
	std::vector<std::function<void()>> steps;
	size_t next = 0;
	bool usesManager = false, running = false;
	std::function<void()> inside = [] {}; // called in its callbacks
	std::shared_ptr<SessionInfo> si;
	Actor(Fixture& fixture, int n, int dev) : f(fixture), k(n), device(dev) { f.host(device); }
	virtual ~Actor() = default;
	int inst(int n) const { return 20 + k * 8 + n; }
	bool done() const { return next >= steps.size(); }
	/// An object that could not be made
	template <typename T>
	static T& need(const std::unique_ptr<T>& p) {
		if (!p) throw std::runtime_error("nothing there");
		return *p;
	}
	void say(const std::string& s) { trace.push_back(s); }
	void run() {
		auto* before = f.trace;
		f.trace = &trace;
		running = true;
		auto o = attempt(steps[next]);
		if (o.threw) say("raises " + o.what);
		running = false;
		f.trace = before;
		++next;
		say("--");
	}
	void callback() {
		// another one may run here
		auto* mine = f.trace;
		inside();
		f.trace = mine;
	}
	void open() {
		if (f.common.count(device)) si = f.common[device];
		else si = std::make_shared<SessionInfo>(Fixture::name(device), 44818, milliseconds(1000 + k));
		say(fmt("session %x", si->getSessionHandle()));
	}
};

struct Explicit : Actor {
	MessageRouter router;
	Yaskawa_MessageRouter other;
	Explicit(Fixture& fx, int n, int d) : Actor(fx, n, d), router(n % 2) {
		auto show = [this](const cip::MessageRouterResponse& r) {
			std::string s = fmt("reply %x status %x ", static_cast<int>(r.getServiceCode()), static_cast<int>(r.getGeneralStatusCode())) + hex(r.getData());
			for (auto a : r.getAdditionalStatus()) s += fmt(" +%x", a);
			for (auto& i : r.getAdditionalPacketItems()) s += fmt(" item %x ", static_cast<int>(i.getTypeId())) + hex(i.getData());
			say(s);
		};
		steps = {
			[this] { open(); },
			[this, show] { show(router.sendRequest(si, 0x0E, cip::EPath(0x64, inst(1), 1), {})); },
			[this, show] { show(router.sendRequest(si, 0x10, cip::EPath(0x64, inst(1), 10 + k), pattern(4 + k, 7 + k))); show(router.sendRequest(si, 0x0E, cip::EPath(0x64, inst(1), 10 + k))); },
			[this, show] { show(router.sendRequest(si, 0x0E, cip::EPath(0x64, inst(1), 99), {}, {})); show(other.sendRequest(si, 0x0E, cip::Yaskawa_EPath(0x64, inst(1), 1))); },
			[this] { si.reset(); }};
	}
};

struct Identity : Actor {
	std::unique_ptr<IdentityObject> a, b;
	Identity(Fixture& fx, int n, int d) : Actor(fx, n, d) {
		auto show = [this](const IdentityObject& o) {
			say(fmt("%d %d %d %d %d %s %s", o.getVendorId(), o.getDeviceType(), o.getProductCode(), o.getStatus(), o.getSerialNumber(), o.getRevision().toString().c_str(), o.getProductName().c_str()));
		};
		steps = {
			[this] { open(); },
			[this, show] { a = std::make_unique<IdentityObject>(inst(1), si); show(*a); },
			[this, show] { b = std::make_unique<IdentityObject>(inst(2), si); b->setProductName(fmt("mine %d", k)); b->setVendorId(500 + k); show(need(a)); show(need(b)); },
			[this, show] { show(need(a)); show(need(b)); si.reset(); a.reset(); show(*b); }};
	}
};

struct Parameter : Actor {
	std::unique_ptr<ParameterObject> p, empty;
	Parameter(Fixture& fx, int n, int d) : Actor(fx, n, d) {
		auto show = [this](const ParameterObject& o) {
			say(fmt("%d %g %d %d %d %d %d %d %d %d ", o.getActualValue<cip::CipUint>(), o.getEngValue<cip::CipUint>(), o.getMinValue<cip::CipUint>(), o.getMaxValue<cip::CipUint>(), o.getDefaultValue<cip::CipUint>(),
				o.getScalingMultiplier(), o.getScalingDivisor(), o.getScalingBase(), o.getScalingOffset(), o.getPrecision()) + o.getName() + o.getUnits() + o.getHelp());
		};
		steps = {
			[this] { open(); },
			[this, show] { p = std::make_unique<ParameterObject>(inst(3), true, si); show(*p); },
			[this, show] { empty = std::make_unique<ParameterObject>(inst(4), true, 2); empty->setPrecision(k); empty->setName("mine"); need(p).setEngMaxValue<cip::CipUint>(50 + k); show(*p); show(*empty); },
			[this, show] { need(p).updateValue(si); empty->updateValue(si); show(*p); show(*empty); },
			[this, show] { si.reset(); show(need(p)); show(need(empty)); }};
	}
};

struct Upload : Actor {
	std::unique_ptr<FileObject> file;
	Upload(Fixture& fx, int n, int d) : Actor(fx, n, d) {
		auto transfer = [this] { say(fmt("goes on: %d", need(file).handleTransfers(si))); };
		steps = {
			[this] { open(); file = std::make_unique<FileObject>(0xC8 + k, si); },
			[this] { need(file).beginUpload(si, [this](auto status, const std::vector<uint8_t>& b) { say(fmt("ends with %d: ", static_cast<int>(status)) + hex(b)); callback(); }); },
			transfer, transfer, transfer, transfer,
			[this] { file.reset(); si.reset(); }};
	}
};

struct Faults : Actor {
	std::unique_ptr<DPIFaultManager> m;
	Faults(Fixture& fx, int n, int d) : Actor(fx, n, d) {
		steps = {
			[this] {
				open();
				m = std::make_unique<DPIFaultManager>(k % 2 == 0, false, true);
				m->setNewFaultListener([this](const DPIFaultParameter& p) {
					auto x = p.getFaultDetails();
					say(fmt("fault %d %d %g %g %g ", x.faultNumber, x.faultCode, x.busVoltage, x.current, x.frequency) + p.getFullInformation().faultDescription.faultText);
					callback();
				});
			},
			[this] { m->handleFaultParameters(si); },
			[this] { m->handleFaultParameters(si); },
			[this] { m.reset(); si.reset(); }};
	}
};

struct Implicit : Actor {
	IOConnection::WPtr io;
	uint32_t id = 0, o2t = 0, seq = 0;
	Implicit(Fixture& fx, int n, int d) : Actor(fx, n, d) {
		usesManager = true;
		steps = {
			[this] { open(); },
			[this] {
				auto p = ioParameters(10000000 + 10000 * k, 10000000 + k, 4 + k, 5 + k);
				p.connectionTimeoutMultiplier = 3;
				p.connectionPath = {0x20, 0x04, 0x24, 151, 0x2C, static_cast<uint8_t>(150 + k), 0x2C, static_cast<uint8_t>(100 + k)};
				f.host(device).opened = [this](uint32_t o, uint32_t t) { o2t = o; id = t; };
				io = f.manager->forwardOpen(si, p, k % 2);
				f.host(device).opened = {};
				if (io.expired()) { say("no connection"); return; }
				auto c = io.lock();
				c->setDataToSend(pattern(4 + k, 60 + k));
				c->setReceiveDataListener([this](auto header, auto sequence, auto data) { say(fmt("receives %x %d ", header, sequence) + hex(data)); callback(); });
				c->setCloseListener([this] { say("closed"); });
			},
			[this] { feed(1); },
			[this] { feed(2); produce(); },
			[this] { if (!io.expired()) io.lock()->setDataToSend(pattern(4 + k, 80 + k)); feed(1); produce(); },
			[this] { f.manager->forwardClose(si, io); say(fmt("open: %d", !io.expired())); feed(1); },
			[this] { si.reset(); }};
	}
	void feed(int n) {
		for (int i = 0; i < n; ++i) {
			++seq;
			f.net.datagram({ip("10.0.0.0") + device + 1, 2222}, 2222, ref::implicitMessage(id, seq, ref::W().u16(seq).raw(pattern(5 + k, seq))), f.net.now());
		}
		service();
	}
	void service() {
		f.inManager = true;
		f.manager->handleConnections(milliseconds(0));
		f.inManager = false;
	}
	void produce() {
		// after the interval at the latest what was set last is sent
		f.net.advance((10000 + 10 * k) * MS + MS);
		size_t from = f.net.sent.size();
		// nobody's connection may time out
		service();
		for (size_t i = from; i < f.net.sent.size(); ++i) {
			auto& d = f.net.sent[i];
			std::vector<ref::Item> items;
			if (d.to.ip != ip("10.0.0.0") + device + 1 || !ref::parseCpf(d.data, items) || items.size() != 2) continue;
			Bytes b = items[1].data;
			if (ref::R(items[0].data).u32() != o2t) continue;
			if (b.size() > 2) b[0] = b[1] = 0;
			say("sends " + hex(b));
		}
	}
};

struct Discovery : Actor {
	Discovery(Fixture& fx, int n, int d) : Actor(fx, n, d) {
		auto look = [this] {
			auto before = f.net.onDatagram;
			f.net.onDatagram = [this](const sim::Datagram& d) {
				if (d.to.port != 44818) return;
				for (int i = 0; i <= k; ++i) {
					ref::W id;
					id.u16(1).raw(ref::sockaddrItem(ip("10.1.0.0") + k * 16 + i, 44818)).u16(k).u16(8).u16(9).u8(1).u8(2).u16(0x30).u32(i).shortString(fmt("Device %d", i)).u8(3);
					f.net.datagram({ip("10.1.0.0") + k * 16 + i, 44818}, d.from.port, ref::encap(ref::LIST_IDENTITY, 0, 0, ref::cpf({{0xC, id}})), f.net.now() + (i + 1) * MS);
				}
			};
			DiscoveryManager m(fmt("10.%d.0.255", k), 44818, milliseconds(5 + k));
			for (auto& i : m.discover()) say(fmt("%d %d ", i.identityObject.getVendorId(), i.identityObject.getSerialNumber()) + i.identityObject.getProductName() + " " + i.socketAddress.toString());
			f.net.onDatagram = before;
		};
		steps = {look, look};
	}
};

struct Codec : Actor {
	utils::Buffer out, in;
	eip::CommonPacket list;
	cip::connectionManager::NetworkConnectionParametersBuilder builder;
	cip::EPath path;
	Codec(Fixture& fx, int n, int d) : Actor(fx, n, d) {
		using B = cip::connectionManager::NetworkConnectionParametersBuilder;
		steps = {
			[this] { out << static_cast<uint16_t>(0x1111 * (k + 1)) << static_cast<uint8_t>(k); list << eip::CommonPacketItem(eip::CommonPacketItemIds::LIST_IDENTITY, pattern(k)); builder.setConnectionSize(100 + k); path = cip::EPath(k + 1); },
			[this] { out << static_cast<double>(k) << cip::CipString(std::string(k + 1, 'q')); list << eip::CommonPacketItem(); builder.setPriority(k % 2 ? B::URGENT : B::SCHEDULED); path = cip::EPath(k + 1, k + 2, k + 3); },
			[this] { in = utils::Buffer(out.data()); uint16_t a; uint8_t b; in >> a >> b; say(fmt("%d %d ", a, b) + hex(list.pack()) + fmt(" %x ", builder.build()) + path.toString()); },
			[this] { double v; cip::CipString s; in >> v >> s; say(fmt("%g ", v) + s.toStdString() + fmt(" %d %d", in.isValid(), in.empty())); list.expand(ref::cpf({{1, pattern(k)}})); say(hex(list.pack()) + hex(path.packPaddedPath())); }};
	}
};

constexpr int KINDS = 8;
std::unique_ptr<Actor> make(int kind, Fixture& f, int k, int device) {
	switch (kind) {
		case 0: return std::make_unique<Explicit>(f, k, device);
		case 1: return std::make_unique<Identity>(f, k, device);
		case 2: return std::make_unique<Parameter>(f, k, device);
		case 3: return std::make_unique<Upload>(f, k, device);
		case 4: return std::make_unique<Faults>(f, k, device);
		case 5: return std::make_unique<Implicit>(f, k, device);
		case 6: return std::make_unique<Discovery>(f, k, device);
		default: return std::make_unique<Codec>(f, k, device);
	}
}
const char* KIND[] = {"explicit messages", "identity", "parameter", "upload", "faults", "implicit connection", "discovery", "codec"};

} // namespace
