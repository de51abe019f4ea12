// C08: the parameters of forward open requests
#include "io.h"
#include <set>

using namespace eipScanner;

namespace {

struct Caller {
	ConnectionParameters p;
	bool large = false;
	int api = 0; // how it is called
};

unsigned typeOf(uint32_t params, bool large) { return (params >> (large ? 29 : 13)) & 3; }

/// Opens and compares; returns the record
OpenRecord open(Ctx& c, IoWorld& w, const std::shared_ptr<SessionInfo>& si, ConnectionManager& m, const Caller& q, IOConnection::WPtr* out = nullptr) {
	c.step("open");
	size_t before = w.opens.size(), frames = w.dev.frames.size();
	const auto& p = q.p;
	IOConnection::WPtr io;
	auto o = attempt([&] {
		if (q.large) io = q.api ? m.largeForwardOpen(si, p) : m.forwardOpen(si, p, true);
		else io = q.api ? m.forwardOpen(si, p) : m.forwardOpen(si, p, false);
	});
	if (out) *out = io;
	c.check(!o.threw, "forward open fails: " + o.what);
	w.conforming(c);
	c.equal(w.opens.size(), before + 1, "number of open requests");
	c.equal(w.dev.frames.size(), frames + 1, "number of messages");
	const OpenRecord& r = w.opens.back();
	const auto& f = r.fo;
	unsigned overhead = (p.transportTypeTrigger & 0xf) ? 2 : 0;
	uint32_t o2t = p.o2tNetworkConnectionParams + overhead + (p.o2tRealTimeFormat ? 4 : 0);
	uint32_t t2o = p.t2oNetworkConnectionParams + overhead + (p.t2oRealTimeFormat ? 4 : 0);
	c.equal(static_cast<int>(r.q.service), q.large ? 0x5B : 0x54, "service");
	c.equal(static_cast<int>(f.priority), static_cast<int>(p.priorityTimeTick), "priority/time tick");
	c.equal(static_cast<int>(f.ticks), static_cast<int>(p.timeoutTicks), "time-out ticks");
	c.equal(f.vendor, p.originatorVendorId, "originator vendor id");
	c.equal(f.originatorSerial, p.originatorSerialNumber, "originator serial number");
	c.equal(static_cast<int>(f.multiplier), static_cast<int>(p.connectionTimeoutMultiplier), "timeout multiplier");
	c.equal(f.reserved, Bytes{0, 0, 0}, "reserved bytes");
	c.equal(f.o2tRpi, p.o2tRPI, "O2T RPI");
	c.equal(f.t2oRpi, p.t2oRPI, "T2O RPI");
	c.equal(f.o2tParams, o2t, fmt("O2T network parameters (from %08x)", p.o2tNetworkConnectionParams));
	c.equal(f.t2oParams, t2o, fmt("T2O network parameters (from %08x)", p.t2oNetworkConnectionParams));
	c.equal(static_cast<int>(f.trigger), static_cast<int>(p.transportTypeTrigger), "transport type and trigger");
	c.equal(static_cast<size_t>(f.pathWords), p.connectionPath.size() / 2, "path length in words");
	c.equal(f.path, p.connectionPath, "connection path");
	bool freshO2t = typeOf(p.o2tNetworkConnectionParams, q.large) == 1, freshT2o = typeOf(p.t2oNetworkConnectionParams, q.large) == 2;
	if (!freshO2t) c.equal(f.o2tId, p.o2tNetworkConnectionId, "O2T connection id given by the caller");
	if (!freshT2o) c.equal(f.t2oId, p.t2oNetworkConnectionId, "T2O connection id given by the caller");
	// what is in the counters depends on the executions before: not observed
	c.obs(Bytes(r.q.data.begin(), r.q.data.begin() + 2));
	c.obs(mix(mix(f.o2tParams, f.t2oParams), mix(f.trigger, mix(f.multiplier, hash(f.path)))));
	c.state(mix(mix(f.o2tParams, f.t2oParams), mix(f.trigger, mix(f.multiplier, mix(f.o2tRpi, mix(f.t2oRpi, hash(f.path)))))));
	return r;
}

/// A session without a connection: answers at once
struct Direct : SessionInfoIf {
	mutable Bytes request;
	bool accept = false;
	uint8_t status = 1;
	int trouble = 0;
	eip::EncapsPacket sendAndReceive(const eip::EncapsPacket& p) const override {
		request = p.getData();
		// interface, timeout, count, null item, header of the data item, service, path
		uint8_t service = request.at(16);
		ref::W w;
		w.u8(service | 0x80).u8(0).u8(accept ? 0 : status).u8(0);
		if (trouble == 1) throw std::system_error(EAGAIN, std::generic_category());
		if (trouble == 2) throw std::runtime_error("Bad encaps packet");
		if (accept && service != 0x4E) {
			ref::CipRequest q;
			q.service = service;
			q.data.assign(request.begin() + 18 + 2 * request.at(17), request.end());
			auto f = ref::ForwardOpen::parse(q);
			w.raw(f.reply(5, f.t2oId, f.o2tRpi, f.t2oRpi));
		}
		eip::EncapsPacket r;
		r.setCommand(eip::EncapsCommands::SEND_RR_DATA);
		r.setData(ref::rrReply(w));
		return r;
	}
	cip::CipUdint getSessionHandle() const override { return 7; }
	sockets::EndPoint getRemoteEndPoint() const override { return {"10.0.0.1", 44818}; }
};

const std::vector<uint32_t> WORDS = [] {
	std::vector<uint32_t> v{0, 1, 0xffffffffu, 0x7fffffff, 0x80000000u, 0x01020304, 0xfffefdfc, 0xff, 0x100, 0xffff, 0x10000};
	return v;
}();

Caller base(bool large) {
	Caller q;
	q.large = large;
	q.p.priorityTimeTick = 0x0a;
	q.p.timeoutTicks = 0x0e;
	q.p.o2tNetworkConnectionId = 0x31323334;
	q.p.t2oNetworkConnectionId = 0x41424344;
	q.p.originatorVendorId = 0x5152;
	q.p.originatorSerialNumber = 0x61626364;
	q.p.connectionTimeoutMultiplier = 3;
	q.p.o2tRPI = 0x00a1b2c3;
	q.p.t2oRPI = 0x00d4e5f6;
	q.p.transportTypeTrigger = 1;
	q.p.connectionPath = {0x20, 0x04, 0x24, 0x97, 0x2c, 0x96, 0x2c, 0x64};
	int shift = large ? 16 : 0;
	q.p.o2tNetworkConnectionParams = (0x4800u << shift) | 32;
	q.p.t2oNetworkConnectionParams = (0x4800u << shift) | 44;
	return q;
}

} // namespace

void mc::define(Registry& r) {
	r.bound("all 128 x 128 values of the fields above the sizes in both directions x layouts");
	r.bound("product of layout x transport class 0..3 x triggers x real time formats x connection types x size types x sizes; each parameter over its boundary values (8 bit ones completely) in both layouts");
	r.bound("65936 (thorough 196608) consecutive opens, accepted, refused with each status or failing: serial numbers and connection ids");
	bool th = r.thorough();

	r.add("network parameters", [th](Ctx& c) {
		IoWorld w;
		Caller q = base(c.choose(2, "large"));
		q.api = c.choose(2);
		int shift = q.large ? 16 : 0;
		static const std::vector<unsigned> smallSizes = {0, 1, 32, 255, 256, 505}, largeSizes = {0, 1, 0x1ff, 0x200, 0x7fff, 65529};
		auto& sizes = q.large ? largeSizes : smallSizes;
		q.p.transportTypeTrigger = c.choose(4, "class") | (c.choose(th ? 8 : 3, "trigger") << 4);
		q.p.o2tRealTimeFormat = c.choose(2);
		q.p.t2oRealTimeFormat = c.choose(2);
		unsigned o = c.choose(4, "O2T type") << 13, t = c.choose(4, "T2O type") << 13;
		if (c.choose(2)) { o |= 0x8000 | 0x0c00; t |= 0x0200; }
		else { o |= 0x0200; t |= 0x8000 | 0x0800; }
		q.p.o2tNetworkConnectionParams = (o << shift) | c.pick(sizes, "size");
		q.p.t2oNetworkConnectionParams = (t << shift) | (th ? c.pick(sizes) : c.choose(2) ? 17 : sizes.back());
		auto si = w.session();
		ConnectionManager m;
		open(c, w, si, m, q);
	});
	r.add("upper bits", [](Ctx& c) {
		// all fields above the sizes, in both directions together
		IoWorld w;
		Caller q = base(c.choose(2, "large"));
		int shift = q.large ? 16 : 0;
		uint32_t o = c.choose(128, "O2T") << 9, t = c.choose(128, "T2O") << 9;
		int more = c.choose(2, "size");
		q.p.transportTypeTrigger = more;
		q.p.o2tNetworkConnectionParams = (o << shift) | (q.large ? more ? 0xeaaa : 0x1555 : 0x155);
		q.p.t2oNetworkConnectionParams = (t << shift) | (q.large ? more ? 0x3333 : 0xcccc : 0x133);
		auto si = w.session();
		ConnectionManager m;
		auto rec = open(c, w, si, m, q);
		bool own = typeOf(q.p.t2oNetworkConnectionParams, q.large) == 2;
		if (own) c.check(rec.fo.t2oId != q.p.t2oNetworkConnectionId, "the T2O connection id is not a fresh one");
		if (typeOf(q.p.o2tNetworkConnectionParams, q.large) == 1) c.check(rec.fo.o2tId != q.p.o2tNetworkConnectionId, "the O2T connection id is not a fresh one");
	});
	r.add("fields", [](Ctx& c) {
		IoWorld w;
		Caller q = base(c.choose(2, "large"));
		int what = c.choose(12, "field");
		switch (what) {
			case 0: q.p.priorityTimeTick = c.choose(256); break;
			case 1: q.p.timeoutTicks = c.choose(256); break;
			case 2: q.p.o2tNetworkConnectionId = c.pick(WORDS); break;
			case 3: q.p.t2oNetworkConnectionId = c.pick(WORDS); q.p.t2oNetworkConnectionParams ^= 0x6000u << (q.large ? 16 : 0); break;
			case 4: q.p.originatorVendorId = c.pick(WORDS); break;
			case 5: q.p.originatorSerialNumber = c.pick(WORDS); break;
			case 6: q.p.connectionTimeoutMultiplier = c.choose(8); break;
			case 7: q.p.o2tRPI = c.pick(WORDS); break;
			case 8: q.p.t2oRPI = c.pick(WORDS); break;
			case 9: q.p.transportTypeTrigger = c.choose(4) | c.choose(16) << 4; break;
			case 10: q.p.connectionPath = pattern(2 * c.choose(256, "words"), 5); break;
			case 11: q.p.connectionSerialNumber = c.pick(WORDS); q.p.connectionPathSize = c.pick(WORDS); break; // set by the library
		}
		auto si = w.session();
		ConnectionManager m;
		open(c, w, si, m, q);
	});
	r.add("all bits", [](Ctx& c) {
		// every single bit of the parameter words except those whose sum would carry
		IoWorld w;
		Caller q = base(c.choose(2, "large"));
		q.p.o2tRealTimeFormat = c.choose(2);
		q.p.t2oRealTimeFormat = c.choose(2);
		int bit = c.choose(q.large ? 32 : 16);
		(c.choose(2) ? q.p.o2tNetworkConnectionParams : q.p.t2oNetworkConnectionParams) ^= 1u << bit;
		auto si = w.session();
		ConnectionManager m;
		open(c, w, si, m, q);
	});
	r.add("named values", [](Ctx& c) {
		// what a caller writes with the names of the library means what CIP means by them
		using namespace cip::connectionManager;
		struct Named { const char* name; uint32_t value, wire; bool trigger; };
		static const std::vector<Named> names = {
			{"REDUNDANT", REDUNDANT, 0x8000, false}, {"OWNED", OWNED, 0, false}, {"TYPE0", TYPE0, 0, false}, {"MULTICAST", MULTICAST, 0x2000, false},
			{"P2P", P2P, 0x4000, false}, {"LOW_PRIORITY", LOW_PRIORITY, 0, false}, {"HIGH_PRIORITY", HIGH_PRIORITY, 0x0400, false},
			{"SCHEDULED_PRIORITY", SCHEDULED_PRIORITY, 0x0800, false}, {"URGENT", URGENT, 0x0c00, false}, {"FIXED", FIXED, 0, false},
			{"VARIABLE", VARIABLE, 0x0200, false}, {"TRIG_CYCLIC", TRIG_CYCLIC, 0, true}, {"TRIG_CHANGE", TRIG_CHANGE, 0x10, true},
			{"TRIG_APP", TRIG_APP, 0x20, true}, {"CLASS0", CLASS0, 0, true}, {"CLASS1", CLASS1, 1, true}, {"CLASS2", CLASS2, 2, true},
			{"CLASS3", CLASS3, 3, true}, {"TRANSP_SERVER", TRANSP_SERVER, 0x80, true}};
		const auto& n = c.pick(names, "name");
		IoWorld w;
		Caller q = base(c.choose(2, "large"));
		int shift = q.large ? 16 : 0;
		c.step(n.name);
		if (n.trigger) {
			q.p.transportTypeTrigger = n.value;
			q.p.o2tNetworkConnectionParams = q.p.t2oNetworkConnectionParams = 10;
		} else {
			q.p.transportTypeTrigger = 0;
			q.p.o2tNetworkConnectionParams = (n.value << shift) | 10;
			q.p.t2oNetworkConnectionParams = (n.value << shift) | 12;
		}
		auto si = w.session();
		ConnectionManager m;
		auto rec = open(c, w, si, m, q);
		uint32_t size = n.trigger && (n.wire & 0xf) ? 2 : 0;
		c.equal(static_cast<uint32_t>(rec.fo.trigger), n.trigger ? n.wire : 0u, std::string("transport type and trigger of ") + n.name);
		c.equal(rec.fo.o2tParams, n.trigger ? 10 + size : (n.wire << shift) | 10, std::string("O2T parameters of ") + n.name);
		c.equal(rec.fo.t2oParams, n.trigger ? 10 + size : (n.wire << shift) | 12, std::string("T2O parameters of ") + n.name);
	});
	r.add("sequences", [](Ctx& c) {
		// opens by two managers: fresh serial numbers and ids, nothing sticks from one to the next
		IoWorld w;
		auto si = w.session();
		ConnectionManager m1, m2;
		std::set<uint16_t> serials;
		std::set<uint32_t> o2tIds, t2oIds;
		for (int i = 0; i < 4; ++i) {
			int kind = c.choose(4);
			Caller q = base(kind & 1);
			int shift = q.large ? 16 : 0;
			if (kind & 2) {
				q.p.o2tNetworkConnectionParams = (0x2000u << shift) | 10; // multicast O2T
				q.p.t2oNetworkConnectionParams = (0x2000u << shift) | 10; // multicast T2O: the id is the target's
				q.p.o2tRealTimeFormat = true;
				q.p.transportTypeTrigger = 0;
				w.t2oOverride = 0x77770000u + i;
			} else w.t2oOverride = 0;
			w.openStatus = c.choose(2) ? 1 : 0;
			auto rec = open(c, w, si, c.choose(2) ? m1 : m2, q);
			c.check(serials.insert(rec.fo.serial).second, fmt("serial number %u is used again", rec.fo.serial));
			if (kind & 2) c.check(o2tIds.insert(rec.fo.o2tId).second, fmt("O2T connection id %u is used again", rec.fo.o2tId));
			else c.check(t2oIds.insert(rec.fo.t2oId).second, fmt("T2O connection id %u is used again", rec.fo.t2oId));
		}
	});
	r.add("refused opens", [](Ctx& c) {
		// whatever became of an open, the next one has another serial number and another id
		IoWorld w;
		auto si = std::make_shared<Direct>();
		ConnectionManager m;
		std::set<uint16_t> serials;
		std::set<uint32_t> ids;
		int status = c.choose(256), trouble = c.choose(3), large = c.choose(2);
		for (int i = 0; i < 3; ++i) {
			Caller q = base(i == 1 ? large : !large);
			si->accept = i != 1 || !status;
			si->status = status;
			si->trouble = i == 1 ? trouble : 0;
			IOConnection::WPtr io;
			attempt([&] { io = m.forwardOpen(si, q.p, q.large); });
			c.check(io.expired() == (si->trouble || !si->accept), "wrong outcome of an open");
			ref::R r(si->request);
			r.take(18 + 2 * si->request.at(17) + 2);
			r.u32();
			uint32_t id = r.u32();
			uint16_t serial = r.u16();
			c.check(serials.insert(serial).second, fmt("the serial number is used again after an open with status %d", status));
			c.check(ids.insert(id).second, fmt("the connection id is used again after an open with status %d", status));
			c.step("open");
		}
		c.state(mix(status, trouble));
	});
	r.add("many opens", [th](Ctx& c) {
		// more than 2^16 of them: neither serial numbers nor ids may come back too early
		IoWorld w;
		w.net.horizon = 40000000;
		auto si = std::make_shared<Direct>();
		ConnectionManager m;
		int kind = th ? c.choose(4) : 3;
		const int total = th ? 3 * 65536 : 65536 + 400;
		std::vector<int> last(65536, -1000000);
		struct Ids {
			std::set<uint32_t> others;
			std::vector<bool> seen = std::vector<bool>(1 << 20);
			uint32_t first = 0;
			bool any = false;
			bool fresh(uint32_t id) { // usually consecutive: a bit per id, else a set
				if (!any) { any = true; first = id; }
				uint32_t k = id - first;
				if (k >= seen.size()) return others.insert(id).second;
				if (seen[k]) return false;
				return seen[k] = true;
			}
		} t2oIds, o2tIds;
		for (int i = 0; i < total; ++i) {
			bool large = kind == 0 ? false : kind == 1 ? true : i & 1;
			Caller q = base(large);
			bool multicast = kind == 3 && i >= 300; // an id of each kind in every open
			if (multicast) q.p.o2tNetworkConnectionParams = (0x2800u << (large ? 16 : 0)) | 32;
			si->accept = i % 64 == 0;
			si->status = 1 + i % 255;
			si->trouble = i % 64 == 7 ? 1 : i % 64 == 13 ? 2 : 0;
			IOConnection::WPtr io;
			auto o = attempt([&] { io = m.forwardOpen(si, q.p, q.large); });
			c.check(o.threw == (si->trouble != 0), "wrong outcome of an open: " + o.what);
			si->trouble = 0;
			if (i % 256 == 0) c.step("open");
			ref::R r(si->request);
			r.take(18 + 2 * si->request.at(17) + 2);
			uint32_t o2tId = r.u32(), id = r.u32();
			uint16_t serial = r.u16();
			c.check(r.ok, "incomplete request");
			c.check(i - last[serial] >= 65535, "a serial number is used again after fewer than 65535 opens");
			last[serial] = i;
			c.check(t2oIds.fresh(id), "a T2O connection id is used again");
			if (multicast) c.check(o2tIds.fresh(o2tId), "an O2T connection id is used again");
			if (si->accept) m.forwardClose(si, io);
		}
	});
}
