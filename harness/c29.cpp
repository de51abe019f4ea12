// C29: messages of each layer pack to their layout and expand to what was packed
#include "io.h"
#include "eip/CommonPacket.h"
#include "eip/CommonPacketItemFactory.h"
#include "eip/EncapsPacket.h"
#include "eip/EncapsPacketFactory.h"
#include "cip/CipRevision.h"
#include "cip/CipString.h"
#include "cip/EPath.h"
#include "cip/MessageRouterRequest.h"
#include "cip/MessageRouterResponse.h"
#include "cip/connectionManager/ForwardCloseRequest.h"
#include "cip/connectionManager/ForwardOpenRequest.h"
#include "cip/connectionManager/ForwardOpenResponse.h"
#include "cip/connectionManager/LargeForwardOpenRequest.h"
#include "utils/Buffer.h"
#include <new>

using namespace eipScanner;
using namespace eipScanner::eip;
using cip::MessageRouterRequest;
using cip::MessageRouterResponse;
using utils::Buffer;
namespace cm = cip::connectionManager;

namespace {

const std::vector<uint16_t> COMMANDS = {0, 4, 0x63, 0x64, 0x65, 0x66, 0x6F, 0x70, 0x72, 0x73};
const std::vector<uint32_t> STATUSES = {0, 1, 2, 3, 0x64, 0x65, 0x69, 0x12345678, 0xffffffffu};
const std::vector<uint32_t> WORDS = {0, 1, 0x7f, 0x80, 0xff, 0x100, 0x11223344, 0x7fffffff, 0x80000000u, 0xffffffffu};
const std::vector<uint16_t> TYPES = {0, 0xC, 0xA1, 0xB1, 0xB2, 0x8000, 0x8001, 0x8002};

void sameItems(Ctx& c, const CommonPacketItem::Vec& got, const std::vector<ref::Item>& expected) {
	c.equal(got.size(), expected.size(), "number of items");
	for (size_t i = 0; i < got.size(); ++i) {
		c.equal(static_cast<uint16_t>(got[i].getTypeId()), expected[i].type, "type of an item");
		c.equal(static_cast<size_t>(got[i].getLength()), expected[i].data.size(), "length of an item");
		c.equal(got[i].getData(), expected[i].data, "data of an item");
	}
}

void sameFrame(Ctx& c, const EncapsPacket& p, const ref::Frame& f) {
	c.equal(static_cast<uint16_t>(p.getCommand()), f.command, "command");
	c.equal(static_cast<size_t>(p.getLength()), f.data.size(), "length");
	c.equal(p.getSessionHandle(), f.session, "session handle");
	c.equal(static_cast<uint32_t>(p.getStatusCode()), f.status, "status");
	c.equal(p.getData(), f.data, "data");
	Bytes packed = p.pack();
	c.equal(packed, ref::encap(f.command, f.session, f.status, f.data, f.context, f.options), "packed packet");
	c.equal(EncapsPacket::getLengthFromHeader(packed), f.data.size(), "length read from the header");
	c.equal(EncapsPacket::getLengthFromHeader(Bytes(packed.begin(), packed.begin() + 24)), f.data.size(), "length read from the header alone");
}

/// Close requests: how long the device may take to answer is left open
Bytes untimed(Bytes b) {
	if (b.size() > 1) b[0] = b[1] = 0;
	return b;
}

/// An object made by default in memory filled with a byte
template <typename T>
struct Fresh {
	alignas(T) unsigned char memory[sizeof(T)];
	T* object;
	explicit Fresh(int fill) {
		memset(memory, fill, sizeof memory);
		asm volatile("" : : "r"(memory) : "memory");
		object = new (memory) T;
	}
	~Fresh() { object->~T(); }
	T* operator->() { return object; }
	T& operator*() { return *object; }
};

} // namespace

void mc::define(Registry& r) {
	int depth = r.tier(3, 4), items = r.tier(3, 4);
	r.bound("encapsulation: all commands x statuses x boundary handles x boundary lengths, contexts and options bit by bit, all lengths of data up to 64 against all announced lengths");
	r.bound(fmt("histories of %d setters and expansions of one packet; lists of up to %d items; all 65536 timeouts; requests with all services; replies with all additional status counts", depth, items));
	r.bound("connection manager messages with each field over boundary values, replies of every length");

	r.add("encapsulation", [](Ctx& c) {
		EncapsPacket p;
		ref::Frame f;
		sameFrame(c, p, f);
		f.command = c.pick(COMMANDS);
		f.status = c.pick(STATUSES);
		f.session = c.pick(WORDS);
		static const std::vector<size_t> sizes = {0, 1, 2, 23, 24, 255, 256, 65535};
		f.data = pattern(c.pick(sizes));
		p.setCommand(static_cast<EncapsCommands>(f.command));
		p.setStatusCode(static_cast<EncapsStatusCodes>(f.status));
		p.setSessionHandle(f.session);
		p.setData(f.data);
		sameFrame(c, p, f);
		EncapsPacket q;
		q.expand(p.pack());
		sameFrame(c, q, f);
		c.check(p == q && q == p && !(p != q), "a packet is not equal to what it was expanded from");
		c.step("round trip");
		c.state(mix(f.command, mix(f.status, mix(f.session, f.data.size()))));
	});
	r.add("context and options", [](Ctx& c) {
		// a message of the other side may have them: they are kept
		ref::Frame f, g;
		f.command = c.choose(2) ? 0x6F : 0;
		f.data = pattern(c.choose(2) * 5);
		f.session = c.choose(2) * 7;
		if (c.choose(2)) { f.options = 0x10204080; f.context = pattern(8, 3); f.status = 1; }
		g = f;
		int what = c.choose(160, "difference");
		if (what < 64) g.context[what / 8] ^= 1u << what % 8;
		else if (what < 96) g.options ^= 1u << (what - 64);
		else if (what < 128) g.session ^= 1u << (what - 96);
		else g.status ^= 1u << (what - 128);
		EncapsPacket p, q, same;
		p.expand(ref::encap(f.command, f.session, f.status, f.data, f.context, f.options));
		q.expand(ref::encap(g.command, g.session, g.status, g.data, g.context, g.options));
		sameFrame(c, p, f);
		sameFrame(c, q, g);
		c.check(p != q && !(p == q) && q != p, "different packets are equal");
		same.expand(q.pack());
		c.check(same == q && !(same != q), "equal packets are different");
		EncapsPacket copy = q;
		q.setSessionHandle(99);
		q.setData({});
		sameFrame(c, copy, g);
		c.step("compared");
		c.state(mix(what, mix(hash(f.data), mix(f.session, f.options))));
	});
	r.add("bits of command and data", [](Ctx& c) {
		ref::Frame f, g;
		f.command = 0x6F;
		f.data = pattern(5);
		g = f;
		int what = c.choose(57, "difference");
		if (what < 16) g.command ^= 1u << what;
		else if (what < 56) g.data[(what - 16) / 8] ^= 1u << what % 8;
		else g.data.push_back(0);
		EncapsPacket p, q;
		p.expand(ref::encap(f.command, 0, 0, f.data));
		q.expand(ref::encap(g.command, 0, 0, g.data));
		sameFrame(c, p, f);
		sameFrame(c, q, g);
		c.check(p != q && !(p == q), "different packets are equal");
		c.step("compared");
		c.state(what);
	});
	r.add("announced lengths", [](Ctx& c) {
		int size = c.choose(65, "bytes"), announced = c.choose(65, "announced");
		Bytes b = ref::encap(0x6F, 1, 0, pattern(size), Bytes(8, 0), 0, announced);
		EncapsPacket p;
		auto o = attempt([&] { p.expand(b); });
		c.equal(o.threw, size != announced, "a packet with a wrong length is refused");
		if (!o.threw) c.equal(p.getData(), pattern(size), "data");
		c.step(o.threw ? "refused" : "expanded");
		c.state(mix(size, announced));
	});
	r.add("cut headers", [](Ctx& c) {
		Bytes b = ref::encap(0x6F, 1, 0, {});
		b.resize(c.choose(24));
		EncapsPacket p;
		c.check(attempt([&] { p.expand(b); }).threw, "a cut header is accepted");
		c.step("refused");
		c.state(b.size());
	});
	r.add("packet histories", [depth](Ctx& c) {
		EncapsPacket p;
		ref::Frame f;
		for (int i = 0; i < depth; ++i) {
			switch (c.choose(6, "operation")) {
				case 0: f.command = c.choose(2) ? 0x63 : 0x70; p.setCommand(static_cast<EncapsCommands>(f.command)); break;
				case 1: f.status = c.choose(2) ? 0x69 : 0; p.setStatusCode(static_cast<EncapsStatusCodes>(f.status)); break;
				case 2: f.session = c.choose(2) ? 0xfedcba98u : 0; p.setSessionHandle(f.session); break;
				case 3: f.data = pattern(c.choose(3) * 4, i); p.setData(f.data); break;
				case 4: {
					ref::Frame g;
					g.command = 0x65;
					g.session = 0x01020304;
					g.status = c.choose(2);
					g.data = pattern(c.choose(3) * 3, 20 + i);
					g.context = pattern(8, 30 + i);
					g.options = c.choose(2) * 0x80000001u;
					f = g;
					p.expand(ref::encap(g.command, g.session, g.status, g.data, g.context, g.options));
					break;
				}
				case 5: {
					c.check(attempt([&] { p.setData(Bytes(65536)); }).threw, "too long data is accepted");
					break;
				}
			}
			sameFrame(c, p, f);
			c.step("operation");
			c.state(mix(mix(f.command, f.status), mix(f.session, mix(hash(f.data), hash(f.context)))));
		}
	});
	r.add("packet factory", [](Ctx& c) {
		EncapsPacketFactory factory;
		ref::Frame f;
		EncapsPacket p;
		switch (c.choose(4)) {
			case 0: p = factory.createRegisterSessionPacket(); f.command = 0x65; f.data = {1, 0, 0, 0}; break;
			case 1: f.session = c.pick(WORDS); p = factory.createUnRegisterSessionPacket(f.session); f.command = 0x66; break;
			case 2: p = factory.createListIdentityPacket(); f.command = 0x63; break;
			case 3: {
				f.session = c.pick(WORDS);
				static const std::vector<uint16_t> timeouts = {0, 1, 255, 256, 0x1234, 65535};
				int timeout = c.pick(timeouts);
				static const std::vector<size_t> sizes = {0, 1, 16, 249, 250, 251, 65529};
				Bytes d = pattern(c.pick(sizes));
				p = factory.createSendRRDataPacket(f.session, timeout, d);
				f.command = 0x6F;
				f.data = ref::W().u32(0).u16(timeout).raw(d);
			}
		}
		sameFrame(c, p, f);
		c.step("created");
		c.state(mix(f.command, mix(f.session, hash(f.data))));
	});
	r.add("timeouts of requests", [](Ctx& c) {
		int t = c.choose(65536);
		c.equal(EncapsPacketFactory().createSendRRDataPacket(1, t, {9}).getData(), Bytes(ref::W().u32(0).u16(t).u8(9)), "data of a request");
		c.step("created");
		c.state(t);
	});

	r.add("items", [](Ctx& c) {
		static const std::vector<size_t> sizes = {0, 1, 2, 3, 255, 256, 65534, 65535, 65536, 131072};
		ref::Item a{c.pick(TYPES), pattern(c.pick(sizes))};
		CommonPacketItem dflt;
		c.equal(dflt.pack(), Bytes(4, 0), "the empty item");
		auto make = [](const ref::Item& i) { return CommonPacketItem(static_cast<CommonPacketItemIds>(i.type), i.data); };
		if (a.data.size() > 65535) {
			c.check(attempt([&] { make(a); }).threw, "too long an item is accepted");
			c.step("refused");
			return;
		}
		auto item = make(a);
		sameItems(c, {item}, {a});
		c.equal(item.pack(), Bytes(ref::W().u16(a.type).u16(a.data.size()).raw(a.data)), "packed item");
		c.check(item == make(a) && !(item != make(a)), "equal items are different");
		ref::Item b = a;
		int how = c.choose(4);
		if (how == 0) b.type ^= 0x100;
		if (how == 1) b.type ^= 1;
		if (how == 2) { if (b.data.empty()) b.data = {0}; else b.data.back() ^= 0x80; }
		if (how == 3) { if (b.data.empty()) b.data = {1}; else b.data.pop_back(); }
		c.check(item != make(b) && !(item == make(b)), "different items are equal");
		CommonPacketItemFactory f;
		if (a.type == 0xB1) c.check(f.createConnectedDataItem(a.data) == item, "connected data item");
		if (a.type == 0xB2) c.check(f.createUnconnectedDataItem(a.data) == item, "unconnected data item");
		if (a.type == 0 && a.data.empty()) c.check(f.createNullAddressItem() == item, "null address item");
		c.step("packed");
		c.state(mix(a.type, mix(a.data.size(), how)));
	});
	r.add("address items", [](Ctx& c) {
		uint32_t id = c.pick(WORDS), seq = c.pick(WORDS);
		sameItems(c, {CommonPacketItemFactory().createSequenceAddressItem(id, seq)}, {{0x8002, ref::W().u32(id).u32(seq)}});
		c.step("created");
		c.state(mix(id, seq));
	});
	r.add("item lists", [items](Ctx& c) {
		int n = c.choose(items + 1, "items");
		std::vector<ref::Item> list;
		CommonPacket p;
		for (int i = 0; i < n; ++i) {
			static const std::vector<size_t> sizes = {0, 1, 4, 300};
			ref::Item it{c.pick(TYPES), pattern(c.pick(sizes), i + 1)};
			list.push_back(it);
			p << CommonPacketItem(static_cast<CommonPacketItemIds>(it.type), it.data);
		}
		sameItems(c, p.getItems(), list);
		Bytes packed = p.pack();
		c.equal(packed, ref::cpf(list), "packed list");
		CommonPacket q;
		if (c.choose(2, "used before")) q << CommonPacketItem(CommonPacketItemIds::LIST_IDENTITY, {1, 2, 3});
		q.expand(packed);
		sameItems(c, q.getItems(), list);
		c.equal(q.pack(), packed, "packed again");
		q.expand(ref::cpf({{0xC, {5}}}));
		sameItems(c, q.getItems(), {{0xC, {5}}});
		sameItems(c, p.getItems(), list);
		c.step("round trip");
		c.state(mix(n, hash(packed)));
	});
	r.add("long lists", [](Ctx& c) {
		static const std::vector<int> counts = {10, 255, 256, 257, 1000, 65535};
		int n = c.pick(counts);
		CommonPacket p, q;
		std::vector<ref::Item> list(n);
		for (int i = 0; i < n; ++i) { list[i].type = 0xB1; if (i % 7 == 0) list[i].data = {static_cast<uint8_t>(i)}; p << CommonPacketItem(CommonPacketItemIds::CONNECTED_TRANSPORT_PACKET, list[i].data); }
		c.equal(p.pack(), ref::cpf(list), "packed list");
		q.expand(p.pack());
		sameItems(c, q.getItems(), list);
		c.step("round trip");
		c.state(n);
	});
	r.add("cut lists", [](Ctx& c) {
		std::vector<ref::Item> list{{0, {}}, {0xB2, pattern(5)}, {0x8000, pattern(16)}};
		Bytes b = ref::cpf(list);
		int size = c.choose(static_cast<int>(b.size()));
		b.resize(size);
		CommonPacket p;
		auto o = attempt([&] { p.expand(b); });
		// an item that is missing altogether may be missed or not
		bool whole = size == 2 || size == 6 || size == 15;
		if (!whole) c.check(o.threw, fmt("a list cut to %d bytes is accepted", size));
		else if (!o.threw) sameItems(c, p.getItems(), {list.begin(), list.begin() + (size == 2 ? 0 : size == 6 ? 1 : 2)});
		c.step(o.threw ? "refused" : "expanded");
		c.state(size);
	});

	r.add("requests", [](Ctx& c) {
		int service = c.choose(256);
		ref::Path path;
		static const std::vector<int> ids = {1, 255, 256, 65535};
		path.cls = c.pick(ids);
		int depth = c.choose(3);
		if (depth > 0) path.inst = c.pick(ids);
		if (depth > 1) path.attr = c.pick(ids);
		bool narrow = path.cls < 256 && path.inst < 256 && path.attr < 256 && c.choose(2);
		static const std::vector<size_t> sizes = {0, 1, 300};
		Bytes d = pattern(c.pick(sizes));
		auto ep = depth == 0 ? cip::EPath(path.cls) : depth == 1 ? cip::EPath(path.cls, path.inst) : cip::EPath(path.cls, path.inst, path.attr);
		Bytes pb = ref::encodePath(path, narrow ? 8 : 16);
		Bytes expected = ref::W().u8(service).u8(pb.size() / 2).raw(pb).raw(d);
		MessageRouterRequest q(service, ep, d, narrow);
		c.equal(q.pack(), expected, "packed request");
		c.equal(q.pack(), expected, "packed again");
		if (!narrow) c.equal(MessageRouterRequest(service, ep, d).pack(), expected, "packed by default");
		c.step("packed");
		c.state(hash(expected));
	});
	r.add("replies", [](Ctx& c) {
		// one object expanded twice shows the second reply only
		MessageRouterResponse m;
		for (int i = 0; i < 2; ++i) {
			ref::CipReply reply;
			if (i) { static const std::vector<int> counts = {0, 1, 2, 127, 128, 255}; for (int k = c.pick(counts); k > 0; --k) reply.additional.push_back(0xff00 + k); }
			else reply.additional.assign(c.choose(3), 0x55aa);
			static const std::vector<size_t> sizes = {0, 1, 2, 255, 256, 600};
			reply.data = pattern(c.pick(sizes), 1 + i);
			reply.status = i ? c.choose(3) * 0x7f : 1;
			reply.reserved = c.choose(2) * 0xff;
			m.expand(reply.encode(0x0e));
			c.equal(static_cast<int>(m.getServiceCode()), 0x8e, "service");
			c.equal(static_cast<int>(m.getGeneralStatusCode()), static_cast<int>(reply.status), "status");
			c.equal(m.getAdditionalStatus(), reply.additional, "additional status");
			c.equal(m.getData(), reply.data, "data");
			c.check(m.getAdditionalPacketItems().empty(), "additional items");
			c.step("expanded");
			c.state(mix(reply.additional.size(), mix(reply.status, reply.data.size())));
		}
		MessageRouterResponse copy = m;
		CommonPacketItem item(CommonPacketItemIds::O2T_SOCKADDR_INFO, {1});
		switch (c.choose(3)) {
			case 0: m.setData({7, 8}); c.equal(m.getData(), Bytes{7, 8}, "data"); break;
			case 1: m.setGeneralStatusCode(static_cast<cip::GeneralStatusCodes>(0x26)); c.check(m.getGeneralStatusCode() == static_cast<cip::GeneralStatusCodes>(0x26), "status"); m.setGeneralStatusCode(copy.getGeneralStatusCode()); break;
			case 2: m.setAdditionalPacketItems({item, item}); c.check(m.getAdditionalPacketItems() == std::vector<CommonPacketItem>{item, item}, "items"); break;
		}
		c.check(m.getAdditionalStatus() == copy.getAdditionalStatus() && m.getServiceCode() == copy.getServiceCode() && m.getGeneralStatusCode() == copy.getGeneralStatusCode(), "a setter changes something else");
		c.check(copy.getAdditionalPacketItems().empty(), "a copy is changed");
	});

	auto word = [](Ctx& c, const std::vector<uint32_t>& v) { return c.pick(v); };
	r.add("connection manager requests", [word](Ctx& c) {
		ConnectionParameters p;
		p.priorityTimeTick = 1; p.timeoutTicks = 2; p.o2tNetworkConnectionId = 3; p.t2oNetworkConnectionId = 4; p.connectionSerialNumber = 5;
		p.originatorVendorId = 6; p.originatorSerialNumber = 7; p.connectionTimeoutMultiplier = 8; p.o2tRPI = 9; p.o2tNetworkConnectionParams = 10;
		p.t2oRPI = 11; p.t2oNetworkConnectionParams = 12; p.transportTypeTrigger = 13; p.connectionPathSize = 3; p.connectionPath = pattern(6);
		int field = c.choose(16, "field");
		uint32_t v = word(c, WORDS);
		switch (field) {
			case 0: p.priorityTimeTick = v; break;
			case 1: p.timeoutTicks = v; break;
			case 2: p.o2tNetworkConnectionId = v; break;
			case 3: p.t2oNetworkConnectionId = v; break;
			case 4: p.connectionSerialNumber = v; break;
			case 5: p.originatorVendorId = v; break;
			case 6: p.originatorSerialNumber = v; break;
			case 7: p.connectionTimeoutMultiplier = v; break;
			case 8: p.o2tRPI = v; break;
			case 9: p.o2tNetworkConnectionParams = v; break;
			case 10: p.t2oRPI = v; break;
			case 11: p.t2oNetworkConnectionParams = v; break;
			case 12: p.transportTypeTrigger = v; break;
			case 13: p.connectionPath = pattern(2 * (v % 128)); p.connectionPathSize = v % 128; break;
			case 14: p.o2tRealTimeFormat = v & 1; break;
			case 15: p.t2oRealTimeFormat = v & 1; break;
		}
		int which = c.choose(3, "request");
		Bytes got, expected;
		if (which < 2) {
			bool large = which == 1;
			ref::W w;
			w.u8(p.priorityTimeTick).u8(p.timeoutTicks).u32(p.o2tNetworkConnectionId).u32(p.t2oNetworkConnectionId).u16(p.connectionSerialNumber)
				.u16(p.originatorVendorId).u32(p.originatorSerialNumber).u8(p.connectionTimeoutMultiplier).fill(3, 0).u32(p.o2tRPI);
			large ? w.u32(p.o2tNetworkConnectionParams) : w.u16(p.o2tNetworkConnectionParams);
			w.u32(p.t2oRPI);
			large ? w.u32(p.t2oNetworkConnectionParams) : w.u16(p.t2oNetworkConnectionParams);
			w.u8(p.transportTypeTrigger).u8(p.connectionPathSize).raw(p.connectionPath);
			expected = w;
			got = large ? cm::LargeForwardOpenRequest(p).pack() : cm::ForwardOpenRequest(p).pack();
		} else {
			cm::ForwardCloseRequest q;
			c.equal(untimed(q.pack()), Bytes(12, 0), "an empty close request");
			q.setConnectionSerialNumber(p.connectionSerialNumber);
			q.setOriginatorVendorId(p.originatorVendorId);
			q.setOriginatorSerialNumber(p.originatorSerialNumber);
			q.setConnectionPath(p.connectionPath);
			got = untimed(q.pack());
			expected = ref::W().u8(0).u8(0).u16(p.connectionSerialNumber).u16(p.originatorVendorId).u32(p.originatorSerialNumber).u8(p.connectionPath.size() / 2).u8(0).raw(p.connectionPath);
		}
		c.equal(got, expected, "packed request");
		c.step("packed");
		c.state(mix(field, mix(v, which)));
	});
	r.add("connection manager replies", [word](Ctx& c) {
		uint32_t f[7] = {0xA1, 0xA2, 0xA3, 0xA4, 0xA5, 0xA6, 0xA7};
		int field = c.choose(7, "field");
		f[field] = word(c, WORDS);
		static const std::vector<int> words = {0, 1, 2, 127, 128, 255};
		int n = c.pick(words, "words");
		Bytes app = pattern(2 * n);
		Bytes b = ref::W().u32(f[0]).u32(f[1]).u16(f[2]).u16(f[3]).u32(f[4]).u32(f[5]).u32(f[6]).u8(n).u8(0).raw(app);
		cm::ForwardOpenResponse m;
		m.expand(b);
		for (int again = 0; again < 2; ++again) {
			c.equal(m.getO2TNetworkConnectionId(), f[0], "originator to target id");
			c.equal(m.getT2ONetworkConnectionId(), f[1], "target to originator id");
			c.equal(m.getConnectionSerialNumber(), static_cast<uint16_t>(f[2]), "connection serial number");
			c.equal(m.getOriginatorVendorId(), static_cast<uint16_t>(f[3]), "vendor");
			c.equal(m.getOriginatorSerialNumber(), f[4], "originator serial number");
			c.equal(m.getO2TApi(), f[5], "originator to target interval");
			c.equal(m.getT2OApi(), f[6], "target to originator interval");
			c.equal(static_cast<int>(m.getApplicationReplaySize()), n, "size of the application reply");
			c.equal(m.getApplicationReplay(), app, "application reply");
			for (auto& x : f) x ^= 0x01010101;
			n ^= 1;
			app = pattern(2 * n, 5);
			m.expand(ref::W().u32(f[0]).u32(f[1]).u16(f[2]).u16(f[3]).u32(f[4]).u32(f[5]).u32(f[6]).u8(n).u8(0).raw(app));
		}
		c.step("expanded");
		c.state(mix(field, mix(f[field], n)));
	});
	r.add("cut connection manager replies", [](Ctx& c) {
		Bytes b = ref::W().fill(24, 1).u8(3).u8(0).raw(pattern(6));
		b.resize(c.choose(static_cast<int>(b.size())));
		cm::ForwardOpenResponse m;
		c.check(attempt([&] { m.expand(b); }).threw, "a cut reply is accepted");
		c.step("refused");
		c.state(b.size());
	});

	r.add("named values", [](Ctx& c) {
		// the names of the library stand for the numbers of EtherNet/IP
		struct Named { const char* name; uint32_t value, wire; };
		using EC = eip::EncapsCommands;
		using ES = eip::EncapsStatusCodes;
		using CI = eip::CommonPacketItemIds;
		auto n = [](auto x) { return static_cast<uint32_t>(x); };
		const std::vector<Named> names = {
			{"NOP", n(EC::NOP), 0}, {"LIST_SERVICES", n(EC::LIST_SERVICES), 4}, {"LIST_IDENTITY", n(EC::LIST_IDENTITY), 0x63}, {"LIST_INTERFACES", n(EC::LIST_INTERFACES), 0x64},
			{"REGISTER_SESSION", n(EC::REGISTER_SESSION), 0x65}, {"UN_REGISTER_SESSION", n(EC::UN_REGISTER_SESSION), 0x66}, {"SEND_RR_DATA", n(EC::SEND_RR_DATA), 0x6f},
			{"SEND_UNIT_DATA", n(EC::SEND_UNIT_DATA), 0x70}, {"INDICATE_STATUS", n(EC::INDICATE_STATUS), 0x72}, {"CANCEL", n(EC::CANCEL), 0x73},
			{"SUCCESS", n(ES::SUCCESS), 0}, {"UNSUPPORTED_COMMAND", n(ES::UNSUPPORTED_COMMAND), 1}, {"INSUFFICIENT_MEMORY", n(ES::INSUFFICIENT_MEMORY), 2},
			{"INVALID_FORMAT_OR_DATA", n(ES::INVALID_FORMAT_OR_DATA), 3}, {"INVALID_SESSION_HANDLE", n(ES::INVALID_SESSION_HANDLE), 0x64}, {"UNSUPPORTED_PROTOCOL_VERSION", n(ES::UNSUPPORTED_PROTOCOL_VERSION), 0x69},
			{"NULL_ADDR", n(CI::NULL_ADDR), 0}, {"LIST_IDENTITY item", n(CI::LIST_IDENTITY), 0xc}, {"CONNECTION_ADDRESS_ITEM", n(CI::CONNECTION_ADDRESS_ITEM), 0xa1},
			{"CONNECTED_TRANSPORT_PACKET", n(CI::CONNECTED_TRANSPORT_PACKET), 0xb1}, {"UNCONNECTED_MESSAGE", n(CI::UNCONNECTED_MESSAGE), 0xb2}, {"O2T_SOCKADDR_INFO", n(CI::O2T_SOCKADDR_INFO), 0x8000},
			{"T2O_SOCKADDR_INFO", n(CI::T2O_SOCKADDR_INFO), 0x8001}, {"SEQUENCED_ADDRESS_ITEM", n(CI::SEQUENCED_ADDRESS_ITEM), 0x8002}};
		const auto& x = c.pick(names, "name");
		c.step(x.name);
		c.equal(x.value, x.wire, x.name);
		c.state(mc::hash(x.name));
	});
	r.add("fresh objects", [](Ctx& c) {
		// what is made by default does not depend on the memory it is made in
		static const std::vector<int> fills = {0, 1, 0x5a, 0x80, 0xff};
		int fill = c.pick(fills, "memory");
		Fresh<EncapsPacket> packet(fill);
		sameFrame(c, *packet, ref::Frame());
		Fresh<CommonPacketItem> item(fill);
		sameItems(c, {*item}, {{0, {}}});
		Fresh<CommonPacket> list(fill);
		c.equal(list->pack(), Bytes(2, 0), "an empty list");
		Fresh<MessageRouterResponse> m(fill);
		c.check(m->getGeneralStatusCode() == cip::GeneralStatusCodes::SUCCESS && m->getData().empty() && m->getAdditionalStatus().empty() && m->getAdditionalPacketItems().empty(), "an empty reply");
		Fresh<cm::ForwardCloseRequest> close(fill);
		c.equal(untimed(close->pack()), Bytes(12, 0), "an empty close request");
		Fresh<cm::ForwardOpenResponse> open(fill);
		c.check(!open->getO2TNetworkConnectionId() && !open->getT2ONetworkConnectionId() && !open->getConnectionSerialNumber() && !open->getOriginatorVendorId() && !open->getOriginatorSerialNumber()
			&& !open->getO2TApi() && !open->getT2OApi() && !open->getApplicationReplaySize(), "an empty open reply");
		Fresh<ConnectionParameters> params(fill);
		c.equal(cm::ForwardOpenRequest(*params).pack(), Bytes(36, 0), "an empty open request");
		c.equal(cm::LargeForwardOpenRequest(*params).pack(), Bytes(40, 0), "an empty large open request");
		c.check(!params->o2tRealTimeFormat && !params->t2oRealTimeFormat, "headers by default");
		Fresh<cip::CipRevision> rev(fill);
		c.equal(rev->toString(), std::string("0.0"), "an empty revision");
		Fresh<cip::CipShortString> ss(fill);
		Fresh<cip::CipString> s(fill);
		c.equal(static_cast<int>(ss->getLength()), 0, "length of an empty short string");
		c.equal(static_cast<int>(s->getLength()), 0, "length of an empty string");
		c.check(ss->toStdString().empty() && s->toStdString().empty(), "text of an empty string");
		Buffer b;
		b << *ss << *s << *rev;
		c.equal(b.data(), Bytes(5, 0), "encoding of empty values");
		Fresh<Buffer> buffer(fill);
		c.check(buffer->empty() && buffer->isValid() && buffer->size() == 0 && buffer->pos() == 0 && buffer->data().empty(), "an empty buffer");
		c.step("created");
		c.state(fill);
	});
}
