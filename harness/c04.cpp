// C04: explicit replies as the caller sees them
#include "common.h"
#include "MessageRouter.h"
#include "Yaskawa_MessageRouter.h"

using namespace eipScanner;
using cip::MessageRouterResponse;

namespace {

struct Expect {
	enum { EXACT, REFUSED, EITHER } verdict = EXACT; // EITHER: refused, or exactly this
	unsigned service = 0, status = 0;
	std::vector<uint16_t> additional;
	Bytes data;
	std::vector<ref::Item> extra;
};

/// What the data of a SendRRData reply means
Expect meaning(const Bytes& d) {
	Expect e;
	e.verdict = Expect::REFUSED;
	ref::R r(d);
	r.u32();
	r.u16();
	unsigned count = r.u16();
	if (!r.ok) return e;
	std::vector<ref::Item> items;
	bool missingItems = false;
	for (unsigned i = 0; i < count; ++i) {
		if (r.end()) { missingItems = true; break; }
		ref::Item it;
		it.type = r.u16();
		unsigned len = r.u16();
		it.data = r.take(len);
		if (!r.ok) return e;
		items.push_back(it);
	}
	bool surplus = !r.end();
	if (items.size() < 2) return e;
	ref::R m(items[1].data);
	e.service = m.u8();
	m.u8();
	e.status = m.u8();
	unsigned n = m.u8();
	for (unsigned i = 0; i < n && m.ok; ++i) e.additional.push_back(m.u16());
	if (!m.ok) return e;
	e.data = m.rest();
	e.extra.assign(items.begin() + 2, items.end());
	// not claimed: fewer items than announced, bytes after the last item, other item types
	bool odd = missingItems || surplus || items[0].type != 0 || !items[0].data.empty() || items[1].type != 0xB2;
	e.verdict = odd ? Expect::EITHER : Expect::EXACT;
	return e;
}

struct Rig {
	World w;
	std::shared_ptr<SessionInfo> si;
	Bytes reply; // of the next SendRRData
	Rig() {
		w.dev.onFrame = [this](sim::Stream& s, const ref::Frame& f) {
			if (f.command != ref::SEND_RR) return false;
			s.push(ref::encap(ref::SEND_RR, f.session, 0, reply, f.context), 50 * US);
			return true;
		};
		si = w.session();
	}
	void exchange(Ctx& c, const Bytes& bytes, int router) {
		reply = bytes;
		Expect e = meaning(bytes);
		static const char* verdicts[] = {"exact", "refused", "either"};
		c.step(fmt("reply of %zu bytes, %s: ", bytes.size(), verdicts[e.verdict]) + hex(bytes));
		MessageRouterResponse r;
		auto o = attempt([&] {
			if (router == 0) r = MessageRouter().sendRequest(si, 0x0e, cip::EPath(1, 1, 1), {1, 2});
			else if (router == 1) r = MessageRouter(true).sendRequest(si, 0x0e, cip::EPath(1, 1, 1), {1, 2});
			else r = Yaskawa_MessageRouter().sendRequest(si, 0x0e, cip::Yaskawa_EPath(1, 1, 1), {1, 2});
		});
		c.obs(o.threw);
		c.state(mix(hash(bytes), router));
		if (e.verdict == Expect::REFUSED) {
			c.check(o.threw, "an incomplete reply is accepted: " + hex(bytes, 200));
			return;
		}
		if (o.threw) {
			c.check(e.verdict == Expect::EITHER, "a complete reply is refused: " + o.what + ": " + hex(bytes, 200));
			return;
		}
		c.equal(static_cast<unsigned>(r.getGeneralStatusCode()), e.status, "general status");
		c.equal(static_cast<unsigned>(r.getServiceCode()), e.service, "reply service");
		c.equal(r.getAdditionalStatus(), e.additional, "additional status");
		c.equal(r.getData(), e.data, "reply data");
		auto& x = r.getAdditionalPacketItems();
		c.equal(x.size(), e.extra.size(), "number of additional items");
		for (size_t i = 0; i < x.size(); ++i) {
			c.equal(static_cast<unsigned>(x[i].getTypeId()), static_cast<unsigned>(e.extra[i].type), "type of an additional item");
			c.equal(static_cast<unsigned>(x[i].getLength()), static_cast<unsigned>(e.extra[i].data.size()), "length of an additional item");
			c.equal(x[i].getData(), e.extra[i].data, "data of an additional item");
		}
		c.obs(r.getData());
		c.obs(e.status);
	}
};

Bytes mr(unsigned service, unsigned status, size_t words, const Bytes& data, int announced = -1) {
	ref::W w;
	w.u8(service).u8(0).u8(status).u8(announced < 0 ? words : announced);
	for (size_t i = 0; i < words; ++i) w.u16(0x0100 + 0x1101 * i);
	return w.raw(data);
}

} // namespace

void mc::define(Registry& r) {
	r.bound("all 256 statuses x 256 reply services; all 256 counts of status words x data sizes; data sizes 0..600 and around the 16 bit limits, up to 16000 items");
	r.bound("every truncation of the reply and of its message router part, every value of each count and length byte, for 12 (thorough 40) replies");
	r.bound("pairs of replies on one session: nothing of the first shows in the second");

	r.add("statuses", [](Ctx& c) {
		Rig g;
		int router = c.choose(3);
		unsigned service = c.choose(256);
		for (unsigned status = 0; status < 256; ++status) g.exchange(c, ref::rrReply(mr(service, status, status % 3, pattern(status % 5, status))), router);
	});
	r.add("named statuses", [](Ctx& c) {
		// the names of the library stand for the numbers of CIP
		struct Named { const char* name; int value, wire; };
		static const std::vector<Named> names = {
			{"SUCCESS", cip::SUCCESS, 0x00}, {"CONNECTION_FAILURE", cip::CONNECTION_FAILURE, 0x01}, {"RESOURCE_UNAVAILABLE", cip::RESOURCE_UNAVAILABLE, 0x02}, {"INVALID_PARAMETER_VALUE", cip::INVALID_PARAMETER_VALUE, 0x03}, {"PATH_SEGMENT_ERROR", cip::PATH_SEGMENT_ERROR, 0x04}, {"PATH_DESTINATION_UNKNOWN", cip::PATH_DESTINATION_UNKNOWN, 0x05}, {"PARTIAL_TRANSFER", cip::PARTIAL_TRANSFER, 0x06}, {"CONNECTION_LOST", cip::CONNECTION_LOST, 0x07}, {"SERVICE_NOT_SUPPORTED", cip::SERVICE_NOT_SUPPORTED, 0x08}, {"INVALID_ATTRIBUTE_VALUE", cip::INVALID_ATTRIBUTE_VALUE, 0x09}, {"ATTRIBUTE_LIST_ERROR", cip::ATTRIBUTE_LIST_ERROR, 0x0a}, {"ALREADY_IN_REQUESTED_MODE_OR_STATE", cip::ALREADY_IN_REQUESTED_MODE_OR_STATE, 0x0b}, {"OBJECT_STATE_CONFLICT", cip::OBJECT_STATE_CONFLICT, 0x0c}, {"OBJECT_ALREADY_EXISTS", cip::OBJECT_ALREADY_EXISTS, 0x0d}, {"ATTRIBUTE_NOT_SETTABLE", cip::ATTRIBUTE_NOT_SETTABLE, 0x0e}, {"PRIVILEGE_VIOLATION", cip::PRIVILEGE_VIOLATION, 0x0f}, {"DEVICE_STATE_CONFLICT", cip::DEVICE_STATE_CONFLICT, 0x10}, {"REPLY_DATA_TOO_LARGE", cip::REPLY_DATA_TOO_LARGE, 0x11}, {"FRAGMENTATION_OF_PRIMITIVE_VALUE", cip::FRAGMENTATION_OF_PRIMITIVE_VALUE, 0x12}, {"NOT_ENOUGH_DATA", cip::NOT_ENOUGH_DATA, 0x13}, {"ATTRIBUTE_NOT_SUPPORTED", cip::ATTRIBUTE_NOT_SUPPORTED, 0x14}, {"TOO_MUCH_DATA", cip::TOO_MUCH_DATA, 0x15}, {"OBJECT_DOES_NOT_EXIST", cip::OBJECT_DOES_NOT_EXIST, 0x16}, {"SVCFRAG_SEQNC_NOT_IN_PROGRESS", cip::SVCFRAG_SEQNC_NOT_IN_PROGRESS, 0x17}, {"NO_STORED_ATTRIBUTE_DATA", cip::NO_STORED_ATTRIBUTE_DATA, 0x18}, {"STORE_OPERATION_FAILURE", cip::STORE_OPERATION_FAILURE, 0x19}, {"ROUTING_FAILURE_REQUEST_SIZE", cip::ROUTING_FAILURE_REQUEST_SIZE, 0x1a}, {"ROUTING_FAILURE_RESPONSE_SIZE", cip::ROUTING_FAILURE_RESPONSE_SIZE, 0x1b}, {"MISSING_ATTRIBUTE_LIST_ENTRY", cip::MISSING_ATTRIBUTE_LIST_ENTRY, 0x1c}, {"INVALID_ATTRIBUTE_LIST", cip::INVALID_ATTRIBUTE_LIST, 0x1d}, {"EMBEDDED_SERVICE_ERROR", cip::EMBEDDED_SERVICE_ERROR, 0x1e}, {"VENDOR_SPECIFIC", cip::VENDOR_SPECIFIC, 0x1f}, {"INVALID_PARAMETER", cip::INVALID_PARAMETER, 0x20}, {"WRITE_ONCE_WRITTEN", cip::WRITE_ONCE_WRITTEN, 0x21}, {"INVALID_REPLY_RECEIVED", cip::INVALID_REPLY_RECEIVED, 0x22}, {"KEY_FAILURE_IN_PATH", cip::KEY_FAILURE_IN_PATH, 0x25}, {"PATH_SIZE_INVALID", cip::PATH_SIZE_INVALID, 0x26}, {"UNEXPECTED_ATTRIBUTE", cip::UNEXPECTED_ATTRIBUTE, 0x27}, {"INVALID_MEMBER_ID", cip::INVALID_MEMBER_ID, 0x28}, {"MEMBER_NOT_SETTABLE", cip::MEMBER_NOT_SETTABLE, 0x29}};
		const auto& n = c.pick(names, "name");
		Rig g;
		g.reply = ref::rrReply(mr(0x8e, n.wire, n.wire ? 1 : 0, {}));
		c.step(n.name);
		auto r = MessageRouter().sendRequest(g.si, 0x0e, cip::EPath(1, 1, 1), {});
		c.equal(static_cast<int>(r.getGeneralStatusCode()), n.value, std::string("the status called ") + n.name);
		c.obs(n.value);
		c.state(n.value);
	});
	r.add("status words", [](Ctx& c) {
		static const std::vector<int> sizes = {0, 1, 2, 5, 255, 256};
		Rig g;
		int router = c.choose(3), words = c.choose(256), size = c.pick(sizes);
		g.exchange(c, ref::rrReply(mr(0x8e, c.choose(2) ? 1 : 0, words, pattern(size, words))), router);
	});
	r.add("sizes", [](Ctx& c) {
		Rig g;
		int router = c.choose(3), size = c.choose(601);
		g.exchange(c, ref::rrReply(mr(0x8e, c.choose(2) ? 6 : 0, c.choose(3), pattern(size, size))), router);
	});
	r.add("large", [](Ctx& c) {
		static const std::vector<int> sizes = {32767 - 20, 32768 - 20, 65535 - 20 - 4, 65535 - 20 - 3, 65515, 4096, 65536 - 20 - 4 - 256};
		Rig g;
		int router = c.choose(3), size = c.pick(sizes) - c.choose(3), words = c.choose(2);
		if (16 + 4 + words * 2 + size > 65535) return;
		g.exchange(c, ref::rrReply(mr(0x8e, 0, words, pattern(size, size))), router);
	});
	int maxItems = r.tier(2, 3);
	r.add("items", [maxItems](Ctx& c) {
		static const std::vector<int> types = {0x8000, 0x8001, 0, 0xB2, 0x8002, 0xC, 0xffff};
		static const std::vector<int> sizes = {0, 1, 16, 300};
		Rig g;
		int router = c.choose(3);
		std::vector<ref::Item> extra;
		int n = c.choose(maxItems + 1);
		for (int i = 0; i < n; ++i) {
			int t = c.pick(types);
			extra.push_back({static_cast<uint16_t>(t), pattern(c.pick(sizes), i + 7)});
		}
		g.exchange(c, ref::rrReply(mr(0xd4, 0, c.choose(2), pattern(c.choose(2) * 26)), extra), router);
	});
	r.add("many items", [](Ctx& c) {
		// the number of items has 16 bits
		static const std::vector<int> counts = {100, 127, 128, 129, 252, 253, 254, 255, 256, 257, 258, 300, 509, 510, 511, 512, 1000, 4095, 4096, 16000};
		static const std::vector<int> sizes = {0, 1, 3};
		Rig g;
		int router = c.choose(3), n = c.pick(counts), size = c.pick(sizes), less = c.choose(3);
		size = std::min(size, (65000 / n) - 4 < 0 ? 0 : 65000 / n - 4);
		std::vector<ref::Item> extra;
		for (int i = 0; i < n; ++i) extra.push_back({static_cast<uint16_t>(0x8000 + i % 7), pattern(size, i)});
		Bytes b = ref::rrReply(mr(0xd4, 0, c.choose(2), pattern(26)), extra);
		if (less) { // cut in the middle of the last item, or of its header
			size_t cut = less == 1 ? 1 : size + 3;
			b.resize(b.size() - cut);
		}
		g.exchange(c, b, router);
	});
	// a family of replies for the damage
	int big = r.thorough();
	auto family = [big](Ctx& c) {
		unsigned status = c.choose(2) ? 0x1e : 0;
		size_t words = c.choose(big ? 4 : 3), size = c.choose(2) ? (big ? 19 : 7) : 0;
		int items = c.choose(big ? 3 : 2);
		std::vector<ref::Item> extra;
		for (int i = 0; i < items; ++i) extra.push_back({static_cast<uint16_t>(0x8000 + i), pattern(i ? 3 : 16, i)});
		return ref::rrReply(mr(0x8e, status, words, pattern(size, 77)), extra);
	};
	r.add("truncated", [family](Ctx& c) {
		Rig g;
		int router = c.choose(3);
		Bytes b = family(c);
		b.resize(c.choose(static_cast<int>(b.size())));
		g.exchange(c, b, router);
	});
	r.add("truncated message router part", [](Ctx& c) {
		Rig g;
		int router = c.choose(3);
		Bytes m = mr(0x8e, c.choose(2) ? 0x1e : 0, c.choose(4), pattern(c.choose(3) * 3, 5));
		m.resize(c.choose(static_cast<int>(m.size()) + 1));
		std::vector<ref::Item> extra;
		if (c.choose(2)) extra.push_back({0x8000, pattern(16)});
		g.exchange(c, ref::rrReply(m, extra), router);
	});
	r.add("announced status words", [](Ctx& c) {
		Rig g;
		int router = c.choose(3), words = c.choose(4), announced = c.choose(256);
		g.exchange(c, ref::rrReply(mr(0x8e, 1, words, pattern(c.choose(4), 5), announced)), router);
	});
	r.add("one wrong byte", [family](Ctx& c) {
		Rig g;
		int router = c.choose(3);
		Bytes b = family(c);
		size_t pos = 6 + c.choose(static_cast<int>(b.size()) - 6);
		b[pos] = static_cast<uint8_t>(c.choose(256));
		g.exchange(c, b, router);
	});
	r.add("interface handle and timeout", [](Ctx& c) {
		Rig g;
		int router = c.choose(3);
		Bytes b = ref::rrReply(mr(0x8e, 0, 0, pattern(4)));
		b[c.choose(6)] = static_cast<uint8_t>(c.choose(256));
		// not zero is not claimed to be refused, but it must not change the rest
		g.exchange(c, b, router);
	});
	r.add("pairs", [family](Ctx& c) {
		Rig g;
		int router = c.choose(3);
		g.exchange(c, family(c), router);
		Bytes b = family(c);
		if (c.choose(2)) b.resize(c.choose(static_cast<int>(b.size())));
		g.exchange(c, b, router);
	});
	if (r.thorough()) {
		r.add("two wrong bytes", [](Ctx& c) {
			Rig g;
			Bytes b = ref::rrReply(mr(0x8e, 0x1e, 1, pattern(2)), {{0x8000, pattern(2)}});
			static const std::vector<int> values = {0, 1, 2, 3, 4, 5, 6, 8, 9, 16, 0x7f, 0x80, 0xb2, 0xfe, 0xff};
			int p1 = 6 + c.choose(static_cast<int>(b.size()) - 6), p2 = 6 + c.choose(static_cast<int>(b.size()) - 6);
			if (p2 <= p1) return;
			b[p1] = static_cast<uint8_t>(c.pick(values));
			b[p2] = static_cast<uint8_t>(c.pick(values));
			g.exchange(c, b, c.choose(3));
		});
	}
}
