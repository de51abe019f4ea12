// C03: explicit requests on the wire
#include "common.h"
#include "MessageRouter.h"
#include "Yaskawa_MessageRouter.h"

using namespace eipScanner;
using eip::CommonPacketItem;
using eip::CommonPacketItemIds;

namespace {

struct Want {
	int service;
	ref::Path path;
	int width; // 8, 16, 0: Yaskawa (8)
	Bytes data;
	std::vector<ref::Item> extra;
	int overload = 5;
	const void* router = nullptr; // used before
};

cip::EPath make(const ref::Path& p) {
	if (p.attr >= 0) return {static_cast<uint16_t>(p.cls), static_cast<uint16_t>(p.inst), static_cast<uint16_t>(p.attr)};
	if (p.inst >= 0) return {static_cast<uint16_t>(p.cls), static_cast<uint16_t>(p.inst)};
	return cip::EPath(static_cast<uint16_t>(p.cls));
}
cip::Yaskawa_EPath makeY(const ref::Path& p) {
	if (p.attr >= 0) return {static_cast<uint8_t>(p.cls), static_cast<uint8_t>(p.inst), static_cast<uint8_t>(p.attr)};
	if (p.inst >= 0) return {static_cast<uint8_t>(p.cls), static_cast<uint8_t>(p.inst)};
	return cip::Yaskawa_EPath(static_cast<uint8_t>(p.cls));
}
ref::Path P(int c, int i = -1, int a = -1) { ref::Path p; p.cls = c; p.inst = i; p.attr = a; return p; }

template <typename Router, typename Path>
void call(const Router& r, const SessionInfoIf::SPtr& si, const Path& path, const Want& w) {
	if (w.overload == 3) { r.sendRequest(si, static_cast<uint8_t>(w.service), path); return; }
	if (w.overload == 4) { r.sendRequest(si, static_cast<uint8_t>(w.service), path, w.data); return; }
	std::vector<CommonPacketItem> items;
	for (auto& i : w.extra) items.emplace_back(static_cast<CommonPacketItemIds>(i.type), i.data);
	r.sendRequest(si, static_cast<uint8_t>(w.service), path, w.data, items);
}

struct Session {
	std::shared_ptr<SessionInfo> si;
	ref::Device* dev;
	size_t stream;
};

void request(Ctx& c, World& w, Session& s, const Want& q) {
	const Bytes pathBytes = ref::encodePath(q.path, q.width == 16 ? 16 : 8);
	size_t mr = 2 + pathBytes.size() + q.data.size();
	size_t total = 6 + 2 + 4 + 4 + mr;
	bool fits = mr <= 65535;
	for (auto& i : q.extra) { total += 4 + i.data.size(); fits = fits && i.data.size() <= 65535; }
	fits = fits && total <= 65535;
	std::string what = fmt("service %02x path %s width %d, %zu bytes, %zu items", q.service, q.path.str().c_str(), q.width, q.data.size(), q.extra.size());
	c.step(what);
	size_t sentBefore = w.sentOn(s.stream).size(), framesBefore = s.dev->frames.size(), requestsBefore = s.dev->requests.size();
	std::vector<size_t> others;
	for (auto& st : w.net.streams) others.push_back(st->sent.size());
	auto o = attempt([&] {
		if (q.router && q.width == 0) call(*static_cast<const Yaskawa_MessageRouter*>(q.router), s.si, makeY(q.path), q);
		else if (q.router) call(*static_cast<const MessageRouter*>(q.router), s.si, make(q.path), q);
		else if (q.width == 0) call(Yaskawa_MessageRouter(), s.si, makeY(q.path), q);
		else if (q.width == 8) call(MessageRouter(MessageRouter::USE_8_BIT_PATH_SEGMENTS), s.si, make(q.path), q);
		else call(MessageRouter(), s.si, make(q.path), q);
	});
	for (size_t i = 0; i < others.size(); ++i)
		if (i != s.stream) c.equal(w.net.streams[i]->sent.size(), others[i], "bytes sent to another device");
	if (!fits) {
		c.check(o.threw, "a request which does not fit is not refused: " + what);
		c.equal(w.sentOn(s.stream).size(), sentBefore, "bytes sent of a request which does not fit");
		c.obs(1);
		c.state(2);
		return;
	}
	c.check(!o.threw, "the request is refused: " + what + ": " + o.what);
	w.conforming(c);
	for (auto& p : s.dev->problems) c.fail("wrong message: " + p);
	c.equal(s.dev->frames.size(), framesBefore + 1, "number of messages");
	c.equal(s.dev->requests.size(), requestsBefore + 1, "number of requests");
	const auto& f = s.dev->frames.back();
	const auto& r = s.dev->requests.back();
	c.equal(w.sentOn(s.stream).size(), sentBefore + 24 + total, "number of bytes sent");
	c.equal(static_cast<int>(f.command), static_cast<int>(ref::SEND_RR), "command");
	c.equal(f.session, s.dev->handle, "session handle");
	c.equal(static_cast<int>(r.timeout), 0, "timeout for the interface");
	c.equal(static_cast<int>(r.service), q.service, "service");
	c.equal(r.pathBytes, pathBytes, "path");
	c.equal(static_cast<size_t>(r.pathWords), pathBytes.size() / 2, "path words");
	c.equal(r.data, q.data, "argument bytes");
	c.equal(r.extra.size(), q.extra.size(), "number of additional items");
	for (size_t i = 0; i < q.extra.size(); ++i) {
		c.equal(r.extra[i].type, q.extra[i].type, "type of an additional item");
		c.equal(r.extra[i].data, q.extra[i].data, "data of an additional item");
	}
	c.obs(f.data);
	c.state(hash(f.data));
}

Session open(World& w, ref::Device& d, const std::string& host) {
	Session s;
	s.stream = w.net.streams.size();
	s.dev = &d;
	s.si = std::make_shared<SessionInfo>(host, 44818, milliseconds(1000));
	return s;
}

const std::vector<ref::Path> PATHS = {P(1), P(0x0f, 0), P(4, 151, 3), P(0xff, 0xff, 0xff), P(6, 1), P(0x37, 0xc8), P(1, 1, 0), P(0x100, 1), P(0x300, 0x1234, 0xffff), P(0, 0, 0)};
const std::vector<ref::Path> PATHS8 = {P(1), P(0x0f, 0), P(4, 151, 3), P(0xff, 0xff, 0xff), P(0x0f, 1, 1), P(0, 0, 0)};

ref::Path pickPath(Ctx& c, int width) { return width == 16 ? c.pick(PATHS, "path") : c.pick(PATHS8, "path"); }
int pickWidth(Ctx& c) { static const int W[] = {16, 8, 0}; return W[c.choose(3, "width")]; }

} // namespace

void mc::define(Registry& r) {
	r.bound("all 256 services x paths x widths x payloads of 0..3 bytes; all payload lengths 0..600 and all totals around the 16 bit limits; item lists up to 3 (thorough 4) items over 8 types x 4 sizes; up to 16375 items");
	r.bound("all words of up to 2 of 7 kinds of requests, repeated to 320 (thorough 1100) requests");
	r.bound("sequences of up to 3 (thorough 4) requests over two sessions with different handles, through all routers and overloads");

	r.add("services", [](Ctx& c) {
		World w;
		auto s = open(w, w.dev, "10.0.0.1");
		Want q;
		q.service = c.choose(256, "service");
		q.width = pickWidth(c);
		q.path = pickPath(c, q.width);
		q.data = pattern(c.choose(4, "length"), q.service);
		q.overload = q.data.empty() ? 3 + c.choose(3, "overload") : 4 + c.choose(2, "overload");
		request(c, w, s, q);
	});
	r.add("named services", [](Ctx& c) {
		// the names of the library stand for the numbers of CIP
		using S = cip::ServiceCodes;
		struct Named { const char* name; int value, wire; };
		static const std::vector<Named> names = {
			{"NONE", S::NONE, 0x00}, {"GET_ATTRIBUTE_ALL", S::GET_ATTRIBUTE_ALL, 0x01}, {"SET_ATTRIBUTE_ALL", S::SET_ATTRIBUTE_ALL, 0x02}, {"GET_ATTRIBUTE_LIST", S::GET_ATTRIBUTE_LIST, 0x03}, {"SET_ATTRIBUTE_LIST", S::SET_ATTRIBUTE_LIST, 0x04}, {"RESET", S::RESET, 0x05}, {"START", S::START, 0x06}, {"STOP", S::STOP, 0x07}, {"CREATE_OBJECT_INSTANCE", S::CREATE_OBJECT_INSTANCE, 0x08}, {"DELETE_OBJECT_INSTANCE", S::DELETE_OBJECT_INSTANCE, 0x09}, {"MULTIPLE_SERVICE_PACKET", S::MULTIPLE_SERVICE_PACKET, 0x0a}, {"APPLY_ATTRIBUTES", S::APPLY_ATTRIBUTES, 0x0d}, {"GET_ATTRIBUTE_SINGLE", S::GET_ATTRIBUTE_SINGLE, 0x0e}, {"SET_ATTRIBUTE_SINGLE", S::SET_ATTRIBUTE_SINGLE, 0x10}, {"FIND_NEXT_OBJECT_INSTANCE", S::FIND_NEXT_OBJECT_INSTANCE, 0x11}, {"ERROR_RESPONSE", S::ERROR_RESPONSE, 0x14}, {"RESTORE", S::RESTORE, 0x15}, {"SAVE", S::SAVE, 0x16}, {"GET_MEMBER", S::GET_MEMBER, 0x18}, {"NO_OPERATION", S::NO_OPERATION, 0x17}, {"SET_MEMBER", S::SET_MEMBER, 0x19}, {"INSERT_MEMBER", S::INSERT_MEMBER, 0x1a}, {"REMOVE_MEMBER", S::REMOVE_MEMBER, 0x1b}, {"GROUP_SYNC", S::GROUP_SYNC, 0x1c}};
		World w;
		auto s = open(w, w.dev, "10.0.0.1");
		const auto& n = c.pick(names, "name");
		Want q;
		q.service = n.value;
		q.width = pickWidth(c);
		q.path = P(1, 1);
		q.overload = 3;
		request(c, w, s, q);
		c.equal(static_cast<int>(s.dev->requests.back().service), n.wire, std::string("the service called ") + n.name);
	});
	r.add("lengths", [](Ctx& c) {
		World w;
		auto s = open(w, w.dev, "10.0.0.1");
		Want q;
		q.service = 0x0e;
		q.width = pickWidth(c);
		q.path = P(4, 0x64, 3);
		q.data = pattern(c.choose(601, "length"), 3);
		q.overload = 4 + c.choose(2);
		request(c, w, s, q);
	});
	r.add("limits", [](Ctx& c) {
		World w;
		auto s = open(w, w.dev, "10.0.0.1");
		Want q;
		q.service = 0x10;
		q.width = pickWidth(c);
		q.path = P(4, 0x64, 3);
		size_t path = ref::encodePath(q.path, q.width == 16 ? 16 : 8).size();
		int what = c.choose(6);
		int d = c.choose(25, "distance") - 12;
		if (what == 0) q.data = pattern(65535 - 16 - 2 - path + d);           // the encapsulation length
		else if (what == 1) q.data = pattern(65535 - 2 - path + d);           // the length of the data item
		else if (what == 2) { q.data = pattern(3); q.extra = {{0x8000, pattern(65535 - 16 - 2 - path - 3 - 4 + d)}}; }
		else if (what == 3) { q.data = pattern(3); q.extra = {{0x8000, pattern(65535 + d)}}; }
		else if (what == 4) { q.data = pattern(65536 * 2 - 16 - 2 - path + d); } // the lengths modulo 65536 look right
		else { q.data = pattern(40000); q.extra = {{0x8000, pattern(25535 - 16 - 2 - path - 4 + d)}}; }
		q.overload = q.extra.empty() ? 4 + c.choose(2) : 5;
		request(c, w, s, q);
		// the session still works
		Want q2;
		q2.service = 0x0e;
		q2.width = q.width;
		q2.path = P(1, 1, 7);
		q2.overload = 3;
		request(c, w, s, q2);
	});
	int maxItems = r.tier(2, 3);
	r.add("items", [maxItems](Ctx& c) {
		World w;
		auto s = open(w, w.dev, "10.0.0.1");
		static const std::vector<int> types = {0x8000, 0x8001, 0, 0xB2, 0xB1, 0xA1, 0x8002, 0xC};
		static const std::vector<int> sizes = {0, 1, 16, 257};
		Want q;
		q.service = 0x54;
		q.width = pickWidth(c);
		q.path = P(6, 1);
		q.data = pattern(c.choose(3, "length"), 9);
		int n = c.choose(maxItems + 1, "items");
		for (int i = 0; i < n; ++i) {
			int t = c.pick(types, "type");
			q.extra.push_back({static_cast<uint16_t>(t), pattern(c.pick(sizes, "size"), i + 5)});
		}
		request(c, w, s, q);
	});
	r.add("many items", [](Ctx& c) {
		World w;
		auto s = open(w, w.dev, "10.0.0.1");
		static const std::vector<int> counts = {4, 253, 254, 255, 256, 257, 300, 16374, 16375, 16376, 16377, 16378, 16384, 65533, 65534, 65535, 65536};
		Want q;
		q.service = 0x54;
		q.width = pickWidth(c);
		q.path = P(6, 1);
		q.extra.assign(c.pick(counts, "items"), ref::Item{0x8001, {}});
		request(c, w, s, q);
	});
	r.add("after trouble", [](Ctx& c) {
		// whatever became of a request, nothing of it is in the next ones
		World w;
		auto s = open(w, w.dev, "10.0.0.1");
		MessageRouter r16, r8(MessageRouter::USE_8_BIT_PATH_SEGMENTS);
		Yaskawa_MessageRouter ry;
		int trouble = c.choose(8, "trouble"), now = 0;
		w.dev.onCip = [&](const ref::CipRequest&) {
			if (!now) return ref::CipReply(pattern(3));
			if (trouble == 2) return ref::CipReply::error(8, {1, 2, 3});
			auto r = trouble == 3 ? ref::CipReply::error(0x1e, {}) : ref::CipReply(pattern(9));
			if (trouble == 3) r.data = pattern(40);
			if (trouble == 4) r.dropTail = 10;
			if (trouble == 5) r.extra = {{0x8000, pattern(16)}, {0x8001, pattern(16)}};
			return r;
		};
		w.dev.onFrame = [&](sim::Stream& st, const ref::Frame& f) {
			if (!now || trouble < 6 || f.command != ref::SEND_RR) return false;
			st.push(ref::encap(f.command, trouble == 6 ? f.session : f.session ^ 1, trouble == 6 ? 3 : 0, {}, f.context), 50 * sim::US);
			return true;
		};
		int width = pickWidth(c);
		Want q;
		q.service = 0x4b;
		q.path = P(0x37, 0xc8, 2);
		q.data = pattern(trouble == 0 ? 70000 : 20, 5);
		if (c.choose(2, "items")) q.extra = {{0x8000, pattern(trouble == 1 ? 70000 : 16, 9)}, {0x8001, pattern(16, 2)}};
		else if (trouble == 1) q.data = pattern(65530);
		auto send = [&](const Want& x) {
			if (x.width == 0) call(ry, s.si, makeY(x.path), x);
			else call(x.width == 8 ? r8 : r16, s.si, make(x.path), x);
		};
		q.width = width;
		now = 1;
		auto o = attempt([&] { send(q); });
		now = 0;
		c.step(fmt("trouble %d: ", trouble) + (o.threw ? o.what : "no exception"));
		c.check(o.threw == (trouble != 2 && trouble != 3 && trouble != 5), "wrong outcome of the first request");
		for (int i = 0; i < 2; ++i) {
			Want n;
			n.service = 0x0e;
			n.width = c.choose(2, "same width") ? width : 16;
			n.path = c.choose(2) ? P(4, 0x66, 3) : P(0x37);
			n.data = pattern(c.choose(2, "data") ? 3 : 0, 77);
			if (c.choose(2, "items")) n.extra = {{0x8001, pattern(2)}};
			n.router = n.width == 0 ? static_cast<const void*>(&ry) : n.width == 8 ? &r8 : &r16;
			request(c, w, s, n);
		}
	});
	int depth = r.tier(2, 3);
	r.add("sequences", [depth](Ctx& c) {
		World w;
		ref::Device other;
		w.net.listeners[{sim::ip("10.0.0.2"), 44818}] = &other;
		static const std::vector<uint32_t> handles = {0x11223344, 1, 0x80000000, 0xffffffff, 0x100, 0x10000};
		w.dev.handle = c.pick(handles, "handle");
		other.handle = w.dev.handle ^ 0x01000001u;
		if (other.handle == 0) other.handle = 7;
		std::vector<Session> ss;
		ss.push_back(open(w, w.dev, "10.0.0.1"));
		ss.push_back(open(w, other, "10.0.0.2"));
		for (int i = 0; i < depth; ++i) {
			Want q;
			q.service = c.choose(2) ? 0x10 : 0x4b;
			q.width = pickWidth(c);
			q.path = c.choose(2) ? P(4, 0x66, 3) : P(0x37, 0);
			q.data = pattern(c.choose(2) ? 0 : 5, i + 1);
			if (c.choose(2)) q.extra = {{0x8000, pattern(16, i)}};
			request(c, w, ss[c.choose(2, "session")], q);
		}
	});
	int many = r.tier(320, 1100);
	r.add("long", [many](Ctx& c) {
		// the same few requests again and again through the same routers
		World w;
		ref::Device other;
		w.net.listeners[{sim::ip("10.0.0.2"), 44818}] = &other;
		other.handle = 0x55443322;
		std::vector<Session> ss{open(w, w.dev, "10.0.0.1"), open(w, other, "10.0.0.2")};
		MessageRouter r16, r8(MessageRouter::USE_8_BIT_PATH_SEGMENTS);
		Yaskawa_MessageRouter ry;
		static const int W[] = {16, 8, 0};
		Word word(c, 7, 2);
		for (int i = 0; i < many; ++i) {
			int l = word[i];
			Want q;
			q.service = l % 2 ? 0x0e : 0x10;
			q.width = W[l % 3];
			q.path = l % 2 ? P(4, 0x66, 3) : P(0x37, i & 255);
			q.data = pattern(l * 9 % 7, i);
			if (l == 4) q.extra = {{0x8000, pattern(16, i)}};
			if (l == 6) { q.width = 16; q.data = pattern(65530); }
			q.router = q.width == 0 ? static_cast<const void*>(&ry) : q.width == 8 ? &r8 : &r16;
			request(c, w, ss[l == 5], q);
			if (i % 64 == 0) c.alive();
		}
	});
}
