// Independent reference of the protocol: little-endian codec, encapsulation, common packet format, message router,
// connection manager messages, and a device which answers through the simulated network.
#pragma once
#include "mc.h"
#include "sim.h"
#include <algorithm>
#include <cstring>
#include <functional>
#include <map>
#include <optional>
#include <string>
#include <vector>

namespace ref {

using mc::Bytes;

struct W { // writer
	Bytes b;
	W& u8(uint64_t v) { b.push_back(static_cast<uint8_t>(v)); return *this; }
	W& u16(uint64_t v) { return u8(v).u8(v >> 8); }
	W& u32(uint64_t v) { return u16(v).u16(v >> 16); }
	W& u64(uint64_t v) { return u32(v).u32(v >> 32); }
	W& be16(uint64_t v) { return u8(v >> 8).u8(v); }
	W& be32(uint64_t v) { return be16(v >> 16).be16(v); }
	W& raw(const Bytes& d) { b.insert(b.end(), d.begin(), d.end()); return *this; }
	W& str(const std::string& d) { b.insert(b.end(), d.begin(), d.end()); return *this; }
	W& shortString(const std::string& d) { return u8(d.size()).str(d); }
	W& fill(size_t n, uint8_t v) { b.insert(b.end(), n, v); return *this; }
	operator Bytes() const { return b; }
};

struct R { // strict reader
	const Bytes& b;
	size_t pos = 0;
	bool ok = true;
	explicit R(const Bytes& data) : b(data) {}
	uint64_t u(int n) {
		uint64_t v = 0;
		for (int i = 0; i < n; ++i) {
			if (pos >= b.size()) { ok = false; return 0; }
			v |= static_cast<uint64_t>(b[pos++]) << (8 * i);
		}
		return v;
	}
	uint8_t u8() { return static_cast<uint8_t>(u(1)); }
	uint16_t u16() { return static_cast<uint16_t>(u(2)); }
	uint32_t u32() { return static_cast<uint32_t>(u(4)); }
	Bytes take(size_t n) {
		if (n > b.size() - pos) { ok = false; n = b.size() - pos; }
		Bytes r(b.begin() + pos, b.begin() + pos + n);
		pos += n;
		return r;
	}
	Bytes rest() { return take(b.size() - pos); }
	bool end() const { return pos == b.size(); }
};

struct Item {
	uint16_t type = 0;
	Bytes data;
	bool operator==(const Item& o) const { return type == o.type && data == o.data; }
};

inline Bytes cpf(const std::vector<Item>& items, int count = -1) {
	W w;
	w.u16(count < 0 ? items.size() : count);
	for (auto& i : items) w.u16(i.type).u16(i.data.size()).raw(i.data);
	return w;
}

inline bool parseCpf(const Bytes& d, std::vector<Item>& items) {
	R r(d);
	unsigned n = r.u16();
	items.clear();
	for (unsigned i = 0; i < n && r.ok; ++i) {
		Item it;
		it.type = r.u16();
		unsigned len = r.u16();
		it.data = r.take(len);
		items.push_back(it);
	}
	return r.ok && r.end();
}

struct Frame {
	uint16_t command = 0, length = 0;
	uint32_t session = 0, status = 0;
	Bytes context = Bytes(8, 0);
	uint32_t options = 0;
	Bytes data;
	sim::Time at = 0;
	int stream = 0;
};

inline Bytes encap(uint16_t command, uint32_t session, uint32_t status, const Bytes& data, const Bytes& context = Bytes(8, 0),
	uint32_t options = 0, int length = -1) {
	return W().u16(command).u16(length < 0 ? data.size() : length).u32(session).u32(status).raw(context).u32(options).raw(data);
}

inline bool parseEncap(const Bytes& d, Frame& f) {
	R r(d);
	f.command = r.u16();
	f.length = r.u16();
	f.session = r.u32();
	f.status = r.u32();
	f.context = r.take(8);
	f.options = r.u32();
	f.data = r.rest();
	return r.ok && f.data.size() == f.length;
}

constexpr uint16_t NOP = 0, LIST_IDENTITY = 0x63, REGISTER = 0x65, UNREGISTER = 0x66, SEND_RR = 0x6F;

/// Logical segments of a padded path
struct Path {
	int cls = -1, inst = -1, attr = -1;
	int width = 0; // 8, 16, 0 mixed or empty
	bool ok = false;
	bool operator==(const Path& o) const { return cls == o.cls && inst == o.inst && attr == o.attr; }
	std::string str() const { return mc::fmt("%d/%d/%d", cls, inst, attr); }
};

inline Path parsePath(const Bytes& d) {
	Path p;
	R r(d);
	int stage = 0;
	bool any8 = false, any16 = false;
	while (!r.end()) {
		unsigned seg = r.u8();
		int kind;
		bool wide;
		switch (seg) {
			case 0x20: kind = 0; wide = false; break;
			case 0x21: kind = 0; wide = true; break;
			case 0x24: kind = 1; wide = false; break;
			case 0x25: kind = 1; wide = true; break;
			case 0x30: kind = 2; wide = false; break;
			case 0x31: kind = 2; wide = true; break;
			default: return p;
		}
		if (kind != stage) return p;
		unsigned v;
		if (wide) { if (r.u8() != 0) return p; v = r.u16(); any16 = true; }
		else { v = r.u8(); any8 = true; }
		if (!r.ok) return p;
		(kind == 0 ? p.cls : kind == 1 ? p.inst : p.attr) = static_cast<int>(v);
		++stage;
	}
	p.width = any8 && any16 ? 0 : any8 ? 8 : any16 ? 16 : 0;
	p.ok = stage > 0;
	return p;
}

inline Bytes encodePath(const Path& p, int width) {
	W w;
	auto seg = [&](uint8_t t, int v) {
		if (v < 0) return;
		if (width == 8) w.u8(t).u8(v);
		else w.u8(t + 1).u8(0).u16(v);
	};
	seg(0x20, p.cls);
	seg(0x24, p.inst);
	seg(0x30, p.attr);
	return w;
}

struct CipRequest {
	uint8_t service = 0, pathWords = 0;
	Bytes pathBytes, data;
	Path path;
	std::vector<Item> extra;
	uint32_t session = 0;
	uint16_t timeout = 0;
	Bytes raw; // the content of the data item
	int stream = 0;
	sim::Time at = 0;
	bool is(uint8_t s, int cls, int inst, int attr = -1) const {
		return service == s && path.cls == cls && path.inst == inst && path.attr == attr;
	}
	std::string str() const {
		return mc::fmt("service=%02x path=%s data=", service, path.str().c_str()) + mc::hex(data);
	}
};

struct CipReply {
	int service = -1; // default: of the request | 0x80
	uint8_t reserved = 0;
	uint8_t status = 0;
	std::vector<uint16_t> additional;
	int additionalSize = -1;
	Bytes data;
	std::vector<Item> extra;
	int dropTail = 0; // cut so many bytes off the encoded message router reply
	CipReply() = default;
	explicit CipReply(const Bytes& d) : data(d) {}
	static CipReply error(uint8_t status, std::vector<uint16_t> add = {}) { CipReply r; r.status = status; r.additional = std::move(add); return r; }
	Bytes encode(uint8_t requestService) const {
		W w;
		w.u8(service < 0 ? requestService | 0x80 : service).u8(reserved).u8(status).u8(additionalSize < 0 ? additional.size() : additionalSize);
		for (auto a : additional) w.u16(a);
		w.raw(data);
		Bytes b = w;
		b.resize(b.size() - std::min<size_t>(dropTail, b.size()));
		return b;
	}
};

inline Bytes rrReply(const Bytes& mr, const std::vector<Item>& extra = {}) {
	std::vector<Item> items{{0, {}}, {0xB2, mr}};
	items.insert(items.end(), extra.begin(), extra.end());
	return W().u32(0).u16(0).raw(cpf(items));
}

/// An EtherNet/IP device
class Device : public sim::TcpPeer {
public:
	uint32_t handle = 0x11223344;
	uint32_t registerStatus = 0;
	sim::Time delay = 50 * sim::US;
	bool finAfterUnregister = true;
	/// Answers a CIP request
	std::function<CipReply(const CipRequest&)> onCip;
	/// May take over a whole frame (returns true if so)
	std::function<bool(sim::Stream&, const Frame&)> onFrame;
	/// How reply bytes get on the wire
	std::function<void(sim::Stream&, const Frame&, const Bytes&)> deliver;

	std::vector<Frame> frames;         // everything received, in order
	std::vector<CipRequest> requests;  // decoded explicit requests
	std::vector<std::string> problems; // deviations of the client from the protocol
	std::map<int, Bytes> partial;
	std::map<int, uint32_t> registered; // session handles by stream
	int connects = 0;
	std::vector<int> shutdowns;

	void onConnect(sim::Stream&) override { ++connects; }
	void onShutdown(sim::Stream& s) override { shutdowns.push_back(s.id); }

	void onData(sim::Stream& s, const Bytes& d) override {
		auto& buf = partial[s.id];
		buf.insert(buf.end(), d.begin(), d.end());
		while (buf.size() >= 24) {
			size_t len = buf[2] | buf[3] << 8;
			if (buf.size() < 24 + len) break;
			Frame f;
			parseEncap(Bytes(buf.begin(), buf.begin() + 24 + len), f);
			buf.erase(buf.begin(), buf.begin() + 24 + len);
			f.at = sim::net().now();
			f.stream = s.id;
			frames.push_back(f);
			handle_(s, f);
		}
	}

	void send(sim::Stream& s, const Frame& f, const Bytes& bytes) {
		if (deliver) deliver(s, f, bytes);
		else s.push(bytes, delay);
	}

	int count(uint16_t command) const {
		return static_cast<int>(std::count_if(frames.begin(), frames.end(), [&](const Frame& f) { return f.command == command; }));
	}

	void problem(const std::string& s) { problems.push_back(s); }

	static bool parseRequest(const Frame& f, CipRequest& q, std::string& problem) {
		R r(f.data);
		uint32_t interface = r.u32();
		q.timeout = r.u16();
		if (!r.ok) { problem = "SendRRData without interface handle and timeout"; return false; }
		if (interface != 0) problem = "interface handle is not 0";
		std::vector<Item> items;
		if (!parseCpf(r.rest(), items)) { problem = "inconsistent common packet format"; return false; }
		if (items.size() < 2) { problem = "fewer than two items"; return false; }
		if (items[0].type != 0 || !items[0].data.empty()) { problem = "the first item is not a null address"; return false; }
		if (items[1].type != 0xB2) { problem = "the second item is not unconnected data"; return false; }
		q.extra.assign(items.begin() + 2, items.end());
		q.raw = items[1].data;
		R m(items[1].data);
		q.service = m.u8();
		q.pathWords = m.u8();
		q.pathBytes = m.take(q.pathWords * 2u);
		if (!m.ok) { problem = "the path is longer than the request"; return false; }
		q.path = parsePath(q.pathBytes);
		if (!q.path.ok) problem = "the path is not canonical: " + mc::hex(q.pathBytes);
		q.data = m.rest();
		q.session = f.session;
		q.stream = f.stream;
		q.at = f.at;
		return true;
	}

private:
	void handle_(sim::Stream& s, const Frame& f) {
		if (f.status != 0) problem(mc::fmt("request with encapsulation status %u", f.status));
		if (f.options != 0) problem(mc::fmt("request with options %u", f.options));
		if (onFrame && onFrame(s, f)) return;
		switch (f.command) {
			case REGISTER:
				if (f.data != Bytes{1, 0, 0, 0}) problem("RegisterSession data is " + mc::hex(f.data));
				if (f.session != 0) problem(mc::fmt("RegisterSession with handle %u", f.session));
				if (!registerStatus) registered[s.id] = handle;
				send(s, f, encap(REGISTER, registerStatus ? 0 : handle, registerStatus, f.data, f.context));
				return;
			case UNREGISTER:
				if (!f.data.empty()) problem("UnRegisterSession has data");
				if (finAfterUnregister) s.pushFin(delay);
				return;
			case SEND_RR: {
				auto known = registered.find(s.id);
				if (known != registered.end() && known->second != f.session) {
					problem(mc::fmt("a request of session %x on the connection of session %x", f.session, known->second));
					send(s, f, encap(SEND_RR, f.session, 0x64, {}, f.context));
					return;
				}
				CipRequest q;
				std::string p;
				bool ok = parseRequest(f, q, p);
				if (!p.empty()) problem(p);
				if (!ok) { send(s, f, encap(SEND_RR, f.session, 3, {}, f.context)); return; }
				requests.push_back(q);
				CipReply reply = onCip ? onCip(q) : CipReply();
				send(s, f, encap(SEND_RR, handle, 0, rrReply(reply.encode(q.service), reply.extra), f.context));
				return;
			}
			default:
				problem(mc::fmt("unexpected command %u", f.command));
				send(s, f, encap(f.command, f.session, 1, {}, f.context));
		}
	}
};

/// Connection manager requests
struct ForwardOpen {
	bool large = false, ok = false;
	uint8_t priority = 0, ticks = 0;
	uint32_t o2tId = 0, t2oId = 0;
	uint16_t serial = 0, vendor = 0;
	uint32_t originatorSerial = 0;
	uint8_t multiplier = 0;
	Bytes reserved;
	uint32_t o2tRpi = 0, o2tParams = 0, t2oRpi = 0, t2oParams = 0;
	uint8_t trigger = 0, pathWords = 0;
	Bytes path;
	static ForwardOpen parse(const CipRequest& q) {
		ForwardOpen f;
		f.large = q.service == 0x5B;
		R r(q.data);
		f.priority = r.u8();
		f.ticks = r.u8();
		f.o2tId = r.u32();
		f.t2oId = r.u32();
		f.serial = r.u16();
		f.vendor = r.u16();
		f.originatorSerial = r.u32();
		f.multiplier = r.u8();
		f.reserved = r.take(3);
		f.o2tRpi = r.u32();
		f.o2tParams = f.large ? r.u32() : r.u16();
		f.t2oRpi = r.u32();
		f.t2oParams = f.large ? r.u32() : r.u16();
		f.trigger = r.u8();
		f.pathWords = r.u8();
		f.path = r.rest();
		f.ok = r.ok;
		return f;
	}
	Bytes reply(uint32_t o2t, uint32_t t2o, uint32_t o2tApi, uint32_t t2oApi, const Bytes& app = {}) const {
		return W().u32(o2t).u32(t2o).u16(serial).u16(vendor).u32(originatorSerial).u32(o2tApi).u32(t2oApi).u8(app.size() / 2).u8(0).raw(app);
	}
};

struct ForwardClose {
	bool ok = false;
	uint8_t priority = 0, ticks = 0;
	uint16_t serial = 0, vendor = 0;
	uint32_t originatorSerial = 0;
	uint8_t pathWords = 0, reserved = 0;
	Bytes path;
	static ForwardClose parse(const CipRequest& q) {
		ForwardClose f;
		R r(q.data);
		f.priority = r.u8();
		f.ticks = r.u8();
		f.serial = r.u16();
		f.vendor = r.u16();
		f.originatorSerial = r.u32();
		f.pathWords = r.u8();
		f.reserved = r.u8();
		f.path = r.rest();
		f.ok = r.ok && f.path.size() == f.pathWords * 2u;
		return f;
	}
	Bytes reply() const { return W().u16(serial).u16(vendor).u32(originatorSerial).u8(0).u8(0); }
};

inline Bytes sockaddrItem(uint32_t ip, uint16_t port) { return W().be16(2).be16(port).be32(ip).fill(8, 0); }

/// Implicit message from target to originator
inline Bytes implicitMessage(uint32_t connectionId, uint32_t seq, const Bytes& payload, uint16_t addrType = 0x8002, uint16_t dataType = 0xB1) {
	return cpf({{addrType, W().u32(connectionId).u32(seq)}, {dataType, payload}});
}

} // namespace ref
