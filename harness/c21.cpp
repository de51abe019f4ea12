// C21: addresses
#include "common.h"
#include "sockets/EndPoint.h"
#include <arpa/inet.h>
#include <algorithm>
#include <map>
#include <set>

using eipScanner::sockets::EndPoint;
using sim::ip;

namespace {

struct A { uint32_t ip; int port; };
std::string dotted(uint32_t a) { return fmt("%u.%u.%u.%u", a >> 24, a >> 16 & 255, a >> 8 & 255, a & 255); }
/// In text or binary form; the padding of the binary form is garbage
EndPoint make(const A& a, int form) {
	if (form == 0) return EndPoint(dotted(a.ip), a.port);
	sockaddr_in s;
	memset(&s, form == 1 ? 0 : 0xEE, sizeof s);
	s.sin_family = AF_INET;
	s.sin_port = htons(a.port);
	s.sin_addr.s_addr = htonl(a.ip);
	return EndPoint(s);
}
const std::vector<A>& some() {
	static const std::vector<A> v = [] {
		std::vector<A> r;
		for (auto h : {"0.0.0.0", "0.0.0.1", "1.0.0.0", "9.0.0.0", "10.0.0.1", "10.0.0.2", "10.0.0.10", "1.0.0.10", "10.0.1.0", "100.0.0.1", "127.0.0.1", "128.0.0.1", "192.168.1.2", "192.168.1.20", "192.168.12.0", "255.255.255.255", "239.192.1.1"})
			for (int p : {0, 1, 255, 256, 2222, 32768, 44818, 65535}) if (r.size() < 200) r.push_back({ip(h), p});
		return r;
	}();
	return v;
}
bool same(const A& a, const A& b) { return a.ip == b.ip && a.port == b.port; }

void verify(Ctx& c, const EndPoint& e, const A& a) {
	c.equal(e.getHost(), dotted(a.ip), "host");
	c.equal(e.getPort(), a.port, "port");
	c.equal(e.toString(), dotted(a.ip) + ":" + std::to_string(a.port), "text");
	const sockaddr_in& s = e.getAddr();
	c.equal(static_cast<int>(s.sin_family), AF_INET, "family of the binary form");
	c.equal(static_cast<int>(ntohs(s.sin_port)), a.port, "port of the binary form");
	c.equal(ntohl(s.sin_addr.s_addr), a.ip, "address of the binary form");
}
void pair(Ctx& c, const A& a, const A& b, int fa, int fb) {
	EndPoint x = make(a, fa), y = make(b, fb);
	bool eq = same(a, b);
	auto text = [&] { return x.toString() + " and " + y.toString(); };
	if ((x == y) != eq || (y == x) != eq || (x != y) == eq) c.fail("wrong equality of " + text());
	int n = (x < y) + (y < x);
	if (n != (eq ? 0 : 1)) c.fail(fmt("%d orders of ", n) + text());
	c.compared();
	if (eq) return;
	std::set<EndPoint> set{x, y};
	std::map<EndPoint, int> map{{x, 1}, {y, 2}};
	if (set.size() != 2 || map.size() != 2 || map.at(make(a, fb)) != 1 || map.at(make(b, fa)) != 2) c.fail("an ordered container mixes up " + text());
}

} // namespace

void mc::define(Registry& r) {
	r.bound("all pairs (in each combination of the forms) and triples of 136 addresses and ports with boundary octets; all values of each octet and all 65536 ports; pairs of 28 end points with other notations or names");

	r.add("conversions of ports", [](Ctx& c) {
		int form = c.choose(3), high = c.choose(256);
		for (int low = 0; low < 256; ++low) {
			A a{0x0A0B0C0D, high << 8 | low};
			verify(c, make(a, form), a);
			c.state(a.port);
		}
		c.obs(high);
	});
	r.add("conversions of addresses", [](Ctx& c) {
		static const std::vector<unsigned> octets = {0, 1, 9, 10, 99, 100, 127, 128, 192, 223, 224, 254, 255};
		unsigned a = c.pick(octets), b = c.pick(octets);
		for (auto x : octets) for (auto y : octets) {
			A v{a << 24 | b << 16 | x << 8 | y, static_cast<int>(0x1234 + x)};
			EndPoint text = make(v, 0), binary = make(v, 1), other = make(v, 2);
			verify(c, text, v);
			verify(c, binary, v);
			sockaddr_in s = text.getAddr();
			EndPoint back(s);
			verify(c, back, v);
			EndPoint again(binary.getHost(), binary.getPort());
			verify(c, again, v);
			if (!(text == binary) || !(back == text) || !(again == other)) c.fail("conversions change " + text.toString());
			c.state(mix(v.ip, v.port));
		}
		c.obs(a << 8 | b);
	});
	r.add("each octet", [](Ctx& c) {
		int shift = 8 * c.choose(4), v = c.choose(256);
		for (uint32_t base : {0u, 0x01010101u, 0xffffffffu}) {
			A a{(base & ~(255u << shift)) | static_cast<uint32_t>(v) << shift, 44818};
			for (int form = 0; form < 3; ++form) verify(c, make(a, form), a);
			// against all the other values
			for (int w = 0; w < 256; ++w) pair(c, a, A{(base & ~(255u << shift)) | static_cast<uint32_t>(w) << shift, 44818}, 0, 0);
			c.state(a.ip);
		}
		c.obs(mix(shift, v));
	});
	r.add("pairs", [](Ctx& c) {
		int i = c.choose(static_cast<int>(some().size()), "first"), fa = c.choose(3), fb = c.choose(3);
		for (auto& b : some()) pair(c, some()[i], b, fa, fb);
		c.obs(i);
		c.state(i);
	});
	r.add("other texts", [](Ctx& c) {
		// shorter notations of addresses, and names: consistent, whether or not they are taken for the same
		static const std::vector<std::string> texts = {"10.0.0.1", "10.1", "10.0.1", "012.0.0.1", "0xa.0.0.1", "167772161", "10.0.0.2", "10.2", "127.1", "localhost", "plc", "", "0.0.0.0", "0"};
		const std::string& s = c.pick(texts);
		int p = c.choose(2) ? 2222 : 44818;
		EndPoint x(s, p);
		c.equal(x.getHost(), s, "host");
		c.equal(x.getPort(), p, "port");
		c.equal(x.toString(), s + ":" + std::to_string(p), "text");
		std::map<EndPoint, int> map;
		std::vector<EndPoint> different;
		for (auto& t : texts) for (int q : {2222, 44818}) {
			EndPoint y(t, q);
			if ((x == y) == (x != y) || (x == y) != (y == x)) c.fail("wrong equality of " + x.toString() + " and " + y.toString());
			if ((x < y) + (y < x) != (x == y ? 0 : 1)) c.fail("order and equality disagree for " + x.toString() + " and " + y.toString());
			if (t == s && (q == p) != (x == y)) c.fail("wrong equality of " + x.toString() + " and " + y.toString());
			if (std::find(different.begin(), different.end(), y) == different.end()) different.push_back(y);
			++map[y];
			c.compared();
		}
		c.equal(map.size(), different.size(), "entries");
		c.obs(mix(hash(s), p));
		c.state(mix(hash(s), p));
	});
	r.add("triples", [](Ctx& c) {
		static const std::vector<EndPoint> v = [] { std::vector<EndPoint> r; for (auto& a : some()) r.push_back(make(a, r.size() % 3)); return r; }();
		int i = c.choose(static_cast<int>(v.size()));
		for (size_t j = 0; j < v.size(); ++j) {
			if (!(v[i] < v[j])) continue;
			for (size_t k = 0; k < v.size(); ++k) {
				if (v[j] < v[k] && !(v[i] < v[k])) c.fail("the order is not transitive: " + v[i].toString() + " " + v[j].toString() + " " + v[k].toString());
				c.compared();
			}
		}
		c.obs(i);
		c.state(i);
	});
	r.add("containers", [](Ctx& c) {
		// every order of insertion by a stride
		size_t n = some().size();
		static const std::vector<int> strides = {1, 3, 5, 7, 11, 135};
		int stride = c.pick(strides), form = c.choose(3);
		std::map<EndPoint, size_t> m;
		std::set<EndPoint> s;
		for (size_t i = 0; i < n; ++i) {
			size_t k = i * stride % n;
			m[make(some()[k], form)] = k;
			s.insert(make(some()[k], (form + i) % 3));
			s.insert(make(some()[k], form));
			c.equal(m.size(), i + 1, "entries");
			c.equal(s.size(), i + 1, "elements");
		}
		for (size_t i = 0; i < n; ++i) {
			auto it = m.find(make(some()[i], (form + 1) % 3));
			c.check(it != m.end() && it->second == i, "an entry is lost");
		}
		c.obs(stride);
	});
	r.add("copies", [](Ctx& c) {
		int i = c.choose(static_cast<int>(some().size())), j = c.choose(8);
		A a = some()[i], b = some()[(i + 1 + j) % some().size()];
		EndPoint x = make(a, j % 3), y = make(b, (j + 1) % 3);
		EndPoint copy = x;
		verify(c, copy, a);
		copy = y;
		verify(c, copy, b);
		verify(c, x, a);
		EndPoint moved = std::move(copy);
		verify(c, moved, b);
		c.check(moved == y && moved != x, "a copy differs");
		c.obs(i);
	});
}
