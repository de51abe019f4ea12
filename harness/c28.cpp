// C28: the sockets carry bytes and datagrams unchanged
#include "common.h"
#include "sockets/TCPSocket.h"
#include "sockets/UDPBoundSocket.h"
#include <cerrno>

using namespace eipScanner;
using namespace sim;
using sockets::BaseSocket;
using sockets::EndPoint;
using sockets::TCPSocket;
using sockets::UDPSocket;
using sockets::UDPBoundSocket;

namespace {

struct Peer : TcpPeer {
	Stream* stream = nullptr;
	void onConnect(Stream& s) override { stream = &s; }
};

const uint32_t HARMLESS = F_RECV_SHORT | F_RECV_EINTR | F_SEND_PARTIAL | F_SEND_EINTR | F_CONNECT_EINTR | F_SELECT_EINTR;

} // namespace

void mc::define(Registry& r) {
	int depth = r.tier(4, 5), datagrams = r.tier(3, 4), devs = r.tier(2, 3);
	r.bound(fmt("stream: all histories of %d operations (sending 0, 1, 3 bytes, receiving 0, 1, 2, 5 bytes, arrival of 1 or 4 bytes now or later) with up to %d short, partial or interrupted calls; all pairs of lengths up to 40", depth, devs));
	r.bound("all words of up to 3 of 7 operations, repeated to 1100 (thorough 5000) operations");
	r.bound(fmt("datagrams: all histories of %d operations (arrivals of 0, 1, 5 bytes from two hosts at two sockets, receiving up to 1, 3, 100 bytes with and without sender, sending 0, 1, 3 bytes); all lengths of datagrams at the limits of the buffer", depth));

	r.add("stream histories", [depth](Ctx& c) {
		World w;
		Peer peer;
		w.net.listeners[w.addr] = &peer;
		w.net.faults = HARMLESS;
		TCPSocket s(EndPoint("10.0.0.1", 44818), milliseconds(100));
		c.check(peer.stream != nullptr, "not connected");
		c.check(s.getRemoteEndPoint().toString() == "10.0.0.1:44818", "remote address: " + s.getRemoteEndPoint().toString());
		c.check(w.net.socks.count(s.getSocketFd()) == 1, "the descriptor is not that of the socket");
		s.setRecvTimeout(milliseconds(50));
		c.check(s.getRecvTimeout() == milliseconds(50), "receive timeout");
		Bytes sent, coming; // reference
		size_t taken = 0;
		unsigned seed = 1;
		for (int i = 0; i < depth; ++i) {
			int op = c.choose(11, "operation");
			static const size_t sendSizes[] = {0, 1, 3}, recvSizes[] = {0, 1, 2, 5};
			if (op < 3) {
				Bytes d = pattern(sendSizes[op], seed++);
				s.Send(d);
				sent.insert(sent.end(), d.begin(), d.end());
				c.step(fmt("sending %zu bytes", d.size()));
			} else if (op < 7) {
				size_t n = recvSizes[op - 3];
				Bytes got;
				auto o = attempt([&] { got = s.Receive(n); });
				c.step(fmt("receiving %zu bytes: ", n) + (o.threw ? o.what : hex(got)));
				if (taken + n > coming.size()) {
					c.check(o.threw, "bytes received which were not sent: " + hex(got));
					c.check(peer.stream->sent == sent, "bytes sent: " + show(peer.stream->sent));
					return; // what is left is not specified
				}
				c.check(!o.threw, "receiving fails: " + o.what);
				c.equal(got, Bytes(coming.begin() + taken, coming.begin() + taken + n), "bytes received");
				taken += n;
			} else {
				Bytes d = pattern(op < 9 ? 1 : 4, seed++);
				Time delay = op % 2 ? 0 : 20 * MS;
				peer.stream->push(d, delay);
				coming.insert(coming.end(), d.begin(), d.end());
				c.step(fmt("%zu bytes arrive", d.size()));
			}
			c.equal(peer.stream->sent, sent, "bytes sent");
			c.state(mix(hash(sent), mix(hash(coming), taken)));
		}
		c.obs(sent);
	}, devs);
	r.add("stream lengths", [](Ctx& c) {
		// any cut of what arrives against any cut of what is asked for
		World w;
		Peer peer;
		w.net.listeners[w.addr] = &peer;
		int total = 40, segment = 1 + c.choose(total, "segment"), ask = 1 + c.choose(total, "asked");
		TCPSocket s("10.0.0.1", 44818);
		s.setRecvTimeout(milliseconds(100));
		Bytes data = pattern(total, 3);
		for (int i = 0; i < total; i += segment) peer.stream->push(Bytes(data.begin() + i, data.begin() + std::min(total, i + segment)), (i / segment) * 100 * US);
		Bytes got;
		for (int i = 0; i < total; i += ask) {
			auto part = s.Receive(std::min(ask, total - i));
			c.equal(part.size(), static_cast<size_t>(std::min(ask, total - i)), "length");
			got.insert(got.end(), part.begin(), part.end());
		}
		c.equal(got, data, "bytes received");
		s.Send(Bytes(data.begin(), data.begin() + ask));
		c.equal(peer.stream->sent, Bytes(data.begin(), data.begin() + ask), "bytes sent");
		c.step("streamed");
		c.state(mix(segment, ask));
	});
	r.add("large streams", [](Ctx& c) {
		World w;
		Peer peer;
		w.net.listeners[w.addr] = &peer;
		static const std::vector<int> sizes = {255, 256, 257, 1460, 4096, 65535, 65536, 65537, 200000};
		Bytes data = pattern(c.pick(sizes, "size"));
		TCPSocket s(EndPoint("10.0.0.1", 44818));
		s.setRecvTimeout(milliseconds(100));
		w.net.faults = HARMLESS;
		peer.stream->push(data, c.choose(2) * 10 * MS);
		c.equal(s.Receive(data.size()), data, "bytes received");
		s.Send(data);
		c.equal(peer.stream->sent, data, "bytes sent");
		c.step("streamed");
		c.state(data.size());
	}, devs);
	r.add("ends of streams", [](Ctx& c) {
		// an end or a reset before the last byte is an error; after it, it is not
		World w;
		Peer peer;
		w.net.listeners[w.addr] = &peer;
		TCPSocket s("10.0.0.1", 44818);
		s.setRecvTimeout(milliseconds(100));
		int n = c.choose(9, "bytes"), ask = c.choose(9, "asked"), end = c.choose(3, "end");
		Bytes data = pattern(n);
		if (n) peer.stream->push(data, 0);
		if (end == 1) peer.stream->pushFin(10 * MS);
		if (end == 2) peer.stream->pushRst(10 * MS);
		w.net.faults = HARMLESS;
		Bytes got;
		auto o = attempt([&] { got = s.Receive(ask); });
		c.step(o.threw ? "fails: " + o.what : "received " + hex(got));
		if (ask > n) c.check(o.threw, "bytes received which were not sent: " + show(got));
		else { c.check(!o.threw, "receiving fails: " + o.what); c.equal(got, Bytes(data.begin(), data.begin() + ask), "bytes received"); }
		c.state(mix(n, mix(ask, end)));
	}, devs);

	r.add("datagram histories", [depth = datagrams](Ctx& c) {
		World w;
		w.net.faults = F_RECV_EINTR;
		UDPBoundSocket a(EndPoint("10.0.0.1", 2222)), b("10.0.0.2", 3333);
		UDPSocket plain("10.0.0.3", 44818);
		UDPSocket* socks[] = {&a, &b, &plain};
		uint16_t ports[] = {2222, 3333, 0};
		for (auto s : socks) s->setRecvTimeout(milliseconds(20));
		plain.Send({9});
		c.equal(w.net.sent.size(), size_t(1), "datagrams sent");
		ports[2] = w.net.sent[0].from.port;
		const Addr hosts[] = {{ip("10.0.0.1"), 2222}, {ip("172.16.254.255"), 65535}};
		std::deque<std::pair<Addr, Bytes>> inbox[3]; // reference
		size_t sentCount = 1;
		unsigned seed = 1;
		for (int i = 0; i < depth; ++i) {
			int op = c.choose(3, "arrival, reception, sending"), k = c.choose(3, "socket");
			if (op == 0) {
				static const size_t sizes[] = {1, 0, 5};
				Bytes d = pattern(sizes[c.choose(3, "size")], seed++);
				auto from = hosts[c.choose(2, "host")];
				w.net.datagram(from, ports[k], d, w.net.now());
				inbox[k].push_back({from, d});
				c.step(fmt("%zu bytes for socket %d arrive from ", d.size(), k) + from.str());
			} else if (op == 1) {
				static const size_t sizes[] = {100, 3, 1};
				size_t size = sizes[c.choose(3, "size")];
				bool with = c.choose(2, "with sender");
				EndPoint from("1.2.3.4", 5);
				Bytes got;
				auto o = attempt([&] { got = with ? socks[k]->ReceiveFrom(size, from) : socks[k]->Receive(size); });
				c.step(fmt("reception of up to %zu bytes by socket %d: ", size, k) + (o.threw ? o.what : hex(got)));
				if (inbox[k].empty()) {
					c.check(o.threw, "a datagram which nobody has sent: " + show(got));
					if (with) c.equal(from.toString(), std::string("1.2.3.4:5"), "the sender after a failure");
				} else {
					c.check(!o.threw, "a datagram is not received: " + o.what);
					auto [host, d] = inbox[k].front();
					inbox[k].pop_front();
					c.equal(got, Bytes(d.begin(), d.begin() + std::min(size, d.size())), "datagram");
					if (with) {
						c.equal(from.toString(), host.str(), "sender");
						c.equal(ntohl(from.getAddr().sin_addr.s_addr), host.ip, "address of the sender");
						c.equal(ntohs(from.getAddr().sin_port), host.port, "port of the sender");
						c.check(from == EndPoint(from.getHost(), from.getPort()), "the sender is not an ordinary address");
					}
				}
			} else {
				static const size_t sizes[] = {1, 0, 3};
				Bytes d = pattern(sizes[c.choose(3, "size")], seed++);
				socks[k]->Send(d);
				c.step(fmt("socket %d sends %zu bytes", k, d.size()));
				c.equal(w.net.sent.size(), ++sentCount, "datagrams sent");
				auto& last = w.net.sent.back();
				c.equal(last.data, d, "datagram sent");
				static const char* to[] = {"10.0.0.1:2222", "10.0.0.2:3333", "10.0.0.3:44818"};
				c.equal(last.to.str(), std::string(to[k]), "destination");
				c.equal(last.from.port, ports[k], "source port");
			}
			uint64_t h = sentCount;
			for (auto& q : inbox) { h = mix(h, q.size()); for (auto& [from, d] : q) h = mix(h, mix(from.port, hash(d))); }
			c.state(h);
		}
		for (auto s : socks) c.check(w.net.socks.count(s->getSocketFd()) == 1, "the descriptor is not that of the socket");
	}, devs);
	r.add("datagram lengths", [](Ctx& c) {
		World w;
		UDPBoundSocket s(EndPoint("10.0.0.1", 2222));
		s.setRecvTimeout(milliseconds(20));
		static const std::vector<int> sizes = {0, 1, 2, 255, 256, 257, 503, 504, 505, 1472, 1473, 4096, 65506, 65507};
		int size = c.pick(sizes, "size"), limit = std::max(1, size + c.choose(3, "limit") - 1);
		Bytes data = pattern(size);
		bool with = c.choose(2);
		for (int i = 0; i < 2; ++i) w.net.datagram({ip("10.0.0.1"), 2222}, 2222, i ? Bytes{1, 2} : data, w.net.now());
		EndPoint from("1.2.3.4", 5);
		auto got = with ? s.ReceiveFrom(limit, from) : s.Receive(limit);
		c.equal(got, Bytes(data.begin(), data.begin() + std::min(size, limit)), "datagram");
		got = with ? s.ReceiveFrom(100, from) : s.Receive(100);
		c.equal(got, Bytes{1, 2}, "the next datagram");
		s.Send(data);
		c.equal(w.net.sent.size(), size_t(1), "datagrams sent");
		c.equal(w.net.sent[0].data, data, "datagram sent");
		c.step("carried");
		c.state(mix(size, limit));
	});
	r.add("ports and senders", [](Ctx& c) {
		World w;
		int port = c.choose(2) ? 1 + c.choose(65535, "port") : 65535 - c.choose(3);
		UDPBoundSocket s(EndPoint("10.0.0.1", port));
		s.setRecvTimeout(milliseconds(20));
		Addr from{ip("10.0.0.1") ^ (0x01010101u * (port & 0xff)), static_cast<uint16_t>(port ^ 0x5a5a)};
		w.net.datagram(from, port, {1}, w.net.now());
		EndPoint ep("1.2.3.4", 5);
		c.equal(s.ReceiveFrom(10, ep), Bytes{1}, "datagram");
		c.equal(ep.toString(), from.str(), "sender");
		s.Send({2});
		c.equal(w.net.sent.at(0).to.str(), "10.0.0.1:" + std::to_string(port), "destination");
		c.step("carried");
		c.state(port);
	});
	int many = r.tier(1100, 5000);
	r.add("long", [many](Ctx& c) {
		// sockets which are used for a long time
		World w;
		Peer peer;
		w.net.listeners[w.addr] = &peer;
		TCPSocket s(EndPoint("10.0.0.1", 44818), milliseconds(100));
		UDPBoundSocket u(EndPoint("10.0.0.1", 2222));
		s.setRecvTimeout(milliseconds(50));
		u.setRecvTimeout(milliseconds(50));
		Bytes sent;
		size_t datagrams = 0;
		Word word(c, 7, 3);
		for (int i = 0; i < many; ++i) {
			int l = word[i];
			Bytes d = pattern(1 + i % 9, i);
			if (l == 0) { s.Send(d); sent.insert(sent.end(), d.begin(), d.end()); c.equal(peer.stream->sent.size(), sent.size(), "bytes sent"); }
			if (l == 1) { peer.stream->push(d, 0); c.equal(s.Receive(d.size()), d, "bytes received"); }
			if (l == 2) { peer.stream->push(d, MS); c.equal(s.Receive(d.size()), d, "bytes received"); }
			if (l == 3) { u.Send(d); ++datagrams; c.equal(w.net.sent.size(), datagrams, "datagrams sent"); c.equal(w.net.sent.back().data, d, "datagram sent"); }
			if (l == 4) { w.net.datagram({ip("10.0.0.1"), 2222}, 2222, d, w.net.now()); c.equal(u.Receive(20), d, "datagram"); }
			if (l == 5) {
				Addr a{ip("10.0.0.0") + (i & 0xffff), static_cast<uint16_t>(1 + i)};
				w.net.datagram(a, 2222, d, w.net.now());
				EndPoint from("1.2.3.4", 5);
				c.equal(u.ReceiveFrom(20, from), d, "datagram");
				c.equal(from.toString(), a.str(), "sender");
			}
			if (l == 6) {
				Bytes got;
				auto o = attempt([&] { got = u.Receive(20); });
				c.check(o.threw, "a datagram which nobody has sent: " + show(got));
			}
			if (i % 64 == 0) c.alive();
		}
		c.equal(peer.stream->sent, sent, "bytes sent");
		c.step("carried");
		c.state(mix(hash(sent), datagrams));
	});
}
