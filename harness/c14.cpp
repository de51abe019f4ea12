// C14: uploads of files
#include "common.h"
#include "FileObject.h"

using namespace eipScanner;

namespace {

enum Behaviour { GOOD, REFUSED, NUMBER_UP, NUMBER_DOWN, NUMBER_FAR, CUT_ONE, CUT_ALL, ONE_MORE, EARLY_LAST, LATE_LAST, ABORT, UNKNOWN_TYPE, EMPTY_REPLY, ONE_BYTE, ENCAPSULATION, SWALLOW, BEHAVIOURS };
const char* NAMES[] = {"good", "refused", "number + 1", "number - 1", "number + 128", "one byte less", "no data", "one byte more", "early last", "late last", "abort", "unknown type", "empty reply", "one byte reply", "encapsulation error", "skipped bytes"};

struct Transfer { int number, type; Bytes data; bool crc = true; };

struct Rig {
	Ctx& c;
	World w;
	std::shared_ptr<SessionInfo> si;
	std::unique_ptr<FileObject> file;
	int instance = 0xC8;

	// the device
	int stateCode = 2;
	uint8_t stateStatus = 0;
	int stateCut = 0;
	Bytes content;
	uint32_t announced = 0;
	uint8_t transferSize = 255;
	std::function<int(int)> behaviour; // of the n-th transfer
	uint8_t initiateStatus = 0;
	int initiateCut = 0, initiateSurplus = 0;
	bool initiateEncapsulation = false;
	size_t pos = 0;
	int next = 0;           // number of the transfer to be asked for
	bool good = true;       // so far
	bool broken = false;    // this upload must not succeed
	bool encapsulationError = false;
	Bytes delivered;        // all the bytes the device has sent
	int initiated = 0;

	// the program
	int called = 0;
	int status = -1;
	Bytes received;

	explicit Rig(Ctx& ctx) : c(ctx) {
		w.net.horizon = 5000000;
		w.dev.onCip = [this](const ref::CipRequest& q) { return cip(q); };
		w.dev.onFrame = [this](sim::Stream& s, const ref::Frame& f) {
			if (f.command != ref::SEND_RR) return false;
			ref::CipRequest q;
			std::string p;
			if (!ref::Device::parseRequest(f, q, p)) return false;
			if (q.service == 0x4F && behaviour && pending() == ENCAPSULATION) encapsulationError = true;
			else if (q.service == 0x4B && initiateEncapsulation) encapsulationError = true;
			else return false;
			good = false;
			broken = true;
			s.push(ref::encap(f.command, f.session, 0x65, {}, f.context), 50000);
			return true;
		};
		si = w.session();
	}
	int chosen = -1;
	int pending() {
		if (chosen < 0) chosen = behaviour(next);
		return chosen;
	}
	ref::CipReply cip(const ref::CipRequest& q) {
		if (q.is(0x0E, 0x37, instance, 1)) {
			if (stateStatus) return ref::CipReply::error(stateStatus);
			Bytes b{static_cast<uint8_t>(stateCode)};
			b.resize(1 - stateCut);
			return ref::CipReply(b);
		}
		if (q.is(0x4B, 0x37, instance)) {
			++initiated;
			c.equal(q.data.size(), size_t(1), "argument of the initiation");
			if (initiateStatus) { broken = true; good = false; return ref::CipReply::error(initiateStatus, {0x1234}); }
			Bytes b = ref::W().u32(announced).u8(transferSize);
			b.resize(b.size() - initiateCut);
			if (initiateCut) { broken = true; good = false; }
			for (int i = 0; i < initiateSurplus; ++i) b.push_back(0xEE);
			return ref::CipReply(b);
		}
		if (q.is(0x4F, 0x37, instance)) {
			if (q.data != Bytes{static_cast<uint8_t>(next)}) c.fail(fmt("transfer %d is asked for with ", next) + hex(q.data));
			int b = pending();
			chosen = -1;
			return transfer(b);
		}
		w.dev.problem("unexpected request " + q.str());
		return ref::CipReply::error(8);
	}
	ref::CipReply transfer(int b) {
		c.step(fmt("transfer %d: %s", next, NAMES[b]));
		size_t left = content.size() - pos;
		size_t n = std::min<size_t>(left, transferSize);
		bool last = n == left;
		int type = last ? (next ? 2 : 4) : next ? 1 : 0;
		int number = next & 255;
		bool before = good, cut = false;
		if (b != GOOD) good = false;
		switch (b) {
			case REFUSED: broken = true; return ref::CipReply::error(0x10 + next % 3, next % 2 ? std::vector<uint16_t>{7} : std::vector<uint16_t>{});
			case NUMBER_UP: number = (number + 1) & 255; broken = true; break;
			case NUMBER_DOWN: number = (number - 1) & 255; broken = true; break;
			case NUMBER_FAR: number = (number + 128) & 255; broken = true; break;
			case CUT_ONE: if (n) { --n; broken = broken || !last; cut = true; } break;
			case CUT_ALL: if (n) { n = 0; broken = broken || !last; cut = true; } break;
			case ONE_MORE: broken = broken || !last; break;
			case EARLY_LAST: type = next ? 2 : 4; if (last && n) { --n; cut = true; } break;
			case LATE_LAST: type = next ? 1 : 0; if (last && n < transferSize) broken = true; break; // further packets follow
			case ABORT: broken = true; return ref::CipReply({static_cast<uint8_t>(number), 3});
			case UNKNOWN_TYPE: broken = true; type = next % 2 ? 5 : 255; break;
			case EMPTY_REPLY: broken = true; return ref::CipReply(Bytes{});
			case ONE_BYTE: broken = true; return ref::CipReply(Bytes{static_cast<uint8_t>(number)});
			case SWALLOW: if (left > n) { ++pos; cut = true; } else if (n) { ++pos; --n; cut = true; } break;
		}
		if ((b == CUT_ONE || b == CUT_ALL || b == SWALLOW) && !cut) good = before;
		if (b == LATE_LAST && !last) good = before;
		if (b == EARLY_LAST && last && !cut) good = before;
		ref::W r;
		r.u8(number).u8(type);
		Bytes part(content.begin() + pos, content.begin() + pos + n);
		if (b == ONE_MORE) part.push_back(0xAA);
		r.raw(part);
		if (type == 2 || type == 4) r.u16(0xBEEF);
		delivered.insert(delivered.end(), part.begin(), part.end());
		pos += n;
		++next;
		return ref::CipReply(r);
	}
	void begin(std::function<void()> inCallback = {}) {
		pos = 0;
		next = 0;
		good = true;
		broken = encapsulationError = false;
		delivered.clear();
		called = 0;
		status = -1;
		received.clear();
		chosen = -1;
		file->beginUpload(si, [this, inCallback](cip::GeneralStatusCodes s, const std::vector<uint8_t>& d) {
			++called;
			status = s;
			received = d;
			if (inCallback) inCallback();
		});
	}
	/// Runs the upload to its end; returns false if it ended by an exception
	bool upload(int limit = 100) {
		auto o = attempt([&] {
			begin();
			int n = 0;
			while (file->handleTransfers(si)) {
				c.check(called == 0, "the transfers go on after the end of the upload");
				if (++n > limit) c.fail(fmt("the transfer loop goes on after %d transfers", n));
				if (n % 500 == 0) c.alive();
			}
		});
		outcome(o);
		return !o.threw;
	}
	void outcome(const Outcome& o) {
		c.step(o.threw ? "raises " + o.what : fmt("status %d, %zu bytes", status, received.size()));
		c.equal(called + o.threw, 1, "number of outcomes (calls of the listener and exceptions)");
		if (encapsulationError) c.check(o.threw, "a failing exchange raises nothing");
		if (called) {
			if (status == 0) {
				c.check(!broken, "success is reported for a failed upload");
				if (received != delivered) c.fail("success with wrong content: " + show(received) + " instead of " + show(delivered));
				c.equal(received.size(), size_t(announced), "size of the file");
				if (good) c.equal(received, content, "content");
				c.compared();
			} else {
				c.check(!good, fmt("failure %d is reported for a good upload", status));
				c.check(received.empty(), "data are reported for a failed upload");
			}
		} else c.check(!good, "a good upload raises " + o.what);
		for (auto& p : w.dev.problems) c.fail("the device received a wrong message: " + p);
		c.obs(mix(called, mix(status + 1, mix(o.threw, hash(received)))));
		c.state(mix(mix(next, status), mix(broken, o.threw)));
	}
	/// After the outcome
	void idle() {
		int before = called;
		auto o = attempt([&] { c.check(!file->handleTransfers(si), "the transfer loop goes on after the outcome"); });
		c.check(!o.threw, "idle transfer handling raises " + o.what);
		c.equal(called, before, "outcomes of the finished upload");
	}
	void create() {
		file = std::make_unique<FileObject>(instance, si);
	}
	void set(size_t size, int chunk, unsigned seed = 3) {
		content = pattern(size, seed);
		announced = size;
		transferSize = chunk;
	}
};

const std::vector<int> SIZES = {0, 1, 9, 10, 11, 19, 20, 21, 30, 35};

} // namespace

void mc::define(Registry& r) {
	r.bound("all histories of up to 6 transfers over 16 behaviours of the device at each transfer, file sizes around the multiples of the transfer size");
	r.bound("all well-behaved uploads with up to 3 x 256 transfers around the wrap-arounds; sequences of 2 (thorough: 3) uploads of one object; all state codes; all truncations of the replies; announced sizes which differ");
	r.bound(fmt("all sequences of up to %d packets of the 5 types and an unknown one, of two sizes, with an announced size that is the sum of any consecutive ones", r.tier(3, 4)));
	r.bound("all words of up to 2 of 7 kinds of uploads, repeated to 300 (thorough 1000) uploads of one object");

	r.add("behaviours", [](Ctx& c) {
		Rig g(c);
		g.set(c.pick(SIZES, "size"), 10);
		g.behaviour = [&](int n) { return n < 6 ? c.choose(BEHAVIOURS, "behaviour") : GOOD; };
		g.create();
		g.upload();
		if (!g.encapsulationError) g.idle();
	});
	int uploads = r.tier(2, 3);
	int types = r.tier(3, 4);
	r.add("several uploads", [uploads](Ctx& c) {
		Rig g(c);
		g.create();
		static const std::vector<int> few = {GOOD, REFUSED, NUMBER_UP, CUT_ONE, EARLY_LAST, LATE_LAST, ABORT, EMPTY_REPLY};
		for (int i = 0; i < uploads; ++i) {
			static const std::vector<int> sizes = {0, 15, 20, 33};
			g.set(c.pick(sizes), 10, 7 + i);
			int at = c.choose(3), b = c.pick(few);
			if (b == GOOD && at) at = 9;
			g.behaviour = [at, b](int n) { return n == at ? b : GOOD; };
			g.initiateStatus = i < 2 && at == 1 && b == REFUSED ? 2 : 0;
			bool ended = g.upload();
			if (ended && c.choose(2)) g.idle();
		}
	});
	r.add("upload from the listener", [](Ctx& c) {
		// the listener begins the next upload
		Rig g(c);
		g.create();
		g.set(25, 10);
		int b = c.choose(ABORT);
		int at = c.choose(3);
		g.behaviour = [at, b](int n) { return n == at ? b : GOOD; };
		Bytes second = pattern(31, 9);
		int finished = 0;
		Bytes result;
		g.begin([&] {
			c.step("next upload");
			g.content = second;
			g.announced = second.size();
			g.pos = 0;
			g.next = 0;
			g.chosen = -1;
			g.behaviour = [](int) { return GOOD; };
			g.file->beginUpload(g.si, [&](cip::GeneralStatusCodes s, const std::vector<uint8_t>& d) { ++finished; c.equal(static_cast<int>(s), 0, "status of the second upload"); result = d; });
		});
		for (int i = 0; i < 20; ++i) g.file->handleTransfers(g.si);
		c.equal(g.called, 1, "outcomes of the first upload");
		c.equal(finished, 1, "outcomes of the second upload");
		c.equal(result, second, "content of the second upload");
		c.check(!g.file->handleTransfers(g.si), "the loop goes on");
	});
	r.add("long", [](Ctx& c) {
		Rig g(c);
		static const std::vector<int> chunks = {255, 1, 100, 2, 254};
		static const std::vector<int> counts = {1, 2, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 768, 769};
		int chunk = c.pick(chunks), n = c.pick(counts), rest = c.choose(3);
		g.set(static_cast<size_t>(chunk) * (n - 1) + (rest == 0 ? chunk : rest == 1 ? 1 : (chunk + 1) / 2), chunk, n);
		g.behaviour = [](int) { return GOOD; };
		g.create();
		g.upload(n + 2);
		c.equal(g.status, 0, "status");
		g.idle();
	});
	r.add("long with an error", [](Ctx& c) {
		Rig g(c);
		static const std::vector<int> at = {0, 1, 127, 254, 255, 256, 257, 299};
		int bad = c.pick(at), b = c.choose(BEHAVIOURS);
		g.set(5 * 300 - 2, 5);
		g.behaviour = [=](int n) { return n == bad ? b : GOOD; };
		g.create();
		g.upload(310);
	});
	r.add("chunks", [](Ctx& c) {
		// every transfer size, small files
		Rig g(c);
		int chunk = 1 + c.choose(255);
		g.behaviour = [](int) { return GOOD; };
		g.create();
		for (int size : {0, 1, chunk - 1, chunk, chunk + 1, 2 * chunk, 3 * chunk - 1}) {
			g.set(size, chunk, size);
			g.initiateSurplus = size % 2;
			g.upload();
			c.equal(g.status, 0, "status");
		}
	});
	r.add("announced size", [](Ctx& c) {
		// differs from what is sent
		Rig g(c);
		g.set(c.pick(SIZES), 10);
		static const std::vector<int64_t> other = {-1, 1, 10, -10, 256, 65536, 16777216, 0x7fffffff, 0xffffffffll};
		int64_t a = static_cast<int64_t>(g.announced) + c.pick(other);
		if (a < 0) a = 99;
		g.announced = static_cast<uint32_t>(a);
		g.behaviour = [](int) { return GOOD; };
		g.create();
		bool same = g.announced == g.content.size();
		auto o = attempt([&] { g.begin(); if (!same) { g.broken = true; g.good = false; } int n = 0; while (g.file->handleTransfers(g.si)) if (++n > 20) c.fail("the loop goes on"); });
		g.outcome(o);
	});
	r.add("packet types", [types](Ctx& c) {
		// any packets of any types; the announced size is that of any of them in a row
		Rig g(c);
		int n = 1 + c.choose(types, "packets");
		std::vector<int> kind(n), size(n);
		for (int i = 0; i < n; ++i) { kind[i] = c.choose(6, "type"); if (kind[i] == 5) kind[i] = 255; bool last = kind[i] == 2 || kind[i] == 4; size[i] = last ? c.choose(2) * 7 : 10 - (i == 1 && c.choose(2)); }
		// the sum of any packets following each other
		int from = c.choose(n, "announced"), to = from + c.choose(n - from);
		size_t announced = 0, sum = 0;
		for (int i = from; i <= to; ++i) announced += size[i];
		g.set(announced, 10);
		g.create();
		auto inner = g.w.dev.onCip;
		int sent = 0;
		bool wellFormed = true, ended = false;
		g.w.dev.onCip = [&](const ref::CipRequest& q) {
			if (q.service != 0x4F) return inner(q);
			if (ended || sent == n) { g.broken = true; g.good = false; return ref::CipReply::error(0x0c); }
			if (q.data != Bytes{static_cast<uint8_t>(sent)}) c.fail(fmt("transfer %d is asked for with ", sent) + hex(q.data));
			int t = kind[sent];
			Bytes part = pattern(size[sent], 40 + sent);
			c.step(fmt("type %d with %d bytes", t, size[sent]));
			if (t == 3 || t == 255 || (t < 2 && size[sent] < 10)) g.broken = true;
			if ((t == 0 || t == 4) != (sent == 0)) wellFormed = false;
			ended = t == 2 || t == 4;
			sum += part.size();
			g.delivered.insert(g.delivered.end(), part.begin(), part.end());
			ref::W r;
			r.u8(sent).u8(t).raw(part);
			if (ended) r.u16(0xBEEF);
			++sent;
			g.good = wellFormed && ended && sum == announced && !g.broken;
			return ref::CipReply(r);
		};
		auto o = attempt([&] {
			g.begin();
			g.good = false; // until the end
			g.content.clear();
			int i = 0;
			while (g.file->handleTransfers(g.si)) if (++i > 2 * n + 2) c.fail("the loop goes on");
		});
		if (g.good) g.content = g.delivered;
		g.outcome(o);
		if (!o.threw) g.idle();
	});
	r.add("initiation", [](Ctx& c) {
		Rig g(c);
		g.set(c.choose(2) ? 15 : 7, 10);
		g.behaviour = [](int) { return GOOD; };
		g.create();
		int k = c.choose(256 + 7);
		if (k < 256) g.initiateStatus = k;
		else if (k < 262) g.initiateCut = k - 256;
		else g.initiateEncapsulation = true;
		if (g.initiateCut > 5) g.initiateCut = 5;
		bool ended = g.upload();
		if (ended) g.idle();
		if (ended || g.initiateEncapsulation) {
			g.initiateStatus = 0;
			g.initiateCut = 0;
			g.initiateEncapsulation = false;
			g.upload();
			c.equal(g.status, 0, "status of the second attempt");
		}
	});
	r.add("refusals", [](Ctx& c) {
		// every status of a transfer is an outcome
		Rig g(c);
		g.set(15, 10);
		int status = 1 + c.choose(255), at = c.choose(2);
		g.create();
		auto inner = g.w.dev.onCip;
		g.w.dev.onCip = [&](const ref::CipRequest& q) {
			if (q.service == 0x4F && q.data == Bytes{static_cast<uint8_t>(at)}) { g.good = false; g.broken = true; return ref::CipReply::error(status); }
			return inner(q);
		};
		g.behaviour = [](int) { return GOOD; };
		g.upload();
		g.idle();
	});
	r.add("truncated replies", [](Ctx& c) {
		// every length of the reply to each transfer
		Rig g(c);
		g.set(25, 10);
		int at = c.choose(3), keep = c.choose(16);
		g.create();
		auto inner = g.w.dev.onCip;
		g.w.dev.onCip = [&](const ref::CipRequest& q) {
			auto r = inner(q);
			if (q.service == 0x4F && q.data == Bytes{static_cast<uint8_t>(at)} && static_cast<int>(r.data.size()) != keep) {
				g.good = false;
				g.broken = true;
				r.data.resize(keep, 0x77);
			}
			return r;
		};
		g.behaviour = [](int) { return GOOD; };
		g.upload();
		g.idle();
	});
	r.add("states", [](Ctx& c) {
		Rig g(c);
		g.set(15, 10);
		g.behaviour = [](int) { return GOOD; };
		int k = c.choose(256 + 256 + 1);
		if (k < 256) g.stateCode = k;
		else if (k < 512) g.stateStatus = k - 256;
		else g.stateCut = 1;
		static const std::vector<int> instances = {0xC8, 0, 1, 255, 256, 0xC9, 65535};
		g.instance = c.pick(instances);
		auto o = attempt([&] { g.create(); });
		bool known = g.stateCode <= 3 || g.stateCode == 5;
		bool fine = known && !g.stateStatus && !g.stateCut;
		c.check(o.threw == !fine, o.threw ? "the state is refused: " + o.what : "a wrong state is accepted");
		c.step("created");
		if (!fine) return;
		if (g.stateCode < 2) {
			// nothing to upload
			auto o2 = attempt([&] { g.begin(); g.good = false; g.broken = true; });
			g.outcome(o2);
			c.equal(g.initiated, 0, "initiations");
			if (!o2.threw) g.idle();
			return;
		}
		g.upload();
		c.equal(g.status, 0, "status");
		g.idle();
	});
	int many = r.tier(300, 1000);
	r.add("many uploads", [many](Ctx& c) {
		// of one object, whatever became of the ones before
		Rig g(c);
		g.create();
		static const std::vector<int> few = {GOOD, REFUSED, NUMBER_UP, CUT_ONE, LATE_LAST, ABORT};
		Word word(c, 7, 2);
		for (int i = 0; i < many; ++i) {
			int l = word[i], b = l < 6 ? few[l] : GOOD;
			g.set(i * 7 % 33, 10, 7 + i);
			g.behaviour = [b](int n) { return n == 1 ? b : GOOD; };
			g.initiateStatus = l == 6 ? 2 : 0;
			bool ended = g.upload();
			if (ended && i % 3 == 0) g.idle();
			if (i % 16 == 0) c.alive();
		}
	});
}
