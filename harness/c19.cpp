// C19: faults of drives
#include "common.h"
#include "vendor/ra/powerFlex525/DPIFaultManager.h"
#include "vendor/ra/powerFlex525/DPIFaultObject.h"
#include "vendor/ra/powerFlex525/DPIFaultCode.h"
#include <cmath>

using namespace eipScanner;
using namespace eipScanner::vendor::ra::powerFlex525;

namespace {

// the published table of the drive
const std::vector<std::pair<int, const char*>> CODES = {{2, "Heatsink OvrTmp"}, {3, "Power Loss"}, {4, "UnderVoltage"}, {5, "OverVoltage"}, {6, "Motor Stalled"}, {7, "Motor Overload"}, {8, "Heatsink OvrTmp"},
	{9, "CC OvrTmp"}, {12, "HW OverCurrent"}, {13, "Ground Fault"}, {15, "Load Loss"}, {21, "Output Ph Loss"}, {29, "Analog In Loss"}, {33, "Auto Rstrt Tries"}, {38, "Phase U to Gnd"}, {39, "Phase V to Gnd"},
	{40, "Phase W to Gnd"}, {41, "Phase UV Short"}, {42, "Phase UW Short"}, {43, "Phase VW Short"}, {48, "Params Defaulted"}, {59, "Safety Open"}, {63, "SW OverCurrent"}, {64, "Drive Overload"}, {70, "Power Unit"},
	{71, "DSI Net Loss"}, {72, "Opt Net Loss"}, {73, "EN Net Loss"}, {80, "Autotune Failure"}, {81, "DSI Comm Loss"}, {82, "Opt Comm Loss"}, {83, "EN Comm Loss"}, {91, "Encoder Loss"}, {94, "Function Loss"},
	{100, "Parameter Chksum"}, {101, "External Storage"}, {105, "C Connect Err"}, {106, "Incompat C-P"}, {107, "Replaced C-P"}, {109, "Mismatch C-P"}, {110, "Keypad Membrane"}, {111, "Safety Hardware"}, {114, "uC Failure"},
	{122, "I/O Board Fail"}, {125, "Flash Update Req"}, {126, "NonRecoverablErr"}, {127, "DSIFlashUpdatReq"}};

int codeParam(int slot) { return slot <= 3 ? 6 + slot : 600 + slot; }
int freqParam(int slot) { return 630 + slot; }
int currParam(int slot) { return 640 + slot; }
int voltParam(int slot) { return 650 + slot; }

struct Slot { uint16_t code = 0, volts = 0, current = 0, frequency = 0; };

struct Rig {
	Ctx& c;
	World w;
	std::shared_ptr<SessionInfo> si;
	std::map<int, Slot> slots;
	bool clearing = true, reset = false, details = false;
	std::map<int, std::function<ref::CipReply()>> wrong; // per parameter; 0: the clear command
	struct Event { char kind; int slot; };
	std::vector<Event> events; // R: a report, C: the clear command, F: a wrong reply
	std::vector<int> readParams;
	std::function<void(int)> inListener;
	std::unique_ptr<DPIFaultManager> m;

	explicit Rig(Ctx& ctx) : c(ctx) {
		for (int s = 1; s <= 10; ++s) slots[s] = Slot();
		w.dev.onCip = [this](const ref::CipRequest& q) { return cip(q); };
		si = w.session();
	}
	ref::CipReply cip(const ref::CipRequest& q) {
		if (q.service == 0x0E && q.path.cls == 0x0F && q.path.attr == 1 && q.data.empty()) {
			int p = q.path.inst;
			readParams.push_back(p);
			if (wrong.count(p)) { events.push_back({'F', p}); return wrong[p](); }
			for (auto& [n, s] : slots) {
				int v = p == codeParam(n) ? s.code : p == voltParam(n) ? s.volts : p == currParam(n) ? s.current : p == freqParam(n) ? s.frequency : -1;
				if (v >= 0) return ref::CipReply(ref::W().u16(v));
			}
		}
		if (q.service == 0x10 && q.path.cls == 0x97 && q.path.inst == 0 && q.path.attr == 3 && q.data == Bytes{2}) {
			events.push_back({'C', 0});
			if (wrong.count(0)) return wrong[0]();
			return ref::CipReply();
		}
		w.dev.problem("unexpected request " + q.str());
		return ref::CipReply::error(8);
	}
	void create() {
		m = std::make_unique<DPIFaultManager>(clearing, reset, details);
		m->setNewFaultListener([this](const DPIFaultParameter& f) {
			auto d = f.getFaultDetails();
			auto& x = slots[d.faultNumber];
			c.check(d.faultNumber >= 1 && d.faultNumber <= 10, "wrong number of a fault");
			c.equal(d.faultCode, x.code, fmt("code of fault %d", d.faultNumber));
			bool known = false;
			for (auto& k : CODES) if (k.first == x.code) {
				known = true;
				auto text = f.getFullInformation().faultDescription.faultText;
				text.erase(0, text.find_first_not_of(' '));
				c.equal(text, std::string(k.second), fmt("text of the fault code %d", x.code));
				c.check(!f.getFullInformation().faultDescription.faultDescription.empty(), "no description");
			}
			c.check(known, "an unknown code is reported");
			auto near = [](double a, double b) { return std::fabs(a - b) < 1e-9; };
			if (details) {
				if (!near(d.busVoltage, x.volts)) c.fail(fmt("bus voltage of fault %d is %.17g instead of %u", d.faultNumber, d.busVoltage, x.volts));
				if (!near(d.current, x.current / 100.0)) c.fail(fmt("current of fault %d is %.17g instead of %u/100", d.faultNumber, d.current, x.current));
				if (!near(d.frequency, x.frequency / 100.0)) c.fail(fmt("frequency of fault %d is %.17g instead of %u/100", d.faultNumber, d.frequency, x.frequency));
				c.compared();
			}
			c.step(fmt("fault %d", d.faultNumber));
			events.push_back({'R', d.faultNumber});
			if (inListener) inListener(d.faultNumber);
		});
	}
	/// Handles the queue and compares with the expected events
	void handle(bool withRouter = false) {
		if (!m) create();
		events.clear();
		readParams.clear();
		auto o = attempt([&] {
			if (withRouter) m->handleFaultParameters(si, std::make_shared<MessageRouter>());
			else m->handleFaultParameters(si);
		});
		c.step(o.threw ? "raises " + o.what : "handled");
		w.conforming(c);
		// expected
		std::vector<Event> e;
		bool fails = false;
		int count = 0;
		auto bad = [&](int p) { if (!fails && wrong.count(p)) { fails = true; e.push_back({'F', p}); } return fails; };
		for (int s = 1; s <= 10 && !fails; ++s) {
			if (bad(codeParam(s)) || slots[s].code == 0) break;
			if (details) {
				// the order of the readings of a slot is not specified: one failing reading at most is planned per slot
				for (int p : {voltParam(s), currParam(s), freqParam(s)}) bad(p);
				if (fails) break;
			}
			bool known = false;
			for (auto& k : CODES) known = known || k.first == slots[s].code;
			if (!known) { fails = true; break; }
			++count;
			e.push_back({'R', s});
		}
		if (!fails && clearing && count > 0) { e.push_back({'C', 0}); if (wrong.count(0)) fails = true; }
		auto str = [](const std::vector<Event>& v) { std::string s; for (auto& x : v) s += fmt("%c%d ", x.kind, x.slot); return s; };
		if (str(e) != str(events)) c.fail("events " + str(events) + "instead of " + str(e));
		c.equal(o.threw, fails, "the handling raises (" + o.what + ")");
		// each reading at most once
		auto sorted = readParams;
		std::sort(sorted.begin(), sorted.end());
		c.check(std::adjacent_find(sorted.begin(), sorted.end()) == sorted.end(), "a parameter is read twice");
		c.obs(str(events));
		uint64_t h = mc::hash(str(events));
		for (auto& [n, s] : slots) h = mix(h, mix(s.code, mix(s.volts, mix(s.current, s.frequency))));
		c.state(h);
	}
	void fill(int n) {
		for (int s = 1; s <= 10; ++s) {
			slots[s].code = s <= n ? CODES[(s * 5) % CODES.size()].first : 0;
			slots[s].volts = 300 + s;
			slots[s].current = 1000 + s * 10 + 1;
			slots[s].frequency = 5000 + s * 7;
		}
	}
	void modes() { clearing = c.choose(2); reset = c.choose(2); details = c.choose(2); }
	std::function<ref::CipReply()> badReply(int kind) {
		switch (kind) {
			case 0: return [] { return ref::CipReply::error(0x14); };
			case 1: return [] { return ref::CipReply::error(0x05, {0x1122}); };
			case 2: return [] { return ref::CipReply(Bytes{}); };
			default: return [] { return ref::CipReply(Bytes{7}); };
		}
	}
};

} // namespace

void mc::define(Registry& r) {
	int depth = r.tier(3, 4);
	bool thorough = r.thorough();
	r.bound("all fill levels 0..10 (also with faults behind an empty slot), all modes, all the fault codes of the drive in each slot, all codes below 512 and every 32nd of 65536 (thorough: all) in the first two slots, all values of each byte of voltage, current and frequency (thorough: all the values)");
	r.bound("each request (code, voltage, current, frequency of each slot, clear command) refused or answered too short");
	r.bound(fmt("all histories of %d handlings with fill levels and failures; all attributes of fault records, every truncation", depth));
	r.bound("all words of up to 2 of 6 kinds of handlings, repeated to 300 (thorough 1000) handlings by one manager");

	r.add("fill levels", [](Ctx& c) {
		Rig g(c);
		g.modes();
		int n = c.choose(11);
		g.fill(n);
		// faults behind an empty slot are not looked at
		if (n < 9 && c.choose(2)) for (int s = n + 2; s <= 10; ++s) g.slots[s].code = 5;
		g.handle(c.choose(2));
		g.handle();
	});
	r.add("codes", [](Ctx& c) {
		Rig g(c);
		g.details = c.choose(2);
		g.fill(10);
		int s = 1 + c.choose(10);
		g.slots[s].code = CODES[c.choose(static_cast<int>(CODES.size()))].first;
		g.handle();
	});
	r.add("all codes", [thorough](Ctx& c) {
		Rig g(c);
		int high = c.choose(256), slot = 1 + c.choose(2), part = c.choose(8);
		for (int low = part * 32; low < part * 32 + (thorough || high < 2 ? 32 : 1); ++low) {
			g.fill(slot);
			g.slots[slot].code = high << 8 | low;
			g.handle();
		}
	});
	r.add("unknown codes", [](Ctx& c) {
		// in every slot
		static const std::vector<int> codes = {0xffff, 0xfffe, 0x8000, 0x7fff, 0x0100, 0x0102, 0x7f00, 0xff00, 0x0200, 0x0302, 255, 128, 130, 1, 10, 11, 14, 103, 104, 108, 0x1004, 0x8004, 0xff7f};
		Rig g(c);
		g.modes();
		int n = 1 + c.choose(10), slot = 1 + c.choose(n);
		g.fill(n);
		g.slots[slot].code = c.pick(codes);
		g.handle(c.choose(2));
		g.fill(n);
		g.handle();
	});
	r.add("description of codes", [](Ctx& c) {
		int n = c.choose(static_cast<int>(CODES.size()) + 1);
		if (n == static_cast<int>(CODES.size())) { c.check(!attempt([] { DPIFaultCode(0).getFaultDescription(); }).threw, "no description of no fault"); return; }
		auto d = DPIFaultCode(CODES[n].first).getFaultDescription();
		d.faultText.erase(0, d.faultText.find_first_not_of(' '));
		c.equal(d.faultText, std::string(CODES[n].second), "text");
		c.check(d.faultType == 1 || d.faultType == 2, "type");
		c.obs(d.faultDescription);
	});
	r.add("values", [](Ctx& c) {
		Rig g(c);
		g.details = true;
		g.clearing = false;
		int s = 1 + c.choose(10), which = c.choose(6), high = c.choose(16);
		g.fill(s);
		for (int low = 0; low < 16; ++low) {
			uint16_t& v = which % 3 == 0 ? g.slots[s].volts : which % 3 == 1 ? g.slots[s].current : g.slots[s].frequency;
			v = which < 3 ? (v & 0xff00) | high << 4 | low : (v & 0xff) | (high << 12 | low << 8);
			g.handle();
		}
	});
	if (thorough) r.add("all values", [](Ctx& c) {
		Rig g(c);
		g.details = true;
		g.clearing = false;
		int high = c.choose(256), part = c.choose(8);
		for (int low = part * 32; low < part * 32 + 32; ++low) {
			g.fill(1);
			g.slots[1].volts = high << 8 | low;
			g.slots[1].current = low << 8 | high;
			g.slots[1].frequency = 0xffff - (high << 8 | low);
			g.handle();
		}
	});
	r.add("failing readings", [](Ctx& c) {
		Rig g(c);
		g.modes();
		int n = c.choose(11), s = 1 + c.choose(10), which = c.choose(4), kind = c.choose(4);
		g.fill(n);
		int p = which == 0 ? codeParam(s) : which == 1 ? voltParam(s) : which == 2 ? currParam(s) : freqParam(s);
		g.wrong[p] = g.badReply(kind);
		g.handle(c.choose(2));
		// later everything is fine
		g.wrong.clear();
		g.handle();
	});
	r.add("statuses", [](Ctx& c) {
		Rig g(c);
		g.details = true;
		g.fill(2);
		int status = 1 + c.choose(255), which = c.choose(6);
		int p = which == 0 ? codeParam(1) : which == 1 ? voltParam(1) : which == 2 ? currParam(2) : which == 3 ? freqParam(2) : which == 4 ? codeParam(3) : 0;
		g.wrong[p] = [status] { return ref::CipReply::error(status); };
		g.handle();
	});
	r.add("histories", [depth](Ctx& c) {
		Rig g(c);
		g.clearing = c.choose(2);
		g.details = c.choose(2);
		for (int i = 0; i < depth; ++i) {
			int what = c.choose(7);
			static const int levels[] = {0, 1, 2, 10, 2, 2, 2};
			g.fill(levels[what]);
			g.wrong.clear();
			if (what == 4) g.wrong[codeParam(2)] = g.badReply(i);
			if (what == 5) g.wrong[0] = g.badReply(0);
			if (what == 6) g.wrong[codeParam(3)] = g.badReply(3);
			g.handle(i % 2);
		}
	});
	int many = r.tier(300, 1000);
	r.add("long", [many](Ctx& c) {
		// one manager handles the queue again and again
		Rig g(c);
		g.clearing = c.choose(2);
		g.details = c.choose(2);
		static const int levels[] = {0, 1, 3, 10, 2, 2};
		Word word(c, 6, 2);
		for (int i = 0; i < many; ++i) {
			int what = word[i];
			g.fill(levels[what]);
			g.wrong.clear();
			if (what == 4) g.wrong[codeParam(2)] = g.badReply(i % 4);
			if (what == 5) g.wrong[0] = g.badReply(i % 2);
			g.handle(i % 3 == 1);
			if (i % 16 == 0) c.alive();
		}
	});
	r.add("raising listener", [](Ctx& c) {
		// an exception of the listener ends the handling, nothing is cleared
		Rig g(c);
		g.clearing = true;
		g.details = c.choose(2);
		int n = 1 + c.choose(10), at = 1 + c.choose(n);
		g.fill(n);
		g.create();
		g.inListener = [at](int s) { if (s == at) throw std::runtime_error("of the listener"); };
		auto o = attempt([&] { g.m->handleFaultParameters(g.si); });
		c.check(o.threw && o.what == "of the listener", "the exception of the listener is lost");
		c.equal(g.events.size(), static_cast<size_t>(at), "events");
		for (auto& e : g.events) c.check(e.kind == 'R', "an unreported queue is cleared");
		g.w.conforming(c);
	});
	r.add("default", [](Ctx& c) {
		// clears, without details; also without a listener
		Rig g(c);
		int n = c.choose(11);
		g.fill(n);
		DPIFaultManager m;
		int reports = 0;
		if (c.choose(2)) m.setNewFaultListener([&](const DPIFaultParameter& f) { ++reports; c.equal(f.getFaultDetails().faultNumber, reports, "number"); });
		else reports = n;
		m.handleFaultParameters(g.si);
		c.equal(reports % 11, n, "reports");
		c.equal(g.events.size(), size_t(n ? 1 : 0), "clear commands");
		for (int p : g.readParams) c.check(p < 631, "details are read");
		g.w.conforming(c);
	});
	r.add("commands", [](Ctx& c) {
		Rig g(c);
		static const DPIFaultManagerCommands NAMES[] = {DPIFaultManagerCommands::NO_OPERATION, DPIFaultManagerCommands::CLEAR_FAULT, DPIFaultManagerCommands::CLEAR_FAULT_QUEUE, DPIFaultManagerCommands::RESET_DEVICE};
		int command = c.choose(4), status = c.choose(256);
		Bytes data;
		int n = 0;
		g.w.dev.onCip = [&](const ref::CipRequest& q) {
			++n;
			c.check(q.service == 0x10 && q.path.cls == 0x97 && q.path.inst == 0 && q.path.attr == 3, "wrong request " + q.str());
			data = q.data;
			return status ? ref::CipReply::error(status) : ref::CipReply();
		};
		DPIFaultManager m;
		auto o = attempt([&] { m.writeCommand(NAMES[command], g.si); });
		c.equal(o.threw, status != 0, "the command raises");
		c.equal(n, 1, "requests");
		c.equal(data, Bytes{static_cast<uint8_t>(command)}, "command");
		c.obs(mix(command, status));
	});
	r.add("fault records", [](Ctx& c) {
		Rig g(c);
		static const std::vector<int> ids = {0, 1, 2, 255, 256, 65535};
		int id = c.pick(ids), field = c.choose(9), high = c.choose(16);
		uint16_t code = 0x0102, flags = 3;
		uint8_t port = 1, device = 2;
		uint64_t timer = 0x1122334455667788ull;
		std::string text = "Motor Overload  ";
		for (int low = 0; low < 16; ++low) {
			uint8_t x = high << 4 | low;
			switch (field) {
				case 0: code = x; break;
				case 1: code = x << 8; break;
				case 2: port = x; break;
				case 3: device = x; break;
				case 4: text[x % 16] = x; break;
				case 5: timer = static_cast<uint64_t>(x) << 8 * (x % 8); break;
				case 6: flags = x; break;
				case 7: flags = x << 8 | 1; break;
				case 8: flags = x << 8 | 2; break;
			}
			int n = 0;
			g.w.dev.onCip = [&](const ref::CipRequest& q) {
				++n;
				c.check(q.is(0x0E, 0x97, id, 0) && q.data.empty(), "wrong request " + q.str());
				return ref::CipReply(ref::W().u16(code).u8(port).u8(device).str(text).u64(timer).u16(flags));
			};
			DPIFaultObject o(id, g.si);
			auto& f = o.getFullInformation();
			c.equal(n, 1, "requests");
			c.equal(f.faultCode, code, "code");
			c.equal(f.dsiPort, port, "port");
			c.equal(f.dsiDeviceObject, device, "device object");
			c.equal(f.faultText.toStdString(), text, "text");
			c.equal(f.timerValue, timer, "timer");
			c.equal(f.isValidData, (flags & 1) != 0, "valid");
			c.equal(f.isRealTime, (flags & 2) != 0, "real time");
			c.equal(static_cast<int>(o.getInstanceId()), id, "instance");
			c.obs(mix(code, mix(port, mix(device, mix(timer, mix(flags, mc::hash(text)))))));
			c.state(mix(code, mix(port, mix(device, mix(timer, mix(flags, mc::hash(text)))))));
		}
	});
	r.add("bad fault records", [](Ctx& c) {
		Rig g(c);
		int cut = c.choose(30), status = cut ? 0 : 1 + c.choose(255);
		g.w.dev.onCip = [&](const ref::CipRequest&) {
			if (status) return ref::CipReply::error(status, {1});
			Bytes b = pattern(30);
			b.resize(30 - cut);
			return ref::CipReply(b);
		};
		auto o = attempt([&] { DPIFaultObject f(1, g.si); });
		c.check(o.threw, fmt("status %d, %d of 30 bytes are not refused", status, 30 - cut));
		c.obs(o.type);
	});
}
