// C17: engineering values
#include "common.h"
#include "ParameterObject.h"
#include <cmath>

using namespace eipScanner;

namespace {

struct Scaling { bool scalable; uint16_t multiplier, divisor, base; int16_t offset; uint8_t precision; };

long double eng(const Scaling& s, long double raw) {
	if (!s.scalable) return raw;
	return (raw + s.offset) * s.multiplier * s.base / (s.divisor * powl(10.0L, s.precision));
}
bool near(long double got, long double expected) { return got == expected || fabsl(got - expected) <= 1e-13L * std::max(fabsl(got), fabsl(expected)); }

void prepare(ParameterObject& o, const Scaling& s) {
	o.setScalable(s.scalable);
	o.setScalingMultiplier(s.multiplier);
	o.setScalingDivisor(s.divisor);
	o.setScalingBase(s.base);
	o.setScalingOffset(s.offset);
	o.setPrecision(s.precision);
}
std::string str(const Scaling& s) { return s.scalable ? fmt("(raw + %d) * %u * %u / (%u * 10^%u)", s.offset, s.multiplier, s.base, s.divisor, s.precision) : "not scalable"; }

Scaling choose(Ctx& c) {
	static const std::vector<uint16_t> m = {1, 2, 3, 10, 100, 257, 1000, 65535}, d = {1, 3, 7, 10, 60, 1000, 65535}, b = {1, 3, 10, 65535};
	static const std::vector<int16_t> o = {0, 1, -1, 100, -273, 32767, -32768};
	static const std::vector<uint8_t> p = {0, 1, 2, 3, 6, 20};
	Scaling s;
	s.scalable = true;
	s.multiplier = c.pick(m, "multiplier");
	s.divisor = c.pick(d, "divisor");
	s.base = c.pick(b, "base");
	s.offset = c.pick(o, "offset");
	s.precision = c.pick(p, "precision");
	return s;
}

/// One raw value in one object
template <typename T>
void one(Ctx& c, ParameterObject& o, const Scaling& s, T raw) {
	long double e = eng(s, raw);
	double got = o.actualToEngValue(static_cast<double>(raw));
	if (!near(got, e)) c.fail(fmt("the engineering value of %Lg is %.17g instead of %.17Lg: ", static_cast<long double>(raw), got, e) + str(s));
	double back = o.engToActualValue(got);
	// relative to the sum of which the offset is a part
	long double scale = s.scalable ? fabsl(static_cast<long double>(raw) + s.offset) + abs(s.offset) : 0;
	if (fabsl(back - static_cast<long double>(raw)) > 1e-13L * std::max(scale, fabsl(static_cast<long double>(raw)))) c.fail(fmt("%.17g converts back to %.17g instead of %Lg: ", got, back, static_cast<long double>(raw)) + str(s));
	c.compared();
}
template <typename T>
void set(Ctx& c, ParameterObject& o, const Scaling& s, T raw, T otherMin, T otherMax) {
	double e = o.actualToEngValue(static_cast<double>(raw));
	auto bad = [&](const char* what, T got) { c.fail(fmt("%s set to the engineering value %.17g of %s is %s: ", what, e, std::to_string(raw).c_str(), std::to_string(got).c_str()) + str(s)); };
	o.setEngMinValue<T>(o.actualToEngValue(static_cast<double>(otherMin)));
	o.setEngMaxValue<T>(o.actualToEngValue(static_cast<double>(otherMax)));
	o.setEngDefaultValue<T>(e);
	if (o.getDefaultValue<T>() != raw) bad("the default", o.getDefaultValue<T>());
	if (o.getMinValue<T>() != otherMin) bad("the minimum besides the default", o.getMinValue<T>());
	if (o.getMaxValue<T>() != otherMax) bad("the maximum besides the default", o.getMaxValue<T>());
	o.setEngMinValue<T>(e);
	if (o.getMinValue<T>() != raw) bad("the minimum", o.getMinValue<T>());
	if (o.getMaxValue<T>() != otherMax) bad("the maximum besides the minimum", o.getMaxValue<T>());
	o.setEngMaxValue<T>(e);
	if (o.getMaxValue<T>() != raw) bad("the maximum", o.getMaxValue<T>());
	if (!near(o.getEngMinValue<T>(), eng(s, raw)) || !near(o.getEngMaxValue<T>(), eng(s, raw)) || !near(o.getEngDefaultValue<T>(), eng(s, raw)))
		c.fail("the engineering value read back differs for " + std::to_string(raw) + ": " + str(s));
	if (o.getActualValue<T>() != 0) c.fail("the value has changed");
	c.compared();
}

template <typename T>
std::vector<T> boundary() {
	constexpr int bits = sizeof(T) * 8;
	std::vector<T> v;
	auto add = [&](long double x) { if (x >= static_cast<long double>(std::numeric_limits<T>::min()) && x <= static_cast<long double>(std::numeric_limits<T>::max())) v.push_back(static_cast<T>(x)); };
	// a double carries 53 bits; the conversions cost a few of them
	for (int b = 0; b <= std::min(bits, 46); ++b) for (int d = -1; d <= 1; ++d) { add(powl(2, b) + d); add(-powl(2, b) + d); }
	for (long double x : {0.0L, 5.0L, 10.0L, 99.0L, 100.0L, 1234.0L, -1234.0L, 12345.0L, 54321.0L, 1234567.0L, -7654321.0L}) add(x);
	return v;
}
template <typename T>
void all(Ctx& c, const Scaling& s) {
	ParameterObject o(1, true, sizeof(T));
	prepare(o, s);
	for (T v : boundary<T>()) { one<T>(c, o, s, v); set<T>(c, o, s, v, 1, 2); }
}

/// A device with one parameter
template <typename T>
void fromDevice(Ctx& c, const Scaling& s, T raw) {
	World w;
	auto le = [](T v) { Bytes b(sizeof v); memcpy(b.data(), &v, sizeof v); return b; };
	T lo = static_cast<T>(raw / 2), hi = static_cast<T>(raw - raw / 4), df = static_cast<T>(raw / 3);
	w.dev.onCip = [&](const ref::CipRequest& q) -> ref::CipReply {
		if (q.is(0x0E, 0x0F, 7, 6)) return ref::CipReply({sizeof(T)});
		if (q.is(0x0E, 0x0F, 7, 13)) return ref::CipReply(ref::W().u16(s.multiplier));
		if (q.is(0x0E, 0x0F, 7, 14)) return ref::CipReply(ref::W().u16(s.divisor));
		if (q.is(0x0E, 0x0F, 7, 15)) return ref::CipReply(ref::W().u16(s.base));
		if (q.is(0x0E, 0x0F, 7, 16)) return ref::CipReply(ref::W().u16(s.offset));
		if (q.is(0x01, 0x0F, 7, -1))
			return ref::CipReply(ref::W().raw(le(raw)).u8(0).u16(s.scalable ? 4 : 0).u8(0xC2).u8(sizeof(T)).shortString("n").shortString("u").shortString("h")
				.raw(le(lo)).raw(le(hi)).raw(le(df)).fill(16, 0x33).u8(s.precision));
		w.dev.problem("unexpected request " + q.str());
		return ref::CipReply::error(8);
	};
	auto si = w.session();
	ParameterObject o(7, true, si);
	w.conforming(c);
	auto eq = [&](const char* what, double got, T v) { if (!near(got, eng(s, v))) c.fail(fmt("%s of %s is %.17g instead of %.17Lg: ", what, std::to_string(v).c_str(), got, eng(s, v)) + str(s)); c.compared(); };
	eq("the engineering value", o.getEngValue<T>(), raw);
	eq("the engineering minimum", o.getEngMinValue<T>(), lo);
	eq("the engineering maximum", o.getEngMaxValue<T>(), hi);
	eq("the engineering default", o.getEngDefaultValue<T>(), df);
	o.setEngMinValue<T>(o.getEngValue<T>());
	c.equal(o.getMinValue<T>(), raw, "minimum");
	c.obs(static_cast<uint64_t>(o.getEngValue<T>() * 1000));
	c.state(mix(raw, mix(s.multiplier, mix(s.divisor, mix(s.base, mix(s.offset, s.precision))))));
}

} // namespace

void mc::define(Registry& r) {
	r.bound("all 8 bit values and all 16 bit values (signed and unsigned) x scalings of 8 multipliers x 7 divisors x 4 bases x 7 offsets x 6 precisions (8 bit: all of them, 16 bit: a subset in quick)");
	r.bound("all sequences of three setters of limits x 4 integer types x 4 sizes of the object");
	r.bound("powers of two +-1 up to 2^46 of the 32 and 64 bit types x all the scalings; the same read from a device");
	bool thorough = r.thorough();

	r.add("8 bit", [](Ctx& c) {
		Scaling s = choose(c);
		ParameterObject o(1, true, 1);
		prepare(o, s);
		for (int v = 0; v < 256; ++v) {
			one<uint8_t>(c, o, s, v);
			one<int8_t>(c, o, s, v - 128);
			set<uint8_t>(c, o, s, v, 3, 250);
			set<int8_t>(c, o, s, v - 128, -100, 100);
		}
		c.obs(mix(s.multiplier, mix(s.divisor, mix(s.base, mix(s.offset, s.precision)))));
		c.state(mix(s.multiplier, mix(s.divisor, mix(s.base, mix(s.offset, s.precision)))));
	});
	r.add("16 bit", [thorough](Ctx& c) {
		Scaling s;
		if (thorough) s = choose(c);
		else {
			static const std::vector<Scaling> some = {{true, 1, 1, 1, 0, 0}, {true, 1, 1, 1, 0, 2}, {true, 7, 3, 1, -273, 1}, {true, 65535, 65535, 65535, 32767, 3}, {true, 3, 7, 1000, -32768, 6},
				{true, 1, 65535, 1, 1, 20}, {true, 10, 60, 3, 100, 4}, {false, 7, 3, 9, 11, 3}};
			s = c.pick(some);
		}
		ParameterObject o(1, true, 2);
		prepare(o, s);
		int part = c.choose(16);
		for (int v = part << 12; v < (part + 1) << 12; ++v) {
			one<uint16_t>(c, o, s, v);
			one<int16_t>(c, o, s, v - 32768);
			set<uint16_t>(c, o, s, v, 3, 65000);
			set<int16_t>(c, o, s, v - 32768, -100, 30000);
		}
		c.obs(mix(part, mix(s.multiplier, mix(s.divisor, mix(s.base, mix(s.offset, s.precision))))));
	});
	r.add("32 and 64 bit", [](Ctx& c) {
		Scaling s = choose(c);
		all<uint32_t>(c, s);
		all<int32_t>(c, s);
		all<uint64_t>(c, s);
		all<int64_t>(c, s);
		c.obs(mix(s.multiplier, mix(s.divisor, mix(s.base, mix(s.offset, s.precision)))));
	});
	r.add("not scalable", [](Ctx& c) {
		Scaling s = choose(c);
		s.scalable = false;
		all<int8_t>(c, s);
		all<uint16_t>(c, s);
		all<int32_t>(c, s);
		all<uint64_t>(c, s);
		ParameterObject o(1, true, 8);
		prepare(o, s);
		for (double d : {0.0, -0.5, 1e300, -1e-300, 3.14159, 1e15 + 0.5}) {
			c.equal(o.actualToEngValue(d), d, "engineering value");
			c.equal(o.engToActualValue(d), d, "actual value");
			o.setEngMinValue<double>(d);
			c.equal(o.getMinValue<double>(), d, "minimum");
			o.setEngMaxValue<float>(static_cast<float>(d < 1e30 ? d : 1));
			c.equal(o.getMaxValue<float>(), static_cast<float>(d < 1e30 ? d : 1), "maximum");
		}
		c.obs(s.offset);
	});
	r.add("any engineering value", [](Ctx& c) {
		// the conversions of values between the raw ones, and the floating point types
		Scaling s = choose(c);
		ParameterObject o(1, true, 8);
		prepare(o, s);
		for (double raw : {0.25, -0.75, 1234.5678, -99999.125, 1e9 + 0.5}) {
			one<double>(c, o, s, raw);
			double e = o.actualToEngValue(raw);
			o.setEngDefaultValue<double>(e);
			double d = o.getDefaultValue<double>();
			if (fabs(d - raw) > 1e-12 * (fabs(raw) + 2.0 * abs(s.offset))) c.fail(fmt("the default set to the engineering value of %.17g is %.17g: ", raw, d) + str(s));
			o.setEngMinValue<float>(e);
			float f = o.getMinValue<float>();
			if (fabs(f - raw) > 1e-6 * (fabs(raw) + 1e-6 * abs(s.offset))) c.fail(fmt("the minimum set to the engineering value of %.17g is %.9g: ", raw, f) + str(s));
		}
		c.obs(s.offset);
	});
	r.add("switching", [](Ctx& c) {
		// the setters take effect at once, in any order
		Scaling s{false, 1, 1, 1, 0, 0};
		ParameterObject o(1, true, 2);
		for (int i = 0; i < 4; ++i) {
			int what = c.choose(6), v = c.choose(2);
			switch (what) {
				case 0: s.scalable = v; o.setScalable(v); break;
				case 1: s.multiplier = v ? 7 : 1000; o.setScalingMultiplier(s.multiplier); break;
				case 2: s.divisor = v ? 3 : 250; o.setScalingDivisor(s.divisor); break;
				case 3: s.base = v ? 11 : 2; o.setScalingBase(s.base); break;
				case 4: s.offset = v ? -40 : 99; o.setScalingOffset(s.offset); break;
				case 5: s.precision = v ? 1 : 5; o.setPrecision(s.precision); break;
			}
			one<int16_t>(c, o, s, 4321);
			set<int16_t>(c, o, s, -1234, 5, 6);
			c.state(mix(s.scalable, mix(mix(s.multiplier, s.divisor), mix(s.base, mix(s.offset, s.precision)))));
		}
		c.obs(mix(s.multiplier, s.offset));
	});
	r.add("independent limits", [](Ctx& c) {
		// each setter changes its own limit, whatever the sizes of the type and of the object
		int size = 1 << c.choose(4, "size of the object");
		ParameterObject o(1, true, size);
		std::array<Bytes, 3> limits{Bytes(size, 0), Bytes(size, 0), Bytes(size, 0)};
		auto look = [&](auto v, int which) {
			using T = decltype(v);
			if (limits[which].size() != sizeof(T)) return;
			T got = which == 0 ? o.getMinValue<T>() : which == 1 ? o.getMaxValue<T>() : o.getDefaultValue<T>();
			T want;
			memcpy(&want, limits[which].data(), sizeof want);
			c.equal(+got, +want, which == 0 ? "minimum" : which == 1 ? "maximum" : "default");
		};
		for (int i = 0; i < 3; ++i) {
			int which = c.choose(3, "limit");
			auto set = [&](auto v) {
				using T = decltype(v);
				if (which == 0) o.setEngMinValue<T>(v);
				if (which == 1) o.setEngMaxValue<T>(v);
				if (which == 2) o.setEngDefaultValue<T>(v);
				limits[which].resize(sizeof v);
				memcpy(limits[which].data(), &v, sizeof v);
			};
			switch (c.choose(4, "type")) {
				case 0: set(static_cast<uint8_t>(201 + i)); break;
				case 1: set(static_cast<uint16_t>(45678 + i)); break;
				case 2: set(static_cast<uint32_t>(3456789012u + i)); break;
				case 3: set(static_cast<uint64_t>(0x123456789abcULL + i)); break;
			}
			for (int k = 0; k < 3; ++k) { look(uint8_t(), k); look(uint16_t(), k); look(uint32_t(), k); look(uint64_t(), k); }
			c.state(mix(size, mix(limits[0].size(), mix(limits[1].size(), limits[2].size()))));
		}
		c.obs(size);
	});
	r.add("from a device", [](Ctx& c) {
		Scaling s = choose(c);
		if (c.choose(2)) s.scalable = false;
		switch (c.choose(6)) {
			case 0: fromDevice<uint8_t>(c, s, 200); break;
			case 1: fromDevice<int8_t>(c, s, -100); break;
			case 2: fromDevice<uint16_t>(c, s, 60000); break;
			case 3: fromDevice<int16_t>(c, s, -30000); break;
			case 4: fromDevice<int32_t>(c, s, -2000000000); break;
			case 5: fromDevice<uint32_t>(c, s, 4000000000u); break;
		}
	});
}
