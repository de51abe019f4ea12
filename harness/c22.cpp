// C22: log messages
#include "common.h"
#include <iostream>
#include <memory>
#include <optional>

using namespace eipScanner::utils;

namespace {

struct Printed {
	int appender; LogLevel level; std::string text;
	bool operator==(const Printed& o) const { return appender == o.appender && level == o.level && text == o.text; }
	std::string str() const { return fmt("appender %d, level %d, ", appender, static_cast<int>(level)) + show(text); }
};

struct Recorder : LogAppenderIf {
	std::vector<Printed>& out;
	int id;
	int& alive;
	Recorder(std::vector<Printed>& o, int i, int& a) : out(o), id(i), alive(a) { ++alive; }
	~Recorder() override { --alive; }
	void print(LogLevel l, const std::string& m) override { out.push_back({id, l, m}); }
};
struct Null : LogAppenderIf { void print(LogLevel, const std::string&) override {} };

struct Rig {
	Ctx& c;
	std::vector<Printed> got, expected;
	int alive = 0, appender = 0, level = 3, next = 0;
	struct Open { std::unique_ptr<Logger> logger; int level; std::string text; };
	std::vector<Open> open;

	explicit Rig(Ctx& ctx) : c(ctx) {
		setAppender();
		setLevel(3);
	}
	~Rig() {
		open.clear();
		Logger::setLogLevel(LogLevel::OFF);
		Logger::setAppender(std::make_unique<Null>());
	}
	void setAppender() {
		appender = next++;
		Logger::setAppender(std::make_unique<Recorder>(got, appender, alive));
		c.equal(alive, 1, "number of appenders that are alive");
	}
	void setLevel(int l) { level = l; Logger::setLogLevel(static_cast<LogLevel>(l)); }
	void begin(int l) {
		open.push_back({std::make_unique<Logger>(static_cast<LogLevel>(l)), l, ""});
		verify();
	}
	template <typename T>
	void write(size_t i, T v, const std::string& text) {
		*open[i].logger << v;
		open[i].text += text;
		verify();
	}
	void end(size_t i) {
		auto o = std::move(open[i]);
		open.erase(open.begin() + i);
		if (level > 0 && o.level <= level) expected.push_back({appender, static_cast<LogLevel>(o.level), o.text});
		o.logger.reset();
		verify();
	}
	void verify() {
		for (size_t i = 0; i < std::max(got.size(), expected.size()); ++i) {
			if (i >= got.size()) c.fail("not printed: " + expected[i].str() + fmt(" at level %d", level));
			if (i >= expected.size()) c.fail("printed: " + got[i].str() + fmt(" at level %d", level));
			if (!(got[i] == expected[i])) c.fail("printed: " + got[i].str() + " instead of " + expected[i].str());
		}
		c.compared();
		uint64_t h = mix(level, appender);
		for (auto& o : open) h = mix(h, mix(o.level, hash(o.text)));
		c.state(mix(h, got.size()));
	}
	void finish() {
		while (!open.empty()) end(open.size() - 1);
		for (auto& g : got) { c.obs(g.text); c.obs(static_cast<int>(g.level)); }
	}
};

} // namespace

void mc::define(Registry& r) {
	int depth = r.tier(5, 6);
	r.bound(fmt("all histories of up to %d operations: set each level (off to trace), replace the appender, begin a message of each level, write to it, end one of up to two open messages", depth));
	r.bound("all words of up to 2 of 8 operations, repeated to 320 (thorough 1500) messages");
	r.bound("message texts of 0, 1, 255, 256, 1023..1025, 4096, 65536 and 1000000 characters, with every byte value");

	r.add("histories", [depth](Ctx& c) {
		Rig g(c);
		for (int i = 0; i < depth; ++i) {
			std::vector<int> ops;
			for (int l = 0; l <= 5; ++l) if (l != g.level) ops.push_back(l);
			ops.push_back(10);
			if (g.open.size() < 2) for (int l = 1; l <= 5; ++l) ops.push_back(20 + l);
			for (size_t k = 0; k < g.open.size(); ++k) { ops.push_back(30 + static_cast<int>(k)); ops.push_back(40 + static_cast<int>(k)); }
			int op = c.pick(ops, "operation");
			c.step(fmt("operation %d", op));
			if (op < 10) g.setLevel(op);
			else if (op == 10) g.setAppender();
			else if (op < 30) { g.begin(op - 20); g.write(g.open.size() - 1, std::string("message"), "message"); }
			else if (op < 40) g.end(op - 30);
			else g.write(op - 40, 42, "42");
		}
		g.finish();
	});
	r.add("messages", [depth](Ctx& c) {
		// complete messages at all combinations of levels
		Rig g(c);
		for (int i = 0; i < depth - 2; ++i) {
			if (c.choose(2, "appender")) g.setAppender();
			int l = c.choose(6, "level"), m = 1 + c.choose(5, "message");
			if (l != g.level) g.setLevel(l);
			g.begin(m);
			g.write(0, i, std::to_string(i));
			g.end(0);
		}
		g.finish();
	});
	r.add("change while open", [](Ctx& c) {
		// what counts is the level and the appender at the end of the message
		Rig g(c);
		g.setLevel(c.choose(6));
		int m = 1 + c.choose(5);
		g.begin(m);
		if (c.choose(2)) g.write(0, std::string("before "), "before ");
		g.setLevel(c.choose(6));
		if (c.choose(2)) g.setAppender();
		if (c.choose(2)) g.write(0, std::string("between "), "between ");
		g.setLevel(c.choose(6));
		g.end(0);
		g.finish();
	});
	r.add("texts", [](Ctx& c) {
		Rig g(c);
		static const std::vector<size_t> sizes = {0, 1, 255, 256, 1023, 1024, 1025, 4096, 65536, 1000000};
		size_t n = c.pick(sizes);
		int l = 1 + c.choose(5);
		g.setLevel(5);
		std::string s(n, 'x');
		for (size_t i = 0; i < n; ++i) s[i] = static_cast<char>(i * 7 + l);
		g.begin(l);
		if (c.choose(2)) g.write(0, s, s);
		else {
			g.write(0, s.substr(0, n / 2), s.substr(0, n / 2));
			g.write(0, s.substr(n / 2), s.substr(n / 2));
		}
		g.end(0);
		g.finish();
	});
	r.add("values", [](Ctx& c) {
		// chained values of several types
		Rig g(c);
		int l = 1 + c.choose(5);
		g.setLevel(c.choose(6));
		int n = c.choose(256);
		std::string expected = "v=" + std::to_string(n) + fmt(" 0x%x", n) + " c" + " 1.5 " + std::to_string(-n);
		{
			Logger(static_cast<LogLevel>(l)) << "v=" << n << " 0x" << std::hex << n << std::dec << ' ' << 'c' << " " << 1.5 << std::string(" ") << -n;
		}
		if (g.level > 0 && l <= g.level) g.expected.push_back({g.appender, static_cast<LogLevel>(l), expected});
		g.verify();
		g.finish();
	});
	r.add("exceptions", [](Ctx& c) {
		// a message ended by an exception is complete as far as it was written
		Rig g(c);
		g.setLevel(c.choose(6));
		int l = 1 + c.choose(5);
		try {
			Logger log(static_cast<LogLevel>(l));
			log << "begun";
			if (c.choose(2)) throw std::runtime_error("x");
			log << " and ended";
			if (g.level > 0 && l <= g.level) g.expected.push_back({g.appender, static_cast<LogLevel>(l), "begun and ended"});
		} catch (const std::runtime_error&) {
			if (g.level > 0 && l <= g.level) g.expected.push_back({g.appender, static_cast<LogLevel>(l), "begun"});
		}
		g.verify();
		g.finish();
	});
	r.add("appender that logs", [](Ctx& c) {
		// a message logged by the appender while it prints one is a message as any other
		struct Nested : LogAppenderIf {
			std::vector<Printed>& out;
			std::vector<Printed>& expected;
			int& level;
			int inner, depth = 0;
			Nested(std::vector<Printed>& o, std::vector<Printed>& e, int& l, int i) : out(o), expected(e), level(l), inner(i) {}
			void print(LogLevel l, const std::string& m) override {
				out.push_back({0, l, m});
				if (depth >= 2) return;
				++depth;
				if (level > 0 && inner <= level) expected.push_back({0, static_cast<LogLevel>(inner), "about " + m});
				{ Logger(static_cast<LogLevel>(inner)) << "about " << m; }
				--depth;
			}
		};
		Rig g(c);
		g.setLevel(c.choose(6));
		Logger::setAppender(std::make_unique<Nested>(g.got, g.expected, g.level, 1 + c.choose(5, "level of the appender")));
		g.appender = 0;
		for (int i = 0; i < 2; ++i) {
			int l = 1 + c.choose(5);
			std::string text = fmt("message %d", i);
			if (g.level > 0 && l <= g.level) g.expected.push_back({0, static_cast<LogLevel>(l), text});
			{ Logger(static_cast<LogLevel>(l)) << text; }
			g.verify();
			if (c.choose(2)) g.setLevel(c.choose(6));
		}
		g.finish();
	});
	r.add("console", [](Ctx& c) {
		// the console appender prints each message once as a line with its level
		static const char* names[] = {"", "ERROR", "WARNING", "INFO", "DEBUG", "TRACE"};
		Logger::setAppender(std::make_unique<ConsoleAppender>());
		int level = c.choose(6), n = c.choose(4);
		Logger::setLogLevel(static_cast<LogLevel>(level));
		std::ostringstream out;
		auto* old = std::cout.rdbuf(out.rdbuf());
		std::vector<std::pair<int, std::string>> expected;
		for (int i = 0; i < n; ++i) {
			int l = 1 + c.choose(5);
			std::string text = fmt("text-%d", i);
			Logger(static_cast<LogLevel>(l)) << text;
			if (level > 0 && l <= level) expected.push_back({l, text});
		}
		std::cout.rdbuf(old);
		Logger::setLogLevel(LogLevel::OFF);
		Logger::setAppender(std::make_unique<Null>());
		std::istringstream in(out.str());
		std::string line;
		size_t k = 0;
		while (std::getline(in, line)) {
			if (k >= expected.size()) c.fail("printed: " + line);
			c.check(line.find(names[expected[k].first]) != std::string::npos && line.find(expected[k].second) != std::string::npos, "wrong line " + show(line));
			++k;
		}
		c.equal(k, expected.size(), "number of lines");
		c.obs(out.str());
		c.state(hash(out.str()));
	});
	int many = r.tier(320, 1500);
	r.add("long", [many](Ctx& c) {
		// as many messages as there are
		Rig g(c);
		Word word(c, 8, 2);
		for (int i = 0; i < many; ++i) {
			int l = word[i];
			if (l == 6) g.setAppender();
			else if (l == 7) g.setLevel(i % 6);
			else {
				g.begin(l ? l : 1);
				g.write(0, std::string("message "), "message ");
				g.write(0, i, std::to_string(i));
				g.end(0);
			}
			if (i % 64 == 0) c.alive();
		}
		c.step("printed");
		g.finish();
	});
}
