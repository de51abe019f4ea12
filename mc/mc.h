// Bounded exhaustive exploration of executions of a harness function (stateless, depth first).
//
// A harness is a deterministic function of the choices it asks for. The explorer runs it again and again until
// every choice sequence within the bounds was executed. See DESIGN.md.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>
#include <vector>

namespace mc {

using Bytes = std::vector<uint8_t>;

/// One execution. All the functions may be called from everywhere (also from simulated system calls).
class Ctx {
public:
	/// A free choice among 0..n-1 (0 is taken first). Enumerated completely.
	int choose(int n, const char* label = "");
	/// A deviation of the environment: 0 is the default answer, 1..n-1 cost one deviation.
	int deviate(int n, const char* label = "");
	/// Picks an element of an alphabet
	template <typename T>
	const T& pick(const std::vector<T>& alphabet, const char* label = "") {
		return alphabet[choose(static_cast<int>(alphabet.size()), label)];
	}
	bool flag(const char* label = "") { return choose(2, label) != 0; }

	/// The oracle: one comparison of what was observed with what must be
	template <typename S>
	void check(bool ok, const S& what) {
		compared();
		if (!ok) fail(std::string(what));
	}
	/// what is made only when needed
	template <typename A, typename B, typename S>
	void equal(const A& got, const B& expected, const S& what);
	void compared();
	/// The property is violated. Does not return.
	[[noreturn]] void fail(const std::string& what);
	/// The property is violated in a way with the given signature: continues if it is a known finding, fails otherwise
	void finding(const std::string& signature, const std::string& what);

	/// One step of the execution (an operation or an event of the environment)
	void step(const std::string& what);
	/// Written to the trace of replays and samples only
	void note(const std::string& what);
	bool verbose() const;

	/// What was observed: hashed, for the number of distinct outcomes and the determinism check
	void obs(uint64_t value);
	void obs(const Bytes& value);
	void obs(const std::string& value);
	/// The state of the reference model after a step: counted as states and transitions
	void state(uint64_t hash);

	/// Progress within a long execution (for the watchdog)
	void alive();

	/// The choices made from now on are recorded ...
	void record();
	/// ... and from now on made again, in the same order. A choice that was not recorded is answered by default.
	void repeat();
	/// Ends recording or repeating; returns whether exactly the recorded choices were asked for
	bool stop();

	/// Number of the current choice points and deviations so far
	int deviations() const;
};

struct Scenario {
	std::string name;
	std::function<void(Ctx&)> run;
	int maxDeviations;
};

/// The scenarios of the harness, defined by the harness file.
class Registry {
public:
	void add(std::string name, std::function<void(Ctx&)> run, int maxDeviations = 0);
	bool thorough() const;
	/// quick or thorough value of a bound
	template <typename T> T tier(T quick, T thoroughValue) const { return thorough() ? thoroughValue : quick; }
	/// Texts for the evidence
	void bound(const std::string& text);
	std::vector<Scenario> scenarios;
	std::vector<std::string> bounds;
	bool isThorough = false;
};

void define(Registry& registry); // the harness

Ctx& ctx(); // the current execution

std::string hex(const Bytes& data, size_t max = 96);
uint64_t mix(uint64_t h, uint64_t v);
uint64_t hashBytes(const void* data, size_t size, uint64_t seed = 0x9E3779B97F4A7C15ull);
inline uint64_t hash(const Bytes& b) { return hashBytes(b.data(), b.size()); }
inline uint64_t hash(const std::string& b) { return hashBytes(b.data(), b.size()); }

std::string fmt(const char* format, ...) __attribute__((format(printf, 1, 2)));

inline std::string show(const Bytes& b) { return fmt("%zu bytes ", b.size()) + hex(b); }
inline std::string show(const std::string& s) { return "\"" + s + "\""; }
template <typename T> std::string show(const std::vector<T>& v);
template <typename T> std::string show(const T& v) {
	if constexpr (std::is_enum_v<T>) return std::to_string(static_cast<long long>(v));
	else if constexpr (std::is_floating_point_v<T>) return fmt("%.17g", static_cast<double>(v));
	else return std::to_string(v);
}
template <typename T> std::string show(const std::vector<T>& v) {
	std::string s = "[";
	for (const auto& e : v) { if (s.size() > 1) s += ", "; s += show(e); }
	return s + "]";
}

template <typename A, typename B, typename S>
void Ctx::equal(const A& got, const B& expected, const S& what) {
	compared();
	if (!(got == expected)) fail(std::string(what) + ": expected " + show(expected) + " but got " + show(got));
}

/// Calls f and tells how it ended: "" or what kind of exception was thrown. Other than std::exception is a failure.
struct Outcome {
	bool threw = false;
	std::string type; // runtime_error, system_error, ...
	std::string what;
	int code = 0;     // of a std::system_error
};
Outcome attempt(const std::function<void()>& f);

} // namespace mc
