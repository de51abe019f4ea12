// What the harnesses share: one simulated world with devices
#pragma once
#include "mc/mc.h"
#include "mc/sim.h"
#include "mc/ref.h"
#include "SessionInfo.h"
#include "utils/Logger.h"
#include <chrono>
#include <memory>

using namespace mc;
using sim::MS;
using sim::SEC;
using sim::US;
using std::chrono::milliseconds;
using eipScanner::SessionInfo;

struct World {
	sim::Net net;
	ref::Device dev;
	sim::Addr addr{sim::ip("10.0.0.1"), 44818};

	static inline eipScanner::utils::LogLevel logLevel = eipScanner::utils::LogLevel::OFF;

	World() {
		eipScanner::utils::Logger::setLogLevel(logLevel);
		net.listeners[addr] = &dev;
	}
	std::shared_ptr<SessionInfo> session(int timeoutMs = 1000) {
		return std::make_shared<SessionInfo>("10.0.0.1", 44818, milliseconds(timeoutMs));
	}
	/// Everything the client has sent on the stream
	const Bytes& sentOn(size_t stream = 0) const { return net.streams.at(stream)->sent; }
	/// The device saw nothing against the protocol
	void conforming(Ctx& c) { for (auto& p : dev.problems) c.fail("the device received a wrong message: " + p); }
};

/// A history without end: all the words of up to `longest` letters, repeated
struct Word {
	std::vector<int> letters;
	Word(Ctx& c, int alphabet, int longest) {
		letters.resize(1 + c.choose(longest, "length of the period"));
		for (auto& l : letters) l = c.choose(alphabet, "letter");
	}
	int operator[](size_t i) const { return letters[i % letters.size()]; }
};

inline Bytes pattern(size_t n, unsigned seed = 1) {
	Bytes b(n);
	uint32_t x = seed * 2654435761u + 12345;
	for (auto& v : b) { x = x * 1664525u + 1013904223u; v = static_cast<uint8_t>(x >> 24); }
	return b;
}
