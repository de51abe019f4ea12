// C30: objects, sessions and connections do not influence each other
#include "actors.h"
#include <sys/wait.h>
#include <unistd.h>

namespace {

struct Failure { int at = -1, how = 0; };

/// What each does on its own, in a process of its own
const std::vector<std::string>& alone(int kind, int k, int device, bool shared, Failure failure = {}, int* requests = nullptr) {
	static std::map<std::tuple<int, int, int, bool, int, int>, std::pair<int, std::vector<std::string>>> cache;
	auto key = std::make_tuple(kind, k, device, shared, failure.at, failure.how);
	auto it = cache.find(key);
	if (it == cache.end()) {
		int fd[2];
		if (::pipe(fd)) abort();
		pid_t pid = ::fork();
		if (pid < 0) abort();
		if (pid == 0) {
			std::string out;
			{
				Fixture f;
				auto& h = f.host(device);
				h.failAt = failure.at;
				h.failHow = failure.how;
				if (shared) f.common[device] = std::make_shared<SessionInfo>(Fixture::name(device), 44818, milliseconds(1000));
				auto a = make(kind, f, k, device);
				while (!a->done()) a->run();
				out = std::to_string(h.requests) + '\0';
				for (auto& s : a->trace) out += s + '\0';
			}
			for (size_t n = 0; n < out.size();) n += std::max<ssize_t>(0, ::write(fd[1], out.data() + n, out.size() - n));
			_exit(0);
		}
		::close(fd[1]);
		std::string all;
		char buffer[65536];
		for (ssize_t n; (n = ::read(fd[0], buffer, sizeof buffer)) > 0;) all.append(buffer, n);
		::close(fd[0]);
		::waitpid(pid, nullptr, 0);
		std::pair<int, std::vector<std::string>> result;
		size_t at = 0, n = 0;
		for (size_t end; (end = all.find('\0', at)) != std::string::npos; at = end + 1, ++n) {
			auto s = all.substr(at, end - at);
			if (n) result.second.push_back(s);
			else result.first = std::stoi(s);
		}
		if (!n) throw std::logic_error("no result of the actor on its own");
		it = cache.emplace(key, result).first;
	}
	if (requests) *requests = it->second.first;
	return it->second.second;
}

void compare(Ctx& c, const Actor& a, int kind, const std::vector<std::string>& expected) {
	for (size_t i = 0; i < std::max(a.trace.size(), expected.size()); ++i) {
		std::string got = i < a.trace.size() ? a.trace[i] : "(the end)", want = i < expected.size() ? expected[i] : "(the end)";
		if (got != want) c.fail(fmt("the %s number %d: on its own \"", KIND[kind], a.k) + want + "\" but among others \"" + got + "\"");
	}
	c.compared();
}

void together(Ctx& c, const std::vector<int>& kinds, bool shared, bool nested, bool preempt, Failure failure = {}) {
	std::vector<std::vector<std::string>> expected;
	for (size_t i = 0; i < kinds.size(); ++i) expected.push_back(alone(kinds[i], i, shared ? 0 : i, shared, i ? Failure() : failure));
	Fixture f;
	f.host(0).failAt = failure.at;
	f.host(0).failHow = failure.how;
	std::vector<std::unique_ptr<Actor>> actors;
	if (shared) { f.host(0); f.common[0] = std::make_shared<SessionInfo>(Fixture::name(0), 44818, milliseconds(1000)); }
	for (size_t i = 0; i < kinds.size(); ++i) actors.push_back(make(kinds[i], f, i, shared ? 0 : i));
	uint64_t h = 0;
	auto step = [&](size_t i) {
		c.step(fmt("step %zu of the %s number %zu", actors[i]->next, KIND[kinds[i]], i));
		actors[i]->run();
		h = mix(h, i);
		for (auto& a : actors) h = mix(h, a->next);
		c.state(h);
	};
	if (nested) for (auto& a : actors) {
		Actor* self = a.get();
		a->inside = [&, self] {
			for (size_t j = 0; j < actors.size(); ++j) {
				auto& o = *actors[j];
				while (&o != self && !o.running && !o.done() && !(f.inManager && o.usesManager) && c.deviate(2, "another one in the callback")) step(j);
			}
		};
	}
	size_t current = 0;
	while (true) {
		std::vector<size_t> ready;
		if (!actors[current]->done()) ready.push_back(current);
		for (size_t i = 0; i < actors.size(); ++i) if (i != current && !actors[i]->done()) ready.push_back(i);
		if (ready.empty()) break;
		size_t pick = 0;
		if (ready.size() > 1) {
			int n = static_cast<int>(ready.size());
			pick = preempt && ready[0] == current ? c.deviate(n, "next") : c.choose(n, "next");
		}
		current = ready[pick];
		step(current);
	}
	for (size_t i = 0; i < kinds.size(); ++i) compare(c, *actors[i], kinds[i], expected[i]);
	for (auto& [k, host] : f.hosts) for (auto& p : host->dev.problems) c.fail("the device received a wrong message: " + p);
	actors.clear();
	f.common.clear();
	c.check(f.net.misuse.empty(), f.net.misuse.empty() ? "" : f.net.misuse[0]);
	f.manager.reset();
	c.check(f.net.openFds().empty(), "descriptors stay open");
	c.obs(h);
}

} // namespace

void mc::define(Registry& r) {
	int preemptions = r.tier(1, 2), nested = r.tier(2, 3), failing = r.tier(1, 3);
	r.bound("explicit messages, identity, parameters, upload, faults, implicit connection, discovery, codec objects, 2 to 7 steps each: all interleavings of every pair, on different devices and (not for faults) on one shared session");
	r.bound(fmt("every triple with up to %d preemptions, every pair with steps of the other inside the callbacks (up to %d)", preemptions, nested));

	r.bound(fmt("pairs of which one fails: each single request refused or answered incompletely, up to %d preemptions", failing));

	// before anything else has run
	for (int kind = 0; kind < KINDS; ++kind) {
		for (int k = 0; k < 3; ++k) alone(kind, k, k, false);
		if (kind == 4 || kind > 5) continue;
		for (int k = 0; k < 2; ++k) alone(kind, k, 0, true);
	}
	for (int kind = 0; kind < 6; ++kind) {
		int n;
		alone(kind, 0, 0, false, {}, &n);
		for (int at = 0; at < n; ++at) for (int how = 0; how < 3; ++how) alone(kind, 0, 0, false, {at, how});
	}

	r.add("pairs", [](Ctx& c) {
		int a = c.choose(KINDS, "first"), b = c.choose(KINDS, "second");
		together(c, {a, b}, false, false, false);
	});
	r.add("pairs of which one fails", [](Ctx& c) {
		// each request of the first is refused or answered incompletely
		int a = c.choose(6, "first"), b = c.choose(KINDS, "second"), n = 0;
		alone(a, 0, 0, false, {}, &n);
		Failure failure{c.choose(n, "request"), c.choose(3, "how")};
		together(c, {a, b}, false, false, true, failure);
	}, failing);
	r.add("pairs on one session", [](Ctx& c) {
		static const std::vector<int> kinds = {0, 1, 2, 3, 5};
		int a = c.pick(kinds, "first"), b = c.pick(kinds, "second");
		together(c, {a, b}, true, false, false);
	});
	r.add("triples", [](Ctx& c) {
		int a = c.choose(KINDS, "first"), b = c.choose(KINDS, "second"), d = c.choose(KINDS, "third");
		together(c, {a, b, d}, false, false, true);
	}, preemptions);
	r.add("inside callbacks", [](Ctx& c) {
		static const std::vector<int> kinds = {3, 4, 5};
		int a = c.pick(kinds, "first"), b = c.choose(KINDS, "second");
		together(c, {a, b}, false, true, true);
	}, nested);
	r.add("inside callbacks of one session", [](Ctx& c) {
		static const std::vector<int> kinds = {3, 5}, others = {0, 1, 2, 3, 5};
		int a = c.pick(kinds, "first"), b = c.pick(others, "second");
		together(c, {a, b}, true, true, true);
	}, nested);
}
