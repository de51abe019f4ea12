#include "mc.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <pthread.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <system_error>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>

// The machinery itself lives outside of the simulation: system calls by number only.
namespace {
double realTime() {
	timespec ts;
	syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}
void realSleepMs(int ms) {
	timespec ts{ms / 1000, (ms % 1000) * 1000000L};
	syscall(SYS_nanosleep, &ts, nullptr);
}
} // namespace

namespace mc {

constexpr int MAX_POINTS = 4000;
constexpr int MAX_WORKERS = 32;
constexpr size_t LOG_BYTES = 48u << 20;
constexpr size_t STACK_BYTES = 64u << 20;
constexpr int QUEUE_SLOTS = 512;
constexpr size_t MSG_BYTES = 6000;

struct QueueItem {
	uint32_t scenario;
	uint32_t size;
	uint32_t lo, hi;
	uint16_t prefix[MAX_POINTS];
};

struct WorkerShm {
	std::atomic<uint64_t> beat;
	std::atomic<int> running; // inside of an execution
	uint32_t scenario;
	std::atomic<uint32_t> nChoices;
	uint16_t choices[MAX_POINTS];
	int failed;
	char message[MSG_BYTES];
	uint64_t logUsed;
	uint64_t stackUsed;
	uint32_t epochDone;
};

constexpr int MAX_KNOWN = 64;
struct Shm {
	std::atomic<uint64_t> execs, choicePoints, steps, checks, outcomes, states, transitions, devExecs, reexecs, nondet, pruned, diverged;
	std::atomic<uint64_t> scenarioExecs[4096];
	std::atomic<uint64_t> maxPoints;
	std::atomic<int> stop;
	std::atomic<int> idle;
	std::atomic<int> violator; // worker index + 1
	std::atomic<uint64_t> knownSeen[MAX_KNOWN];
	char knownMsg[MAX_KNOWN][400];
	pthread_mutex_t lock;
	uint32_t queueSize;
	uint64_t pendingSeeds;
	QueueItem queue[QUEUE_SLOTS];
	WorkerShm workers[MAX_WORKERS];
};

static Shm* shm = nullptr;
static std::atomic<uint64_t>* outcomeTable = nullptr;
static std::atomic<uint64_t>* stateTable = nullptr;
static std::atomic<uint64_t>* transTable = nullptr;
constexpr uint64_t TABLE = 1u << 23;

static char* logArena[MAX_WORKERS];
static char* stackArena[MAX_WORKERS];

static Registry registry;
static std::vector<std::string> knownSignatures;
static std::string property;

static void* shared(size_t size) {
	void* p = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
	return p;
}

uint64_t mix(uint64_t h, uint64_t v) {
	h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdull;
	h ^= h >> 33;
	return h;
}

uint64_t hashBytes(const void* data, size_t size, uint64_t h) {
	auto p = static_cast<const uint8_t*>(data);
	h = mix(h, size);
	while (size >= 8) {
		uint64_t v;
		memcpy(&v, p, 8);
		h = mix(h, v);
		p += 8;
		size -= 8;
	}
	uint64_t v = 0;
	for (size_t i = 0; i < size; ++i) v |= static_cast<uint64_t>(p[i]) << (8 * i);
	return mix(h, v);
}

static bool insert(std::atomic<uint64_t>* table, std::atomic<uint64_t>& count, uint64_t h) {
	if (h == 0) h = 1;
	uint64_t i = h & (TABLE - 1);
	for (int probe = 0; probe < 64; ++probe) {
		uint64_t cur = table[i].load(std::memory_order_relaxed);
		if (cur == h) return false;
		if (cur == 0) {
			if (table[i].compare_exchange_strong(cur, h)) {
				count.fetch_add(1, std::memory_order_relaxed);
				return true;
			}
			if (cur == h) return false;
		}
		i = (i + 1) & (TABLE - 1);
	}
	return false; // full: undercounts
}

std::string fmt(const char* format, ...) {
	char buf[2048];
	va_list ap;
	va_start(ap, format);
	vsnprintf(buf, sizeof buf, format, ap);
	va_end(ap);
	return buf;
}

std::string hex(const Bytes& data, size_t max) {
	static const char digits[] = "0123456789abcdef";
	size_t n = std::min(data.size(), max);
	std::string s(2 * n, '0');
	for (size_t i = 0; i < n; ++i) { s[2 * i] = digits[data[i] >> 4]; s[2 * i + 1] = digits[data[i] & 15]; }
	if (data.size() > max) s += "...";
	return s;
}

// ---------------------------------------------------------------------------------------------------------------
// The current execution

struct Point {
	uint32_t n;
	bool dev;
};

struct Exec {
	WorkerShm* w = nullptr;
	bool verbose = false;
	std::vector<uint16_t> prefix;
	std::vector<uint16_t> choices;
	std::vector<Point> points;
	int devs = 0;
	int maxDevs = 0;
	uint64_t obs = 0;
	uint64_t lastState = 0;
	uint64_t nSteps = 0, nChecks = 0;
	bool rerun = false;
	bool diverged = false;
	std::vector<std::string> trace;
	// choices to be made again within the execution
	int tapeMode = 0; // 1 recording, 2 repeating
	std::vector<std::pair<int, int>> tape; // arity, choice
	size_t tapePos = 0;
	bool tapeDiffers = false;
};

static Exec cur;
static Ctx theCtx;
Ctx& ctx() { return theCtx; }

static int newPoint(int n, bool dev, const char* label);

static int point(int n, bool dev, const char* label) {
	if (cur.tapeMode == 2) {
		if (cur.tapePos < cur.tape.size() && cur.tape[cur.tapePos].first == n) return cur.tape[cur.tapePos++].second;
		cur.tapeDiffers = true;
		return 0;
	}
	int c = newPoint(n, dev, label);
	if (cur.tapeMode == 1) cur.tape.emplace_back(n, c);
	return c;
}

static int newPoint(int n, bool dev, const char* label) {
	if (n <= 0) theCtx.fail("harness error: empty alphabet");
	if (n == 1) return 0;
	if (n > 65536) theCtx.fail("harness error: alphabet too large");
	size_t i = cur.points.size();
	int c = 0;
	if (i < cur.prefix.size()) {
		c = cur.prefix[i];
		if (c >= n) {
			// A prefix is replayed exactly unless the code under test depends on something uncontrolled
			cur.diverged = true;
			c = 0;
		}
	}
	if (i >= MAX_POINTS) theCtx.fail("harness error: too many choice points");
	cur.points.push_back({static_cast<uint32_t>(n), dev});
	cur.choices.push_back(static_cast<uint16_t>(c));
	if (cur.w) {
		cur.w->choices[i] = static_cast<uint16_t>(c);
		cur.w->nChoices.store(static_cast<uint32_t>(i + 1), std::memory_order_release);
	}
	if (dev && c) ++cur.devs;
	if (cur.verbose && (c || !dev) && *label) theCtx.note(fmt("    [%s = %d of %d]", label, c, n));
	return c;
}

int Ctx::choose(int n, const char* label) { return point(n, false, label); }
int Ctx::deviate(int n, const char* label) {
	if (cur.maxDevs == 0) return 0;
	return point(n, true, label);
}
int Ctx::deviations() const { return cur.devs; }
void Ctx::record() {
	cur.tapeMode = 1;
	cur.tape.clear();
}
void Ctx::repeat() {
	cur.tapeMode = 2;
	cur.tapePos = 0;
	cur.tapeDiffers = false;
}
bool Ctx::stop() {
	bool same = cur.tapeMode != 2 || (!cur.tapeDiffers && cur.tapePos == cur.tape.size());
	cur.tapeMode = 0;
	return same;
}

[[noreturn]] void Ctx::fail(const std::string& what) {
	if (cur.w) {
		cur.w->failed = 1;
		strncpy(cur.w->message, what.c_str(), MSG_BYTES - 1);
	}
	if (cur.verbose) {
		printf("    VIOLATED: %s\n", what.c_str());
		fflush(stdout);
	}
	_exit(77);
}

void Ctx::compared() { ++cur.nChecks; }

void Ctx::finding(const std::string& signature, const std::string& what) {
	for (size_t i = 0; i < knownSignatures.size() && i < MAX_KNOWN; ++i) {
		if (knownSignatures[i] == signature) {
			if (shm && shm->knownSeen[i].fetch_add(1) == 0) {
				strncpy(shm->knownMsg[i], what.c_str(), sizeof shm->knownMsg[i] - 1);
			}
			note("    known finding " + signature + ": " + what);
			return;
		}
	}
	fail(signature + ": " + what);
}

void Ctx::step(const std::string& what) {
	++cur.nSteps;
	alive();
	if (cur.verbose) note("  " + what);
}

void Ctx::note(const std::string& what) {
	if (cur.verbose) {
		cur.trace.push_back(what);
		printf("%s\n", what.c_str());
		fflush(stdout);
	}
}

bool Ctx::verbose() const { return cur.verbose; }
void Ctx::alive() {
	if (cur.w) cur.w->beat.fetch_add(1, std::memory_order_relaxed);
}
void Ctx::obs(uint64_t v) { cur.obs = mix(cur.obs, v); }
void Ctx::obs(const Bytes& v) { cur.obs = mix(cur.obs, hash(v)); }
void Ctx::obs(const std::string& v) { cur.obs = mix(cur.obs, hash(v)); }
void Ctx::state(uint64_t h) {
	if (shm && !cur.verbose) {
		insert(stateTable, shm->states, h);
		insert(transTable, shm->transitions, mix(cur.lastState, h));
	}
	cur.lastState = h;
}

void Registry::add(std::string name, std::function<void(Ctx&)> run, int maxDeviations) {
	scenarios.push_back({std::move(name), std::move(run), maxDeviations});
}
bool Registry::thorough() const { return isThorough; }
void Registry::bound(const std::string& text) { bounds.push_back(text); }

Outcome attempt(const std::function<void()>& f) {
	Outcome o;
	try {
		f();
	} catch (const std::exception& e) {
		o.threw = true;
		int status = 0;
		char* name = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &status);
		o.type = name ? name : typeid(e).name();
		free(name);
		o.what = e.what();
		if (auto s = dynamic_cast<const std::system_error*>(&e)) o.code = s->code().value();
	} catch (...) {
		theCtx.fail("an exception that is not derived from std::exception was thrown");
	}
	return o;
}

static void runOne(uint32_t scenario, const std::vector<uint16_t>& prefix, WorkerShm* w, bool verbose) {
	const auto& s = registry.scenarios[scenario];
	cur.w = w;
	cur.verbose = verbose;
	cur.prefix = prefix;
	cur.choices.clear();
	cur.points.clear();
	cur.devs = 0;
	cur.maxDevs = s.maxDeviations;
	cur.obs = 0;
	cur.lastState = hash(s.name);
	cur.nSteps = cur.nChecks = 0;
	cur.diverged = false;
	cur.tapeMode = 0;
	if (w) {
		w->scenario = scenario;
		w->nChoices = 0;
		w->beat.fetch_add(1);
		w->running = 1;
	}
	try {
		s.run(theCtx);
	} catch (const std::exception& e) {
		theCtx.fail(std::string("unexpected exception: ") + e.what());
	} catch (...) {
		theCtx.fail("unexpected exception of an unknown type");
	}
	if (w) w->running = 0;
}

// ---------------------------------------------------------------------------------------------------------------
// Exploration

struct Item {
	uint32_t scenario = 0;
	std::vector<uint16_t> prefix;
	uint32_t lo = 0, hi = 0; // alternatives lo..hi-1 of the point after the prefix; hi == 0: just the prefix
};

static void put(char*& p, const void* d, size_t n) { memcpy(p, d, n); p += n; }
template <typename T> static T get(char*& p) { T v; memcpy(&v, p, sizeof v); p += sizeof v; return v; }

static bool saveStack(int wi, const std::vector<Item>& stack) {
	char* p = stackArena[wi];
	char* end = p + STACK_BYTES;
	for (const auto& it : stack) {
		if (end - p < static_cast<ptrdiff_t>(16 + it.prefix.size() * 2)) return false;
		uint32_t n = it.prefix.size();
		put(p, &it.scenario, 4); put(p, &it.lo, 4); put(p, &it.hi, 4); put(p, &n, 4);
		put(p, it.prefix.data(), n * 2);
	}
	shm->workers[wi].stackUsed = p - stackArena[wi];
	return true;
}

static std::vector<Item> loadStack(int wi) {
	std::vector<Item> stack;
	char* p = stackArena[wi];
	char* end = p + shm->workers[wi].stackUsed;
	while (p < end) {
		Item it;
		it.scenario = get<uint32_t>(p); it.lo = get<uint32_t>(p); it.hi = get<uint32_t>(p);
		uint32_t n = get<uint32_t>(p);
		it.prefix.resize(n);
		memcpy(it.prefix.data(), p, n * 2);
		p += n * 2;
		stack.push_back(std::move(it));
	}
	return stack;
}

static bool tryPop(Item& it, bool& idle) {
	bool ok = false;
	pthread_mutex_lock(&shm->lock);
	if (shm->queueSize) {
		auto& q = shm->queue[--shm->queueSize];
		it.scenario = q.scenario;
		it.prefix.assign(q.prefix, q.prefix + q.size);
		it.lo = q.lo;
		it.hi = q.hi;
		ok = true;
		// under the lock: the parent must never see an empty queue and all the workers idle while this item is in flight
		if (idle) { shm->idle.fetch_sub(1); idle = false; }
	}
	pthread_mutex_unlock(&shm->lock);
	return ok;
}

static bool tryPush(const Item& it) {
	bool ok = false;
	pthread_mutex_lock(&shm->lock);
	if (shm->queueSize < QUEUE_SLOTS) {
		auto& q = shm->queue[shm->queueSize++];
		q.scenario = it.scenario;
		q.size = it.prefix.size();
		memcpy(q.prefix, it.prefix.data(), it.prefix.size() * 2);
		q.lo = it.lo;
		q.hi = it.hi;
		ok = true;
	}
	pthread_mutex_unlock(&shm->lock);
	return ok;
}

static void donate(std::vector<Item>& stack) {
	// the oldest entry has the largest subtree below it
	if (stack.empty() || shm->idle.load(std::memory_order_relaxed) == 0 || shm->queueSize > 64) return;
	if (stack.size() == 1) {
		auto& it = stack.front();
		if (it.hi > it.lo + 1) {
			Item half = it;
			half.lo = it.lo + (it.hi - it.lo) / 2;
			if (tryPush(half)) it.hi = half.lo;
		}
		return;
	}
	size_t n = std::min<size_t>(stack.size() / 2, 8);
	for (size_t i = 0; i < n; ++i) {
		if (!tryPush(stack.front())) break;
		stack.erase(stack.begin());
	}
}

constexpr uint32_t EPOCH_EXECS = 4000;

// Runs in a process of its own, from the pristine state of the code under test
static void epoch(int wi, std::vector<Item>& stack, double deadline) {
	WorkerShm& w = shm->workers[wi];
	char* log = logArena[wi];
	char* logEnd = log + LOG_BYTES;
	double started = realTime();
	w.logUsed = 0;
	for (uint32_t n = 0; n < EPOCH_EXECS && !stack.empty() && !shm->stop.load(std::memory_order_relaxed); ++n) {
		if ((n & 15) == 15) {
			double t = realTime();
			if (t > deadline) { shm->stop = 2; break; }
			if (t - started > 2.0) break;
		}
		Item& top = stack.back();
		Item it;
		it.scenario = top.scenario;
		it.prefix = top.prefix;
		if (top.hi > top.lo) {
			it.prefix.push_back(static_cast<uint16_t>(top.lo));
			if (++top.lo >= top.hi) stack.pop_back();
		} else {
			stack.pop_back();
		}
		uint64_t number = shm->execs.fetch_add(1);
		int times = (number % 509) == 0 ? 2 : 1;
		uint64_t firstObs = 0;
		for (int r = 0; r < times; ++r) {
			if (logEnd - log < static_cast<ptrdiff_t>(8 + MAX_POINTS * 2)) { n = EPOCH_EXECS; }
			// log before running, so that a crash is in the log
			uint32_t sz = it.prefix.size();
			if (logEnd - log >= static_cast<ptrdiff_t>(8 + sz * 2)) {
				put(log, &it.scenario, 4);
				put(log, &sz, 4);
				put(log, it.prefix.data(), sz * 2);
				w.logUsed = log - logArena[wi];
			}
			runOne(it.scenario, it.prefix, &w, false);
			if (r == 0) {
				firstObs = cur.obs;
				insert(outcomeTable, shm->outcomes, mix(cur.obs, it.scenario));
			} else {
				shm->reexecs.fetch_add(1);
				if (cur.obs != firstObs) shm->nondet.fetch_add(1);
			}
		}
		if (cur.diverged) { shm->diverged.fetch_add(1); continue; }
		shm->choicePoints.fetch_add(cur.points.size() > it.prefix.size() ? cur.points.size() - it.prefix.size() + 1 : 1, std::memory_order_relaxed);
		shm->steps.fetch_add(cur.nSteps, std::memory_order_relaxed);
		shm->checks.fetch_add(cur.nChecks, std::memory_order_relaxed);
		shm->scenarioExecs[it.scenario & 4095].fetch_add(1, std::memory_order_relaxed);
		if (cur.devs) shm->devExecs.fetch_add(1, std::memory_order_relaxed);
		uint64_t mp = shm->maxPoints.load();
		while (mp < cur.points.size() && !shm->maxPoints.compare_exchange_weak(mp, cur.points.size())) {}
		int devs = 0;
		for (size_t i = 0; i < cur.points.size(); ++i) {
			if (i >= it.prefix.size() && cur.points[i].n > 1) {
				if (!cur.points[i].dev || devs < cur.maxDevs) {
					Item alt;
					alt.scenario = it.scenario;
					alt.prefix.assign(cur.choices.begin(), cur.choices.begin() + i);
					alt.lo = 1;
					alt.hi = cur.points[i].n;
					stack.push_back(std::move(alt));
				} else {
					shm->pruned.fetch_add(1, std::memory_order_relaxed);
				}
			}
			if (cur.points[i].dev && cur.choices[i]) ++devs;
		}
		if ((n & 3) == 3) donate(stack);
	}
	w.epochDone = saveStack(wi, stack) ? 1 : 2;
}

static void workerMain(int wi, double deadline, double hangS) {
	WorkerShm& w = shm->workers[wi];
	std::vector<Item> stack;
	bool idle = false;
	int total = shm->workers[0].epochDone; (void) total;
	for (;;) {
		if (shm->stop.load()) _exit(0);
		if (stack.empty()) {
			Item it;
			if (tryPop(it, idle)) {
				stack.push_back(std::move(it));
			} else {
				if (!idle) { shm->idle.fetch_add(1); idle = true; }
				// all idle and nothing queued: done (checked by the parent)
				realSleepMs(1);
				continue;
			}
		}
		w.epochDone = 0;
		w.failed = 0;
		w.message[0] = 0;
		pid_t pid = fork();
		if (pid == 0) {
			epoch(wi, stack, deadline);
			_exit(0);
		}
		uint64_t beat = w.beat.load();
		double beatAt = realTime();
		int status = 0;
		bool hung = false;
		int naps = 0;
		for (;;) {
			pid_t r = waitpid(pid, &status, WNOHANG);
			if (r == pid) break;
			realSleepMs(naps++ < 50 ? 1 : 5);
			uint64_t b = w.beat.load();
			if (b != beat) { beat = b; beatAt = realTime(); }
			else if (realTime() - beatAt > hangS) {
				hung = true;
				kill(pid, SIGKILL);
				waitpid(pid, &status, 0);
				break;
			}
			if (shm->stop.load() == 1) { kill(pid, SIGKILL); waitpid(pid, &status, 0); _exit(0); }
		}
		if (!hung && WIFEXITED(status) && WEXITSTATUS(status) == 0 && w.epochDone) {
			if (w.epochDone == 2) { fprintf(stderr, "stack arena overflow\n"); shm->stop = 2; _exit(0); }
			stack = loadStack(wi);
			continue;
		}
		if (hung) snprintf(w.message, MSG_BYTES, "the program hangs (no progress for %.0f s)", hangS);
		else if (!w.failed) {
			if (WIFSIGNALED(status)) snprintf(w.message, MSG_BYTES, "the program is terminated by signal %d", WTERMSIG(status));
			else snprintf(w.message, MSG_BYTES, "the program is terminated (exit status %d)", WEXITSTATUS(status));
		}
		int none = 0;
		shm->violator.compare_exchange_strong(none, wi + 1);
		shm->stop = 1;
		_exit(0);
	}
}

// ---------------------------------------------------------------------------------------------------------------
// Replay

struct Run { std::string scenario; std::vector<uint16_t> choices; };

static uint32_t findScenario(const std::string& name) {
	for (uint32_t i = 0; i < registry.scenarios.size(); ++i)
		if (registry.scenarios[i].name == name) return i;
	fprintf(stderr, "no scenario %s\n", name.c_str());
	_exit(2);
}

struct ReplayResult { bool failed = false; std::string message; std::string output; };

static ReplayResult replay(const std::vector<Run>& runs, double limitS) {
	ReplayResult res;
	WorkerShm& w = shm->workers[MAX_WORKERS - 1];
	w.failed = 0;
	w.message[0] = 0;
	char path[] = "/tmp/mcreplayXXXXXX";
	int fd = mkstemp(path);
	unlink(path);
	fflush(stdout);
	pid_t pid = fork();
	if (pid == 0) {
		dup2(fd, 1);
		dup2(fd, 2);
		for (size_t i = 0; i < runs.size(); ++i) {
			runOne(findScenario(runs[i].scenario), runs[i].choices, &w, i + 1 == runs.size());
		}
		fflush(stdout);
		_exit(0);
	}
	double start = realTime(), beatAt = start;
	uint64_t beat = w.beat.load();
	int status = 0;
	bool hung = false;
	for (;;) {
		if (waitpid(pid, &status, WNOHANG) == pid) break;
		realSleepMs(2);
		uint64_t b = w.beat.load();
		if (b != beat) { beat = b; beatAt = realTime(); }
		else if (realTime() - beatAt > limitS) {
			hung = true;
			kill(pid, SIGKILL);
			waitpid(pid, &status, 0);
			break;
		}
	}
	off_t size = lseek(fd, 0, SEEK_END);
	lseek(fd, std::max<off_t>(0, size - 60000), SEEK_SET);
	char buf[4096];
	for (;;) {
		ssize_t n = syscall(SYS_read, fd, buf, sizeof buf);
		if (n <= 0) break;
		res.output.append(buf, n);
	}
	syscall(SYS_close, fd);
	if (hung) { res.failed = true; res.message = fmt("the program hangs (no progress for %.0f s)", limitS); }
	else if (w.failed) { res.failed = true; res.message = w.message; }
	else if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) {
		res.failed = true;
		res.message = WIFSIGNALED(status) ? fmt("the program is terminated by signal %d", WTERMSIG(status))
										  : fmt("the program is terminated (exit status %d)", WEXITSTATUS(status));
		auto at = res.output.find("ERROR: AddressSanitizer");
		if (at != std::string::npos) res.message += ": " + res.output.substr(at + 7, res.output.find('\n', at) - at - 7);
		else {
			at = res.output.find("terminate called");
			if (at != std::string::npos) {
				std::string t = res.output.substr(at, 300);
				for (auto& c : t) if (c == '\n') c = ' ';
				res.message += ": " + t;
			} else if ((at = res.output.find("Assertion")) != std::string::npos) {
				res.message += ": " + res.output.substr(at, res.output.find('\n', at) - at);
			}
		}
	}
	return res;
}

static std::string jsonEscape(const std::string& s) {
	std::string o;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c == '\n') o += "\\n";
		else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
		else o += c;
	}
	return o;
}

static bool writeReplay(const std::string& path, const std::vector<Run>& runs, const std::string& message, const std::string& output) {
	std::ofstream f(path);
	f << "property " << property << "\n";
	f << "tier " << (registry.isThorough ? "thorough" : "quick") << "\n";
	for (auto& r : runs) {
		f << "run " << r.choices.size();
		for (auto c : r.choices) f << ' ' << c;
		f << ' ' << r.scenario << "\n";
	}
	f << "message " << jsonEscape(message) << "\n";
	f << "output\n" << output << "\n";
	return static_cast<bool>(f);
}

static std::vector<Run> readReplay(const std::string& path) {
	std::vector<Run> runs;
	std::ifstream f(path);
	std::string line;
	while (std::getline(f, line)) {
		std::istringstream is(line);
		std::string word;
		is >> word;
		if (word == "output") break;
		if (word == "tier") { std::string t; is >> t; registry.isThorough = t == "thorough"; }
		if (word != "run") continue;
		Run r;
		size_t n = 0;
		is >> n;
		for (size_t i = 0; i < n; ++i) { unsigned c; is >> c; r.choices.push_back(static_cast<uint16_t>(c)); }
		is.ignore(1);
		std::getline(is, r.scenario);
		runs.push_back(std::move(r));
	}
	return runs;
}

static std::string sampleText(const Run& r, const std::string& output) {
	std::string s = r.scenario + ":";
	std::istringstream is(output);
	std::string line;
	while (std::getline(is, line)) {
		if (s.size() > 900) { s += " ..."; break; }
		size_t b = line.find_first_not_of(' ');
		if (b == std::string::npos) continue;
		s += " | " + line.substr(b, 200);
	}
	return s;
}

} // namespace mc

using namespace mc;

int main(int argc, char** argv) {
	std::map<std::string, std::string> opt;
	for (int i = 1; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
	property = opt["--property"];
	std::string out = opt["--out"];
	int workers = opt.count("--workers") ? atoi(opt["--workers"].c_str()) : 8;
	double budget = opt.count("--budget") ? atof(opt["--budget"].c_str()) : 600;
	double hangS = opt.count("--hang") ? atof(opt["--hang"].c_str()) : 30;
	if (workers < 1) workers = 1;
	if (workers > MAX_WORKERS - 1) workers = MAX_WORKERS - 1;
	registry.isThorough = opt["--tier"] == "thorough";
	{
		std::istringstream is(opt["--known"]);
		std::string s;
		while (std::getline(is, s, ',')) if (!s.empty()) knownSignatures.push_back(s);
	}
	signal(SIGPIPE, SIG_DFL); // SIGPIPE kills, as it does in a program
	shm = static_cast<Shm*>(shared(sizeof(Shm)));
	outcomeTable = static_cast<std::atomic<uint64_t>*>(shared(TABLE * 8));
	stateTable = static_cast<std::atomic<uint64_t>*>(shared(TABLE * 8));
	transTable = static_cast<std::atomic<uint64_t>*>(shared(TABLE * 8));
	for (int i = 0; i < workers; ++i) {
		logArena[i] = static_cast<char*>(shared(LOG_BYTES));
		stackArena[i] = static_cast<char*>(shared(STACK_BYTES));
	}
	pthread_mutexattr_t attr;
	pthread_mutexattr_init(&attr);
	pthread_mutexattr_setpshared(&attr, PTHREAD_PROCESS_SHARED);
	pthread_mutex_init(&shm->lock, &attr);

	if (opt.count("--replay")) {
		auto runs = readReplay(opt["--replay"]);
		define(registry);
		auto r = replay(runs, 60);
		printf("%s\n%s\n", r.output.c_str(), r.failed ? ("FAILED: " + r.message).c_str() : "passed");
		return r.failed ? 1 : 0;
	}
	double started = realTime();
	define(registry);
	if (opt.count("--only")) {
		std::vector<Scenario> keep;
		for (auto& s : registry.scenarios) if (s.name.find(opt["--only"]) != std::string::npos) keep.push_back(s);
		registry.scenarios = keep;
	}
	std::set<std::string> names;
	for (auto& s : registry.scenarios)
		if (!names.insert(s.name).second) { fprintf(stderr, "duplicate scenario %s\n", s.name.c_str()); return 2; }
	if (registry.scenarios.empty()) { fprintf(stderr, "no scenarios\n"); return 2; }

	// seed: scenarios in order; the queue is a stack and may be smaller than the number of scenarios
	std::vector<Item> seeds;
	for (uint32_t i = 0; i < registry.scenarios.size(); ++i) {
		Item it;
		it.scenario = i;
		seeds.push_back(it);
	}
	std::reverse(seeds.begin(), seeds.end()); // pop from the back: first scenario first
	auto feed = [&] {
		while (!seeds.empty()) {
			pthread_mutex_lock(&shm->lock);
			bool room = shm->queueSize < 64;
			pthread_mutex_unlock(&shm->lock);
			if (!room || !tryPush(seeds.back())) break;
			seeds.pop_back();
		}
	};
	feed();
	int devnull = open("/dev/null", O_WRONLY);
	std::vector<pid_t> pids;
	fflush(stdout);
	for (int i = 0; i < workers; ++i) {
		pid_t pid = fork();
		if (pid == 0) {
			if (!opt.count("--stderr")) { dup2(devnull, 1); dup2(devnull, 2); }
			workerMain(i, started + budget, hangS);
			_exit(0);
		}
		pids.push_back(pid);
	}
	bool dead = false;
	for (;;) {
		realSleepMs(1);
		if (shm->stop.load()) break;
		feed();
		if (seeds.empty() && shm->idle.load() == workers) {
			pthread_mutex_lock(&shm->lock);
			bool done = shm->queueSize == 0 && shm->idle.load() == workers;
			pthread_mutex_unlock(&shm->lock);
			if (done) { shm->stop = 3; break; }
		}
		int status;
		pid_t p = waitpid(-1, &status, WNOHANG);
		if (p > 0 && !shm->stop.load()) { dead = true; break; }
	}
	bool capped = shm->stop.load() == 2;
	if (dead) shm->stop = 1;
	for (auto pid : pids) waitpid(pid, nullptr, 0);
	if (dead && !shm->violator.load()) { fprintf(stderr, "a worker died\n"); capped = true; }

	int exitCode = 0;
	std::string violation, replayPath, violationScenario;
	bool unreproduced = false;
	if (int v = shm->violator.load()) {
		WorkerShm& w = shm->workers[v - 1];
		std::vector<Run> single{{registry.scenarios[w.scenario].name,
			std::vector<uint16_t>(w.choices, w.choices + w.nChoices.load())}};
		std::string first = w.message;
		auto r = replay(single, std::max(60.0, 2 * hangS));
		std::vector<Run> runs = single;
		if (!r.failed) {
			runs.clear();
			char* p = logArena[v - 1];
			char* end = p + w.logUsed;
			while (p < end) {
				Run run;
				run.scenario = registry.scenarios[get<uint32_t>(p)].name;
				uint32_t n = get<uint32_t>(p);
				run.choices.resize(n);
				memcpy(run.choices.data(), p, n * 2);
				p += n * 2;
				runs.push_back(std::move(run));
			}
			r = replay(runs, std::max(60.0, 2 * hangS));
			if (r.failed) {
				// keep the shortest suffix that still fails (by halving)
				while (runs.size() > 1) {
					std::vector<Run> half(runs.begin() + (runs.size() + 1) / 2, runs.end());
					auto rr = replay(half, std::max(60.0, 2 * hangS));
					if (!rr.failed) break;
					runs = half;
					r = rr;
				}
			}
		}
		if (r.failed) {
			violation = r.message;
			violationScenario = single[0].scenario;
			replayPath = opt["--replays"] + "/" + property + fmt("-%016llx.replay", static_cast<unsigned long long>(
				hashBytes(single[0].choices.data(), single[0].choices.size() * 2, hash(single[0].scenario))));
			writeReplay(replayPath, runs, violation, r.output);
			exitCode = 1;
		} else {
			unreproduced = true;
			fprintf(stderr, "not reproduced: scenario %s: %s\n", single[0].scenario.c_str(), first.c_str());
		}
	}

	// samples: the first execution of up to three scenarios and a deeper one
	std::vector<std::string> samples;
	if (exitCode == 0) {
		size_t n = registry.scenarios.size();
		std::set<size_t> which{0, n / 2, n - 1};
		for (auto i : which) {
			Run run{registry.scenarios[i].name, {}};
			auto r = replay({run}, 60);
			samples.push_back(sampleText(run, r.output));
		}
	}

	double wall = realTime() - started;
	if (!out.empty()) {
		std::ofstream f(out);
		f << "{\n";
		auto num = [&](const char* k, uint64_t v) { f << "  \"" << k << "\": " << v << ",\n"; };
		num("executions", shm->execs);
		num("choice_points", shm->choicePoints);
		num("steps", shm->steps);
		num("checks", shm->checks);
		num("outcomes", shm->outcomes);
		num("states", shm->states);
		num("transitions", shm->transitions);
		num("executions_with_deviations", shm->devExecs);
		num("reexecuted", shm->reexecs);
		num("reexecutions_that_differ", shm->nondet);
		num("diverged", shm->diverged);
		num("longest_choice_sequence", shm->maxPoints);
		num("scenarios", registry.scenarios.size());
		f << "  \"capped\": " << (capped || unreproduced || shm->diverged.load() ? "true" : "false") << ",\n";
		f << "  \"unreproduced\": " << (unreproduced ? "true" : "false") << ",\n";
		f << "  \"bounds\": [";
		for (size_t i = 0; i < registry.bounds.size(); ++i) f << (i ? ", " : "") << '"' << jsonEscape(registry.bounds[i]) << '"';
		f << "],\n  \"per_scenario\": {";
		std::map<std::string, uint64_t> groups;
		for (size_t i = 0; i < registry.scenarios.size(); ++i) {
			auto name = registry.scenarios[i].name;
			auto slash = name.find('/');
			groups[name.substr(0, slash)] += shm->scenarioExecs[i & 4095];
		}
		bool firstG = true;
		for (auto& g : groups) { f << (firstG ? "" : ", ") << '"' << jsonEscape(g.first) << "\": " << g.second; firstG = false; }
		f << "},\n  \"known\": [";
		bool firstK = true;
		for (size_t i = 0; i < knownSignatures.size() && i < MAX_KNOWN; ++i) {
			f << (firstK ? "" : ", ") << "{\"signature\": \"" << jsonEscape(knownSignatures[i]) << "\", \"seen\": " << shm->knownSeen[i]
			  << ", \"example\": \"" << jsonEscape(shm->knownMsg[i]) << "\"}";
			firstK = false;
		}
		f << "],\n  \"samples\": [";
		for (size_t i = 0; i < samples.size(); ++i) f << (i ? ",\n    " : "") << '"' << jsonEscape(samples[i]) << '"';
		f << "],\n  \"violation\": \"" << jsonEscape(violation) << "\",\n";
		f << "  \"violation_scenario\": \"" << jsonEscape(violationScenario) << "\",\n";
		f << "  \"replay\": \"" << jsonEscape(replayPath) << "\",\n";
		f << "  \"wall_s\": " << wall << "\n}\n";
	}
	return exitCode;
}
