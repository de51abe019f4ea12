// The simulated environment of the library: sockets, waits and clocks (linked in by -Wl,--wrap=...).
// Time is virtual and only advances by waiting. Everything is deterministic; whatever the environment may
// do otherwise is a choice of the explorer.
#pragma once
#include "mc.h"
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace sim {

using mc::Bytes;
using Time = int64_t; // ns
constexpr Time US = 1000, MS = 1000000, SEC = 1000000000;
constexpr Time FOREVER = INT64_MAX / 4;

struct Addr {
	uint32_t ip = 0;   // host order
	uint16_t port = 0; // host order
	bool operator==(const Addr& o) const { return ip == o.ip && port == o.port; }
	bool operator<(const Addr& o) const { return ip != o.ip ? ip < o.ip : port < o.port; }
	std::string str() const;
};
uint32_t ip(const std::string& dotted);

/// What may go wrong: each bit adds alternatives (deviations) to the calls.
enum Faults : uint32_t {
	F_NONE = 0,
	F_RECV_SHORT = 1 << 0,    // TCP: fewer bytes than available
	F_RECV_EINTR = 1 << 1,
	F_RECV_RESET = 1 << 2,    // ECONNRESET
	F_SEND_PARTIAL = 1 << 3,
	F_SEND_EINTR = 1 << 4,
	F_SEND_RESET = 1 << 5,    // EPIPE / ECONNRESET
	F_SELECT_EINTR = 1 << 6,
	F_SELECT_ERROR = 1 << 7,
	F_SOCKET = 1 << 8,        // EMFILE
	F_SETUP = 1 << 9,         // fcntl, setsockopt, bind, getsockopt fail
	F_CONNECT = 1 << 10,      // immediate success, refused now / later, unreachable, silent
	F_UDP_SEND = 1 << 11,     // ENETUNREACH, ENOBUFS, EPERM
	F_UDP_RECV = 1 << 12,     // ECONNREFUSED (ICMP)
	F_FIN = 1 << 13,          // the peer closes instead of delivering more bytes
	F_CONNECT_EINTR = 1 << 14,
};

struct Datagram {
	Time time = 0;
	Addr from, to;
	Bytes data;
	int fd = -1; // of the sending socket (sent ones)
	int sendResult = 0; // errno of a failed sending
};

struct Stream; // one TCP connection as the peer sees it

/// The other side of TCP connections
struct TcpPeer {
	virtual ~TcpPeer() = default;
	virtual void onConnect(Stream&) {}
	virtual void onData(Stream&, const Bytes&) {}
	virtual void onShutdown(Stream&) {} // the client closed or shut down its side
};

struct Segment {
	Time at;
	enum Kind { DATA, FIN, RST } kind;
	Bytes data;
};

struct Stream {
	int id = 0;
	Addr remote;
	TcpPeer* peer = nullptr;
	Bytes sent;                    // everything the client has sent
	std::deque<Segment> incoming;  // in order of time
	Bytes ready;                   // arrived, not yet read
	size_t readyPos = 0;
	bool fin = false, rst = false; // arrived
	bool clientShut = false, clientClosed = false;
	Time connectedAt = 0, closedAt = 0;
	uint64_t consumed = 0;
	void push(const Bytes& data, Time delay);       // after everything that is queued
	void pushFin(Time delay);
	void pushRst(Time delay);
};

enum class Connecting { IN_PROGRESS, IMMEDIATE, REFUSED_NOW, REFUSED_LATER, UNREACHABLE_NOW, SILENT, TIMED_OUT_LATER };

struct Sock {
	int fd = -1;
	bool tcp = false;
	bool open = true;
	bool nonBlocking = false;
	Time recvTimeout = 0, sendTimeout = 0; // 0: forever
	std::map<std::pair<int, int>, int> options;
	bool bound = false;
	Addr local, connectedTo;
	bool connectCalled = false, connected = false;
	Time connectDone = 0;
	int connectError = 0;
	bool willConnect = false;
	int pendingError = 0;
	std::shared_ptr<Stream> stream;
	std::deque<Datagram> inbox;
	uint64_t bindOrder = 0;
	bool shut = false;
	int family = 0;
	Time openedAt = 0;
};

struct Call { // system call log (for the audit and for traces)
	Time time;
	std::string name;
	int fd;
	std::string detail;
};

/// One environment for one execution
class Net {
public:
	int zeroFd = 0; ///< which socket gets the descriptor 0, as in a program which has closed its standard input
	Net();
	~Net();
	Net(const Net&) = delete;

	Time now() const { return now_; }
	void advance(Time d);          // the program computes / sleeps
	uint32_t faults = F_NONE;
	bool logCalls = false;

	/// Hosts which listen on TCP; others refuse.
	std::map<Addr, TcpPeer*> listeners;
	/// How connecting goes by default and how long it takes
	Connecting connecting = Connecting::IN_PROGRESS;
	Time connectDelay = 100 * US;

	/// Datagrams on their way to the program
	void datagram(Addr from, uint16_t toPort, const Bytes& data, Time at);
	/// An error on a socket which receives (ICMP): the next reception on that port fails so
	void datagramError(uint16_t toPort, int err, Time at);
	/// All the datagrams the program has sent
	std::vector<Datagram> sent;
	std::function<void(const Datagram&)> onDatagram;
	/// Called to decide whether this sending fails (errno) - besides the faults
	std::function<int(const Datagram&)> udpSendError;

	/// Number of calls after which the program is taken as hanging
	uint64_t horizon = 200000;
	/// What happens when the horizon is reached (default: violation)
	uint64_t calls = 0;

	std::vector<std::shared_ptr<Stream>> streams;
	std::vector<Call> callLog;

	/// The errors of calls so far (without EINTR and EINPROGRESS)
	struct Error { const char* call; int code; };
	std::vector<Error> errors;
	const char* lastCall = "";

	// The audit of descriptors
	std::vector<std::string> misuse;  // uses of descriptors that are not open
	std::vector<int> openFds() const;
	uint64_t socketsOpened = 0, socketsClosed = 0;
	bool failOnMisuse = false;

	/// Values of the random device
	std::function<uint32_t()> random;

	Time steadyBase = 1000 * SEC;
	unsigned wallSteps = 0; // adjustments of the clock of the day

	// -- the simulation of the system calls
	Sock* find(int fd, const char* call);
	bool ours(int fd) const { return (fd >= 100 && fd < nextFd) || (fd == 0 && zeroUsed); } // open or closed
	void pump();
	void count(const char* call);
	void waitUntil(Time t);
	Time nextEvent() const;
	bool readable(const Sock& s) const;
	std::map<int, Sock> socks;
	std::deque<int> freeFds;
	int nextFd = 100;
	bool zeroUsed = false;
	uint64_t bindCounter = 0;
	std::vector<Datagram> flying; // sorted by time, stable
	std::multimap<Time, std::pair<uint16_t, int>> flyingErrors;
	Time now_ = 0;
	uint32_t interrupts = 0;      // number of interrupted calls so far
	uint32_t maxInterruptedMs = 0;
	uint16_t ephemeral = 40000;
};

Net& net();
bool active();

} // namespace sim
