// Deterministic simulator core: choices, fibers, time, simulated kernel.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace sim {
typedef uint64_t u64;
typedef uint32_t u32;
typedef int64_t i64;
typedef uint16_t u16;

static const u64 US = 1000ull, MS = 1000000ull, SEC = 1000000000ull;
static const u64 NEVER = ~0ull;

// ------------------------------------------------------------------ choices
// Every nondeterministic decision is a keyed draw (stream, index in stream).
// 0 is the default of every draw; only non-default outcomes are recorded.
enum : u32 { ST_CFG = 1, ST_SCHED = 2, ST_MEM = 3, ST_NET = 4, ST_FAULT = 5, ST_WORK = 6, ST_WAKE = 7, ST_APP = 16 };
struct Choice { u32 stream, idx, val; };
u32 pick(u32 stream, u32 n);              // 0..n-1
bool chance(u32 stream, double p);        // default false
inline u32 range(u32 stream, u32 lo, u32 hi) { return lo + pick(stream, hi - lo + 1); }
u64 draw64(u32 stream);                   // 64 random bits (default 0), logged as two draws

// ------------------------------------------------------------------ config of one run
struct Config {
    double p_switch = 0;      // pre-emption at an intercepted call
    double p_stall = 0;       // ... and freeze the thread for a while
    u32 max_stall_exp = 16;   // up to 2^exp us
    double p_mem = 0;         // pre-emption probability per memory access (race build)
    double p_eintr = 0;       // signal during an interruptible wait
    double p_seg = 0;         // network cuts the stream at a random point
    double p_jitter = 0;      // extra delivery delay
    u64 max_jitter = 2 * MS;
    u32 sndbuf = 65536, rcvbuf = 65536;
    u64 latency = 50 * US;
    double p_again = 0;       // a non-blocking transfer has nothing to do although poll() said so
    double p_acceptfail = 0;  // accept4 fails with a transient error
    double p_spurious = 0;    // spurious condition-variable wake-ups
    u64 step_cost = 1 * US;
    u64 max_steps = 2500000;
    u64 stall_budget = 2 * SEC;  // total time a run may freeze threads for
    u64 max_time = 500000ull * SEC;   // of one run
    u64 uptime = 0;           // monotonic clock at the start of the run
    u32 zero_after = 0;       // with first_fd 0: how many descriptors a process opens before it closes its standard ones
    u32 first_fd = 3;         // lowest free descriptor of a process
    bool races = false;       // report data races
};
extern Config cfg;

// ------------------------------------------------------------------ vector clocks
struct VC {
    std::vector<u32> c;
    u32 get(u32 i) const { return i < c.size() ? c[i] : 0; }
    void set(u32 i, u32 v) { if (c.size() <= i) c.resize(i + 1); c[i] = v; }
    void join(const VC& o) {
        if (c.size() < o.c.size()) c.resize(o.c.size());
        for (size_t i = 0; i < o.c.size(); i++) if (c[i] < o.c[i]) c[i] = o.c[i];
    }
};

// ------------------------------------------------------------------ fibers and nodes
struct Node;
struct File;
struct Fiber {
    u32 id = 0;
    std::string name;
    Node* node = nullptr;
    std::function<void()> fn;
    void* sp = nullptr;
    char* stack = nullptr;
    void* fake_stack = nullptr;
    enum State { RUN, BLOCKED, DONE, DEAD } state = RUN;
    std::function<bool()> pred;
    u64 deadline = NEVER;
    u64 sig_at = NEVER;
    bool interruptible = false, interrupted = false;
    bool user = false;             // started by the harness (an application thread), not by the library
    u64 stall_until = 0;
    bool detached = false, joined = false;
    int saved_errno = 0;
    void* cxa[2] = {0, 0};
    std::string tls;               // its thread-local storage while it does not run
    std::vector<std::pair<void (*)(void*), void*>> tls_dtors;
    int in_lib = 0;
    const char* op = "";           // what it is doing (for reports and state hashing)
    void* wait_mutex = nullptr;    // blocked on this mutex
    VC vc;
    std::vector<void*> cstack;     // shadow call stack (race build)
    u64 polls_idle = 0;            // consecutive poll returns without progress
    u64 wakeups = 0;               // total poll returns > 0
    u64 calls = 0;                 // intercepted calls
    u32 last_accept_pair = 0, last_connect_pair = 0;
    Fiber* parent = nullptr;       // the thread that started this one
    u64 last_run = 0;
};

struct Node {
    u32 id = 0;
    std::string name;
    u32 ip = 0;
    bool alive = true;      // process alive
    bool host_up = true;    // host alive (false: no FIN/RST, nothing answers)
    std::vector<std::shared_ptr<File>> fds;
    std::vector<bool> ever;       // fd number was ever open
    u32 max_fds = 1024; bool fail_listen = false; u32 allocated = 0;
    u64 stall_until = 0;
    double rate = 1.0;      // clock rate
    i64 wall_offset = 0;
    u64 ebadf = 0; std::string ebadf_what;
    u64 last_listener_ready = 0;
    std::string statics;    // the library's static data of this process while another one runs
};

extern Fiber* cur;            // current fiber (null outside of a run)
extern u64 now_ns;
extern u64 steps;
u64 seqno();                  // global event sequence number

Node* addNode(const char* name);
Fiber* spawn(Node* n, const char* name, std::function<void()> fn, bool user = true);
Fiber* fiberByPthread(unsigned long t);
const std::vector<Fiber*>& fibers();
void killNode(Node* n, bool host);   // process crash (host=false) or host crash (no FIN)

// blocks the current fiber; true when pred held, false on deadline/interruption
bool block(const char* op, std::function<bool()> pred, u64 deadline = NEVER, bool interruptible = false);
void yieldPoint(const char* op);     // scheduling point of an intercepted call
void forceYield();
void memPoint();                     // memory-access pre-emption (race build)
void sleepFor(u64 ns);
u64 stalledTotal();                  // time the run has frozen threads for so far
u64 progressCounter();
void memStart();                     // after cfg is final: arms memory-access pre-emption
bool waitUntil(std::function<bool()> pred, u64 ns);   // harness wait with relative limit
void at(u64 t, std::function<void()> f);              // discrete event

// ------------------------------------------------------------------ violations, log
[[noreturn]] void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void known(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));  // candidate known finding; run continues
void stat(const char* name, u64 n = 1);
extern bool tracing;
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // event log (hashed)
std::string describeFibers();

struct Lib { int s; Lib(); ~Lib(); };
struct App { int s; App(); ~App(); };
template <class F> auto L(F f) -> decltype(f()) { Lib l; return f(); }

// ------------------------------------------------------------------ kernel
enum Kind { K_EVENT, K_TIMER, K_SOCK, K_PIPE, K_EPOLL };
struct File {
    int kind; bool nonblock = false;
    VC vc;
    explicit File(int k) : kind(k) {}
    virtual ~File() {}
    virtual short ready() = 0;     // poll events (POLLIN...)
    virtual void closed() {}       // last descriptor closed
    int refs = 0;                  // descriptors (dup)
};
struct Sock;
struct Link {            // one connection: two directions
    u32 id = 0; bool tcp = true;
    Sock* end[2] = {0, 0};         // 0: connecting side, 1: accepting side
    Node* node[2] = {0, 0};
    struct Dir {                   // bytes from end[i] to end[1-i]
        std::string snd;           // accepted from sender, in flight
        std::string rcv;           // readable by the receiver
        u32 sndcap = 65536, rcvcap = 65536;
        bool fin = false, fin_done = false;
        bool pumping = false;
        u64 blocked_until = 0;     // partition/stall of the network
        u64 last_arrival = 0;
        u64 purged = 0;            // bytes lost to a reset
        u64 total_sent = 0, total_recv = 0, total_delivered = 0;
        VC vc;
    } d[2];
    bool rst_seen[2] = {false, false};
    bool rst_close[2] = {false, false};   // end i closed with unread data (RST)
    u64 last_read[2] = {0, 0};            // time end i last got bytes from recv()
    u64 established = 0;
    bool net_reset = false;
    bool silent[2] = {false, false};      // host of this end is gone
    bool late_data[2] = {false, false};   // data arrived after end i had closed
    u64 last_arrive[2] = {0, 0};          // time bytes last became readable at end i
    u64 closed_at[2] = {0, 0};
    u64 accepted_at = 0;
};
struct Sock : File {
    Node* node; bool tcp;
    bool listening = false, connecting = false, connected = false, bound = false;
    bool reuse = false;
    u32 addr = 0; u32 port = 0; std::string path;
    u32 backlog = 0;
    std::deque<std::shared_ptr<Sock>> acceptq;
    Link* link = nullptr; int side = 0;
    int err = 0;
    bool shut_rd = false, shut_wr = false, dead = false;
    bool peer_gone = false, peer_shut_rd = false, linger0 = false, abort_close = false;
    u64 conn_started = 0; Fiber* starter = nullptr;
    Sock(Node* n, bool t) : File(K_SOCK), node(n), tcp(t) {}
    Link::Dir& out() { return link->d[side]; }
    Link::Dir& in() { return link->d[1 - side]; }
    short ready() override;
    void closed() override;
};
Link* linkById(u32 id);
const std::vector<Link*>& links();
void netReset(Link* l);                          // both ends see ECONNRESET
void netBlock(Link* l, int dir, u64 until);      // partition one direction (NEVER: for good)
void netHeal(Link* l);
void setBlackhole(u32 ip, u32 port, int mode);   // 1: drop SYN, 2: refuse, 3: late answer
extern std::function<void(Node*, Link*)> onAccept;
bool pathExists(const std::string& p);
void touchPath(const std::string& p);            // create a plain file
bool listening(bool tcp, u32 ip, u32 port, const std::string& path);
u32 openFds(Node* n);
std::string fdList(Node* n);

// raw syscalls for harness peers (current fiber's node)
int k_socket(bool tcp); int k_connect_tcp(int fd, u32 ip, u32 port); int k_connect_unix(int fd, const std::string& p);
ssize_t k_send(int fd, const void* b, size_t n, int flags); ssize_t k_recv(int fd, void* b, size_t n, int flags);
int k_close(int fd); int k_shutdown(int fd, int how);
Link* linkOfFd(int fd);

// ------------------------------------------------------------------ heap (arena)
namespace heap {
void reset();
u64 bytesOfNode(u32 node); u64 leakedBytes(Node* n, std::string& what); std::string describe(const void* p); bool isFreed(const void* p);
u64 liveCount(); u64 liveBytes(); u64 peakBytes(); u64 maxAlloc();
void resetPeak();
void* alloc(size_t n, int kind); void dealloc(void* p, int kind);
bool owns(const void* p);
bool poisoned(const void* p, size_t n);
std::string dump(int max);
void markNodeDead(u32 node);   // allocations of a crashed process do not count as leaks
}
extern "C" void sim_mem_access(void* addr, u32 size, bool write, void* pc);
void race_free(void* p, size_t n);

// ------------------------------------------------------------------ running
struct Result {
    bool violated = false; std::string cls, msg;
    u64 hash = 0, sched_hash = 0, steps = 0, simtime = 0, switches = 0;
    std::vector<Choice> log;
    std::map<std::string, std::string> known;
    bool nontrivial = false;
};
struct Scenario { const char* name; void (*fn)(); };
extern std::string prop;                 // property under check
extern std::map<std::string, u64> stats;
extern std::unordered_set<u64> states;   // distinct wait-state vectors
Result runOnce(u64 seed, const std::vector<Choice>* replay, void (*fn)());
void markNontrivial();
extern Result* curRes; extern bool strictFindings;   // findings end the run like violations
void finishHashes(Result& r);            // fills in the hashes of a run that ends abnormally

// static data of the library: every process has its own
bool isStatic(const void* p);                      // inside the library's static data
const char* staticAt(Node* n, const void* p);      // where that process's copy of it is right now
void* staticKey(const void* p);                    // address that is unique per process
void staticRange(Node* n, const char*& b, const char*& e);
void race_release(void* a); void race_acquire(void* a);   // synchronisation through an atomic that is not instrumented
// vector clock helpers
void vcRelease(VC& v); void vcAcquire(const VC& v);
VC& mutexVC(void* m);
}
