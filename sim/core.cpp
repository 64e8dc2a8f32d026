// Scheduler, choices, discrete-event time, run control. Compiled without sanitizers.
#include "sim.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <cxxabi.h>
#include <exception>
#include <link.h>
#include <sys/mman.h>
#include <unistd.h>

#ifdef SIM_ASAN
extern "C" {
void __sanitizer_start_switch_fiber(void** fake_stack_save, const void* bottom, size_t size);
void __sanitizer_finish_switch_fiber(void* fake_stack_save, const void** bottom_old, size_t* size_old);
void __asan_unpoison_memory_region(void const volatile* addr, size_t size);
}
#endif

asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp,(%rdi)
    movq %rsi,%rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
)");
extern "C" void sim_switch(void** save, void* to);

// the real functions (our own references are wrapped too)
extern "C" ssize_t __real_write(int, const void*, size_t);

namespace sim {
Config cfg;
Fiber* cur = nullptr;
u64 now_ns = 0, steps = 0;
bool tracing = false;
std::string prop;
std::map<std::string, u64> stats;
std::unordered_set<u64> states;
Result* curRes = nullptr;
bool strictFindings = false;

static u64 g_seed; static bool g_replaying;
static u32 g_ctr[32];
static std::unordered_map<u64, u32> g_replay;
static std::vector<Choice>* g_log;
static u64 g_seq;
static u64 g_hash, g_shash;
static std::vector<Fiber*> g_fibers;
static std::vector<Node*> g_nodes;
static Fiber* g_ctl;
static void* g_main_sp; static void* g_main_fake;
static u64 g_stalled_total;
static u32 g_run_streak;
struct Ev { u64 t, n; std::function<void()> f; };
struct EvCmp { bool operator()(const Ev& a, const Ev& b) const { return a.t != b.t ? a.t > b.t : a.n > b.n; } };
static std::vector<Ev> g_events; static u64 g_evn;
static const size_t STK = 1 << 20;
static std::vector<char*> g_stacks;
// memory pre-emption
static u64 g_memctr, g_memnext;
static std::vector<std::pair<u32, u32>> g_memreplay; static size_t g_mempos;

static inline u64 mix(u64 a, u64 b, u64 c) {
    u64 z = a + 0x9e3779b97f4a7c15ull * (b * 0x100000001b3ull + c + 1);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    z ^= z >> 31; z += b * 0xd6e8feb86659fd93ull; z = (z ^ (z >> 32)) * 0xd6e8feb86659fd93ull;
    return z ^ (z >> 29);
}
static inline void hmix(u64& h, u64 v) { h = (h ^ v) * 0x100000001b3ull; h ^= h >> 29; }

static u32 record(u32 s, u32 i, u32 v) { if (v) { App _k; g_log->push_back({s, i, v}); } return v; }
u32 pick(u32 s, u32 n) {
    u32 i = g_ctr[s]++;
    if (g_replaying) { auto it = g_replay.find(((u64)s << 32) | i); u32 v = it == g_replay.end() ? 0 : it->second; if (n && v >= n) v = n - 1; return record(s, i, v); }
    return record(s, i, n <= 1 ? 0 : (u32)(mix(g_seed, s, i) % n));
}
bool chance(u32 s, double p) {
    u32 i = g_ctr[s]++;
    if (g_replaying) { auto it = g_replay.find(((u64)s << 32) | i); return record(s, i, it == g_replay.end() ? 0 : (it->second ? 1 : 0)); }
    return record(s, i, p > 0 && (double)(mix(g_seed, s, i) >> 11) * (1.0 / 9007199254740992.0) < p);
}
u64 draw64(u32 s) { u64 a = pick(s, 0xffffffffu), b = pick(s, 0xffffffffu); return a << 32 | b; }
u64 seqno() { return ++g_seq; }
void stat(const char* n, u64 k) { App _k; stats[n] += k; }
void markNontrivial() { if (curRes) curRes->nontrivial = true; }

void ev(const char* fmt, ...) {
    char b[512]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    u64 h = now_ns; for (int i = 0; i < n; i++) hmix(h, (unsigned char)b[i]);
    hmix(g_hash, h ^ (cur ? cur->id * 0x9e37ull : 0));
    if (tracing) {
        char o[640]; int k = snprintf(o, sizeof o, "%12.6f %-14s %s\n", now_ns / 1e9, cur ? cur->name.c_str() : "-", b);
        if (k > (int)sizeof o - 1) k = sizeof o - 1;
        (void)!__real_write(1, o, k);
    }
}

// ---------------------------------------------------------------- switching
static void dispose_switch_in() {
#ifdef SIM_ASAN
    // (fake stacks are per fiber; finished in enter)
#endif
}
static void switchTo(void** save, void** savefake, void* sp, const void* bottom, size_t size) {
#ifdef SIM_ASAN
    __sanitizer_start_switch_fiber(savefake, bottom, size);
#else
    (void)savefake; (void)bottom; (void)size;
#endif
    sim_switch(save, sp);
    dispose_switch_in();
}
static const void* g_main_bottom; static size_t g_main_size;
static void finishSwitch(void* fake, bool record) {
#ifdef SIM_ASAN
    const void* b; size_t s; __sanitizer_finish_switch_fiber(fake, &b, &s);
    if (record && !g_main_bottom) { g_main_bottom = b; g_main_size = s; }
#else
    (void)fake; (void)record;
#endif
}
// thread-local storage of the executable: every fiber is a thread of its own
static char* g_tls; static size_t g_tlssize, g_tlsinit; static const void* g_tlsimage;
static void findTls() {
    dl_iterate_phdr([](struct dl_phdr_info* i, size_t, void*) {
        for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) {
            g_tls = (char*)i->dlpi_tls_data; g_tlssize = i->dlpi_phdr[k].p_memsz; g_tlsinit = i->dlpi_phdr[k].p_filesz;
            g_tlsimage = (const void*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
        }
        return 1;      // the executable comes first
    }, nullptr);
}
// static data of the library: every run starts from its initial state
extern "C" char __start_simlibdata[] __attribute__((weak)); extern "C" char __stop_simlibdata[] __attribute__((weak));
static char* g_statics; static size_t g_nstatics;
static void rawCopy(char* d, const char* s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
static void resetStatics() {
    if (!__start_simlibdata) return;
    if (!g_statics) { g_nstatics = __stop_simlibdata - __start_simlibdata; g_statics = (char*)mmap(0, g_nstatics + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); rawCopy(g_statics, __start_simlibdata, g_nstatics); return; }
    rawCopy(__start_simlibdata, g_statics, g_nstatics);
}
static Node* g_loaded;        // whose static data is in place
static void loadStatics(Node* n) {
    if (!g_nstatics || !n || n == g_loaded) return;
    int il = cur->in_lib; cur->in_lib = 0;
    if (g_loaded) { g_loaded->statics.resize(g_nstatics); rawCopy(&g_loaded->statics[0], __start_simlibdata, g_nstatics); }
    rawCopy(__start_simlibdata, n->statics.empty() ? g_statics : n->statics.data(), g_nstatics);
    g_loaded = n; cur->in_lib = il;
}
bool isStatic(const void* p) { return g_nstatics && (const char*)p >= __start_simlibdata && (const char*)p < __stop_simlibdata; }
const char* staticAt(Node* n, const void* p) {
    if (!isStatic(p) || !n || n == g_loaded) return (const char*)p;
    return (n->statics.empty() ? g_statics : n->statics.data()) + ((const char*)p - __start_simlibdata);
}
void* staticKey(const void* p) { return isStatic(p) ? (void*)((u64)p + ((u64)(cur && cur->node ? cur->node->id : 0) << 40)) : (void*)p; }
void staticRange(Node* n, const char*& b, const char*& e) { b = e = nullptr; if (g_nstatics) { b = staticAt(n, __start_simlibdata); e = b + g_nstatics; } }
struct CxaG { void* a; unsigned b; };
static void saveCtx(Fiber* f) {
    f->saved_errno = errno;
    memcpy(&f->tls[0], g_tls, g_tlssize);
    CxaG* g = (CxaG*)abi::__cxa_get_globals(); f->cxa[0] = g->a; f->cxa[1] = (void*)(uintptr_t)g->b;
}
static void loadCtx(Fiber* f) {
    loadStatics(f->node);
    memcpy(g_tls, f->tls.data(), g_tlssize);
    CxaG* g = (CxaG*)abi::__cxa_get_globals(); g->a = f->cxa[0]; g->b = (unsigned)(uintptr_t)f->cxa[1];
    errno = f->saved_errno;
}
[[noreturn]] static void toMain() {
    void* dummy; void* df = nullptr;
    CxaG* g = (CxaG*)abi::__cxa_get_globals(); g->a = 0; g->b = 0;
    cur = nullptr;
    switchTo(&dummy, &df, g_main_sp, g_main_bottom, g_main_size);
    __builtin_unreachable();
}
void violate(const char* cls, const char* fmt, ...) {
    if (cur) cur->in_lib = 0;
    char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    curRes->violated = true; curRes->cls = cls; curRes->msg = b;
    ev("VIOLATION %s: %s", cls, b);
    if (!cur) { fprintf(stderr, "violation outside of a fiber: %s %s\n", cls, b); _exit(96); }
    toMain();
}
void known(const char* cls, const char* fmt, ...) {
    App _k; char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (strictFindings) violate(strdup((std::string("finding:") + cls).c_str()), "%s", b);
    ev("CANDIDATE-FINDING %s: %s", cls, b);
    curRes->known.emplace(cls, b);
}

static bool runnable(Fiber* f) {
    if (f->state == Fiber::DONE || f->state == Fiber::DEAD) return false;
    if (f->stall_until > now_ns) return false;
    if (f->node && f->node->stall_until > now_ns) return false;
    if (f->state == Fiber::RUN) return true;
    if (f->interruptible && f->sig_at <= now_ns) return true;
    if (f->deadline <= now_ns) return true;
    return f->pred && f->pred();
}
static u64 wakeTime(Fiber* f) {
    if (f->state == Fiber::DONE || f->state == Fiber::DEAD) return NEVER;
    u64 t = NEVER;
    if (f->state == Fiber::RUN) t = 0;
    else {
        if (f->deadline < t) t = f->deadline;
        if (f->interruptible && f->sig_at < t) t = f->sig_at;
        if (t == NEVER && f->pred && f->pred()) t = 0;
    }
    if (t == NEVER) return NEVER;
    if (f->stall_until > t) t = f->stall_until;
    if (f->node && f->node->stall_until > t) t = f->node->stall_until;
    return t;
}
static void fireEvents() {
    while (!g_events.empty() && g_events.front().t <= now_ns) {
        std::pop_heap(g_events.begin(), g_events.end(), EvCmp());
        Ev e = std::move(g_events.back()); g_events.pop_back();
        e.f();
    }
}
void at(u64 t, std::function<void()> f) {
    g_events.push_back({t, g_evn++, std::move(f)});
    std::push_heap(g_events.begin(), g_events.end(), EvCmp());
}
std::string describeFibers() {
    std::string s;
    for (auto f : g_fibers) {
        if (f->state == Fiber::DONE || f->state == Fiber::DEAD) continue;
        char b[200];
        snprintf(b, sizeof b, "[%u %s%s %s%s] ", f->id, f->name.c_str(), f->user ? " app" : "", f->state == Fiber::RUN ? "running:" : "in:", f->op);
        s += b;
        if (s.size() > 1200) break;
    }
    return s;
}
static void noteState() {
    u64 h = 0;
    for (auto f : g_fibers) {
        if (f->state == Fiber::DONE || f->state == Fiber::DEAD) continue;
        u64 x = f->id; for (const char* p = f->op; *p; p++) hmix(x, (unsigned char)*p);
        hmix(x, f->state); hmix(x, f->wait_mutex != nullptr);
        h += x * 0x9e3779b97f4a7c15ull;
    }
    if (states.size() < 4000000) states.insert(h);
}
static void switchFiber(Fiber* to) {
    Fiber* from = cur;
    if (to == from) return;
    saveCtx(from);
    g_run_streak = 0;
    curRes->switches++;
    hmix(g_shash, to->id); for (const char* p = from->op; *p; p++) hmix(g_shash, (unsigned char)*p);
    noteState();
    cur = to;
    switchTo(&from->sp, &from->fake_stack, to->sp, to->stack, STK);
    finishSwitch(from->fake_stack, false);
    loadCtx(from);
}
static void deadlock() {
    violate("deadlock", "no thread can ever run again: %s", describeFibers().c_str());
}
// picks the next fiber to run; the current one is blocked, finished or gives way
static Fiber* choose(bool allow_self, u32 forced = 0) {
    for (;;) {
        fireEvents();
        std::vector<Fiber*> r;
        // round-robin order starting after the current fiber
        size_t n = g_fibers.size(), base = 0;
        for (size_t i = 0; i < n; i++) if (g_fibers[i] == cur) base = i + 1;
        for (size_t k = 0; k < n; k++) {
            Fiber* f = g_fibers[(base + k) % n];
            if (f == cur && !allow_self) continue;
            if (runnable(f)) r.push_back(f);
        }
        if (!r.empty()) {
            if (r.size() == 1) return r[0];
            u32 v = forced ? forced - 1 : pick(ST_SCHED, (u32)r.size());
            return r[v % r.size()];
        }
        if (!allow_self && runnable(cur)) return cur;
        u64 t = g_events.empty() ? NEVER : g_events.front().t;
        for (auto f : g_fibers) { u64 w = wakeTime(f); if (w < t) t = w; }
        if (t == NEVER) deadlock();
        if (t > now_ns) now_ns = t;
        if (now_ns > cfg.max_time) violate("endless", "simulated time exceeded: %s", describeFibers().c_str());
    }
}
static void resumeChosen(Fiber* f) { if (f != cur) switchFiber(f); }

bool block(const char* op, std::function<bool()> pred, u64 deadline, bool interruptible) {
    Fiber* f = cur;
    f->interrupted = false;
    if (pred && pred()) return true;
    f->op = op;
    f->pred = std::move(pred); f->deadline = deadline; f->interruptible = interruptible;
    f->sig_at = NEVER;
    if (interruptible && cfg.p_eintr > 0) {
        if (chance(ST_FAULT, cfg.p_eintr)) {
            static const u64 d[] = {0, 10 * US, 300 * US, 5 * MS, 200 * MS, 3 * SEC};
            f->sig_at = now_ns + d[pick(ST_FAULT, 6)];
        }
    } else if (interruptible && g_replaying) { /* keyed streams: nothing to consume */ }
    f->state = Fiber::BLOCKED;
    bool ok = false;
    for (;;) {
        Fiber* nx = choose(true);
        resumeChosen(nx);
        // we run again
        if (f->pred && f->pred()) { ok = true; break; }
        if (f->interruptible && f->sig_at <= now_ns) { f->interrupted = true; stat("fault.eintr"); ev("EINTR in %s", op); break; }
        if (f->deadline <= now_ns) break;
    }
    f->state = Fiber::RUN; f->pred = nullptr; f->deadline = NEVER; f->sig_at = NEVER; f->interruptible = false;
    f->op = "run";
    f->last_run = now_ns;
    return ok;
}
static void stallSelf(u32 e) {
    u64 d = (1ull << e) * US;
    if (g_stalled_total + d > cfg.stall_budget) { stat("sched.stall_refused"); forceYield(); return; }
    g_stalled_total += d;
    cur->stall_until = now_ns + d;
    stat("fault.thread_stall");
    ev("stall %llu us", (unsigned long long)(d / US));
    Fiber* f = cur;
    while (f->stall_until > now_ns) { Fiber* nx = choose(true); resumeChosen(nx); }
}
void forceYield() {
    Fiber* nx = choose(false);
    resumeChosen(nx);
}
static void checkSteps() {
    if (++steps > cfg.max_steps) violate("livelock", "step limit exceeded without finishing: %s", describeFibers().c_str());
}
static volatile u64 g_progress;
u64 progressCounter() { return g_progress; }
void yieldPoint(const char* op) {
    if (!cur) return;
    g_progress++; cur->calls++;
    cur->op = op;
    checkSteps();
    now_ns += cfg.step_cost;
    fireEvents();
    // one draw decides: 0 go on, 1..64 give way to the n-th other, 65.. freeze for 2^(v-65) us
    u32 i = g_ctr[ST_SCHED]++;
    u32 v = 0;
    if (g_replaying) { auto it = g_replay.find(((u64)ST_SCHED << 32) | i); if (it != g_replay.end()) v = it->second; }
    else {
        u64 h = mix(g_seed, ST_SCHED, i);
        double x = (double)(h >> 40) * (1.0 / 16777216.0);
        if (x < cfg.p_stall) v = 65 + (u32)(h & 0xffff) % (cfg.max_stall_exp + 1);
        else if (x < cfg.p_stall + cfg.p_switch) v = 1 + (u32)(h & 0xffff) % 64;
    }
    record(ST_SCHED, i, v);
    if (!v && ++g_run_streak > 300) { g_run_streak = 0; v = 1; }
    if (!v) return;
    if (v > 64) { stallSelf(v - 65); return; }
    stat("sched.preempt");
    Fiber* nx = choose(true, v);
    resumeChosen(nx);
}
static void memSchedule() {
    if (g_replaying) { g_memnext = g_mempos < g_memreplay.size() ? g_memreplay[g_mempos].first : NEVER; return; }
    if (cfg.p_mem <= 0) { g_memnext = NEVER; return; }
    u64 h = mix(g_seed, ST_MEM, g_memctr + 1);
    double x = ((double)(h >> 11) + 1) * (1.0 / 9007199254740993.0);
    u64 gap = 1 + (u64)(-__builtin_log(x) / cfg.p_mem);
    g_memnext = g_memctr + gap;
}
void memPoint() {
    if (++g_memctr < g_memnext) return;
    App _k;
    u32 v;
    if (g_replaying) { v = g_memreplay[g_mempos].second; g_mempos++; }
    else { u64 h = mix(g_seed, ST_MEM, g_memctr * 2 + 0x51); v = (h % 3) ? 1 + (h >> 8) % 64 : 65 + (h >> 8) % (cfg.max_stall_exp + 1); }
    g_log->push_back({ST_MEM, (u32)g_memctr, v});
    memSchedule();
    g_progress++;
    checkSteps();
    stat("sched.mem_preempt");
    int e = errno;
    if (v > 64) stallSelf(v - 65);
    else { fireEvents(); Fiber* nx = choose(true, v); resumeChosen(nx); }
    errno = e;
}
u64 stalledTotal() {      // the part of the freezes that has passed by now
    u64 rest = 0; for (auto f : g_fibers) if (f->stall_until > now_ns && f->state != Fiber::DONE && f->state != Fiber::DEAD) rest += f->stall_until - now_ns;
    return g_stalled_total > rest ? g_stalled_total - rest : 0;
}
void sleepFor(u64 ns) { App _k; block("sleep", nullptr, now_ns + ns); }
bool waitUntil(std::function<bool()> p, u64 ns) { App _k; return block("ctl-wait", std::move(p), ns == NEVER ? NEVER : now_ns + ns); }

// ---------------------------------------------------------------- fibers, nodes
static char* getStack() {
    if (!g_stacks.empty()) { char* s = g_stacks.back(); g_stacks.pop_back();
#ifdef SIM_ASAN
        __asan_unpoison_memory_region(s, STK);
#endif
        return s; }
    char* p = (char*)mmap(0, STK + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { fprintf(stderr, "no memory for stacks\n"); _exit(95); }
    mprotect(p, 65536, PROT_NONE);
    return p + 65536;
}
static void fiberMain() {
    Fiber* f = cur;
    finishSwitch(nullptr, true);
    loadCtx(f);
    try { f->fn(); }
    catch (std::exception& e) { violate("uncaught-exception", "uncaught exception in thread %s: %s", f->name.c_str(), e.what()); }
    catch (...) { violate("uncaught-exception", "uncaught exception in thread %s", f->name.c_str()); }
    while (!f->tls_dtors.empty()) { auto d = f->tls_dtors.back(); f->tls_dtors.pop_back(); f->in_lib = 1; d.first(d.second); }
    f->in_lib = 0;
    f->state = Fiber::DONE; f->op = "done";
    if (f == g_ctl) toMain();
    Fiber* nx = choose(false);
    saveCtx(f);
    cur = nx; g_run_streak = 0;
    switchTo(&f->sp, &f->fake_stack, nx->sp, nx->stack, STK);
    __builtin_unreachable();
}
Fiber* spawn(Node* n, const char* name, std::function<void()> fn, bool user) {
    App _k;
    Fiber* f = new Fiber; f->id = (u32)g_fibers.size() + 1; f->name = name; f->node = n; f->fn = std::move(fn); f->user = user; f->parent = cur;
    if (g_fibers.size() > 900) violate("too-many-threads", "more than 900 threads were started in one run");
    f->tls.assign((const char*)g_tlsimage, g_tlsinit); f->tls.resize(g_tlssize);
    f->stack = getStack();
    u64* top = (u64*)(f->stack + STK - 64);
    *--top = 0;                    // fake return address of fiberMain
    *--top = (u64)(uintptr_t)&fiberMain;
    for (int i = 0; i < 6; i++) *--top = 0;
    f->sp = top;
    f->op = "new";
    if (cur) { vcRelease(f->vc); }
    f->vc.set(f->id, 1);
    g_fibers.push_back(f);
    return f;
}
const std::vector<Fiber*>& fibers() { return g_fibers; }
Node* addNode(const char* name) {
    Node* n = new Node; n->id = (u32)g_nodes.size() + 1; n->name = name; n->ip = (10u << 24) | n->id;
    n->fds.resize(3); n->ever.resize(3, true);
    g_nodes.push_back(n); return n;
}
Fiber* fiberByPthread(unsigned long t) { return t >= 1 && t <= g_fibers.size() ? g_fibers[t - 1] : nullptr; }
void nodeCloseAll(Node* n, bool host);
void killNode(Node* n, bool host) {
    if (!n->alive) return;
    n->alive = false; if (host) n->host_up = false;
    stat(host ? "fault.host_crash" : "fault.process_crash");
    ev("%s of %s", host ? "host crash" : "process crash", n->name.c_str());
    for (auto f : g_fibers) if (f->node == n && f->state != Fiber::DONE) { f->state = Fiber::DEAD; f->op = "dead"; }
    nodeCloseAll(n, host);
    heap::markNodeDead(n->id);
    if (cur && cur->node == n) { Fiber* self = cur; Fiber* nx = choose(false); saveCtx(self); cur = nx; g_run_streak = 0;
        switchTo(&self->sp, &self->fake_stack, nx->sp, nx->stack, STK); __builtin_unreachable(); }
}
Lib::Lib() { s = cur ? cur->in_lib : 0; if (cur) cur->in_lib = 1; }
Lib::~Lib() { if (cur) cur->in_lib = s; }
App::App() { s = cur ? cur->in_lib : 0; if (cur) cur->in_lib = 0; }
App::~App() { if (cur) cur->in_lib = s; }

void vcRelease(VC& v) { if (!cur) return; v.join(cur->vc); cur->vc.set(cur->id, cur->vc.get(cur->id) + 1); }
void vcAcquire(const VC& v) { if (cur) cur->vc.join(v); }

void kernelReset();
void wrapReset();
void raceReset();

Result runOnce(u64 seed, const std::vector<Choice>* replay, void (*fn)()) {
    Result res;
    if (!g_tls) findTls();
    resetStatics();
    // free the previous run
    for (auto f : g_fibers) { if (f->stack) g_stacks.push_back(f->stack); delete f; }
    g_fibers.clear();
    kernelReset(); wrapReset();
    for (auto n : g_nodes) delete n;
    g_nodes.clear(); g_loaded = nullptr;
    g_events.clear(); g_evn = 0;
    heap::reset(); raceReset();
    cfg = Config();
    g_seed = mix(seed, 0x5eed, 77); g_replaying = replay != nullptr; memset(g_ctr, 0, sizeof g_ctr); g_replay.clear(); g_memreplay.clear(); g_mempos = 0;
    if (replay) for (auto& c : *replay) {
        if (c.stream == ST_MEM) g_memreplay.push_back({c.idx, c.val});
        else g_replay[((u64)c.stream << 32) | c.idx] = c.val;
    }
    std::sort(g_memreplay.begin(), g_memreplay.end());
    g_log = &res.log; g_seq = 0; g_hash = 14695981039346656037ull; g_shash = 1469598103934665603ull;
    now_ns = 1000 * SEC; steps = 0; g_stalled_total = 0; g_run_streak = 0; g_memctr = 0; g_memnext = NEVER;
    curRes = &res;
    g_ctl = spawn(nullptr, "ctl", [fn] { fn(); });
    cur = g_ctl;
    switchTo(&g_main_sp, &g_main_fake, g_ctl->sp, g_ctl->stack, STK);
    finishSwitch(g_main_fake, false);
    cur = nullptr;
    res.hash = g_hash; res.sched_hash = g_shash; res.steps = steps; res.simtime = now_ns - 1000 * SEC;
    curRes = nullptr;
    return res;
}
void memStart() { memSchedule(); }
void finishHashes(Result& r) { r.hash = g_hash; r.sched_hash = g_shash; }
}
