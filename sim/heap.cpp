// Arena allocator for everything allocated by library code during a run: fixed address, no reuse,
// red zones, exact leak accounting. Freed and out-of-bounds memory is poisoned (ASan build: ASan
// shadow; race build: own shadow consulted on every instrumented access).
#include "sim.hpp"
#include <cstdlib>
#include <new>
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>

extern "C" {
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); char* __real_strdup(const char*);
#ifdef SIM_ASAN
void __asan_poison_memory_region(void const volatile*, size_t);
void __asan_unpoison_memory_region(void const volatile*, size_t);
void* __asan_region_is_poisoned(void*, size_t);
#endif
}
namespace sim {
static const u64 BASE = 0x200000000000ull, SIZE = 1ull << 30, CHUNK = 1 << 20;
static const u64 SHADOW = 0x210000000000ull;
typedef unsigned char u8;
struct Al { u64 addr, size; u8 kind; bool live; u32 node, fiber; void *pc, *fpc; u64 t; };
static std::vector<Al>* g_al;
static u64 g_off, g_chunk, g_used_max;
static u64 g_livec, g_liveb, g_peak, g_maxalloc;
static u64 g_budget;
static void* g_pc;

static void init() {
    if (g_al) return;
    g_al = new (__real_malloc(sizeof *g_al)) std::vector<Al>();
    void* p = mmap((void*)BASE, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (p != (void*)BASE) { fprintf(stderr, "cannot map the arena\n"); _exit(95); }
#ifndef SIM_ASAN
    p = mmap((void*)SHADOW, SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (p != (void*)SHADOW) { fprintf(stderr, "cannot map the shadow\n"); _exit(95); }
#endif
}
static inline void poison(u64 a, u64 n) {
#ifdef SIM_ASAN
    __asan_poison_memory_region((void*)a, n);
#else
    memset((void*)(SHADOW + (a - BASE) / 8), 0xff, (n + 7) / 8);
#endif
}
static inline void unpoison(u64 a, u64 n) {
#ifdef SIM_ASAN
    __asan_unpoison_memory_region((void*)a, n);
#else
    memset((void*)(SHADOW + (a - BASE) / 8), 0, n / 8);
    if (n % 8) *(u8*)(SHADOW + (a + n - BASE) / 8) = (u8)(n % 8);
#endif
}
namespace heap {
void reset() {
    init();
    if (g_off > (16u << 20)) {
        madvise((void*)BASE, SIZE, MADV_DONTNEED);
#ifndef SIM_ASAN
        madvise((void*)SHADOW, SIZE / 8, MADV_DONTNEED);
        g_chunk = 0;
#endif
    }
    if (g_chunk) poison(BASE, g_chunk);
    g_off = 64; g_al->clear();
    g_livec = g_liveb = g_peak = g_maxalloc = 0; g_budget = NEVER;
}
bool owns(const void* p) { return (u64)p - BASE < SIZE; }
u64 liveCount() { return g_livec; } u64 liveBytes() { return g_liveb; } u64 peakBytes() { return g_peak; } u64 maxAlloc() { return g_maxalloc; }
void resetPeak() { g_peak = g_liveb; g_maxalloc = 0; }
bool poisoned(const void* p, size_t n) {
    if (!n || !owns(p)) return false;
#ifdef SIM_ASAN
    return __asan_region_is_poisoned((void*)p, n) != nullptr;
#else
    u64 a = (u64)p, e = a + n;
    while (a < e) {
        u8 s = *(u8*)(SHADOW + (a - BASE) / 8);
        u64 ge = (a & ~7ull) + 8, stop = std::min(ge, e);
        if (s == 0xff || (s && ((stop - 1) & 7) >= s)) return true;
        a = ge;
    }
    return false;
#endif
}
void* alloc(size_t n, int kind) {
    init();
    void* pc = g_pc;
    if (n > (256ull << 20)) violate("excessive-allocation", "the library allocates %zu bytes at once", n);
    u64 a = BASE + g_off + 16;
    u64 end = g_off + 16 + ((n + 15) & ~15ull) + 32;
    if (end + 64 > SIZE - (64u << 16)) violate("excessive-allocation", "the library used up %llu MB of memory", (unsigned long long)(SIZE >> 20));
    while (g_chunk < end) { poison(BASE + g_chunk, CHUNK); g_chunk += CHUNK; }
    g_off = (end + 15) & ~15ull;
    unpoison(a, n ? n : 1);
    if (n <= 65536) memset((void*)a, 0xbe, n); else memset((void*)a, 0xbe, 4096);
    Al al; al.addr = a; al.size = n; al.kind = (u8)kind; al.live = true; al.node = cur && cur->node ? cur->node->id : 0; al.fiber = cur ? cur->id : 0; al.pc = pc; al.fpc = 0; al.t = now_ns;
    g_al->push_back(al);
    g_livec++; g_liveb += n; if (g_liveb > g_peak) g_peak = g_liveb; if (n > g_maxalloc) g_maxalloc = n;
    return (void*)a;
}
static Al* find(u64 p) {
    size_t lo = 0, hi = g_al->size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if ((*g_al)[m].addr <= p) lo = m + 1; else hi = m; }
    return lo ? &(*g_al)[lo - 1] : nullptr;
}
static const char* KN[] = {"?", "new", "new[]", "malloc"};
void dealloc(void* p, int kind) {
    if (!cur) return;          // leftovers of an abandoned run
    const bool lib = cur->in_lib;
    App _k;
    Al* a = find((u64)p);
    if (!a || a->addr != (u64)p) violate("bad-free", "free of a pointer that is not the start of an allocation");
    if (!a->live) violate("double-free", "memory freed twice (allocated at %p, %llu bytes)", a->pc, (unsigned long long)a->size);
    if (a->kind != kind) violate("alloc-mismatch", "memory from %s released as %s", KN[a->kind], KN[kind]);
    void* fpc = g_pc;
    if (lib) { { Lib _l; race_free(p, a->size); } a = find((u64)p); if (!a->live) violate("double-free", "memory freed twice, by two threads at once"); }
    a->live = false; a->fpc = fpc;
    g_livec--; g_liveb -= a->size;
    if (a->size <= 65536) memset(p, 0xdd, a->size);
    poison((u64)p, a->size ? a->size : 1);
}
std::string describe(const void* p) {
    Al* a = find((u64)p); char b[200];
    if (!a) return "wild address";
    u64 off = (u64)p - a->addr;
    if (off < a->size && !a->live) { snprintf(b, sizeof b, "byte %llu of a freed %llu-byte block (allocated %p, freed %p)", (unsigned long long)off, (unsigned long long)a->size, a->pc, a->fpc); return b; }
    if (off < a->size) { snprintf(b, sizeof b, "byte %llu of a live %llu-byte block", (unsigned long long)off, (unsigned long long)a->size); return b; }
    snprintf(b, sizeof b, "%llu bytes past a %s %llu-byte block (allocated %p)", (unsigned long long)(off - a->size), a->live ? "live" : "freed", (unsigned long long)a->size, a->pc);
    return b;
}
bool isFreed(const void* p) { Al* a = find((u64)p); return a && (u64)p - a->addr < a->size && !a->live; }
std::string dump(int max) {
    std::string s; char b[200];
    for (auto& a : *g_al) if (a.live) {
        snprintf(b, sizeof b, "%llu bytes (%s) allocated by fiber %u at %p; ", (unsigned long long)a.size, KN[a.kind], a.fiber, a.pc);
        s += b; if (--max <= 0) break;
    }
    return s;
}
void markNodeDead(u32 node) { for (auto& a : *g_al) if (a.live && a.node == node) { a.live = false; a.kind = 0; g_livec--; g_liveb -= a.size; } }
u64 bytesOfNode(u32 node) { u64 s = 0; for (auto& a : *g_al) if (a.live && a.node == node) s += a.size; return s; }
}
namespace heap {
// what a process holds that its static data does not lead to
u64 leakedBytes(Node* n, std::string& what) {
    std::vector<Al*> todo; std::unordered_set<u64> seen;
    auto scan = [&](const char* b, const char* e) {
        b = (const char*)(((u64)b + 7) & ~7ull);
        for (; b + 8 <= e; b += 8) {
            u64 v; asm volatile("movq %1, %0" : "=r"(v) : "m"(*(const u64*)b));     // (not checked by ASan)
            if (v - BASE >= SIZE) continue;
            Al* a = find(v);
            if (a && a->live && v - a->addr <= a->size && seen.insert(a->addr).second) todo.push_back(a);
        }
    };
    const char *b, *e; staticRange(n, b, e); scan(b, e);
    while (!todo.empty()) { Al* a = todo.back(); todo.pop_back(); scan((const char*)a->addr, (const char*)a->addr + a->size); }
    u64 s = 0, cnt = 0; char t[200];
    for (auto& a : *g_al) if (a.live && a.node == n->id && !seen.count(a.addr)) {
        s += a.size;
        if (cnt++ < 6) { snprintf(t, sizeof t, "%llu bytes (%s) allocated by fiber %u at %p; ", (unsigned long long)a.size, KN[a.kind], a.fiber, a.pc); what += t; }
    }
    return s;
}
}
static inline bool mine() { return cur && cur->in_lib; }
}
using namespace sim;
#define NEWBODY(k) { if (mine()) { g_pc = __builtin_return_address(0); App _k; return heap::alloc(n, k); } void* p = __real_malloc(n ? n : 1); if (!p) abort(); return p; }
#define DELBODY(k) { if (!p) return; g_pc = __builtin_return_address(0); if (heap::owns(p)) heap::dealloc(p, k); else __real_free(p); }
void* operator new(size_t n) NEWBODY(1)
void* operator new[](size_t n) NEWBODY(2)
void* operator new(size_t n, const std::nothrow_t&) noexcept NEWBODY(1)
void* operator new[](size_t n, const std::nothrow_t&) noexcept NEWBODY(2)
void operator delete(void* p) noexcept DELBODY(1)
void operator delete[](void* p) noexcept DELBODY(2)
void operator delete(void* p, size_t) noexcept DELBODY(1)
void operator delete[](void* p, size_t) noexcept DELBODY(2)
void operator delete(void* p, const std::nothrow_t&) noexcept DELBODY(1)
void operator delete[](void* p, const std::nothrow_t&) noexcept DELBODY(2)
extern "C" {
void* __wrap_malloc(size_t n) { if (!mine()) return __real_malloc(n); g_pc = __builtin_return_address(0); App _k; return heap::alloc(n, 3); }
void __wrap_free(void* p) { if (!p) return; g_pc = __builtin_return_address(0); if (heap::owns(p)) heap::dealloc(p, 3); else __real_free(p); }
void* __wrap_calloc(size_t a, size_t b) { if (!mine()) return __real_calloc(a, b); if (b && a > (1ull << 40) / b) return nullptr; App _k; void* p = heap::alloc(a * b, 3); memset(p, 0, a * b); return p; }
void* __wrap_realloc(void* p, size_t n) {
    if (!heap::owns(p) && !mine()) return __real_realloc(p, n);
    if (p && !heap::owns(p)) { fprintf(stderr, "realloc across heaps\n"); abort(); }
    App _k; void* q = heap::alloc(n, 3);
    if (p) { auto* a = heap::find((u64)p); memcpy(q, p, a && a->size < n ? a->size : n); heap::dealloc(p, 3); }
    return q;
}
char* __wrap_strdup(const char* s) { if (!mine()) return __real_strdup(s); App _k; size_t n = strlen(s) + 1; char* p = (char*)heap::alloc(n, 3); memcpy(p, s, n); return p; }
}
