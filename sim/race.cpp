// Happens-before race detection and memory-access pre-emption (race build only). The library is
// compiled with -fsanitize=thread but linked with these callbacks instead of the tsan runtime.
#include "sim.hpp"
#include <sys/mman.h>
#include <unistd.h>

namespace sim {
std::string pcName(void* pc);
namespace heap { std::string describe(const void* p); bool isFreed(const void* p); }
#ifdef SIM_RACE
static const u64 BASE = 0x200000000000ull, SIZE = 1ull << 30;
struct Cell { u32 clock; u32 pc; u16 fid; u16 gen; unsigned char mask, flags; u16 pad; };
static_assert(sizeof(Cell) == 16, "cell");
static Cell* g_cells;     // 4 per granule
static u16 g_gen;
static std::unordered_map<u64, VC> g_avc;    // atomics
void raceReset() {
    if (!g_cells) {
        g_cells = (Cell*)mmap((void*)0x220000000000ull, SIZE / 8 * 4 * 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
        if (g_cells == MAP_FAILED) { fprintf(stderr, "no memory for race cells\n"); _exit(95); }
    }
    if (++g_gen == 0) { madvise(g_cells, SIZE / 8 * 4 * 16, MADV_DONTNEED); g_gen = 1; }
    g_avc.clear();
}
enum { WR = 1, AT = 2 };
static void report(Cell& c, u64 a, int fl, void* pc, const char* what) {
    Fiber* o = fiberByPthread(c.fid);
    App _k; std::string p1 = pcName(pc), p2 = pcName((void*)(uintptr_t)c.pc);
    violate("data-race", "%s%s of %p by %s#%u at %s races with earlier %s by %s#%u at %s", what, fl & WR ? "write" : "read", (void*)a, cur->name.c_str(), cur->id, p1.c_str(),
            c.flags & WR ? "write" : "read", o ? o->name.c_str() : "?", c.fid, p2.c_str());
}
static void granule(u64 g, unsigned char mask, int fl, void* pc) {
    Cell* c = g_cells + (g - BASE) / 8 * 4;
    u32 me = cur->id, clk = cur->vc.get(me);
    int slot = -1, old = -1;
    for (int i = 0; i < 4; i++) {
        if (c[i].gen != g_gen || !c[i].mask) { if (slot < 0) slot = i; continue; }
        if (c[i].fid == me) {
            if (c[i].mask == mask && (c[i].flags & AT) == (fl & AT) && ((c[i].flags & WR) <= (fl & WR))) old = i;
            continue;
        }
        if (!(c[i].mask & mask)) continue;
        if (!((c[i].flags | fl) & WR)) continue;
        if ((c[i].flags & AT) && (fl & AT)) continue;
        if (cur->vc.get(c[i].fid) >= c[i].clock) continue;
        report(c[i], g, fl, pc, "");
    }
    if (old >= 0) slot = old;
    if (slot < 0) slot = (int)((clk + g / 8) & 3);
    c[slot] = {clk, (u32)(uintptr_t)pc, (u16)me, g_gen, mask, (unsigned char)fl, 0};
}
static inline void access(void* addr, u64 n, int fl, void* pc) {
    Fiber* f = cur;
    if (!f || !f->in_lib) return;
    u64 a = (u64)addr;
    if (a - BASE >= SIZE) {
        if (!isStatic(addr)) return;
        // static data: every process has a place of its own above the heap
        const char *sb, *se; staticRange(nullptr, sb, se);
        u64 off = (u64)addr - (u64)sb, id = f->node ? f->node->id : 0;
        if (off + n > 65536 || id > 63) return;
        a = BASE + SIZE - (id + 1) * 65536 + off;
    }
    memPoint();
    if (heap::poisoned(addr, n)) { App _k; violate(heap::isFreed(addr) ? "use-after-free" : "heap-overflow", "%llu-byte %s at %s: %s", (unsigned long long)n, fl & WR ? "write" : "read", pcName(pc).c_str(), heap::describe(addr).c_str()); }
    if (!cfg.races) return;
    u64 e = a + n;
    while (a < e) {
        u64 g = a & ~7ull, ge = g + 8, stop = ge < e ? ge : e;
        unsigned char m = (unsigned char)(((1u << (stop - a)) - 1) << (a - g));
        granule(g, m, fl, pc);
        a = stop;
    }
}
void race_free(void* p, size_t n) { if (cfg.races && cur && cur->in_lib && n) { access(p, n <= 4096 ? n : 4096, WR, __builtin_return_address(0)); } }
static VC& avc(void* a) { return g_avc[(u64)staticKey(a)]; }
static inline void atomicOp(void* a, u64 n, bool rd, bool wr, int mo, void* pc) {
    if (!cur || !cur->in_lib) return;
    access(a, n, (wr ? WR : 0) | AT, pc);
    App _k;
    // relaxed = 0; acquire 2, release 3, acq_rel 4, seq_cst 5
    if (rd && (mo == 1 || mo == 2 || mo >= 4)) vcAcquire(avc(a));
    if (wr && mo >= 3) vcRelease(avc(a));
}
void race_release(void* a) { vcRelease(avc(a)); }
void race_acquire(void* a) { vcAcquire(avc(a)); }
#else
void raceReset() {}
void race_free(void*, size_t) {}
void race_release(void*) {}
void race_acquire(void*) {}
#endif
}
using namespace sim;
extern "C" void sim_mem_access(void* a, u32 n, bool w, void* pc) {
#ifdef SIM_RACE
    access(a, n, w ? WR : 0, pc);
#endif
}
#ifdef SIM_RACE
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* a) { access(a, n, 0, PC); } void __tsan_write##n(void* a) { access(a, n, WR, PC); } \
    void __tsan_unaligned_read##n(void* a) { access(a, n, 0, PC); } void __tsan_unaligned_write##n(void* a) { access(a, n, WR, PC); } \
    void __tsan_volatile_read##n(void* a) { access(a, n, 0, PC); } void __tsan_volatile_write##n(void* a) { access(a, n, WR, PC); } \
    void __tsan_read_write##n(void* a) { access(a, n, WR, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** a, void* v) { if (*a != v) access(a, 8, WR, PC); else access(a, 8, 0, PC); }
void __tsan_vptr_read(void** a) { access(a, 8, 0, PC); }
void __tsan_read_range(void* a, size_t n) { if (n) access(a, n, 0, PC); }
void __tsan_write_range(void* a, size_t n) { if (n) access(a, n, WR, PC); }
#define ATOMIC(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* a, int mo) { atomicOp((void*)a, sizeof(T), true, false, mo, PC); return *a; } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { atomicOp((void*)a, sizeof(T), false, true, mo, PC); *a = v; } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { atomicOp((void*)a, sizeof(T), true, true, mo, PC); T o = *a; *a = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { atomicOp((void*)a, sizeof(T), true, true, mo, PC); T o = *a; *a = (T)(o + v); return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { atomicOp((void*)a, sizeof(T), true, true, mo, PC); T o = *a; *a = (T)(o - v); return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { atomicOp((void*)a, sizeof(T), true, true, mo, PC); T o = *a; *a = (T)(o & v); return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { atomicOp((void*)a, sizeof(T), true, true, mo, PC); T o = *a; *a = (T)(o | v); return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { atomicOp((void*)a, sizeof(T), true, true, mo, PC); T o = *a; *a = (T)(o ^ v); return o; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { atomicOp((void*)a, sizeof(T), true, true, mo, PC); T o = *a; *a = (T)~(o & v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { (void)fmo; atomicOp((void*)a, sizeof(T), true, true, mo, PC); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { (void)fmo; atomicOp((void*)a, sizeof(T), true, true, mo, PC); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { (void)fmo; atomicOp((void*)a, sizeof(T), true, true, mo, PC); T o = *a; if (o == c) *a = v; return o; }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned int) ATOMIC(64, unsigned long)
static VC g_fence;
void __tsan_atomic_thread_fence(int) { vcAcquire(g_fence); vcRelease(g_fence); }
void __tsan_atomic_signal_fence(int) {}
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t); size_t __real_strlen(const char*);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (n && cur && cur->in_lib) { access((void*)s, n, 0, PC); access(d, n, WR, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (n && cur && cur->in_lib) { access((void*)s, n, 0, PC); access(d, n, WR, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (n && cur && cur->in_lib) access(d, n, WR, PC); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { if (n && cur && cur->in_lib) { access((void*)a, n, 0, PC); access((void*)b, n, 0, PC); } return __real_memcmp(a, b, n); }
size_t __wrap_strlen(const char* a) { size_t n = __real_strlen(a); if (cur && cur->in_lib) access((void*)a, n + 1, 0, PC); return n; }
}
#endif
