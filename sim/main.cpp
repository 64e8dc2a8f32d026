// Runner: batches of seeded runs, replay, minimisation.
#include "sim.hpp"
#include <algorithm>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <exception>

namespace sim {
extern const Scenario scenarios[];
void wrapStaticReset();
static std::string g_exe;
std::string pcName(void* pc) {
    App _k;
    static std::map<void*, std::string> cache;
    auto it = cache.find(pc); if (it != cache.end()) return it->second;
    char cmd[600]; snprintf(cmd, sizeof cmd, "addr2line -Cfie %s %lx 2>/dev/null", g_exe.c_str(), (unsigned long)pc - 1);
    std::string r; Fiber* c = cur; cur = nullptr;       // real calls only
    FILE* f = popen(cmd, "r");
    char fn[1024], ln[1024];
    if (f) {
        // innermost frame inside the repository, with the function it was inlined into
        std::string first;
        while (fgets(fn, sizeof fn, f) && fgets(ln, sizeof ln, f)) {
            fn[strcspn(fn, "\n")] = 0; ln[strcspn(ln, "\n")] = 0;
            char* b = strrchr(ln, '/'); std::string s = std::string(fn) + " (" + (b ? b + 1 : ln) + ")";
            if (first.empty()) first = s;
            if (strstr(fn, "DowowNetwork")) { r = s; break; }
        }
        if (r.empty()) r = first;
        pclose(f);
    }
    cur = c;
    if (r.empty()) { char b[40]; snprintf(b, sizeof b, "%p", pc); r = b; }
    return cache[pc] = r;
}
// ---------------------------------------------------------------- output helpers
static std::string esc(const std::string& s) {
    std::string o; char b[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; }
    return o;
}
static std::string g_prop, g_scen, g_vout; static u64 g_seed;
static std::string resultJson(const Result& r) {
    char b[400]; std::string s = "{\"prop\":\"" + esc(g_prop) + "\",\"scenario\":\"" + esc(g_scen) + "\"";
    snprintf(b, sizeof b, ",\"seed\":%llu,\"violated\":%s,\"hash\":\"%016llx\",\"sched\":\"%016llx\",\"steps\":%llu,\"simtime\":%.6f", (unsigned long long)g_seed, r.violated ? "true" : "false", (unsigned long long)r.hash, (unsigned long long)r.sched_hash, (unsigned long long)r.steps, r.simtime / 1e9);
    s += b; s += ",\"cls\":\"" + esc(r.cls) + "\",\"msg\":\"" + esc(r.msg) + "\",\"known\":{";
    bool f = true; for (auto& k : r.known) { if (!f) s += ","; f = false; s += "\"" + esc(k.first) + "\":\"" + esc(k.second) + "\""; }
    s += "},\"choices\":["; f = true;
    for (auto& c : r.log) { snprintf(b, sizeof b, "%s[%u,%u,%u]", f ? "" : ",", c.stream, c.idx, c.val); f = false; s += b; }
    return s + "]}\n";
}
static void writeFile(const std::string& p, const std::string& s) {
    std::string t = p + ".tmp"; FILE* f = fopen(t.c_str(), "w"); if (!f) { perror(p.c_str()); _exit(95); }
    fwrite(s.data(), 1, s.size(), f); fclose(f); rename(t.c_str(), p.c_str());
}
static void flushStats();
// a fatal error inside a run (sanitizer report, signal): record it and leave the process
[[noreturn]] void finishFatal(const char* cls, const std::string& msg) {
    static bool once; if (once) _exit(98); once = true;
    if (!curRes) { fprintf(stderr, "fatal outside of a run: %s %s\n", cls, msg.c_str()); _exit(96); }
    if (cur) cur->in_lib = 0;
    Result r = *curRes; r.violated = true; r.cls = cls; r.msg = msg; r.simtime = now_ns - 1000 * SEC; r.steps = steps; finishHashes(r);
    cur = nullptr;
    std::string j = resultJson(r);
    if (!g_vout.empty()) writeFile(g_vout, j); else { (void)!::write(1, j.data(), j.size()); }
    flushStats();
    _exit(10);
}
static u64 g_lastprog; static int g_stuck;
static void onProf(int) {
    if (!curRes) return;
    u64 p = progressCounter();
    if (p == g_lastprog) { if (++g_stuck >= 4) { if (cur) cur->in_lib = 0; finishFatal("infinite-loop", std::string("a thread computes without end: ") + (cur ? cur->name : "?")); } }
    else { g_stuck = 0; g_lastprog = p; }
}
static void onSig(int s, siginfo_t* i, void*) {
    char b[200]; snprintf(b, sizeof b, "signal %d at address %p in thread %s", s, i->si_addr, cur ? cur->name.c_str() : "?");
    finishFatal(s == SIGABRT ? "abort" : "crash", b);
}
static void installHandlers() {
    static char* alt = (char*)malloc(1 << 18);
    stack_t st; memset(&st, 0, sizeof st); st.ss_sp = alt; st.ss_size = 1 << 18; sigaltstack(&st, 0);
    struct sigaction a; memset(&a, 0, sizeof a); a.sa_sigaction = onSig; a.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sigaction(SIGABRT, &a, 0);
#ifndef SIM_ASAN
    sigaction(SIGSEGV, &a, 0); sigaction(SIGBUS, &a, 0); sigaction(SIGFPE, &a, 0); sigaction(SIGILL, &a, 0);
#endif
    struct sigaction p; memset(&p, 0, sizeof p); p.sa_handler = onProf; p.sa_flags = SA_ONSTACK | SA_RESTART; sigaction(SIGPROF, &p, 0);
    itimerval v; v.it_value.tv_sec = v.it_interval.tv_sec = 3; v.it_value.tv_usec = v.it_interval.tv_usec = 0; setitimer(ITIMER_PROF, &v, 0);
    std::set_terminate([] { if (cur) cur->in_lib = 0; std::string m = "std::terminate called"; finishFatal("terminate", m); });
}
static const Scenario* findScen(const std::string& n) { for (auto s = scenarios; s->name; s++) if (n == s->name) return s; fprintf(stderr, "no scenario %s\n", n.c_str()); exit(95); }

// ---------------------------------------------------------------- replay files (our own JSON subset)
static bool jstr(const std::string& t, const char* key, std::string& out) {
    std::string k = std::string("\"") + key + "\":\""; auto p = t.find(k); if (p == std::string::npos) return false;
    p += k.size(); out.clear(); while (p < t.size() && t[p] != '"') { if (t[p] == '\\') p++; out += t[p++]; } return true;
}
static std::vector<Choice> jchoices(const std::string& t) {
    std::vector<Choice> v; auto p = t.find("\"choices\":["); if (p == std::string::npos) return v;
    const char* s = t.c_str() + p + 11;
    while (*s) { while (*s && *s != '[' && *s != ']') s++; if (*s != '[') break; s++; Choice c; char* e; c.stream = strtoul(s, &e, 10); c.idx = strtoul(e + 1, &e, 10); c.val = strtoul(e + 1, &e, 10); v.push_back(c); s = e + 1; }
    return v;
}
static std::string slurpRaw(const std::string& p) { FILE* f = fopen(p.c_str(), "r"); if (!f) { perror(p.c_str()); exit(95); } std::string s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
// without white space between the tokens
static std::string slurp(const std::string& p) {
    std::string t = slurpRaw(p), o; bool in = false;
    for (size_t i = 0; i < t.size(); i++) { if (in && t[i] == '\\') { o += t[i++]; if (i < t.size()) o += t[i]; continue; } if (t[i] == '"') in = !in; if (in || !isspace((unsigned char)t[i])) o += t[i]; }
    return o;
}

static std::string g_stat_file; static u64 g_runs, g_steps, g_switches; static double g_t0, g_simtime;
static std::unordered_set<u64> g_scheds, g_nontriv;
static std::vector<std::string> g_samples; static std::map<std::string, std::string> g_knowns; static std::map<std::string, u64> g_perscen;
static double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static void flushStats() {
    if (g_stat_file.empty()) return;
    char b[300]; std::string s = "{";
    snprintf(b, sizeof b, "\"runs\":%llu,\"simtime\":%.3f,\"steps\":%llu,\"switches\":%llu,\"wall\":%.3f,\"states\":%zu,\"stats\":{", (unsigned long long)g_runs, g_simtime / 1e9, (unsigned long long)g_steps, (unsigned long long)g_switches, wall() - g_t0, states.size());
    s += b; bool f = true;
    for (auto& k : stats) { snprintf(b, sizeof b, "%s\"%s\":%llu", f ? "" : ",", k.first.c_str(), (unsigned long long)k.second); f = false; s += b; }
    s += "},\"scenarios\":{"; f = true;
    for (auto& k : g_perscen) { snprintf(b, sizeof b, "%s\"%s\":%llu", f ? "" : ",", k.first.c_str(), (unsigned long long)k.second); f = false; s += b; }
    s += "},\"known\":{"; f = true;
    for (auto& k : g_knowns) { if (!f) s += ","; f = false; s += "\"" + esc(k.first) + "\":\"" + esc(k.second) + "\""; }
    s += "},\"samples\":["; f = true;
    for (auto& x : g_samples) { if (!f) s += ","; f = false; s += "\"" + esc(x) + "\""; }
    s += "]}\n";
    writeFile(g_stat_file, s);
    auto dump = [](const std::string& p, const std::unordered_set<u64>& v) { FILE* f = fopen(p.c_str(), "w"); if (!f) return; std::vector<u64> x(v.begin(), v.end()); fwrite(x.data(), 8, x.size(), f); fclose(f); };
    dump(g_stat_file + ".sched", g_scheds); dump(g_stat_file + ".nontriv", g_nontriv);
    if (states.size() < 300000) dump(g_stat_file + ".states", states);
    else { std::unordered_set<u64> cut; for (auto x : states) { cut.insert(x); if (cut.size() > 300000) break; } dump(g_stat_file + ".states", cut); }
}
extern std::string runNote;
static int batch(int argc, char** argv) {
    std::vector<std::string> scens; u64 seed0 = 1, stride = 1, count = ~0ull; double secs = 1e9; int maxviol = 1; FILE* hashes = nullptr;
    for (int i = 2; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--prop") g_prop = v; else if (k == "--seed0") seed0 = strtoull(v.c_str(), 0, 10); else if (k == "--stride") stride = strtoull(v.c_str(), 0, 10);
        else if (k == "--count") count = strtoull(v.c_str(), 0, 10); else if (k == "--time") secs = atof(v.c_str()); else if (k == "--stats") g_stat_file = v; else if (k == "--vout") g_vout = v; else if (k == "--maxviol") maxviol = atoi(v.c_str()); else if (k == "--hashes") hashes = fopen(v.c_str(), "w");
        else if (k == "--scen") { size_t p = 0; while (p <= v.size()) { size_t q = v.find(',', p); if (q == std::string::npos) q = v.size(); scens.push_back(v.substr(p, q - p)); p = q + 1; } }
    }
    sim::prop = g_prop;
    double t0 = wall(); g_t0 = t0; int viol = 0;
    for (u64 n = 0; n < count && wall() - t0 < secs; n++) {
        u64 seed = seed0 + n * stride;
        const std::string& sc = scens[(seed / 8) % scens.size()];   // independent of the worker's stride
        g_seed = seed; g_scen = sc;
        // shorter runs of the same scenario first would bias; plain round robin over seeds
        Result r = runOnce(seed, nullptr, findScen(sc)->fn);
        if (hashes) { fprintf(hashes, "%s %llu %016llx\n", sc.c_str(), (unsigned long long)seed, (unsigned long long)r.hash); fflush(hashes); }
        g_runs++; g_simtime += r.simtime; g_steps += r.steps; g_switches += r.switches; g_perscen[sc]++;
        g_scheds.insert(r.sched_hash ^ (u64)sc.size() * 0x9e3779b97f4a7c15ull);
        if (r.nontrivial) g_nontriv.insert(r.sched_hash);
        if (g_samples.size() < 3 && r.nontrivial && g_runs % 7 == 1) { char b[300]; snprintf(b, sizeof b, "scenario=%s seed=%llu steps=%llu thread-switches=%llu simulated=%.3fs choices=%zu", sc.c_str(), (unsigned long long)seed, (unsigned long long)r.steps, (unsigned long long)r.switches, r.simtime / 1e9, r.log.size()); g_samples.push_back(std::string(b) + (runNote.empty() ? "" : " | " + runNote)); }
        for (auto& k : r.known) g_knowns.emplace(k.first, k.second + " [scenario " + sc + " seed " + std::to_string(seed) + "]");
        if (r.violated) {
            std::string j = resultJson(r);
            if (!g_vout.empty()) writeFile(g_vout, j);
            else (void)!::write(1, j.data(), std::min<size_t>(j.size(), 3000)), (void)!::write(1, "\n", 1);
            if (++viol >= maxviol) { flushStats(); return 10; }
        }
    }
    flushStats();
    return viol ? 10 : 0;
}
static Result replayOnce(const std::string& scen, const std::vector<Choice>& c) { return runOnce(0, &c, findScen(scen)->fn); }
static int replay(int argc, char** argv) {
    std::string f; for (int i = 2; i < argc; i++) { if (!strcmp(argv[i], "--file")) f = argv[i + 1]; if (!strcmp(argv[i], "--trace")) tracing = true; if (!strcmp(argv[i], "--vout")) g_vout = argv[i + 1]; }
    std::string t = slurp(f); jstr(t, "prop", g_prop); jstr(t, "scenario", g_scen); sim::prop = g_prop; std::string cls; jstr(t, "cls", cls); strictFindings = cls.compare(0, 8, "finding:") == 0;
    Result r = replayOnce(g_scen, jchoices(t));
    std::string j = resultJson(r);
    if (!g_vout.empty()) writeFile(g_vout, j); else (void)!::write(1, j.data(), j.size());
    return r.violated ? 10 : 0;
}
static int seedrun(int argc, char** argv) {
    std::string s; u64 seed = 0; for (int i = 2; i < argc; i++) { if (!strcmp(argv[i], "--scen")) s = argv[i + 1]; if (!strcmp(argv[i], "--prop")) g_prop = argv[i + 1]; if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[i + 1], 0, 10); if (!strcmp(argv[i], "--trace")) tracing = true; if (!strcmp(argv[i], "--strict")) strictFindings = true; if (!strcmp(argv[i], "--vout")) g_vout = argv[i + 1]; }
    g_scen = s; g_seed = seed; sim::prop = g_prop;
    Result r = runOnce(seed, nullptr, findScen(s)->fn);
    std::string j = resultJson(r);
    if (!g_vout.empty()) writeFile(g_vout, j); else (void)!::write(1, j.data(), std::min<size_t>(j.size(), 1500)), (void)!::write(1, "\n", 1);
    return r.violated ? 10 : 0;
}
static bool attempt(const std::string& cls, const std::vector<Choice>& c, std::vector<Choice>* used, std::string* out) {
    int p[2]; if (pipe(p)) return false;
    pid_t pid = fork();
    if (!pid) {
        close(p[0]); dup2(p[1], 1); g_vout.clear();
        int n = open("/dev/null", O_WRONLY); dup2(n, 2);
        itimerval v; v.it_value.tv_sec = v.it_interval.tv_sec = 3; v.it_value.tv_usec = v.it_interval.tv_usec = 0; setitimer(ITIMER_PROF, &v, 0);
        Result r = replayOnce(g_scen, c); std::string j = resultJson(r);
        size_t o = 0; while (o < j.size()) { ssize_t k = ::write(1, j.data() + o, j.size() - o); if (k <= 0) break; o += k; }
        _exit(0);
    }
    close(p[1]); std::string s; char b[65536]; ssize_t n; while ((n = ::read(p[0], b, sizeof b)) > 0) s.append(b, n);
    close(p[0]); int st; waitpid(pid, &st, 0);
    std::string k; jstr(s, "cls", k);
    if (s.find("\"violated\":true") == std::string::npos || k != cls) return false;
    if (used) *used = jchoices(s);
    if (out) *out = s;
    return true;
}
static int shrink(int argc, char** argv) {
    std::string f, o; double secs = 30; for (int i = 2; i + 1 < argc; i++) { if (!strcmp(argv[i], "--file")) f = argv[i + 1]; if (!strcmp(argv[i], "--out")) o = argv[i + 1]; if (!strcmp(argv[i], "--time")) secs = atof(argv[i + 1]); }
    std::string t = slurp(f), cls; jstr(t, "prop", g_prop); jstr(t, "scenario", g_scen); jstr(t, "cls", cls); sim::prop = g_prop;
    { auto p = t.find("\"seed\":"); if (p != std::string::npos) g_seed = strtoull(t.c_str() + p + 7, 0, 10); }
    std::vector<Choice> c = jchoices(t), u; std::string best; double t0 = wall();
    if (!attempt(cls, c, &u, &best)) { fprintf(stderr, "shrink: does not reproduce\n"); return 3; }
    if (u.size() <= c.size()) c = u;
    u64 tries = 1;
    auto over = [&] { return wall() - t0 > secs; };
    for (bool again = true; again && !over();) {
        again = false;
        for (size_t len = std::max<size_t>(c.size() / 2, 1); len >= 1 && !over(); len /= 2) {
            for (size_t i = 0; i < c.size() && !over();) {
                std::vector<Choice> d(c.begin(), c.begin() + i); d.insert(d.end(), c.begin() + std::min(c.size(), i + len), c.end());
                tries++; std::string s;
                if (d.size() < c.size() && attempt(cls, d, &u, &s)) { c = u.size() < d.size() ? u : d; best = s; again = true; }
                else i += len;
            }
            if (len == 1) break;
        }
        // simpler values
        for (size_t i = 0; i < c.size() && !over(); i++) if (c[i].val > 1 && c[i].stream != ST_CFG) {
            std::vector<Choice> d = c; d[i].val = d[i].val > 65 && c[i].stream == ST_SCHED ? 65 : d[i].val / 2; std::string s; tries++;
            if (attempt(cls, d, &u, &s)) { c = d; best = s; again = u.size() < c.size() || again; }
        }
        if (tries > 5000) break;
    }
    writeFile(o, best);
    fprintf(stderr, "shrink: %zu choices, %llu attempts\n", c.size(), (unsigned long long)tries);
    return 0;
}
}
using namespace sim;
#ifdef SIM_ASAN
extern "C" {
void __asan_set_error_report_callback(void (*)(const char*));
void* __asan_get_report_address(); const char* __asan_get_report_description();
const char* __asan_default_options() { return "detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:abort_on_error=0:exitcode=96:handle_abort=0:allow_user_segv_handler=0:color=never:print_legend=0:fast_unwind_on_malloc=1:malloc_context_size=3:quarantine_size_mb=8:symbolize=1"; }
const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=0:color=never"; }
void __ubsan_get_current_report_data(const char** kind, const char** msg, const char** file, unsigned* line, unsigned* col, char** addr);
void __ubsan_on_report() {
    const char *k, *m, *f; unsigned l, c; char* a; __ubsan_get_current_report_data(&k, &m, &f, &l, &c, &a);
    const char* b = strrchr(f, '/');
    if (cur) cur->in_lib = 0;
    finishFatal((std::string("ubsan:") + k).c_str(), std::string(m) + " at " + (b ? b + 1 : f) + ":" + std::to_string(l));
}
}
static void onAsan(const char* rep) {
    if (cur) cur->in_lib = 0;
    std::string t = rep, cls = __asan_get_report_description() ? __asan_get_report_description() : "error", msg;
    void* a = __asan_get_report_address();
    if (heap::owns(a)) { cls = heap::isFreed(a) ? "use-after-free" : "heap-overflow"; msg = heap::describe(a) + "; "; }
    // first frames inside the repository
    size_t p = 0; int n = 0;
    while ((p = t.find("\n    #", p)) != std::string::npos && n < 4) { size_t e = t.find('\n', p + 1); std::string ln = t.substr(p + 5, e - p - 5); if (ln.find("DowowNetwork") != std::string::npos || ln.find("std::") != std::string::npos) { auto q = ln.find(" in "); if (q != std::string::npos) ln = ln.substr(q + 4); auto sl = ln.rfind('/'); if (sl != std::string::npos) { auto sp = ln.rfind(' ', sl); if (sp != std::string::npos) ln = ln.substr(0, sp + 1) + ln.substr(sl + 1); } msg += ln + " < "; n++; } p = e == std::string::npos ? t.size() : e; }
    if (getenv("SIM_ASAN_VERBOSE")) fprintf(stderr, "%s\n", rep);
    finishFatal(cls.c_str(), msg);
}
#endif
int main(int argc, char** argv) {
    char ex[500]; ssize_t n = readlink("/proc/self/exe", ex, sizeof ex - 1); if (n > 0) g_exe.assign(ex, n);
    installHandlers();
#ifdef SIM_ASAN
    __asan_set_error_report_callback(onAsan);
#endif
    std::string c = argc > 1 ? argv[1] : "";
    if (c == "run") return batch(argc, argv);
    if (c == "seed") return seedrun(argc, argv);
    if (c == "replay") return replay(argc, argv);
    if (c == "shrink") return shrink(argc, argv);
    fprintf(stderr, "usage: sim run|seed|replay|shrink ...\n"); return 95;
}
