#include "harness.hpp"
#include "kernel.hpp"
#include <algorithm>
#include <arpa/inet.h>
namespace sim { std::string runNote; }
namespace H {
World* W; std::string note;
static std::unique_ptr<World> g_world;
void freshWorld() { onAccept = nullptr; g_world.reset(new World); W = g_world.get(); runNote.clear(); }

// ---------------------------------------------------------------- content
static VSpec genVal(int size, int depth) {
    VSpec v; v.type = 1 + (int)pick(ST_WORK, depth > 0 ? 10 : 9);
    static const u64 edge[] = {0, 1, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull, 0x0123456789abcdefull, 0xdeadbeefull};
    if (v.type <= 8) v.num = edge[pick(ST_WORK, 16)];
    else if (v.type == 9) {
        u32 max = size == 0 ? 8 : size == 1 ? 60 : 900; u32 n = pick(ST_WORK, 4) == 0 ? 0 : pick(ST_WORK, max);
        u32 x = pick(ST_WORK, 256); v.str.resize(n); for (u32 i = 0; i < n; i++) v.str[i] = (char)(x + i * 7);
    } else { u32 n = pick(ST_WORK, 4); for (u32 i = 0; i < n; i++) v.arr.push_back(genVal(size, depth - 1)); }
    return v;
}
Spec genSpec(u64 uid, int size, const char* name) {
    Spec s; s.uid = uid;
    if (name) s.name = name;
    else {
        static const char* N[] = {"a", "ping", "message", "request_name_with_some_length", "__", "_x", "x_", "UPPER lower 123"};
        s.name = N[pick(ST_WORK, 8)];
        if (pick(ST_WORK, 12) == 11) { s.name.assign(1 + pick(ST_WORK, 300), 'n'); s.name[0] = 'L'; }
        if (pick(ST_WORK, 16) == 15) { s.name = std::string("nul\0\xff\x80", 6); }
        if (pick(ST_WORK, 24) == 23) s.name.clear();
        if ((size == 2 || size == 4) && pick(ST_WORK, 24) == 23) s.name.assign(size == 4 && pick(ST_WORK, 2) ? 32766 + pick(ST_WORK, 4) : 254 + pick(ST_WORK, 2000), 'W');
        if (size == 4 && pick(ST_WORK, 16) == 15) s.name.assign(65535, 'Z');
    }
    VSpec u; u.type = 2; u.num = uid; s.args.push_back({"u", u});
    u32 n = size == 0 ? pick(ST_WORK, 2) : pick(ST_WORK, 6);
    for (u32 i = 0; i < n; i++) { std::string an(1, (char)('A' + i)); if (pick(ST_WORK, 8) == 7) an += "long argument name"; if (pick(ST_WORK, 16) == 15) { an = i ? std::string("x\0", 2) + (char)('a' + i) : ""; } if ((size == 2 || size == 4) && pick(ST_WORK, 24) == 23) an.append(253 + pick(ST_WORK, 6), 'v'); s.args.push_back({an, genVal(size, 2)}); }
    if ((size == 2 || size == 4) && pick(ST_WORK, 24) == 23) {      // many arguments or elements
        u32 m = 250 + pick(ST_WORK, 20); bool arr = pick(ST_WORK, 2); VSpec a; a.type = 10; if (size == 4 && pick(ST_WORK, 4) == 3) { arr = true; m = 32766 + pick(ST_WORK, 4); }
        for (u32 i = 0; i < m; i++) { VSpec e; e.type = 7; e.num = i & 255; if (arr) a.arr.push_back(e); else s.args.push_back({"n" + std::to_string(i), e}); }
        if (arr) s.args.push_back({"arr", a}); stat("work.many_elements");
    }
    if (size == 3) { VSpec b; b.type = 9; b.str.assign(8000 + pick(ST_WORK, 7000), 'B'); for (size_t i = 0; i < b.str.size(); i += 97) b.str[i] = (char)(i / 97 + uid); s.args.push_back({"big", b}); }
    if (size == 4) {      // an exact encoded size, around the limits of integers, buffers and blocks
        while (s.args.size() > 1 && encode(s, 0).size() > 199000) s.args.pop_back();
        static const u32 T[] = {1024, 4096, 16384, 32768, 65536, 131072, 196608, 199999}; u32 t = T[pick(ST_WORK, 8)] + pick(ST_WORK, 3) - 1;
        VSpec b; b.type = 9; s.args.push_back({"big", b}); u32 now = (u32)encode(s, 0).size();
        if (now < t) { auto& x = s.args.back().second.str; x.resize(t - now); for (size_t i = 0; i < x.size(); i++) x[i] = (char)(i * 31 / 97 + uid); }
    }
    if (size < 4) while (s.args.size() > 1 && encode(s, 0).size() > 16000) s.args.pop_back();      // the default limit
    return s;
}
Spec genSpec(u64 uid, int size, const std::string& name) { Spec s = genSpec(uid, size, "x"); s.name = name; return s; }
static u64 cut(int t, u64 n) { switch (t) { case 3: case 4: return n & 0xffffffffu; case 5: case 6: return n & 0xffff; case 7: case 8: return n & 0xff; } return n; }
static void cval(std::string& o, const VSpec& v) {
    char b[64]; snprintf(b, sizeof b, "t%d:", v.type); o += b;
    if (v.type >= 1 && v.type <= 8) { snprintf(b, sizeof b, "%llx", (unsigned long long)cut(v.type, v.num)); o += b; }
    else if (v.type == 9) { snprintf(b, sizeof b, "%zu:", v.str.size()); o += b; o += v.str; }
    else if (v.type == 10) { snprintf(b, sizeof b, "%zu[", v.arr.size()); o += b; for (auto& x : v.arr) { cval(o, x); o += ","; } o += "]"; }
}
std::string canon(const Spec& s) {
    std::string o = std::to_string(s.name.size()) + ":" + s.name + "(";
    for (auto& a : s.args) { o += std::to_string(a.first.size()) + ":" + a.first + "="; cval(o, a.second); o += ";"; }
    return o + ")";
}
static void cvalOf(std::string& o, Value* v) {
    using namespace D;
    if (!v) { o += "null"; return; }
    VSpec s; s.type = v->GetType();
    switch (s.type) {
        case ValueType64S: s.num = (u64)static_cast<Value64S*>(v)->Get(); break;
        case ValueType64U: s.num = static_cast<Value64U*>(v)->Get(); break;
        case ValueType32S: s.num = (u64)(i64)static_cast<Value32S*>(v)->Get(); break;
        case ValueType32U: s.num = static_cast<Value32U*>(v)->Get(); break;
        case ValueType16S: s.num = (u64)(i64)static_cast<Value16S*>(v)->Get(); break;
        case ValueType16U: s.num = static_cast<Value16U*>(v)->Get(); break;
        case ValueType8U: s.num = static_cast<Value8U*>(v)->Get(); break;
        case ValueType8S: s.num = (u64)(i64)static_cast<Value8S*>(v)->Get(); break;
        case ValueTypeStr: { std::string t = L([&] { return static_cast<ValueStr*>(v)->Get(); }); s.str.assign(t.data(), t.size()); break; }
        case ValueTypeArr: {
            auto a = static_cast<ValueArr*>(v); char b[64]; u32 n = L([&] { return a->GetCount(); });
            snprintf(b, sizeof b, "t10:%u[", n); o += b;
            for (u32 i = 0; i < n; i++) { cvalOf(o, L([&] { return a->Get(i); })); o += ","; }
            o += "]"; return;
        }
    }
    cval(o, s);
}
std::string canonOf(Request* r) {
    std::string nm = L([&] { return r->GetName(); });
    std::string o = std::to_string(nm.size()) + ":" + nm + "(";
    for (auto d : r->GetArguments()) {
        std::string an = L([&] { return d->GetName(); });
        o += std::to_string(an.size()) + ":" + an + "="; cvalOf(o, L([&] { return d->GetValue(); })); o += ";";
    }
    return o + ")";
}
u64 uidOf(Request* r) {
    auto v = L([&] { return r->Get("u"); });
    if (!v || v->GetType() != D::ValueType64U) return 0;
    return static_cast<D::Value64U*>(v)->Get();
}
// the ways to compose a value: h decides (never a draw, the content alone does)
template<class V, class N> static Value* bnum(u64 n, u64 h) {
    if (h % 3) return new V((N)n);
    V* v = new V((N)~n); v->Set((N)n); return v;
}
static Value* bval(const VSpec& s, u64 h = 0) {
    using namespace D; h = (h + s.num + s.str.size() * 5 + s.arr.size() * 3 + s.type) * 0x9e3779b97f4a7c15ull >> 33;
    switch (s.type) {
        case 1: return bnum<Value64S, int64_t>(s.num, h); case 2: return bnum<Value64U, uint64_t>(s.num, h); case 3: return bnum<Value32S, int32_t>(s.num, h); case 4: return bnum<Value32U, uint32_t>(s.num, h);
        case 5: return bnum<Value16S, int16_t>(s.num, h); case 6: return bnum<Value16U, uint16_t>(s.num, h); case 7: return bnum<Value8U, uint8_t>(s.num, h); case 8: return bnum<Value8S, int8_t>(s.num, h);
        case 9: {
            if (h % 4 == 0) return new ValueStr(s.str);
            if (h % 4 == 1 && s.str.find('\0') == std::string::npos) return new ValueStr(s.str.c_str());
            auto v = new ValueStr("before"); if (h % 4 == 2) v->Set(s.str); else v->Set(s.str.data(), (u32)s.str.size());
            return v; }
        case 10: {
            auto a = new ValueArr(); if (h % 5 == 4) { Value8U x(3); a->Push(&x); if (h & 64) a->Clear(); else a->New(2), a->Clear(); }
            bool preset = s.arr.size() % 2; if (preset) a->New((u32)s.arr.size()); u32 i = 0;
            for (auto& x : s.arr) { Value* e = bval(x, h + i); if (preset) { if (!a->Set(i++, e)) vio("P01", "array-set", "an element of an array cannot be set"); } else a->Push(e); delete e; }
            if (s.arr.size() % 3 == 1) a->Set(0, a->Get(0));        // a value may be set from itself
            if (h % 7 == 6) { Value8U x(3); u32 n = a->GetCount(); if (a->Set(n, &x) || a->Get(n) || a->Get(0xffffffffu) || (n && a->Set(0, nullptr)) || a->GetCount() != n) vio("P01", "array-bounds", "an access beyond the end of an array of %u elements succeeded", n); }
            return a; }
    }
    return new ValueUndefined();
}
Request* build(const Spec& s) {
    u64 h = s.uid * 0x9e3779b97f4a7c15ull >> 40;        // the ways to compose a request
    Request* r = new Request(h % 5 ? s.name : std::string("before")); if (h % 5 == 0) r->SetName(s.name);
    for (auto& a : s.args) {
        Value* v = bval(a.second, h); u32 way = h & 15; h = h * 5 + 3 + (h >> 3);
        if (way == 5) { D::ValueArr box; box.Push(v); r->Set(a.first, box); delete v; r->Set(a.first, static_cast<D::ValueArr*>(r->Get(a.first))->Get(0)); }      // unwrapped in place
        else if (way == 6) { r->Set(a.first, *v); delete v; r->Set(a.first, *r->Get(a.first)); }
        else if (way == 7) { r->Set(a.first, new D::Value8U(7), false); r->Set(a.first, v, false); }
        else if (way == 8 && a.second.type == 4) { delete v; r->Emplace<D::Value32U>(a.first, (uint32_t)a.second.num); }
        else if (way <= 9 && way >= 8 && a.second.type == 9) { delete v; r->Emplace<D::ValueStr>(a.first, a.second.str); }
        else if (way == 10) { r->Set(a.first, nullptr); if (!r->GetArguments().empty() && r->GetArguments().back()->GetName() == a.first) vio("P01", "argument-left", "removing an argument that is not set has added it"); r->Emplace<D::Value16S>(a.first, -1); r->Set(a.first, nullptr); if (r->Get(a.first)) vio("P01", "argument-left", "an argument that was removed is still there"); r->Set(a.first, v); delete v; }    // removed and set again
        else if (way == 11) { r->Set(a.first, v, true); delete v; }
        else if (way == 12 && a.second.type == 9) { D::ValueStr* w = static_cast<D::ValueStr*>(v); r->Emplace<D::ValueStr>(a.first, *w); D::ValueStr x(*w); w->Set("gone"); delete w; if (x.Get() != a.second.str) vio("P01", "copy-differs", "the copy of a string changes with the original"); }
        else if (way == 12 && a.second.type == 10) { D::ValueArr* w = static_cast<D::ValueArr*>(v); r->Emplace<D::ValueArr>(a.first, *w); D::ValueArr x(*w); w->Clear(); delete w; if (x.GetCount() != a.second.arr.size()) vio("P01", "copy-differs", "the copy of an array changes with the original"); }
        else if (way == 12 && a.second.type == 0) { D::ValueUndefined* w = static_cast<D::ValueUndefined*>(v); r->Emplace<D::ValueUndefined>(a.first, *w); delete w; }
        else if (way == 13) { r->Set(a.first, v, false); Request* q = new Request(*r); delete r; r = q; }
        else if (way == 14) { r->Set(a.first, v, false); Request* q = new Request("old"); q->SetId(5); q->Emplace<D::Value8U>("old argument", 1); if (h & 16) q->CopyFrom(r); else *q = *r; delete r; r = q; if (h & 32) r->CopyFrom(r); else if (h & 64) *r = *q; }
        else if (way == 15) { D::Datum x; x.SetName(a.first); x.SetValue(v, false); D::Datum y(x), z; z.SetName("z"); z = y; z = *&z; r->Set(z.GetName(), z.GetValue()); }
        else r->Set(a.first, v, false);
    }
    return r;
}
static void p32(std::string& o, u32 v) { for (int i = 0; i < 4; i++) o += (char)(v >> (8 * i)); }
static void p16(std::string& o, u32 v) { o += (char)v; o += (char)(v >> 8); }
static std::string eval(const VSpec& v) {
    std::string b; static const int W[] = {0, 8, 8, 4, 4, 2, 2, 1, 1};
    if (v.type >= 1 && v.type <= 8) for (int i = 0; i < W[v.type]; i++) b += (char)(v.num >> (8 * i));
    else if (v.type == 9) { p32(b, (u32)v.str.size()); b += v.str; }
    else if (v.type == 10) { p32(b, (u32)v.arr.size()); for (auto& x : v.arr) b += eval(x); }
    std::string o; o += (char)v.type; p32(o, (u32)b.size()); return o + b;
}
std::string encode(const Spec& s, u32 id) {
    std::string body;
    for (auto& a : s.args) { std::string v = eval(a.second); p32(body, (u32)(6 + a.first.size() + v.size())); p16(body, (u32)a.first.size()); body += a.first; body += v; }
    std::string o; p32(o, (u32)(10 + s.name.size() + body.size())); p32(o, id); p16(o, (u32)s.name.size()); o += s.name; return o + body;
}

static u32 g32(const std::string& f, size_t o) { u32 v = 0; for (int i = 0; i < 4; i++) v |= (u32)(unsigned char)f[o + i] << (8 * i); return v; }
bool takeFrame(std::string& b, std::string& f) {
    if (b.size() < 4) return false; u32 n = g32(b, 0); if (n < 10) violate("bad-frame", "the library sent a frame of length %u", n);
    if (b.size() < n) return false; f = b.substr(0, n); b.erase(0, n); return true;
}
static bool dval(const std::string& f, size_t& o, size_t end, VSpec& v) {
    static const u32 W[] = {0, 8, 8, 4, 4, 2, 2, 1, 1};
    if (o + 5 > end) return false; v.type = (unsigned char)f[o]; u32 n = g32(f, o + 1); o += 5; if (n > end - o) return false; size_t e = o + n;
    if (v.type >= 1 && v.type <= 8) { if (n != W[v.type]) return false; v.num = 0; for (u32 i = 0; i < n; i++) v.num |= (u64)(unsigned char)f[o + i] << (8 * i); }
    else if (v.type == 9) { if (n < 4 || g32(f, o) != n - 4) return false; v.str = f.substr(o + 4, n - 4); }
    else if (v.type == 10) { if (n < 4) return false; u32 c = g32(f, o); o += 4; for (u32 i = 0; i < c; i++) { VSpec x; if (!dval(f, o, e, x)) return false; v.arr.push_back(x); } if (o != e) return false; }
    else if (v.type != 0 || n) return false;
    o = e; return true;
}
bool decode(const std::string& f, Spec& s, u32& id) {
    s = Spec(); id = g32(f, 4); size_t n = (unsigned char)f[8] | (unsigned char)f[9] << 8, o = 10; if (o + n > f.size()) return false; s.name = f.substr(o, n); o += n;
    while (o < f.size()) {
        if (o + 6 > f.size()) return false; u32 l = g32(f, o); size_t nl = (unsigned char)f[o + 4] | (unsigned char)f[o + 5] << 8, e = o + l; if (e > f.size() || 6 + nl > l) return false;
        std::pair<std::string, VSpec> a; a.first = f.substr(o + 6, nl); o += 6 + nl; if (!dval(f, o, e, a.second) || o != e) return false;
        if (a.first == "u" && a.second.type == 2) s.uid = a.second.num; s.args.push_back(a);
    }
    return true;
}
// ---------------------------------------------------------------- records, verdicts
CR* newCR(Connection* c, Node* n, bool server) {
    W->all.emplace_back(new CR); CR* r = W->all.back().get(); r->c = c; r->node = n; r->server = server; r->session = ++W->sessions;
    CR* old = nullptr; auto it = W->cur.find(c); if (it != W->cur.end()) old = it->second;
    if (old) r->hook = old->hook;
    W->cur[c] = r; return r;
}
CR* crOf(Connection* c) { auto i = W->cur.find(c); return i == W->cur.end() ? nullptr : i->second; }
bool forProp(const char* list) {
    if (prop.empty()) return true;
    return strstr(list, prop.c_str()) != nullptr;
}
void vio(const char* props, const char* cls, const char* fmt, ...) {
    App a; char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (forProp(props)) violate(cls, "%s", b);
    stat("oracle.other_property");
}
Task start(Node* n, const char* name, std::function<void()> fn) { App a; Fiber* f = spawn(n, name, std::move(fn), true); W->app.push_back(f); return {f, name}; }
bool done(Task t) { return t.f->state == Fiber::DONE || t.f->state == Fiber::DEAD; }
void finish(Task t, u64 limit) {
    App a; u64 s0 = stalledTotal(), t0 = now_ns; struct J { Task& t; ~J() { if (done(t)) vcAcquire(t.f->vc); } } j{t};      // like joining a thread
    for (;;) {
        u64 lim = limit + (stalledTotal() - s0);
        u64 spent = now_ns - t0;
        if (spent < lim && waitUntil([t] { return done(t); }, std::max<u64>(lim - spent, 100 * US))) return;
        if (done(t)) return;
        if (now_ns - t0 >= limit + (stalledTotal() - s0)) break;
    }
    violate("hang", "'%s' did not finish within %.1f simulated seconds: %s", t.what.c_str(), limit / 1e9, describeFibers().c_str());
}
void call(Node* n, const char* name, u64 limit, std::function<void()> fn) { finish(start(n, name, std::move(fn)), limit); }
u64 timed(std::function<void()> fn) {
    u64 s0 = stalledTotal(), t0 = now_ns; fn(); u64 d = now_ns - t0, st = stalledTotal() - s0;
    return d > st ? d - st : 0;
}
u64 delayOf(u64 d) { return d + 300 * MS; }

// ---------------------------------------------------------------- configuration
void randomConfig(int f) {
    static const double psw[] = {0.02, 0.1, 0.3, 0.005}, pst[] = {0, 0, 0.002, 0.008}, pseg[] = {0, 0.1, 0.5, 0.95}, pj[] = {0, 0.1, 0.5};
    cfg.p_switch = psw[pick(ST_CFG, 4)];
    cfg.p_stall = (f & CALM) ? 0 : pst[pick(ST_CFG, 4)];
    cfg.max_stall_exp = 10 + pick(ST_CFG, 8);
    cfg.p_seg = pseg[pick(ST_CFG, 4)];
    cfg.p_jitter = pj[pick(ST_CFG, 3)];
    static const u32 b[] = {65536, 262144, 4096, 16384, 1500};
    cfg.sndbuf = b[pick(ST_CFG, 5)]; cfg.rcvbuf = b[pick(ST_CFG, 5)];
    if (f & SMALLBUF) { cfg.sndbuf = 1024 + pick(ST_CFG, 2048); cfg.rcvbuf = 1024 + pick(ST_CFG, 2048); }
    static const u64 lat[] = {50 * US, 5 * US, 1 * MS, 30 * MS};
    cfg.latency = lat[pick(ST_CFG, 4)];
    static const double pe[] = {0, 0, 0.02, 0.2};
    cfg.p_eintr = (f & FAULTY) ? pe[pick(ST_CFG, 4)] : 0;
    static const double pg[] = {0, 0, 0, 0.02, 0.2}; cfg.p_again = (f & FAULTY) ? pg[pick(ST_CFG, 5)] : 0;
    static const double pm[] = {0, 0.0005, 0.004, 0.02};
    cfg.p_mem = pm[pick(ST_CFG, 4)];
    cfg.races = forProp("P07 P08 P10 P14 P23") && !prop.empty();
    cfg.p_spurious = 0.02;
    u32 up = pick(ST_CFG, 8);       // how long the machines are up already: next to where counters of milliseconds or microseconds overflow
    static const u64 UP[] = {0, 0, 0, 0, (1ull << 31) * MS, (1ull << 32) * MS, (1ull << 31) * US, (1ull << 32) * US}; cfg.uptime = UP[up]; if (cfg.uptime) cfg.uptime -= (u64)pick(ST_CFG, 20) * SEC;
    u32 fb = pick(ST_CFG, 8); cfg.first_fd = fb < 5 ? 3 : fb == 5 ? 0 : fb == 6 ? 1000 + pick(ST_CFG, 30) : 250 + pick(ST_CFG, 8);      // descriptors already in use by the application
    if (!cfg.first_fd) cfg.zero_after = pick(ST_CFG, 12);
#ifdef SIM_RACE
    memStart();
#endif
}
u32 ip4(const std::string& s) { in_addr a; return inet_aton(s.c_str(), &a) ? ntohl(a.s_addr) : 0; }
Addr randomAddr() {
    Addr a; a.tcp = pick(ST_CFG, 2) == 0; a.ip = "127.0.0.1"; a.path = "/tmp/dowow.sock";
    static const u32 P[] = {23050, 1, 80, 255, 256, 32767, 32768, 65535}; a.port = P[pick(ST_CFG, 8)];
    u32 k = pick(ST_CFG, 6); if (k == 4) a.path = "s"; if (k == 5) a.path.append(90 + pick(ST_CFG, 3), 'p');      // up to the longest that fits
    return a;
}
bool serverStart(Server* s, const Addr& a) { Lib l; return a.tcp ? s->StartTcp(a.ip, (uint16_t)a.port) : s->StartUnix(a.path); }
bool connectTo(Client* c, const Addr& a, int timeout) {
    Node* n = cur->node; cur->last_connect_pair = 0;
    CR* r = newCR(c, n, false);         // handlers may run before the call returns
    if (W->clientHook) r->hook = W->clientHook;
    bool ok = L([&] { return a.tcp ? c->ConnectTcp(a.ip, (uint16_t)a.port, timeout) : c->ConnectUnix(a.path, timeout); });
    r->link = cur->last_connect_pair; r->t_connected = now_ns;
    return ok;
}
static void onReq(int k, Connection* c, Request* r) {
    App a;
    CR* cr = crOf(c);
    if (!cr) { vio("P02 P09 P15", "unknown-connection", "a handler was called for a connection nobody knows"); return; }
    u64 s = seqno();
    ev("handler %d on session %llu", k, (unsigned long long)cr->session);
    if (cr->inHandler) vio("P09", "handler-overlap", "two handlers of one connection run at the same time");
    if (cr->server && cr->connectedCalls && !cr->connectedDone) vio("P15 P09", "handler-before-connected", "a request was handled before the connected callback finished");
    if (cr->srv && W->stopped.count(cr->srv)) vio("P17", "handler-after-stop", "a request handler was called after the stop of the server had been waited for");
    if (cr->disconnectedCalls) vio("P15", "handler-after-disconnected", "a request was handled after the disconnected callback");
    if (!cr->firstHandler) cr->firstHandler = s;
    cr->inHandler++;
    u64 uid = uidOf(r);
    cr->got.push_back({uid, canonOf(r), s, s, L([&] { return r->GetId(); }), k, cur->id, now_ns});
    u64 sess = cr->session;
    if (cr->hook) { auto h = cr->hook; h(cr, r, k); }
    L([&] { delete r; });
    cr->inHandler--; cr->lastHandlerEnd = seqno();
    (void)sess;
}
template <int K> static void hk(Connection* c, Request* r) { onReq(K, c, r); }
D::RequestHandler handler(int k) { static const D::RequestHandler h[] = {hk<0>, hk<1>, hk<2>, hk<3>, hk<4>, hk<5>, hk<6>, hk<7>}; return h[k]; }
void srvConnected(Server* s, Connection* c) {
    App a;
    if (W->inServerCallback && W->callbackFiber->state == Fiber::DEAD) W->inServerCallback = 0;     // its process crashed
    if (W->trackServerCallbacks && W->inServerCallback) vio("P15", "callback-overlap", "two callbacks of one server run at the same time");
    if (W->stopped.count(s)) vio("P17", "callback-after-stop", "the connected callback ran after the stop of the server had been waited for");
    W->inServerCallback++; W->callbackFiber = cur;
    CR* old = crOf(c);
    if (old) vio("P15", "connected-twice", "the connected callback ran twice for one connection");
    CR* r = newCR(c, cur->node, true); r->srv = s; r->connectedCalls = 1; r->link = cur->last_accept_pair; r->t_connected = now_ns;
    r->id_connected = c->id;
    if (!c->id) vio("P15", "no-id", "the connection has no id in the connected callback");
    else if (!W->ids[s].insert(c->id).second) vio("P15 P14", "id-reused", "two connections of one server run have the id %u", c->id);
    ev("connected session %llu id %u link %u", (unsigned long long)r->session, c->id, r->link);
    if (W->onConnected) W->onConnected(s, r);
    r->connectedDone = seqno(); vcRelease(r->vc);
    W->inServerCallback--;
}
void srvDisconnected(Server* s, Connection* c) {
    App a;
    if (W->inServerCallback && W->callbackFiber->state == Fiber::DEAD) W->inServerCallback = 0;     // its process crashed
    if (W->trackServerCallbacks && W->inServerCallback) vio("P15", "callback-overlap", "two callbacks of one server run at the same time");
    if (W->stopped.count(s)) vio("P17", "callback-after-stop", "the disconnected callback ran after the stop of the server had been waited for");
    W->inServerCallback++; W->callbackFiber = cur;
    CR* r = crOf(c);
    if (!W->haveConnected) { stat("work.disconnected_only"); if (!c->id) vio("P15", "no-id", "the connection has no id in the disconnected callback"); if (!W->endedOnly.insert(c).second) vio("P15", "disconnected-twice", "the disconnected callback ran twice for one connection"); W->inServerCallback--; return; }
    if (!r || !r->server) { vio("P15", "disconnected-unknown", "the disconnected callback ran for a connection that was never connected"); W->inServerCallback--; return; }
    ev("disconnected session %llu", (unsigned long long)r->session);
    if (r->disconnectedCalls) vio("P15", "disconnected-twice", "the disconnected callback ran twice for connection id %u", r->id_connected);
    if (r->inHandler) vio("P15", "disconnected-during-handler", "the disconnected callback runs while a request handler of the connection is still running");
    if (!r->connectedDone) vio("P15", "disconnected-before-connected", "the disconnected callback ran before the connected callback finished");
    if (c->id != r->id_connected) vio("P15", "id-changed", "connection id was %u in the connected callback and is %u in the disconnected one", r->id_connected, c->id);
    r->disconnectedCalls++; r->disconnectedAt = seqno(); r->t_disconnected = now_ns;
    if (W->onDisconnected) W->onDisconnected(s, r);
    W->inServerCallback--;
}
Server* newServer() { Lib l; Server* s = new Server(); apiSetConnected(s, srvConnected); apiSetDisconnected(s, srvDisconnected); return s; }

void push(CR* cr, const Spec& s, int mode, i64 keepid) {
    App a;
    if (mode < 0) mode = (int)pick(ST_WORK, 3);
    PushRec p; p.uid = s.uid; p.canon = canon(s); p.fiber = cur->id; p.keepid = keepid >= 0; p.id = (u32)keepid; p.t_call = now_ns;
    p.session_lo = p.session_hi = cr->session;
    Request* r = L([&] { return build(s); });
    if (keepid >= 0) L([&] { r->SetId((u32)keepid); });
    size_t at = cr->pushed.size();
    p.call = seqno(); p.ret = NEVER; p.t_ret = 0; cr->pushed.push_back(p);
    Connection* c = cr->c;
    { Lib l; bool ch = keepid < 0;
      Request* res = mode == 0 ? c->Push(r, true, 0, ch) : mode == 1 ? c->Push(r, false, 0, ch) : c->Push(*r, 0, ch);
      if (res) { App x; vio("P08 P24", "push-result", "a push that does not wait returned a request"); } }
    cr->pushed[at].ret = seqno(); cr->pushed[at].t_ret = now_ns;
    if (mode != 1) {    // the original stays ours: spoil it, the pushed request must not change
        L([&] { r->SetName("spoiled"); r->Set("u", new D::Value64U(0xbadbadull), false); delete r; });
    }
}
int negative() { static const int N[] = {-1, -2, -1, -1000, -1, (int)0x80000000}; return N[pick(ST_WORK, 6)]; }
Request* pull(CR* cr, int timeout, DelRec* rec) {
    App a; Connection* c = cr->c; u64 s0 = seqno(); if (timeout < 0) timeout = negative();
    Request* r = L([&] { return c->Pull(timeout); });
    if (!r) return nullptr;
    cr = crOf(c) ? crOf(c) : cr;
    DelRec d{uidOf(r), canonOf(r), seqno(), s0, L([&] { return r->GetId(); }), -1, cur->id, now_ns};
    cr->got.push_back(d); if (rec) *rec = d;
    return r;
}
void freeReq(Request* r) { Lib l; delete r; }
int rconnect(const Addr& a) {
    int fd = k_socket(a.tcp); if (fd < 0) return -1;
    int r = a.tcp ? k_connect_tcp(fd, ip4(a.ip), a.port) : k_connect_unix(fd, a.path);
    while (r && errno == EINTR) { yieldPoint("raw"); auto s = getSock(fd, "raw"); if (s->connecting) { block("raw-connect", [s] { return !s->connecting; }); } r = s->link && !s->err ? 0 : -1; if (r) errno = ECONNREFUSED; }
    if (r) { k_close(fd); return -1; }
    return fd;
}
int rlisten(const Addr& a, int backlog) {
    int fd = k_socket(a.tcp); auto s = getSock(fd, "raw"); s->reuse = true;
    if ((a.tcp ? k_bind_tcp(s, ip4(a.ip), a.port) : k_bind_unix(s, a.path)) || k_listen(s, backlog)) violate("harness", "raw listen failed");
    return fd;
}
int raccept(int lfd) { int r = -1; while (r < 0) r = sockAccept(getSock(lfd, "raw"), 0); return r; }
bool rsend(int fd, const std::string& b) {
    size_t o = 0; while (o < b.size()) { yieldPoint("rawsend"); ssize_t k = k_send(fd, b.data() + o, b.size() - o, MSG_NOSIGNAL); if (k <= 0) return false; o += (size_t)k; }
    return true;
}
bool rsendCut(int fd, const std::string& b, u64 gap) {
    size_t o = 0; u32 style = pick(ST_WORK, 4);
    while (o < b.size()) {
        size_t n = style == 0 ? b.size() : style == 1 ? 1 : style == 2 ? 1 + pick(ST_WORK, 16) : 1 + pick(ST_WORK, 700); if (style == 1 && b.size() > 600) n = 1 + pick(ST_WORK, 50);
        if (!rsend(fd, b.substr(o, n))) return false; o += n; if (gap && pick(ST_WORK, 4) == 3) nap(gap);
    }
    return true;
}
int rdrain(int fd, std::string& buf) { char b[4096]; int got = 0; for (;;) { ssize_t k = k_recv(fd, b, sizeof b, MSG_DONTWAIT); if (k > 0) { buf.append(b, (size_t)k); got = 1; continue; } if (k < 0 && (errno == EAGAIN || errno == EINTR)) return got; return -1; } }
CR* peerOf(CR* c) { if (!c->link) return nullptr; for (auto& x : W->all) if (x.get() != c && x->link == c->link && x->server != c->server) return x.get(); return nullptr; }

void checkDirection(const char* what, const CR* from, const CR* to, bool complete, bool order) {
    std::unordered_map<u64, const PushRec*> by; std::unordered_set<u64> seen;
    for (auto& p : from->pushed) by[p.uid] = &p;
    std::vector<const DelRec*> g; for (auto& d : to->got) g.push_back(&d);
    u64 maxcall = 0; const PushRec* maxp = nullptr;
    // deliveries by several concurrent pullers may be recorded out of order; the order check needs one stream
    bool ordered = true; { std::set<u32> fs; for (auto d : g) if (d->how < 0) fs.insert(d->fiber); if (fs.size() > 1 || !order) ordered = false; }
    for (auto d : g) {
        auto it = by.find(d->uid);
        if (it == by.end()) {
            // pushed in another session?
            for (auto& o : W->all) for (auto& p : o->pushed) if (p.uid == d->uid) { vio("P02", "session-mixed", "%s: request %llu pushed in session %llu was delivered in session %llu", what, (unsigned long long)d->uid, (unsigned long long)o->session, (unsigned long long)to->session); return; }
            vio("P01 P02 P03 P08", "not-pushed", "%s: a request that was never pushed was delivered (uid %llu: %.80s)", what, (unsigned long long)d->uid, d->canon.c_str()); return;
        }
        if (!seen.insert(d->uid).second) { vio("P01 P02 P03 P08 P09", "duplicate", "%s: request %llu was delivered twice", what, (unsigned long long)d->uid); return; }
        if (d->canon != it->second->canon) { vio("P01 P02 P03 P08", "altered", "%s: request %llu arrived altered: pushed %.150s got %.150s", what, (unsigned long long)d->uid, it->second->canon.c_str(), d->canon.c_str()); return; }
        if (ordered) {
            if (maxp && it->second->ret < maxcall) { vio("P01 P02 P03 P08", "reordered", "%s: request %llu was delivered after %llu, which was pushed later", what, (unsigned long long)d->uid, (unsigned long long)maxp->uid); return; }
            if (it->second->call > maxcall) { maxcall = it->second->call; maxp = it->second; }
        }
        if (d->seq < it->second->call) { vio("P01 P02", "from-the-future", "%s: request %llu was delivered before it was pushed", what, (unsigned long long)d->uid); return; }
    }
    u64 lastcall = 0; for (auto d : g) { auto it = by.find(d->uid); if (it != by.end() && it->second->call > lastcall) lastcall = it->second->call; }
    for (auto& p : from->pushed) if (!seen.count(p.uid)) {
        if (complete) { vio("P01 P08", "lost", "%s: request %llu was pushed but never delivered (%zu of %zu arrived)", what, (unsigned long long)p.uid, g.size(), from->pushed.size()); return; }
        if (order && p.ret < lastcall) { vio("P02 P03", "gap", "%s: request %llu was skipped although a later one was delivered", what, (unsigned long long)p.uid); return; }
    }
}
// every request the peer got must carry the id it was given; assigned ids must be unique in the session
void checkIds(CR* a, CR* b) {
    std::map<u32, u64> seen; u32 first[2] = {0, 0};
    for (int k = 0; k < 2; k++) {
        CR *f = k ? b : a, *t = k ? a : b; std::unordered_map<u64, const PushRec*> by; for (auto& p : f->pushed) by[p.uid] = &p;
        for (auto& d : t->got) {
            auto it = by.find(d.uid); if (it == by.end()) continue;
            if (it->second->keepid) { if (d.id != it->second->id) { vio("P10", "id-changed", "a request pushed with its id %u kept arrived with id %u", it->second->id, d.id); return; } continue; }
            auto s = seen.emplace(d.id, d.uid);
            if (!s.second) { vio("P10", "id-collision", "requests %llu and %llu of one session were both assigned the id %u", (unsigned long long)s.first->second, (unsigned long long)d.uid, d.id); return; }
            if (!first[k] || d.id < first[k]) first[k] = d.id;
        }
    }
}
u64 openSocks(Node* n) { u64 c = 0; for (auto& f : n->fds) if (f && f->kind == K_SOCK && !static_cast<Sock*>(f.get())->listening) c++; return c; }
bool waitFor(std::function<bool()> pred, u64 limit) {
    App a; u64 s0 = stalledTotal(), t0 = now_ns;
    for (;;) {
        u64 lim = limit + (stalledTotal() - s0), spent = now_ns - t0;
        if (spent < lim && waitUntil(pred, std::max<u64>(lim - spent, 100 * US))) return true;
        if (pred()) return true;
        if (now_ns - t0 >= limit + (stalledTotal() - s0)) return false;
    }
}
u64 since(u64 t, u64 s0) { u64 d = now_ns > t ? now_ns - t : 0, st = stalledTotal() - s0; return d > st ? d - st : 0; }
void begin(Env& e, int flags, int same) {
    freshWorld(); randomConfig(flags);
    e.sn = addNode("srv"); e.cn = same && pick(ST_CFG, (u32)same) == (u32)same - 1 ? e.sn : addNode("cli"); e.a = randomAddr();
}
void startServer(Env& e, std::function<void(Server*)> prep) {
    call(e.sn, "server-start", 10 * SEC, [&] { e.s = newServer(); if (prep) prep(e.s); if (!serverStart(e.s, e.a)) violate("start-failed", "a server could not be started on a free address"); });
}
CR* addClient(Env& e, std::function<void(Client*)> prep, int timeout) {
    Client* c = nullptr; Addr a = e.a;
    call(e.cn, "connect", 30 * SEC, [&] { c = L([] { return new Client(); }); if (prep) prep(c); if (!connectTo(c, a, timeout)) violate("connect-failed", "a client could not connect to a running server"); });
    e.cl.push_back(c); return crOf(c);
}
CR* reconnect(Env& e, Client* c, int timeout) {
    call(e.cn, "reconnect", 30 * SEC, [&] { if (!connectTo(c, e.a, timeout)) violate("connect-failed", "a client could not connect again to a running server"); });
    return crOf(c);
}
CR* accepted(CR* c, u64 limit) {
    if (!waitFor([&] { CR* p = peerOf(c); return p && p->connectedDone; }, limit)) violate("not-accepted", "the connected callback did not run for an established connection: %s", describeFibers().c_str());
    CR* p = peerOf(c); vcAcquire(p->vc);       // the application hands the pointer over with synchronisation of its own
    return p;
}
void end(Env& e) {
    teardown(e.cl, e.cn, e.s, e.sn, 60 * SEC);
    if (e.sn == e.cn) leakCheck({e.sn}); else leakCheck({e.sn, e.cn});
}
void setBlocks(Connection* c, bool tiny) {
    W->blocks.erase(c); static const u32 b[] = {1024, 1, 2, 3, 7, 64, 1000, 65536, 13, 4096, 0};
    u32 s, r; for (;;) { s = b[pick(ST_WORK, 11)]; if (tiny || s >= 64) break; }
    for (;;) { r = b[pick(ST_WORK, 11)]; if (tiny || r >= 64) break; }
    L([&] { if (pick(ST_WORK, 4) != 3) { c->SetSendBlockSize(s); c->SetRecvBlockSize(r); App x; W->blocks[c] = {std::max(s, 1u), std::max(r, 1u)}; } });
}
void nap(u64 max) { App a; u64 n = max / (10 * US); u32 e = pick(ST_WORK, 4); if (!e || !n) return; sleepFor((1 + (u64)pick(ST_WORK, (u32)(e == 1 ? (n / 100 ? n / 100 : 1) : e == 2 ? (n / 10 ? n / 10 : 1) : n))) * 10 * US); }
Task pusher(CR* cr, int n, int size, u64 gap, bool ids) {
    return start(cr->node, "push", [=] {
        D::SafeConnection* h = nullptr;
        if (cr->server) {           // server connections are used through a handle
            h = L([&] { return cr->srv->GetConnection(cr->id_connected); });
            if (!h) return;
            if (L([&] { return &(*h)(); }) != cr->c) { L([&] { delete h; }); return; }
        }
        for (int i = 0; i < n; i++) {
            nap(gap); i64 keep = -1;
            if (ids && pick(ST_WORK, 4) == 3) { static const u32 k[] = {0, 0xffffffffu, 0x40000000u, 0x7fffffffu, 0x80000000u}; keep = k[pick(ST_WORK, 5)]; }
            push(cr, genSpec(++W->uid, (int)pick(ST_WORK, (u32)size + 1)), -1, keep);
        }
        if (h) L([&] { delete h; });
    });
}
Task puller(CR* cr, bool* stop, int style) {
    Connection* c = cr->c;
    return start(cr->node, "pull", [=] {
        static const int T[] = {0, 1, 2, 1}; int empty = 0;
        if (cr->server) {            // server connections are used through a handle
            D::SafeConnection* h = L([&] { return cr->srv->GetConnection(cr->id_connected); });
            if (!h) return;
            cr->pulling++;
            if (L([&] { return &(*h)(); }) == c) for (;;) {
                bool over = L([&] { return c->IsDisconnecting() || !c->IsConnected(); });
                int t = over ? -1 : style == 0 ? 0 : style == 1 ? 1 : T[pick(ST_WORK, 4)];
                Request* r = pull(cr, t);
                if (r) { freeReq(r); empty = 0; continue; }
                if (over || (*stop && ++empty > 1)) break;
                if (t == 0) sleepFor(1 * MS + (u64)pick(ST_WORK, 20) * MS);
            }
            L([&] { delete h; });
            return;
        }
        cr->pulling++;
        for (;;) {
            int t = style == 0 ? 0 : style == 1 ? 1 : T[pick(ST_WORK, 4)];
            CR* k = crOf(c); Request* r = pull(k ? k : cr, t);
            if (r) { freeReq(r); empty = 0; continue; }
            if (*stop && ++empty > 1) break;
            if (t == 0 || L([&] { return !c->IsConnected() || c->IsDisconnecting(); })) sleepFor(1 * MS + (u64)pick(ST_WORK, 20) * MS);
        }
    });
}
bool settle(std::function<bool()> pred, u64 limit) {
    auto p = [&] { for (auto& r : W->all) if (r->inHandler) return false; return pred(); };
    for (int i = 0; i < 40; i++) {
        if (!waitFor(p, limit)) return false;
        size_t n = 0, m = 0; for (auto& r : W->all) n += r->pushed.size() + r->got.size();
        u64 s0 = stalledTotal(); sleepFor(300 * MS);
        for (auto& r : W->all) m += r->pushed.size() + r->got.size();
        if (p() && n == m && s0 == stalledTotal()) return true;
    }
    return p();
}
D::SafeConnection* handleOf(CR* cr) {
    Server* sv = cr->srv; u32 id = cr->id_connected;
    D::SafeConnection* h = L([&] { return sv->GetConnection(id); });
    if (h && L([&] { return &(*h)(); }) != cr->c) { L([&] { delete h; }); return nullptr; }
    return h;
}
void pushWaiting(CR* cr, int to) {
    App a; Connection* c = cr->c; Spec sp = genSpec(++W->uid, 0); u32 mode = pick(ST_WORK, 3); bool early = false;
    PushRec p; p.uid = sp.uid; p.canon = canon(sp); p.fiber = cur->id; p.keepid = true; p.id = 0x50000000u + (u32)sp.uid; p.session_lo = p.session_hi = cr->session; p.t_ret = 0; p.ret = NEVER;
    Request* req = L([&] { Request* x = build(sp); x->SetId(p.id); return x; }); Request* r = nullptr; size_t at = cr->pushed.size(); p.t_call = now_ns; p.call = seqno(); cr->pushed.push_back(p); u64 t0 = now_ns;
    u64 d = timed([&] { Lib l; r = mode == 0 ? c->Push(req, true, to, false) : mode == 1 ? c->Push(req, false, to, false) : c->Push(*req, to, false); });
    cr->pushed[at].ret = seqno(); cr->pushed[at].t_ret = now_ns; if (mode != 1) freeReq(req); early = to < 0 || now_ns - t0 + 2 * MS < (u64)to * SEC;
    if (r) { vio("P24", "wrong-response", "Push returned a request although nobody answered"); freeReq(r); }
    EXPECT("P24 P18", "late-return", to < 0 || d <= (u64)to * SEC + 300 * MS, "Push with a timeout of %d s took %.3f s", to, d / 1e9);
    if (early && !cr->server) EXPECT("P24 P18", "early-return", !L([&] { return !c->IsDisconnecting() && c->IsConnected(); }), "Push with a timeout of %d s returned null after %.3f s on a living connection", to, (now_ns - t0) / 1e9);
    stat("work.waiting_push"); if (early) stat("work.waiting_push_woken");
}
Task waiter(CR* cr) {
    return start(cr->node, "waiting-push", [=] {
        D::SafeConnection* h = nullptr; if (cr->server) { h = handleOf(cr); if (!h) return; }
        static const int T[] = {1, 2, 5, -1}; u32 n = 1 + pick(ST_WORK, 2);
        while (n--) { int to = T[pick(ST_WORK, 4)]; pushWaiting(cr, to); if (to < 0) break; }
        if (h) L([&] { delete h; });
    });
}
bool withConn(CR* cr, const char* name, std::function<void(Connection*)> fn, u64 limit) {
    bool ok = true;
    call(cr->node, name, limit, [&] {
        D::SafeConnection* h = nullptr; if (cr->server) { h = handleOf(cr); if (!h) { ok = false; return; } }
        fn(cr->c); if (h) L([&] { delete h; });
    });
    return ok;
}
CR* newest(size_t before, u64 limit) {
    if (!waitFor([&] { return W->all.size() > before && W->all.back()->connectedDone; }, limit)) violate("not-accepted", "the connected callback did not run for a new client: %s", describeFibers().c_str());
    CR* r = W->all.back().get(); vcAcquire(r->vc); return r;
}
int rawClient(Env& e, Node* n) { int fd = -1; Addr a = e.a; call(n, "raw-connect", 20 * SEC, [&] { fd = rconnect(a); if (fd < 0) violate("connect-failed", "a raw client could not connect to a running server"); }); return fd; }
void afterStop(Server* s, Node* n) {
    App a;
    for (auto& r : W->all) if (r->srv == s && r->inHandler) vio("P17", "handler-still-running", "a request handler still runs after the stop of the server has been waited for");
    if (W->inServerCallback) vio("P17", "callback-still-running", "a callback still runs after the stop of the server has been waited for");
    W->stopped[s] = seqno(); W->ids.erase(s); (void)n;
}
void closeFd(Node* n, int fd) { call(n, "raw-close", 5 * SEC, [fd] { k_close(fd); }); }
void teardown(std::vector<Client*> cl, Node* cn, Server* s, Node* sn, u64 limit) {
    for (auto c : cl) if (c && (!cn || cn->alive)) call(cn, "delete client", limit, [c] { Lib l; delete c; });
    if (s && sn->alive) call(sn, "delete server", limit, [s] { Lib l; delete s; });
}
void leakCheck(std::vector<Node*> nodes) {
    if (!forProp("P20")) return;
    sleepFor(50 * MS);      // detached helper threads may still be returning
    u64 s0 = stalledTotal(); u64 t0 = now_ns;
    auto quiet = [&] { for (auto f : fibers()) if (!f->user && f->node && f->node->alive && f->state != Fiber::DONE && f->state != Fiber::DEAD) return false; return true; };
    while (!quiet() && now_ns - t0 < 2 * SEC + (stalledTotal() - s0)) sleepFor(20 * MS);
    if (!quiet()) violate("thread-leak", "library threads outlive everything that used them: %s", describeFibers().c_str());
    for (auto f : fibers()) if (!f->user && f->node && f->node->alive && !f->joined && !f->detached) violate("thread-leak", "a finished thread (%s#%u) was neither joined nor detached", f->name.c_str(), f->id);
    for (auto n : nodes) {
        if (!n->alive) continue;
        if (n->ebadf) violate("bad-descriptor", "process %s used a closed descriptor %llu times, first %s", n->name.c_str(), (unsigned long long)n->ebadf, n->ebadf_what.c_str());
        if (openFds(n)) violate("fd-leak", "process %s still has descriptors: %s", n->name.c_str(), fdList(n).c_str());
        std::string what;
        if (u64 b = heap::leakedBytes(n, what)) violate("memory-leak", "process %s still holds %llu bytes: %s", n->name.c_str(), (unsigned long long)b, what.c_str());
    }
}
}
