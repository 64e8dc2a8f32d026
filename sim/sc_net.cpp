// Scenarios about peers and the network: hostile bytes, size limit, connecting, stalled peers.
#include "harness.hpp"
#include "kernel.hpp"
#include <algorithm>
using namespace H;

// ---------------------------------------------------------------- hostile bytes (P12)
static void put32(std::string& s, size_t o, u32 v) { for (int i = 0; i < 4 && o + i < s.size(); i++) s[o + i] = (char)(v >> (8 * i)); }
static std::string le32(u32 v) { std::string s(4, 0); put32(s, 0, v); return s; }
static std::string le16(u32 v) { std::string s(2, 0); s[0] = (char)v; s[1] = (char)(v >> 8); return s; }
static u32 edgeLen(u32 around) {
    static const u32 E[] = {0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffffeu, 0xfffffffbu, 0xfffffff6u, 0xfffffff0u, 0xffffff00u, 0x40000000u};
    u32 k = pick(ST_WORK, 40); return k < 26 ? E[k] : k < 36 ? around + pick(ST_WORK, 9) - 4 : pick(ST_WORK, 0xffffffffu);
}
// a value, possibly damaged: wrong lengths, wrong counts, deep nesting, unknown types
static std::string wildValue(int depth, double wild) {
    auto odd = [&] { return pick(ST_WORK, 1000) < (u32)(wild * 1000); };
    u32 t = pick(ST_WORK, depth > 0 ? 12 : 10); if (odd()) t = pick(ST_WORK, 256);
    static const u32 W[] = {0, 8, 8, 4, 4, 2, 2, 1, 1}; std::string b;
    if (t >= 1 && t <= 8) { b.assign(W[t], (char)pick(ST_WORK, 256)); if (odd()) b.resize(pick(ST_WORK, 12)); }
    else if (t == 9) { u32 n = pick(ST_WORK, 20); b = le32(odd() ? edgeLen(n) : n) + std::string(n, 's'); if (odd()) b.resize(pick(ST_WORK, (u32)b.size() + 1)); }
    else if (t == 10 || t == 11) { t = 10; u32 n = pick(ST_WORK, 5); std::string e; for (u32 i = 0; i < n; i++) e += wildValue(depth - 1, wild); b = le32(odd() ? edgeLen(n) : n) + e; if (odd()) b.resize(pick(ST_WORK, (u32)b.size() + 1)); }
    else b.assign(pick(ST_WORK, 4), 'u');
    return std::string(1, (char)t) + le32(odd() ? edgeLen((u32)b.size()) : (u32)b.size()) + b;
}
static std::string wildFrame(double wild) {
    auto odd = [&] { return pick(ST_WORK, 1000) < (u32)(wild * 1000); };
    std::string nm = pick(ST_WORK, 6) == 5 ? "_" : pick(ST_WORK, 6) == 5 ? "" : std::string(1 + pick(ST_WORK, 6), 'n'), body; u32 n = pick(ST_WORK, 5);
    for (u32 i = 0; i < n; i++) { std::string an = pick(ST_WORK, 5) == 4 ? "" : "arg" + std::to_string(pick(ST_WORK, 3)); std::string v = wildValue(3, wild); body += le32(odd() ? edgeLen((u32)(6 + an.size() + v.size())) : (u32)(6 + an.size() + v.size())) + le16(odd() ? edgeLen((u32)an.size()) : (u32)an.size()) + an + v; }
    u32 len = (u32)(10 + nm.size() + body.size());
    return le32(odd() ? edgeLen(len) : len) + le32(pick(ST_WORK, 3)) + le16(odd() ? edgeLen((u32)nm.size()) : (u32)nm.size()) + nm + body;
}
static std::string nested(u32 depth, bool wide) {      // arrays in arrays, outermost consistent
    std::string v = std::string(1, (char)7) + le32(1) + "x";
    for (u32 i = 0; i < depth; i++) { std::string b = le32(wide ? 2 : 1) + v + (wide ? std::string(1, (char)7) + le32(1) + "y" : ""); v = std::string(1, (char)10) + le32((u32)b.size()) + b; }
    std::string d = le32((u32)(7 + v.size())) + le16(1) + "d" + v; return le32((u32)(11 + d.size())) + le32(1) + le16(1) + "q" + d;
}
static std::string dense(u32 size, int kind) {         // as many objects per byte as possible
    std::string body; u32 room = size > 11 ? size - 11 : 0;
    if (kind == 0) while (body.size() + 11 <= room) body += le32(11) + le16(0) + std::string(1, 0) + le32(0);
    else { std::string el = kind == 1 ? std::string(1, 0) + le32(0) : std::string(1, (char)10) + le32(4) + le32(0); if (room > 30) { std::string e; u32 c = 0; while (e.size() + el.size() + 20 <= room) { e += el; c++; } std::string b = le32(c) + e, v = std::string(1, (char)10) + le32((u32)b.size()) + b; body = le32((u32)(6 + v.size())) + le16(0) + v; } }
    return le32((u32)(11 + body.size())) + le32(1) + le16(1) + "q" + body;
}
static std::string hostileBytes(u32 maxSize) {
    std::string out; u32 n = 1 + pick(ST_WORK, 8); double wild = pick(ST_WORK, 3) == 0 ? 0.02 : pick(ST_WORK, 2) ? 0.1 : 0.4;
    for (u32 i = 0; i < n; i++) {
        u32 k = pick(ST_WORK, 10); std::string f;
        if (k <= 3) f = wildFrame(wild);
        else if (k <= 5) {            // a valid frame with single defects
            f = encode(genSpec(++W->uid, 1), pick(ST_WORK, 5)); u32 m = pick(ST_WORK, 4);
            for (u32 j = 0; j < m; j++) { u32 o = pick(ST_WORK, (u32)f.size()), w = pick(ST_WORK, 5); if (w == 0) f[o] = (char)(f[o] ^ (1 << pick(ST_WORK, 8))); else if (w == 1) f[o] = (char)pick(ST_WORK, 256); else if (w == 2) put32(f, o, edgeLen((u32)f.size() - o)); else if (w == 3) { f.erase(o, 1 + pick(ST_WORK, 4)); if (f.size() < 11) break; if (pick(ST_WORK, 2)) put32(f, 0, (u32)f.size()); } else { f.insert(o, std::string(1 + pick(ST_WORK, 4), (char)pick(ST_WORK, 256))); if (pick(ST_WORK, 2)) put32(f, 0, (u32)f.size()); } }
        }
        else if (k == 6) f = encode(genSpec(++W->uid, 2), 9);
        else if (k == 7) f = nested(1 + pick(ST_WORK, pick(ST_WORK, 3) == 2 ? 2000 : 80), pick(ST_WORK, 2));
        else if (k == 8) f = dense(pick(ST_WORK, 4) == 3 ? maxSize : 20 + pick(ST_WORK, std::min(maxSize, 3000u)), (int)pick(ST_WORK, 3));
        else { u32 m = 1 + pick(ST_WORK, 60); u64 x = draw64(ST_WORK); for (u32 j = 0; j < m; j++) { x = x * 6364136223846793005ull + 1442695040888963407ull; f += (char)(x >> 56); } }
        out += f;
    }
    if (pick(ST_WORK, 4) == 3) out.resize(pick(ST_WORK, (u32)out.size() + 1));
    return out;
}
// the application does everything it can with a request it was given
static u32 depthOf(Value* v, u32 d = 0) { if (v->GetType() != D::ValueTypeArr || d > 100) return d; auto a = (D::ValueArr*)v; u32 m = d + 1; for (u32 i = 0; i < a->GetCount(); i++) m = std::max(m, depthOf(a->Get(i), d + 1)); return m; }
static void useRequest(Connection* c, Request* r, bool echo) {
    App a;          // what the application does with a request is not held against the library
    std::string c1 = canonOf(r); r->GetSize(); bool deep = false; for (auto d : r->GetArguments()) deep |= depthOf(d->GetValue()) > 60;
    if (!deep) r->ToString();   // the text of nested arrays grows with the square of their depth
    Request* copy = new Request(); if (c1.size() % 3 == 0) copy->Emplace<D::Value8U>("old argument", 1); copy->CopyFrom(r); std::string c2 = canonOf(copy);
    if (c1 != c2) vio("P12", "copy-differs", "a copy of a received request differs: %.100s / %.100s", c1.c_str(), c2.c_str());
    const char* b = r->Serialize(); u32 n = r->GetSize(); Request* back = new Request(); u32 used = back->Deserialize(const_cast<char*>(b), n); std::string c3 = canonOf(back);
    if (used != n || c3 != c1) vio("P12", "not-sendable", "a received request does not survive being encoded again: %.100s / %.100s", c1.c_str(), c3.c_str());
    delete back; delete[] b; delete copy;
    if (echo) L([&] { Request* e = new Request(); e->CopyFrom(r); c->Push(e, false, 0, false); });
}
// the same bytes in buffers of exactly their size, decoded by the application itself
static void decodeDirectly(u32 mx) {
    u32 n = 1 + pick(ST_WORK, 6); Request* r = nullptr;
    for (u32 i = 0; i < n; i++) {
        bool valid = pick(ST_WORK, 3) == 0; Spec s; std::string b; if (valid) { s = genSpec(++W->uid, 1); b = encode(s, 77); } else b = pick(ST_WORK, 2) ? wildFrame(0.2) : hostileBytes(mx);
        u32 how = pick(ST_WORK, 4), whole = (u32)b.size(); if (how == 1) b.resize(pick(ST_WORK, whole)); else if (how == 2) b += std::string(1 + pick(ST_WORK, 20), (char)pick(ST_WORK, 256));
        char* p = L([&] { return new char[b.size()]; }); memcpy(p, b.data(), b.size());
        if (!r || pick(ST_WORK, 2)) { if (r) freeReq(r); r = L([] { return new Request("before"); }); }
        u32 used = L([&] { return r->Deserialize(p, (u32)b.size()); });
        EXPECT("P12", "decoded-too-much", used <= b.size(), "decoding a buffer of %zu bytes used %u", b.size(), used);
        if (b.size() < 10) EXPECT("P12", "decoded-too-much", !used, "a request was decoded from %zu bytes", b.size());
        if (valid && how == 1) EXPECT("P12", "decoded-too-much", !used, "a request was decoded from %zu of its %u bytes", b.size(), whole);
        L([&] { delete[] p; });
        if (valid && how != 1) { std::string c = canonOf(r); EXPECT("P12", "decoded-wrong", used == whole && c == canon(s) && L([&] { return r->GetId(); }) == 77, "a valid encoding of %u bytes was decoded wrongly (used %u): %.100s / %.100s", whole, used, canon(s).c_str(), c.c_str()); }
        else if (used) canonOf(r);
        stat("work.decoded_directly");
    }
    if (r) freeReq(r);
}
static Value* makeValue(uint8_t ty) {
    switch (ty) {
        case D::ValueType64S: return new D::Value64S(); case D::ValueType64U: return new D::Value64U(); case D::ValueType32S: return new D::Value32S(); case D::ValueType32U: return new D::Value32U();
        case D::ValueType16S: return new D::Value16S(); case D::ValueType16U: return new D::Value16U(); case D::ValueType8S: return new D::Value8S(); case D::ValueType8U: return new D::Value8U();
        case D::ValueTypeStr: return new D::ValueStr(); case D::ValueTypeArr: return new D::ValueArr(); default: return new D::ValueUndefined();
    }
}
// 1: certainly well-formed, 0: certainly not, -1: not settled (too much content, unknown types)
static int wellValue(const std::string& f, size_t& o, size_t end, u32 depth = 0) {
    static const u32 W[] = {0, 8, 8, 4, 4, 2, 2, 1, 1};
    if (end - o < 5) return 0;
    u32 ty = (unsigned char)f[o], n = 0; for (int i = 0; i < 4; i++) n |= (u32)(unsigned char)f[o + 1 + i] << (8 * i);
    if (n > end - o - 5) return 0;
    size_t b = o + 5; o = b + n; if (ty > 10 || depth > 900) return -1;
    auto len = [&] { u32 v = 0; for (int i = 0; i < 4; i++) v |= (u32)(unsigned char)f[b + i] << (8 * i); return v; };
    if (ty >= 1 && ty <= 8) return n < W[ty] ? 0 : n > W[ty] ? -1 : 1;
    if (ty == 9) return n < 4 || len() != n - 4 ? 0 : 1;
    if (ty == 10) { if (n < 4) return 0; u32 c = len(); size_t q = b + 4; for (u32 i = 0; i < c; i++) { if (q >= b + n) return 0; int r = wellValue(f, q, b + n, depth + 1); if (r != 1) return r; } return q == b + n ? 1 : -1; }
    return 1;
}
// single values and data, in buffers of exactly their size
static void decodePieces() {
    u32 n = 1 + pick(ST_WORK, 6); Value* v = nullptr; D::Datum* d = L([] { return new D::Datum(); });
    for (u32 i = 0; i < n; i++) {
        double wild = pick(ST_WORK, 3) ? 0.15 : 0; bool datum = pick(ST_WORK, 3) == 0, valid = wild == 0;
        std::string b = wildValue(3, wild), nm = pick(ST_WORK, 4) ? "n" + std::to_string(i) : ""; u32 vs = (u32)b.size();
        if (datum) b = le32(pick(ST_WORK, 1000) < wild * 1000 ? edgeLen(vs) : (u32)(6 + nm.size() + vs)) + le16((u32)nm.size()) + nm + b;
        u32 how = pick(ST_WORK, 4), whole = (u32)b.size(); if (how == 1) b.resize(pick(ST_WORK, whole)); else if (how == 2) b += std::string(1 + pick(ST_WORK, 20), (char)pick(ST_WORK, 256));
        char* p = L([&] { return new char[b.size()]; }); memcpy(p, b.data(), b.size()); u32 used; stat("work.pieces_decoded");
        if (datum) used = L([&] { return d->Deserialize(p, (u32)b.size()); });
        else {
            uint8_t ty = b.empty() ? 1 : (uint8_t)b[0]; bool other = ty >= 1 && ty <= 10 && pick(ST_WORK, 8) == 7; if (other) ty = ty == 10 ? 9 : ty + 1;
            if (!v || v->GetType() != ty || pick(ST_WORK, 2)) { if (v) L([&] { delete v; }); v = L([&] { return makeValue(ty); }); }
            used = L([&] { return v->Deserialize(p, (u32)b.size()); });
            if (other) EXPECT("P12", "decoded-wrong", !used, "a value of type %u was decoded from bytes of type %u", ty, b.empty() ? 0 : (uint8_t)b[0]);
            valid = valid && !other;
        }
        L([&] { delete[] p; });
        EXPECT("P12", "decoded-too-much", used <= b.size(), "decoding a %s of %zu bytes used %u", datum ? "datum" : "value", b.size(), used);
        if (valid && how == 1) EXPECT("P12", "decoded-too-much", !used, "a %s was decoded from %zu of its %u bytes", datum ? "datum" : "value", b.size(), whole);
        if (valid && how != 1) EXPECT("P12", "decoded-wrong", used == whole, "decoding a valid %s of %u bytes used %u", datum ? "datum" : "value", whole, used);
        size_t vo = datum ? 6 + nm.size() : 0; bool whole_v = how != 1 || vo <= b.size(); if (whole_v && b.size() >= vo) {
            size_t o = vo, lim = b.size(); if (datum) { u32 tl = 0; if (b.size() >= 4) for (int k = 0; k < 4; k++) tl |= (u32)(unsigned char)b[k] << (8 * k); lim = std::min<size_t>(lim, tl); }
            int w = lim < vo ? 0 : wellValue(b, o, lim); stat(w == 0 ? "work.pieces_malformed" : w > 0 ? "work.pieces_wellformed" : "work.pieces_unsettled");
            if (!w) EXPECT("P12", "malformed-accepted", !used, "a malformed %s of %zu bytes was accepted (used %u)", datum ? "datum" : "value", b.size(), used);
        }
        // what was decoded can be encoded, and decodes to the same again
        if (used || !datum) {
            std::string e = L([&] { const char* q = datum ? d->Serialize() : v->Serialize(); std::string x(q, datum ? d->GetSize() : v->GetSize()); delete[] q; return x; });
            if (valid && how != 1) EXPECT("P12", "decoded-wrong", e == b.substr(0, whole), "a valid %s of %u bytes is encoded differently after decoding", datum ? "datum" : "value", whole);
            if (!datum) {
                Value* w = L([&] { Value* c = makeValue(v->GetType()); c->CopyFrom(v); return c; });
                std::string f = L([&] { const char* q = w->Serialize(); std::string x(q, w->GetSize()); delete[] q; delete w; return x; });
                EXPECT("P12", "copy-differs", e == f, "the copy of a decoded value of type %u is encoded in %zu bytes instead of %zu, or differently", v->GetType(), f.size(), e.size());
            } else if (valid && how != 1) EXPECT("P12", "decoded-wrong", L([&] { return d->GetName(); }) == nm, "a datum was decoded with the wrong name");
        }
    }
    L([&] { delete v; delete d; });
}
static u32 depthOfSpec(const VSpec& v) { u32 m = 0; for (auto& x : v.arr) m = std::max(m, 1 + depthOfSpec(x)); return m; }
static u32 get32(const std::string& f, size_t o) { u32 v = 0; for (int i = 0; i < 4; i++) v |= (u32)(unsigned char)f[o + i] << (8 * i); return v; }
void scHostile() {
    Env e; begin(e, FAST | FAULTY, 0); cfg.p_switch *= 0.2; Node* rn = addNode("raw");
    static const u32 MX[] = {16384, 11, 64, 1000, 5000, 100000}; u32 mx = MX[pick(ST_WORK, 6)]; bool victimIsServer = pick(ST_WORK, 3) > 0; bool handlers = pick(ST_WORK, 2), echo = pick(ST_WORK, 2);
    bool sameProcess = pick(ST_WORK, 2);
    auto prep = [&](Connection* c) { setBlocks(c, false); L([&] { if (mx != 16384) c->SetMaxRequestSize(mx); if (handlers) c->SetHandlerDefault(handler(0)); }); };
    u32 goodLink = 0; Connection* goodSide = nullptr; std::vector<std::pair<u32, std::string>> seen; std::vector<u32> seenArgs;     // what the application got from the raw peer, in order
    auto noteNow = [&seen, &seenArgs](Request* x) { u32 id = L([&] { return x->GetId(); }); seen.push_back({id, canonOf(x)}); seenArgs.push_back((u32)L([&] { return x->GetArguments().size(); })); };
    W->onConnected = [&](Server*, CR* r) {
        bool good = linkById(r->link)->node[0] != rn;
        if (good) { L([&] { r->c->SetHandlerDefault(handler(1)); }); r->hook = [](CR* q, Request*, int) { push(q, genSpec(++W->uid, 1)); }; goodLink = r->link; goodSide = r->c; return; }
        prep(r->c); r->hook = [echo, &noteNow](CR* q, Request* x, int) { noteNow(x); useRequest(q->c, x, echo); };
    };
    startServer(e); CR* good = addClient(e, [&](Client* k) { L([&] { k->SetTheirNaIntervalLimit(600); }); }); CR* gs = accepted(good);
    bool stop = false; std::vector<Task> t; u32 answers = 0;
    t.push_back(start(e.cn, "good", [&] { while (!stop) { push(good, genSpec(++W->uid, 1)); Request* q = pull(good, 5); if (!q) { vio("P12", "others-disturbed", "another connection of the attacked process got no answer (connected %d)", L([&] { return good->c->IsConnected(); })); return; } freeReq(q); answers++; sleepFor(20 * MS); } }));
    if (pick(ST_WORK, 4) == 0) call(e.sn, "decode", 100 * SEC, [&] { decodeDirectly(std::min(mx, 5000u)); decodePieces(); });
    u32 rounds = 1 + pick(ST_WORK, 3); Node* vn = victimIsServer ? e.sn : sameProcess ? e.cn : addNode("victim"); Addr ra = e.a; ra.port = 999; ra.path = "/tmp/raw.sock"; int lfd = -1;
    if (!victimIsServer) call(rn, "raw-listen", 5 * SEC, [&] { lfd = rlisten(ra); });
    std::vector<Client*> victims; u64 budget = 0;
    for (u32 rd = 0; rd < rounds; rd++) {
        int fd = -1; CR* v = nullptr; Client* k = nullptr; size_t before = W->all.size();
        if (victimIsServer) { fd = rawClient(e, rn); v = newest(before); }
        else {
            Task x = start(vn, "connect", [&] { k = L([] { return new Client(); }); prep(k); { CR* pre = newCR(k, vn, false); pre->hook = [echo, &noteNow](CR* q, Request* y, int) { noteNow(y); useRequest(q->c, y, echo); }; } if (!connectTo(k, ra, 10)) violate("connect-failed", "connect to a raw listener failed"); });
            call(rn, "raw-accept", 20 * SEC, [&] { fd = raccept(lfd); }); finish(x, 30 * SEC); v = crOf(k); victims.push_back(k);
        }
        seen.clear(); seenArgs.clear();
        std::string b = hostileBytes(mx); bool reader = pick(ST_WORK, 3) > 0, closeHard = pick(ST_WORK, 3) == 2; (void)budget;
        heap::resetPeak(); u64 base = heap::liveBytes();
        bool over = false; Task pl{};
        if (!handlers) pl = start(v->node, "victim-pull", [&] {
            D::SafeConnection* h = nullptr; if (v->server) { h = handleOf(v); if (!h) return; }
            u32 n = 0; while (n < 4000) { Request* q = L([&] { return v->c->Pull(0); }); if (q) { noteNow(q); useRequest(v->c, q, echo); freeReq(q); n++; stat("work.hostile_delivered"); continue; } if (over || L([&] { return !v->c->IsConnected() || v->c->IsDisconnecting(); })) break; sleepFor(5 * MS); }
            if (h) L([&] { delete h; });
        });
        std::string in; bool done = false;
        Task rd1 = start(rn, "raw-read", [&] { while (!done && rdrain(fd, in) >= 0) sleepFor(5 * MS); });
        if (!reader) { }
        call(rn, "attack", 100 * SEC, [&] { rsendCut(fd, b, 3 * MS); });
        sleepFor(100 * MS + cfg.latency * 4 + 10 * MS * 2); 
        over = true; if (!handlers) finish(pl, 60 * SEC);
        done = true; finish(rd1, 20 * SEC);
        call(rn, "raw-close", 5 * SEC, [&] { if (closeHard) getSock(fd, "raw")->linger0 = true; k_close(fd); });
        if (k) call(vn, "victim-stop", 20 * SEC, [&] { Lib x; k->Disconnect(true, true); });
        // memory in proportion: objects are larger than their encoding, but by a bounded factor
        u64 cap = (u64)mx * 20 + 4096; if (heap::maxAlloc() > cap) vio("P12", "huge-allocation", "with a limit of %u bytes per request, a peer made the process allocate %llu bytes at once", mx, (unsigned long long)heap::maxAlloc());
        u64 tot = 400000 + b.size() * 300 + (u64)mx * 40; if (!echo && heap::peakBytes() > base + tot) vio("P12", "memory-exhaustion", "%zu bytes from a peer (limit %u per request) made the process use %llu more bytes", b.size(), mx, (unsigned long long)(heap::peakBytes() - base));
        if (v->server && !waitFor([&] { return v->disconnectedCalls > 0; }, 5 * SEC)) vio("P12", "not-ended", "the connection of a hostile peer that has closed its socket does not end");
        // only requests that were in the stream are delivered, in their order, and the well-formed ones unchanged
        std::string rest = b, f; size_t at = 0; bool ended = false;
        auto next = [&] {       // the next frame with a valid header that is not a keep-alive
            while (!ended) {
                if (rest.size() < 4) break; u32 n = get32(rest, 0); if (n < 10 || n > mx || rest.size() < n) break;
                f = rest.substr(0, n); rest.erase(0, n); u32 nl = (unsigned char)f[8] | (unsigned char)f[9] << 8; if (10 + nl > n || f.substr(10, nl) == "_") continue;
                return true;
            }
            ended = true; return false;
        };
        for (; at < seen.size(); at++) {
            if (!next()) { vio("P12 P13 P02", "not-sent", "request %zu that was delivered from a peer's bytes is not in them: id %u %.100s", at, seen[at].first, seen[at].second.c_str()); break; }
            Spec sp; u32 id; std::string nm = f.substr(10, (unsigned char)f[8] | (unsigned char)f[9] << 8), head = std::to_string(nm.size()) + ":" + nm + "(";
            bool well = decode(f, sp, id); std::string c = well ? canon(sp) : head; if (well) for (auto& x : sp.args) well = well && depthOfSpec(x.second) < 900;
            EXPECT("P12 P02", "not-sent", seen[at].first == get32(f, 4) && (well ? seen[at].second == c : !seen[at].second.compare(0, head.size(), head)), "a peer's request %zu (id %u %.100s, %s) was delivered as id %u %.100s", at, get32(f, 4), c.c_str(), well ? "well-formed" : "damaged", seen[at].first, seen[at].second.c_str());
            if (!well) {        // no argument is made up from a malformed one
                u32 good = 0; size_t o = 10 + nm.size();
                while (f.size() - o >= 11) { u32 l = get32(f, o), al = (unsigned char)f[o + 4] | (unsigned char)f[o + 5] << 8; if (l > f.size() - o || l < 11 || al > l - 11) break; size_t q = o + 6 + al; if (wellValue(f, q, o + l)) good++; o += l; }
                EXPECT("P12", "malformed-accepted", seenArgs[at] <= good, "a request with at most %u well-formed arguments was delivered with %u: %.200s", good, seenArgs[at], seen[at].second.c_str());
            }
        }
        stat("work.hostile_rounds"); markNontrivial();
    }
    stop = true; for (auto& x : t) finish(x, 30 * SEC);
    EXPECT("P12", "others-disturbed", !gs->disconnectedCalls, "another connection of the attacked server ended");
    withConn(good, "state", [&](Connection* c) { EXPECT("P12", "others-disturbed", L([&] { return c->IsConnected() && !c->IsDisconnecting(); }), "another connection of the attacked process ended"); });
    checkDirection("good client", good, gs, true); checkDirection("good client", gs, good, false);
    if (lfd >= 0) closeFd(rn, lfd);
    // new clients are served
    CR* late = addClient(e); accepted(late); call(e.cn, "late", 20 * SEC, [&] { push(late, genSpec(++W->uid, 1)); Request* q = pull(late, 5); if (q) freeReq(q); else vio("P12", "others-disturbed", "after an attack a new client is not served"); });
    for (auto k : victims) call(vn, "delete victim", 30 * SEC, [k] { Lib l; delete k; });
    end(e);
}
// ---------------------------------------------------------------- the size limit (P13)
static Spec sized(u64 uid, u32 size, const char* name) {       // encoded size is exactly `size` (>= 60)
    Spec s; s.uid = uid; s.name = name; VSpec u; u.type = 2; u.num = uid; s.args.push_back({"u", u}); VSpec p; p.type = 9; s.args.push_back({"p", p});
    u32 have = (u32)encode(s, 0).size(); if (size > have) s.args[1].second.str.assign(size - have, 'p'); return s;
}
void scMaxSize() {
    Env e; begin(e, FAST | FAULTY, 0); cfg.p_switch *= 0.3; Node* rn = addNode("raw"); bool rawSender = pick(ST_WORK, 2), victimIsServer = pick(ST_WORK, 2), handlers = pick(ST_WORK, 2), atRuntime = pick(ST_WORK, 3) == 2;
    static const u32 MX[] = {16384, 60, 61, 200, 1024, 5000, 40000, 70000}; u32 mx = MX[pick(ST_WORK, 8)];
    bool armed = false;
    auto prep = [&](Connection* c) { setBlocks(c, mx <= 1024); L([&] { c->SetTheirNaIntervalLimit(1000); if (mx != 16384 && !atRuntime) c->SetMaxRequestSize(mx); if (handlers) c->SetHandlerDefault(handler(0)); }); };
    W->onConnected = [&](Server*, CR* r) { if (armed && victimIsServer) prep(r->c); else L([&] { r->c->SetTheirNaIntervalLimit(1000); }); };
    CR *v = nullptr, *from = nullptr; int fd = -1, lfd = -1; Addr ra = e.a; ra.port = 999; ra.path = "/tmp/raw.sock"; startServer(e);
    CR* other = addClient(e); CR* os = accepted(other); armed = true;      // another connection of the same server
    if (rawSender && victimIsServer) { size_t before = W->all.size(); fd = rawClient(e, rn); v = newest(before); }
    else if (rawSender) {
        call(rn, "raw-listen", 5 * SEC, [&] { lfd = rlisten(ra); }); Client* k = nullptr;
        Task x = start(e.cn, "connect", [&] { k = L([] { return new Client(); }); prep(k); if (!connectTo(k, ra, 10)) violate("connect-failed", "connect to a raw listener failed"); });
        call(rn, "raw-accept", 20 * SEC, [&] { fd = raccept(lfd); }); finish(x, 30 * SEC); e.cl.push_back(k); v = crOf(k);
    } else { CR* c = addClient(e, [&](Client* k) { if (!victimIsServer) prep(k); else L([&] { k->SetTheirNaIntervalLimit(1000); }); }); CR* s = accepted(c); v = victimIsServer ? s : c; from = victimIsServer ? c : s; }
    if (atRuntime) withConn(v, "limit", [&](Connection* c) { L([&] { c->SetMaxRequestSize(mx); if (c->GetMaxRequestSize() != mx) { App a; vio("P13", "not-set", "the limit set is not the limit reported"); } }); });
    // the stream: fitting requests, then possibly one that is too large and more after it
    u32 n = pick(ST_WORK, 12), ex = 0; std::vector<Spec> fit, after; bool big = pick(ST_WORK, 4) > 0;
    for (u32 i = 0; i < n; i++) { u32 k = pick(ST_WORK, 5); u32 sz = k == 0 ? mx : k == 1 ? mx - 1 : k == 2 ? std::max(60u, mx / 2) : 60 + pick(ST_WORK, std::max(1u, std::min(mx - 59, 400u))); if (sz < 60) sz = 60; if (sz > mx) sz = mx; fit.push_back(sized(++W->uid, sz, "x")); if (encode(fit.back(), 0).size() == mx) ex++; if (encode(fit.back(), 0).size() > mx) fit.pop_back(); }
    u32 over = 1; { static const u32 O[] = {1, 2, 100, 1000, 100000}; over = O[pick(ST_WORK, 5)]; }
    Spec bad = sized(++W->uid, mx + over, "big"); u32 lie = big && rawSender ? pick(ST_WORK, 4) : 0; // raw: announce a huge size without sending it
    for (u32 i = 0; i < 3; i++) after.push_back(sized(++W->uid, 60, "x"));
    bool stop = false; Task pl{}; if (!handlers) pl = puller(v, &stop, 0);
    heap::resetPeak(); u64 base = heap::maxAlloc(); (void)base; bool closedSeen = false;
    CR rec; if (rawSender) { rec.link = v->link; rec.session = v->session; }
    auto note1 = [&](const Spec& s) { PushRec p; p.uid = s.uid; p.canon = canon(s); p.fiber = cur->id; p.keepid = false; p.id = 0; p.session_lo = p.session_hi = v->session; p.call = seqno(); p.ret = seqno(); rec.pushed.push_back(p); };
    if (rawSender) call(rn, "raw-send", 3000 * SEC, [&] {
        std::string all; for (auto& s : fit) { all += encode(s, 1); note1(s); }
        u32 ann = 0; if (big) { std::string f = encode(bad, 1); ann = (u32)f.size(); if (lie) { static const u32 A[] = {0xffffffffu, 0x80000000u, 0x7fffffffu}; ann = A[lie - 1]; put32(f, 0, ann); f.resize(std::min<size_t>(f.size(), 4 + pick(ST_WORK, 200))); } all += f; note1(bad); }
        for (auto& s : after) { all += encode(s, 1); note1(s); }
        bool sent = rsendCut(fd, all, 1 * MS); (void)sent;
        if (big) { char b[512]; u64 s0 = stalledTotal(), t0 = now_ns; ssize_t r; while ((r = k_recv(fd, b, sizeof b, 0)) > 0 && since(t0, s0) < 200 * SEC) { } closedSeen = r <= 0; if (since(t0, s0) > 3 * SEC + all.size() * std::max(1 * MS, cfg.latency / 8)) vio("P13", "not-closed", "a connection on which a request above the limit was announced was closed only after %.3f s", since(t0, s0) / 1e9); }
    }); else {
        Task x = start(from->node, "push", [&] { D::SafeConnection* h = nullptr; if (from->server) { h = handleOf(from); if (!h) return; } for (auto& s : fit) push(from, s); if (big) push(from, bad); for (auto& s : after) push(from, s); if (h) L([&] { delete h; }); }); finish(x, 60 * SEC);
    }
    CR* src = rawSender ? &rec : from; size_t want = fit.size() + (big ? 0 : after.size());
    u64 total = mx + over; for (auto& q : fit) total += encode(q, 0).size();
    u64 lim = 60 * SEC + total * std::max(1 * MS, cfg.latency / 8);      // what comes before takes its time
    if (big) {
        bool ended = false;
        if (v->server) ended = waitFor([&] { return v->disconnectedCalls > 0; }, lim); else { Connection* c = v->c; call(v->node, "wait-end", lim + 30 * SEC, [&] { ended = L([&] { return c->WaitForStop((int)(lim / SEC)); }); }); }
        EXPECT("P13", "not-closed", ended, "a request of %u bytes was announced to a receiver with a limit of %u, and the connection stays open", mx + over, mx);
    } else {
        waitFor([&] { return v->got.size() >= want; }, lim); sleepFor(20 * MS);
        bool up = !v->disconnectedCalls; if (up) withConn(v, "state", [&](Connection* c) { up = L([&] { return c->IsConnected() && !c->IsDisconnecting(); }); });
        EXPECT("P13", "closed", up, "a connection on which all requests were at most %u bytes was closed", mx);
    }
    // what waits in the queue can still be pulled
    if (!handlers && !v->server) { Connection* c = v->c; (void)c; sleepFor(100 * MS); }
    stop = true; if (!handlers) finish(pl, 60 * SEC);
    markNontrivial(); if (ex) stat("work.exact_size", ex);
    for (auto& g : v->got) { if (g.uid == bad.uid) vio("P13", "oversize-delivered", "a request of %u bytes was delivered with a limit of %u", mx + over, mx); if (big) for (auto& s : after) if (g.uid == s.uid) vio("P13", "after-oversize", "a request that follows one above the limit was delivered"); }
    if (!(v->server && !handlers && big)) EXPECT("P13", "lost", v->got.size() >= want, "%zu of %zu requests of at most %u bytes were delivered", v->got.size(), want, mx);
    checkDirection("sized", src, v, false);
    if (lie) EXPECT("P13 P12", "reserved", heap::maxAlloc() < 1000000, "%llu bytes were allocated for a request that was only announced", (unsigned long long)heap::maxAlloc());
    else if (rawSender) EXPECT("P13 P12", "reserved", heap::maxAlloc() <= mx + 3000, "%llu bytes were allocated at once with a limit of %u", (unsigned long long)heap::maxAlloc(), mx);
    EXPECT("P13", "others-closed", !os->disconnectedCalls, "another connection of the server was closed");
    (void)closedSeen;
    if (fd >= 0) closeFd(rn, fd); if (lfd >= 0) closeFd(rn, lfd);
    { bool ok = false; call(e.cn, "other", 20 * SEC, [&] { push(other, genSpec(++W->uid, 1)); ok = true; }); withConn(os, "other-pull", [&](Connection*) { Request* q = pull(os, 5); if (q) freeReq(q); else ok = false; }); EXPECT("P13", "others-closed", ok, "another connection of the server does not work any more"); }
    end(e);
}
// ---------------------------------------------------------------- connecting (P19)
void scConnect() {
    Env e; begin(e, FAST | FAULTY, 0); cfg.stall_budget = 500 * MS; e.a.tcp = true; Addr tcpA = e.a, unA = e.a; unA.tcp = false; Node* rn = addNode("raw"); bool bothServers = pick(ST_WORK, 2);
    W->onConnected = [&](Server*, CR* r) { L([&] { r->c->SetHandlerDefault(handler(0)); }); r->hook = [](CR* q, Request*, int) { push(q, genSpec(++W->uid, 1)); }; };
    if (pick(ST_WORK, 2)) std::swap(tcpA, unA), e.a = tcpA;
    startServer(e); Server* s2 = nullptr; Addr a2 = unA; if (bothServers) call(e.sn, "server-start", 10 * SEC, [&] { s2 = newServer(); if (!serverStart(s2, a2)) violate("start-failed", "a second server could not be started"); });
    setBlackhole(ip4("10.1.1.1"), 7, 1); setBlackhole(ip4("10.1.1.2"), 7, 2); setBlackhole(ip4("10.1.1.4"), 0xfffe, 1);
    Addr lateA = e.a; lateA.tcp = true; lateA.ip = "10.1.1.3"; lateA.port = 7; setBlackhole(ip4("10.1.1.3"), 7, 3);
    int lateFd = -1, fullT = -1, fullU = -1, dead = -1; Addr fT = lateA, fU = lateA; fT.ip = "10.1.1.5"; fU.tcp = false; fU.path = "/tmp/full.sock"; Addr deadU = fU, holdU = fU; deadU.path = "/tmp/dead.sock"; holdU.path = "/tmp/hold.sock"; int holdFd = -1;
    call(rn, "raw", 10 * SEC, [&] { lateFd = rlisten(lateA); fullT = rlisten(fT, 1); fullU = rlisten(fU, 1); dead = rlisten(deadU); holdFd = rlisten(holdU); k_close(dead); touchPath("/tmp/plain"); });
    std::vector<int> fill; call(rn, "fill", 20 * SEC, [&] { for (int i = 0; i < 2; i++) { fill.push_back(rconnect(fT)); fill.push_back(rconnect(fU)); } });
    Client* k = nullptr; Node* cn = e.cn; u32 cases = 1 + pick(ST_WORK, 5); bool stop = false; bool lowFds = false;
    call(cn, "new", 5 * SEC, [&] { k = L([] { return new Client(); }); L([&] { k->SetTheirNaIntervalLimit(1000); }); });
    e.cl.push_back(k); u64 idleFds = openFds(cn); bool connecting = false; u64 seenBoth = 0;
    Task w = start(cn, "watch", [&] { while (!stop) { bool c = L([&] { return k->IsConnected(); }), g = L([&] { return k->IsConnecting(); }); (void)g; (void)c; if (c && g) seenBoth++; sleepFor(100 * MS + (u64)pick(ST_WORK, 300) * MS); } });
    for (u32 i = 0; i < cases; i++) {
        u32 kind = pick(ST_WORK, 20); static const int T[] = {1, 2, 3, 30, 0, -1}; int to = T[pick(ST_WORK, 6)];
        Addr a = e.a; int expect = 0;       // 0: false, 1: true, 2: either
        u64 least = 0, most = to < 0 ? 130 * SEC : (u64)to * SEC + 500 * MS;      // bounds of the duration
        switch (kind) {
            case 0: a = tcpA; expect = 1; break;
            case 1: a = bothServers ? a2 : tcpA; expect = 1; break;
            case 2: a.tcp = true; a.ip = "127.0.0.1"; a.port = 4; break;                 // refused
            case 3: a.tcp = true; a.ip = "10.1.1.2"; a.port = 7; break;
            case 4: case 5: a.tcp = true; a.ip = "10.1.1.1"; a.port = 7; least = to < 0 ? 100 * SEC : (u64)to * SEC; break;   // nothing answers
            case 6: a = lateA; expect = to < 0 || to >= 2 ? 1 : 0; least = to == 0 ? 0 : to == 1 ? 1 * SEC : 1400 * MS; break;
            case 7: a.tcp = true; a.ip = "10.1.1.4"; a.port = 7; break;                  // unreachable
            case 8: { static const char* B[] = {"", "999.1.1.1", "no such host", "1.2.3.4.5", "localhost", "127.0.0.1x"}; a.tcp = true; a.ip = B[pick(ST_WORK, 6)]; break; }
            case 9: a.tcp = false; a.path = "/tmp/nothing"; break;
            case 10: a.tcp = false; a.path = "/tmp/plain"; break;
            case 11: a = deadU; break;
            case 12: { static const u32 N[] = {107, 108, 109, 120, 5000}; a.tcp = false; a.path = "/tmp/" + std::string(N[pick(ST_WORK, 5)] - 5, 'p'); break; }
            case 13: a = fT; least = to < 0 ? 100 * SEC : (u64)to * SEC; break;          // backlog full, never accepted
            case 14: a = fU; if (to < 0) to = 2; most = (u64)to * SEC + 500 * MS; least = (u64)to * SEC; break;
            case 15: a.tcp = false; a.path = "/missing/x"; break;
            case 16: a = tcpA; lowFds = true; expect = 2; break;                         // out of descriptors
            case 17: a.tcp = false; a.path = ""; break;
            case 18: a = holdU; expect = 1; break;                                       // never reads
            default: a = tcpA; expect = 1; break;
        }
        if (to == 0 && expect == 1) expect = a.tcp ? 2 : 1;
        if (lowFds) { cn->max_fds = 3 + openFds(cn) + pick(ST_WORK, 9); stat("fault.low_fd_limit"); }
        u64 nlinks = links().size(); bool ok = false; u64 t0 = 0, t1 = 0, dur = 0; bool c1 = false, c2 = false, g2 = false; (void)c1;
        call(cn, "connect", 200 * SEC, [&] {
            connecting = true; t0 = now_ns; dur = timed([&] { ok = connectTo(k, a, to); }); t1 = now_ns; connecting = false;
            c2 = L([&] { return k->IsConnected(); }); g2 = L([&] { return k->IsConnecting(); });
        });
        if (lowFds) { cn->max_fds = 1024; lowFds = false; if (!ok) least = 0; }
        CR* r = crOf(k); stat(("work.connect_kind_" + std::to_string(kind)).c_str());
        if (ok) { EXPECT("P19", "false-success", expect && links().size() > nlinks && r->link && linkById(r->link)->end[0], "a connect call to %s reported success without a connection", a.tcp ? a.ip.c_str() : a.path.c_str()); }
        else EXPECT("P19", "false-failure", expect != 1, "a connect call to a server that accepts (kind %u, timeout %d) failed after %.3f s", kind, to, dur / 1e9);
        EXPECT("P19", "late-return", dur <= most, "a connect call with a timeout of %d s (kind %u) took %.3f s", to, kind, dur / 1e9);
        if (!ok) EXPECT("P19 P18", "early-return", t1 - t0 + 2 * MS >= least, "a connect call with a timeout of %d s to a silent server (kind %u) gave up after %.3f s", to, kind, (t1 - t0) / 1e9);
        EXPECT("P19", "wrong-state", c2 == ok && !g2, "after a connect call that returned %d the client says connected=%d connecting=%d", ok, c2, g2);
        if (!ok) {
            sleepFor(5 * MS); EXPECT("P19 P20", "trace-left", openFds(cn) == idleFds, "after a failed connect (kind %u) the client holds %u descriptors instead of %llu: %s", kind, openFds(cn), (unsigned long long)idleFds, fdList(cn).c_str());
            continue;
        }
        // a session: works, and is not disturbed by another connect call
        bool echo = kind != 6 && kind != 18; markNontrivial();
        auto exchange = [&] { if (!echo) return; push(r, genSpec(++W->uid, 1)); Request* q = pull(r, 20); if (!q) vio("P19", "session-unusable", "a connection reported as established does not work"); else freeReq(q); };
        call(cn, "session", 120 * SEC, [&] {
            exchange(); u32 m = pick(ST_WORK, 3);
            for (u32 j = 0; j < m; j++) {
                bool again = true; u64 d = timed([&] { Lib x; again = pick(ST_WORK, 2) ? k->ConnectTcp("127.0.0.1", 4, 5) : k->ConnectUnix(unA.path, 5); });
                EXPECT("P19", "connected-twice", !again, "a connected client connected a second time"); EXPECT("P19", "late-return", d < 200 * MS, "a refused second connect took %.3f s", d / 1e9);
                EXPECT("P19", "session-disturbed", L([&] { return k->IsConnected(); }), "a refused second connect ended the session"); exchange();
            }
            if (!echo && pick(ST_WORK, 2)) {      // a graceful disconnect that cannot finish: still connected
                bool again = true, still = false; L([&] { k->Disconnect(false); }); nap(50 * MS);
                u64 d = timed([&] { Lib x; again = e.a.tcp ? k->ConnectTcp(e.a.ip, (uint16_t)e.a.port, 5) : k->ConnectUnix(e.a.path, 5); still = k->IsConnected() && k->IsDisconnecting(); });
                EXPECT("P19", "connected-twice", !again, "a client that is still connected connected a second time"); EXPECT("P19", "late-return", d < 200 * MS, "a refused second connect took %.3f s", d / 1e9);
                EXPECT("P19 P03", "session-disturbed", still, "a refused second connect ended the session");
            }
            L([&] { k->Disconnect(!echo || pick(ST_WORK, 2), true); });
            EXPECT("P19", "wrong-state", !L([&] { return k->IsConnected() || k->IsConnecting(); }), "a disconnected client says it is connected");
        });
        if (kind == 18) call(rn, "accept-late", 10 * SEC, [&] { int fd = raccept(holdFd); k_close(fd); });
        if (kind == 6) call(rn, "accept-late", 10 * SEC, [&] { int fd = raccept(lateFd); k_close(fd); });
        sleepFor(5 * MS); idleFds = openFds(cn);
    }
    stop = true; finish(w, 10 * SEC); markNontrivial();
    // after all that it can connect
    call(cn, "finally", 60 * SEC, [&] { if (!connectTo(k, tcpA, 10)) { vio("P19", "no-retry", "a client cannot connect after failed attempts"); return; } CR* r = crOf(k); push(r, genSpec(++W->uid, 1)); Request* q = pull(r, 10); if (q) freeReq(q); else vio("P19", "session-unusable", "a connection made after failed attempts does not work"); });
    if (s2) call(e.sn, "delete server", 30 * SEC, [&] { Lib l; delete s2; });
    end(e);
}
// ---------------------------------------------------------------- starting servers on odd addresses (P17)
void scStart() {
    Env e; begin(e, FAST | FAULTY, 0); e.sn->max_fds = 1024; Node* sn = e.sn; Node* rn = addNode("raw"); Addr busy; busy.tcp = true; busy.ip = "127.0.0.1"; busy.port = 77; int bfd = -1; call(rn, "raw", 5 * SEC, [&] { bfd = rlisten(busy); touchPath("/tmp/plain"); touchPath("/denied/x"); });
    setBlackhole(ip4("10.9.9.9"), 0xffff, 1);   // not an address of this host
    W->onConnected = [&](Server*, CR* r) { L([&] { r->c->SetHandlerDefault(handler(0)); }); r->hook = [](CR* q, Request*, int) { push(q, genSpec(++W->uid, 1)); }; };
    Server* s = nullptr; call(sn, "new", 5 * SEC, [&] { s = newServer(); }); e.s = s; u32 n = 1 + pick(ST_WORK, 6); u64 idle = openFds(sn); std::string theirs; int tfd = -1;
    for (u32 i = 0; i < n; i++) {
        u32 kind = pick(ST_WORK, 13); int expect = 0; Addr a = e.a; bool dof = true, low = false; bool had = false;
        switch (kind) {
            case 0: a = busy; break;
            case 1: a.tcp = true; a.ip = "10.9.9.9"; break;
            case 2: { static const char* B[] = {"", "300.1.1.1", "x", "127.0.0.1 x y"}; a.tcp = true; a.ip = B[pick(ST_WORK, 3)]; break; }
            case 3: a.tcp = false; a.path = "/missing/s"; break;
            case 4: a.tcp = false; a.path = "/denied/x"; break;
            case 5: { static const u32 N[] = {108, 109, 200, 4000}; a.tcp = false; a.path = "/tmp/" + std::string(N[pick(ST_WORK, 4)] - 5, 'q'); break; }
            case 6: a.tcp = false; a.path = "/tmp/plain"; dof = pick(ST_WORK, 2); expect = dof || !pathExists(a.path); had = true; break;
            case 7: a.tcp = false; a.path = "/tmp/" + std::string(107 - 5, 'r'); expect = 1; break;
            case 8: low = true; expect = 2; break;
            case 9: a.tcp = true; a.ip = "0.0.0.0"; a.port = 0; expect = 1; break;
            case 12: sn->fail_listen = true; break;
            default: expect = 1;
        }
        if (tfd >= 0 && !a.tcp && a.path == theirs) { closeFd(rn, tfd); tfd = -1; }
        (void)had; bool ok = false, was = !a.tcp && pathExists(a.path); u32 ty = 9; std::string info; u64 d = 0;
        if (low) { sn->max_fds = 3 + openFds(sn) + pick(ST_WORK, 4); stat("fault.low_fd_limit"); }
        call(sn, "start", 20 * SEC, [&] { Lib l; d = timed([&] { ok = a.tcp ? s->StartTcp(a.ip, (uint16_t)a.port) : s->StartUnix(a.path, dof); }); ty = s->GetType(); if (ok) { info = a.tcp ? s->GetTcpIpString() + ":" + std::to_string(s->GetTcpPort()) : s->GetUnixPath(); } });
        sn->max_fds = 1024; sn->fail_listen = false; W->stopped.erase(s); W->ids[s].clear(); stat(("work.start_kind_" + std::to_string(kind)).c_str());
        EXPECT("P17", "start-result", expect == 2 || ok == (expect == 1), "starting a server (kind %u) returned %d", kind, ok);
        EXPECT("P17", "wrong-state", (ty != D::SocketTypeUndefined) == ok, "after a start that returned %d the server's type is %u", ok, ty);
        EXPECT("P17", "slow-start", d < 500 * MS, "starting a server took %.3f s", d / 1e9);
        if (!ok) { call(sn, "stop", 20 * SEC, [&] { u64 x = timed([&] { Lib l; s->Stop(negative()); s->WaitForStop(negative()); }); EXPECT("P17", "slow-stop", x < 300 * MS, "stopping a server that failed to start took %.3f s", x / 1e9); }); EXPECT("P17 P20", "trace-left", openFds(sn) == idle, "a server that failed to start (kind %u) holds descriptors: %s", kind, fdList(sn).c_str()); EXPECT("P17", "trace-left", a.tcp || was || !pathExists(a.path), "a server that failed to start (kind %u) has left its socket file", kind); if (tfd >= 0) EXPECT("P17", "others-file-removed", pathExists(theirs), "the socket file of another server has been removed by a server that failed to start"); continue; }
        if (kind != 9) {
            EXPECT("P17", "wrong-address", info == (a.tcp ? a.ip + ":" + std::to_string(a.port) : a.path), "a server started on %s:%u %s says it is on %s", a.ip.c_str(), a.port, a.path.c_str(), info.c_str());
            Addr keep = e.a; e.a = a; CR* c = addClient(e); accepted(c); call(e.cn, "talk", 20 * SEC, [&] { push(c, genSpec(++W->uid, 1)); Request* q = pull(c, 5); if (q) freeReq(q); else vio("P17", "not-served", "a started server does not serve"); }); e.a = keep;
        }
        markNontrivial();
        call(sn, "stop", 20 * SEC, [&] { u64 x = timed([&] { Lib l; s->Stop(negative()); s->WaitForStop(negative()); }); EXPECT("P17", "slow-stop", x < 2 * SEC, "stopping took %.3f s", x / 1e9); afterStop(s, sn); });
        if (!a.tcp) EXPECT("P17", "socket-file-left", !pathExists(a.path), "the socket file is still there after the server has stopped");
        EXPECT("P17", "still-listening", !H::listening(a.tcp, ip4(a.ip), a.port, a.path), "a stopped server still listens");
        EXPECT("P17 P20", "trace-left", openFds(sn) == idle, "a stopped server holds descriptors: %s", fdList(sn).c_str());
        if (tfd >= 0) EXPECT("P17", "others-file-removed", pathExists(theirs), "a stopped server has removed the socket file of another one, at the path of an earlier run");
        else if (!a.tcp && pick(ST_WORK, 2)) { Addr b = a; call(rn, "take-over", 5 * SEC, [&] { tfd = rlisten(b); }); theirs = a.path; stat("work.path_taken_over"); }
    }
    closeFd(rn, bfd); if (tfd >= 0) closeFd(rn, tfd);
    end(e);
}
// ---------------------------------------------------------------- stalled peers and slow handlers (P21)
void scIsolation() {
    Env e; begin(e, FAST | FAULTY | (pick(ST_CFG, 3) ? SMALLBUF : 0), 0); cfg.stall_budget = 500 * MS; Node* rn = addNode("raw"); Addr a = e.a; a.port = 999; a.path = "/tmp/raw.sock";
    enum { NOREAD, PARTIAL, SLOWHANDLER, FROZEN }; u32 kind = pick(ST_WORK, 4); bool victimIsClient = kind < 2 && pick(ST_WORK, 3) == 2; u64 slow = (u64)(3 + pick(ST_WORK, 8)) * SEC;
    bool endFirst = pick(ST_WORK, 4) == 3;      // the application gives up on the stalled connection
    u64 bound = 500 * MS + 4 * cfg.latency;
    W->onConnected = [&](Server*, CR* r) {
        Node* pn = linkById(r->link)->node[0]; L([&] { r->c->SetTheirNaIntervalLimit(1000); r->c->SetMaxRequestSize(1 << 20); r->c->SetOurSaInterval(100 + pick(ST_WORK, 3)); }); setBlocks(r->c, false);
        if (pn == rn || pn->name == "bad") { if (kind == SLOWHANDLER) { auto left = std::make_shared<int>(1); r->hook = [slow, left](CR*, Request*, int) { if ((*left)-- > 0) sleepFor(slow); }; L([&] { r->c->SetHandlerDefault(handler(2)); }); } return; }
        L([&] { r->c->SetHandlerDefault(handler(1)); }); r->hook = [](CR* q, Request*, int) { push(q, genSpec(++W->uid, 1)); };
    };
    startServer(e); CR* good = addClient(e, [&](Client* k) { L([&] { k->SetTheirNaIntervalLimit(1000); }); }); CR* gs = accepted(good); bool stop = false; std::vector<Task> t; u64 worst = 0;
    // the stalled connection
    CR *v = nullptr, *bad = nullptr; int fd = -1, lfd = -1; Client* bc = nullptr; Node* bn = nullptr; size_t before = W->all.size();
    if (kind < 2 && !victimIsClient) { fd = rawClient(e, rn); v = newest(before); }
    else if (kind < 2) {
        call(rn, "raw-listen", 5 * SEC, [&] { lfd = rlisten(a); });
        Task x = start(e.cn, "connect", [&] { bc = L([] { return new Client(); }); L([&] { bc->SetTheirNaIntervalLimit(1000); }); if (!connectTo(bc, a, 10)) violate("connect-failed", "connect to a raw listener failed"); });
        call(rn, "raw-accept", 20 * SEC, [&] { fd = raccept(lfd); }); finish(x, 30 * SEC); e.cl.push_back(bc); v = crOf(bc);
    } else {
        bn = addNode("bad"); call(bn, "connect", 30 * SEC, [&] { bc = L([] { return new Client(); }); L([&] { bc->SetTheirNaIntervalLimit(1000); bc->SetOurSaInterval(500); bc->SetMaxRequestSize(1 << 20); }); if (!connectTo(bc, e.a, 10)) violate("connect-failed", "a client could not connect"); });
        bad = crOf(bc); v = accepted(bad);
    }
    std::string partial; if (kind == PARTIAL) { partial = encode(genSpec(++W->uid, 2), 3); u32 cut = 1 + pick(ST_WORK, (u32)partial.size() - 1); call(rn, "partial", 20 * SEC, [&] { rsend(fd, partial.substr(0, cut)); }); partial.erase(0, cut); }
    if (kind == SLOWHANDLER) call(bn, "trigger", 20 * SEC, [&] { push(bad, genSpec(++W->uid, 1)); });
    if (kind == FROZEN) { bn->stall_until = now_ns + slow; stat("fault.frozen_process"); }
    sleepFor(20 * MS + 2 * cfg.latency); u64 stallStart = now_ns;
    // a backlog that does not fit into the socket buffers; every call returns promptly
    u32 np = 1 + pick(ST_WORK, 40); std::vector<u64> mine;
    t.push_back(start(v->node, "backlog", [&] {
        D::SafeConnection* h = nullptr; if (v->server) { h = handleOf(v); if (!h) return; } Connection* c = v->c;
        auto prompt = [&](const char* what, std::function<void()> f) { u64 d = timed(f); if (d > 200 * MS) vio("P21", "slow-call", "%s on a connection whose peer is stalled took %.3f s", what, d / 1e9); };
        for (u32 i = 0; i < np; i++) { Spec s = genSpec(++W->uid, kind == PARTIAL ? 1 : 2 + (int)pick(ST_WORK, 2)); if (pick(ST_WORK, 12) == 0) { pushWaiting(v, 1); continue; } prompt("Push", [&] { push(v, s); }); if (pick(ST_WORK, 4) == 3) { prompt("Pull(0)", [&] { Request* q = pull(v, 0); if (q) freeReq(q); }); prompt("a state query", [&] { Lib x; c->IsConnected(); c->IsDisconnecting(); c->GetType(); }); prompt("a setter", [&] { Lib x; c->SetOurSaInterval(200); c->SetTheirNaIntervalLimit(1000); c->SetSendBlockSize(512); c->GetHandlerDefault(); }); if (!v->server) prompt("WaitForStop(0)", [&] { bool r = L([&] { return c->WaitForStop(0); }); EXPECT("P21 P18", "false-end", !r || c->IsDisconnecting(), "WaitForStop(0) reported an end that has not happened"); }); } nap(50 * MS); }
        if (h) L([&] { delete h; });
    }));
    // the good client: prompt answers all the time
    t.push_back(start(e.cn, "good", [&] { u32 n = 5 + pick(ST_WORK, 20); for (u32 i = 0; i < n; i++) { bool ok = false; u64 d = timed([&] { push(good, genSpec(++W->uid, 1)); Request* q = pull(good, 10); ok = q; if (q) freeReq(q); }); worst = std::max(worst, d); if (!ok) { vio("P21", "others-stuck", "another client got no answer within 10 s while a peer was stalled"); return; } EXPECT("P21", "others-delayed", d <= bound, "another client waited %.3f s for its answer while a peer was stalled", d / 1e9); nap(200 * MS); } }));
    // lookups and new clients
    t.push_back(start(e.cn, "newcomer", [&] { u32 n = pick(ST_WORK, 3); for (u32 i = 0; i < n; i++) { nap(1 * SEC); Client* k = L([] { return new Client(); }); L([&] { k->SetTheirNaIntervalLimit(1000); }); u64 d = timed([&] { if (!connectTo(k, e.a, 5)) { vio("P21", "new-client-refused", "a new client could not connect while a peer was stalled"); return; } CR* r = crOf(k); push(r, genSpec(++W->uid, 1)); Request* q = pull(r, 5); if (q) freeReq(q); else vio("P21", "new-client-stuck", "a new client got no answer while a peer was stalled"); }); EXPECT("P21", "new-client-delayed", d <= bound + 10 * cfg.latency, "a new client waited %.3f s while a peer was stalled", d / 1e9); L([&] { delete k; }); } }));
    t.push_back(start(e.sn, "lookup", [&] { u32 n = pick(ST_WORK, 6); for (u32 i = 0; i < n; i++) { u64 d = timed([&] { Lib x; D::SafeConnection* h = e.s->GetConnection((u32)(1 + pick(ST_WORK, 4))); delete h; }); EXPECT("P21", "slow-call", d <= 200 * MS, "a lookup took %.3f s while a peer was stalled", d / 1e9); nap(100 * MS); } }));
    // the other direction of the stalled connection still works
    std::vector<u64> up; if (kind == NOREAD) { u32 n = 1 + pick(ST_WORK, 6); size_t g0 = v->got.size();
        for (u32 i = 0; i < n; i++) {
            nap(100 * MS); Spec s = genSpec(++W->uid, 1); up.push_back(s.uid); call(rn, "raw-send", 20 * SEC, [&] { rsend(fd, encode(s, 7)); });
            bool ok = withConn(v, "pull", [&](Connection*) { bool got = false; for (int j = 0; j < 3 && !got; j++) { Request* q = pull(v, 1); if (q) { freeReq(q); got = true; } if (v->got.size() >= g0 + i + 1) got = true; } EXPECT("P21", "receive-stuck", got, "nothing is received on a connection whose peer does not read"); }); (void)ok;
        } }
    for (auto& x : t) finish(x, 100 * SEC);
    markNontrivial();
    u64 ran = now_ns - stallStart; (void)ran;
    if (endFirst) {       // disconnect calls return promptly, and a forced one completes
        withConn(v, "give-up", [&](Connection* c) { u64 d = timed([&] { Lib x; c->Disconnect(false, false); c->IsConnected(); c->Disconnect(true, false); }); EXPECT("P21 P04", "slow-call", d <= 200 * MS, "Disconnect on a connection whose peer is stalled took %.3f s", d / 1e9); });
        if (v->server) { bool ok = waitFor([&] { return v->disconnectedCalls > 0; }, 2 * SEC + (kind == SLOWHANDLER ? slow : 0)); EXPECT("P21 P04", "not-ended", ok, "a forced disconnect of a stalled connection did not complete"); }
        else { Connection* c = v->c; call(v->node, "wait-end", 30 * SEC, [&] { bool ok = L([&] { return c->WaitForStop(3); }); EXPECT("P21 P04", "not-ended", ok, "a forced disconnect of a stalled connection did not complete"); }); }
    } else {
        // the peer resumes: everything pushed meanwhile arrives, in order
        std::vector<u64> want; for (auto& p : v->pushed) want.push_back(p.uid);
        if (fd >= 0) {
            std::vector<u64> got; std::string buf, f; Spec s; u32 id; u64 s0 = stalledTotal(), t0 = now_ns;
            call(rn, "resume", 300 * SEC, [&] {
                if (kind == PARTIAL) rsend(fd, partial);
                while (got.size() < want.size() && since(t0, s0) < 100 * SEC) { int k = rdrain(fd, buf); while (takeFrame(buf, f)) { if (!decode(f, s, id)) { vio("P21 P01", "bad-frame", "the library sent a malformed frame"); return; } if (s.name == "_") continue; got.push_back(s.uid); std::string c = canon(s); size_t at = got.size() - 1; if (at < v->pushed.size() && (v->pushed[at].uid != s.uid || v->pushed[at].canon != c)) { vio("P21 P01", "wrong-after-resume", "after the peer resumed, request %zu arrived wrong (uid %llu, expected %llu)", at, (unsigned long long)s.uid, (unsigned long long)v->pushed[at].uid); return; } } if (k < 0) break; if (!k) sleepFor(2 * MS); }
            });
            EXPECT("P21 P01", "lost-after-resume", got.size() == want.size(), "after the peer resumed, %zu of %zu requests arrived", got.size(), want.size());
            if (kind == PARTIAL) { bool ok = false; withConn(v, "pull", [&](Connection*) { for (int j = 0; j < 5 && !ok; j++) { Request* q = pull(v, 1); if (q) { freeReq(q); ok = true; } } }); EXPECT("P21 P01", "lost-after-resume", ok || v->got.size(), "a request whose second half was late did not arrive"); }
        } else {
            sleepFor(slow + 1 * SEC); bool ps = false; Task pl = puller(bad, &ps, 0);
            waitFor([&] { return bad->got.size() >= want.size(); }, 60 * SEC); sleepFor(20 * MS); ps = true; finish(pl, 30 * SEC);
            checkDirection("after resuming", v, bad, false); EXPECT("P21 P01", "lost-after-resume", bad->got.size() == want.size(), "after the peer resumed, %zu of %zu requests arrived", bad->got.size(), want.size());
        }
        EXPECT("P21", "connection-lost", !v->disconnectedCalls, "a connection ended because its peer was stalled for less than the silence limit");
    }
    stop = true; EXPECT("P21", "others-lost", !gs->disconnectedCalls, "another connection ended while a peer was stalled");
    if (fd >= 0) closeFd(rn, fd); if (lfd >= 0) closeFd(rn, lfd);
    if (bn) call(bn, "delete bad", 60 * SEC, [&] { Lib l; delete bc; });
    checkDirection("good client", good, gs, true);
    end(e);
}
