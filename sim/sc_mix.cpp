// Everything at once: callbacks, handlers and application threads that use several connections (P11), all
// thread-safe calls against each other (P23), pushes that wait for a response (P24).
#include "harness.hpp"
using namespace H;

// ---------------------------------------------------------------- no deadlock (P11)
namespace {
struct Cross {
    Env e; std::vector<CR*> cs; int budget = 0; bool stopAsked = false, mayStop = false; int inCall = 0;
    std::vector<D::SafeConnection*> pool; u32 maxId = 6;
    // calls that never wait must return in bounded time
    void prompt(const char* what, std::function<void()> f) { u64 d = timed(f); if (d > 2 * SEC) vio("P11 P21", "slow-call", "%s took %.3f s", what, d / 1e9); }
    void pushTo(CR* r, int size = -1) { if (!r || r->deadObj || budget-- <= 0) return; Spec s = genSpec(++W->uid, size < 0 ? (int)pick(ST_WORK, 3) : size); prompt("Push", [&] { push(r, s); }); }
    D::SafeConnection* look() { D::SafeConnection* h = nullptr; u32 id = 1 + pick(ST_WORK, maxId); bool tag = pick(ST_WORK, 2); prompt("GetConnection", [&] { Lib l; h = tag ? e.s->GetConnection("t" + std::to_string(id)) : e.s->GetConnection(id); }); return h; }
    Connection* of(D::SafeConnection* h) { return L([&] { return &(*h)(); }); }
    // the server's side; self: the connection whose handler or callback this is
    void serverStep(CR* self, bool onThread) {
        switch (pick(ST_WORK, 12)) {
            case 0: case 1: if (self) { pushTo(self); break; } // fall through
            case 2: case 3: { D::SafeConnection* h = look(); if (!h) break; CR* r = crOf(of(h)); if (r) pushTo(r); if (onThread) nap(2 * MS); prompt("releasing a handle", [&] { Lib l; delete h; }); break; }
            case 4: { D::SafeConnection* h = look(); if (h) pool.push_back(h); break; }
            case 5: if (pool.size()) { auto h = pool.back(); pool.pop_back(); prompt("releasing a handle", [&] { Lib l; delete h; }); } break;
            case 6: { D::SafeConnection* h = look(); if (!h) break; Connection* c = of(h); if (pick(ST_WORK, 5) == 0) prompt("Disconnect", [&] { Lib l; c->Disconnect(pick(ST_WORK, 2), false); }); L([&] { c->IsConnected(); c->IsDisconnecting(); c->GetType(); c->GetRefs(); }); prompt("releasing a handle", [&] { Lib l; delete h; }); break; }
            case 7: { D::SafeConnection* h = look(); if (!h) break; CR* r = crOf(of(h)); if (r) { Request* q = nullptr; prompt("Pull(0)", [&] { q = pull(r, 0); }); if (q) freeReq(q); } prompt("releasing a handle", [&] { Lib l; delete h; }); break; }
            case 8: { D::SafeConnection* h = look(); if (!h) break; D::SafeConnection* g = look(); if (g) { CR* r = crOf(of(g)); if (r) pushTo(r); L([&] { delete g; }); } Connection* c = of(h); L([&] { c->SetHandlerNamed("x", handler(2)); c->GetHandlerNamed("x"); c->SetOurSaInterval(7); c->SetTheirNaIntervalLimit(500); }); L([&] { delete h; }); break; }
            case 9: if (self && pick(ST_WORK, 6) == 0) { Connection* c = self->c; prompt("Disconnect", [&] { Lib l; c->Disconnect(pick(ST_WORK, 2), false); }); } break;
            case 10: if (mayStop && pick(ST_WORK, 8) == 0) { ev("Stop(0) asked"); prompt("Stop(0)", [&] { Lib l; e.s->Stop(0); }); stopAsked = true; } break;
            default: if (self) { Connection* c = self->c; Request* q = nullptr; prompt("Pull(0)", [&] { q = pull(self, 0); }); if (q) freeReq(q); L([&] { c->SetHandlerDefault(handler(1)); c->GetHandlerDefault(); }); }
        }
    }
    void clientStep(CR* self) {
        CR* r = self && pick(ST_WORK, 2) ? self : cs.size() ? cs[pick(ST_WORK, (u32)cs.size())] : nullptr; if (!r || r->deadObj) return; vcAcquire(r->vc); Connection* c = r->c;
        switch (pick(ST_WORK, 8)) {
            case 0: case 1: case 2: pushTo(r); break;
            case 3: { Request* q = nullptr; prompt("Pull(0)", [&] { q = pull(r, 0); }); if (q) freeReq(q); break; }
            case 4: L([&] { c->IsConnected(); c->IsDisconnecting(); c->GetType(); c->GetOurSaInterval(); c->SetHandlerNamed("y", handler(3)); c->GetHandlerDefault(); }); break;
            case 5: if (pick(ST_WORK, 10) == 0) prompt("Disconnect", [&] { Lib l; c->Disconnect(pick(ST_WORK, 2), false); }); break;
            default: pushTo(self ? self : r, 0);
        }
    }
};
}
void scCrosstalk() {
    Cross x; Env& e = x.e; begin(e, FAST | FAULTY | (pick(ST_CFG, 2) ? SMALLBUF : 0), 6); x.budget = 20 + (int)pick(ST_WORK, 100); x.mayStop = pick(ST_WORK, 3) == 2; Cross* X = &x;
    bool sh = pick(ST_WORK, 4) > 0, ch = pick(ST_WORK, 4) > 0, inCb = pick(ST_WORK, 2), inDis = pick(ST_WORK, 2); u64 hNap = pick(ST_WORK, 3) == 2 ? 20 * MS : 0;
    W->onConnected = [=](Server*, CR* r) { u32 id = r->id_connected; setBlocks(r->c, false); L([&] { r->c->tag = "t" + std::to_string(id); r->c->SetTheirNaIntervalLimit(500); if (sh) r->c->SetHandlerDefault(handler(1)); }); r->hook = [=](CR* q, Request*, int) { if (hNap) nap(hNap); u32 n = 1 + pick(ST_WORK, 3); for (u32 i = 0; i < n; i++) X->serverStep(q, false); }; if (inCb) for (u32 i = pick(ST_WORK, 4); i; i--) X->serverStep(r, false); };
    W->onDisconnected = [=](Server*, CR*) { if (inDis) for (u32 i = pick(ST_WORK, 4); i; i--) X->serverStep(nullptr, false); };
    bool limited = pick(ST_WORK, 4) == 3; startServer(e, [&](Server* s) { if (limited) L([&] { s->SetMaxConnections(3); }); });
    u32 n = 1 + pick(ST_WORK, 4); std::vector<Task> t; bool stop = false; std::set<CR*> up;
    for (u32 i = 0; i < n; i++) {
        Client* k = nullptr; CR* r = nullptr;
        call(e.cn, "connect", 60 * SEC, [&] { k = L([] { return new Client(); }); setBlocks(k, false); L([&] { k->SetTheirNaIntervalLimit(500); if (ch) k->SetHandlerDefault(handler(0)); }); bool ok = connectTo(k, e.a, 10); r = crOf(k); if (ok) up.insert(r); });
        e.cl.push_back(k); r->hook = [=](CR* q, Request*, int) { if (hNap) nap(hNap); u32 m = 1 + pick(ST_WORK, 2); for (u32 j = 0; j < m; j++) X->clientStep(q); }; x.cs.push_back(r); vcRelease(r->vc);
    }
    sleepFor(pick(ST_WORK, 2) ? 10 * MS : 0);
    u32 na = 1 + pick(ST_WORK, 3);
    for (u32 i = 0; i < na; i++) t.push_back(start(e.sn, "srv-app", [&] { u32 m = 2 + pick(ST_WORK, 12); for (u32 j = 0; j < m; j++) { x.serverStep(nullptr, true); nap(10 * MS); } }));
    for (u32 i = 0; i < na; i++) t.push_back(start(e.cn, "cli-app", [&] { u32 m = 2 + pick(ST_WORK, 12); for (u32 j = 0; j < m; j++) { x.clientStep(nullptr); nap(10 * MS); } }));
    // owners that end and renew their connections
    if (pick(ST_WORK, 2)) t.push_back(start(e.cn, "owner", [&] { nap(20 * MS); CR* r = x.cs[pick(ST_WORK, (u32)x.cs.size())]; Connection* c = r->c; bool forced = limited || x.mayStop || pick(ST_WORK, 2), wait = pick(ST_WORK, 2);     /* a stopping server that waits for handles accepts nobody */ u64 d = timed([&] { Lib l; c->Disconnect(forced, wait); }); EXPECT("P11 P03 P04", "slow-disconnect", d <= (wait && !forced ? 20 * SEC : 2 * SEC), "a client's Disconnect took %.3f s", d / 1e9); }));
    // and threads that wait for the end of a client connection or for data, with a limit
    if (pick(ST_WORK, 2)) t.push_back(start(e.cn, "waiter", [&] { CR* r = x.cs[pick(ST_WORK, (u32)x.cs.size())]; Connection* c = r->c; if (pick(ST_WORK, 2)) { u64 d = timed([&] { Lib l; c->WaitForStop(2); }); EXPECT("P11", "late-return", d <= 2500 * MS, "WaitForStop(2) took %.3f s", d / 1e9); } else { u64 d = timed([&] { Request* q = pull(r, 1); if (q) freeReq(q); }); EXPECT("P11 P07", "late-return", d <= 1500 * MS, "Pull(1) took %.3f s", d / 1e9); } }));
    for (auto& k : t) finish(k, 120 * SEC);
    markNontrivial(); (void)stop;
    // the calls and handlers under way come to their end
    auto busy = [&] { for (auto& r : W->all) if (r->inHandler) return true; return W->inServerCallback > 0; };
    if (!waitFor([&] { return !busy(); }, 60 * SEC)) vio("P11", "handler-stuck", "a handler or callback does not finish");
    x.mayStop = false; x.budget = 0;
    call(e.sn, "release", 20 * SEC, [&] { while (x.pool.size()) { auto h = x.pool.back(); x.pool.pop_back(); L([&] { delete h; }); } });
    // what is there still works: everyone who is connected gets through
    call(e.sn, "stop", 120 * SEC, [&] {
        u64 d = timed([&] { Lib l; e.s->Stop(0); });  EXPECT("P11 P17", "slow-call", d <= 2 * SEC, "Stop(0) took %.3f s", d / 1e9);
        for (int i = 0; i < 5; i++) { waitFor([&] { return x.pool.size() > 0; }, 10 * MS); while (x.pool.size()) { auto h = x.pool.back(); x.pool.pop_back(); L([&] { delete h; }); } }
        d = timed([&] { Lib l; e.s->WaitForStop(negative()); }); EXPECT("P11 P17", "slow-stop", d <= 5 * SEC, "with all handles released the server needed %.3f s to stop", d / 1e9); });
    for (auto r : x.cs) { Connection* c = r->c; if (!up.count(r)) continue; call(e.cn, "sees-end", 60 * SEC, [&] { bool ok = L([&] { return c->WaitForStop(10); }); EXPECT("P11 P17", "no-end", ok, "a client does not see the end of the stopped server"); }); }
    for (auto& r : W->all) if (r->server) { CR* p = peerOf(r.get()); if (p) { checkDirection("client to server", p, r.get(), false, false); checkDirection("server to client", r.get(), p, false, false); } }
    end(e);
}
// ---------------------------------------------------------------- data races (P23)
void scRacemix() {
    Env e; begin(e, FAST | FAULTY, 4); bool sh = pick(ST_WORK, 2), ch = pick(ST_WORK, 2), big = pick(ST_WORK, 2); 
    W->onConnected = [=](Server*, CR* r) { u32 id = r->id_connected; L([&] { r->c->tag = "t" + std::to_string(id); r->c->SetMaxRequestSize(100000); if (sh) r->c->SetHandlerDefault(handler(1)); }); r->hook = [](CR* q, Request*, int) { if (pick(ST_WORK, 2)) push(q, genSpec(++W->uid, 0)); }; };
    startServer(e); u32 n = 1 + pick(ST_WORK, 2); std::vector<std::pair<CR*, CR*>> cs; std::vector<Task> t; bool over = false;
    for (u32 i = 0; i < n; i++) { CR* c = addClient(e, [&](Client* k) { L([&] { k->SetMaxRequestSize(100000); if (ch) k->SetHandlerDefault(handler(0)); }); }); cs.push_back({c, accepted(c)}); }
    auto anyCall = [&, big](CR* r, Connection* c) {
        switch (pick(ST_WORK, 26)) {
            case 0: case 1: case 2: push(r, genSpec(++W->uid, big ? (int)pick(ST_WORK, 3) : 0)); break;
            case 3: case 4: { Request* q = pull(r, 0); if (q) freeReq(q); break; }
            case 5: { Request* q = pull(r, 1); if (q) freeReq(q); break; }
            case 6: L([&] { c->IsConnected(); }); break;
            case 7: L([&] { c->IsDisconnecting(); }); break;
            case 8: L([&] { c->GetType(); }); break;
            case 9: L([&] { c->SetOurSaInterval(3 + pick(ST_WORK, 20)); }); break;
            case 10: L([&] { c->GetOurSaInterval(); c->GetTheirNaIntervalLimit(); }); break;
            case 11: L([&] { c->SetTheirNaIntervalLimit(60 + pick(ST_WORK, 20)); }); break;
            case 12: L([&] { c->SetHandlerNamed(pick(ST_WORK, 2) ? "a" : "b", pick(ST_WORK, 3) ? handler(3) : nullptr); }); break;
            case 13: L([&] { c->GetHandlerNamed("a"); c->GetHandlerNamed("c"); }); break;
            case 14: L([&] { c->SetHandlerDefault(pick(ST_WORK, 2) ? handler(1) : nullptr); }); break;
            case 15: L([&] { c->GetHandlerDefault(); }); break;
            case 16: L([&] { c->SetSendBlockSize(100 + pick(ST_WORK, 2000)); }); break;
            case 17: L([&] { c->SetRecvBlockSize(100 + pick(ST_WORK, 2000)); }); break;
            case 18: L([&] { c->GetSendBlockSize(); c->GetRecvBlockSize(); c->GetMaxRequestSize(); }); break;
            case 19: L([&] { c->SetMaxRequestSize(100000 + pick(ST_WORK, 1000)); }); break;
            case 20: if (r->server) L([&] { D::SafeConnection* h = new D::SafeConnection(c); App a; nap(1 * MS); L([&] { delete h; }); }); break;
            case 21: L([&] { c->GetRefs(); }); break;
            case 22: if (pick(ST_WORK, 6) == 0) L([&] { c->Disconnect(pick(ST_WORK, 2), false); }); break;
            case 23: if (!r->server) L([&] { c->WaitForStop(pick(ST_WORK, 2)); }); break;
            case 24: L([&] { pollfd p; p.fd = c->GetStoppedEvent(); (void)p; }); break;
            default: push(r, genSpec(++W->uid, 0));
        }
    };
    for (u32 i = 0; i < n; i++) {
        CR *c = cs[i].first, *s = cs[i].second; u32 kt = 1 + pick(ST_WORK, 2);
        for (u32 j = 0; j < kt; j++) t.push_back(start(e.cn, "cli", [=] { u32 m = 4 + pick(ST_WORK, 20); for (u32 k = 0; k < m; k++) { anyCall(c, c->c); if (pick(ST_WORK, 4) == 0) nap(2 * MS); } }));
        for (u32 j = 0; j < kt; j++) t.push_back(start(e.sn, "srv", [=] { D::SafeConnection* h = handleOf(s); if (!h) return; u32 m = 4 + pick(ST_WORK, 20); for (u32 k = 0; k < m; k++) { anyCall(s, s->c); if (pick(ST_WORK, 4) == 0) nap(2 * MS); } L([&] { delete h; }); }));
    }
    // the server object itself
    Server* s = e.s; bool tcp = e.a.tcp;
    auto serverCall = [&, s] {
        switch (pick(ST_WORK, 9)) {
            case 0: case 1: { D::SafeConnection* h = L([&] { return s->GetConnection((u32)(1 + pick(ST_WORK, 3))); }); nap(1 * MS); if (h) L([&] { delete h; }); break; }
            case 2: { D::SafeConnection* h = L([&] { return s->GetConnection("t" + std::to_string(1 + pick(ST_WORK, 3))); }); if (h) L([&] { delete h; }); break; }
            case 3: L([&] { s->GetType(); if (tcp) { s->GetTcpPort(); s->GetTcpIp(); s->GetTcpIpString(); } else s->GetUnixPath(); }); break;
            case 4: L([&] { s->GetMaxConnections(); }); break;
            case 5: L([&] { s->SetMaxConnections(negative()); }); break;
            case 6: L([&] { apiSetConnected(s, srvConnected); apiSetDisconnected(s, srvDisconnected); }); break;
            case 7: L([&] { apiHasHandlers(s); }); break;
            default: L([&] { s->WaitForStop(0); });
        }
    };
    u32 st = pick(ST_WORK, 4);
    for (u32 j = 0; j < st; j++) t.push_back(start(e.sn, "srv-obj", [&] { u32 m = 2 + pick(ST_WORK, 10); for (u32 k = 0; k < m; k++) { serverCall(); if (pick(ST_WORK, 3) == 0) nap(5 * MS); } }));
    // clients that come and go, and one client object that is watched from another thread while it connects
    if (pick(ST_WORK, 2)) {
        auto k = std::make_shared<Client*>(nullptr); auto fin = std::make_shared<bool>(false); call(e.cn, "new", 5 * SEC, [&] { *k = L([] { return new Client(); }); }); e.cl.push_back(*k); Addr a = e.a;
        t.push_back(start(e.cn, "connector", [=] { u32 m = 1 + pick(ST_WORK, 3); for (u32 j = 0; j < m; j++) { bool ok = connectTo(*k, a, 2); if (ok) { CR* r = crOf(*k); push(r, genSpec(++W->uid, 0)); nap(5 * MS); L([&] { (*k)->Disconnect(true, true); }); } } *fin = true; }));
        t.push_back(start(e.cn, "watcher", [=] { for (int j = 0; j < 40 && !*fin; j++) { L([&] { (*k)->IsConnected(); (*k)->IsConnecting(); (*k)->GetType(); (*k)->IsDisconnecting(); (*k)->SetHandlerDefault(pick(ST_WORK, 2) ? handler(0) : nullptr); }); if (pick(ST_WORK, 3) == 0) { Request* q = L([&] { return (*k)->Pull(0); }); if (q) freeReq(q); } if (pick(ST_WORK, 6) == 0) L([&] { (*k)->Disconnect(true, false); }); nap(3 * MS); } }));
    }
    bool doStop = pick(ST_WORK, 3) == 2;
    if (doStop) t.push_back(start(e.sn, "stopper", [&] { nap(20 * MS); L([&] { s->Stop(pick(ST_WORK, 2) ? 0 : 1); s->WaitForStop(2); }); }));
    for (auto& x : t) finish(x, 200 * SEC);
    over = true; (void)over; markNontrivial();
    for (auto& p : cs) { bool d = true; (void)d; checkDirection("client to server", p.first, p.second, false, false); checkDirection("server to client", p.second, p.first, false, false); }
    end(e);
}
// ---------------------------------------------------------------- pushes that wait for a response (P24)
void scRpc() {
    Env e; begin(e, FAST | FAULTY, 0); cfg.stall_budget = 300 * MS; bool fromServer = pick(ST_WORK, 3) == 2, inCallback = fromServer && pick(ST_WORK, 2), worker = pick(ST_WORK, 2), named = pick(ST_WORK, 3) == 2; u32 consume = pick(ST_WORK, 3);   // requester: pulls, handler, nobody until the end
    enum { ANSWER, LATE, NEVER, TWICE, END }; enum { NONE, PEER, FORCED, GRACEFUL }; u32 ending = pick(ST_WORK, 2) ? NONE : 1 + pick(ST_WORK, 3);
    struct Pend { u64 uid; u32 plan; u64 delay; int timeout; bool keep; u32 own; u64 t0 = 0, t_ret = 0; bool back = false; u64 got = 0; u32 id = 0; bool ended = false; };
    std::map<u64, Pend> pend; std::map<u64, u64> ansOf; std::map<u64, std::string> ansCanon; std::map<u64, u64> ansAt; std::set<u64> seen; u64 t_end = 0, st_end = 0; bool over = false; u32 waiting = 0;
    struct Job { u64 due; u64 uid; u32 id; u32 plan; }; std::vector<Job> jobs;
    auto ended = [&] { if (!t_end) { t_end = now_ns; st_end = stalledTotal(); } };
    auto answerNow = [&](CR* q, Job j) {
        if (pick(ST_WORK, 3) == 0) push(q, genSpec(++W->uid, 1));          // something unrelated in between
        if (j.plan == END) { ended(); L([&] { q->c->Disconnect(pick(ST_WORK, 2), false); }); return; }
        for (u32 k = 0; k < (j.plan == TWICE ? 2u : 1u); k++) { Spec s = named && pick(ST_WORK, 3) ? genSpec(++W->uid, (int)pick(ST_WORK, 3), "answer") : genSpec(++W->uid, (int)pick(ST_WORK, 3)); ansOf[s.uid] = j.uid; ansCanon[s.uid] = canon(s); push(q, s, -1, (i64)j.id); if (!ansAt.count(j.uid)) ansAt[j.uid] = now_ns; }
    };
    auto answer = [&](CR* q, Request* r, int) {
        u64 u = uidOf(r); auto i = pend.find(u); if (i == pend.end()) return; u32 id = L([&] { return r->GetId(); }); i->second.id = id;
        if (i->second.plan == NEVER) return; Job j{now_ns + i->second.delay, u, id, i->second.plan};
        if (worker) jobs.push_back(j); else { if (i->second.delay) sleepFor(i->second.delay); answerNow(q, j); }
    };
    // one call; the requester's side
    auto ask = [&](CR* from, u32 n) {
        static const int T[] = {1, 2, 3, 5, -1}; Pend q; q.timeout = T[pick(ST_WORK, 5)]; u32 k = pick(ST_WORK, 8); q.plan = k < 4 ? ANSWER : k == 4 ? LATE : k == 5 ? NEVER : k == 6 ? TWICE : ending == PEER ? END : ANSWER;
        if (q.timeout < 0 && q.plan == NEVER && ending < FORCED) q.timeout = 2;
        q.delay = q.plan == LATE ? (u64)(1 + pick(ST_WORK, 3)) * SEC + (u64)pick(ST_WORK, 3) * 5 * MS : pick(ST_WORK, 2) ? (u64)pick(ST_WORK, 300) * MS : 0;
        Spec sp = genSpec(++W->uid, (int)pick(ST_WORK, 3)); q.uid = sp.uid; q.own = 0x40000001u + n; q.keep = pick(ST_WORK, 3) == 0; pend[sp.uid] = q; Pend& P = pend[sp.uid];
        PushRec p; p.uid = sp.uid; p.canon = canon(sp); p.call = seqno(); p.fiber = cur->id; p.session_lo = p.session_hi = from->session; p.keepid = q.keep; p.id = q.keep ? q.own : 0; p.t_call = now_ns;
        Request* req = L([&] { Request* x = build(sp); x->SetId(q.own); return x; }); Request* r = nullptr; u32 mode = pick(ST_WORK, 3); int to_ = q.timeout < 0 ? negative() : q.timeout;
        size_t at = from->pushed.size(); p.ret = NEVER; from->pushed.push_back(p); P.t0 = now_ns; u64 s0 = stalledTotal(); waiting++;
        u64 d = timed([&] { Lib l; r = mode == 0 ? from->c->Push(req, true, to_, !q.keep) : mode == 1 ? from->c->Push(req, false, to_, !q.keep) : from->c->Push(*req, to_, !q.keep); });
        waiting--; P.t_ret = now_ns; P.back = true; from->pushed[at].ret = seqno(); if (mode != 1) freeReq(req); P.ended = t_end != 0;
        EXPECT("P24", "late-return", q.timeout < 0 || d <= (u64)q.timeout * SEC + 300 * MS, "Push with a timeout of %d s took %.3f s", q.timeout, d / 1e9);
        if (r) {
            u64 u = uidOf(r); u32 id = L([&] { return r->GetId(); }); P.got = u; auto i = ansOf.find(u);
            if (i == ansOf.end()) vio("P24", "wrong-response", "Push returned a request that answers nothing (id %u)", id);
            else {
                EXPECT("P24", "wrong-response", i->second == sp.uid, "Push returned the response to another request"); EXPECT("P24", "response-twice", seen.insert(u).second, "a response was returned to two callers");
                EXPECT("P24 P01", "response-altered", canonOf(r) == ansCanon[u], "the response returned is not the one that was pushed"); if (q.keep) EXPECT("P24 P10", "wrong-response", id == q.own, "Push returned a request with id %u instead of %u", id, q.own);
                EXPECT("P24 P10", "wrong-response", id == P.id, "the response has the id %u, the request had %u", id, P.id);
            }
            freeReq(r); stat("work.rpc_answered");
        } else if (!t_end) {
            if (q.timeout < 0) vio("P24", "early-return", "Push with a negative timeout returned null on a living connection");
            else if (now_ns - P.t0 + 2 * MS < (u64)q.timeout * SEC) vio("P24", "early-return", "Push with a timeout of %d s returned null after %.3f s", q.timeout, (now_ns - P.t0) / 1e9);
            else if (worker && ansAt.count(q.uid) && ansAt[q.uid] + 500 * MS + (stalledTotal() - s0) < P.t0 + (u64)q.timeout * SEC) vio("P24", "response-missed", "the response arrived in time and was not returned");
            stat("work.rpc_timeout");
        } else stat("work.rpc_ended");
        if (t_end && P.t0 < t_end && since(t_end, st_end) > 3 * SEC && P.t_ret > t_end + 3 * SEC && P.t_ret - t_end > 3 * SEC + stalledTotal() - st_end && !(ansAt.count(q.uid) && ansAt[q.uid] > t_end) && (worker || ending == FORCED) && ending != GRACEFUL && (q.timeout < 0 || P.t0 + (u64)q.timeout * SEC > t_end + 3 * SEC)) vio("P24", "not-woken", "Push still waited %.3f s after the end of the connection", (P.t_ret - t_end) / 1e9);
    };
    auto fromHook = [&](CR* q, Request*, int) { if (pick(ST_WORK, 4)) return; u64 n = ++W->uid; Spec sp = genSpec(n, 1); static const int T[] = {1, 3, -1}; int to_ = T[pick(ST_WORK, 3)];     // a handler cannot wait for what its own thread receives
        PushRec p; p.uid = n; p.canon = canon(sp); p.call = seqno(); p.fiber = cur->id; p.session_lo = p.session_hi = q->session; p.keepid = false; p.id = 0; p.t_call = now_ns; size_t at = q->pushed.size(); p.ret = NEVER; q->pushed.push_back(p);
        Request* req = L([&] { return build(sp); }); Request* r = nullptr; u64 d = timed([&] { Lib l; r = q->c->Push(req, false, to_, true); }); q->pushed[at].ret = seqno(); if (r) freeReq(r);
        EXPECT("P24 P11", "handler-waits", d <= (u64)std::max(to_, 1) * SEC + 300 * MS, "Push in a handler took %.3f s", d / 1e9); stat("work.rpc_in_handler"); };
    u32 asked = 0;
    W->onConnected = [&](Server*, CR* r) {
        L([&] { r->c->SetTheirNaIntervalLimit(1000); });
        if (!fromServer) { L([&] { r->c->SetHandlerDefault(handler(1)); }); r->hook = answer; return; }
        if (consume == 1) { L([&] { r->c->SetHandlerDefault(handler(2)); }); r->hook = fromHook; } if (named) L([&] { r->c->SetHandlerNamed("answer", handler(4)); });       // a handler for late ones
        if (inCallback && ending == NONE) { ask(r, 900000 + asked++); stat("work.rpc_in_callback"); }
    };
    W->clientHook = fromServer ? std::function<void(CR*, Request*, int)>(answer) : consume == 1 ? std::function<void(CR*, Request*, int)>(fromHook) : nullptr;
    startServer(e); Node* tn = fromServer ? e.cn : e.sn;
    Task wk = start(tn, "worker", [&] { while (!over || !jobs.empty()) {
        size_t b = jobs.size(); for (size_t i = 0; i < jobs.size(); i++) if (jobs[i].due <= now_ns && (b == jobs.size() || jobs[i].due < jobs[b].due)) b = i;
        if (b == jobs.size()) { if (over) break; sleepFor(2 * MS); continue; }
        Job j = jobs[b]; jobs.erase(jobs.begin() + (long)b); CR* q = nullptr; for (auto& x : W->all) if (x->node == tn && x->server == !fromServer) for (auto& g : x->got) if (g.uid == j.uid) q = x.get(); if (!q) continue;
        D::SafeConnection* h = nullptr; if (q->server) { h = handleOf(q); if (!h) continue; } answerNow(q, j); if (h) L([&] { delete h; });
    } });
    CR* c = addClient(e, [&](Client* k) { L([&] { k->SetTheirNaIntervalLimit(1000); if (fromServer) k->SetHandlerDefault(handler(0)); else { if (consume == 1) k->SetHandlerDefault(handler(2)); if (named) k->SetHandlerNamed("answer", handler(4)); } }); });
    u32 sessions = ending != NONE && !fromServer && pick(ST_WORK, 2) ? 2 : 1;
    for (u32 ses = 0; ses < sessions; ses++) {
        if (ses) { L([] {}); c = reconnect(e, e.cl[0]); t_end = 0; ending = NONE; jobs.clear(); stat("work.rpc_again"); }
        CR* s = accepted(c); CR *from = fromServer ? s : c, *to = fromServer ? c : s; u32 threads = 1 + pick(ST_WORK, 3); std::vector<Task> t; bool stop = false, enough = false;
        for (u32 i = 0; i < threads; i++) t.push_back(start(from->node, "rpc", [&, i] { D::SafeConnection* h = nullptr; if (from->server) { h = handleOf(from); if (!h) return; } u32 m = 1 + pick(ST_WORK, 3); for (u32 k = 0; k < m; k++) { if (pick(ST_WORK, 3) == 2) nap(200 * MS); ask(from, ses * 100000 + i * 1000 + k); } if (h) L([&] { delete h; }); }));
        Task pl{}, by{}, en{}; if (consume == 0) pl = puller(from, &stop, pick(ST_WORK, 2) ? -1 : 1);
        bool bystander = pick(ST_WORK, 2); if (bystander) by = start(from->node, "bystander", [&] { D::SafeConnection* h = nullptr; if (from->server) { h = handleOf(from); if (!h) return; }
            u32 n = 3 + pick(ST_WORK, 8); while (n-- && !enough) { nap(300 * MS); bool w = waiting; u32 k = pick(ST_WORK, 4); u64 d = timed([&] { if (k == 0) push(from, genSpec(++W->uid, 1)); else { Lib l; if (k == 1) from->c->GetRefs(); else if (k == 2) from->c->IsConnected(); else from->c->SetOurSaInterval(10); } }); if (w) stat("work.rpc_bystander"); EXPECT("P21 P24 P11", "waiter-blocks-others", d <= delayOf(0), "a call took %.3f s while another thread waited for a response", d / 1e9); }
            if (h) L([&] { delete h; }); });
        if (ending == FORCED || ending == GRACEFUL) en = start(from->node, "ender", [&] { sleepFor((u64)pick(ST_WORK, 2500) * MS); D::SafeConnection* h = nullptr; if (from->server) { h = handleOf(from); if (!h) return; } ended(); L([&] { from->c->Disconnect(ending == FORCED, false); }); if (h) L([&] { delete h; }); });
        for (auto& x : t) finish(x, 100 * SEC);
        enough = true; if (bystander) finish(by, 20 * SEC); if (en.f) finish(en, 20 * SEC);
        markNontrivial();
        for (auto& i : pend) { Pend& P = i.second; if (t_end && P.t0 < t_end && (worker || ending == FORCED) && P.t_ret > t_end + 3 * SEC + (stalledTotal() - st_end)) vio("P24 P11", "not-woken", "Push still waited %.3f s after the end of the connection", (P.t_ret - t_end) / 1e9); }
        if (!t_end) {
            // whatever was not returned by Push is delivered as usual, and every request was sent once, with its id
            settle([&] { return t_end || (to->got.size() >= from->pushed.size() && jobs.empty()); }, 60 * SEC);
        }
        if (!t_end) {
            EXPECT("P24 P01", "not-sent", to->got.size() >= from->pushed.size(), "a request pushed with a timeout was not sent"); checkDirection("rpc requests", from, to, true); checkIds(from, to);
            if (consume == 2) pl = puller(from, &stop, 0);
            auto all = [&] { size_t n = from->got.size(); for (auto& p : to->pushed) n += seen.count(p.uid); return n >= to->pushed.size(); };
            settle([&] { return all() && to->got.size() >= from->pushed.size(); }, 60 * SEC); EXPECT("P24 P01", "response-lost", all(), "a response was neither returned nor delivered");
        }
        stop = true; if (pl.f) finish(pl, 60 * SEC);
        CR rest; rest.link = to->link; rest.session = to->session; for (auto& p : to->pushed) if (!seen.count(p.uid)) rest.pushed.push_back(p);
        for (auto& g : from->got) {
            EXPECT("P24", "response-twice", !seen.count(g.uid), "a response was returned by Push and delivered as well");
            auto i = ansOf.find(g.uid); if (i == ansOf.end() || t_end) continue; Pend& P = pend[i->second];
            if (!P.got && (P.timeout < 0 || g.t < P.t0 + (u64)P.timeout * SEC)) vio("P24", "response-stolen", "a response was delivered as an ordinary request while the caller was waiting for it");
        }
        if (!t_end) checkDirection("rpc responses", &rest, from, true, false);
        if (!t_end) break; if (ses + 1 < sessions) { Connection* k = from->c; call(from->node, "wait-end", 60 * SEC, [&] { L([&] { k->WaitForStop(negative()); }); }); }
    }
    over = true; finish(wk, 60 * SEC);
    end(e);
}
