// Scenarios about the server: dispatch, callbacks, limit, restart, handles, signals.
#include "harness.hpp"
#include "kernel.hpp"
#include <algorithm>
using namespace H;
typedef std::function<void()> Fn;

// ---------------------------------------------------------------- dispatch (P09)
namespace {
static u32 nameSet;
// names that some comparison might take for each other
static const std::string NAMES[4][4] = {{"a", "b", "c", "dd"}, {"a", "A", "ab", "a "}, {"", std::string("x\0y", 3), "x", std::string("x\0", 2)}, {std::string(300, 'n'), std::string(300, 'n') + "m", std::string(255, 'n'), "n"}};
static const std::string& nm(u32 i) { return NAMES[nameSet][i]; }
struct Table { int def = -1; std::map<std::string, int> named;
    int look(const std::string& n) const { auto i = named.find(n); return i != named.end() ? i->second : def; } };
struct Mod { bool def; std::string name; int k; };
Mod genMod(bool keepDefault) { Mod m; m.def = pick(ST_WORK, 3) == 2; m.name = nm(pick(ST_WORK, 4)); m.k = (int)pick(ST_WORK, 9) - 1; if (m.def && keepDefault && m.k < 0) m.k = 0; return m; }
void apply(Table& t, const Mod& m) { if (m.def) t.def = m.k; else if (m.k < 0) t.named.erase(m.name); else t.named[m.name] = m.k; }
void apply(Connection* c, const Mod& m) {
    D::RequestHandler h = m.k < 0 ? nullptr : handler(m.k), now;
    { Lib x; std::string n = m.name; if (m.def) { c->SetHandlerDefault(h); now = c->GetHandlerDefault(); } else { c->SetHandlerNamed(n, h); now = c->GetHandlerNamed(n); } }
    EXPECT("P09", "not-registered", now == h, "after registering a handler for '%s', another one is reported", m.def ? "everything else" : m.name.c_str());
}
struct Disp { Table init, now; std::map<u64, std::vector<Mod>> mods; bool keepDefault = false, setup = false; };
}
void scDispatch() {
    Env e; begin(e, FAST | FAULTY | (pick(ST_CFG, 3) == 2 ? SMALLBUF : 0));
    nameSet = pick(ST_WORK, 6); if (nameSet > 3) nameSet = 0;
    std::map<CR*, std::shared_ptr<Disp>> ds; bool hasty = pick(ST_WORK, 3) == 0;    // the client leaves right after its requests
    bool slowCb = pick(ST_WORK, 2), greedy = pick(ST_WORK, 2); u32 changes = pick(ST_WORK, 3); bool cut = !hasty && pick(ST_WORK, 4) == 3;     // handlers end their connection by force: what is left may be dropped or pulled, not misdirected
    auto hookFor = [changes, hasty, cut](std::shared_ptr<Disp> d) { return [d, changes, hasty, cut](CR* r, Request* q, int) {
        if (pick(ST_WORK, 4) == 3) nap(3 * MS);
        u32 n = changes ? pick(ST_WORK, changes + 1) : 0; u64 uid = uidOf(q);
        for (u32 i = 0; i < n; i++) { Mod m = genMod(d->keepDefault); d->mods[uid].push_back(m); apply(r->c, m); }
        if (!hasty && pick(ST_WORK, 6) == 5) { Spec s = genSpec(++W->uid, 0, "reply"); push(r, s); }
        if (cut && r->server && pick(ST_WORK, 5) == 4) { nap(30 * MS); L([&] { r->c->Disconnect(true, false); }); stat("work.dispatch_cut"); }
    }; };
    W->onConnected = [&](Server*, CR* r) {
        auto d = std::make_shared<Disp>(); d->keepDefault = hasty; ds[r] = d; r->hook = hookFor(d);
        if (slowCb) nap(20 * MS);
        u32 n = pick(ST_WORK, 5); if (hasty || greedy) { Mod m{true, "", (int)pick(ST_WORK, 8)}; apply(d->init, m); apply(r->c, m); }
        for (u32 i = 0; i < n; i++) { Mod m = genMod(hasty); if (slowCb && pick(ST_WORK, 3) == 2) nap(5 * MS); apply(d->init, m); apply(r->c, m); }
        if (slowCb) nap(pick(ST_WORK, 6) == 5 ? 3 * SEC : 20 * MS); d->setup = true;
    };
    startServer(e); Node* rn = addNode("raw");
    u32 nc = 1 + pick(ST_WORK, 3); bool stop = false; std::vector<Task> t, pl; std::vector<std::pair<CR*, CR*>> cs; std::vector<CR*> hs;
    for (u32 i = 0; i < nc; i++) {
        bool raw = pick(ST_WORK, 3) == 2; u32 n = 1 + pick(ST_WORK, 8); u64 gap = pick(ST_WORK, 3) == 2 ? 10 * MS : 0;
        Addr a = e.a;
        if (raw) {
            CR* rec = newCR(nullptr, rn, false); W->cur.erase(nullptr);
            t.push_back(start(rn, "raw-client", [=, &stop] {
                int fd = rconnect(a); if (fd < 0) violate("connect-failed", "a raw client could not connect");
                rec->link = linkOfFd(fd)->id; std::string b;
                for (u32 k = 0; k < n; k++) { Spec s = genSpec(++W->uid, 1, nm(pick(ST_WORK, 4))); PushRec p; p.uid = s.uid; p.canon = canon(s); p.fiber = cur->id; p.keepid = true; p.id = 2 * k + 1; p.session_lo = p.session_hi = rec->session; p.call = seqno(); b = encode(s, p.id); p.ret = seqno(); rec->pushed.push_back(p); if (!rsend(fd, b)) break; if (gap) nap(gap); }
                if (hasty) { if (pick(ST_WORK, 2)) { k_shutdown(fd, SHUT_WR); char x[256]; while (k_recv(fd, x, sizeof x, 0) > 0) { } } k_close(fd); }
                else { while (!stop) sleepFor(50 * MS); k_close(fd); }
            }));
            cs.push_back({rec, nullptr});
        } else {
            auto d = std::make_shared<Disp>(); 
            size_t at = cs.size(); cs.push_back({nullptr, nullptr}); u32 m = pick(ST_WORK, 4);
            t.push_back(start(e.cn, "client", [=, &cs, &e, &ds] {
                Client* k = L([] { return new Client(); }); e.cl.push_back(k);
                for (u32 x = 0; x < m; x++) { Mod q = genMod(false); apply(d->init, q); apply(k, q); }
                { CR* pre = newCR(k, cur->node, false); pre->hook = hookFor(d); }
                if (!connectTo(k, a, 10)) violate("connect-failed", "a client could not connect to a running server");
                CR* r = crOf(k); cs[at].first = r; ds[r] = d;
                for (u32 x = 0; x < n; x++) { if (gap) nap(gap); push(r, genSpec(++W->uid, 1, nm(pick(ST_WORK, 4)))); }
                if (hasty) { Lib y; k->Disconnect(false, true); }
            }));
        }
    }
    // the last raw task waits for `stop`
    auto settled = [&] { for (auto& p : cs) { if (!p.first || !p.first->link || (p.first->pushed.empty())) return false; if (!peerOf(p.first) || !peerOf(p.first)->connectedDone) return false; } return true; };
    if (!waitFor(settled, 60 * SEC)) violate("not-accepted", "a client was not accepted: %s", describeFibers().c_str());
    if (!hasty) {
        for (auto& p : cs) { p.second = peerOf(p.first); vcAcquire(p.second->vc); pl.push_back(puller(p.second, &stop, (int)pick(ST_WORK, 2))); if (p.first->c) pl.push_back(puller(p.first, &stop, (int)pick(ST_WORK, 2))); u32 k = pick(ST_WORK, 4); if (p.first->c && k) { CR* s = p.second; t.push_back(start(e.sn, "srv-push", [=] { D::SafeConnection* h = handleOf(s); if (!h) return; for (u32 i = 0; i < k; i++) push(s, genSpec(++W->uid, 1, nm(pick(ST_WORK, 4)))); L([&] { delete h; }); })); } }
        for (auto& x : t) if (x.what != "raw-client") finish(x, 60 * SEC);
        settle([&] { for (auto& p : cs) { if (p.second->got.size() < p.first->pushed.size()) return false; if (p.first->c && p.first->got.size() < p.second->pushed.size()) return false; } return true; }, cut ? 2 * SEC : 60 * SEC);
    } else {
        for (auto& p : cs) p.second = peerOf(p.first);
        if (!waitFor([&] { for (auto& p : cs) if (!p.second->disconnectedCalls) return false; return true; }, 90 * SEC)) vio("P09 P15", "end-not-noticed", "the server did not notice the end of a client");
    }
    stop = true; for (auto& x : t) finish(x, 90 * SEC); for (auto& x : pl) finish(x, 60 * SEC);
    markNontrivial();
    for (auto& p : cs) for (int dir = 0; dir < 2; dir++) {
        CR *f = dir ? p.second : p.first, *to = dir ? p.first : p.second; if (!to->c) continue; if (dir && hasty) continue;
        // the server's own pushes come from several threads: only the client side has a fixed order
        auto d = ds[to]; std::map<u64, const DelRec*> got; std::map<u64, u32> cnt; for (auto& g : to->got) { got[g.uid] = &g; if (++cnt[g.uid] > 1) vio("P09 P01", "dispatched-twice", "request %llu was dispatched %u times", (unsigned long long)g.uid, cnt[g.uid]); }
        // order of handling
        std::map<u64, size_t> pos; for (size_t i = 0; i < f->pushed.size(); i++) pos[f->pushed[i].uid] = i;
        const DelRec* prev = nullptr; bool single = true; for (auto& q : f->pushed) if (q.fiber != f->pushed[0].fiber) single = false;
        if (!single) continue;
        for (auto& g : to->got) { if (!pos.count(g.uid)) { vio("P09 P01", "not-pushed", "a request that was never sent was dispatched: %.60s", g.canon.c_str()); return; } if (g.how < 0) continue; if (prev && pos[g.uid] < pos[prev->uid]) vio("P09", "handled-out-of-order", "request %llu was handled after %llu", (unsigned long long)g.uid, (unsigned long long)prev->uid); prev = &g; }
        prev = nullptr; for (auto& g : to->got) { if (g.how >= 0) continue; if (prev && pos[g.uid] < pos[prev->uid]) vio("P09 P08", "queued-out-of-order", "request %llu was pulled after %llu", (unsigned long long)g.uid, (unsigned long long)prev->uid); prev = &g; }
        Table tb = d->init;
        for (auto& q : f->pushed) {
            std::string name; { size_t c = q.canon.find(':'); name = q.canon.substr(c + 1, (size_t)atoi(q.canon.c_str())); }
            int want = tb.look(name); auto g = got.find(q.uid);
            if (cut && (g == got.end() || (want >= 0 && g->second->how < 0))) break;       // received before a forced end and never handled: lost or pulled
            if (g == got.end()) { vio("P09 P01", "not-dispatched", "request %llu ('%s', meant for %d) from session %llu was never dispatched", (unsigned long long)q.uid, name.c_str(), want, (unsigned long long)f->session); break; }
            if (g->second->how != want) { vio("P09", "wrong-handler", "request %llu named '%s' went to %d instead of %d (-1: the queue)", (unsigned long long)q.uid, name.c_str(), g->second->how, want); break; }
            EXPECT("P09 P01", "altered", g->second->canon == q.canon, "request %llu was dispatched altered", (unsigned long long)q.uid);
            auto m = d->mods.find(q.uid); if (m != d->mods.end()) for (auto& x : m->second) apply(tb, x);
        }
    }
    end(e);
}
// registration changed by another thread: one of the two states, exactly once each
void scToggle() {
    Env e; begin(e, FAULTY); startServer(e);
    CR* c = addClient(e, [&](Client* k) { L([&] { k->SetHandlerDefault(handler(0)); k->SetHandlerNamed("a", handler(1)); }); }); CR* s = accepted(c); bool stop = false;
    Connection* k = c->c; bool withNull = pick(ST_WORK, 2); u32 mode = pick(ST_WORK, 3);
    std::vector<Task> t; u32 nt = 1 + pick(ST_WORK, 2);
    for (u32 i = 0; i < nt; i++) t.push_back(start(e.cn, "toggle", [&, i] { u32 n = 5 + pick(ST_WORK, 30); for (u32 j = 0; j < n; j++) { L([&] { if (mode != 1) k->SetHandlerNamed("a", j % 2 ? handler(1) : withNull ? nullptr : handler(2)); if (mode) { k->SetHandlerDefault(j % 2 ? handler(0) : handler(3)); k->GetHandlerNamed("a"); k->GetHandlerDefault(); } }); nap(1 * MS); } }));
    Task p = start(e.sn, "push", [&] { D::SafeConnection* h = handleOf(s); if (!h) return; for (int i = 0; i < 12; i++) { push(s, genSpec(++W->uid, 0, pick(ST_WORK, 3) ? "a" : "other")); nap(1 * MS); } L([&] { delete h; }); });
    Task pl = puller(c, &stop, 0);
    finish(p, 60 * SEC); for (auto& x : t) finish(x, 60 * SEC);
    waitFor([&] { return c->got.size() >= s->pushed.size(); }, 30 * SEC); sleepFor(50 * MS); stop = true; finish(pl, 30 * SEC);
    markNontrivial();
    std::set<u64> seen; for (auto& g : c->got) {
        if (!seen.insert(g.uid).second) vio("P09 P01", "dispatched-twice", "request %llu was dispatched twice", (unsigned long long)g.uid);
        bool a = g.canon.compare(0, 4, "1:a(") == 0; bool ok = a ? g.how == 1 || (mode != 1 && (withNull ? g.how == 0 || g.how == 3 : g.how == 2)) : g.how == 0 || (mode && g.how == 3);
        EXPECT("P09", "wrong-handler", ok, "request %llu went to handler %d, which has never been registered for it", (unsigned long long)g.uid, g.how);
    }
    EXPECT("P09 P01", "not-dispatched", seen.size() == s->pushed.size(), "%zu of %zu requests were dispatched", seen.size(), s->pushed.size());
    end(e);
}
// ---------------------------------------------------------------- callbacks (P15)
static std::map<u64, CR*> recordsByLink() { std::map<u64, CR*> m; for (auto& r : W->all) if (r->server) m[r->link] = r.get(); return m; }
// callbacks look connections up, among them ones that are about to be disposed of
static void lookAround(Server* sv, u32 upTo) {
    for (u32 i = 1 + pick(ST_WORK, 3); i; i--) {
        u32 id = 1 + pick(ST_WORK, upTo + 1); bool byTag = pick(ST_WORK, 2); stat("work.callback_lookups");
        D::SafeConnection* h = byTag ? L([&] { return sv->GetConnection("tag" + std::to_string(id)); }) : L([&] { return sv->GetConnection(id); }); if (!h) continue;
        Connection* q = L([&] { return &(*h)(); }); EXPECT("P14 P15", "wrong-connection", q->id == id && L([&] { return q->tag == "tag" + std::to_string(id); }), "a lookup for connection %u in a callback returned another connection", id);
        if (pick(ST_WORK, 2)) { CR* r = crOf(q); if (r) push(r, genSpec(++W->uid, 1)); } L([&] { delete h; });
    }
}
void scLifecycle() {
    Env e; begin(e, FAST | FAULTY, 0);
    u32 unset = pick(ST_WORK, 6);        // 1: no connected callback, 2: no disconnected callback, 3: neither
    if (unset > 3) unset = 0; 
    u64 cbNap = pick(ST_WORK, 3) == 2 ? 300 * MS : 0; u64 hNap = pick(ST_WORK, 3) == 2 ? 500 * MS : 0; bool force = pick(ST_WORK, 4) == 3, lookup = pick(ST_WORK, 2), talk = pick(ST_WORK, 2); if (unset) force = false;
    W->onConnected = [&](Server* sv, CR* r) {
        L([&] { r->c->tag = "tag" + std::to_string(r->id_connected); r->c->SetTheirNaIntervalLimit(3); r->c->SetOurSaInterval(1); if (pick(ST_WORK, 3)) r->c->SetHandlerDefault(handler(0)); });
        if (hNap) r->hook = [hNap](CR*, Request*, int) { nap(hNap); };
        if (cbNap) nap(cbNap);
        if (talk) push(r, genSpec(++W->uid, 1));
        if (force && pick(ST_WORK, 2)) L([&] { r->c->Disconnect(pick(ST_WORK, 2), false); });
        (void)sv;
    };
    W->onDisconnected = [&](Server*, CR* r) { EXPECT("P15", "tag-changed", L([&] { return r->c->tag; }) == "tag" + std::to_string(r->id_connected), "the tag of a connection changed");
        if (cbNap) nap(cbNap); if (lookup) lookAround(e.s, 8); };
    W->haveConnected = !(unset & 1);
    call(e.sn, "server-start", 10 * SEC, [&] {
        e.s = L([] { return new Server(); });
        if (!(unset & 1)) { apiSetConnected(e.s, srvConnected); } if (!(unset & 2)) apiSetDisconnected(e.s, srvDisconnected);
        if (!serverStart(e.s, e.a)) violate("start-failed", "a server could not be started on a free address");
    });
    if (unset) {
        // it still has to work
        CR* c = addClient(e); Client* k = e.cl[0]; CR* r = nullptr; (void)r; bool ok = false; u64 uid = ++W->uid;
        if (unset & 1) {
            if (!waitFor([&] { for (auto l : links()) if (l->accepted_at) return true; return false; }, 5 * SEC)) violate("not-accepted", "a client was not accepted");
            bool found = false; call(e.sn, "lookup", 30 * SEC, [&] { for (int i = 0; i < 200 && !found; i++) { D::SafeConnection* h = L([&] { return e.s->GetConnection((u32)1); }); if (h) { found = true; Connection* q = L([&] { return &(*h)(); }); L([&] { q->Push(build(genSpec(uid, 1)), false, 0, true); }); Request* x = nullptr; for (int j = 0; j < 20 && !x; j++) { x = L([&] { return q->Pull(1); }); } if (x) { ok = true; freeReq(x); } L([&] { delete h; }); } else sleepFor(10 * MS); } });
        } else { CR* s = accepted(c); withConn(s, "talk", [&](Connection* q) { L([&] { q->Push(build(genSpec(uid, 1)), false, 0, true); }); }); ok = true; }
        (void)k;
        Task p = start(e.cn, "push", [&] { push(c, genSpec(++W->uid, 1)); }); finish(p, 20 * SEC);
        bool got = false; call(e.cn, "pull", 60 * SEC, [&] { for (int i = 0; i < 20 && !got; i++) { Request* x = L([&] { return k->Pull(1); }); if (x) { if (uidOf(x) == uid) got = true; freeReq(x); } if (!x && !L([&] { return k->IsConnected(); })) break; } });
        if (unset & 1) { waitFor([&] { return ok; }, 20 * SEC); }
        if (!force || (unset & 1)) EXPECT("P15", "not-served", got, "a server with callback setup %u did not serve its client", unset);
        call(e.cn, "bye", 20 * SEC, [&] { Lib x; k->Disconnect(pick(ST_WORK, 2), true); });
        if (!(unset & 2)) (void)0;
        bool gone = waitFor([&] { return openSocks(e.sn) == 0; }, 10 * SEC + cbNap);
        EXPECT("P15 P20", "not-disposed", gone, "a server with callback setup %u did not dispose of an ended connection", unset);
        CR* c2 = reconnect(e, k); (void)c2; markNontrivial();
        
        end(e); return;
    }
    // clients come and go
    u32 n = 1 + pick(ST_WORK, 5); std::vector<Task> t; std::map<u32, u64> endedAt; std::set<u32> expected; Node* rn = addNode("raw"); u32 crashed = 0; std::vector<Node*> extra;
    for (u32 i = 0; i < n; i++) {
        u32 kind = pick(ST_WORK, 6); Addr a = e.a; u32 rounds = 1 + pick(ST_WORK, 3);
        if (kind == 5) {      // a process that crashes
            Node* x = addNode("crash"); extra.push_back(x); crashed++;
            t.push_back(start(x, "victim", [=, &expected] { Client* k = L([] { return new Client(); }); bool ok = connectTo(k, a, 10); CR* r = crOf(k); if (r->link) expected.insert(r->link); if (!ok) { if (!force) violate("connect-failed", "a client could not connect"); return; } push(r, genSpec(++W->uid, 1)); sleepFor(100 * SEC); }));
            bool host = pick(ST_WORK, 2); at(now_ns + (1 + (u64)pick(ST_WORK, 2000)) * MS, [x, host] { killNode(x, host); });
        } else if (kind == 4) t.push_back(start(rn, "raw", [=, &expected] { for (u32 q = 0; q < rounds; q++) { int fd = rconnect(a); if (fd < 0) violate("connect-failed", "a raw client could not connect"); expected.insert(linkOfFd(fd)->id); if (pick(ST_WORK, 2)) rsend(fd, encode(genSpec(++W->uid, 1), 5)); nap(200 * MS); if (pick(ST_WORK, 2)) getSock(fd, "raw")->linger0 = true; k_close(fd); } }));
        else t.push_back(start(e.cn, "client", [=, &expected] {
            Client* k = L([] { return new Client(); });
            for (u32 q = 0; q < rounds; q++) {
                bool ok = connectTo(k, a, 10); CR* r = crOf(k);
                if (!ok && !force) violate("connect-failed", "a client could not connect to a running server");
                if (r->link) expected.insert(r->link); if (!ok) continue;
                u32 m = pick(ST_WORK, 4); for (u32 j = 0; j < m; j++) push(r, genSpec(++W->uid, 1));
                nap(300 * MS); { Lib y; k->Disconnect(kind & 1, true); }
            }
            L([&] { delete k; });
        }));
    }
    // another thread looks the connections up all the time
    bool stop = false; Task look = start(e.sn, "lookup", [&] { while (!stop) { u32 id = 1 + pick(ST_WORK, 6); D::SafeConnection* h = pick(ST_WORK, 2) ? L([&] { return e.s->GetConnection(id); }) : L([&] { return e.s->GetConnection("tag" + std::to_string(id)); });
        if (h) { Connection* q = L([&] { return &(*h)(); }); EXPECT("P14 P15", "wrong-connection", q->id == id, "a lookup for connection %u returned connection %u", id, q->id); nap(20 * MS); L([&] { delete h; }); } sleepFor(5 * MS + (u64)pick(ST_WORK, 100) * MS); } });
    for (auto& x : t) if (x.what != "victim") finish(x, 200 * SEC);
    stop = true; finish(look, 30 * SEC);
    for (auto x : extra) waitFor([x] { return !x->alive; }, 10 * SEC);
    // everything accepted has been announced; everything that ended is over
    u64 slack = 5 * SEC + (u64)(W->all.size() + 1) * 2 * cbNap + 8 * hNap + (crashed ? 5 * SEC : 0);
    bool fine = waitFor([&] { auto m = recordsByLink(); for (u32 l : expected) { Link* k = linkById(l); if (!k->accepted_at && k->tcp) continue; auto i = m.find(l); if (i == m.end() || !i->second->disconnectedCalls) return false; } return true; }, slack);
    markNontrivial();
    if (!fine) { auto m = recordsByLink(); for (u32 l : expected) { Link* k = linkById(l); if (!k->accepted_at && k->tcp) continue; auto i = m.find(l);
        if (i == m.end()) vio("P15", "no-connected-callback", "the connected callback never ran for link %u", l);
        else if (!i->second->disconnectedCalls) vio("P15", "no-disconnected-callback", "the disconnected callback did not run for connection id %u", i->second->id_connected); } }
    for (auto& r : W->all) if (r->server && r->firstHandler && r->firstHandler < r->connectedDone) vio("P15", "handler-before-connected", "a handler ran before the connected callback finished");
    EXPECT("P15 P16", "socket-left", !fine || waitFor([&] { return openSocks(e.sn) == 0; }, slack), "the server still holds %llu sockets of ended connections", (unsigned long long)openSocks(e.sn));
    for (auto& r : W->all) if (r->server) { CR* p = peerOf(r.get()); if (p) { checkDirection("client to server", p, r.get(), false); checkDirection("server to client", r.get(), p, false); } }
    end(e);
}
// ---------------------------------------------------------------- large numbers
// more connections, connection ids and request ids than fit into small integers or arrays
void scMany() {
    Env e; begin(e, FAST | CALM, 0); cfg.p_seg = 0; cfg.p_switch = std::min(cfg.p_switch, 0.1); cfg.p_mem = std::min(cfg.p_mem, 0.0005); cfg.max_steps = 20000000; Node* rn = addNode("raw"); Addr a = e.a; u32 mode = pick(ST_WORK, 12); if (!prop.empty() && forProp("P10")) mode = mode >= 6 ? 11 : 9; e.sn->max_fds = rn->max_fds = 8192;
    if (mode == 11) {       // one session with many requests
        CR* c = nullptr; int fd = -1, lfd = -1; call(rn, "raw-listen", 5 * SEC, [&] { lfd = rlisten(a); });
        Task t = start(e.cn, "connect", [&] { Client* k = L([] { return new Client(); }); e.cl.push_back(k); if (!connectTo(k, a, 10)) violate("connect-failed", "connect to a raw listener failed"); c = crOf(k); });
        call(rn, "raw-accept", 20 * SEC, [&] { fd = raccept(lfd); }); finish(t, 30 * SEC); Connection* k = c->c;
        u32 n = pick(ST_WORK, 4) == 3 ? 32769 + pick(ST_WORK, 20) : 130 + pick(ST_WORK, 300); std::string buf; std::set<u32> ids; u32 got = 0; stat(n > 30000 ? "work.many_requests" : "work.some_requests");
        call(e.cn, "push", 1000 * SEC, [&] { for (u32 i = 0; i < n; i++) { Lib x; Request* r = new Request("n"); r->Set("i", new D::Value32U(i), false); k->Push(r, false); } });
        call(rn, "raw-read", 1000 * SEC, [&] { std::string f; while (got < n) { int r = rdrain(fd, buf); while (takeFrame(buf, f)) { Spec s; u32 id; if (!decode(f, s, id)) violate("bad-frame", "the library sent a malformed frame"); if (s.name == "_") continue;
            EXPECT("P01 P08", "wrong-order", s.args.size() == 1 && s.args[0].second.num == got, "request %u of %u arrived as number %u", s.args.empty() ? 0 : (u32)s.args[0].second.num, n, got); got++;
            EXPECT("P10", "duplicate-id", ids.insert(id).second && id, "two of %u requests of one session have the id %u", n, id); EXPECT("P10", "wrong-half", id % 2 == 1, "a client used the id %u", id); }
            if (r < 0) break; if (got < n) sleepFor(1 * MS); } });
        EXPECT("P01 P10", "lost", got == n, "%u of %u requests arrived", got, n); markNontrivial(); closeFd(rn, fd); closeFd(rn, lfd); end(e); return;
    }
    bool tags = pick(ST_WORK, 2); u32 connected = 0, gone = 0; 
    W->onConnected = [&](Server*, CR* r) { connected++; L([&] { if (tags) r->c->tag = "t" + std::to_string(r->id_connected); r->c->SetHandlerDefault(handler(0)); }); r->hook = [](CR* q, Request*, int) { push(q, genSpec(++W->uid, 0)); }; };
    W->onDisconnected = [&](Server*, CR*) { gone++; };
    auto ask = [&](int fd) { return rsend(fd, encode(genSpec(++W->uid, 0), 1)); };
    auto answered = [&](int fd, std::string& b) { u64 t0 = now_ns; std::string f; while (now_ns < t0 + 20 * SEC) { int r = rdrain(fd, b); if (takeFrame(b, f)) { Spec s; u32 id; if (decode(f, s, id) && s.name != "_") return true; continue; } if (r < 0) return false; sleepFor(1 * MS); } return false; };
    if (mode >= 9) {        // one after the other
        int lim = pick(ST_WORK, 2) ? -1 : 5; startServer(e, [&](Server* s) { if (lim >= 0) L([&] { s->SetMaxConnections(lim); }); }); u32 n = 258 + pick(ST_WORK, 20); std::vector<int> kept; stat("work.many_sessions");
        Task t = start(rn, "raw", [&] { for (u32 i = 0; i < n; i++) { int fd = rconnect(a); if (fd < 0) violate("connect-failed", "raw connect %u failed", i); std::string b; if (!ask(fd) || !answered(fd, b)) vio("P16 P15 P01", "not-served", "client number %u got no answer", i); if (i % 100 == 1) kept.push_back(fd); else k_close(fd); } });
        finish(t, 900 * SEC); markNontrivial(); 
        if (!waitFor([&] { return gone + kept.size() == n; }, 20 * SEC)) vio("P15 P20", "no-disconnected-callback", "%u of %zu ended connections were reported", gone, n - kept.size());
        EXPECT("P15", "wrong-count", connected == n, "%u connected callbacks for %u clients", connected, n);
        for (auto& r : W->all) if (!r->disconnectedCalls) withConn(r.get(), "look", [&](Connection* k) { EXPECT("P14 P15", "wrong-connection", k == r->c && L([&] { return k->id; }) == r->id_connected, "a lookup by id returned another connection"); });
        for (int fd : kept) closeFd(rn, fd); end(e); return;
    }
    // all at once
    u32 n = 65 + pick(ST_WORK, 80); int lim = -1; u32 lk = pick(ST_WORK, 4); if (lk == 1) lim = (int)n - 1 - (int)pick(ST_WORK, 30); if (lk == 2) lim = (int)n + (int)pick(ST_WORK, 300); if (lk == 3) lim = -2 - (int)pick(ST_WORK, 1000); stat("work.many_at_once");
    Node* sn = e.sn; u32 cap = lim < 0 ? n : std::min<u32>(n, (u32)lim); onAccept = [lim, sn](Node* x, Link*) { if (x == sn && lim >= 0 && openSocks(x) > (u64)lim) vio("P16", "limit-exceeded", "a server with a limit of %d holds %llu accepted connections", lim, (unsigned long long)openSocks(x)); };
    startServer(e, [&](Server* s) { if (lim != -1) L([&] { s->SetMaxConnections(lim); }); EXPECT("P16", "wrong-limit", L([&] { return s->GetMaxConnections(); }) == lim, "the limit is not the one that was set"); });
    std::vector<int> fds; call(rn, "raw", 100 * SEC, [&] { for (u32 i = 0; i < n; i++) { int fd = rconnect(a); if (fd < 0) violate("connect-failed", "raw connect %u failed", i); fds.push_back(fd); ask(fd); } });
    if (!waitFor([&] { return connected >= cap; }, 30 * SEC)) vio("P16 P15", "not-accepted", "%u of %u clients were accepted, the limit is %d", connected, n, lim);
    sleepFor(1 * SEC); EXPECT("P16", "limit-exceeded", connected == cap, "%u of %u clients were accepted, the limit is %d", connected, n, lim);
    call(rn, "raw", 400 * SEC, [&] { for (u32 i = 0; i < cap; i++) { std::string b; if (!answered(fds[i], b)) vio("P16 P01 P21", "not-served", "client %u of %u got no answer", i, n); } });
    { std::vector<CR*> all; for (auto& r : W->all) all.push_back(r.get());
      call(sn, "lookup", 100 * SEC, [&] { std::vector<SafeConnection*> hs; for (u32 k = 0; k < 20 + cap; k++) { CR* r = all[k < cap ? k : pick(ST_WORK, (u32)all.size())]; if (r->disconnectedCalls) continue; SafeConnection* h = L([&] { return tags && k % 2 ? e.s->GetConnection("t" + std::to_string(r->id_connected)) : e.s->GetConnection(r->id_connected); });
        if (!h) { vio("P14 P15", "not-found", "connection %u of %u is not found", r->id_connected, n); return; } EXPECT("P14 P15", "wrong-connection", L([&] { return &(*h)(); }) == r->c, "a lookup returned another connection"); hs.push_back(h); }
        if (L([&] { SafeConnection* h = e.s->GetConnection(n + 1000); bool y = h; delete h; return y; })) vio("P14", "found-unknown", "a connection with an unknown id was found"); for (auto h : hs) L([&] { delete h; }); }); }
    markNontrivial(); u32 how = pick(ST_WORK, 3); u32 closing = how == 0 ? n : how == 1 ? 1 + pick(ST_WORK, n) : 0;
    call(rn, "raw-close", 20 * SEC, [&] { for (u32 i = 0; i < closing; i++) { k_close(fds[i]); } });
    if (closing) { u32 c0 = std::min(closing, cap); if (!waitFor([&] { return gone >= c0; }, 20 * SEC)) vio("P15 P20", "no-disconnected-callback", "%u of %u ended connections were reported", gone, c0);
        if (!waitFor([&] { return connected == n || (int)(connected - gone) == lim; }, 20 * SEC)) { bool allSeen = true; for (u32 i = std::max(closing, cap); i < n; i++) allSeen = false; if (!allSeen) vio("P16", "slot-not-reused", "%u of %u clients were accepted although %u have left", connected, n, gone); }
        for (u32 i = closing; i < n && (i < cap || (int)(n - closing) <= lim); i++) { std::string b; call(rn, "ask", 60 * SEC, [&] { if (i < cap) ask(fds[i]); if (!answered(fds[i], b)) vio("P16 P21 P01", "not-served", "client %u of %u is not served after %u have left", i, n, closing); }); } }
    for (u32 i = closing; i < n; i++) if (how == 1 || pick(ST_WORK, 2)) { closeFd(rn, fds[i]); fds[i] = -1; }
    u64 d = 0; call(sn, "stop", 300 * SEC, [&] { d = timed([&] { Lib x; e.s->Stop(negative()); }); afterStop(e.s, sn); }); EXPECT("P17 P04", "slow-stop", d < 5 * SEC, "stopping a server with %u clients took %.1f s", n, d / 1e9);
    for (u32 i = closing; i < n; i++) if (fds[i] >= 0) closeFd(rn, fds[i]);
    end(e);
}
// ---------------------------------------------------------------- the connection limit (P16)
void scLimit() {
    Env e; begin(e, FAST | FAULTY, 0); if (pick(ST_CFG, 4) == 3) cfg.p_acceptfail = 0.1;
    int lim = (int)pick(ST_WORK, 4); if (pick(ST_WORK, 8) == 7) lim = -1; if (lim == 0 && pick(ST_WORK, 4)) lim = 1;
    // the limits that were in force lately: a change counts from some time after the call on
    struct Force { int lim; u64 until, st; }; auto forced = std::make_shared<std::vector<Force>>(); forced->push_back({lim, NEVER, 0});
    auto setLimit = [forced](Server* s, int l) { forced->back().until = now_ns; forced->back().st = stalledTotal(); forced->push_back({l, NEVER, 0}); size_t i = forced->size() - 2; L([&] { s->SetMaxConnections(l); }); (*forced)[i].until = now_ns; (*forced)[i].st = stalledTotal(); EXPECT("P16", "not-set", L([&] { return s->GetMaxConnections(); }) == l, "the limit set is not the limit reported"); };
    Node* sn = e.sn; onAccept = [forced, sn](Node* n, Link*) { if (n != sn) return; i64 most = -1; for (auto& f : *forced) if (f.until == NEVER || now_ns <= f.until + 50 * MS + (stalledTotal() - f.st)) { if (f.lim < 0) return; most = std::max<i64>(most, f.lim); } if ((i64)openSocks(n) > most) vio("P16", "limit-exceeded", "a server with a limit of %d holds %llu accepted connections", (int)most, (unsigned long long)openSocks(n)); };
    bool cbNap = pick(ST_WORK, 3) == 2; u64 hNap = pick(ST_WORK, 4) == 3 ? 300 * MS : 0;
    W->onConnected = [&](Server*, CR* r) { L([&] { r->c->SetHandlerDefault(handler(0)); }); r->hook = [hNap](CR* q, Request*, int) { if (hNap) nap(hNap); push(q, genSpec(++W->uid, 1)); }; if (cbNap) nap(200 * MS); };
    startServer(e, [&](Server* s) { if (lim >= 0 || pick(ST_WORK, 2)) L([&] { s->SetMaxConnections(lim); }); });
    u32 n = (lim < 0 ? 3 : (u32)lim) + 1 + pick(ST_WORK, 4); std::vector<Task> t; Node* rn = addNode("raw"); Addr a = e.a; std::vector<CR*> served; u32 aborted = 0;
    if (lim == 0) {
        Task x = start(rn, "raw", [&] { int fd = rconnect(a); if (fd < 0) return; sleepFor(5 * SEC); k_close(fd); }); finish(x, 30 * SEC); markNontrivial();
        EXPECT("P16", "limit-exceeded", recordsByLink().empty(), "a server with a limit of 0 accepted a connection"); end(e); return;
    }
    std::vector<Task> keep; bool stop = false;
    for (u32 i = 0; i < n; i++) {
        u32 kind = pick(ST_WORK, 6); if (kind == 5) aborted++;
        if (kind == 5) t.push_back(start(rn, "abort", [=] { nap(300 * MS); int fd = rconnect(a); if (fd < 0) return; if (pick(ST_WORK, 2)) nap(500 * MS); if (pick(ST_WORK, 2)) getSock(fd, "raw")->linger0 = true; k_close(fd); }));
        else t.push_back(start(e.cn, "client", [=, &served] {
            nap(500 * MS); Client* k = L([] { return new Client(); }); L([&] { k->SetTheirNaIntervalLimit(1000); });
            if (!connectTo(k, a, 60)) violate("connect-failed", "a client could not connect to a running server");
            CR* r = crOf(k); u32 m = 1 + pick(ST_WORK, 3), got = 0; for (u32 j = 0; j < m; j++) push(r, genSpec(++W->uid, 1));
            u64 s0 = stalledTotal(), t0 = now_ns; while (got < m && since(t0, s0) < 100 * SEC) { Request* q = pull(r, 5); if (q) { got++; freeReq(q); } else if (!L([&] { return k->IsConnected(); })) break; }
            if (got < m) vio("P16", "not-served", "a client beyond the limit was not served: %u of %u answers after %.1f s, connected %d", got, m, since(t0, s0) / 1e9, L([&] { return k->IsConnected(); }));
            served.push_back(r); nap(1 * SEC); if (kind == 4) { u64 x = (u64)pick(ST_WORK, 5) * SEC; sleepFor(x); }
            if (kind & 1) { Lib y; k->Disconnect(kind & 2, true); }
            L([&] { delete k; });
        }));
    }
    // the limit is changed while the server runs: those who wait are admitted as soon as it allows them
    bool dyn = lim > 0 && pick(ST_WORK, 3) == 2; if (dyn) t.push_back(start(e.sn, "limiter", [&, cbNap] {
        for (u32 i = pick(ST_WORK, 5); i; i--) { nap(1 * SEC); setLimit(e.s, (int)pick(ST_WORK, 5)); }
        nap(1 * SEC); int to = pick(ST_WORK, 2) ? -1 : 20; std::vector<Link*> waiting; for (auto l : links()) if (l->established && !l->accepted_at && !l->closed_at[0] && now_ns > l->established + cfg.latency + 1 * MS) waiting.push_back(l); setLimit(e.s, to); stat("work.limit_raised"); if (waiting.size()) stat("work.limit_raised_waiting");
        if (!waitFor([&] { for (auto l : waiting) if (!l->accepted_at && !l->closed_at[0] && !l->net_reset) return false; return true; }, 2 * SEC + (cbNap ? (n + 5) * 400 * MS : 0))) vio("P16", "not-admitted", "a client that waited was not admitted after the limit had been raised");
        lim = to;
    }));
    // handles keep slots in use
    if (pick(ST_WORK, 3) == 2) keep.push_back(start(e.sn, "hold", [&] { for (int i = 0; i < 40 && !stop; i++) { D::SafeConnection* h = L([&] { return e.s->GetConnection((u32)(1 + pick(ST_WORK, 4))); }); sleepFor((u64)(1 + pick(ST_WORK, 1000)) * MS); if (h) L([&] { delete h; }); } }));
    for (auto& x : t) finish(x, 300 * SEC);
    stop = true; for (auto& x : keep) finish(x, 60 * SEC);
    markNontrivial();
    // afterwards the slots are free again
    CR* c = addClient(e, nullptr, 10); accepted(c, 10 * SEC);
    end(e);
}
// ---------------------------------------------------------------- stop and restart (P17)
void scRestart() {
    Env e; begin(e, FAST | FAULTY | (pick(ST_CFG, 3) == 2 ? SMALLBUF : 0), 0); Node* rn = addNode("raw"); bool lim = pick(ST_WORK, 3) == 2; bool cbs = pick(ST_WORK, 5) != 4;
    u64 hNap = pick(ST_WORK, 3) == 2 ? 800 * MS : 0, cbNap = pick(ST_WORK, 4) == 3 ? 500 * MS : 0; bool cbLookup = pick(ST_WORK, 2), handlers = pick(ST_WORK, 3) > 0, dropper = pick(ST_WORK, 4) == 3;
    W->onConnected = [&](Server*, CR* r) { setBlocks(r->c); L([&] { if (handlers) r->c->SetHandlerDefault(handler(0)); }); r->hook = [hNap, dropper](CR* q, Request*, int) { if (hNap) nap(hNap); push(q, genSpec(++W->uid, 1)); if (dropper && pick(ST_WORK, 3) == 2) L([&] { q->c->Disconnect(pick(ST_WORK, 2), false); }); }; if (cbNap) nap(cbNap); };
    W->onDisconnected = [&](Server*, CR*) { if (cbNap) nap(cbNap); };
    u32 rounds = 1 + pick(ST_WORK, 3); Server* s = nullptr;
    for (u32 rd = 0; rd < rounds; rd++) {
        bool fresh = !s || pick(ST_WORK, 3) == 2, other = fresh && s;
        u32 srvIds = 0; (void)srvIds;
        call(e.sn, "server-start", 20 * SEC, [&] {
            if (other) L([&] { delete s; });
            if (fresh) { s = L([] { return new Server(); }); if (cbs) { apiSetConnected(s, srvConnected); apiSetDisconnected(s, srvDisconnected); } }
            W->stopped.erase(s); W->ids[s].clear();
            if (lim) L([&] { s->SetMaxConnections(2); });
            EXPECT("P17", "running", L([&] { return s->GetType(); }) == D::SocketTypeUndefined, "a server that is not running says it is");
            if (!serverStart(s, e.a)) { vio("P17", "restart-failed", "the server could not be started %s on the same address", rd ? "again" : ""); violate("start-failed", "a server could not be started on a free address"); }
            EXPECT("P17", "not-running", L([&] { return s->GetType(); }) == (e.a.tcp ? D::SocketTypeTcp : D::SocketTypeUnix), "a started server does not say it is running");
            EXPECT("P17", "started-twice", !serverStart(s, e.a), "a running server could be started again");
            if (e.a.tcp && pick(ST_WORK, 3) == 2) { Server* s2 = L([] { return new Server(); }); EXPECT("P17", "address-taken-twice", !serverStart(s2, e.a), "two servers could be started on one TCP address"); EXPECT("P17", "running", L([&] { return s2->GetType(); }) == D::SocketTypeUndefined, "a server that failed to start says it is running"); u64 d = timed([&] { Lib x; s2->Stop(negative()); s2->WaitForStop(negative()); delete s2; }); EXPECT("P17", "slow-stop", d < 200 * MS, "stopping a server that never ran took %.3f s", d / 1e9); }
        });
        e.s = s; bool stopNow = false; u32 firstLink = (u32)links().size();
        // its clients
        u32 n = pick(ST_WORK, 4); std::vector<Task> t; std::vector<std::pair<Client*, CR*>> live; std::vector<int> rawFds;
        for (u32 i = 0; i < n; i++) {
            u32 kind = pick(ST_WORK, 5); Addr a = e.a;
            if (kind == 4) {   // a raw client that never reads, to which the server sends
                int fd = rawClient(e, rn); rawFds.push_back(fd); std::string b; u32 m = pick(ST_WORK, 12); for (u32 k = 0; k < m; k++) b += encode(genSpec(++W->uid, 1), k); if (pick(ST_WORK, 2)) b += std::string("\x50\0\0\0ab", 6);
                call(rn, "send", 20 * SEC, [&] { k_send(fd, b.data(), b.size(), MSG_DONTWAIT | MSG_NOSIGNAL); });
            } else {
                Client* k = nullptr; call(e.cn, "connect", 30 * SEC, [&] { k = L([] { return new Client(); }); setBlocks(k); L([&] { k->SetTheirNaIntervalLimit(1000); if (kind == 3) k->SetHandlerDefault(handler(1)); }); if (!connectTo(k, a, 20)) violate("connect-failed", "a client could not connect to a running server"); });
                CR* r = crOf(k); live.push_back({k, r}); r->link = r->link;
                if (kind) t.push_back(start(e.cn, "stream", [=, &stopNow] { for (int j = 0; j < 30 && !stopNow; j++) { push(r, genSpec(++W->uid, 1)); nap(20 * MS); } if (kind == 2) { Lib y; k->Disconnect(pick(ST_WORK, 2), false); } }));
            }
        }
        if (rd && live.size()) {    // the new run really serves (unless the limit keeps it waiting)
            auto p = live[0]; if (cbs && waitFor([&] { return peerOf(p.second) && peerOf(p.second)->connectedDone; }, lim ? 10 * MS : 10 * SEC)) stat("work.served_after_restart"); else if (cbs && !lim) vio("P17", "not-served", "a restarted server did not accept a client");
        }
        // a waiter with a timeout, while the server runs
        if (pick(ST_WORK, 2)) call(e.sn, "wait", 20 * SEC, [&] { u64 t0 = now_ns; u64 d = timed([&] { Lib x; s->WaitForStop(1); }); EXPECT("P17 P18", "early-wait", now_ns - t0 + 2 * MS >= 1 * SEC, "WaitForStop(1) of a running server returned after %.3f s", d / 1e9); EXPECT("P17", "late-wait", d <= 1300 * MS, "WaitForStop(1) took %.3f s", d / 1e9); });
        std::vector<Task> w; u32 nw = pick(ST_WORK, 3);
        for (u32 i = 0; i < nw; i++) { int to = (int)pick(ST_WORK, 4) - 1; w.push_back(start(e.sn, "waiter", [=] { u64 d = timed([&] { Lib x; s->WaitForStop(to); }); if (to >= 0) EXPECT("P17", "late-wait", d <= (u64)to * SEC + 300 * MS, "WaitForStop(%d) took %.3f s", to, d / 1e9); })); }
        sleepFor((u64)pick(ST_WORK, 3000) * (pick(ST_WORK, 2) ? US : MS / 2));
        markNontrivial();
        // stop
        u32 how = pick(ST_WORK, 5); bool destroy = how == 4 && nw == 0; u64 bound = 2 * SEC + 2 * hNap + cbNap * (u64)(W->all.size() + 2);
        stopNow = false; u32 callers = destroy ? 1 : 1 + pick(ST_WORK, 2); std::vector<Task> st; bool first = true;
        for (u32 i = 0; i < callers; i++) st.push_back(start(e.sn, "stop", [&, i] {
            if (i) nap(100 * MS);
            u64 d = timed([&] { Lib x; if (destroy) delete s; else if (how == 0) { s->Stop(0); s->WaitForStop(negative()); } else if (how == 1) s->Stop(negative()); else if (how == 2) { s->Stop(1); s->WaitForStop(negative()); } else { s->Stop(); for (int k = 0; k < 60; k++) { s->WaitForStop(1); App a; if (L([&] { return s->GetType(); }) == D::SocketTypeUndefined) break; } s->WaitForStop(negative()); } });
            EXPECT("P17", "slow-stop", d <= bound, "stopping the server took %.3f s", d / 1e9);
            if (first) { first = false; }
            if (!destroy) EXPECT("P17", "running", L([&] { return s->GetType(); }) == D::SocketTypeUndefined, "a stopped server says it is running");
            afterStop(s, e.sn);
        }));
        for (auto& x : st) finish(x, 60 * SEC);
        for (auto& x : w) finish(x, 30 * SEC);
        stopNow = true;
        EXPECT("P17 P20", "connection-left", openSocks(e.sn) == 0, "a stopped server still holds %llu connections", (unsigned long long)openSocks(e.sn));
        EXPECT("P17", "still-listening", !H::listening(e.a.tcp, ip4(e.a.ip), e.a.port, e.a.path), "a stopped server still listens");
        if (!e.a.tcp) EXPECT("P17", "socket-file-left", !pathExists(e.a.path), "the socket file is still there after the server has stopped");
        if (!destroy) call(e.sn, "again", 20 * SEC, [&] { u64 d = timed([&] { Lib x; s->Stop(negative()); s->WaitForStop(negative()); s->WaitForStop(0); }); EXPECT("P17", "slow-stop", d < 200 * MS, "stopping a stopped server took %.3f s", d / 1e9); EXPECT("P17 P14", "lookup-after-stop", !L([&] { return s->GetConnection((u32)1); }), "a stopped server found a connection"); });
        else s = nullptr;
        for (auto& x : t) finish(x, 60 * SEC);
        // the peers see it
        for (auto& p : live) { bool ok = false; Client* k = p.first; call(e.cn, "sees-end", 30 * SEC, [&] { ok = L([&] { return k->WaitForStop(5); }); }); EXPECT("P17", "peer-does-not-see", ok, "a client of a stopped server did not see the end of its connection"); call(e.cn, "delete client", 30 * SEC, [&] { Lib x; delete k; }); }
        for (int fd : rawFds) call(rn, "raw-end", 30 * SEC, [&] { char b[4096]; ssize_t r; u64 s0 = stalledTotal(), t0 = now_ns; while ((r = k_recv(fd, b, sizeof b, 0)) > 0) { } EXPECT("P17", "peer-does-not-see", since(t0, s0) <= 5 * SEC, "a raw client saw the end only after %.3f s", (now_ns - t0) / 1e9); k_close(fd); });
        for (auto& r : W->all) if (r->server) { CR* p = peerOf(r.get()); if (p && r->link > firstLink) { checkDirection("client to server", p, r.get(), false); checkDirection("server to client", r.get(), p, false); } }
    }
    e.s = s; e.cl.clear();
    end(e);
}
// ---------------------------------------------------------------- handles (P14)
void scHandles() {
    Env e; begin(e, FAST | FAULTY, 0); bool handlers = pick(ST_WORK, 2); u64 cbNap = pick(ST_WORK, 4) == 3 ? 100 * MS : 0;
    W->onConnected = [&](Server*, CR* r) { u32 id = r->id_connected; L([&] { r->c->tag = "tag" + std::to_string(id); if (handlers) r->c->SetHandlerDefault(handler(0)); }); if (cbNap) nap(cbNap); };
    bool lookup = pick(ST_WORK, 2); W->onDisconnected = [&](Server* sv, CR*) { if (cbNap) nap(cbNap); if (lookup) lookAround(sv, 5); };
    startServer(e); u32 n = 1 + pick(ST_WORK, 4); std::vector<CR*> cs, ss; for (u32 i = 0; i < n; i++) { cs.push_back(addClient(e)); ss.push_back(accepted(cs.back())); }
    for (auto s : ss) vcAcquire(s->vc);
    struct Hold { int n = 0; u64 lastRelease = 0, st = 0; }; std::map<CR*, Hold> hold; for (auto s : ss) hold[s];
    std::set<CR*> leaving; bool stopping = false; Server* sv = e.s; std::vector<Task> t;
    u32 maxFds = e.sn->max_fds; if (pick(ST_WORK, 4) == 3) { e.sn->max_fds = openFds(e.sn) + pick(ST_WORK, 2); stat("fault.low_fd_limit"); }     // no descriptors are left meanwhile
    u32 workers = 1 + pick(ST_WORK, 4);
    for (u32 w = 0; w < workers; w++) t.push_back(start(e.sn, "worker", [&, sv] {
        u32 m = 2 + pick(ST_WORK, 8); std::vector<std::pair<D::SafeConnection*, CR*>> own;
        for (u32 k = 0; k < m; k++) {
            u32 who = pick(ST_WORK, (u32)ss.size()); CR* r = ss[who]; bool unknown = pick(ST_WORK, 10) == 9, byTag = pick(ST_WORK, 2);
            if (own.size() && pick(ST_WORK, 4) == 3) {    // release
                auto h = own[pick(ST_WORK, (u32)own.size())]; own.erase(std::find(own.begin(), own.end(), h)); Hold& x = hold[h.second];
                { Lib y; delete h.first; } x.n--; x.lastRelease = now_ns; x.st = stalledTotal(); continue;
            }
            if (unknown) {
                D::SafeConnection* h = byTag ? L([&] { return sv->GetConnection("nobody"); }) : L([&] { return sv->GetConnection((u32)(pick(ST_WORK, 2) ? 4000000000u : 1000)); });
                EXPECT("P14", "unknown-found", !h, "a lookup for an unknown connection found one"); if (h) L([&] { delete h; }); continue;
            }
            bool mustBefore = !leaving.count(r) && !stopping; u32 id = r->id_connected;
            hold[r].n++;        // claimed before the call, so that the disposal check never races with it
            D::SafeConnection* h = byTag ? L([&] { return sv->GetConnection("tag" + std::to_string(id)); }) : L([&] { return sv->GetConnection(id); });
            if (!h) { hold[r].n--; hold[r].lastRelease = std::max(hold[r].lastRelease, now_ns); hold[r].st = stalledTotal(); if (mustBefore && !leaving.count(r) && !stopping) vio("P14", "lookup-failed", "a live connection was not found by its %s", byTag ? "tag" : "id"); continue; }
            Connection* q = L([&] { return &(*h)(); });
            if (q != r->c) vio("P14", "wrong-connection", "a lookup for connection %u returned another connection", id);
            own.push_back({h, r});
            u32 uses = 1 + pick(ST_WORK, 4);
            for (u32 u = 0; u < uses; u++) {
                nap(pick(ST_WORK, 5) == 4 ? 500 * MS : 2 * MS);
                EXPECT("P14", "wrong-connection", q->id == id && L([&] { return q->tag == "tag" + std::to_string(id); }), "a held connection changed its identity");
                EXPECT("P14 P15", "disposed-while-held", !r->disconnectedCalls, "a connection was disposed of while a handle to it was held");
                switch (pick(ST_WORK, 9)) {
                    case 7: {                           // hand the handle over: a copy stays, the first one goes (or the other way round)
                        D::SafeConnection*& mine = own.back().first; D::SafeConnection* h2 = L([&] { return new D::SafeConnection(*mine); });
                        EXPECT("P14", "copy", L([&] { return &(*h2)() == q; }), "a copied handle refers to another connection");
                        if (pick(ST_WORK, 2)) std::swap(mine, h2); nap(2 * MS); L([&] { delete h2; }); break; }
                    case 8: {                           // a handle to something else is overwritten with this one
                        D::SafeConnection*& mine = own.back().first; CR* o = own[pick(ST_WORK, (u32)own.size())].second;
                        if (!hold[o].n) break; D::SafeConnection* h2 = L([&] { return new D::SafeConnection(o->c); });
                        nap(1 * MS); L([&] { *h2 = *mine; if (pick(ST_WORK, 3) == 2) *h2 = *h2; });
                        EXPECT("P14", "copy", L([&] { return &(*h2)() == q; }), "an assigned handle refers to another connection");
                        if (pick(ST_WORK, 2)) std::swap(mine, h2); nap(2 * MS); L([&] { delete h2; }); break; }
                    case 0: push(r, genSpec(++W->uid, 1)); break;
                    case 1: { Request* x = pull(r, 0); if (x) freeReq(x); break; }
                    case 2: L([&] { q->IsConnected(); q->IsDisconnecting(); q->GetType(); q->GetRefs(); }); break;
                    case 3: { D::SafeConnection* h2 = L([&] { return new D::SafeConnection(q); }); nap(2 * MS); L([&] { delete h2; }); break; }
                    case 4: L([&] { q->SetOurSaInterval(5); q->SetTheirNaIntervalLimit(50); q->SetSendBlockSize(100); q->SetMaxRequestSize(20000); }); break;
                    case 5: { Request* x = pull(r, 1); if (x) freeReq(x); break; }
                    case 6: if (pick(ST_WORK, 4) == 3) { leaving.insert(r); L([&] { q->Disconnect(pick(ST_WORK, 2), false); }); } break;
                }
            }
        }
        for (auto& h : own) { { Lib y; delete h.first; } Hold& x = hold[h.second]; x.n--; x.lastRelease = now_ns; x.st = stalledTotal(); nap(5 * MS); }
    }));
    // meanwhile clients talk and leave
    for (u32 i = 0; i < n; i++) { CR* c = cs[i]; CR* s = ss[i]; u32 how = pick(ST_WORK, 5); Connection* k = c->c; Link* l = linkById(c->link);
        t.push_back(start(e.cn, "client", [&, c, s, how, k, l] { u32 m = pick(ST_WORK, 5); for (u32 j = 0; j < m; j++) { push(c, genSpec(++W->uid, 1)); nap(50 * MS); } nap(1 * SEC); if (how == 0) return; leaving.insert(s); if (how == 1) L([&] { k->Disconnect(true, false); }); else if (how == 2) L([&] { k->Disconnect(false, false); }); else if (how == 3 && l->tcp) netReset(l); else L([&] { k->Disconnect(true, true); }); })); }
    bool doStop = pick(ST_WORK, 3) == 2;
    if (doStop) t.push_back(start(e.sn, "stop", [&, sv] { nap(2 * SEC); stopping = true; L([&] { sv->Stop(pick(ST_WORK, 2) ? 0 : -1); }); }));
    for (auto& x : t) finish(x, 120 * SEC);
    e.sn->max_fds = maxFds;
    markNontrivial();
    // every ended connection without handles is disposed of soon
    if (!doStop) for (auto s : ss) if (leaving.count(s)) {
        if (!waitFor([&] { return s->disconnectedCalls > 0; }, 2 * SEC + cbNap * 8)) vio("P14 P15", "not-disposed", "an ended connection whose handles have all been released was not disposed of (%d references)", hold[s].n);
        if (!waitFor([&] { return heap::isFreed(s->c); }, 2 * SEC + cbNap * 8)) vio("P14 P20", "not-disposed", "an ended connection whose handles have all been released was not freed");
    }
    for (auto s : ss) if (!leaving.count(s) && !stopping) {    // untouched connections still work
        bool ok = withConn(s, "check", [&](Connection* q) { EXPECT("P14", "connection-lost", L([&] { return q->IsConnected(); }), "a connection that nobody ended is gone"); });
        EXPECT("P14", "lookup-failed", ok, "a live connection was not found after its handles had been released");
    }
    if (doStop) {
        call(e.sn, "wait", 60 * SEC, [&] { u64 d = timed([&] { Lib x; sv->WaitForStop(negative()); }); EXPECT("P14 P17", "slow-stop", d <= 2 * SEC + cbNap * 8, "the server needed %.3f s to stop after the last handle had been released", d / 1e9); });
        for (auto s : ss) EXPECT("P14 P17 P20", "not-disposed", heap::isFreed(s->c), "a connection of a stopped server was not freed");
    }
    for (size_t i = 0; i < cs.size(); i++) { checkDirection("client to server", cs[i], ss[i], false); checkDirection("server to client", ss[i], cs[i], false); }
    end(e);
}
// ---------------------------------------------------------------- signals and failing accepts (P18)
void scSignals() {
    Env e; begin(e, FAULTY, 0); static const double pe[] = {0.3, 0.05, 0, 0.6}; cfg.p_eintr = pe[pick(ST_CFG, 4)]; static const double pg[] = {0.2, 0, 0.6, 0.02}; cfg.p_again = pg[pick(ST_CFG, 4)]; static const double pa[] = {0, 0.3, 0.05, 0.8}; cfg.p_acceptfail = pa[pick(ST_CFG, 4)]; cfg.stall_budget = 1 * SEC;
    bool low = pick(ST_WORK, 3) == 2;
    W->onConnected = [&](Server*, CR* r) { L([&] { r->c->SetHandlerDefault(handler(0)); }); r->hook = [](CR* q, Request*, int) { push(q, genSpec(++W->uid, 1)); }; };
    startServer(e); CR* good = addClient(e, nullptr, 20); CR* gs = accepted(good, 20 * SEC); Node* rn = addNode("raw"); Addr a = e.a; std::vector<Task> t; bool stop = false;
    // the good client: an answer to everything
    t.push_back(start(e.cn, "good", [&] { u32 n = 3 + pick(ST_WORK, 12); for (u32 i = 0; i < n; i++) { push(good, genSpec(++W->uid, 1)); Request* q = pull(good, 20); if (!q) { vio("P18", "disturbed", "an undisturbed client got no answer within 20 s (connected %d)", L([&] { return good->c->IsConnected(); })); return; } freeReq(q); nap(500 * MS); } }));
    // others that abort
    u32 nb = 1 + pick(ST_WORK, 4);
    for (u32 i = 0; i < nb; i++) t.push_back(start(rn, "abort", [&] { u32 n = 1 + pick(ST_WORK, 5); for (u32 k = 0; k < n; k++) { int fd = rconnect(a); if (fd < 0) continue; u32 w = pick(ST_WORK, 4); if (w == 1) nap(200 * MS); if (w >= 2) { rsend(fd, encode(genSpec(++W->uid, 1), 3)); if (w == 3) nap(20 * MS); } if (pick(ST_WORK, 2)) getSock(fd, "raw")->linger0 = true; k_close(fd); nap(300 * MS); } }));
    // timed calls are never cut short
    t.push_back(start(e.cn, "timed", [&] {
        u32 n = pick(ST_WORK, 4);
        for (u32 i = 0; i < n; i++) {
            u32 s = 1 + pick(ST_WORK, 3); u64 t0 = now_ns; u64 d;
            switch (pick(ST_WORK, 4)) {
                case 3: d = timed([&] { pushWaiting(good, (int)s); }); break;
                case 0: { bool r = false; d = timed([&] { r = L([&] { return good->c->WaitForStop((int)s); }); }); EXPECT("P18", "false-end", !r, "WaitForStop(%u) reported an end that has not happened", s); break; }
                case 1: { Client* k = L([] { return new Client(); }); setBlackhole(ip4("10.8.8.8"), 5, 1); bool r = false; d = timed([&] { r = L([&] { return k->ConnectTcp("10.8.8.8", 5, (int)s); }); }); EXPECT("P18 P19", "false-success", !r, "connected to nothing"); L([&] { delete k; }); break; }
                default: { Client* k = L([] { return new Client(); }); Request* q = nullptr; d = timed([&] { q = L([&] { return k->Pull(0); }); }); L([&] { delete k; }); t0 = now_ns; s = 0; EXPECT("P18 P07", "phantom", !q, "a client that never connected returned a request"); break; }
            }
            EXPECT("P18", "early-return", now_ns - t0 + 2 * MS >= (u64)s * SEC, "a call with a timeout of %u s returned after %.3f s", s, (now_ns - t0) / 1e9);
            EXPECT("P18 P19", "late-return", d <= (u64)s * SEC + 400 * MS, "a call with a timeout of %u s took %.3f s", s, d / 1e9);
        }
    }));
    t.push_back(start(e.sn, "timed-srv", [&] { u32 n = pick(ST_WORK, 3); for (u32 i = 0; i < n; i++) { u64 t0 = now_ns; L([&] { e.s->WaitForStop(1); }); EXPECT("P18 P17", "early-return", now_ns - t0 + 2 * MS >= 1 * SEC, "WaitForStop(1) of a running server returned after %.3f s", (now_ns - t0) / 1e9); } }));
    if (low) { u32 open = openFds(e.sn); e.sn->max_fds = open + 3 + pick(ST_WORK, 9); stat("fault.low_fd_limit"); (void)open; }
    // more ordinary clients, which may have to wait or be dropped while descriptors are short
    u32 nc = pick(ST_WORK, 4); u32 servedNow = 0;
    for (u32 i = 0; i < nc; i++) t.push_back(start(e.cn, "client", [&] { nap(1 * SEC); Client* k = L([] { return new Client(); }); bool ok = connectTo(k, a, 30); CR* r = crOf(k); if (!ok && !low) vio("P18", "connect-failed", "a client could not connect"); if (ok) { push(r, genSpec(++W->uid, 1)); Request* q = pull(r, 3); if (q) { freeReq(q); servedNow++; } else if (!low && cfg.p_acceptfail < 0.5) vio("P18", "not-served", "a client was not served within 3 s"); } L([&] { delete k; }); }));
    for (auto& x : t) finish(x, 200 * SEC);
    stop = true; (void)stop; markNontrivial();
    // faults stop: new clients are accepted promptly
    cfg.p_acceptfail = 0; cfg.p_eintr = 0; cfg.p_again = 0; e.sn->max_fds = 1024; for (auto f : fibers()) f->sig_at = NEVER;
    sleepFor(1 * SEC);
    Client* k = nullptr; CR* r = nullptr; bool ok = false;
    call(e.cn, "late", 60 * SEC, [&] { k = L([] { return new Client(); }); ok = connectTo(k, a, 10); r = crOf(k); if (ok) { push(r, genSpec(++W->uid, 1)); Request* q = pull(r, 5); if (q) freeReq(q); else ok = false; } });
    e.cl.push_back(k);
    EXPECT("P18", "not-accepting", ok, "after the faults the server does not serve a new client");
    EXPECT("P18", "disturbed", !gs->disconnectedCalls && !good->disconnectedCalls, "an undisturbed connection ended");
    withConn(good, "state", [&](Connection* c) { EXPECT("P18", "disturbed", L([&] { return c->IsConnected() && !c->IsDisconnecting(); }), "an undisturbed connection ended"); });
    checkDirection("good client", good, gs, true); 
    end(e);
}
