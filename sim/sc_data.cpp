// Scenarios about the data stream: delivery, breaks, graceful and forced disconnects.
#include "harness.hpp"
#include <algorithm>
using namespace H;

static int sizeFor(CR* a, CR* b) {      // tiny blocks and big requests together cost too many steps
    u32 m = std::min(W->sendBlock(a->c), W->recvBlock(b->c));
    m = std::min(m, std::min(cfg.sndbuf, cfg.rcvbuf)); if (cfg.p_seg > 0.2) m = std::min(m, 40u);
    return m < 8 ? 0 : m < 40 ? 1 : m < 200 ? 2 : m < 1000 ? 3 : 4;
}
// ---------------------------------------------------------------- healthy connection, all delivered
void scStream() {
    Env e; int fl = FAST | FAULTY; if (pick(ST_CFG, 3) == 2) fl |= SMALLBUF;
    begin(e, fl);
    bool srvHandlers = pick(ST_WORK, 2) == 0, cliHandlers = pick(ST_WORK, 2) == 0; u32 sa = pick(ST_WORK, 4);
    W->onConnected = [&](Server*, CR* r) {
        setBlocks(r->c); L([&] { r->c->SetMaxRequestSize(200000); if (sa == 3) r->c->SetOurSaInterval(1); if (srvHandlers) r->c->SetHandlerDefault(handler(0)); });
        if (pick(ST_WORK, 4) == 3) push(r, genSpec(++W->uid, 1));
    };
    startServer(e);
    CR* c = addClient(e, [&](Client* k) { setBlocks(k); L([&] { k->SetMaxRequestSize(200000); if (sa >= 2) k->SetOurSaInterval(1); if (cliHandlers) k->SetHandlerDefault(handler(1)); }); });
    CR* s = accepted(c);
    int up = sizeFor(c, s), dn = sizeFor(s, c); bool stop = false; std::vector<Task> t, pl;
    if (!srvHandlers) { u32 n = 1 + pick(ST_WORK, 3); for (u32 i = 0; i < n; i++) pl.push_back(puller(s, &stop)); }
    if (!cliHandlers) { u32 n = 1 + pick(ST_WORK, 3); for (u32 i = 0; i < n; i++) pl.push_back(puller(c, &stop)); }
    u32 a = pick(ST_WORK, 4), b = pick(ST_WORK, 4); if (!a && !b) a = 1;
    u64 gap = pick(ST_WORK, 3) == 2 ? 2 * SEC : 5 * MS; int n = 1 + (int)pick(ST_WORK, 8);
    if (srvHandlers && pick(ST_WORK, 3) == 2) { auto left = std::make_shared<int>(6); s->hook = [left](CR* k, Request*, int) { if ((*left)-- > 0) push(k, genSpec(++W->uid, 1)); else nap(3 * MS); }; }
    for (u32 i = 0; i < a; i++) t.push_back(pusher(c, n, up, gap, true));
    for (u32 i = 0; i < b; i++) t.push_back(pusher(s, n, dn, gap, true));
    for (auto& x : t) finish(x, 120 * SEC);
    if (pick(ST_WORK, 4) == 3) { sleepFor((u64)(1 + pick(ST_WORK, 5)) * SEC); push_late: t.clear(); t.push_back(pusher(c, 2, up, gap)); for (auto& x : t) finish(x, 120 * SEC); }
    bool all = waitFor([&] { return !s->inHandler && !c->inHandler && s->got.size() >= c->pushed.size() && c->got.size() >= s->pushed.size(); }, 120 * SEC);
    (void)all;
    sleepFor(100 * MS); stop = true;
    for (auto& x : pl) finish(x, 60 * SEC);
    markNontrivial();
    if (c->disconnectedCalls + s->disconnectedCalls) vio("P01 P05 P08", "connection-lost", "the connection ended although nothing went wrong");
    checkDirection("client to server", c, s, true); checkDirection("server to client", s, c, true); checkIds(c, s);
    for (auto k : {c, s}) for (auto& d : k->got) if (d.canon.compare(0, 4, "1:_(") == 0) vio("P01 P05", "keep-alive-delivered", "a keep-alive message was delivered");
    end(e);
}
// one puller at a time removes in push order, many pullers split the stream; linearizability of the queue
void scQueue() {
    Env e; begin(e, FAULTY);
    bool up = pick(ST_WORK, 2) == 0;
    startServer(e); CR* c = addClient(e); CR* s = accepted(c);
    CR *f = up ? c : s, *t = up ? s : c; bool stop = false; std::vector<Task> ps, pl;
    u32 np = 1 + pick(ST_WORK, 4), nq = 1 + pick(ST_WORK, 4); int n = 2 + (int)pick(ST_WORK, 8); u64 gap = pick(ST_WORK, 3) == 2 ? 100 * MS : 1 * MS;
    for (u32 i = 0; i < nq; i++) pl.push_back(puller(t, &stop, (int)pick(ST_WORK, 3) - 1));
    for (u32 i = 0; i < np; i++) ps.push_back(pusher(f, n, 1, gap));
    for (auto& x : ps) finish(x, 60 * SEC);
    waitFor([&] { return t->got.size() >= f->pushed.size(); }, 60 * SEC);
    stop = true; for (auto& x : pl) finish(x, 60 * SEC);
    markNontrivial();
    checkDirection("queue", f, t, true);
    // FIFO, real-time form: if push(x) returned before push(y) was called, pull(y) must not have returned before pull(x) was called
    std::unordered_map<u64, const PushRec*> by; for (auto& p : f->pushed) by[p.uid] = &p;
    for (auto& x : t->got) for (auto& y : t->got) {
        auto px = by.find(x.uid), py = by.find(y.uid); if (px == by.end() || py == by.end()) continue;
        if (px->second->ret < py->second->call && y.seq < x.seq_call) vio("P08", "not-fifo", "request %llu was pulled before %llu although it was pushed later", (unsigned long long)y.uid, (unsigned long long)x.uid);
    }
    // per puller strictly in order
    std::map<u32, std::vector<const DelRec*>> per; for (auto& d : t->got) per[d.fiber].push_back(&d);
    for (auto& k : per) for (size_t i = 1; i < k.second.size(); i++) {
        auto px = by.find(k.second[i]->uid), py = by.find(k.second[i - 1]->uid);
        if (px != by.end() && py != by.end() && px->second->ret < py->second->call) vio("P08", "not-fifo", "one thread pulled %llu after %llu, which was pushed later", (unsigned long long)px->first, (unsigned long long)py->first);
    }
    checkIds(c, s);
    end(e);
}
// ---------------------------------------------------------------- breaks and sessions
void scBreak() {
    Env e; begin(e, FAST | FAULTY | (pick(ST_CFG, 4) == 3 ? SMALLBUF : 0), 0);
    bool srvHandlers = pick(ST_WORK, 2) == 0, cliHandlers = pick(ST_WORK, 2) == 0; u32 na = 2 + pick(ST_WORK, 3);
    W->onConnected = [&](Server*, CR* r) { setBlocks(r->c); L([&] { r->c->SetMaxRequestSize(200000); r->c->SetTheirNaIntervalLimit(na); r->c->SetOurSaInterval(1); if (srvHandlers) r->c->SetHandlerDefault(handler(0)); }); };
    auto prep = [&](Client* k) { setBlocks(k); L([&] { k->SetMaxRequestSize(200000); k->SetTheirNaIntervalLimit(na); k->SetOurSaInterval(1); if (cliHandlers) k->SetHandlerDefault(handler(1)); }); };
    startServer(e); CR* c = addClient(e, prep); Client* k = e.cl[0];
    u32 sessions = 1 + pick(ST_WORK, 3); std::vector<std::pair<CR*, CR*>> done; u32 firstId[2] = {0, 0};
    for (u32 n = 0;; n++) {
        CR* s = pick(ST_WORK, 3) ? accepted(c) : nullptr; bool last = n == sessions;
        bool stop = false; std::vector<Task> t, pl; int up = s ? sizeFor(c, s) : 1; if (up > 2) up = 2;
        if (last && !s) s = accepted(c);
        if (!cliHandlers && (last || pick(ST_WORK, 3))) pl.push_back(puller(c, &stop, (int)pick(ST_WORK, 2)));
        if (s && !srvHandlers && (last || pick(ST_WORK, 2))) pl.push_back(puller(s, &stop, (int)pick(ST_WORK, 2)));
        u64 gap = pick(ST_WORK, 2) ? 20 * MS : 1 * MS;
        u32 a = 1 + pick(ST_WORK, 2), b = s ? pick(ST_WORK, 3) : 0; int cnt = 1 + (int)pick(ST_WORK, 6);
        u64 dead = 0; (void)dead;
        for (u32 i = 0; i < a; i++) t.push_back(pusher(c, cnt, up, gap));
        // the server side pushes only while its connection object lives: from its callback thread's own handle
        std::vector<Task> st;
        for (u32 i = 0; i < b; i++) {
            CR* sr = s; Server* sv = e.s;
            st.push_back(start(e.sn, "srv-push", [=] {
                D::SafeConnection* h = L([&] { return sv->GetConnection(sr->id_connected); });
                if (!h) return;
                Connection* q = L([&] { return &(*h)(); });
                if (q == sr->c) for (int j = 0; j < cnt; j++) { nap(gap); push(sr, genSpec(++W->uid, up)); }
                L([&] { delete h; });
            }));
        }
        if (last) {
            for (auto& x : t) finish(x, 60 * SEC); for (auto& x : st) finish(x, 60 * SEC);
            waitFor([&] { return s->got.size() >= c->pushed.size() && c->got.size() >= s->pushed.size(); }, 90 * SEC);
            stop = true; for (auto& x : pl) finish(x, 60 * SEC);
            markNontrivial();
            checkDirection("client to server, last session", c, s, true); checkDirection("server to client, last session", s, c, true); checkIds(c, s);
            done.push_back({c, s});
            break;
        }
        u32 kind = pick(ST_WORK, 10); std::vector<Task> wt; if (pick(ST_WORK, 4) == 0) wt.push_back(waiter(c)); if (s && kind != 9 && kind != 8 && pick(ST_WORK, 4) == 0) wt.push_back(waiter(s));
        sleepFor((u64)(1 + pick(ST_WORK, 4000)) * (pick(ST_WORK, 2) ? 10 * US : 1 * US));
        Link* l = linkById(c->link);
        if (!l) violate("harness", "no link");
        bool cliGone = false, srvGone = false;
        switch (kind) {
            case 0: case 1: netReset(l); break;
            case 2: t.push_back(start(e.cn, "forced", [k] { Lib x; k->Disconnect(true, pick(ST_WORK, 2)); })); break;
            case 3: t.push_back(start(e.cn, "graceful", [k] { Lib x; k->Disconnect(false, pick(ST_WORK, 2)); })); break;
            case 4: if (s) { CR* sr = s; Server* sv = e.s; st.push_back(start(e.sn, "srv-disc", [=] { D::SafeConnection* h = L([&] { return sv->GetConnection(sr->id_connected); }); if (h) L([&] { (*h)().Disconnect(pick(ST_WORK, 2)); delete h; }); })); if (pick(ST_WORK, 3) == 0) break; } // fall through
            case 5: netBlock(l, (int)pick(ST_WORK, 2), NEVER); stat("fault.partition_forever"); break;
            case 6: netBlock(l, 0, NEVER); netBlock(l, 1, NEVER); break;
            case 7: killNode(e.cn, pick(ST_WORK, 2)); cliGone = true; break;
            case 8: killNode(e.sn, pick(ST_WORK, 2)); srvGone = true; break;
            case 9: { Server* sv = e.s; st.push_back(start(e.sn, "stop", [sv] { Lib x; sv->Stop(negative()); })); srvGone = false; for (auto& x : st) finish(x, 60 * SEC); st.clear(); Addr ad = e.a; W->ids[sv].clear(); call(e.sn, "restart", 10 * SEC, [&] { if (!serverStart(sv, ad)) vio("P17", "restart-failed", "a stopped server could not be started again"); }); break; }
        }
        bool wasUnix = !e.a.tcp;
        if (!srvGone) for (auto& x : st) finish(x, 60 * SEC);
        if (!cliGone) {
            for (auto& x : t) finish(x, 60 * SEC);
            // a partition is noticed by silence in one direction only
            call(e.cn, "wait-end", 120 * SEC, [&] { bool ok = L([&] { return k->WaitForStop(20); }); if (!ok) { Lib x; k->Disconnect(true, true); } });
            stop = true; for (auto& x : pl) finish(x, 60 * SEC);
        }
        if (s && !s->disconnectedCalls && !srvGone && kind != 9) {
            // it hears of it at once, or by silence
            if (!waitFor([&] { return s->disconnectedCalls > 0; }, (u64)(na + 10) * SEC)) vio("P02 P06 P15", "end-not-noticed", "the server did not notice the end of a connection");
        }
        for (auto& x : wt) if (x.f->node->alive) finish(x, 60 * SEC);
        markNontrivial();
        CR* sp = peerOf(c);
        if (sp) { checkDirection("client to server", c, sp, false); checkDirection("server to client", sp, c, false); checkIds(c, sp); done.push_back({c, sp}); }
        if (srvGone) {
            e.sn = addNode("srv2"); e.s = nullptr;
            if (wasUnix) { }                 // the stale socket file of the crashed server is replaced
            startServer(e);
        }
        if (cliGone) { e.cn = addNode("cli2"); e.cl.clear(); c = addClient(e, prep); k = e.cl[0]; }
        else c = reconnect(e, k);
        // numbering starts again in the client's half
    }
    // final look: everything recorded in earlier sessions is still a clean prefix (nothing arrived late)
    for (auto& p : done) if (p.first != c) { checkDirection("client to server, later", p.first, p.second, false); checkDirection("server to client, later", p.second, p.first, false); }
    for (auto& p : done) for (int d = 0; d < 2; d++) {
        CR *f = d ? p.second : p.first, *t = d ? p.first : p.second; if (f->pushed.empty() || t->got.size() != f->pushed.size()) continue;
        u32 m = 0; for (auto& x : t->got) if (!m || x.id < m) m = x.id;
        if (m > 0x50000000u) continue; if (!firstId[d]) firstId[d] = m; else if (m != firstId[d]) vio("P10", "numbering-not-restarted", "the first id of a session is %u, that of another one %u", m, firstId[d]);
    }
    end(e);
}
// ---------------------------------------------------------------- graceful disconnect
void scGraceful() {
    Env e; begin(e, FAST | FAULTY | (pick(ST_CFG, 3) == 2 ? SMALLBUF : 0));
    bool srvHandlers = pick(ST_WORK, 2) == 0, cliHandlers = pick(ST_WORK, 2) == 0; u32 inHandler = pick(ST_WORK, 4); bool fromClient = pick(ST_WORK, 2) == 0, both = pick(ST_WORK, 6) == 5;
    u64 slow = pick(ST_WORK, 4) == 3 ? 400 * MS : 0;
    W->onConnected = [&](Server*, CR* r) { setBlocks(r->c); L([&] { r->c->SetMaxRequestSize(200000); if (srvHandlers) r->c->SetHandlerDefault(handler(0)); }); };
    startServer(e);
    CR* c = addClient(e, [&](Client* k) { setBlocks(k); L([&] { k->SetMaxRequestSize(200000); if (cliHandlers) k->SetHandlerDefault(handler(1)); if (pick(ST_WORK, 4) == 3) k->SetOurSaInterval(1); }); });
    CR* s = accepted(c);
    CR *me = fromClient ? c : s, *he = fromClient ? s : c; int size = sizeFor(me, he), back = std::min(sizeFor(he, me), 1);
    // a handle keeps the server's connection object valid for the application threads
    D::SafeConnection* h = nullptr; Server* sv = e.s;
    call(e.sn, "handle", 10 * SEC, [&] { h = L([&] { return sv->GetConnection(s->id_connected); }); if (!h) violate("lookup-failed", "a live connection was not found by its id"); });
    bool stop = false; std::vector<Task> t, pl;
    if (!srvHandlers) pl.push_back(puller(s, &stop)); if (!cliHandlers) pl.push_back(puller(c, &stop));
    waitFor([&] { return (srvHandlers || s->pulling) && (cliHandlers || c->pulling); }, 60 * SEC);     // (a puller of the server's end has its handle)
    if (slow) he->hook = [slow](CR*, Request*, int) { nap(slow); };
    struct Dis { u64 call = NEVER, ret = NEVER; }; std::map<CR*, Dis> dis;
    auto disconnect = [&dis](CR* x, bool wait) { Dis d; u64 s0 = seqno(); if (!dis.count(x)) { d.call = s0; dis[x] = d; } { Lib l; x->c->Disconnect(false, wait); } if (dis[x].ret == NEVER) dis[x].ret = seqno(); };
    bool hd = inHandler == 3 && (fromClient ? cliHandlers : srvHandlers);
    if (hd) me->hook = [&](CR* x, Request*, int) { push(x, genSpec(++W->uid, 1)); if (!dis.count(x)) disconnect(x, false); };
    u32 np = pick(ST_WORK, 4), nb = pick(ST_WORK, 3); int n = (int)pick(ST_WORK, 10); u64 gap = pick(ST_WORK, 2) ? 10 * MS : 100 * US;
    for (u32 i = 0; i < np; i++) t.push_back(pusher(me, n, size, gap));
    for (u32 i = 0; i < nb; i++) t.push_back(pusher(he, (int)pick(ST_WORK, 5), back, gap));
    if (hd && !nb) t.push_back(pusher(he, 1, 0, gap));
    u32 when = pick(ST_WORK, 3); if (when == 0) for (auto& x : t) finish(x, 60 * SEC); else if (when == 1) sleepFor((u64)pick(ST_WORK, 3000) * 10 * US);
    if (when == 2 && pick(ST_WORK, 2)) waitFor([&] { return he->got.size() >= me->pushed.size(); }, 60 * SEC), sleepFor(50 * MS);   // nothing left to send
    bool w = pick(ST_WORK, 2);
    std::vector<Task> dt, wt; if (pick(ST_WORK, 5) == 0) wt.push_back(waiter(pick(ST_WORK, 2) ? me : he));
    // the server's side is held by a handle, its owner must not wait for the end
    if (!hd) dt.push_back(start(me->node, "graceful", [&] { disconnect(me, me == c && w); }));
    if (pick(ST_WORK, 4) == 3) dt.push_back(start(me->node, "graceful2", [&] { nap(20 * MS); disconnect(me, false); }));
    if (both) dt.push_back(start(he->node, "graceful-peer", [&] { nap(20 * MS); disconnect(he, false); }));
    for (auto& x : t) finish(x, 90 * SEC);
    // two pushes that are surely too late
    if (hd) waitFor([&] { return dis.count(me) && dis[me].ret != NEVER; }, 30 * SEC);
    for (auto& x : dt) if (x.what != "graceful" || !(me == c && w)) finish(x, 90 * SEC);
    if (dis.count(me)) { Task x = start(me->node, "late-push", [&] { push(me, genSpec(++W->uid, 0)); push(me, genSpec(++W->uid, 0)); }); finish(x, 20 * SEC); }
    call(e.sn, "unhandle", 10 * SEC, [&] { Lib l; delete h; });
    for (auto& x : dt) finish(x, 120 * SEC);
    if (!dis.count(me)) for (auto& x : wt) if (!done(x)) { call(e.cn, "force", 10 * SEC, [&] { Lib y; c->c->Disconnect(true, false); }); break; }
    for (auto& x : wt) finish(x, 120 * SEC);
    if (dis.count(me)) {
        markNontrivial();
        bool ended = false;
        call(e.cn, "wait-end", 200 * SEC, [&] { ended = L([&] { return c->c->WaitForStop(100); }); });
        EXPECT("P03", "no-end", ended, "the client did not see the end within 100 s of a graceful disconnect");
        EXPECT("P03 P15", "no-end", waitFor([&] { return s->disconnectedCalls > 0; }, 100 * SEC), "the server did not see the end within 100 s of a graceful disconnect");
        stop = true; for (auto& x : pl) finish(x, 60 * SEC);
        // pulls of what was received before the end (server objects are gone)
        if (!cliHandlers) call(e.cn, "drain", 20 * SEC, [&] { while (Request* r = pull(c, 0)) freeReq(r); });
        checkDirection("disconnecting side to peer", me, he, false); checkDirection("peer to disconnecting side", he, me, false); checkIds(c, s);
        std::unordered_set<u64> got; for (auto& d : he->got) got.insert(d.uid);
        if (!both) for (auto& p : me->pushed) {
            if (p.ret < dis[me].call && !got.count(p.uid)) vio("P03", "not-flushed", "request %llu was pushed before the graceful disconnect but never arrived (%zu of %zu did)", (unsigned long long)p.uid, he->got.size(), me->pushed.size());
            if (p.call > dis[me].ret && got.count(p.uid)) vio("P03", "pushed-after", "request %llu was pushed after the graceful disconnect had been requested, and still arrived", (unsigned long long)p.uid);
        }
    } else { stop = true; for (auto& x : pl) finish(x, 60 * SEC); }
    end(e);
}

// ---------------------------------------------------------------- forced disconnect
void scForced() {
    Env e; begin(e, FAST | FAULTY | (pick(ST_CFG, 2) ? SMALLBUF : 0));
    bool victimIsClient = pick(ST_WORK, 2) == 0, rawPeer = pick(ST_WORK, 2) == 0;
    Node* pn = addNode("raw"); e.s = nullptr; CR *c = nullptr, *s = nullptr, *v = nullptr; int fd = -1; D::SafeConnection* h = nullptr;
    bool handlers = pick(ST_WORK, 3) == 0; u32 complete = 0;
    W->onConnected = [&](Server*, CR* r) { setBlocks(r->c); L([&] { r->c->SetMaxRequestSize(200000); if (handlers && !victimIsClient) r->c->SetHandlerDefault(handler(0)); }); };
    // a raw listener plays the server for a client victim
    if (victimIsClient && rawPeer) {
        int lfd = -1; Addr a = e.a;
        call(pn, "raw-listen", 5 * SEC, [&] { lfd = rlisten(a); });
        Client* k = nullptr;
        Task t = start(e.cn, "connect", [&] { k = L([] { return new Client(); }); setBlocks(k); if (handlers) L([&] { k->SetHandlerDefault(handler(1)); }); if (!connectTo(k, a, 10)) violate("connect-failed", "connect to a raw listener failed"); });
        call(pn, "raw-accept", 20 * SEC, [&] { fd = raccept(lfd); });
        finish(t, 30 * SEC); e.cl.push_back(k); c = crOf(k); v = c;
    } else {
        startServer(e);
        if (rawPeer) { Addr a = e.a; call(pn, "raw-connect", 20 * SEC, [&] { fd = rconnect(a); if (fd < 0) violate("connect-failed", "raw connect failed"); });
            if (!waitFor([&] { return !W->all.empty() && W->all.back()->connectedDone; }, 10 * SEC)) violate("not-accepted", "the connected callback did not run"); s = W->all.back().get(); v = s; }
        else { c = addClient(e, [&](Client* k) { setBlocks(k); if (handlers) L([&] { k->SetHandlerDefault(handler(1)); }); }); s = accepted(c); v = victimIsClient ? c : s; }
    }
    bool isC = v == c; Server* sv = e.s;
    bool useHandle = !isC; if (useHandle) call(v->node, "handle", 10 * SEC, [&] { h = L([&] { return sv->GetConnection(v->id_connected); }); if (!h) violate("lookup-failed", "a live connection was not found"); });
    Link* l = links().back(); Connection* vc = v->c;
    std::vector<Task> bg;
    // what is going on when the disconnect comes
    u32 state = pick(ST_WORK, 8);
    if (state & 1) {        // backlog towards a peer that may not read
        int n = 1 + (int)pick(ST_WORK, 12); bg.push_back(start(v->node, "backlog", [=] { for (int i = 0; i < n; i++) push(v, genSpec(++W->uid, (int)pick(ST_WORK, 4))); }));
    }
    if (rawPeer) {
        std::string b; u32 n = pick(ST_WORK, 4); for (u32 i = 0; i < n; i++) b += encode(genSpec(++W->uid, 1), 2 * i + 2); complete = n;
        std::string f = encode(genSpec(++W->uid, 1), 100); if (pick(ST_WORK, 2)) b += f.substr(0, pick(ST_WORK, (u32)f.size()));
        if (pick(ST_WORK, 3) == 0) { b.clear(); complete = 0; }
        call(pn, "raw-send", 60 * SEC, [&] { rsend(fd, b); });
    } else if (pick(ST_WORK, 2)) { CR* p = v == c ? s : c; bg.push_back(pusher(p, 1 + (int)pick(ST_WORK, 6), 1, 2 * MS)); }
    bool quiet = pick(ST_WORK, 2); if (quiet) { for (auto& x : bg) finish(x, 60 * SEC); sleepFor(3 * SEC); }
    else sleepFor((u64)pick(ST_WORK, 3000) * US);
    switch (pick(ST_WORK, 5)) { case 1: netBlock(l, 0, NEVER); netBlock(l, 1, NEVER); break; case 2: netBlock(l, (int)pick(ST_WORK, 2), NEVER); break; case 3: if (rawPeer) killNode(pn, pick(ST_WORK, 3) != 2); break; case 4: if (pn->alive && rawPeer && fd >= 0 && pick(ST_WORK, 2)) closeFd(pn, fd), fd = -1; break; }
    if (pick(ST_WORK, 4) == 3) { bg.push_back(start(v->node, "graceful-first", [=] { Lib x; vc->Disconnect(false, false); })); if (pick(ST_WORK, 2)) finish(bg.back(), 10 * SEC), sleepFor((u64)pick(ST_WORK, 2000) * MS); }
    u32 callers = 1 + pick(ST_WORK, 3), how = pick(ST_WORK, 4);      // 0: wait in the call, 1: wait separately, 2: destroy, 3: from a handler or several times
    std::vector<Task> ds; u64 tcall = NEVER, worst = 0; u32 ended = 0;
    if (!isC && how == 2) how = 1;
    if (how == 2) callers = 1;
    markNontrivial();
    if (how == 2) for (auto& x : bg) finish(x, 60 * SEC);
    else if (pick(ST_WORK, 3) == 0) { Task w = waiter(v); if (pick(ST_WORK, 3)) sleepFor((u64)pick(ST_WORK, 2000) * MS); bg.push_back(w); }
    for (u32 i = 0; i < callers; i++) ds.push_back(start(v->node, "forced", [&, i] {
        nap(i ? 2 * MS : 1); if (now_ns < tcall) tcall = now_ns;
        u64 d;
        if (how == 2) { Client* k = e.cl[0]; d = timed([&] { Lib x; delete k; }); if (d > worst) worst = d; return; }
        bool wait = isC && how == 0;
        d = timed([&] { Lib x; vc->Disconnect(true, wait); if (how == 3) vc->Disconnect(true, false); }); if (d > worst) worst = d;
        if (wait) { ended++; EXPECT("P04", "still-connected", !L([&] { return vc->IsConnected(); }), "the connection still says connected after a forced disconnect has been waited for"); }
        if (isC) {
            bool ok = false; d = timed([&] { ok = L([&] { return vc->WaitForStop(pick(ST_WORK, 2) ? 5 : -1); }); }); if (d > worst) worst = d;
            EXPECT("P04", "no-end", ok, "a forced disconnect did not end the connection");
        }
    }));
    for (auto& x : ds) finish(x, 60 * SEC);
    for (auto& x : bg) finish(x, 60 * SEC);
    EXPECT("P04", "slow-disconnect", worst <= 1 * SEC, "a forced disconnect took %.3f s", worst / 1e9);
    if (how == 2) { e.cl.clear(); end(e); return; }
    if (isC) {
        call(v->node, "after", 30 * SEC, [&] {
            EXPECT("P04", "still-connected", !L([&] { return vc->IsConnected(); }) && !L([&] { return vc->IsDisconnecting(); }) && L([&] { return vc->GetType(); }) == D::SocketTypeUndefined, "the connection still says connected or disconnecting after its end");
            for (int t : {0, 1, -1}) { bool ok = false; u64 d = timed([&] { ok = L([&] { return vc->WaitForStop(t); }); }); EXPECT("P04", "end-not-reported", ok && d < 100 * MS, "waiting (timeout %d) for the end of an ended connection returned %d after %.3f s", t, ok, d / 1e9); }
            for (int m = 0; m < 3; m++) push(v, genSpec(++W->uid, 1), m);
            u64 d = timed([&] { Lib x; vc->Disconnect(true, true); vc->Disconnect(false, true); });
            EXPECT("P04", "slow-disconnect", d < 100 * MS, "disconnecting an ended connection took %.3f s", d / 1e9);
            if (!handlers && rawPeer) {
                u32 n = 0; for (;;) { Request* r = pull(v, 0); if (!r) break; n++; freeReq(r); }
                if (quiet) EXPECT("P04 P07", "received-lost", n == complete, "%u of %u requests received before the disconnect could be pulled after it", n, complete);
            }
        });
    } else {
        // what was received before can still be pulled while the handle is held
        call(v->node, "after", 30 * SEC, [&] {
            if (!handlers && rawPeer) { u32 n = 0; for (;;) { Request* r = pull(v, pick(ST_WORK, 2) ? 0 : -1); if (!r) break; n++; freeReq(r); } if (quiet) EXPECT("P04 P07", "received-lost", n == complete, "%u of %u requests received before the disconnect could be pulled after it", n, complete); }
            if (h) L([&] { delete h; });
        });
        EXPECT("P04 P14 P15", "no-end", waitFor([&] { return v->disconnectedCalls > 0; }, 1 * SEC), "a forced disconnect did not end the connection within a second");
    }
    if (fd >= 0 && pn->alive) closeFd(pn, fd);
    if (!rawPeer && c && s) { CR* o = v == c ? s : c; checkDirection("to the other side", v, o, false); checkDirection("from the other side", o, v, false); }
    end(e);
}
