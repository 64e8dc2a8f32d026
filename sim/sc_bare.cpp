// Connections the application makes itself from descriptors it accepted or connected (the public constructor).
#include "harness.hpp"
#include "kernel.hpp"
#include <algorithm>
using namespace H;

void scBare() {
    Env e; begin(e, FAST | FAULTY | (pick(ST_CFG, 3) == 2 ? SMALLBUF : 0), 4); Addr a = e.a; bool bothBare = pick(ST_WORK, 3) == 2;
    bool bh = pick(ST_WORK, 2), ch = pick(ST_WORK, 2); u32 sa = pick(ST_WORK, 3), na = 2 + pick(ST_WORK, 3); Connection* k = nullptr; CR *b = nullptr, *c = nullptr; int lfd = -1; bool early = pick(ST_WORK, 3) == 0;
    enum { NONE, FORCED, GRACEFUL, PEERFORCED, PEERGRACEFUL, RESET, DESTROY, KILL, SILENCE }; u32 ending = pick(ST_WORK, 9);
    auto prep = [&](Connection* x, bool h, int n) { setBlocks(x); L([&] { x->SetMaxRequestSize(200000); x->SetOurSaInterval(sa ? 1 : 10); x->SetTheirNaIntervalLimit(sa ? na : 60); if (h) x->SetHandlerDefault(handler(n)); }); };
    auto wrap = [&](Node* n, int fd, bool h, int hn) -> CR* {
        Link* l = getSock(fd, "raw")->link; u32 id = l ? l->id : 0; Connection* x = L([&] { return new Connection(fd); }); CR* r = newCR(x, n, false); r->link = id; r->t_connected = now_ns;
        EXPECT("P19 P02", "not-connected", L([&] { return x->IsConnected() && !x->IsDisconnecting(); }) || (l && l->net_reset), "a connection made from a connected descriptor is not connected");
        prep(x, h, hn); return r;
    };
    call(e.sn, "raw-listen", 5 * SEC, [&] { lfd = rlisten(a); });
    Task t0 = start(e.cn, "connect", [&] {
        if (bothBare) { int fd = rconnect(a); if (fd < 0) violate("connect-failed", "a raw connect to a raw listener failed"); c = wrap(e.cn, fd, ch, 1); }
        else { Client* q = L([] { return new Client(); }); e.cl.push_back(q); prep(q, ch, 1); if (!connectTo(q, a, 10)) violate("connect-failed", "connect to a raw listener failed"); c = crOf(q); }
        if (early) for (int i = 0; i < 3; i++) push(c, genSpec(++W->uid, 1));
    });
    call(e.sn, "accept", 30 * SEC, [&] { int fd = raccept(lfd); if (pick(ST_WORK, 4) == 0) nap(1 * SEC); b = wrap(e.sn, fd, bh, 0); k = b->c; }); finish(t0, 40 * SEC); 
    Link* l = linkById(c->link); if (!l) violate("harness", "no link"); bool stop = false; std::vector<Task> t, pl, wt; Connection* cc = c->c;
    call(e.sn, "type", 5 * SEC, [&] { u32 ty = L([&] { return k->GetType(); }); EXPECT("P19", "wrong-type", ty == (a.tcp ? D::SocketTypeTcp : D::SocketTypeUnix), "the type of an accepted connection is wrong"); });
    if (!ch) pl.push_back(puller(c, &stop)); if (!bh || early) pl.push_back(puller(b, &stop));
    u32 m = std::min(std::min(W->sendBlock(k), W->recvBlock(k)), std::min(W->sendBlock(cc), W->recvBlock(cc))); m = std::min(m, std::min(cfg.sndbuf, cfg.rcvbuf)); if (cfg.p_seg > 0.2) m = std::min(m, 40u); int size = m < 8 ? 0 : m < 200 ? 1 : 2;
    u32 nb = pick(ST_WORK, 3), nc = pick(ST_WORK, 3); int n = 1 + (int)pick(ST_WORK, 6); u64 gap = pick(ST_WORK, 2) ? 50 * MS : 1 * MS;
    for (u32 i = 0; i < nb; i++) t.push_back(pusher(b, n, size, gap)); for (u32 i = 0; i < nc; i++) t.push_back(pusher(c, n, size, gap));
    if (pick(ST_WORK, 4) == 0) wt.push_back(waiter(b));
    // handles work for these connections as well
    bool held = pick(ST_WORK, 3) == 0; u64 hold = (u64)pick(ST_WORK, 3000) * MS; u64 released = 0; bool taken = false; Task hd{};
    if (held) { hd = start(e.sn, "holder", [&] { D::SafeConnection* h = L([&] { return new D::SafeConnection(k); }); taken = true; sleepFor(hold); push(b, genSpec(++W->uid, 0)); L([&] { k->GetType(); }); released = seqno(); L([&] { delete h; }); }); waitFor([&] { return taken; }, 10 * SEC); }
    if (pick(ST_WORK, 2)) for (auto& x : t) finish(x, 60 * SEC); else sleepFor((u64)pick(ST_WORK, 3000) * US * 10);
    u64 called = NEVER; u64 callTime = now_ns; bool cliGone = false;
    auto both = [&] { return b->got.size() >= c->pushed.size() && c->got.size() >= b->pushed.size(); };
    markNontrivial();
    if (ending == NONE) {
        for (auto& x : t) finish(x, 60 * SEC); if (held) finish(hd, 30 * SEC); for (auto& x : wt) if (!done(x)) { sleepFor(11 * SEC); break; }
        bool w = false; for (auto& x : wt) if (!done(x)) w = true;          // it waits for good
        waitFor(both, 60 * SEC); sleepFor(10 * SEC * pick(ST_WORK, 2));
        EXPECT("P01 P08", "lost", both(), "%zu of %zu and %zu of %zu requests arrived", b->got.size(), c->pushed.size(), c->got.size(), b->pushed.size());
        call(e.sn, "state", 5 * SEC, [&] { EXPECT("P05 P01", "connection-lost", L([&] { return k->IsConnected() && !k->IsDisconnecting(); }), "the connection ended although nothing went wrong"); });
        (void)w; bool plain = !(bh && early); checkDirection("to the accepted end", c, b, true, plain); checkDirection("from the accepted end", b, c, true); if (!bothBare) checkIds(c, b);
        ending = pick(ST_WORK, 2) ? FORCED : DESTROY;
    }
    // the end. Pullers of an object are gone before it is destroyed
    auto stopPulls = [&] { stop = true; for (auto& x : pl) if (x.f->node->alive) finish(x, 60 * SEC); };
    if (ending == DESTROY) { stopPulls(); for (auto& x : t) finish(x, 60 * SEC); for (auto& x : wt) if (!done(x)) { call(e.sn, "end-first", 20 * SEC, [&] { Lib y; k->Disconnect(true, false); }); break; } for (auto& x : wt) finish(x, 20 * SEC); if (held) finish(hd, 30 * SEC); }
    callTime = now_ns; u64 s0 = stalledTotal();
    switch (ending) {
        case FORCED: case GRACEFUL: { bool w = pick(ST_WORK, 2); Task d = start(e.sn, "disconnect", [&] { called = seqno(); u64 dd = timed([&] { Lib x; k->Disconnect(ending == FORCED, w); }); if (!w || ending == FORCED) EXPECT("P04 P03 P11", "slow-disconnect", dd <= 1 * SEC + (w && held ? hold : 0), "Disconnect took %.3f s", dd / 1e9);
            if (w) { EXPECT("P04 P03", "still-connected", !L([&] { return k->IsConnected(); }), "a connection says connected after its end has been waited for"); if (held) EXPECT("P14", "ended-while-held", released != 0, "the wait for the end returned while a handle was still held"); } }); finish(d, 120 * SEC); break; }
        case PEERFORCED: case PEERGRACEFUL: call(e.cn, "peer-disconnect", 120 * SEC, [&] { Lib x; cc->Disconnect(ending == PEERFORCED, false); }); break;
        case RESET: if (a.tcp) netReset(l); else call(e.cn, "peer-disconnect", 20 * SEC, [&] { Lib x; cc->Disconnect(true, false); }); break;
        case KILL: if (e.cn != e.sn && sa) { killNode(e.cn, pick(ST_WORK, 2)); cliGone = true; } else call(e.cn, "peer-disconnect", 20 * SEC, [&] { Lib x; cc->Disconnect(true, false); }); break;
        case SILENCE: if (a.tcp && sa) { netBlock(l, 0, NEVER); netBlock(l, 1, NEVER); } else call(e.sn, "disconnect", 20 * SEC, [&] { Lib x; k->Disconnect(true, false); }); break;
    }
    bool gone = false;
    auto destroy = [&] { u64 d = timed([&] { Lib x; delete k; }); gone = true; EXPECT("P04 P11", "slow-destroy", d <= 1 * SEC, "destroying a connection took %.3f s", d / 1e9); };
    if (ending == DESTROY) call(e.sn, "destroy", 20 * SEC, destroy);
    else {
        u64 lim = ending == SILENCE || ending == KILL ? na + 1 : ending == GRACEFUL || ending == PEERGRACEFUL ? 60 : 2; lim = lim * SEC + (held ? hold : 0);
        call(e.sn, "wait-end", 200 * SEC, [&] {
            bool ok = L([&] { return k->WaitForStop(100); }); u64 d = since(callTime, s0);
            EXPECT("P04 P03 P06 P02", "no-end", ok, "the end of the connection was not noticed"); EXPECT("P04 P06 P02", "late-end", d <= lim, "the end of the connection was noticed %.3f s after its cause", d / 1e9);
            if (held) EXPECT("P14", "ended-while-held", released != 0, "the wait for the end returned while a handle was still held");
            EXPECT("P04 P02", "still-connected", !L([&] { return k->IsConnected() || k->IsDisconnecting(); }) && L([&] { return k->GetType(); }) == D::SocketTypeUndefined, "an ended connection says connected");
        });
        for (auto& x : t) if (x.f->node->alive) finish(x, 60 * SEC); for (auto& x : wt) finish(x, 20 * SEC); if (held) finish(hd, 20 * SEC);
        stopPulls();
        call(e.sn, "after", 30 * SEC, [&] {
            for (int to : {0, 1, -1}) { bool ok = false; u64 d = timed([&] { ok = L([&] { return k->WaitForStop(to); }); }); EXPECT("P04", "end-not-reported", ok && d < 100 * MS, "waiting for the end of an ended connection returned %d after %.3f s", ok, d / 1e9); }
            while (Request* r = pull(b, pick(ST_WORK, 2) ? 0 : -1)) freeReq(r);
            push(b, genSpec(++W->uid, 1));
            if (pick(ST_WORK, 2)) destroy();
        });
    }
    if (!cliGone) {
        Connection* x = cc; call(e.cn, "peer-end", 200 * SEC, [&] { bool ok = L([&] { return x->WaitForStop(100); }); EXPECT("P02 P04 P06", "no-end", ok, "the other end did not notice the end of the connection"); });
        stopPulls(); call(e.cn, "peer-rest", 20 * SEC, [&] { while (Request* r = pull(c, 0)) freeReq(r); if (bothBare) L([&] { delete x; }); });
    }
    bool plain = !(bh && early); checkDirection("to the accepted end", c, b, false, plain); checkDirection("from the accepted end", b, c, false);
    if (ending == GRACEFUL && !cliGone) { std::unordered_set<u64> got; for (auto& d : c->got) got.insert(d.uid); for (auto& p : b->pushed) if (p.ret < called && !got.count(p.uid)) vio("P03", "not-flushed", "request %llu was pushed before the graceful disconnect but never arrived", (unsigned long long)p.uid); }
    if (!gone) call(e.sn, "destroy", 20 * SEC, destroy);
    closeFd(e.sn, lfd); end(e);
}
