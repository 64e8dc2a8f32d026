// Scenarios about time: keep-alive, silent peers, blocking pulls, sleeping threads.
#include "harness.hpp"
#include <algorithm>
using namespace H;

// less than a second counts as a second
static time_t iv(int s) { static const time_t LESS[] = {1, 1, 0, -1, -1000}; return s == 1 ? LESS[pick(ST_WORK, 5)] : s; }
static void setIv(CR* r, int sa, int na, bool saFirst) {
    withConn(r, "intervals", [=](Connection* c) {
        if (saFirst && sa) L([&] { c->SetOurSaInterval(iv(sa)); });
        if (na) L([&] { c->SetTheirNaIntervalLimit(iv(na)); });
        if (!saFirst && sa) L([&] { c->SetOurSaInterval(iv(sa)); });
    });
}
// ---------------------------------------------------------------- idle connections stay up (P05)
void scKeepalive() {
    Env e; begin(e, FAST | FAULTY); cfg.stall_budget = 300 * MS; cfg.max_stall_exp = std::min(cfg.max_stall_exp, 17u);
    static const double R[] = {1, 1.015, 0.985};
    e.sn->rate = R[pick(ST_CFG, 3)]; if (e.cn != e.sn) e.cn->rate = R[pick(ST_CFG, 3)];
    u32 jumps = pick(ST_FAULT, 4); for (u32 i = 0; i < jumps; i++) { Node* n = pick(ST_FAULT, 2) ? e.sn : e.cn; i64 d = ((i64)pick(ST_FAULT, 4000) - 2000) * (i64)SEC; at(now_ns + (u64)pick(ST_FAULT, 60) * SEC, [n, d] { n->wall_offset += d; stat("fault.clock_jump"); }); }
    // k: our interval, limit at the other side; slack of at least a second
    auto gen = [](int& sa, int& na) { u32 k = pick(ST_WORK, 6); if (k == 5) { sa = 10; na = 60; } else { sa = 1 + (int)pick(ST_WORK, 4); na = sa + 1 + (int)pick(ST_WORK, 3); } };
    int sa[2], na[2]; gen(sa[0], na[1]); gen(sa[1], na[0]);
    static const int BIG[] = {66000, 2200000, 4295000, 8600000}; bool slow = pick(ST_WORK, 12) == 11; int base = 1;      // intervals that overflow small units
    if (slow) { base = BIG[pick(ST_WORK, 4)]; sa[0] = base + (int)pick(ST_WORK, 1000); sa[1] = base; na[0] = na[1] = 2 * base + (int)pick(ST_WORK, 1000); stat("work.long_intervals"); cfg.max_time = 1000000000ull * SEC; }
    bool def = !slow && pick(ST_WORK, 5) == 4; if (def) { sa[0] = sa[1] = 10; na[0] = na[1] = 60; }
    bool handlers[2] = {slow || pick(ST_WORK, 2) == 1, slow || pick(ST_WORK, 2) == 1}; bool late = pick(ST_WORK, 3) == 2;
    W->onConnected = [&](Server*, CR* r) { setBlocks(r->c); L([&] { if (handlers[1]) r->c->SetHandlerDefault(handler(1)); if (!def && !late) { r->c->SetTheirNaIntervalLimit(iv(na[1])); r->c->SetOurSaInterval(iv(sa[1])); } }); };
    startServer(e);
    u32 n = 1 + pick(ST_WORK, 2); std::vector<std::pair<CR*, CR*>> cs;
    for (u32 i = 0; i < n; i++) {
        CR* c = addClient(e, [&](Client* k) { setBlocks(k); L([&] { if (handlers[0]) k->SetHandlerDefault(handler(0)); if (!def && !late) { k->SetOurSaInterval(iv(sa[0])); k->SetTheirNaIntervalLimit(iv(na[0])); } }); });
        CR* s = accepted(c);
        if (pick(ST_WORK, 3) == 2) {      // not its first session
            u32 how = pick(ST_WORK, 3); stat("work.second_session"); if (pick(ST_WORK, 2)) call(e.cn, "talk", 10 * SEC, [&] { push(c, genSpec(++W->uid, 1)); });
            if (how == 2) withConn(s, "bye", [&](Connection* k) { Lib x; k->Disconnect(false, false); }); else call(e.cn, "bye", 30 * SEC, [&] { Lib x; c->c->Disconnect(how == 1, true); });
            Connection* k = c->c; call(e.cn, "wait-end", 30 * SEC, [&] { L([&] { k->WaitForStop(20); }); });
            c = reconnect(e, (Client*)k); s = accepted(c);
        }
        cs.push_back({c, s});
    }
    if (!def && late) {     // set on the living connection, keep-alives first
        u64 w = (u64)pick(ST_WORK, 25) * SEC; sleepFor(w);
        for (auto& p : cs) { setIv(p.first, sa[0], 0, true); setIv(p.second, sa[1], 0, true); }
        if (pick(ST_WORK, 2)) sleepFor((u64)pick(ST_WORK, 5) * SEC);
        for (auto& p : cs) { setIv(p.first, 0, na[0], true); setIv(p.second, 0, na[1], true); }
    }
    bool stop = false; std::vector<Task> t, pl; u32 traffic = pick(ST_WORK, 4);
    for (auto& p : cs) for (int d = 0; d < 2; d++) {
        CR* f = d ? p.second : p.first; if (!handlers[d]) pl.push_back(puller(f, &stop, d ? 1 : -1));
        if (traffic == (u32)d + 1) t.push_back(pusher(f, 5 + (int)pick(ST_WORK, 40), 1, 3 * SEC));
    }
    // with nothing but keep-alives to receive, any limit that can be set does
    auto limitAll = [&](u32 k) { for (auto& p : cs) for (int d = 0; d < 2; d++) withConn(d ? p.second : p.first, "limit", [&](Connection* c) { L([&] { c->SetMaxRequestSize(k); }); }); };
    static const u32 TINY[] = {0, 1, 10, 11, 12}; u32 tiny = traffic == 0 && pick(ST_WORK, 3) == 0 ? 1 + pick(ST_WORK, 5) : 0; if (tiny) { limitAll(TINY[tiny - 1]); stat("work.tiny_limit"); }
    u32 rounds = 1 + pick(ST_WORK, 4);
    for (u32 r = 0; r < rounds; r++) {
        sleepFor((u64)(1 + pick(ST_WORK, 200)) * SEC / 2 * (slow ? (u64)base / 20 : 1));
        if (!slow && pick(ST_WORK, 16) == 15) { sleepFor(600 * SEC); stat("work.long_idle"); }
        u32 k = slow ? 2 : pick(ST_WORK, 6); auto& p = cs[pick(ST_WORK, (u32)cs.size())];
        if (k <= 1) {           // other intervals, the limit is widened before and tightened after
            int s0 = 1 + (int)pick(ST_WORK, 6), l0 = s0 + 1 + (int)pick(ST_WORK, 4); bool d = k; int cur_sa = sa[d], cur_na = na[!d];
            CR *f = d ? p.second : p.first, *o = d ? p.first : p.second;
            // in the middle of traffic, too: the timers are then restarted from both sides at once
            std::vector<Task> bu; if (!tiny && pick(ST_WORK, 2)) { bu.push_back(pusher(f, 6, 2, 1 * MS)); sleepFor(pick(ST_WORK, 300) * 10 * US); stat("work.interval_change_in_traffic"); }
            setIv(o, 0, std::max(l0, cur_na), true); setIv(f, s0, 0, true); for (auto& x : bu) finish(x, 120 * SEC);
            if (std::max(l0, cur_na) != l0) { sleepFor((u64)pick(ST_WORK, 3) * 500 * MS); setIv(o, 0, l0, true); }
            (void)cur_sa; stat("work.interval_change");
            sa[d] = std::max(sa[d], s0); na[!d] = std::max(l0, cur_na);      // conservative for the other connections
        } else if (k == 2) {    // a hiccup of the network, shorter than the slack
            Link* l = linkById(p.first->link); if (l && l->tcp) { netBlock(l, (int)pick(ST_WORK, 2), now_ns + 250 * MS); stat("fault.net_hiccup"); }
        }
    }
    for (auto& x : t) finish(x, 300 * SEC);
    markNontrivial();
    auto lost = [&] { for (auto& p : cs) if (p.first->disconnectedCalls + p.second->disconnectedCalls) return true; return false; };
    if (lost()) vio("P05", "idle-connection-lost", "a connection between two live endpoints ended: intervals %d/%d, limits %d/%d", sa[0], sa[1], na[1], na[0]);
    if (tiny) limitAll(16384);
    for (auto& p : cs) {
        bool up = true; withConn(p.first, "state", [&](Connection* c) { up = L([&] { return c->IsConnected() && !c->IsDisconnecting(); }); });
        EXPECT("P05", "idle-connection-lost", up, "an idle client is no longer connected");
        t.clear(); t.push_back(pusher(p.first, 2, 1, 10 * MS)); t.push_back(pusher(p.second, 2, 1, 10 * MS)); for (auto& x : t) finish(x, 30 * SEC);
    }
    waitFor([&] { for (auto& p : cs) if (p.second->got.size() < p.first->pushed.size() || p.first->got.size() < p.second->pushed.size()) return false; return true; }, 30 * SEC);
    stop = true; for (auto& x : pl) finish(x, 30 * SEC);
    for (auto& p : cs) for (int d = 0; d < 2; d++) {
        CR *f = d ? p.second : p.first, *o = d ? p.first : p.second;
        for (auto& g : o->got) if (g.canon.compare(0, 4, "1:_(") == 0) vio("P05 P01", "keep-alive-delivered", "a keep-alive message was delivered to the application");
        checkDirection("after idling", f, o, false);
        EXPECT("P05 P01", "not-usable", o->got.size() == f->pushed.size(), "after idling, %zu of %zu requests arrived", o->got.size(), f->pushed.size());
    }
    end(e);
}

// ---------------------------------------------------------------- silent peers (P06)
void scDeadPeer() {
    Env e; begin(e, FAST | (pick(ST_CFG, 2) ? SMALLBUF : 0) | FAULTY, 0); cfg.stall_budget = 400 * MS; cfg.max_stall_exp = std::min(cfg.max_stall_exp, 17u);
    bool victimIsClient = pick(ST_WORK, 2) == 0, raw = pick(ST_WORK, 3) != 2; u32 L1 = 1 + pick(ST_WORK, 5); if (pick(ST_WORK, 10) == 9) L1 = 60;
    static const u32 LONG[] = {66000, 2200000, 4294000}; bool lng = pick(ST_WORK, 12) == 11; if (lng) { L1 = LONG[pick(ST_WORK, 3)]; stat("work.long_intervals"); cfg.max_time = 1000000000ull * SEC; }
    bool handlers = pick(ST_WORK, 2) == 1; u64 slow = handlers && pick(ST_WORK, 3) == 2 ? (u64)L1 * 1500 * MS : 0;
    Node* pn = raw ? addNode("raw") : victimIsClient ? e.sn : e.cn;
    auto prep = [&](Connection* k) { setBlocks(k); L([&] { if (L1 != 60) k->SetTheirNaIntervalLimit(iv((int)L1)); if (lng) k->SetOurSaInterval(L1 / 3); else if (pick(ST_WORK, 2)) k->SetOurSaInterval(1 + pick(ST_WORK, 3)); if (handlers) k->SetHandlerDefault(handler(0)); }); };
    bool peerQuiet = pick(ST_WORK, 2); auto prepPeer = [&](Connection* k) { L([&] { k->SetTheirNaIntervalLimit(lng ? (time_t)L1 * 100 : 1000); k->SetOurSaInterval(lng ? (time_t)L1 * (peerQuiet ? 90 : 1) / 3 : peerQuiet ? 900 : 1); }); };
    W->onConnected = [&](Server*, CR* r) { victimIsClient ? prepPeer(r->c) : prep(r->c); };
    CR *v = nullptr, *o = nullptr; int fd = -1, lfd = -1; Addr a = e.a;
    if (!raw || !victimIsClient) startServer(e);
    if (raw && victimIsClient) {
        call(pn, "raw-listen", 5 * SEC, [&] { lfd = rlisten(a); });
        Client* k = nullptr;
        Task t = start(e.cn, "connect", [&] { k = L([] { return new Client(); }); prep(k); if (!connectTo(k, a, 10)) violate("connect-failed", "connect to a raw listener failed"); });
        call(pn, "raw-accept", 20 * SEC, [&] { fd = raccept(lfd); }); finish(t, 30 * SEC); e.cl.push_back(k); v = crOf(k);
    } else if (raw) {
        call(pn, "raw-connect", 20 * SEC, [&] { fd = rconnect(a); if (fd < 0) violate("connect-failed", "raw connect failed"); });
        if (!waitFor([&] { return !W->all.empty() && W->all.back()->connectedDone; }, 10 * SEC)) violate("not-accepted", "the connected callback did not run");
        v = W->all.back().get(); vcAcquire(v->vc);
    } else { CR* c = addClient(e, [&](Client* k) { victimIsClient ? prep(k) : prepPeer(k); }); CR* s = accepted(c); v = victimIsClient ? c : s; o = victimIsClient ? s : c; }
    Link* l = links().back(); int side = v->server ? 1 : 0;
    if (slow) { auto left = std::make_shared<int>(1); v->hook = [slow, left](CR*, Request*, int) { if ((*left)-- > 0) sleepFor(slow); }; }
    // watch the end
    u64 tend = NEVER, stallEnd = 0; std::vector<Task> bg;
    if (!v->server) { Connection* c = v->c; bg.push_back(start(v->node, "watch", [&, c] { bool r = L([&] { return c->WaitForStop(negative()); }); tend = now_ns; stallEnd = stalledTotal(); EXPECT("P06 P18", "false-end", r, "an unlimited wait for the end returned false"); })); }
    auto ended = [&] { return v->server ? v->disconnectedCalls > 0 : tend != NEVER; };
    if (raw && !slow && !lng && pick(ST_WORK, 6) == 5) {      // a peer that keeps talking after a graceful disconnect and never closes
        u32 back = pick(ST_WORK, 4); if (back) { Task x = start(v->node, "backlog", [&] { D::SafeConnection* h = nullptr; if (v->server) { h = handleOf(v); if (!h) return; } for (u32 i = 0; i < back; i++) push(v, genSpec(++W->uid, 1)); if (h) L([&] { delete h; }); }); finish(x, 20 * SEC); }
        bool quiet = pick(ST_WORK, 3) == 2; std::string in; u64 teof = NEVER, st0 = 0; u64 gap = (u64)(1 + pick(ST_WORK, L1 * 9)) * 100 * MS;
        Task rd = start(pn, "raw-read", [&] { while (rdrain(fd, in) >= 0) sleepFor(2 * MS); teof = now_ns; st0 = stalledTotal(); }); bool stop = false;
        Task tk = start(pn, "raw-talk", [&] { if (quiet) return; u64 next = now_ns; while (!stop && !ended()) { if (now_ns >= next) { if (!rsend(fd, encode(genSpec(++W->uid, 0), 9))) break; next = now_ns + gap; } sleepFor(std::min<u64>(gap, 100 * MS)); } });
        sleepFor((u64)pick(ST_WORK, L1 * 800) * MS); u64 t0 = now_ns, s0 = stalledTotal(); withConn(v, "graceful", [&](Connection* c) { Lib x; c->Disconnect(false, false); });
        bool over = waitFor([&] { return ended(); }, (u64)L1 * SEC + 10 * SEC); markNontrivial(); stat("work.talker");
        if (!over) vio("P03", "no-end", "a graceful disconnect from a peer that never closes has not ended %.1f s after everything was sent, the silence limit is %u s", since(t0, s0) / 1e9, L1);
        stop = true; if (!over) withConn(v, "force", [&](Connection* c) { Lib x; c->Disconnect(true, false); });
        finish(tk, 100 * SEC); finish(rd, 100 * SEC); for (auto& x : bg) finish(x, 60 * SEC);
        u32 n = 0; std::string f; while (takeFrame(in, f)) { Spec s; u32 id; if (!decode(f, s, id)) violate("bad-frame", "the library sent a malformed frame"); if (s.name != "_") n++; }
        EXPECT("P03", "lost", n == v->pushed.size(), "a peer that never closes got %u of %zu requests pushed before a graceful disconnect", n, v->pushed.size());
        closeFd(pn, fd); if (lfd >= 0) closeFd(pn, lfd); end(e); return;
    }
    if (pick(ST_WORK, 3) == 0) bg.push_back(waiter(v));
    bool ambiguous = false; u64 lastSend = now_ns;
    // backlog towards the peer
    u32 back = pick(ST_WORK, 3); if (back) { Task x = start(v->node, "backlog", [&] { D::SafeConnection* h = nullptr; if (v->server) { h = handleOf(v); if (!h) return; } for (u32 i = 0; i < back * 4; i++) push(v, genSpec(++W->uid, 2)); if (h) L([&] { delete h; }); }); finish(x, 20 * SEC); }
    // the peer talks for a while, with gaps that stay below the limit
    u64 maxgap = (u64)L1 * SEC - 300 * MS;
    u64 s00 = stalledTotal();
    auto gapOk = [&] { if (now_ns - lastSend > (u64)L1 * SEC - 150 * MS) ambiguous = true; lastSend = now_ns; };
    if (raw) {
        u32 n = pick(ST_WORK, 6); std::string b; for (u32 i = 0; i < 3; i++) b += encode(genSpec(++W->uid, 0), 2 * i + 2);
        std::string big = encode(genSpec(++W->uid, 2), 100); u32 mode = pick(ST_WORK, 3); if (mode == 1) b = big; if (mode == 2) b = b.substr(0, 1 + pick(ST_WORK, 3)) ;
        size_t off = 0; Fiber* me = nullptr; (void)me;
        call(pn, "raw-talk", 1000 * SEC + (u64)L1 * 6 * SEC, [&] {
            for (u32 i = 0; i < n && off < b.size(); i++) {
                size_t k = 1 + pick(ST_WORK, mode == 1 ? 60 : 12); k = std::min(k, b.size() - off);
                sleepFor(pick(ST_WORK, 2) ? maxgap : (u64)pick(ST_WORK, (u32)(maxgap / MS)) * MS); gapOk();
                if (!rsend(fd, b.substr(off, k))) break; off += k;
            }
        });
    } else {
        bool stop = false; std::vector<Task> t; t.push_back(start(o->node, "peer-talk", [&] {
            D::SafeConnection* h = nullptr; if (o->server) { h = handleOf(o); if (!h) return; }
            u32 n = pick(ST_WORK, 5); for (u32 i = 0; i < n; i++) { sleepFor(pick(ST_WORK, 2) ? maxgap : (u64)pick(ST_WORK, (u32)(maxgap / MS)) * MS); gapOk(); push(o, genSpec(++W->uid, (int)pick(ST_WORK, 2))); } if (h) L([&] { delete h; });
        })); for (auto& x : t) finish(x, 1000 * SEC + (u64)L1 * 6 * SEC); (void)stop;
    }
    (void)s00;
    markNontrivial();
    if (ended() && !ambiguous && (v->server ? v->t_disconnected : tend) + 2 * MS < l->last_arrive[side] + (u64)L1 * SEC) vio("P06", "early-end", "the connection ended for silence although bytes kept arriving within the limit of %u s", L1);
    // now it falls silent
    u64 tsil = now_ns, L2 = L1; u32 kind = pick(ST_WORK, 5); bool killed = false, frozen = false;
    if (kind == 0 && raw) stat("fault.silent_peer");
    else if (kind == 1 || (kind == 4 && !l->tcp)) { stat("fault.frozen_process"); pn->stall_until = NEVER; frozen = true; }
    else if (kind == 2 && l->tcp) { killNode(pn, true); killed = true; }
    else if (kind == 3 && l->tcp) { netBlock(l, 0, NEVER); netBlock(l, 1, NEVER); }
    else if (kind == 4) { netBlock(l, 1 - side, NEVER); }
    else if (!raw && !peerQuiet) { pn->stall_until = NEVER; frozen = true; stat("fault.frozen_process"); }
    u64 tset = 0, tsetDone = 0; bool inEndWindow = false;
    u64 sSil = stalledTotal();
    if (pick(ST_WORK, 4) == 3 && !ended()) {
        L2 = 1 + pick(ST_WORK, 6); u64 w = std::min<u64>((u64)L1 * SEC - 300 * MS, (u64)pick(ST_WORK, 3000) * MS);
        sleepFor(w);
        if (!ended() && !frozen) { // the setter runs on the victim's side
            bool ok = withConn(v, "change limit", [&](Connection* c) { tset = now_ns; L([&] { c->SetTheirNaIntervalLimit(iv((int)L2)); }); tsetDone = now_ns; });
            if (!ok) { tset = 0; L2 = L1; } else stat("work.limit_change");
        } else if (!ended()) { bool ok = withConn(v, "change limit", [&](Connection* c) { tset = now_ns; L([&] { c->SetTheirNaIntervalLimit((time_t)L2); }); tsetDone = now_ns; }); if (!ok) { tset = 0; L2 = L1; } }
        else L2 = L1;
    }
    (void)inEndWindow;
    u64 horizon = (std::max<u64>(L1, L2) + 5) * SEC + slow * 2 + 5 * SEC;
    bool over = waitFor(ended, horizon + 2 * SEC);
    if (!over) vio("P06", "silence-not-detected", "nothing has arrived for %.1f s and the connection with a limit of %llu s is still up", (now_ns - l->last_arrive[side]) / 1e9, (unsigned long long)L2);
    else {
        u64 te = v->server ? v->t_disconnected : tend;
        u64 lr = std::max(l->last_read[side], l->last_arrive[side]), from = std::max(lr, tset);
        u64 busy = 0; if (slow && v->lastHandlerEnd) busy = slow;      // the thread was in a handler
        u64 st = stalledTotal() - 0;      // freezes so far (bounded by the budget)
        u64 upper = from + L2 * SEC + 300 * MS + st + busy;
        if (te > upper) vio("P06", "late-end", "the connection ended %.3f s after the last byte (or limit change), the limit is %llu s", (te - from) / 1e9, (unsigned long long)L2);
        if (!ambiguous && te + 2 * MS < l->last_arrive[side] + (tset && tsetDone < l->last_arrive[side] + (u64)L1 * SEC ? (u64)L2 : std::min<u64>(L1, L2)) * SEC) vio("P06", "early-end", "the connection ended %.3f s after the last byte, the limit is %llu s", (te - l->last_arrive[side]) / 1e9, (unsigned long long)L2);
    }
    (void)tsil; (void)sSil; (void)stallEnd;
    if (frozen) pn->stall_until = 0;
    if (!killed) { netHeal(l); }
    if (!over) withConn(v, "force", [&](Connection* c) { Lib x; c->Disconnect(true, false); });
    for (auto& x : bg) finish(x, 60 * SEC);
    if (fd >= 0 && pn->alive) closeFd(pn, fd);
    if (lfd >= 0 && pn->alive) closeFd(pn, lfd);
    end(e);
}

// ---------------------------------------------------------------- blocking pulls (P07)
void scPull() {
    Env e; begin(e, FAST | FAULTY); cfg.stall_budget = 1 * SEC;
    startServer(e); CR* c = addClient(e, [&](Client* k) { L([&] { if (pick(ST_WORK, 3) == 2) k->SetOurSaInterval(1); }); }); CR* s = accepted(c);
    bool atServer = pick(ST_WORK, 2) == 1; CR *t = atServer ? s : c, *f = atServer ? c : s;
    struct P { u64 call, ret, t0, t1, st0, st1; int timeout; u64 uid; u32 who; };
    std::vector<P> ps; u64 tend = NEVER, qend = NEVER; u32 np = 1 + pick(ST_WORK, 3);
    std::vector<Task> pl; bool stop = false;
    for (u32 i = 0; i < np; i++) pl.push_back(start(t->node, "pull", [&, i] {
        D::SafeConnection* h = nullptr; if (t->server) { h = handleOf(t); if (!h) return; }
        u32 n = 2 + pick(ST_WORK, 8); bool over = false;
        for (u32 k = 0; k < n || !over; k++) {
            static const int T[] = {1, 0, 2, 3, -1}; int to = T[pick(ST_WORK, 5)]; if (stop) over = true; if (over && pick(ST_WORK, 2)) to = -1;
            P p; p.call = seqno(); p.t0 = now_ns; p.st0 = stalledTotal(); p.timeout = to; p.who = i;
            Request* r = pull(t, to); p.ret = seqno(); p.t1 = now_ns; p.st1 = stalledTotal(); p.uid = r ? uidOf(r) : 0; ps.push_back(p);
            if (r) { freeReq(r); k = k ? k - 1 : 0; } else if (to == -1) over = true;
            if (to == 0) sleepFor((u64)(1 + pick(ST_WORK, 300)) * MS); else nap(1 * SEC);
        }
        if (h) L([&] { delete h; });
    }));
    // requests come now and then
    u32 n = pick(ST_WORK, 10); Task push1 = start(f->node, "push", [&] {
        D::SafeConnection* h = nullptr; if (f->server) { h = handleOf(f); if (!h) return; }
        for (u32 i = 0; i < n; i++) { nap(3 * SEC); push(f, genSpec(++W->uid, 1)); if (pick(ST_WORK, 3) == 2) push(f, genSpec(++W->uid, 1)); }
        if (h) L([&] { delete h; });
    });
    finish(push1, 100 * SEC);
    bool quiet = pick(ST_WORK, 2); if (quiet) sleepFor(3 * SEC); else sleepFor((u64)pick(ST_WORK, 3000) * US);
    markNontrivial();
    u32 kind = pick(ST_WORK, 4); tend = now_ns; qend = seqno(); u64 stE = stalledTotal();
    Link* l = linkById(c->link);
    if (kind == 0) call(e.cn, "disconnect", 30 * SEC, [&] { Connection* x = c->c; Lib y; x->Disconnect(true, false); });
    else if (kind == 1) withConn(s, "disconnect", [&](Connection* x) { Lib y; x->Disconnect(true, false); });
    else if (kind == 2 && l && l->tcp) netReset(l);
    else withConn(f, "disconnect", [&](Connection* x) { Lib y; x->Disconnect(false, false); });
    stop = true;
    for (auto& x : pl) finish(x, 60 * SEC);
    // after the end: nothing blocks, leftovers first
    if (!t->server) call(t->node, "after", 20 * SEC, [&] {
        L([&] { t->c->WaitForStop(10); });
        for (int to : {0, 1, -1, 3}) { u64 d = timed([&] { Request* r = pull(t, to); if (r) freeReq(r); }); EXPECT("P07", "blocked-after-end", d < 300 * MS, "Pull(%d) on an ended connection took %.3f s", to, d / 1e9); }
        while (Request* r = pull(t, -1)) freeReq(r);
    });
    std::unordered_map<u64, const PushRec*> by; for (auto& p : f->pushed) by[p.uid] = &p;
    std::unordered_map<u64, const P*> when; for (auto& p : ps) if (p.uid) when[p.uid] = &p;
    for (auto& p : ps) {
        u64 d = p.t1 - p.t0, dc = d > p.st1 - p.st0 ? d - (p.st1 - p.st0) : 0;
        if (p.timeout == 0) { EXPECT("P07 P21", "nonblocking-blocks", dc <= 50 * MS, "Pull(0) took %.3f s", dc / 1e9); }
        if (!p.uid) {
            bool end = p.t1 >= tend;
            if (p.timeout < 0) { EXPECT("P07 P18", "early-null", end, "an unlimited pull returned nothing while the connection lives"); }
            if (p.timeout > 0) {
                EXPECT("P07 P18", "early-null", d + 2 * MS >= (u64)p.timeout * SEC || end, "Pull(%d) returned nothing after only %.3f s", p.timeout, d / 1e9);
                EXPECT("P07", "late-null", dc <= (u64)p.timeout * SEC + 300 * MS, "Pull(%d) returned nothing after %.3f s", p.timeout, dc / 1e9);
            }
            // nothing may have been waiting
            for (auto& q : f->pushed) if (q.t_ret && q.t_ret + 1 * SEC + 2 * cfg.latency + p.st1 < p.t1) {
                if (q.t_ret + 1 * SEC > tend) continue;
                auto w = when.find(q.uid); bool taken = false; for (auto& g : t->got) if (g.uid == q.uid && g.seq_call < p.ret) taken = true;
                (void)w;
                if (!taken) { vio("P07", "null-with-data", "Pull(%d) returned nothing although request %llu had been waiting", p.timeout, (unsigned long long)q.uid); break; }
            }
        } else {
            auto q = by.find(p.uid); if (q == by.end()) continue;
            u64 from = std::max(p.t0, q->second->t_ret ? q->second->t_ret : p.t0); u64 k = p.t1 > from ? p.t1 - from : 0; k = k > p.st1 ? k - p.st1 : 0;
            EXPECT("P07", "late-data", k <= 700 * MS, "a waiting pull returned request %llu %.3f s after it was pushed", (unsigned long long)p.uid, k / 1e9);
        }
        if (p.t1 > tend) { u64 from = std::max(tend, p.t0), k = p.t1 - from, st = p.st1 - stE; k = k > st ? k - st : 0; EXPECT("P07", "end-does-not-wake", k <= 700 * MS + (kind == 3 ? 500 * MS : 0), "Pull(%d) came back %.3f s after the end of the connection", p.timeout, k / 1e9); }
    }
    checkDirection("pulls", f, t, quiet && !t->server);
    if (quiet && t->server) checkDirection("pulls", f, t, true);
    (void)qend;
    end(e);
}

// ---------------------------------------------------------------- idle threads sleep (P22)
void scIdle() {
    Env e; begin(e, FAST | FAULTY, 0); bool one = pick(ST_WORK, 3) == 0;
    u32 wk = pick(ST_WORK, 4); u64 win = (wk == 2 ? 1500 : wk == 3 ? 4000 : 40) * SEC; int sa = wk == 2 ? 60 + (int)pick(ST_WORK, 240) : wk == 3 ? 300 + (int)pick(ST_WORK, 700) : 5 + (int)pick(ST_WORK, 10); int na = 1000 + 3 * (int)(win / SEC); u32 limit = 0; u32 hist = pick(ST_WORK, 1024); bool full = hist & 1, stalled = hist & 2, half = hist & 4, flushed = hist & 8, gate = hist & 16, held = hist & 32, pulls = hist & 64, busy = hist & 128, ended = hist & 256, conn = hist & 512;
    if (one) { u32 k = pick(ST_WORK, 10); full = k == 0; stalled = k == 1; half = k == 2; flushed = k == 3; gate = k == 4; held = k == 5; pulls = k == 6; busy = k == 7; ended = k == 8; conn = k == 9; }
    Node* rn = addNode("raw"); std::vector<int> fds; bool release = false; u32 gates = 0; std::vector<Task> bg;
    bool srvHandlers = pick(ST_WORK, 2);
    W->onConnected = [&](Server*, CR* r) {
        L([&] { r->c->SetOurSaInterval(sa); r->c->SetTheirNaIntervalLimit(na); r->c->SetMaxRequestSize(100000); if (srvHandlers) r->c->SetHandlerDefault(handler(0)); });
        if (r->link && gates && W->all.size() > 1) { gates = 0; sleepFor(60 * SEC + win); }
    };
    (void)release;
    u32 nclients = 1 + pick(ST_WORK, 2) + (ended ? 1 : 0);
    limit = nclients + (stalled ? 1 : 0) + (half ? 1 : 0) + (flushed ? 1 : 0) + (held ? 1 : 0) + (gate ? 1 : 0) - (ended ? 1 : 0);
    startServer(e, [&](Server* s) { if (full) L([&] { s->SetMaxConnections((int)limit); }); });
    std::vector<CR*> cs, ss; auto prep = [&](Client* k) { L([&] { k->SetOurSaInterval(sa); k->SetTheirNaIntervalLimit(na); k->SetMaxRequestSize(100000); }); };
    if (ended) { CR* c = addClient(e, prep); CR* s = accepted(c); call(e.cn, "bye", 20 * SEC, [&] { Lib x; c->c->Disconnect(pick(ST_WORK, 2), true); }); waitFor([&] { return s->disconnectedCalls > 0; }, 10 * SEC); nclients--; }
    for (u32 i = 0; i < nclients; i++) { cs.push_back(addClient(e, prep)); ss.push_back(accepted(cs.back())); }
    bool stop = false;
    if (busy) {
        std::vector<Task> t; for (size_t i = 0; i < cs.size(); i++) { t.push_back(pusher(cs[i], 5, 2, 5 * MS)); t.push_back(pusher(ss[i], 5, 2, 5 * MS)); } for (auto& x : t) finish(x, 60 * SEC);
        sleepFor((u64)pick(ST_WORK, 40) * SEC);
    }
    Addr a = e.a; auto newest = [&](size_t before) { if (!waitFor([&] { return W->all.size() > before && W->all.back()->connectedDone; }, 10 * SEC)) violate("not-accepted", "the connected callback did not run"); CR* r = W->all.back().get(); vcAcquire(r->vc); return r; };
    auto rawConnect = [&] { int fd = -1; call(rn, "raw-connect", 20 * SEC, [&] { fd = rconnect(a); if (fd < 0) violate("connect-failed", "raw connect failed"); }); fds.push_back(fd); return fd; };
    if (stalled) { size_t b = W->all.size(); rawConnect(); CR* r = newest(b); Task t = start(e.sn, "backlog", [=] { D::SafeConnection* h = handleOf(r); if (!h) return; for (int i = 0; i < 25; i++) push(r, genSpec(++W->uid, 3)); L([&] { delete h; }); }); finish(t, 20 * SEC); }
    if (half) { size_t b = W->all.size(); int fd = rawConnect(); newest(b); std::string x = encode(genSpec(++W->uid, 1), 7); if (pick(ST_WORK, 2)) x = x.substr(0, 9); call(rn, "half", 10 * SEC, [&] { if (pick(ST_WORK, 2)) rsend(fd, x); k_shutdown(fd, SHUT_WR); }); }
    if (flushed) { size_t b = W->all.size(); rawConnect(); CR* r = newest(b); withConn(r, "graceful", [&](Connection* c) { Lib x; c->Disconnect(false, false); }); }
    if (held) { size_t b = W->all.size(); int fd = rawConnect(); CR* r = newest(b); bool got = false; bg.push_back(start(e.sn, "hold", [=, &got] { D::SafeConnection* h = handleOf(r); got = true; if (!h) return; sleepFor(80 * SEC + win); L([&] { delete h; }); })); waitFor([&] { return got; }, 10 * SEC); closeFd(rn, fd); fds.pop_back(); }
    if (conn) { setBlackhole(ip4("10.9.9.9"), 99, 1); Client* k = nullptr; bg.push_back(start(e.cn, "connecting", [&e, k, win]() mutable { k = L([] { return new Client(); }); bool ok = L([&] { return k->ConnectTcp("10.9.9.9", 99, 80 + (int)(win / SEC)); }); if (ok) vio("P19", "false-success", "connected to nothing"); L([&] { delete k; }); })); }
    if (pulls) for (size_t i = 0; i < cs.size(); i++) { CR *c = cs[i], *s = ss[i]; Connection* k = c->c;
        bg.push_back(start(e.cn, "pull", [=] { while (Request* r = L([&] { return k->Pull(negative()); })) freeReq(r); }));
        if (!srvHandlers) bg.push_back(start(e.sn, "pull", [=] { D::SafeConnection* h = handleOf(s); if (!h) return; while (Request* r = L([&] { return s->c->Pull(110 + (int)(win / SEC)); })) freeReq(r); L([&] { delete h; }); })); }
    if (full) { waitFor([&] { return openSocks(e.sn) >= limit; }, 5 * SEC); rawConnect(); }
    if (gate) { gates = 1; u32 b = (u32)W->all.size(); (void)b; if (!full) { int fd = rawConnect(); std::string x = encode(genSpec(++W->uid, 1), 7); call(rn, "send", 10 * SEC, [&] { rsend(fd, x); if (pick(ST_WORK, 2)) { k_close(fd); } }); } }
    sleepFor(3 * SEC);
    auto moved = [] { u64 n = 0; for (auto l : links()) for (auto& d : l->d) n += d.total_sent + d.total_delivered; return n; };
    for (u64 m = moved(), i = 0; i < 100; i++) { sleepFor(1 * SEC); u64 x = moved(); if (x - m < 200) break; m = x; }      // a backlog drains slowly on a slow link
    // the idle window
    cfg.p_eintr = 0; cfg.p_again = 0; cfg.p_seg = 0; cfg.p_jitter = 0;
    std::map<u32, std::pair<u64, u64>> before; for (auto f : fibers()) if (f->node && f->state != Fiber::DONE && f->state != Fiber::DEAD) before[f->id] = {f->wakeups, f->calls};
    for (auto f : fibers()) f->sig_at = NEVER;
    sleepFor(win);
    markNontrivial();
    u64 bound = (win / SEC / (u64)sa + 2) * 8 + 10;
    for (auto f : fibers()) {
        if (f->user || !f->node || f->node == rn) continue;
        auto it = before.find(f->id); u64 w = f->wakeups - (it == before.end() ? 0 : it->second.first), k = f->calls - (it == before.end() ? 0 : it->second.second);
        if (w > bound || k > 15 * bound) vio("P22", "spinning", "%s#%u woke up %llu times and made %llu calls in %llu idle seconds (keep-alive every %d s); history %u", f->name.c_str(), f->id, (unsigned long long)w, (unsigned long long)k, (unsigned long long)(win / SEC), sa, hist);
    }
    for (auto f : fibers()) if (f->user && f->node && f->node != rn && f->state != Fiber::DONE) { auto it = before.find(f->id); u64 k = f->calls - (it == before.end() ? 0 : it->second.second); if (k > 15 * bound) vio("P22", "spinning", "a call of '%s' made %llu system calls in %llu idle seconds", f->name.c_str(), (unsigned long long)k, (unsigned long long)(win / SEC)); }
    stop = true; (void)stop;
    for (int fd : fds) closeFd(rn, fd);
    for (auto c : cs) call(e.cn, "bye", 30 * SEC, [&] { Lib x; c->c->Disconnect(true, false); });
    for (auto& x : bg) finish(x, 300 * SEC + win);
    end(e);
}
// ---------------------------------------------------------------- very long timeouts (P07 P17 P18 P24)
void scPatience() {
    Env e; begin(e, FAST, 0); cfg.max_time = 8000000000ull * SEC; cfg.stall_budget = 0; stat("work.long_timeouts");
    static const double pe[] = {0, 0.3, 0.05, 0}; cfg.p_eintr = pe[pick(ST_CFG, 4)];
    static const u32 T[] = {40, 2147483, 2147484, 2200000, 4294967, 4294968, 5000000, 8589935, 100000000, 2147483647};
    auto prep = [](Connection* c) { L([&] { c->SetOurSaInterval(4294967296 + 5); c->SetTheirNaIntervalLimit(8589934592); }); };
    W->onConnected = [&](Server*, CR* r) { prep(r->c); };
    startServer(e); CR* c = addClient(e, [&](Client* k) { prep(k); }); CR* s = accepted(c);
    static const u64 X[] = {30, 2147483, 2147500, 2200100, 4295000, 5000100, 9000000, 200000000};
    u64 atReq = X[pick(ST_WORK, 8)] + pick(ST_WORK, 20), atEnd = atReq + X[pick(ST_WORK, 8)] + pick(ST_WORK, 20), t0 = now_ns;
    std::vector<Task> t; u32 done = 0;
    // `got`: returned with what was waited for, `when`: the time of that
    auto judge = [&](const char* what, const char* props, int to, bool got, u64 start, u64 when) {
        u64 el = now_ns - start, lim = to < 0 ? NEVER : (u64)to * SEC; done++;
        (void)props; if (got) { EXPECT("P07 P17 P18 P24", "late-return", now_ns <= when + 2 * SEC, "%s with a timeout of %d s returned %.3f s after what it waited for", what, to, (now_ns - when) / 1e9); return; }
        EXPECT("P07 P17 P18 P24", "early-return", lim != NEVER && el + 5 * MS >= lim, "%s with a timeout of %d s returned without a result after %.3f s", what, to, el / 1e9);
        EXPECT("P07 P17 P18 P24", "late-return", lim == NEVER || el <= lim + 1 * SEC, "%s with a timeout of %d s took %.3f s", what, to, el / 1e9);
    };
    auto timeout = [&] { return pick(ST_WORK, 8) == 0 ? negative() : (int)T[pick(ST_WORK, 10)]; };
    auto ended = [=] { return now_ns + 1 * SEC >= t0 + atEnd * SEC; };
    u32 n = 1 + pick(ST_WORK, 5);
    for (u32 i = 0; i < n; i++) switch (pick(ST_WORK, 5)) {
        case 0: t.push_back(start(e.cn, "wait-stop", [=] { int to = timeout(); u64 at = now_ns; bool r = L([&] { return c->c->WaitForStop(to); }); EXPECT("P18 P17", "false-end", !r || ended(), "WaitForStop(%d) reported an end that has not happened", to); judge("WaitForStop", "", to, r, at, t0 + atEnd * SEC); })); break;
        case 1: t.push_back(start(e.sn, "wait-server", [=, &e] { int to = timeout(); u64 at = now_ns; L([&] { e.s->WaitForStop(to); }); judge("WaitForStop of the server", "", to, ended(), at, t0 + atEnd * SEC); })); break;
        case 2: t.push_back(start(e.cn, "wait-response", [=] { int to = timeout(); u64 at = now_ns; App a; Request* q = L([] { return new Request("question"); }); bool copy = pick(ST_WORK, 2); Request* r = L([&] { return copy ? c->c->Push(*q, to) : c->c->Push(q, false, to); }); if (copy) freeReq(q); EXPECT("P24", "wrong-response", !r, "Push returned a request although nobody answered"); judge("Push", "", to, ended(), at, t0 + atEnd * SEC); })); break;
        default: {      // on either side: a request arrives at atReq, or else the end
            CR* w = pick(ST_WORK, 2) ? c : s;
            t.push_back(start(w->node, "wait-pull", [=] { D::SafeConnection* h = nullptr; if (w == s) { h = handleOf(s); if (!h) return; } int to = timeout(); u64 at = now_ns; Request* r = L([&] { return w->c->Pull(to); }); bool e2 = !r && ended(); judge("Pull", "", to, r || e2, at, r ? std::max(at, t0 + atReq * SEC) : t0 + atEnd * SEC); if (r) freeReq(r); if (h) L([&] { delete h; }); })); break;
        }
    }
    sleepFor(t0 + atReq * SEC - now_ns); markNontrivial();
    for (CR* w : {c, s}) call(w->node, "wake", 10 * SEC, [&] { D::SafeConnection* h = w == s ? handleOf(s) : nullptr; if (w == s && !h) return; L([&] { for (u32 i = 0; i < n; i++) { Request q("wake"); w->c->Push(q); } }); if (h) L([&] { delete h; }); });
    sleepFor(t0 + atEnd * SEC - now_ns);
    EXPECT("P05", "spurious-end", L([&] { return c->c->IsConnected(); }), "an idle connection with a silence limit of 8589934592 s ended");
    call(e.cn, "bye", 10 * SEC, [&] { Lib x; c->c->Disconnect(true, false); });
    call(e.sn, "stop", 20 * SEC, [&] { Lib x; e.s->Stop(-1); });
    for (auto& x : t) finish(x, 20 * SEC);
    e.s = e.s; end(e);
}
