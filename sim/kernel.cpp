// Simulated operating system: descriptors, eventfd, timerfd, stream sockets, paths.
#include "kernel.hpp"
#include <algorithm>
#include <cerrno>
#include <fcntl.h>
#include <poll.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <sys/timerfd.h>
#include <unistd.h>

namespace sim {
static std::vector<Link*> g_links;
static std::vector<std::shared_ptr<Sock>> g_listeners;
struct PathEnt { bool sock; Sock* listener; };
static std::map<std::string, PathEnt> g_paths;
static std::map<u64, int> g_black;                    // ip<<16|port -> mode
static std::vector<std::pair<u64, u64>> g_tw;         // TIME_WAIT (port, until)
static u32 g_ephemeral;

void kernelReset() {
    for (auto l : g_links) delete l;
    g_links.clear(); g_listeners.clear(); g_paths.clear(); g_black.clear(); g_tw.clear(); g_ephemeral = 40000;
}
Link* linkById(u32 id) { return id >= 1 && id <= g_links.size() ? g_links[id - 1] : nullptr; }
const std::vector<Link*>& links() { return g_links; }

// ---------------------------------------------------------------- descriptors
static Node* node() {
    if (!cur || !cur->node) { fprintf(stderr, "system call outside of a node\n"); _exit(96); }
    return cur->node;
}
static void badfd(int fd, const char* what) {
    Node* n = node();
    if (fd >= 0) {
        n->ebadf++;
        if (n->ebadf_what.empty()) { char b[100]; snprintf(b, sizeof b, "%s(%d)", what, fd); n->ebadf_what = b; }
        ev("EBADF %s(%d)", what, fd);
    }
    errno = EBADF;
}
std::shared_ptr<File> getFile(int fd, const char* what) {
    Node* n = node();
    if (fd < 0 || (size_t)fd >= n->fds.size() || !n->fds[fd]) { badfd(fd, what); return nullptr; }
    return n->fds[fd];
}
std::shared_ptr<Sock> getSock(int fd, const char* what) {
    auto f = getFile(fd, what);
    if (!f) return nullptr;
    if (f->kind != K_SOCK) { errno = ENOTSOCK; return nullptr; }
    return std::static_pointer_cast<Sock>(f);
}
int addFd(std::shared_ptr<File> f) {
    Node* n = node();
    size_t i = cfg.first_fd; if (!i && n->allocated++ < cfg.zero_after) i = 3;     // the application has its standard descriptors still open
    while (i < n->fds.size() && n->fds[i]) i++;
    if (i - cfg.first_fd + std::min(cfg.first_fd, 3u) >= n->max_fds) { errno = EMFILE; return -1; }
    if (i >= n->fds.size()) { n->fds.resize(i + 1); n->ever.resize(i + 1); }
    n->fds[i] = f; n->ever[i] = true; f->refs++;
    return (int)i;
}
int k_close(int fd) {
    Node* n = node();
    if (fd < 0 || (size_t)fd >= n->fds.size() || !n->fds[fd]) { badfd(fd, "close"); return -1; }
    auto f = n->fds[fd];
    ev("close %d", fd);
    n->fds[fd] = nullptr;
    if (--f->refs == 0) f->closed();
    return 0;
}
int k_dup(int fd) { auto f = getFile(fd, "dup"); return f ? addFd(f) : -1; }
u32 openFds(Node* n) { u32 c = 0; for (auto& f : n->fds) if (f) c++; return c; }
std::string fdList(Node* n) {
    std::string s; static const char* k[] = {"eventfd", "timerfd", "socket", "pipe", "epoll"};
    for (size_t i = 0; i < n->fds.size(); i++) if (n->fds[i]) { s += std::to_string(i) + ":" + k[n->fds[i]->kind]; if (n->fds[i]->kind == K_SOCK && ((Sock*)n->fds[i].get())->listening) s += "(listening)"; s += " "; }
    return s;
}

// ---------------------------------------------------------------- eventfd, timerfd
short EventFd::ready() { return (val ? POLLIN : 0) | POLLOUT; }
short TimerFd::ready() { return expire <= now_ns ? POLLIN : 0; }
int k_eventfd(unsigned init, int flags) {
    if (flags & ~(EFD_SEMAPHORE | EFD_CLOEXEC | EFD_NONBLOCK)) { errno = EINVAL; return -1; }
    auto f = std::make_shared<EventFd>(); f->val = init; f->sem = flags & 1; f->nonblock = flags & O_NONBLOCK;
    return addFd(f);
}
short PipeEnd::ready() {
    if (wr) return p->readers ? (p->data.size() < 61440 ? POLLOUT : 0) : POLLOUT | POLLERR;
    return (short)((p->data.empty() ? 0 : POLLIN) | (p->writers ? 0 : POLLHUP));
}
int k_pipe(int* fds, int flags) {
    auto b = std::make_shared<PipeBuf>();
    auto r = std::make_shared<PipeEnd>(b, false), w = std::make_shared<PipeEnd>(b, true);
    r->nonblock = w->nonblock = flags & O_NONBLOCK;
    int x = addFd(r); if (x < 0) return -1;
    int y = addFd(w); if (y < 0) { int e = errno; k_close(x); errno = e; return -1; }
    fds[0] = x; fds[1] = y; return 0;
}
int k_epoll_create() { return addFd(std::make_shared<EpollFd>()); }
int k_epoll_ctl(int ep, int op, int fd, u32 events, u64 data) {
    auto e = getFile(ep, "epoll_ctl"); auto f = getFile(fd, "epoll_ctl");
    if (!e || !f) return -1;
    if (e->kind != K_EPOLL) { errno = EINVAL; return -1; }
    auto& m = ((EpollFd*)e.get())->ents; auto it = m.find(fd);
    bool there = it != m.end() && it->second.f.lock() == f;
    if (op == 1) { if (there) { errno = EEXIST; return -1; } m[fd] = {f, events, data, true}; }
    else if (!there) { errno = ENOENT; return -1; }
    else if (op == 2) m.erase(it);
    else if (op == 3) it->second = {f, events, data, true};
    else { errno = EINVAL; return -1; }
    return 0;
}
short EpollFd::ready() {
    for (auto it = ents.begin(); it != ents.end();) {      // a closed descriptor leaves the set
        auto f = it->second.f.lock();
        if (!f || !f->refs) { it = ents.erase(it); continue; }
        if (it->second.armed && (f->ready() & (short)(it->second.events | POLLERR | POLLHUP))) return POLLIN;
        ++it;
    }
    return 0;
}
int k_epoll_wait(int ep, u32* events, u64* data, int max, long long timeout_ns) {
    auto h = getFile(ep, "epoll_wait"); if (!h) return -1;
    if (h->kind != K_EPOLL || max <= 0) { errno = EINVAL; return -1; }
    auto e = (EpollFd*)h.get();
    bool ok = e->ready();
    if (!ok && timeout_ns != 0) {
        u64 dl = timeout_ns < 0 ? NEVER : now_ns + (u64)((double)timeout_ns / node()->rate);
        block("poll", [e] { return e->ready() != 0; }, dl, true);
    }
    cur->wakeups++;
    if (timeout_ns != 0 || ok) stat("poll.returns");
    bool intr = cur->interrupted && !ok; cur->interrupted = false;
    if (intr) { errno = EINTR; return -1; }
    e->ready();
    int n = 0;
    for (auto& x : e->ents) {
        auto f = x.second.f.lock(); if (!f || !x.second.armed) continue;
        short r = (short)(f->ready() & (short)(x.second.events | POLLERR | POLLHUP));
        if (!r || n >= max) continue;
        vcAcquire(f->vc);
        if (x.second.events & (1u << 30)) x.second.armed = false;     // EPOLLONESHOT
        events[n] = (u32)(unsigned short)r; data[n] = x.second.data; n++;
    }
    return n;
}
int k_timerfd_create(int flags) { if (flags & ~(TFD_CLOEXEC | TFD_NONBLOCK)) { errno = EINVAL; return -1; } auto f = std::make_shared<TimerFd>(); f->nonblock = flags & O_NONBLOCK; return addFd(f); }
int k_timerfd_settime(int fd, bool abs, const struct itimerspec* n, struct itimerspec* o) {
    auto f = getFile(fd, "timerfd_settime"); if (!f) return -1;
    if (f->kind != K_TIMER) { errno = EINVAL; return -1; }
    auto t = std::static_pointer_cast<TimerFd>(f);
    if (o) { memset(o, 0, sizeof *o); }
    if (n->it_value.tv_sec < 0 || n->it_value.tv_nsec < 0 || n->it_value.tv_nsec >= 1000000000) { errno = EINVAL; return -1; }
    // very long times saturate (as the real kernel does)
    unsigned long long s = (unsigned long long)n->it_value.tv_sec; if (s > 9000000000ull) s = 9000000000ull;
    u64 v = s * SEC + n->it_value.tv_nsec, iv = (u64)n->it_interval.tv_sec * SEC + n->it_interval.tv_nsec;
    double rate = cur->node->rate;
    if (!v) { t->expire = NEVER; t->interval = 0; return 0; }
    u64 rel = (u64)((double)v / rate);
    if (rate == 1.0) rel = v;
    if (abs) { u64 ln = k_monotonic(); rel = v > ln ? (u64)((double)(v - ln) / rate) : 0; }
    t->expire = now_ns + rel; t->interval = iv;
    at(t->expire, [] {});
    return 0;
}
u64 k_monotonic() { double r = cur && cur->node ? cur->node->rate : 1.0; return cfg.uptime + (r == 1.0 ? now_ns : (u64)((double)now_ns * r)); }

ssize_t k_read_special(std::shared_ptr<File> f, void* b, size_t n) {
    if (f->kind == K_PIPE) {
        auto e = (PipeEnd*)f.get();
        if (e->wr) { errno = EBADF; return -1; }
        if (!n) return 0;
        if (!e->ready()) { if (f->nonblock) { errno = EAGAIN; return -1; } block("read-pipe", [e] { return e->ready() != 0; }); }
        size_t k = std::min(n, e->p->data.size());
        memcpy(b, e->p->data.data(), k); e->p->data.erase(0, k); vcAcquire(f->vc);
        return (ssize_t)k;
    }
    if (f->kind == K_EPOLL) { errno = EINVAL; return -1; }
    if (n < 8) { errno = EINVAL; return -1; }
    if (!f->ready() || !(f->ready() & POLLIN)) {
        if (f->nonblock) { errno = EAGAIN; return -1; }
        File* p = f.get();
        block("read-event", [p] { return (p->ready() & POLLIN) != 0; });
    }
    u64 v;
    if (f->kind == K_EVENT) { auto e = (EventFd*)f.get(); if (e->sem) { v = 1; e->val--; } else { v = e->val; e->val = 0; } }
    else { auto t = (TimerFd*)f.get(); v = 1; if (t->interval) { while (t->expire + t->interval <= now_ns) { t->expire += t->interval; v++; } t->expire += t->interval; at(t->expire, [] {}); } else t->expire = NEVER; }
    vcAcquire(f->vc);
    memcpy(b, &v, 8);
    return 8;
}
ssize_t k_write_special(std::shared_ptr<File> f, const void* b, size_t n) {
    if (f->kind == K_PIPE) {
        auto e = (PipeEnd*)f.get();
        if (!e->wr) { errno = EBADF; return -1; }
        if (!e->p->readers) violate("sigpipe", "write to a pipe that nobody reads");
        if (e->p->data.size() + n > 65536) { if (f->nonblock) { errno = EAGAIN; return -1; } block("write-pipe", [e, n] { return e->p->data.size() + n <= 65536; }); }
        e->p->data.append((const char*)b, n);
        for (auto nd : {node()}) for (auto& o : nd->fds) if (o && o->kind == K_PIPE && ((PipeEnd*)o.get())->p == e->p) vcRelease(o->vc);
        return (ssize_t)n;
    }
    if (f->kind != K_EVENT || n < 8) { errno = EINVAL; return -1; }
    u64 v; memcpy(&v, b, 8);
    if (v == ~0ull) { errno = EINVAL; return -1; }
    auto e = (EventFd*)f.get();
    if (e->val + v < e->val || e->val + v >= ~0ull) {
        if (f->nonblock) { errno = EAGAIN; return -1; }
        block("write-event", [e, v] { return e->val + v >= e->val && e->val + v < ~0ull; });
    }
    vcRelease(f->vc);
    e->val += v;
    return 8;
}

// ---------------------------------------------------------------- sockets
short Sock::ready() {
    if (listening) return acceptq.empty() ? 0 : POLLIN;
    if (connecting) return 0;
    short r = 0;
    if (err) r |= POLLERR;
    if (!link) return r | (tcp || err ? POLLOUT | POLLHUP : POLLOUT | POLLHUP) | (err ? POLLIN : 0);
    Link::Dir &i = in(), &o = out();
    bool rs = i.fin_done || shut_rd || dead, ws = shut_wr || dead;
    if (!tcp && peer_gone) { rs = true; }
    if (!i.rcv.empty() || rs) r |= POLLIN;
    if (rs) r |= POLLRDHUP;
    if ((rs && ws) || (!tcp && peer_gone)) r |= POLLHUP;
    if (ws) r |= POLLOUT;
    else if (tcp) { if (o.snd.size() * 3 <= (size_t)o.sndcap * 2) r |= POLLOUT; }
    else { if (o.rcv.size() * 4 <= o.sndcap) r |= POLLOUT; }
    return r;
}
static void kill(Sock* s, int e) {       // connection is over at this end
    if (s->dead) return;
    if (!s->err) s->err = e;
    s->dead = true;
}
static void sendRst(Link* l, int to, u64 delay) {
    at(now_ns + delay, [l, to] {
        if (l->rst_seen[to] || l->silent[to]) return;
        if (l->d[1 - to].blocked_until > now_ns) { // the network drops it; retried by data later
            if (l->d[1 - to].blocked_until != NEVER) sendRst(l, to, l->d[1 - to].blocked_until - now_ns);
            return;
        }
        l->rst_seen[to] = true;
        Link::Dir& d = l->d[1 - to];      // what was still on its way to `to` is gone
        d.purged += d.snd.size(); d.snd.clear();
        l->d[to].snd.clear();
        if (l->end[to]) kill(l->end[to], d.fin_done ? EPIPE : ECONNRESET);
        ev("rst arrives link %u end %d", l->id, to);
    });
}
static void pump(Link* l, int i);
static void schedulePump(Link* l, int i, bool more) {
    Link::Dir& d = l->d[i];
    if (d.pumping || d.blocked_until == NEVER) return;
    u64 t = now_ns + (more ? cfg.latency / 8 + 1 * US : cfg.latency);
    if (chance(ST_NET, cfg.p_jitter)) { u32 us = (u32)(cfg.max_jitter / US); t += (u64)pick(ST_NET, us ? us : 1) * US; stat("fault.net_delay"); }
    if (t < d.last_arrival) t = d.last_arrival;
    if (t < d.blocked_until) t = d.blocked_until;
    d.last_arrival = t; d.pumping = true;
    at(t, [l, i] { pump(l, i); });
}
static void pump(Link* l, int i) {       // deliver bytes from end i to end 1-i
    Link::Dir& d = l->d[i];
    d.pumping = false;
    if (d.blocked_until > now_ns) { schedulePump(l, i, true); return; }
    int to = 1 - i;
    if (l->silent[to]) return;           // host is gone: nothing answers
    if (!d.snd.empty()) {
        Sock* r = l->end[to];
        if (!r || r->dead || (r->shut_rd && r->shut_wr)) {
            // data for a closed socket: reset
            if (!l->late_data[to]) { l->late_data[to] = true; ev("data for closed socket link %u", l->id); }
            l->d[to].purged += l->d[to].snd.size(); l->d[to].snd.clear();
            d.purged += d.snd.size(); d.snd.clear();
            sendRst(l, i, cfg.latency);
            return;
        }
        size_t room = d.rcv.size() < d.rcvcap ? d.rcvcap - d.rcv.size() : 0;
        size_t n = std::min(room, d.snd.size());
        if (n > 1 && chance(ST_NET, cfg.p_seg)) { n = 1 + pick(ST_NET, (u32)std::min<size_t>(n - 1, 40)); stat("fault.net_segment"); }
        if (n) {
            d.rcv.append(d.snd, 0, n); d.snd.erase(0, n); d.total_delivered += n;
            l->last_arrive[to] = now_ns;
        }
        if (!d.snd.empty() && n) schedulePump(l, i, true);
    }
    if (d.snd.empty() && d.fin && !d.fin_done) { d.fin_done = true; ev("fin arrives link %u end %d", l->id, to); }
}
ssize_t sockSend(std::shared_ptr<Sock> s, const char* b, size_t n, int flags) {
    if (s->connecting) { if (s->nonblock || flags & MSG_DONTWAIT) { errno = EAGAIN; return -1; } Sock* p = s.get(); block("send", [p] { return !p->connecting; }); }
    if (!s->link) { errno = ENOTCONN; return -1; }
    size_t done = 0;
    bool nb = s->nonblock || (flags & MSG_DONTWAIT);
    while (done < n || n == 0) {
        bool gone = s->shut_wr || s->dead || (!s->tcp && s->peer_gone) || (!s->tcp && s->peer_shut_rd);
        if (gone) {
            if (done) return done;
            if (s->tcp && s->err) { errno = s->err; s->err = 0; if (errno != EPIPE) return -1; }
            if (!(flags & MSG_NOSIGNAL)) violate("sigpipe", "process %s killed by SIGPIPE (write to a closed connection)", s->node->name.c_str());
            errno = EPIPE; return -1;
        }
        if (n == 0) return 0;
        if (nb && !cur->user && chance(ST_FAULT, cfg.p_again)) { stat("fault.spurious_eagain"); errno = EAGAIN; return -1; }
        Link::Dir& d = s->out();
        size_t used = s->tcp ? d.snd.size() : d.rcv.size();
        size_t room = used < d.sndcap ? d.sndcap - used : 0;
        size_t k = std::min(room, n - done);
        if (k && nb && k == n - done && k > 1 && chance(ST_NET, cfg.p_seg * 0.3)) { k = 1 + pick(ST_NET, (u32)std::min<size_t>(k - 1, 64)); stat("fault.short_write"); }
        if (k) {
            if (s->tcp) d.snd.append(b + done, k); else { d.rcv.append(b + done, k); d.total_delivered += k; s->link->last_arrive[1 - s->side] = now_ns; }
            d.total_sent += k; done += k;
            if (s->tcp) schedulePump(s->link, s->side, false);
            if (nb) return done;
            continue;
        }
        if (nb) { if (done) return done; errno = EAGAIN; return -1; }
        Sock* p = s.get();
        block("send", [p] { return (p->ready() & POLLOUT) || p->dead || p->peer_gone; });
    }
    return done;
}
ssize_t sockRecv(std::shared_ptr<Sock> s, char* b, size_t n, int flags) {
    if (!s->link && !s->connecting) { if (s->err) { errno = s->err; s->err = 0; } else errno = ENOTCONN; return -1; }
    bool nb = s->nonblock || (flags & MSG_DONTWAIT);
    size_t done = 0;
    for (;;) {
        if (s->link) {
            Link::Dir& d = s->in();
            if (n == 0) return 0;
            if (nb && !cur->user && chance(ST_FAULT, cfg.p_again)) { stat("fault.spurious_eagain"); errno = EAGAIN; return -1; }
            if (!d.rcv.empty()) {
                size_t k = std::min(n - done, d.rcv.size());
                if (k > 1 && chance(ST_NET, cfg.p_seg * 0.3)) { k = 1 + pick(ST_NET, (u32)std::min<size_t>(k - 1, 64)); stat("fault.short_read"); }
                memcpy(b + done, d.rcv.data(), k);
                if (flags & MSG_PEEK) return k;
                d.rcv.erase(0, k); d.total_recv += k; s->link->last_read[s->side] = now_ns; done += k;
                if (s->tcp && !d.snd.empty()) schedulePump(s->link, 1 - s->side, true);
                if (!(flags & MSG_WAITALL) || done == n) return done;
                continue;
            }
            if (done) return done;
            if (s->err) { errno = s->err; s->err = 0; return -1; }
            if (d.fin_done || s->shut_rd || s->dead || s->peer_gone) return 0;
        }
        if (nb) { errno = EAGAIN; return -1; }
        Sock* p = s.get();
        block("recv", [p] { return !p->connecting && (p->ready() & (POLLIN | POLLERR | POLLHUP)) != 0; });
        if (!s->link) { errno = ENOTCONN; return -1; }
    }
}
int sockShutdown(std::shared_ptr<Sock> s, int how) {
    if (s->listening) { s->shut_rd = true; return 0; }
    if (!s->link || s->dead) { errno = ENOTCONN; return -1; }
    if (how == SHUT_RD || how == SHUT_RDWR) {
        s->shut_rd = true;
        if (!s->tcp && s->link->end[1 - s->side]) s->link->end[1 - s->side]->peer_shut_rd = true;
    }
    if ((how == SHUT_WR || how == SHUT_RDWR) && !s->shut_wr) {
        s->shut_wr = true;
        Link::Dir& d = s->out(); d.fin = true;
        if (s->tcp) schedulePump(s->link, s->side, false); else d.fin_done = true;
    }
    return 0;
}
void Sock::closed() {
    std::shared_ptr<Sock> hold;
    if (listening) {
        for (auto& l : g_listeners) if (l.get() == this) hold = l;
        g_listeners.erase(std::remove(g_listeners.begin(), g_listeners.end(), hold), g_listeners.end());
        for (auto& p : g_paths) if (p.second.listener == this) p.second.listener = nullptr;
        listening = false;
        for (auto& a : acceptq) { a->abort_close = true; a->closed(); }
        acceptq.clear();
        return;
    }
    connecting = false;
    for (auto& p : g_paths) if (p.second.listener == this) p.second.listener = nullptr;
    if (!link) return;
    Link* l = link; int me = side; Link::Dir &i = in(), &o = out();
    l->end[me] = nullptr; l->closed_at[me] = now_ns;
    Sock* peer = l->end[1 - me];
    if (l->silent[me]) return;
    if (!tcp) {
        if (peer) { peer->peer_gone = true; if (!i.rcv.empty()) peer->err = ECONNRESET; }
        if (!i.rcv.empty()) l->rst_close[me] = true;
        o.fin_done = true;
        return;
    }
    if (dead) return;
    if (!i.rcv.empty() || linger0 || abort_close) {
        l->rst_close[me] = true;
        ev("close with unread data: reset, link %u", l->id);
        o.purged += o.snd.size(); o.snd.clear();
        i.purged += i.snd.size(); i.snd.clear();
        sendRst(l, 1 - me, cfg.latency);
        return;
    }
    if (port && !i.fin_done) g_tw.push_back({port, now_ns + 60 * SEC});   // active closer
    o.fin = true; shut_rd = shut_wr = true;
    schedulePump(l, me, false);
    if (!i.snd.empty()) schedulePump(l, 1 - me, true);
}
void nodeCloseAll(Node* n, bool host) {
    for (auto l : g_links) for (int e = 0; e < 2; e++) if (host && l->node[e] == n) {
        l->silent[e] = true; l->d[e].blocked_until = NEVER;
    }
    for (size_t i = 0; i < n->fds.size(); i++) if (n->fds[i]) {
        auto f = n->fds[i]; n->fds[i] = nullptr;
        if (--f->refs == 0) f->closed();
    }
}
void netReset(Link* l) {
    if (l->net_reset) return;
    l->net_reset = true; stat("fault.net_reset"); ev("net reset link %u", l->id);
    for (int e = 0; e < 2; e++) {
        l->d[e].purged += l->d[e].snd.size(); l->d[e].snd.clear(); l->rst_seen[e] = true;
        if (l->end[e]) kill(l->end[e], ECONNRESET);
    }
}
void netBlock(Link* l, int dir, u64 until) { stat("fault.partition"); ev("partition link %u dir %d", l->id, dir); if (until > l->d[dir].blocked_until) l->d[dir].blocked_until = until; }
void netHeal(Link* l) {
    ev("heal link %u", l->id);
    for (int i = 0; i < 2; i++) if (!l->silent[i]) {
        l->d[i].blocked_until = 0;
        if (!l->d[i].snd.empty() || l->d[i].fin) schedulePump(l, i, true);
    }
}
void setBlackhole(u32 ip, u32 port, int mode) { if (mode) g_black[(u64)ip << 16 | port] = mode; else g_black.erase((u64)ip << 16 | port); }
bool pathExists(const std::string& p) { return g_paths.count(p); }
void touchPath(const std::string& p) { g_paths[p] = {false, nullptr}; }
bool listening(bool tcp, u32 ip, u32 port, const std::string& path) {
    for (auto& l : g_listeners) if (l->tcp == tcp && (tcp ? l->port == port && (l->addr == ip || !l->addr) : l->path == path)) return true;
    return false;
}

int k_socket(bool tcp) { return addFd(std::make_shared<Sock>(node(), tcp)); }
int k_bind_tcp(std::shared_ptr<Sock> s, u32 ip, u32 port) {
    if (s->bound) { errno = EINVAL; return -1; }
    if (g_black.count((u64)ip << 16 | 0xffff)) { errno = EADDRNOTAVAIL; return -1; }
    if (!port) port = g_ephemeral++;
    for (auto& l : g_listeners) if (l->tcp && l->port == port && (!l->addr || !ip || l->addr == ip)) { errno = EADDRINUSE; return -1; }
    if (!s->reuse) {
        for (auto& t : g_tw) if (t.first == port && t.second > now_ns) { ev("bind: TIME_WAIT"); errno = EADDRINUSE; return -1; }
        for (auto l : g_links) if (l->tcp && l->end[1] && l->end[1]->port == port) { errno = EADDRINUSE; return -1; }
    }
    s->bound = true; s->addr = ip; s->port = port; return 0;
}
int k_bind_unix(std::shared_ptr<Sock> s, const std::string& p) {
    if (s->bound) { errno = EINVAL; return -1; }
    if (p.empty()) { errno = EINVAL; return -1; }
    if (p.find("/missing/") != std::string::npos) { errno = ENOENT; return -1; }
    if (p.find("/denied/") != std::string::npos) { errno = EACCES; return -1; }
    if (g_paths.count(p)) { errno = EADDRINUSE; return -1; }
    g_paths[p] = {true, s.get()};
    s->bound = true; s->path = p; return 0;
}
int k_listen(std::shared_ptr<Sock> s, int backlog) {
    if (s->link || s->connecting) { errno = EINVAL; return -1; }
    if (node()->fail_listen) { stat("fault.listen_failed"); errno = EADDRINUSE; return -1; }   // someone else was faster
    if (s->tcp) for (auto& l : g_listeners) if (l != s && l->tcp && l->port == s->port && (l->addr == s->addr || !l->addr || !s->addr)) { errno = EADDRINUSE; return -1; }
    if (!s->bound) { if (!s->tcp) { errno = EINVAL; return -1; } s->port = g_ephemeral++; s->bound = true; }
    s->backlog = backlog < 1 ? 1 : backlog;
    if (!s->listening) { s->listening = true; g_listeners.push_back(s); }
    return 0;
}
static void noteLink(Fiber* f, u32 id) { for (; f; f = f->parent) f->last_connect_pair = id; }
static Link* establish(Sock* c, std::shared_ptr<Sock> l) {
    Link* k = new Link; k->id = (u32)g_links.size() + 1; k->tcp = c->tcp; k->established = now_ns;
    auto a = std::make_shared<Sock>(l->node, l->tcp); a->port = l->port; a->addr = l->addr; a->path = ""; a->connected = true;
    a->link = k; a->side = 1; c->link = k; c->side = 0; c->connected = true;
    k->end[0] = c; k->end[1] = a.get(); k->node[0] = c->node; k->node[1] = l->node;
    for (int i = 0; i < 2; i++) { k->d[i].sndcap = cfg.sndbuf; k->d[i].rcvcap = cfg.rcvbuf; k->last_read[i] = k->last_arrive[i] = now_ns; }
    g_links.push_back(k);
    noteLink(c->starter, k->id);
    l->acceptq.push_back(a);
    ev("established link %u", k->id);
    return k;
}
static std::shared_ptr<Sock> findTcp(u32 ip, u32 port) {
    for (auto& l : g_listeners) if (l->tcp && l->port == port && (l->addr == ip || !l->addr) && l->node->host_up) return l;
    return nullptr;
}
static void synArrives(std::shared_ptr<Sock> s, u32 ip, u32 port, int tries) {
    if (!s->connecting || s->refs == 0) return;
    auto it = g_black.find((u64)ip << 16 | port);
    int mode = it == g_black.end() ? 0 : it->second;
    if (mode == 1) return;                         // dropped; ETIMEDOUT event fires later
    if (mode == 3 && now_ns < s->conn_started + 1500 * MS) { at(s->conn_started + 1500 * MS, [s, ip, port, tries] { synArrives(s, ip, port, tries); }); return; }
    auto l = mode == 2 ? nullptr : findTcp(ip, port);
    if (!l) { at(now_ns + cfg.latency, [s] { if (s->connecting) { s->connecting = false; s->err = ECONNREFUSED; } }); return; }
    if (l->acceptq.size() > l->backlog) {          // SYN dropped, retransmitted
        if (tries < 7) at(now_ns + (SEC << tries), [s, ip, port, tries] { synArrives(s, ip, port, tries + 1); });
        return;
    }
    Link* k = establish(s.get(), l);
    s->connected = false;
    at(now_ns + cfg.latency, [s, k] { if (s->connecting) { s->connecting = false; s->connected = true; } (void)k; });
}
int sockConnectTcp(std::shared_ptr<Sock> s, u32 ip, u32 port, bool nb) {
    if (s->listening) { errno = EINVAL; return -1; }
    if (s->connecting) { errno = EALREADY; return -1; }
    if (s->link) { errno = EISCONN; return -1; }
    if (g_black.count((u64)ip << 16 | 0xfffe)) { errno = ENETUNREACH; return -1; }
    s->connecting = true; s->conn_started = now_ns; s->err = 0; s->starter = cur;
    at(now_ns + cfg.latency, [s, ip, port] { synArrives(s, ip, port, 0); });
    at(now_ns + 127 * SEC, [s] { if (s->connecting && s->refs) { s->connecting = false; s->err = ETIMEDOUT; } });
    if (nb) { errno = EINPROGRESS; return -1; }
    Sock* p = s.get();
    block("connect", [p] { return !p->connecting; }, NEVER, true);
    if (cur->interrupted) { errno = EINTR; return -1; }
    if (s->err) { errno = s->err; s->err = 0; if (!s->link) return -1; return -1; }
    return 0;
}
int sockConnectUnix(std::shared_ptr<Sock> s, const std::string& p, bool nb) {
    if (s->link) { errno = EISCONN; return -1; }
    s->starter = cur;
    for (;;) {
        auto it = g_paths.find(p);
        if (it == g_paths.end()) { errno = ENOENT; return -1; }
        Sock* l = it->second.listener;
        if (!it->second.sock || !l || !l->listening) { errno = ECONNREFUSED; return -1; }
        std::shared_ptr<Sock> ls;
        for (auto& x : g_listeners) if (x.get() == l) ls = x;
        if (!ls) { errno = ECONNREFUSED; return -1; }
        if (ls->acceptq.size() > ls->backlog) {
            if (nb) { errno = EAGAIN; return -1; }
            std::string path = p;
            block("connect", [path] { auto i = g_paths.find(path); return i == g_paths.end() || !i->second.listener || i->second.listener->acceptq.size() <= i->second.listener->backlog; }, NEVER, true);
            if (cur->interrupted) { errno = EINTR; return -1; }
            continue;
        }
        Link* k = establish(s.get(), ls);
        return 0;
    }
}
std::function<void(Node*, Link*)> onAccept;
int sockAccept(std::shared_ptr<Sock> s, int flags) {
    if (!s->listening) { errno = EINVAL; return -1; }
    if (chance(ST_FAULT, cfg.p_acceptfail)) {
        static const int E[] = {ECONNABORTED, EMFILE, ENFILE, ENOBUFS, EPROTO, ENETDOWN, ENOMEM};
        u32 k = pick(ST_FAULT, 7);
        stat("fault.accept_error");
        if (E[k] == ECONNABORTED && !s->acceptq.empty() && chance(ST_FAULT, 0.5) && s->acceptq.front()->link->node[0]->name == "raw") {
            auto a = s->acceptq.front(); s->acceptq.pop_front(); a->abort_close = true; a->closed();
        }
        ev("accept fails: %s", strerror(E[k]));
        errno = E[k]; return -1;
    }
    if (s->acceptq.empty()) {
        if (s->nonblock) { errno = EAGAIN; return -1; }
        Sock* p = s.get();
        block("accept", [p] { return !p->acceptq.empty() || !p->listening || p->shut_rd; }, NEVER, true);
        if (cur->interrupted) { errno = EINTR; return -1; }
        if (s->acceptq.empty()) { errno = EINVAL; return -1; }
    }
    auto a = s->acceptq.front();
    a->nonblock = flags & SOCK_NONBLOCK;
    int fd = addFd(a);
    if (fd < 0) { stat("fault.emfile"); return -1; }
    s->acceptq.pop_front();
    cur->last_accept_pair = a->link->id;
    ev("accepted link %u as %d", a->link->id, fd);
    a->link->accepted_at = now_ns; if (onAccept) onAccept(cur->node, a->link);
    return fd;
}
Link* linkOfFd(int fd) { auto s = getSock(fd, "link"); return s ? s->link : nullptr; }

// ---------------------------------------------------------------- poll
int k_poll(struct pollfd* p, unsigned long n, long long timeout_ns) {
    if (n > 4096) { errno = EINVAL; return -1; }
    std::vector<std::shared_ptr<File>> f(n);
    std::vector<bool> bad(n);
    Node* nd = node();
    for (unsigned long i = 0; i < n; i++) {
        if (p[i].fd < 0) continue;
        if ((size_t)p[i].fd >= nd->fds.size() || !nd->fds[p[i].fd]) { bad[i] = true; badfd(p[i].fd, "poll"); }
        else f[i] = nd->fds[p[i].fd];
    }
    // events are asked for at call time
    std::vector<short> want(n);
    for (unsigned long i = 0; i < n; i++) want[i] = (short)(p[i].events | POLLERR | POLLHUP);
    auto check = [&]() -> bool {
        for (unsigned long i = 0; i < n; i++) { if (bad[i]) return true; if (f[i] && (f[i]->ready() & want[i])) return true; }
        return false;
    };
    bool ok = check();
    if (!ok && timeout_ns != 0) {
        u64 dl = timeout_ns < 0 ? NEVER : now_ns + (u64)((double)timeout_ns / nd->rate);
        block("poll", check, dl, true);
    }
    int cnt = 0;
    if (!cur->interrupted || ok) for (unsigned long i = 0; i < n; i++) {
        p[i].revents = bad[i] ? POLLNVAL : f[i] ? (short)(f[i]->ready() & want[i]) : 0;
        if (p[i].revents) { cnt++; if (f[i]) vcAcquire(f[i]->vc); }
    } else for (unsigned long i = 0; i < n; i++) p[i].revents = 0;
    cur->wakeups++;
    if (timeout_ns != 0 || ok) stat("poll.returns");
    bool intr = cur->interrupted && !ok;
    cur->interrupted = false;
    if (intr) { errno = EINTR; return -1; }
    return cnt;
}

// ---------------------------------------------------------------- raw interface for the harness
int k_connect_tcp(int fd, u32 ip, u32 port) { auto s = getSock(fd, "connect"); return s ? sockConnectTcp(s, ip, port, s->nonblock) : -1; }
int k_connect_unix(int fd, const std::string& p) { auto s = getSock(fd, "connect"); return s ? sockConnectUnix(s, p, s->nonblock) : -1; }
ssize_t k_send(int fd, const void* b, size_t n, int flags) { auto s = getSock(fd, "send"); return s ? sockSend(s, (const char*)b, n, flags) : -1; }
ssize_t k_recv(int fd, void* b, size_t n, int flags) { auto s = getSock(fd, "recv"); return s ? sockRecv(s, (char*)b, n, flags) : -1; }
int k_shutdown(int fd, int how) { auto s = getSock(fd, "shutdown"); return s ? sockShutdown(s, how) : -1; }
int k_unlink(const std::string& p) {
    if (p.find("/denied/") != std::string::npos) { errno = EACCES; return -1; }
    auto it = g_paths.find(p); if (it == g_paths.end()) { errno = ENOENT; return -1; }
    g_paths.erase(it); return 0;
}
}
