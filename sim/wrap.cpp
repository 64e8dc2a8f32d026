// Link-time seam: every system and thread call of the library lands here (ld --wrap).
// Outside of a simulated run the real functions are used.
#include "kernel.hpp"
#include <arpa/inet.h>
#include <cerrno>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <cstdlib>
#include <linux/futex.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <unistd.h>
using namespace sim;

namespace sim {
struct CondWaiter { bool signaled = false; };
static std::unordered_map<void*, std::deque<CondWaiter*>> g_conds;
static std::unordered_map<void*, VC> g_mvc;
struct Rw { Fiber* w = nullptr; std::map<u32, int> r; };
static std::unordered_map<void*, Rw> g_rw;
static std::unordered_map<void*, unsigned> g_sem;
static std::unordered_map<void*, Fiber*> g_guards;
static std::unordered_map<unsigned, void*> g_tls;
void wrapStaticReset();
void wrapReset() { wrapStaticReset(); g_conds.clear(); g_mvc.clear(); g_rw.clear(); g_sem.clear(); g_guards.clear(); }
VC& mutexVC(void* m) { return g_mvc[staticKey(m)]; }
static std::unordered_set<void*> g_smx;
void wrapStaticReset() { for (auto m : g_smx) { ((pthread_mutex_t*)m)->__data.__owner = 0; ((pthread_mutex_t*)m)->__data.__count = 0; } g_smx.clear(); }
[[noreturn]] static void unsupported(const char* what) {
    fprintf(stderr, "SIM-UNSUPPORTED call: %s\n", what); fflush(stderr); _exit(97);
}
static void touch(const void* p, size_t n, const char* what) {
    if (heap::owns(p) && heap::poisoned(p, n)) violate("use-after-free", "%s on freed memory", what);
}
static u64 toNs(const timespec* t) { return (u64)t->tv_sec * SEC + t->tv_nsec; }
static i64 wallNs() { return (i64)k_monotonic() + 1700000000ll * (i64)SEC + (cur && cur->node ? cur->node->wall_offset : 0); }
static u64 absDeadline(clockid_t c, const timespec* t) {
    i64 ref = c == CLOCK_REALTIME ? wallNs() : (i64)k_monotonic();
    i64 d = (i64)toNs(t) - ref; if (d < 0) d = 0;
    double r = cur->node ? cur->node->rate : 1.0;
    return now_ns + (u64)((double)d / r);
}
}
#define R(x) __real_##x
#define IN (sim::cur != nullptr)

extern "C" {
// ------------------------------------------------------------ poll family
int R(poll)(pollfd*, nfds_t, int);
int __wrap_poll(pollfd* p, nfds_t n, int t) {
    if (!IN) return R(poll)(p, n, t);
    App _k; yieldPoint("poll");
    return k_poll(p, n, t < 0 ? -1 : (long long)t * (long long)MS);
}
int __wrap___poll_chk(pollfd* p, nfds_t n, int t, size_t) { return __wrap_poll(p, n, t); }
int __wrap_ppoll(pollfd* p, nfds_t n, const timespec* t, const sigset_t*) {
    if (!IN) return R(poll)(p, n, t ? (int)(t->tv_sec * 1000 + t->tv_nsec / 1000000) : -1);
    App _k; yieldPoint("poll");
    return k_poll(p, n, t ? (long long)toNs(t) : -1);
}
int R(select)(int, fd_set*, fd_set*, fd_set*, timeval*);
int __wrap_select(int n, fd_set* r, fd_set* w, fd_set* e, timeval* t) {
    if (!IN) return R(select)(n, r, w, e, t);
    App _k; yieldPoint("select");
    std::vector<pollfd> p;
    for (int i = 0; i < n; i++) {
        short ev = 0;
        if (r && FD_ISSET(i, r)) ev |= POLLIN;
        if (w && FD_ISSET(i, w)) ev |= POLLOUT;
        if (ev || (e && FD_ISSET(i, e))) p.push_back({i, ev, 0});
    }
    int k = k_poll(p.data(), p.size(), t ? (long long)t->tv_sec * (long long)SEC + t->tv_usec * 1000ll : -1);
    if (k < 0) return k;
    if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (e) FD_ZERO(e);
    int c = 0;
    for (auto& x : p) {
        if (x.revents & POLLNVAL) { errno = EBADF; return -1; }
        if (r && (x.events & POLLIN) && (x.revents & (POLLIN | POLLHUP | POLLERR))) { FD_SET(x.fd, r); c++; }
        if (w && (x.events & POLLOUT) && (x.revents & (POLLOUT | POLLERR))) { FD_SET(x.fd, w); c++; }
    }
    return c;
}
int __wrap_pselect(int n, fd_set* r, fd_set* w, fd_set* e, const timespec* t, const sigset_t*) {
    timeval v; if (t) { v.tv_sec = t->tv_sec; v.tv_usec = t->tv_nsec / 1000; }
    return __wrap_select(n, r, w, e, t ? &v : 0);
}
int __wrap_epoll_create(int) { if (!IN) { errno = ENOSYS; return -1; } App _k; yieldPoint("epoll_create"); return k_epoll_create(); }
int __wrap_epoll_create1(int) { return __wrap_epoll_create(1); }
int __wrap_epoll_ctl(int ep, int op, int fd, epoll_event* e) {
    if (!IN) unsupported("epoll_ctl outside");
    App _k; yieldPoint("epoll_ctl");
    if (e && (e->events & EPOLLET)) unsupported("EPOLLET");
    return k_epoll_ctl(ep, op, fd, e ? e->events : 0, e ? e->data.u64 : 0);
}
int __wrap_epoll_wait(int ep, epoll_event* e, int max, int t) {
    if (!IN) unsupported("epoll_wait outside");
    App _k; yieldPoint("poll");
    if (max > 1024) max = 1024;
    std::vector<u32> ev(max > 0 ? max : 1); std::vector<u64> d(ev.size());
    int n = k_epoll_wait(ep, ev.data(), d.data(), max, t < 0 ? -1 : (long long)t * (long long)MS);
    for (int i = 0; i < n; i++) { e[i].events = ev[i]; e[i].data.u64 = d[i]; }
    return n;
}
int __wrap_epoll_pwait(int ep, epoll_event* e, int max, int t, const sigset_t*) { return __wrap_epoll_wait(ep, e, max, t); }

// ------------------------------------------------------------ read/write
ssize_t R(read)(int, void*, size_t);
ssize_t R(write)(int, const void*, size_t);
ssize_t __wrap_read(int fd, void* b, size_t n) {
    if (!IN) return R(read)(fd, b, n);
    App _k; yieldPoint("read");
    auto f = getFile(fd, "read"); if (!f) return -1;
    if (n) touch(b, n < 8 ? n : 8, "read()");
    if (f->kind == K_SOCK) return sockRecv(std::static_pointer_cast<Sock>(f), (char*)b, n, 0);
    return k_read_special(f, b, n);
}
ssize_t __wrap_write(int fd, const void* b, size_t n) {
    if (!IN) return R(write)(fd, b, n);
    if ((fd == 1 || fd == 2) && !cur->node->fds[fd]) return (ssize_t)n;
    App _k; yieldPoint("write");
    auto f = getFile(fd, "write"); if (!f) return -1;
    if (f->kind == K_SOCK) return sockSend(std::static_pointer_cast<Sock>(f), (const char*)b, n, 0);
    return k_write_special(f, b, n);
}
static void checkBuf(const void* b, size_t n, bool wr, const char* what) {
    if (!n) return;
    if (heap::owns(b) && heap::poisoned(b, n)) violate("heap-overflow", "%s: %zu-byte buffer is not inside a live allocation", what, n);
    if (n) sim_mem_access((void*)b, (u32)n, wr, __builtin_return_address(0));
}
ssize_t __wrap_recv(int fd, void* b, size_t n, int fl) {
    if (!IN) unsupported("recv outside");
    checkBuf(b, n, true, "recv");
    App _k; yieldPoint("recv");
    auto s = getSock(fd, "recv"); if (!s) return -1;
    ssize_t r = sockRecv(s, (char*)b, n, fl);
    ev("recv(%d,%zu)=%zd", fd, n, r);
    return r;
}
ssize_t __wrap_send(int fd, const void* b, size_t n, int fl) {
    if (!IN) unsupported("send outside");
    checkBuf(b, n, false, "send");
    App _k; yieldPoint("send");
    auto s = getSock(fd, "send"); if (!s) return -1;
    ssize_t r = sockSend(s, (const char*)b, n, fl);
    ev("send(%d,%zu)=%zd", fd, n, r);
    return r;
}
ssize_t __wrap___recv_chk(int fd, void* b, size_t n, size_t, int fl) { return __wrap_recv(fd, b, n, fl); }
ssize_t __wrap___read_chk(int fd, void* b, size_t n, size_t) { return __wrap_read(fd, b, n); }
ssize_t __wrap_recvfrom(int fd, void* b, size_t n, int fl, sockaddr*, socklen_t*) { return __wrap_recv(fd, b, n, fl); }
ssize_t __wrap_sendto(int fd, const void* b, size_t n, int fl, const sockaddr*, socklen_t) { return __wrap_send(fd, b, n, fl); }
static ssize_t vio(int fd, const iovec* v, int c, bool wr, int fl, bool sock) {
    // vectored I/O is done as one transfer over a joined buffer
    size_t tot = 0; for (int i = 0; i < c; i++) { checkBuf(v[i].iov_base, v[i].iov_len, !wr, wr ? "writev" : "readv"); tot += v[i].iov_len; }
    if (wr && (fd == 1 || fd == 2)) return (ssize_t)tot;
    App _k; yieldPoint(wr ? "send" : "recv");
    (void)sock;
    auto f = getFile(fd, wr ? "writev" : "readv"); if (!f) return -1;
    if (f->kind != K_SOCK) { errno = EINVAL; return -1; }
    auto s = std::static_pointer_cast<Sock>(f);
    std::string b(tot, 0); size_t o = 0;
    if (wr) { for (int i = 0; i < c; i++) { memcpy(&b[o], v[i].iov_base, v[i].iov_len); o += v[i].iov_len; } return sockSend(s, b.data(), tot, fl); }
    ssize_t r = sockRecv(s, &b[0], tot, fl);
    for (int i = 0; r > 0 && o < (size_t)r; i++) { size_t k = v[i].iov_len; if (k > (size_t)r - o) k = (size_t)r - o; memcpy(v[i].iov_base, &b[o], k); o += k; }
    return r;
}
ssize_t R(writev)(int, const iovec*, int);
ssize_t __wrap_writev(int fd, const iovec* v, int c) { if (!IN) return R(writev)(fd, v, c); return vio(fd, v, c, true, 0, false); }
ssize_t __wrap_readv(int fd, const iovec* v, int c) { if (!IN) unsupported("readv outside"); return vio(fd, v, c, false, 0, false); }
ssize_t __wrap_sendmsg(int fd, const msghdr* m, int fl) { if (!IN) unsupported("sendmsg outside"); return vio(fd, m->msg_iov, (int)m->msg_iovlen, true, fl, true); }
ssize_t __wrap_recvmsg(int fd, msghdr* m, int fl) { if (!IN) unsupported("recvmsg outside"); return vio(fd, m->msg_iov, (int)m->msg_iovlen, false, fl, true); }
int R(close)(int);
int __wrap_close(int fd) { if (!IN) return R(close)(fd); App _k; yieldPoint("close"); return k_close(fd); }
int __wrap_shutdown(int fd, int how) { if (!IN) unsupported("shutdown outside"); App _k; yieldPoint("shutdown"); auto s = getSock(fd, "shutdown"); return s ? sockShutdown(s, how) : -1; }
int __wrap_dup(int fd) { if (!IN) unsupported("dup outside"); App _k; yieldPoint("dup"); return k_dup(fd); }
int R(dup2)(int, int); int __wrap_dup2(int a, int b) { if (!IN) return R(dup2)(a, b); unsupported("dup2"); }
int __wrap_dup3(int, int, int) { unsupported("dup3"); }
int R(pipe2)(int*, int); int __wrap_pipe2(int* p, int fl) { if (!IN) return R(pipe2)(p, fl); App _k; yieldPoint("pipe"); return k_pipe(p, fl); }
int __wrap_pipe(int* p) { return __wrap_pipe2(p, 0); }
int __wrap_socketpair(int, int, int, int*) { unsupported("socketpair"); }

// ------------------------------------------------------------ sockets
int __wrap_socket(int dom, int type, int proto) {
    if (!IN) unsupported("socket outside");
    App _k; yieldPoint("socket");
    if ((dom != AF_INET && dom != AF_UNIX) || (type & 0xf) != SOCK_STREAM) { errno = EAFNOSUPPORT; return -1; }
    if (type & ~(0xf | SOCK_NONBLOCK | SOCK_CLOEXEC)) { errno = EINVAL; return -1; }
    if (proto && proto != (dom == AF_INET ? (int)IPPROTO_TCP : PF_UNIX)) { errno = EPROTONOSUPPORT; return -1; }
    int fd = k_socket(dom == AF_INET);
    if (fd >= 0 && (type & SOCK_NONBLOCK)) getFile(fd, "socket")->nonblock = true;
    return fd;
}
static bool unixPath(const sockaddr* a, socklen_t l, std::string& p) {
    if (a->sa_family != AF_UNIX) { errno = EINVAL; return false; }
    size_t max = l > 2 ? l - 2 : 0; if (max > sizeof(((sockaddr_un*)0)->sun_path)) { errno = EINVAL; return false; }
    const char* s = ((const sockaddr_un*)a)->sun_path;
    p.assign(s, strnlen(s, max));
    return true;
}
int __wrap_connect(int fd, const sockaddr* a, socklen_t l) {
    if (!IN) unsupported("connect outside");
    App _k; yieldPoint("connect");
    auto s = getSock(fd, "connect"); if (!s) return -1;
    if (a->sa_family == AF_INET) {
        if (!s->tcp) { errno = EPROTOTYPE; return -1; }
        auto in = (const sockaddr_in*)a;
        return sockConnectTcp(s, ntohl(in->sin_addr.s_addr), ntohs(in->sin_port), s->nonblock);
    }
    if (s->tcp) { errno = EAFNOSUPPORT; return -1; }
    std::string p; if (!unixPath(a, l, p)) return -1;
    return sockConnectUnix(s, p, s->nonblock);
}
int __wrap_bind(int fd, const sockaddr* a, socklen_t l) {
    if (!IN) unsupported("bind outside");
    App _k; yieldPoint("bind");
    auto s = getSock(fd, "bind"); if (!s) return -1;
    if (s->tcp) { auto in = (const sockaddr_in*)a; if (a->sa_family != AF_INET) { errno = EAFNOSUPPORT; return -1; } return k_bind_tcp(s, ntohl(in->sin_addr.s_addr), ntohs(in->sin_port)); }
    std::string p; if (!unixPath(a, l, p)) return -1;
    return k_bind_unix(s, p);
}
int __wrap_listen(int fd, int b) { if (!IN) unsupported("listen outside"); App _k; yieldPoint("listen"); auto s = getSock(fd, "listen"); return s ? k_listen(s, b) : -1; }
int __wrap_accept4(int fd, sockaddr*, socklen_t* l, int fl) {
    if (!IN) unsupported("accept outside");
    App _k; yieldPoint("accept");
    if (fl & ~(SOCK_NONBLOCK | SOCK_CLOEXEC)) { errno = EINVAL; return -1; }
    if (l) *l = 0;
    auto s = getSock(fd, "accept"); return s ? sockAccept(s, fl) : -1;
}
int __wrap_accept(int fd, sockaddr* a, socklen_t* l) { return __wrap_accept4(fd, a, l, 0); }
int __wrap_getsockopt(int fd, int lev, int opt, void* v, socklen_t* l) {
    if (!IN) unsupported("getsockopt outside");
    App _k; yieldPoint("getsockopt");
    auto s = getSock(fd, "getsockopt"); if (!s) return -1;
    int r = 0;
    if (lev == SOL_SOCKET) {
        if (opt == SO_DOMAIN) r = s->tcp ? AF_INET : AF_UNIX;
        else if (opt == SO_ERROR) { r = s->err; s->err = 0; }
        else if (opt == SO_TYPE) r = SOCK_STREAM;
        else if (opt == SO_ACCEPTCONN) r = s->listening;
        else if (opt == SO_SNDBUF) r = (int)cfg.sndbuf;
        else if (opt == SO_RCVBUF) r = (int)cfg.rcvbuf;
    }
    if (v && l && *l >= 4) { memcpy(v, &r, 4); *l = 4; }
    return 0;
}
int __wrap_setsockopt(int fd, int lev, int opt, const void* v, socklen_t l) {
    if (!IN) unsupported("setsockopt outside");
    App _k; yieldPoint("setsockopt");
    auto s = getSock(fd, "setsockopt"); if (!s) return -1;
    if (lev == SOL_SOCKET && opt == SO_REUSEADDR && l >= 4) s->reuse = *(const int*)v != 0;
    if (lev == SOL_SOCKET && opt == SO_LINGER && l >= sizeof(linger)) { auto g = (const linger*)v; s->linger0 = g->l_onoff && !g->l_linger; if (g->l_onoff && g->l_linger) unsupported("SO_LINGER with a time"); }
    if (lev == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO)) unsupported("socket time-outs");
    return 0;
}
static int nameOf(std::shared_ptr<Sock> s, bool peer, sockaddr* a, socklen_t* l) {
    if (peer && (!s->link || s->dead)) { errno = ENOTCONN; return -1; }
    if (s->tcp) { sockaddr_in x; memset(&x, 0, sizeof x); x.sin_family = AF_INET; x.sin_port = htons((uint16_t)s->port); x.sin_addr.s_addr = htonl(peer ? s->link->node[1 - s->side]->ip : s->addr); socklen_t n = *l < sizeof x ? *l : sizeof x; memcpy(a, &x, n); *l = sizeof x; }
    else { sa_family_t f = AF_UNIX; if (*l >= 2) memcpy(a, &f, 2); *l = 2; }
    return 0;
}
int __wrap_getsockname(int fd, sockaddr* a, socklen_t* l) { if (!IN) unsupported("getsockname"); App _k; yieldPoint("getsockname"); auto s = getSock(fd, "getsockname"); return s ? nameOf(s, false, a, l) : -1; }
int __wrap_getpeername(int fd, sockaddr* a, socklen_t* l) { if (!IN) unsupported("getpeername"); App _k; yieldPoint("getpeername"); auto s = getSock(fd, "getpeername"); return s ? nameOf(s, true, a, l) : -1; }
static int doFcntl(int fd, int cmd, long arg) {
    App _k; yieldPoint("fcntl");
    auto f = getFile(fd, "fcntl"); if (!f) return -1;
    switch (cmd) {
        case F_GETFL: return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
        case F_SETFL: f->nonblock = (arg & O_NONBLOCK) != 0; return 0;
        case F_GETFD: case F_SETFD: return 0;
        case F_DUPFD: case F_DUPFD_CLOEXEC: return k_dup(fd);
    }
    unsupported("fcntl command");
}
int __wrap_fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); if (!IN) unsupported("fcntl outside"); return doFcntl(fd, cmd, a); }
int __wrap_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); if (!IN) unsupported("fcntl outside"); return doFcntl(fd, cmd, a); }
int R(ioctl)(int, unsigned long, ...);
int __wrap_ioctl(int fd, unsigned long rq, ...) {
    va_list ap; va_start(ap, rq); void* a = va_arg(ap, void*); va_end(ap);
    if (!IN) return R(ioctl)(fd, rq, a);
    App _k; yieldPoint("ioctl");
    auto f = getFile(fd, "ioctl"); if (!f) return -1;
    if (rq == FIONBIO) { f->nonblock = *(int*)a != 0; return 0; }
    if (rq == FIONREAD) { if (f->kind != K_SOCK) { errno = EINVAL; return -1; } auto s = (Sock*)f.get(); *(int*)a = s->link ? (int)s->in().rcv.size() : 0; return 0; }
    unsupported("ioctl request");
}
// ------------------------------------------------------------ eventfd, timerfd
int __wrap_eventfd(unsigned v, int fl) { if (!IN) unsupported("eventfd outside"); App _k; yieldPoint("eventfd"); return k_eventfd(v, fl); }
int __wrap_eventfd_read(int fd, eventfd_t* v) { return __wrap_read(fd, v, 8) == 8 ? 0 : -1; }
int __wrap_eventfd_write(int fd, eventfd_t v) { return __wrap_write(fd, &v, 8) == 8 ? 0 : -1; }
int __wrap_timerfd_create(int clk, int fl) { if (!IN) unsupported("timerfd outside"); App _k; yieldPoint("timerfd_create"); if (clk != CLOCK_MONOTONIC && clk != CLOCK_REALTIME && clk != CLOCK_BOOTTIME) { errno = EINVAL; return -1; } return k_timerfd_create(fl); }
int __wrap_timerfd_settime(int fd, int fl, const itimerspec* n, itimerspec* o) { if (!IN) unsupported("timerfd"); App _k; yieldPoint("timerfd_settime"); return k_timerfd_settime(fd, fl & TFD_TIMER_ABSTIME, n, o); }
int __wrap_timerfd_gettime(int fd, itimerspec* o) {
    if (!IN) unsupported("timerfd"); App _k; yieldPoint("timerfd_gettime");
    auto f = getFile(fd, "timerfd_gettime"); if (!f) return -1;
    if (f->kind != K_TIMER) { errno = EINVAL; return -1; }
    auto t = (TimerFd*)f.get(); memset(o, 0, sizeof *o);
    if (t->expire != NEVER) { u64 d = t->expire > now_ns ? t->expire - now_ns : 0; d = (u64)((double)d * cur->node->rate); o->it_value.tv_sec = d / SEC; o->it_value.tv_nsec = d % SEC; }
    return 0;
}
// ------------------------------------------------------------ paths
int R(access)(const char*, int); int R(unlink)(const char*);
int __wrap_access(const char* p, int m) { if (!IN) return R(access)(p, m); App _k; yieldPoint("access"); if (pathExists(p)) return 0; errno = ENOENT; return -1; }
int __wrap_unlink(const char* p) { if (!IN) return R(unlink)(p); App _k; yieldPoint("unlink"); return k_unlink(p); }
int R(remove)(const char*);
int __wrap_remove(const char* p) { if (!IN) return R(remove)(p); App _k; yieldPoint("unlink"); return k_unlink(p); }
int R(stat)(const char*, struct stat*);
int __wrap_stat(const char* p, struct stat* s) { if (!IN) return R(stat)(p, s); App _k; yieldPoint("stat"); if (!pathExists(p)) { errno = ENOENT; return -1; } memset(s, 0, sizeof *s); s->st_mode = S_IFSOCK | 0755; return 0; }
int R(lstat)(const char*, struct stat*);
int __wrap_lstat(const char* p, struct stat* s) { if (!IN) return R(lstat)(p, s); return __wrap_stat(p, s); }

// ------------------------------------------------------------ time
static int doSleep(u64 ns, u64* left) {
    App _k; yieldPoint("sleep");
    double r = cur->node ? cur->node->rate : 1.0; u64 end = now_ns + (u64)((double)ns / r);
    block("sleep", nullptr, end, true);
    bool i = cur->interrupted; cur->interrupted = false;
    if (i && left) *left = end > now_ns ? end - now_ns : 0;
    return i;
}
unsigned R(sleep)(unsigned);
unsigned __wrap_sleep(unsigned s) { if (!IN) return R(sleep)(s); u64 l = 0; return doSleep(s * SEC, &l) ? (unsigned)(l / SEC) : 0; }
int R(usleep)(useconds_t);
int __wrap_usleep(useconds_t u) { if (!IN) return R(usleep)(u); if (doSleep(u * US, 0)) { errno = EINTR; return -1; } return 0; }
int R(nanosleep)(const timespec*, timespec*);
int __wrap_nanosleep(const timespec* t, timespec* rem) { if (!IN) return R(nanosleep)(t, rem); u64 l = 0; if (doSleep(toNs(t), &l)) { if (rem) { rem->tv_sec = l / SEC; rem->tv_nsec = l % SEC; } errno = EINTR; return -1; } return 0; }
int __wrap_clock_nanosleep(clockid_t c, int fl, const timespec* t, timespec* rem) {
    if (!IN) unsupported("clock_nanosleep outside");
    if (fl & TIMER_ABSTIME) { u64 d = absDeadline(c, t); u64 l; return doSleep(d > now_ns ? d - now_ns : 0, &l) ? EINTR : 0; }
    return __wrap_nanosleep(t, rem) ? errno : 0;
}
int R(clock_gettime)(clockid_t, timespec*);
int __wrap_clock_gettime(clockid_t c, timespec* t) {
    if (!IN) return R(clock_gettime)(c, t);
    u64 v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? (u64)wallNs() : k_monotonic();
    t->tv_sec = v / SEC; t->tv_nsec = v % SEC; return 0;
}
int R(gettimeofday)(timeval*, void*);
int __wrap_gettimeofday(timeval* t, void* z) { if (!IN) return R(gettimeofday)(t, z); u64 v = (u64)wallNs(); t->tv_sec = v / SEC; t->tv_usec = (v % SEC) / 1000; return 0; }
time_t R(time)(time_t*);
time_t __wrap_time(time_t* p) { if (!IN) return R(time)(p); time_t t = (time_t)(wallNs() / (i64)SEC); if (p) *p = t; return t; }
int R(sched_yield)();
int __wrap_sched_yield() { if (!IN) return R(sched_yield)(); App _k; yieldPoint("sched_yield"); forceYield(); return 0; }

// ------------------------------------------------------------ threads
int R(pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    if (!IN) return R(pthread_create)(t, a, fn, arg);
    int il = cur->in_lib;
    App _k; yieldPoint("thread-create");
    char nm[40]; snprintf(nm, sizeof nm, "%s/lib", cur->node ? cur->node->name.c_str() : "?");
    Fiber* f = spawn(cur->node, nm, [fn, arg] { fn(arg); }, false);
    f->in_lib = il;
    *t = f->id;
    if (a) { int d = 0; pthread_attr_getdetachstate(a, &d); if (d == PTHREAD_CREATE_DETACHED) f->detached = true; }
    ev("thread %u created", f->id);
    stat("threads");
    return 0;
}
int R(pthread_join)(pthread_t, void**);
int __wrap_pthread_join(pthread_t t, void** r) {
    if (!IN) return R(pthread_join)(t, r);
    App _k; yieldPoint("join");
    Fiber* f = fiberByPthread(t);
    if (!f || f->joined || f->detached) violate("thread-misuse", "join of a thread that was already joined or detached");
    if (f == cur) return EDEADLK;
    block("join", [f] { return f->state == Fiber::DONE; });
    f->joined = true; vcAcquire(f->vc);
    if (r) *r = nullptr;
    return 0;
}
int R(pthread_detach)(pthread_t);
int __wrap_pthread_detach(pthread_t t) {
    if (!IN) return R(pthread_detach)(t);
    App _k; yieldPoint("detach");
    Fiber* f = fiberByPthread(t);
    if (!f || f->joined || f->detached) violate("thread-misuse", "detach of a thread that was already joined or detached");
    f->detached = true; return 0;
}
pthread_t R(pthread_self)();
pthread_t __wrap_pthread_self() { return IN ? (pthread_t)cur->id : R(pthread_self)(); }

// mutex state lives in the mutex itself: __owner = fiber id, __count = depth
static inline void deadlockCheck(pthread_mutex_t* m) {
    Fiber* f = cur; pthread_mutex_t* x = m; std::string chain;
    for (int i = 0; i < 1000 && x; i++) {
        Fiber* o = fiberByPthread((unsigned long)x->__data.__owner);
        if (!o) return;
        chain += " <- held by " + o->name + "#" + std::to_string(o->id);
        if (o == f) violate("deadlock", "mutex wait cycle: %s#%u%s; %s", f->name.c_str(), f->id, chain.c_str(), describeFibers().c_str());
        if (o->state == Fiber::DONE) violate("deadlock", "mutex held by a finished thread (%s#%u)", o->name.c_str(), o->id);
        if (o->state != Fiber::BLOCKED) return;
        x = (pthread_mutex_t*)o->wait_mutex;
    }
}
static int mlock(pthread_mutex_t* m, u64 dl, bool quiet) {
    Fiber* f = cur;
    touch(m, sizeof *m, "mutex lock");
    int kind = m->__data.__kind & 3;
    if (m->__data.__owner == (int)f->id) {
        if (kind == PTHREAD_MUTEX_RECURSIVE_NP) { m->__data.__count++; return 0; }
        if (kind == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
        if (dl == NEVER) violate("deadlock", "thread %s#%u locks a non-recursive mutex it holds", f->name.c_str(), f->id);
    }
    if (m->__data.__owner) {
        f->wait_mutex = m;
        if (dl == NEVER) deadlockCheck(m);
        stat("sched.mutex_contended");
        bool ok = block(quiet ? "cond-relock" : "mutex", [m, nd = cur->node] { return ((const pthread_mutex_t*)staticAt(nd, m))->__data.__owner == 0; }, dl);
        f->wait_mutex = nullptr;
        touch(m, sizeof *m, "mutex lock");
        if (!ok) return ETIMEDOUT;
    }
    if ((unsigned long)m < 0x100000000ul) g_smx.insert(m);
    m->__data.__owner = (int)f->id; m->__data.__count = 1;
    vcAcquire(g_mvc[staticKey(m)]);
    return 0;
}
int R(pthread_mutex_lock)(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    if (!IN) return 0;
    App _k;
    if (m->__data.__owner != (int)cur->id) yieldPoint("mutex-lock");
    return mlock(m, NEVER, false);
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!IN) return 0;
    App _k; yieldPoint("mutex-trylock");
    touch(m, sizeof *m, "mutex trylock");
    if (m->__data.__owner == (int)cur->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { m->__data.__count++; return 0; }
    if (m->__data.__owner) return EBUSY;
    m->__data.__owner = (int)cur->id; m->__data.__count = 1; vcAcquire(g_mvc[staticKey(m)]); return 0;
}
int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) { if (!IN) return 0; App _k; yieldPoint("mutex-lock"); return mlock(m, absDeadline(CLOCK_REALTIME, t), false); }
int __wrap_pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t) { if (!IN) return 0; App _k; yieldPoint("mutex-lock"); return mlock(m, absDeadline(c, t), false); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!IN) return 0;
    App _k;
    touch(m, sizeof *m, "mutex unlock");
    if (m->__data.__owner != (int)cur->id) violate("mutex-misuse", "thread %s#%u unlocks a mutex held by #%d", cur->name.c_str(), cur->id, m->__data.__owner);
    if (--m->__data.__count) return 0;
    vcRelease(g_mvc[staticKey(m)]);
    m->__data.__owner = 0;
    yieldPoint("mutex-unlocked");
    return 0;
}
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    memset(m, 0, sizeof *m);
    if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; }
    return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) {
    if (IN && m->__data.__owner) violate("mutex-misuse", "a locked mutex is destroyed");
    App _k; g_mvc.erase(staticKey(m)); return 0;
}
// condition variables
int __wrap_pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) { return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t* c) { App _k; g_conds.erase(staticKey(c)); return 0; }
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, u64 dl) {
    App _k; yieldPoint("cond-wait");
    touch(c, sizeof *c, "condition wait");
    if (m->__data.__owner != (int)cur->id) violate("mutex-misuse", "condition wait without holding the mutex");
    CondWaiter w; g_conds[staticKey(c)].push_back(&w);
    unsigned depth = m->__data.__count; m->__data.__count = 0; vcRelease(g_mvc[staticKey(m)]); m->__data.__owner = 0;
    u64 d = dl;
    if (chance(ST_FAULT, cfg.p_spurious)) { u64 s = now_ns + (u64)pick(ST_FAULT, 5000) * US; if (s < d) d = s; stat("fault.spurious_wakeup"); }
    CondWaiter* pw = &w;
    block("cond", [pw] { return pw->signaled; }, d);
    auto it = g_conds.find(staticKey(c));
    if (it != g_conds.end()) for (auto i = it->second.begin(); i != it->second.end(); ++i) if (*i == pw) { it->second.erase(i); break; }
    bool sig = w.signaled;
    mlock(m, NEVER, true); m->__data.__count = depth;
    if (sig) return 0;
    return dl <= now_ns ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!IN) unsupported("cond outside"); return condWait(c, m, NEVER); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { if (!IN) unsupported("cond outside"); return condWait(c, m, absDeadline(CLOCK_REALTIME, t)); }
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { if (!IN) unsupported("cond outside"); return condWait(c, m, absDeadline(k, t)); }
int __wrap_pthread_cond_signal(pthread_cond_t* c) {
    if (!IN) return 0;
    App _k; yieldPoint("cond-signal"); touch(c, sizeof *c, "condition signal");
    auto it = g_conds.find(staticKey(c));
    if (it != g_conds.end()) { auto& q = it->second; size_t n = 0; for (auto w : q) if (!w->signaled) n++; if (n) { u32 k = pick(ST_WAKE, (u32)n); for (auto w : q) if (!w->signaled && k-- == 0) { w->signaled = true; break; } } }
    return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) {
    if (!IN) return 0;
    App _k; yieldPoint("cond-broadcast"); touch(c, sizeof *c, "condition broadcast");
    auto it = g_conds.find(staticKey(c)); if (it != g_conds.end()) for (auto w : it->second) w->signaled = true;
    return 0;
}
// rwlocks
static int rwlock(pthread_rwlock_t* l, bool wr, bool tr, u64 dl) {
    if (!IN) return 0;
    App _k; yieldPoint("rwlock"); touch(l, sizeof *l, "rwlock");
    u32 me = cur->id;
    auto freeFor = [k = staticKey(l), wr, me] { Rw& r = g_rw[k]; if (r.w) return false; return !wr || r.r.empty(); };
    if (!freeFor()) {
        if (tr) return EBUSY;
        if (g_rw[staticKey(l)].w == cur) { if (dl == NEVER) violate("deadlock", "thread locks a rwlock it holds for writing"); return EDEADLK; }
        if (!block("rwlock", freeFor, dl)) return ETIMEDOUT;
    }
    Rw& r = g_rw[staticKey(l)]; if (wr) r.w = cur; else r.r[me]++;
    vcAcquire(g_mvc[staticKey(l)]); return 0;
}
int __wrap_pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof *l); return 0; }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t* l) { App _k; g_rw.erase(staticKey(l)); g_mvc.erase(staticKey(l)); return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* l) { return rwlock(l, false, false, NEVER); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* l) { return rwlock(l, true, false, NEVER); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return rwlock(l, false, true, NEVER); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return rwlock(l, true, true, NEVER); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (!IN) return 0;
    App _k;
    Rw& r = g_rw[staticKey(l)];
    if (r.w == cur) r.w = nullptr;
    else { auto i = r.r.find(cur->id); if (i == r.r.end()) violate("mutex-misuse", "rwlock unlocked by a thread that does not hold it"); if (--i->second == 0) r.r.erase(i); }
    vcRelease(g_mvc[staticKey(l)]); yieldPoint("rwlock-unlocked"); return 0;
}
// semaphores
int __wrap_sem_init(sem_t* s, int, unsigned v) { App _k; g_sem[staticKey(s)] = v; return 0; }
int __wrap_sem_destroy(sem_t* s) { App _k; g_sem.erase(staticKey(s)); return 0; }
static int semWait(sem_t* s, u64 dl, bool tr) {
    if (!IN) return 0;
    App _k; yieldPoint("sem-wait"); touch(s, sizeof *s, "semaphore wait");
    if (!g_sem[staticKey(s)]) { if (tr) { errno = EAGAIN; return -1; } block("sem", [k = staticKey(s)] { return g_sem[k] > 0; }, dl, true); if (cur->interrupted) { cur->interrupted = false; errno = EINTR; return -1; } if (!g_sem[staticKey(s)]) { errno = ETIMEDOUT; return -1; } }
    g_sem[staticKey(s)]--; vcAcquire(g_mvc[staticKey(s)]); return 0;
}
int __wrap_sem_wait(sem_t* s) { return semWait(s, NEVER, false); }
int __wrap_sem_trywait(sem_t* s) { return semWait(s, NEVER, true); }
int __wrap_sem_timedwait(sem_t* s, const timespec* t) { return IN ? semWait(s, absDeadline(CLOCK_REALTIME, t), false) : 0; }
int __wrap_sem_clockwait(sem_t* s, clockid_t c, const timespec* t) { return IN ? semWait(s, absDeadline(c, t), false) : 0; }
int __wrap_sem_post(sem_t* s) { if (!IN) return 0; App _k; yieldPoint("sem-post"); touch(s, sizeof *s, "semaphore post"); vcRelease(g_mvc[staticKey(s)]); g_sem[staticKey(s)]++; return 0; }
int __wrap_sem_getvalue(sem_t* s, int* v) { *v = (int)g_sem[staticKey(s)]; return 0; }
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
    if (!IN) { if (!*o) { *o = 2; f(); } return 0; }
    App _k; yieldPoint("once");
    if (*o == 1) { block("once", [o, nd = cur->node] { return *(const pthread_once_t*)staticAt(nd, o) != 1; }); }
    if (*o == 2) { vcAcquire(g_mvc[staticKey(o)]); return 0; }
    *o = 1; { Lib _l; f(); } *o = 2; vcRelease(g_mvc[staticKey(o)]); return 0;
}
// function-local statics
int R(__cxa_guard_acquire)(u64* g);
void R(__cxa_guard_release)(u64* g);
void R(__cxa_guard_abort)(u64* g);
int __wrap___cxa_guard_acquire(u64* g) {
    if (!IN) return R(__cxa_guard_acquire)(g);
    if (*(char*)g) { race_acquire(g); return 0; }
    App _k; yieldPoint("static-init");
    void* k = staticKey(g);
    while (g_guards.count(k)) {
        if (g_guards[k] == cur) violate("deadlock", "recursive initialisation of a static");
        block("guard", [k] { return !g_guards.count(k); });
    }
    if (*(char*)g) { race_acquire(g); return 0; }
    g_guards[k] = cur; return 1;
}
void __wrap___cxa_guard_release(u64* g) { if (!IN) { R(__cxa_guard_release)(g); return; } race_release(g); App _k; *(char*)g = 1; g_guards.erase(staticKey(g)); }
void __wrap___cxa_guard_abort(u64* g) { if (!IN) { R(__cxa_guard_abort)(g); return; } App _k; g_guards.erase(staticKey(g)); }
// destructors of thread-local objects
int R(__cxa_thread_atexit)(void (*f)(void*), void* o, void* d);
int __wrap___cxa_thread_atexit(void (*f)(void*), void* o, void* d) {
    if (!IN) return R(__cxa_thread_atexit)(f, o, d);
    App _k; cur->tls_dtors.push_back({f, o}); return 0;
}

// destructors of static objects would run at the end of the simulator's process: never
int R(__cxa_atexit)(void (*f)(void*), void* o, void* d);
int __wrap___cxa_atexit(void (*f)(void*), void* o, void* d) { if (!IN) return R(__cxa_atexit)(f, o, d); return 0; }

long R(syscall)(long, ...);
// std::future, std::atomic::wait and friends sleep on futexes
static long futex(int* a, int op, int val, const timespec* t) {
    App _k; yieldPoint("futex");
    touch(a, 4, "futex");
    bool rt = op & FUTEX_CLOCK_REALTIME;
    switch (op & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME)) {
    case FUTEX_WAIT: case FUTEX_WAIT_BITSET: {
        if (*a != val) { errno = EAGAIN; return -1; }
        bool abs = (op & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME)) == FUTEX_WAIT_BITSET;
        u64 dl = !t ? NEVER : abs ? absDeadline(rt ? CLOCK_REALTIME : CLOCK_MONOTONIC, t) : now_ns + (u64)((double)toNs(t) / (cur->node ? cur->node->rate : 1.0));
        CondWaiter w; CondWaiter* pw = &w; g_conds[staticKey(a)].push_back(pw);
        block("futex", [pw] { return pw->signaled; }, dl, true);
        auto it = g_conds.find(staticKey(a));
        if (it != g_conds.end()) for (auto i = it->second.begin(); i != it->second.end(); ++i) if (*i == pw) { it->second.erase(i); break; }
        bool intr = cur->interrupted; cur->interrupted = false;
        if (w.signaled) return 0;
        errno = intr ? EINTR : ETIMEDOUT; return -1;
    }
    case FUTEX_WAKE: case FUTEX_WAKE_BITSET: {
        auto it = g_conds.find(staticKey(a)); long n = 0;
        if (it != g_conds.end()) for (auto w : it->second) if (!w->signaled && n < val) { w->signaled = true; n++; }
        return n;
    }
    }
    unsupported("futex operation");
}
long __wrap_syscall(long n, ...) { if (IN) { if (n != SYS_futex) unsupported("syscall()"); va_list ap; va_start(ap, n); int* a = va_arg(ap, int*); int op = va_arg(ap, int), v = va_arg(ap, int); const timespec* t = va_arg(ap, const timespec*); va_end(ap); return futex(a, op, v, t); } va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap); return R(syscall)(n, a, b, c, d, e, f); }
int __wrap_pthread_cancel(pthread_t) { unsupported("pthread_cancel"); }
int __wrap_pthread_kill(pthread_t, int) { unsupported("pthread_kill"); }
void __wrap_pthread_exit(void*) { unsupported("pthread_exit"); }
typedef void (*sigh)(int);
sigh R(signal)(int, sigh);
sigh __wrap_signal(int s, sigh h) { if (!IN) return R(signal)(s, h); return nullptr; }
}
