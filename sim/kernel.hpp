// Internal interface between the simulated kernel and the intercepted calls.
#pragma once
#include "sim.hpp"
#include <poll.h>
#include <sys/timerfd.h>
namespace sim {
struct EventFd : File { u64 val = 0; bool sem = false; EventFd() : File(K_EVENT) {} short ready() override; };
struct TimerFd : File { u64 expire = NEVER, interval = 0; TimerFd() : File(K_TIMER) {} short ready() override; };
struct PipeBuf { std::string data; u32 readers = 0, writers = 0; };
struct PipeEnd : File { std::shared_ptr<PipeBuf> p; bool wr; PipeEnd(std::shared_ptr<PipeBuf> b, bool w) : File(K_PIPE), p(b), wr(w) { (w ? b->writers : b->readers)++; } short ready() override; void closed() override { (wr ? p->writers : p->readers)--; } };
struct EpollFd : File { struct Ent { std::weak_ptr<File> f; u32 events; u64 data; bool armed; }; std::map<int, Ent> ents; EpollFd() : File(K_EPOLL) {} short ready() override; };
int k_pipe(int* fds, int flags);
int k_epoll_create();
int k_epoll_ctl(int ep, int op, int fd, u32 events, u64 data);
int k_epoll_wait(int ep, u32* events, u64* data, int max, long long timeout_ns);
std::shared_ptr<File> getFile(int fd, const char* what);
std::shared_ptr<Sock> getSock(int fd, const char* what);
int addFd(std::shared_ptr<File> f);
int k_dup(int fd);
int k_eventfd(unsigned init, int flags);
int k_timerfd_create(int flags);
int k_timerfd_settime(int fd, bool abs, const struct itimerspec* n, struct itimerspec* o);
u64 k_monotonic();
ssize_t k_read_special(std::shared_ptr<File> f, void* b, size_t n);
ssize_t k_write_special(std::shared_ptr<File> f, const void* b, size_t n);
ssize_t sockSend(std::shared_ptr<Sock> s, const char* b, size_t n, int flags);
ssize_t sockRecv(std::shared_ptr<Sock> s, char* b, size_t n, int flags);
int sockShutdown(std::shared_ptr<Sock> s, int how);
int k_bind_tcp(std::shared_ptr<Sock> s, u32 ip, u32 port);
int k_bind_unix(std::shared_ptr<Sock> s, const std::string& p);
int k_listen(std::shared_ptr<Sock> s, int backlog);
int sockConnectTcp(std::shared_ptr<Sock> s, u32 ip, u32 port, bool nb);
int sockConnectUnix(std::shared_ptr<Sock> s, const std::string& p, bool nb);
int sockAccept(std::shared_ptr<Sock> s, int flags);
int k_poll(struct pollfd* p, unsigned long n, long long timeout_ns);
int k_unlink(const std::string& p);
}
