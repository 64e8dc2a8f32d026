// Scenario toolkit: workload generation, recording of histories, oracles.
#pragma once
#include "sim.hpp"
#include <poll.h>
#include <sys/socket.h>
#include <cerrno>
#include <set>
#include "Client.hpp"
#include "Server.hpp"
#include "values/All.hpp"

namespace H {
using namespace sim;
namespace D = DowowNetwork;
using D::Client; using D::Connection; using D::Request; using D::SafeConnection; using D::Server; using D::Value;

// instrumented wrappers around inline library code (api.cpp is compiled like the library)
void apiSetConnected(Server* s, D::ConnectionHandler h);
void apiSetDisconnected(Server* s, D::ConnectionHandler h);
bool apiHasHandlers(Server* s);

// ---------------------------------------------------------------- content
struct VSpec { int type = 0; u64 num = 0; std::string str; std::vector<VSpec> arr; };
struct Spec { std::string name; u64 uid = 0; std::vector<std::pair<std::string, VSpec>> args; };
Spec genSpec(u64 uid, int size, const char* name = nullptr);   // size 0: tiny, 1: small, 2: up to a few KB, 3: near 16 KB, 4: an exact size up to 200000 bytes
Spec genSpec(u64 uid, int size, const std::string& name);
std::string canon(const Spec& s);
std::string canonOf(Request* r);          // read back through the public API
u64 uidOf(Request* r);                    // 0 if there is none
Request* build(const Spec& s);            // call inside L()
std::string encode(const Spec& s, u32 id);   // independent encoder (for raw peers)

// ---------------------------------------------------------------- history of one session direction
struct PushRec { u64 uid; std::string canon; u64 call, ret; u32 fiber; u64 session_lo, session_hi; bool keepid; u32 id; u64 t_call, t_ret; };
struct DelRec { u64 uid; std::string canon; u64 seq; u64 seq_call; u32 id; int how; u32 fiber; u64 t; };
struct CR {                                // one connection object (one session of it, for clients)
    Connection* c = nullptr; Node* node = nullptr; u32 link = 0; bool server = false; Server* srv = nullptr;
    int connectedCalls = 0, disconnectedCalls = 0; u32 id_connected = 0; std::string tag;
    int inHandler = 0, pulling = 0; u64 lastHandlerEnd = 0, firstHandler = 0, connectedDone = 0, disconnectedAt = 0; u64 t_disconnected = 0, t_connected = 0;
    std::vector<PushRec> pushed; std::vector<DelRec> got;
    std::function<void(CR*, Request*, int)> hook;      // extra work of a handler
    u64 session = 0;
    bool deadObj = false; VC vc;
};
struct World {
    std::map<Connection*, CR*> cur;        // live connection object -> record of its current session
    std::vector<std::unique_ptr<CR>> all;
    u64 uid = 0;
    std::vector<std::unique_ptr<int>> dummy;
    std::function<void(Server*, CR*)> onConnected, onDisconnected; std::function<void(CR*, Request*, int)> clientHook;   // hook of the clients' sessions
    int inServerCallback = 0; Fiber* callbackFiber = nullptr; bool trackServerCallbacks = true;
    std::map<Connection*, std::pair<u32, u32>> blocks;   // send and receive block sizes
    u32 sendBlock(Connection* c) { auto i = blocks.find(c); return i == blocks.end() ? 1024 : i->second.first; }
    u32 recvBlock(Connection* c) { auto i = blocks.find(c); return i == blocks.end() ? 1024 : i->second.second; }
    std::vector<Fiber*> app;
    u64 sessions = 0; bool haveConnected = true; std::set<Connection*> endedOnly;   // no connected callback set: only the disconnected one runs
    std::map<Server*, u64> stopped;         // servers whose stop has been waited for: nothing of theirs may run
    std::map<Server*, std::set<u32>> ids;   // connection ids of the current run
};
extern World* W;
extern std::string note;

CR* newCR(Connection* c, Node* n, bool server);
CR* crOf(Connection* c);

// ---------------------------------------------------------------- verdicts
bool forProp(const char* list);            // is the property under check one of these?
// violation of a property-specific oracle: raised only when one of `props` is under check
void vio(const char* props, const char* cls, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
#define EXPECT(props, cls, cond, ...) do { if (!(cond)) H::vio(props, cls, __VA_ARGS__); } while (0)

// ---------------------------------------------------------------- running things
struct Task { Fiber* f; std::string what; };
Task start(Node* n, const char* name, std::function<void()> fn);
void finish(Task t, u64 limit);            // waits; a task that does not end in time is a hang
void call(Node* n, const char* name, u64 limit, std::function<void()> fn);
bool done(Task t);
// measures an API call made by the current fiber; returns its duration corrected for injected freezes
u64 timed(std::function<void()> fn);

// ---------------------------------------------------------------- library helpers
enum { FAST = 1, FAULTY = 2, CALM = 4, SMALLBUF = 8 };
void randomConfig(int flags = 0);
struct Addr { bool tcp; std::string ip; u32 port; std::string path; };
Addr randomAddr();
bool serverStart(Server* s, const Addr& a);
bool connectTo(Client* c, const Addr& a, int timeout);   // records the new session on success
void rh0(Connection* c, Request* r);
D::RequestHandler handler(int k);          // 0..7
void srvConnected(Server* s, Connection* c);
void srvDisconnected(Server* s, Connection* c);
Server* newServer();                       // with the recording callbacks installed
void push(CR* cr, const Spec& s, int mode = -1, i64 keepid = -1);   // mode: -1 random, 0 copy, 1 give, 2 by reference
Request* pull(CR* cr, int timeout, DelRec* rec = nullptr);   // records, caller must free with freeReq
void freeReq(Request* r);
int rlisten(const Addr& a, int backlog = 16); int raccept(int lfd);   // raw server
int rconnect(const Addr& a);               // raw peer, returns fd
u32 ip4(const std::string& s);
bool rsend(int fd, const std::string& b);  // everything, false on error
bool rsendCut(int fd, const std::string& b, u64 gap);   // the same in random pieces
int rdrain(int fd, std::string& buf);      // what is there now; 0: nothing, 1: something, -1: end or error
bool takeFrame(std::string& buf, std::string& frame);   // removes one complete frame
bool decode(const std::string& frame, Spec& s, u32& id);   // independent decoder
// checks one direction: everything `from` pushed against what `to` got
void checkDirection(const char* what, const CR* from, const CR* to, bool complete, bool order = true);   // order: everything delivered took the same way
void checkIds(CR* a, CR* b);               // both ends of one session
CR* peerOf(CR* c);                         // record at the other end of the same link
void teardown(std::vector<Client*> cl, Node* cn, Server* s, Node* sn, u64 limit);
void leakCheck(std::vector<Node*> nodes);  // property P20: nothing left
u64 openSocks(Node* n);                    // accepted or connected sockets of a process
void freshWorld();
bool waitFor(std::function<bool()> pred, u64 limit);     // injected freezes extend the limit
bool settle(std::function<bool()> pred, u64 limit);      // pred holds, no handler runs and nothing was frozen for a while
u64 since(u64 t, u64 stall0);              // time since t, corrected for freezes
struct Env { Node *sn = nullptr, *cn = nullptr; Addr a; Server* s = nullptr; std::vector<Client*> cl; };
void begin(Env& e, int flags, int sameProcess = 5);      // world, configuration, nodes, address (1 in n: one process)
void startServer(Env& e, std::function<void(Server*)> prep = nullptr);
CR* addClient(Env& e, std::function<void(Client*)> prep = nullptr, int timeout = 10);
CR* reconnect(Env& e, Client* c, int timeout = 10);
CR* accepted(CR* client, u64 limit = 10 * SEC);          // waits for the server's side
void end(Env& e);                          // teardown and leak check
void setBlocks(Connection* c, bool tiny = true);
void nap(u64 max);                         // random sleep of an application thread
Task pusher(CR* cr, int n, int size, u64 gap, bool ids = false);
int negative();          // any of the values that mean "without a limit"
Task puller(CR* cr, bool* stop, int style = -1);         // style: -1 mixed timeouts, 0 polling, 1 blocking
void pushWaiting(CR* cr, int timeout); Task waiter(CR* cr);   // pushes that wait for a response which never comes
bool withConn(CR* cr, const char* name, std::function<void(Connection*)> fn, u64 limit = 20 * SEC);   // on a thread of its process, server connections through a handle
D::SafeConnection* handleOf(CR* cr);       // null if it is gone; call on a thread of its process
CR* newest(size_t before, u64 limit = 10 * SEC);          // the next connection a server accepts
int rawClient(Env& e, Node* n);
void afterStop(Server* s, Node* n);        // call right after a wait for the stop returned
void closeFd(Node* n, int fd);
u64 delayOf(u64 d);                        // duration plus tolerated scheduling noise
}
