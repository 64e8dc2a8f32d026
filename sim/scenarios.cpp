#include "sim.hpp"
#define S(X) X(stream, scStream) X(queue, scQueue) X(break, scBreak) X(graceful, scGraceful) X(forced, scForced) \
    X(keepalive, scKeepalive) X(deadpeer, scDeadPeer) X(pull, scPull) X(idle, scIdle) \
    X(dispatch, scDispatch) X(toggle, scToggle) X(lifecycle, scLifecycle) X(limit, scLimit) X(restart, scRestart) X(handles, scHandles) X(signals, scSignals) \
    X(hostile, scHostile) X(maxsize, scMaxSize) X(connect, scConnect) X(start, scStart) X(isolation, scIsolation) X(crosstalk, scCrosstalk) X(racemix, scRacemix) X(rpc, scRpc) X(bare, scBare) X(many, scMany) X(patience, scPatience)
#define DECL(n, f) void f();
S(DECL)
#define ROW(n, f) {#n, f},
namespace sim { extern const Scenario scenarios[] = { S(ROW) {nullptr, nullptr}}; }
