#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,state,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mech],
            observe_at=observe,hook_needed=hook)))
S,F,I,H,C,K="schedules","fault_sequences","inputs","histories","configurations","crash_points"

p("P01","Every request pushed on a healthy connection arrives once, in order, intact",
 "While a connection stays up, every request pushed on one side is delivered to the other side exactly once, in the order the pushes were accepted, with the same name, the same arguments in the same order, and the same value types and values, however the request was composed through the documented setters or copied. This holds for every way the byte stream is cut up by the network or by the configured send and receive block sizes, for either socket type, for both directions at once and for any number of pushing threads. Nothing is delivered that was not pushed, and keep-alive traffic is never delivered to the application.",
 [S,I,F,C],"all thread schedules, request contents (all value types, extremes, nesting, empty), block sizes, TCP/UNIX, and all segmentations, delays and short reads/writes of the stream",
 "The tests exchange a handful of small requests over loopback with default block sizes, so the stream is never split inside a length prefix or body, only one thread pushes, and received values are printed but not compared.",
 ["Connection.cpp","Request.cpp","Datum.cpp","Value.cpp","values/"],
 [("send_queue","requests accepted but not yet serialized","Connection.hpp"),("send_buffer/recv_buffer + offsets","the frame being written/read","Connection.hpp")],
 [("length-prefixed framing state machine","Connection::Receive"),("partial-write cursor","Connection::Send/PopSendQueue")],
 ["request handlers","Pull() results"])
p("P02","A broken connection delivers a clean prefix, and sessions never mix",
 "However a connection ends (network reset, peer process or host crash, forced disconnect by either side, time-out), what the other side has received is a prefix of what was pushed in that session: no request is partial, altered, duplicated, out of order or skipped over. A client that connects again starts a fresh session: nothing pushed or received in an earlier session is delivered in a later one, and the new session works normally.",
 [S,F,K,H],"all instants at which the connection can break, all break kinds, all schedules of pushing/pulling/reconnecting threads around the break, and any number of reconnects",
 "The only breaks the tests produce are forced disconnects at the same quiet point of the same dialogue; they never check what had been delivered, and never push concurrently with the break.",
 ["Connection.cpp","Client.cpp"],
 [("recv_buffer","partially received frame that must be dropped","Connection.hpp"),("send_queue","must not survive into the next session","Connection.hpp")],
 [("teardown of buffers and queues","Connection::ConnThreadFunc tail"),("session re-initialisation","Connection::InitializeByFD")],
 ["request handlers","Pull() results","IsConnected()"])
p("P03","A graceful disconnect flushes everything pushed before it, then ends",
 "If the network and the peer stay healthy and the peer does not disconnect itself, every request whose push returned before a graceful disconnect was requested is delivered to the peer before the connection closes, and nothing pushed after it is. The disconnect then completes in bounded time, whether or not anything was waiting to be sent, and both sides observe the end of the connection; a peer that has received everything but never closes its side, silent or still sending, cannot prolong it beyond the silence limit.",
 [S,F,C],"all schedules of the disconnecting thread against the sending thread and other pushers, any queue length, block sizes, socket buffer sizes and network delays",
 "The tests call it once, from a handler that has just queued one small message; they never count deliveries, nor disconnect with an empty queue or a large backlog.",
 ["Connection.cpp"],
 [("is_disconnecting","graceful disconnect in progress","Connection.hpp")],
 [("wake-up message and refuse-new-pushes flag","Connection::Disconnect"),("stop when flushed","Connection::Send")],
 ["peer's delivered requests","WaitForStop()","IsConnected()"])
p("P04","A forced disconnect always completes promptly",
 "A forced disconnect (and destroying the connection object) finishes in bounded time whatever the peer, the network and the queues are doing: idle, mid-frame in either direction, peer not reading, peer silent or crashed, backlog unsent, another disconnect already under way. Afterwards the connection reports not connected, waiting for its end returns success at once, later pushes are refused without effect, and requests received earlier can still be pulled.",
 [S,F,C],"all connection states and peer behaviours at the instant of the call, all schedules of concurrent callers, block sizes and socket buffer sizes",
 "Tests disconnect a responsive peer with empty buffers from one thread.",
 ["Connection.cpp","Utils.cpp"],
 [("to_stop_event/stopped_event","stop request and stop notification","Connection.hpp")],
 [("stop event polled beside the socket; non-blocking I/O","Connection::ConnThreadFunc"),("destructor waits for the thread","Connection::~Connection")],
 ["Disconnect()","WaitForStop()","IsConnected()","Pull()","~Connection"])
p("P05","Two live idle endpoints stay connected indefinitely",
 "As long as both endpoints run and the network delivers within the slack between the keep-alive interval and the peer's silence limit, a connection on which the applications send nothing, or send only in one direction, stays up forever. Keep-alive intervals changed at run time take effect, and keep-alives are never handed to a handler or to the receive queue.",
 [S,F,C,H],"all interval settings with keep-alive interval below the peer's silence limit, delays and thread stalls within that slack, one-sided traffic patterns, and any length of idleness",
 "A test run lasts seconds and the default intervals are 10 s and 60 s: no keep-alive is ever sent during the tests.",
 ["Connection.cpp","Utils.cpp"],
 [("our_sa_timer/their_na_timer","keep-alive send timer and peer silence timer","Connection.hpp")],
 [("re-arming on send/receive and on expiry","Connection::Send/Receive/ConnThreadFunc")],
 ["IsConnected()","disconnected handler","handlers"])
p("P06","A silent peer is detected within the silence limit, and not earlier",
 "If nothing at all arrives from the peer (host crash without FIN, partition, frozen process), the connection ends by itself once the configured silence limit has passed since the last byte was received, within a small margin, even with data waiting to be sent. It never ends for silence while bytes have arrived within the limit, and a limit changed at run time is honoured from then on.",
 [S,F,K,C],"all silence limits, crash/partition/freeze instants (mid-frame, with unsent backlog, right after a re-arm), intermittent trickles of bytes, and schedules",
 "No test makes a peer go silent; it would take 60 real seconds per sample.",
 ["Connection.cpp","Utils.cpp"],
 [("their_na_timer","one-shot deadline re-armed by every receive","Connection.hpp")],
 [("expiry ends the poll loop","Connection::ConnThreadFunc"),("re-arm","Connection::Receive")],
 ["IsConnected()","WaitForStop()","disconnected handler"])
p("P07","Blocking pull returns data promptly, times out in seconds, wakes on end",
 "A blocking pull returns the oldest undelivered request as soon as there is one; with a positive timeout and no data it returns null only after that many seconds (and not much later), and with a negative timeout it waits for as long as the connection lives. If the connection ends, or has already ended, a blocking pull with nothing left to return comes back promptly instead of hanging; requests received before the end are still returned first. A zero timeout never blocks.",
 [S,F,C],"all timeouts, all interleavings of arrival, expiry, disconnect and pull entry, signals interrupting the wait (one blocked puller at a time)",
 "No test calls the blocking pull at all.",
 ["Connection.cpp"],
 [("receive_event","wakes the blocked puller","Connection.hpp"),("recv_queue","delivered, not yet pulled","Connection.hpp")],
 [("event set on arrival and on teardown","Connection::Receive, ConnThreadFunc tail"),("wait with timeout","Connection::Pull")],
 ["Pull() result and duration"])
p("P08","Concurrent pushes and pulls behave like one FIFO queue per direction",
 "With any number of threads pushing and pulling on a connection at the same time, each pushed request is pulled by exactly one puller, none is lost or duplicated, and there is a single order, consistent with real time, in which pushes were accepted and pulls removed them. A request given away on push is owned by the library, and one copied on push is unaffected by what the caller does to the original afterwards.",
 [S,H],"all interleavings of concurrent push and pull calls from several threads with the background I/O thread, on both sides",
 "Tests use one pushing thread per side and never pull.",
 ["Connection.cpp"],
 [("send_queue/recv_queue","the two FIFO queues","Connection.hpp")],
 [("queue mutexes","Connection::Push/Pull/Receive/Send")],
 ["Push()/Pull() history"])
p("P09","Each request goes to exactly its handler, in order, one at a time",
 "Every received request is dispatched exactly once: to the handler registered for its name, otherwise to the default handler, otherwise to the receive queue. Handlers of one connection run one at a time in arrival order, registration changes made by a handler apply from the next request on, and for a connection accepted by a server the handlers installed in its connected callback see every request that client sends, including one sent immediately after connecting.",
 [S,I,H],"all schedules of accept/connected-callback against the first bytes from the client, all name/handler tables, run-time registration changes from handlers and other threads",
 "The test client waits for the server's greeting or sends one ping and would not notice a request that bypassed its handler; handler tables are never changed at run time.",
 ["Connection.cpp","Server.cpp"],
 [("handlers_named/handler_default","dispatch table","Connection.hpp")],
 [("dispatch","Connection::PassThroughHandlers"),("handlers installed before receiving starts","Server::AcceptOne")],
 ["handler invocations","Pull()"])
p("P10","Automatically assigned request ids never collide",
 "Within one session every automatically assigned request id is different from every other assigned by the same side, from any number of threads, and from every id assigned by the other side, so an id identifies one request of the session. A request pushed with its own id kept arrives with exactly that id, and a client that reconnects restarts its numbering within its own half.",
 [S,H],"all interleavings of pushing threads on both sides, mixes of assigned and caller-kept ids, and reconnects",
 "Tests never look at request ids.",
 ["Connection.cpp","Client.cpp"],
 [("free_request_id/is_even_request_parts","next id and which half this side uses","Connection.hpp")],
 [("id allocation under lock, odd/even split","Connection::Push, SetEvenRequestIdsPart, Client connect")],
 ["GetId() of delivered requests on both sides"])
p("P11","Concurrent use never deadlocks",
 "No schedule of application threads and request, connected and disconnected handlers that push to any connections, pull without blocking, look up connections by id or tag, hold and release connection handles, disconnect, or ask the server to stop ends with threads waiting for each other. Once faults stop, every such call returns and every handler finishes within bounded time.",
 [S,F,H],"all interleavings of those calls across connections and the server (handlers pushing to each other's connections, handles held while a connection dies, stop during handlers)",
 "The tests have one connection and at most one application thread per process; lock cycles need at least two connections active at once.",
 ["Connection.cpp","Server.cpp","SafeConnection.hpp"],
 [("per-connection and per-server mutexes","lock order","Connection.hpp, Server.hpp")],
 [("locks not held across handlers or waits","Connection::ConnThreadFunc, Server::ServerThreadFunc")],
 ["completion of every API call and handler"])
p("P12","No byte stream from a peer can corrupt memory, crash or exhaust the process",
 "Whatever bytes a peer sends, in whatever pieces, the receiving process neither crashes nor reads or writes outside its buffers nor allocates memory out of proportion to the configured maximum request size; any request it does deliver can be fully read, copied and sent back by the application, equals its copy, and has no argument made up in place of a malformed one; malformed values and data are reported as such by the decoding functions. Other connections of the same process are unaffected, and the offending connection at worst is closed.",
 [I,F,S],"all byte streams: valid frames with corrupted bytes, lengths and counts at every nesting level, truncated and oversized structures, arbitrary segmentation and closing at any byte",
 "Tests only ever exchange well-formed messages produced by the same library.",
 ["Connection.cpp","Request.cpp","Datum.cpp","Value.cpp","values/ValueArr.cpp","values/ValueStr.cpp","values/ValueUndefined.cpp"],
 [("recv_buffer","frame under construction, sized by the peer's length prefix","Connection.hpp")],
 [("bounds checks in each decoder level","*::Deserialize, *::DeserializeInternal"),("length prefix validation","Connection::Receive")],
 ["process survival under memory-error detection","other connections' traffic"])
p("P13","The maximum request size is enforced exactly",
 "A request whose encoded size is at most the receiver's configured maximum is accepted; one that announces a larger size causes that connection, and no other, to be closed without the request or anything after it being delivered, and without memory for it being reserved. Requests that arrived completely before it are still delivered.",
 [I,C,F],"all configured maxima, sizes around the limit, positions of the oversized frame in the stream, and segmentations",
 "No test sends anything near the limit or changes it.",
 ["Connection.cpp"],
 [("recv_buffer_max_length","configured limit","Connection.hpp")],
 [("limit check on the length prefix","Connection::Receive")],
 ["delivered requests","IsConnected()"])
p("P14","A looked-up connection stays usable until its handle is released",
 "A handle obtained from a server by connection id or tag always refers to that connection and can be used safely from any thread until it is released (a copy of a handle counts as a handle of its own), even if the peer disconnects, the server stops or other handles to the same connection are released meanwhile. Lookup finds every connection whose connected callback has finished and whose end has not been processed, and returns nothing for unknown ones; the connection is disposed of soon after the last handle is released.",
 [S,F,H],"all interleavings of lookup, use and release by several threads with disconnects, disconnect processing and server stop",
 "No test uses lookup or handles.",
 ["Server.cpp","SafeConnection.hpp","Connection.cpp"],
 [("refs_amount/not_needed_cond","outstanding handles and the wake-up when none are left","Connection.hpp"),("connections","list searched by lookup","Server.hpp")],
 [("reference counting and wait before disposal","Connection::IncreaseRefs/DecreaseRefs, ConnThreadFunc tail, destructor"),("list protected by the server lock","Server::GetConnection")],
 ["GetConnection()","use of the handle under memory-error detection"])
p("P15","Connected and disconnected callbacks are paired, ordered and identified",
 "For every accepted connection the connected callback runs exactly once, before any of its requests is handled; if the connection ends while the server runs, the disconnected callback runs exactly once, promptly, after the last request handler of that connection has finished. Callbacks of one server never run concurrently, each connection has a non-zero id unique within the server run that is already visible in the connected callback and stays the same, and a server works with either callback left unset.",
 [S,F,H],"all interleavings of connects, disconnects, crashes and traffic of several clients, with any subset of callbacks set",
 "The test server has static storage (hiding uninitialised callbacks), always sets both callbacks, has one client at a time and never reads ids.",
 ["Server.cpp","Server.hpp"],
 [("connections","accepted and not yet disposed","Server.hpp")],
 [("accept and disposal in the server thread","Server::ServerThreadFunc, AcceptOne")],
 ["connected/disconnected handlers","Connection id"])
p("P16","The connection limit is never exceeded and freed slots are reused",
 "A server with a connection limit never has more accepted connections than the limit. Clients beyond it wait, and when a connection ends a waiting client is admitted in bounded time and served normally; with no limit every client is admitted. A limit that is changed while the server runs applies from then on: raising it admits waiting clients in bounded time, and lowering it ends no connection.",
 [S,F,C],"all limits (including zero and unlimited), numbers of clients, orders and kinds of connection ends and schedules",
 "The test server sets a limit of 5 but never has more than one client.",
 ["Server.cpp"],
 [("max_connections/limit_event","configured limit and the wake-up when it changes","Server.hpp")],
 [("listener not polled while full","Server::ServerThreadFunc")],
 ["connected/disconnected callback counts","clients' service"])
p("P17","Stopping a server is complete, bounded and repeatable",
 "Stopping a server (or destroying it) and waiting returns in bounded time whatever its clients are doing; afterwards no callback or handler of it runs, all its connections are closed (the peers observe the end), its port or socket file is free, and it reports not running. The same object, or another one, can then be started on the same address and serves clients normally, and stop/wait behave the same way the second time; a waiter with a timeout is never held beyond it. A start that fails leaves neither descriptors nor a socket file behind, and does not keep a later start from succeeding.",
 [S,F,H],"all interleavings of stop, wait, destroy and restart with accepts, traffic, disconnects and handlers, for both socket types, repeated",
 "The test server is started and stopped once per process and is a global that is never destroyed before exit.",
 ["Server.cpp"],
 [("to_stop_event/stopped_event/socket_type","life cycle of the server thread","Server.hpp")],
 [("server thread tail","Server::ServerThreadFunc"),("stop/wait/destructor","Server::Stop, WaitForStop, ~Server")],
 ["Stop()/WaitForStop()/StartTcp()/StartUnix()/destructor","clients' view"])
p("P18","Signals and failing accepts do not take a server or its clients down",
 "Interrupting a server's threads by signals, clients that abort while connecting, failed accepts (aborted connection, descriptor exhaustion, transient network errors), peers that vanish while being written to, and connections ending in any way leave the server accepting new clients and the other connections undisturbed. A signal never makes a call with a timeout return early or a wait report an end that has not happened.",
 [F,S,H],"all sequences of such faults at all points of the server and connection loops",
 "Nothing in the tests delivers signals, aborts a connecting client or exhausts descriptors.",
 ["Server.cpp","Connection.cpp","Utils.cpp"],
 [("pollfds/revents","result of an interrupted wait","Server.cpp, Connection.cpp")],
 [("poll result handling","Server::ServerThreadFunc, Utils::SelectRead"),("no SIGPIPE on send","Connection::Send")],
 ["service to later clients","other connections' traffic","process survival"])
p("P19","Connecting reports the truth within its timeout and leaves no trace on failure",
 "A client connect call returns true only if a connection to the given server was established, and false (bad address, refused, unreachable, timed out) otherwise, within the given timeout plus a small margin. After a failure the client is not connected and not connecting and can try again successfully; a second connect while connected is refused without disturbing the session.",
 [S,F,C],"all addresses, refusal/black-hole/late-answer behaviours of the network, timeouts including infinite, signals during connect, both socket types, and sequences of attempts",
 "Tests only connect to a server that is up and answers at once.",
 ["Client.cpp","Utils.cpp"],
 [("temp_socket_fd/connect_event","attempt in progress","Client.hpp")],
 [("connect thread with bounded wait","Client::TcpThreadFunc/UnixThreadFunc")],
 ["ConnectTcp()/ConnectUnix() result and duration","IsConnected()/IsConnecting()"])
p("P20","Descriptors, memory and threads are released exactly once",
 "After connections, clients and servers have been destroyed, in any order of events and faults including aborted connects, crashed peers, refused pushes, undelivered and unpulled requests and reconnects, the process holds no descriptor, thread or memory that the library created. The library never closes a descriptor twice and never operates on one it has already closed.",
 [S,F,H],"all histories of connect/transfer/fault/disconnect/reconnect/destroy and all schedules",
 "The tests do not count descriptors, threads or memory, and leak sanitizers see only their one history.",
 ["Connection.cpp","Client.cpp","Server.cpp","Request.cpp"],
 [("socket_fd, event and timer descriptors","owned by one session each","Connection.hpp")],
 [("teardown and destructors","Connection::ConnThreadFunc tail, ~Connection, Server tail")],
 ["simulated descriptor table, heap and thread table after destruction"])
p("P21","A stalled peer or slow handler holds up nobody else",
 "A peer that stops reading or sends only part of a request delays only that connection's own traffic in that direction, and a handler that takes long delays only that connection's own traffic: pushes, non-blocking pulls, disconnects and state queries on that connection still return promptly, it still receives while its own sending is stuck, and all other connections and new clients are served normally. When the peer resumes, everything pushed meanwhile is delivered.",
 [S,F,C],"all stall instants and durations, buffer and block sizes, both directions, and schedules",
 "The tests' peers always read promptly and their single slow handler has no other connection to disturb.",
 ["Connection.cpp","Server.cpp"],
 [("blocking of the I/O thread","send/recv on the socket; locks held meanwhile","Connection.cpp")],
 [("non-blocking socket I/O, no lock held during handlers","Connection::Send/Receive/ConnThreadFunc")],
 ["duration of API calls","other connections' traffic"])
p("P22","Idle threads sleep",
 "When there is nothing to send, receive, accept or time out, the library's threads sleep: the number of wake-ups over any idle period is bounded by the number of keep-alive periods and external events in it. Past activity of any kind (pushes, keep-alives, signals, ended connections, a full server, a stalled peer, a half-closed peer) never leaves a thread spinning.",
 [S,F,H],"all histories preceding the idle period, all schedules",
 "A spinning thread still passes every test; nothing measures wake-ups.",
 ["Connection.cpp","Server.cpp"],
 [("event and timer descriptors","must be drained when handled","Connection.cpp")],
 [("poll sets and draining","Connection::ConnThreadFunc, Server::ServerThreadFunc")],
 ["number of poll returns without progress per simulated second"])
p("P23","The thread-safe API is free of data races",
 "Calls the documentation presents as thread-safe or as callable from handlers (push, pull, state queries, handles, disconnect, interval and block-size settings, handler registration, server lookups, start/stop/limit/callback settings) may be made concurrently with each other and with the library's own threads without any two conflicting, unsynchronised accesses to memory.",
 [S,H],"all interleavings of those calls with the I/O, connect and server threads; conflicting accesses are judged by happens-before, so an observed schedule also covers its reorderings",
 "The tests have no concurrent callers and run without a race detector.",
 ["Connection.cpp","Connection.hpp","Server.cpp","Server.hpp","Client.cpp"],
 [("queues, dispatch table, state flags, connection list","shared between threads","Connection.hpp, Server.hpp")],
 [("mutexes and atomics","throughout")],
 ["happens-before race detector on instrumented memory accesses"])
p("P24","A push that asks for a response returns the matching response",
 "A push with a non-zero timeout, made outside that connection's own handlers, returns the first request received with the pushed request's id if it arrives within that many seconds (or, with a negative timeout, at any time while the connection lives), and null only on time-out or once the connection has ended, promptly in both cases. The response is handed to that caller only; everything else received meanwhile, including responses that come too late, is delivered as usual, and a waiting caller delays no other call, handler or connection.",
 [S,F,H],"all interleavings of concurrent waiting pushes, responses in any order, late responses, time-outs and disconnects",
 "No test uses the timeout parameter of push.",
 ["Connection.cpp","Connection.hpp","README.md"],
 [("response_waiters","mutex_rq","Connection.hpp")],
 [("matching by id before dispatch","Connection::Receive, Connection::PassToResponseWaiter"),("wait and wake-up at the end","Connection::Push, Connection::ConnThreadFunc")],
 ["Push() result and duration"])
p("P25","In-memory encode/decode and container operations are exact inverses",
 "For every value, named value and request built through the API, serialising, deserialising, copying and reading back give equal content, report the exact size used, and leave the original unchanged; setters, getters, indices and string rendering behave as documented on a single thread.",
 [I],"all values, names, nestings and operation sequences on in-memory objects",
 "The tests try eight integers and print but do not compare most results.",
 ["Value.cpp","Datum.cpp","Request.cpp","values/"],
 [],[("per-type serializers","values/*.cpp")],
 ["Serialize()/Deserialize()/CopyFrom()/Get()"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for q in P:
        assert len(q["title"])<=80,(q["id"],len(q["title"]))
        f.write(json.dumps(q)+"\n")
print(len(P),"properties")
