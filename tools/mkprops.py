#!/usr/bin/env python3
"""Writes properties.jsonl. Edit here, run, commit both."""
import json
P=[]
def p(id,title,statement,over,q,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=q),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p("C01","Received bytes reach the handler complete, in order, on their own connection",
 "For every connection, the concatenation of the data passed to the message callback is always a prefix of the byte stream the peer sent on that connection: nothing lost, duplicated, reordered, altered or taken from another connection, however the stream is split into segments and reads, whatever the configured buffer sizes. Bytes that reached the server are all delivered to the callback within bounded time unless the connection is ended first (by either side, an error, the idle timer or Stop).",
 ["schedules","inputs","fault_sequences","configurations"],
 "all segmentations, read sizes, interleavings of connections on a loop, peer timings, packet/user buffer sizes; default protocol and incremental protocols that leave partial data behind",
 "the echo test samples a few random payloads over loopback with one buffer configuration; it controls neither segmentation nor short reads nor interleaving with other connections on the same loop",
 ["connection.go","protocol.go","poller/epoll.go","eventloop/eventloop.go"],
 [("read handler moves bytes from the shared packet buffer to the per-connection buffer and runs the unpacker","connection.go handleRead/handlerProtocol"),("default unpacker linearises a wrapped buffer","protocol.go UnPacket")],
 ["OnMessage(data) per connection"],
 [("inBuffer","bytes received but not yet consumed","connection.go"),("packet","per-loop shared read buffer","eventloop/eventloop.go")])

p("C02","Outgoing messages reach the peer whole, in order and at most once",
 "The bytes a peer receives are always a concatenation of whole messages (only the very last may be cut, and only if the connection was closed): no message is interleaved with another, altered, duplicated or skipped. Messages accepted by Send on one connection arrive in an order consistent with the order of the Send calls (a Send that returned before another began arrives first), and replies returned from the message callback arrive in callback order.",
 ["schedules","inputs","fault_sequences"],
 "all interleavings of senders, replies and writability events; all partial writes, full socket buffers and slow readers",
 "tests never fill a socket buffer on purpose, never force partial writes and never send from several goroutines at once to one connection",
 ["connection.go","eventloop/eventloop.go"],
 [("direct write or append to out buffer","connection.go sendInLoop"),("drain of both halves of the ring on writability","connection.go handleWrite"),("FIFO task queue","eventloop/eventloop.go QueueInLoop/doPendingFunc")],
 ["bytes read by the peer","Send() result"],
 [("outBuffer","bytes accepted but not yet written","connection.go")])

p("C03","Accepted output is always flushed and reading always resumes",
 "As long as neither side ends a connection, no error hits it and its peer keeps reading, every message accepted by Send and every reply returned from the message callback is delivered in full within bounded time, without needing further traffic. A connection whose output was blocked returns to reading: bytes the peer sent meanwhile are delivered to the callback within bounded time.",
 ["schedules","fault_sequences","inputs"],
 "all points at which writes are short or would block, all stalls of the reader, all interleavings of Send with readiness events",
 "liveness after backpressure needs a full socket buffer and a particular order of events; tests use fast readers on loopback",
 ["connection.go","poller/epoll.go","eventloop/eventloop.go"],
 [("write interest enabled while the out buffer is non-empty and removed when it drains","connection.go sendInLoop/handleWrite, poller EnableReadWrite/EnableRead"),("wake-up of a sleeping loop","eventloop/eventloop.go QueueInLoop")],
 ["bytes read by the peer","OnMessage"],
 [("interest set","events registered for the fd","poller/epoll.go")])

p("C04","Connection callbacks form one well-ordered, serialised lifecycle",
 "For every accepted connection the connect callback runs exactly once and before any other callback of that connection; the close callback runs at most once, after it no callback of that connection runs, and it runs exactly once for every connection that ends. Callbacks of one connection never overlap in time, and all callbacks of the connections assigned to one loop run one at a time on that loop's goroutine. So do the calls of the connection's protocol (UnPacket and Packet), also for a Send from another goroutine.",
 ["schedules","fault_sequences","histories"],
 "all interleavings of accept, data, peer close/reset, user Close from any goroutine (including from callbacks and timers), idle expiry and Stop",
 "tests count connects minus closes after sleeps; they do not place a close or a timer between accept and registration nor check overlap or order",
 ["connection.go","server.go","eventloop/eventloop.go"],
 [("connect callback and registration run as one loop task","server.go handleNewConnection"),("single-shot close","connection.go handleClose")],
 ["OnConnect/OnMessage/OnClose call records"],
 [("connected","connection is open","connection.go")])

p("C05","Ended connections are noticed and completely released",
 "When a peer closes or resets, a socket operation fails, or the application calls Close, then within bounded time the close callback has run, the connection reports not connected, it no longer counts in its loop, and its descriptor is closed exactly once: with no open peers the process holds exactly the descriptors it held before the first one connected. Nothing else ends a connection (apart from its idle timer, Stop, and input its protocol rejects).",
 ["schedules","fault_sequences","crash_points"],
 "all instants at which the peer vanishes (before registration, during reads, while output is pending), all combinations with user Close and idle close",
 "no test inspects descriptors or kills peers while output is pending; leaks only show under particular orders",
 ["connection.go","eventloop/eventloop.go","poller/epoll.go","server.go"],
 [("close path removes from poller, runs the callback, closes the fd","connection.go handleClose"),("error and hang-up mapping","poller/epoll.go Poll")],
 ["OnClose","Connected()","ConnectionCount()","descriptor table"],
 [("sockets","fd to connection map","eventloop/eventloop.go")])

p("C06","Connections are isolated from each other's failures and from calls on dead ones",
 "No peer behaviour, socket error or API call (Send, Close, ShutdownWrite, from any goroutine at any time, including on connections that have already ended and whose descriptor number has been reused) on one connection ever closes, resets, half-closes, corrupts or starves another connection or the listening socket.",
 ["schedules","fault_sequences","histories"],
 "all interleavings of late API calls with close and descriptor reuse, all faults on neighbours",
 "needs a descriptor to be reused between two steps of another goroutine, which tests cannot arrange",
 ["connection.go","eventloop/eventloop.go","poller/epoll.go"],
 [("open check before queueing and again in the loop","connection.go Send/Close"),("map removal before descriptor close","connection.go handleClose")],
 ["peer-side byte streams and EOF/reset events of unrelated connections"],
 [("fd","descriptor number held by a connection object","connection.go")])

p("C07","Queued loop tasks run exactly once, in order, on the loop, without lost wake-ups",
 "Every function queued to a running event loop from any goroutine runs exactly once, on that loop's goroutine, never concurrently with another task or handler of the loop, and functions queued one after the other run in that order. It runs within bounded time even if the loop is asleep and nothing else ever wakes it, for any number of functions queued at once, including from inside running tasks.",
 ["schedules","configurations"],
 "all interleavings of producers with the loop's wake-up, queue swap and sleep; initial queue capacities",
 "the test queues ten functions and checks nothing about them",
 ["eventloop/eventloop.go","poller/epoll.go"],
 [("double-buffered queue under spin lock with wake flag","eventloop/eventloop.go QueueInLoop/doPendingFunc/handlerEvent"),("eventfd wake","poller/epoll.go Wake")],
 ["task execution records"],
 [("needWake","a producer must wake the loop","eventloop/eventloop.go"),("taskQueueW/taskQueueR","pending and running tasks","eventloop/eventloop.go")])

p("C08","The poller reports every ready descriptor and stops when closed",
 "While polling, every registered descriptor that stays ready for an enabled direction (including error and hang-up) is handed to the handler with that direction within bounded time, a descriptor is never handed over for a direction that is neither enabled nor an error, and none is handed over by a wait that began after it had been deleted. Closing a running poller from another goroutine makes polling return and releases the poller's descriptors exactly once, and closing one that is not running returns the documented error.",
 ["schedules","fault_sequences","histories"],
 "all interleavings of registration changes, readiness changes, interrupted or spurious waits, more ready descriptors than one wait returns, and Close",
 "the test polls nothing and closes once; interrupted waits, many ready descriptors and races with Close are not reached",
 ["poller/epoll.go","poller/poller.go"],
 [("epoll wait loop and event mapping","poller/epoll.go Poll"),("close handshake","poller/epoll.go Close")],
 ["handler(fd, event) records","Close() result","descriptor table"],
 [("running","poll loop active","poller/epoll.go"),("waitDone","poll loop left","poller/epoll.go")])

p("C09","Idle connections are closed on time, active ones never",
 "With an idle timeout configured and a steady clock, a connection on which nothing has been received and no output could be written for the timeout is closed no later than the timeout plus a small scheduling slack, whenever in its life the silence starts. A connection on which bytes have been received more recently than the timeout is never closed by the idle timer, for any timeout value (also below one second), not even if the wall clock is set forward meanwhile.",
 ["schedules","inputs","configurations","histories"],
 "all activity patterns relative to the clock, all timeout values of at least a few ticks, all interleavings of timer expiry with events and closes",
 "the one idle test uses a 3 s timeout, silent peers and a one-second tolerance",
 ["connection.go","server.go"],
 [("activity time stamp per event","connection.go HandleEvent"),("timer re-armed for the remaining time","connection.go closeTimeoutConn")],
 ["time of OnClose vs. time of last received byte (simulated clock)"],
 [("activeTime","last activity","connection.go"),("timer","pending idle timer","connection.go")])

p("C10","Delayed and periodic tasks fire when they should and as often as they should",
 "With a steady clock, a delayed task runs exactly once, not earlier than its delay (minus one clock tick) and within a small slack after it, unless stopped; a periodic task (period in whole milliseconds) runs once per period in the same sense, its n-th run never before n periods (minus a tick) have passed. Setting the wall clock forward neither loses nor repeats a run of a delayed task. After a stop call that reports success, or after Start and Stop have returned, no run starts except one that was already due.",
 ["schedules","histories","configurations"],
 "all delays (from below a tick to many wheel turns), numbers of timers, creation before or after start and from inside callbacks, stop calls at any instant",
 "two examples use one-second delays and compare printed lines",
 ["server.go","everyscheduler.go","options.go"],
 [("timing wheel with fixed tick","server.go RunAfter/RunEvery"),("next expiry = previous + interval","everyscheduler.go")],
 ["task run times on the simulated clock"])

p("C11","Stop ends everything: connections, descriptors, and Start itself",
 "Calling Stop while Start is running, at any moment and from any goroutine other than those running the server's own callbacks, any number of times, concurrently too, never panics and returns within bounded time; Start then returns; every open connection has been closed with its close callback; the listening address no longer accepts connections; and all descriptors the server created are released exactly once.",
 ["schedules","crash_points","fault_sequences"],
 "all instants of Stop relative to start-up, accepts, data, timers, sends and other Stop calls",
 "tests call Stop once on a quiet server and check nothing afterwards",
 ["server.go","eventloop/eventloop.go","poller/epoll.go","listener.go"],
 [("stop sequence over listener and loops","server.go Stop"),("close-all task and poller close","eventloop/eventloop.go Stop, poller/epoll.go Close")],
 ["return of Start/Stop","OnClose","connect attempts after Stop","descriptor table"],
 [("running","server accepts Stop","server.go")])

p("C12","Load balancing places connections as documented and counts stay exact",
 "With round robin, the k-th accepted connection goes to loop k modulo the number of loops; with least connection, each new connection goes to a loop whose connection count was minimal when it was chosen. Each accepted connection is handed to exactly one loop, and whenever things are quiet each loop's reported connection count equals the number of open connections assigned to it (never negative).",
 ["schedules","histories","configurations"],
 "all arrival and departure histories, numbers of loops, interleavings of accept with closes on other loops",
 "tests open connections slowly, never close any, and read the counts once",
 ["load_balance.go","server.go","eventloop/eventloop.go"],
 [("strategy call per accepted connection","server.go handleNewConnection"),("count maintained on add and delete","eventloop/eventloop.go")],
 ["loop of each connection's callbacks","ConnectionCount()"],
 [("ConnCunt","registered connections","eventloop/eventloop.go")])

p("C13","Length-prefixed (protobuf plugin) messages survive any segmentation",
 "With the protobuf plugin, a peer that sends a sequence of well-formed packets causes exactly one message callback per packet, in order, with the packet's type and exactly its payload, as long as nothing ends the connection, however the packets are cut into or merged in segments and whatever their sizes (including empty type or payload). A packet is delivered within bounded time of its last byte arriving, without needing any further bytes.",
 ["inputs","schedules","fault_sequences"],
 "all sequences of packets, all segmentations, all read sizes and buffer wrap positions",
 "no test covers the plugin",
 ["plugins/protobuf/protocol.go","plugins/protobuf/protobuf.go","connection.go"],
 [("completeness check before consuming","plugins/protobuf/protocol.go UnPacket")],
 ["OnMessage(ctx,data) records"])

p("C14","WebSocket frames survive any segmentation in both directions",
 "After the handshake and until the connection ends, a peer that sends well-formed masked frames causes exactly one message callback per data frame, in order, with exactly the unmasked payload, for every length encoding and however frames are cut into or merged in segments; each ping is answered by one pong with the same payload. Everything the server sends is a sequence of well-formed unmasked frames carrying exactly the payloads and message types the application supplied, in order, and each frame is processed within bounded time of its last byte arriving.",
 ["inputs","schedules","fault_sequences"],
 "all frame sequences and sizes (7-, 16-, 64-bit lengths), all segmentations incl. inside headers, all buffer wrap positions, interleavings with asynchronous sends",
 "the websocket test sends frames below 3 KB over loopback where each frame arrives in one read",
 ["plugins/websocket/protocol.go","plugins/websocket/wrap.go","plugins/websocket/ws/read.go","plugins/websocket/ws/write.go","plugins/websocket/ws/cipher.go","plugins/websocket/ws/frame.go"],
 [("virtual header read with revert on incomplete data","plugins/websocket/protocol.go UnPacket, ws/read.go VirtualReadHeader")],
 ["WSHandler.OnMessage records","frames parsed by the peer"])

p("C15","The WebSocket handshake works for any segmentation and loses nothing",
 "A well-formed upgrade request (RFC 6455: header names, the Upgrade value and Connection tokens in any case), however it is cut into segments, is answered by exactly one 101 response with the accept key derived from the request, and bytes that follow it immediately are processed as frames. Before the request is complete nothing is sent and no application message callback runs; a complete request that is not a valid upgrade is answered by an HTTP error response, never by 101, and does not upgrade the connection, on which a valid request may still follow.",
 ["inputs","schedules","fault_sequences"],
 "all segmentations of requests, header orders and cases, pipelined first frames, many connections at once",
 "the test client sends one fixed request in one write",
 ["plugins/websocket/protocol.go","plugins/websocket/ws/ws.go","plugins/websocket/ws/http.go","plugins/websocket/ws/nonce.go"],
 [("request consumed only when its terminator is present","ws/ws.go Upgrade"),("per-connection upgraded flag","plugins/websocket/protocol.go")],
 ["bytes read by the peer","handshake callbacks","OnMessage"])

p("C16","Malformed or hostile input never takes the server down",
 "Whatever bytes a peer sends, in whatever segmentation, to a server using the default, protobuf or WebSocket protocol, the process does not crash, and all other connections, the accept path and timers keep meeting their guarantees.",
 ["inputs","fault_sequences","schedules"],
 "all byte sequences (corrupted, truncated, oversized or contradictory lengths) and segmentations, with well-behaved neighbours present",
 "no test sends malformed data to the plugins",
 ["plugins/protobuf/protocol.go","plugins/websocket/protocol.go","plugins/websocket/ws/read.go","plugins/websocket/ws/ws.go","plugins/websocket/ws/http.go","plugins/websocket/ws/util/util.go"],
 [("length checks before allocation","plugins")],
 ["process survival","neighbour connections"])

p("C17","Transient accept and registration failures never wedge or leak",
 "If accepting, configuring or registering a connection fails (aborted connection, out of descriptors, out of memory, watch limit), the server keeps running, serves connections again within bounded time once the failure stops, and the affected connection is either served or its descriptor closed; if its connect callback ran, its close callback runs too and loop counts stay exact.",
 ["fault_sequences","schedules"],
 "all sequences of accept4/fcntl/epoll_ctl failures interleaved with normal traffic",
 "tests inject no system-call failures",
 ["listener.go","server.go","eventloop/eventloop.go","poller/epoll.go"],
 [("accept error handling","listener.go HandleEvent"),("registration failure handling","server.go handleNewConnection, eventloop AddSocketAndEnableRead")],
 ["descriptor table","callbacks","service to later peers"])

p("C18","The per-connection key-value context is linearizable",
 "Concurrent Set, Get and Delete calls from any goroutines on one connection's key-value context behave as if each took effect atomically at one instant between its call and its return, inside and outside callbacks and also after the connection has ended. Context returns what the same connection's SetContext stored last.",
 ["schedules","histories"],
 "all interleavings of concurrent operations on few keys, including first use",
 "the test is sequential",
 ["context.go"],
 [("reader-writer lock around a lazily made map","context.go")],
 ["invocation/response history, checked with a linearizability checker"],
 [("kv","the map","context.go")])

p("C19","Buffer-length gauges report the real backlog",
 "Whenever a connection is open and its loop is idle, the reported write backlog equals the number of accepted output bytes not yet handed to the kernel, and the reported read backlog equals the number of received bytes the protocol has not yet consumed; in particular a non-reading peer is visible as a growing write backlog however the output was submitted.",
 ["schedules","histories","inputs"],
 "all mixes of Send and replies, partial writes, drains and partial frames",
 "no test reads the gauges",
 ["connection.go"],
 [("gauges refreshed after events","connection.go HandleEvent")],
 ["WriteBufferLength()","ReadBufferLength() against the simulated kernel's byte accounting"],
 [("outBufferLen/inBufferLen","gauges","connection.go")])

p("C20","A failed server construction releases everything it acquired",
 "If creating a server, event loop or poller fails at any step because the system refuses a resource, an error (not a panic) is returned and every descriptor acquired until then, including the listening socket, is released, so that a later attempt on the same address succeeds. What a successful construction returns works and releases all it acquired when it is stopped; an address in use is refused, unless both servers asked for ReusePort.",
 ["fault_sequences","crash_points"],
 "failure of every single resource-acquiring system call of construction, all descriptor limits, addresses in use, for all loop counts and listen modes",
 "tests never make construction fail",
 ["server.go","listener.go","eventloop/eventloop.go","poller/epoll.go"],
 [("error paths","server.go NewServer, listener.go newListener, poller Create")],
 ["NewServer error","descriptor table","second NewServer on the same address"])

p("C21","Send and Close keep their contract around connection end",
 "Once the close callback of a connection has run, Send, Close and ShutdownWrite return the connection-closed error, have no effect and never block. The completion callback passed to an accepted Send runs at most once, on the loop, with the value sent, only after the message's bytes were handed over and in the order of the Sends, and exactly once if the connection stays open.",
 ["schedules","histories"],
 "all interleavings of Send/Close/ShutdownWrite with each other, with peer close, and with the loop",
 "no test uses the completion callback or sends on a closed connection",
 ["connection.go","connection_options.go"],
 [("open check at call and at execution","connection.go Send/Close/ShutdownWrite")],
 ["Send()/Close()/ShutdownWrite() results","completion callback records"])

p("C22","Half-closed connections still deliver what is owed",
 "If a peer sends data and then half-closes, every reply the message callback returned for that data is delivered to the peer in full before the server closes the connection. If the application half-closes the write side of an open connection and sends nothing afterwards, the peer receives everything sent before, including output still waiting, followed by end-of-stream, and the server keeps delivering the peer's data to the callback until the peer closes.",
 ["schedules","inputs","fault_sequences"],
 "all positions of the half-close relative to data, full buffers and partial writes",
 "tests never half-close",
 ["connection.go","poller/epoll.go"],
 [("pending output is written before end-of-stream is read","connection.go HandleEvent"),("shutdown of the write side","connection.go ShutdownWrite")],
 ["bytes and EOF seen by the peer","OnMessage"])

p("C23","The WebSocket close handshake is answered and then the stream ends",
 "When a peer sends a close frame after other frames, the replies owed for the earlier frames, then exactly one close frame (echoing a valid status code, or reporting a protocol error for an invalid one) and then end-of-stream reach the peer, under any segmentation; the close callback runs once the peer goes away.",
 ["inputs","schedules","fault_sequences"],
 "all close payloads, preceding traffic, segmentations and write-buffer states",
 "the test closes the TCP connection only",
 ["plugins/websocket/wrap.go","plugins/websocket/ws/util/util.go"],
 [("close reply and write-side shutdown","plugins/websocket/wrap.go OnMessage")],
 ["frames and EOF seen by the peer","OnClose"])

p("C24","An event loop with nothing to do sleeps",
 "Whenever no task is queued to an event loop, no event has happened that it has not handled, and for each of its connections there is neither received input that may be delivered now nor pending output that the kernel would take, the loop's goroutine blocks in the kernel instead of polling. In particular a peer that does not read while it keeps sending (so that output is pending and its input waits for it), half-closed or vanished peers, drained output, and past wake-ups do not keep a loop busy.",
 ["schedules","histories","fault_sequences"],
 "all histories of blocked and drained output, unread input, half-closes and wake-ups that lead to a quiet state",
 "no test looks at what a loop does while nothing happens",
 ["connection.go","eventloop/eventloop.go","poller/epoll.go"],
 [("registration follows what the connection waits for","connection.go sendInLoop, handleWrite"),("blocking wait after an empty one, wake-up consumed","poller/epoll.go Poll")],
 ["epoll_wait calls per loop during a quiet stretch of simulated time"],
 [("registered events","what epoll reports","poller/epoll.go")])

p("C25","WebSocket handshake hooks and negotiation act on exactly the request at hand",
 "For every complete upgrade request, however it is segmented, the Upgrader's hooks are called once each on the connection the request came on, in the order of the request (request line, then Host and the headers that are not part of the handshake as they come, with exactly the values sent, the final check last), and none before the request is complete. If a hook returns an error nothing further is called, the request is answered with the status, headers and reason of that rejection (500 and the error's text if it states none) and the connection is not upgraded. Otherwise the 101 response carries the first offered subprotocol the application accepted, exactly the extensions it accepted, and the headers the hooks supplied.",
 ["inputs","schedules","fault_sequences","configurations"],
 "all requests and sequences of rejected and accepted requests on a connection, all hook configurations and decisions, all segmentations, several connections sharing one Upgrader",
 "the tests use an Upgrader without hooks and one fixed request",
 ["plugins/websocket/ws/ws.go","plugins/websocket/ws/http.go","plugins/websocket/ws/errors.go","plugins/websocket/protocol.go"],
 [("request parsed line by line, hooks called as lines are met","plugins/websocket/ws/ws.go Upgrade"),("responses","plugins/websocket/ws/http.go httpWriteResponseUpgrade/httpWriteResponseError")],
 ["hook call records","response bytes read by the peer"])

p("C26","Concurrent use of the API is free of data races",
 "However the goroutines are scheduled, and whatever mixture of event callbacks, Send, Close, ShutdownWrite, context, backlog, count and timer calls from any goroutine, idle timeouts and Stop is under way, no two accesses of the same memory made by gev's own code (fields, maps, slices, buffers it shares or takes from its pools), at least one of them a write, are left unordered by the synchronisation gev performs. Likewise everything one callback of a connection wrote to the application's own state for that connection is visible to the next callback of that connection, without locks in the application. This excludes methods documented or meant for callbacks only (SetContext, UserBuffer, use of a buffer after its callback).",
 ["schedules","histories"],
 "all schedules: happens-before is a property of the synchronisation performed, not of the accesses meeting in time",
 "the race detector judges only the accesses of the few schedules a test happens to run, and few tests use more than one goroutine on one connection",
 ["connection.go","context.go","server.go","listener.go","eventloop/eventloop.go","poller/epoll.go"],
 [("task queue, spin lock and wake-up flag","eventloop/eventloop.go"),("atomic connection flags and gauges","connection.go"),("pooled buffers","connection.go handleClose")],
 ["conflicting accesses unordered by vector clocks over locks, atomics, channels, timers, goroutine creation, eventfd and pools"],
 [("memory of gev","instrumented reads and writes of gev and ringbuffer","connection.go")])

p("C27","Servers in one process do not affect each other",
 "Two servers created in one process, with different options, started and stopped at any moment relative to each other and whatever the peers of the one do, behave as if each were alone: all data, replies and callbacks belong to the server whose peer sent them; load balancing, counts, timers, idle timeouts and protocol of one follow its own options; stopping one, or calls to its connections still under way while it stops, neither stop nor disturb the other, which still accepts, answers and runs its timers; and no call made for one uses a descriptor that is closed or now belongs to the other.",
 ["schedules","histories","configurations","fault_sequences"],
 "all pairs of configurations, instants of start and stop, schedules across both servers' loops, reuse of descriptor numbers between them",
 "tests run one server per process state and never look at a second",
 ["server.go","options.go","connection.go","listener.go","eventloop/eventloop.go","poller/epoll.go","load_balance.go"],
 [("per-server wheel, loops, callbacks and flags","server.go NewServer"),("wake-up descriptor not used once closed","poller/epoll.go Wake/Close"),("process-wide buffer pools","connection.go")],
 ["a second server with its own reference peers beside the workloads of the other properties"])

p("N01","Frame, mask, header and close-body codecs are exact inverses and RFC-conformant",
 "Encoding then decoding any frame header, masking twice with the same key at any offset, and building then parsing a close body give back the input, and the encodings are those of RFC 6455.",
 ["inputs"],"all headers, masks, offsets, payload lengths, status codes and reasons",
 "no unit test covers the codecs",
 ["plugins/websocket/ws/frame.go","plugins/websocket/ws/write.go","plugins/websocket/ws/read.go","plugins/websocket/ws/cipher.go"],
 [("codecs","plugins/websocket/ws")],["return values"])
p("N02","The BSD/macOS poller gives the same guarantees as the Linux poller",
 "On kqueue systems the poller reports readiness, errors and wake-ups with the same guarantees as on Linux.",
 ["schedules","fault_sequences"],"all registration and readiness histories",
 "the file is not compiled on Linux",["poller/kqueue.go"],[("kqueue loop","poller/kqueue.go")],["handler records"])
p("N03","The Windows server gives the same guarantees as the Unix server",
 "On Windows the goroutine-per-connection server keeps the stream, lifecycle and stop guarantees of the Unix server.",
 ["schedules","fault_sequences"],"all interleavings of its read, write and accept goroutines",
 "the file is not compiled on Linux",["server_std.go"],[("reader/writer goroutines","server_std.go")],["callbacks"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    n=x["statement"].count(". ")+1
    assert n<=3,(x["id"],n)
print(len(P))
