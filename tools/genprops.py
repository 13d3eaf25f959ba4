#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "Wire header layout is the same for every writer, reader and accessor",
  "Every frame put on the wire is a 4-byte big-endian length of what follows, the 8-byte big-endian request id, the flag byte, the 3-byte command and then the payload, for every id, command (up to 24 bits), flag byte and payload. The receiving side recovers exactly those fields from those positions, and every header field setter or getter touches or reports its own field and no other. The command-line packet tool prints the same layout.",
  ["inputs"], "every request id, command, flag byte and payload length",
  "Tests send a few small ids, commands and flags; a swapped byte in a high position of the id or length, or a setter clobbering a neighbour, never shows.",
  ["framewriter.go", "framereader.go", "frame.go", "qrpc.go", "tool/packet/main.go"],
  [("header encoding", "framewriter.go StartWrite/endWrite/Set*"), ("header decoding", "framereader.go readFrame")],
  ["bytes on the connection", "Frame fields seen by handlers and callers"])
p("C02", "The compression flag on a frame always tells the truth about its payload",
  "A frame leaves with the compression flag set exactly when its payload bytes are the codec's output (or were declared compressed by the caller), and without it when the plain bytes are sent, in particular for an empty payload or when compressing made it longer. When compression is requested and no codec is configured, or the codec fails, the write reports the error and nothing is sent. The receiver decodes a non-empty payload exactly when the flag is set, and a frame it cannot decode ends reading with an error instead of being delivered raw.",
  ["inputs", "configurations"], "every payload, codec outcome and codec configuration on either side",
  "No test exercises codec failure, expansion or a missing codec on one side.",
  ["framewriter.go", "framereader.go"],
  [("encode decision", "framewriter.go EndWrite/EndWriteCompressed"), ("decode decision", "framereader.go readFrame")],
  ["error returned by the write", "payload delivered to the peer"])
p("C03", "Inbound frame size is checked before memory is reserved or payload read",
  "A server never reserves memory for, or reads the payload of, an inbound frame whose declared size exceeds the binding's maximum frame size, which is always in force because a non-positive setting means the built-in default. A declared size too small to hold the header is rejected on both client and server before anything else is read. A rejected frame is never delivered: it ends the connection's reading with an error. A frame within these bounds is never refused for its size.",
  ["inputs", "configurations"], "every 32-bit declared size and every configured limit",
  "Tests only send well-formed small frames; oversized and undersized lengths are never sent.",
  ["framereader.go", "serveconn.go"],
  [("size checks", "framereader.go readFrame"), ("limit selection", "serveconn.go serve")],
  ["connection closed", "no handler invoked"])
p("C04", "A frame carries only the bytes written for it",
  "The payload of a frame consists of exactly the bytes its writer appended since that frame was started: bytes left from an earlier frame, from a failed write, or from another user of a recycled writer never appear in it. Starting a frame on any writer always begins with an empty payload, also after an error. A writer handed out by the library starts without state (pending response, stream restrictions) of its previous owner.",
  ["histories", "schedules"], "every sequence of frame writes, errors and writer recycling",
  "Tests never write again after a failed write and never inspect recycled writers under contention.",
  ["framewriter.go", "clientconn.go", "serveconn.go"],
  [("buffer truncation", "framewriter.go StartWrite/endWrite"), ("writer recycling", "framewriter.go newFrameWriter/Finalize")],
  ["payload delivered to the peer"])
p("C05", "Flag and command bit semantics",
  "Each flag predicate and conversion, and each command part, means what it documents for every value: non-blocking holds for streamed frames or when marked, a frame is final when it is not streamed, ends a stream or resets it, converting to non-streamed clears all stream markers and nothing else, the other conversions change only their own bit, and routing uses only the low two bytes of the command. A plain request is never sent as a stream from either side, a stream request always is, and a plain request made by the server is always marked non-blocking. Ending a stream write always marks the last frame as the end.",
  ["inputs"], "all 256 flag bytes, all 32-bit commands, all request entry points on both sides",
  "Tests use a handful of flag combinations, and the one conversion that was wrong was exercised by none of them.",
  ["qrpc.go", "clientconn.go", "serveconn.go", "framewriter.go"],
  [("flag helpers", "qrpc.go"), ("request entry points", "clientconn.go/serveconn.go Request, StreamRequest")],
  ["flags of the frames received by the peer"])
p("C06", "A stream is fully closed exactly once, when both directions are finished",
  "Under every interleaving of the reading and the writing side, once both directions of a stream have been finished (final frame or reset, in either order, or connection teardown) the stream is fully closed exactly once: its context is cancelled, it is forgotten by its connection and its completion is signalled once. It is never fully closed while either direction is still open, and no interleaving closes its frame channel or completion signal twice. Nothing is left registered for a stream that both sides finished.",
  ["schedules", "histories"], "all interleavings of final frames, resets and teardown from both sides of a stream",
  "The race between the two sides finishing at the same moment needs an interleaving tests hit by luck; double close panics need a reset followed by another frame.",
  ["stream.go"],
  [("half-close flags", "stream.go closePeerIfNeeded/AddOutFrame/ResetByPeer"), ("once-only finalisation", "stream.go afterDone")],
  ["stream completion channel", "stream context", "process does not panic"])
p("C07", "Outgoing frames are admitted to their stream by one rule on both sides",
  "On client and server alike, and for every position of a frame in a batch of concurrent writes, a reset for an unknown stream fails with the documented error, a reset for a stream already finished on both sides is dropped silently with success, a continuation on a stream that no longer exists fails with the documented error, and any frame after the own side finished fails with the write-after-close error. Only frames that passed this admission are put on the wire, each exactly once. Pushed frames bypass it.",
  ["histories", "schedules"], "every stream state, frame kind and batch position on both sides",
  "Batching only appears under concurrent writers, so tests never drive the second and later positions of a batch into the error cases.",
  ["clientconn.go", "serveconn.go", "stream.go"],
  [("admission", "clientconn.go collectWriteFrames, serveconn.go collectWriteFrames")],
  ["error returned by the write", "bytes on the connection"])
p("C08", "Every submitted write is answered exactly once",
  "Every frame submitted for writing on a connection gets exactly one outcome, success or error, or the connection it was submitted to has ended. No combination of batching, rejection of individual frames, write errors and connection close leaves a submitter of a live connection waiting, reports two outcomes for one submission, or loses the right to write for the submitters that come next.",
  ["schedules", "fault_sequences"], "all interleavings of concurrent writers, batch outcomes, I/O errors and connection close",
  "It takes a write error or rejection in the middle of a concurrent batch to lose or duplicate an outcome.",
  ["serveconn.go", "clientconn.go"],
  [("write hand-off", "serveconn.go/clientconn.go writeFrameBytes"), ("batch completion", "serveconn.go/clientconn.go writeBuffers, collectWriteFrames")],
  ["return of the write call"])
p("C09", "Recycled objects are never shared between two users",
  "An internal object that the library recycles (frame writer, write request, read buffer) is given back at most once per use, and only when nobody else (the connection's write queue or batch, the reading side) can still use it; after giving it back the library does not touch it again. In particular a write request or its writer abandoned because the connection ended is not reused, so a frame of one connection never appears on another.",
  ["schedules", "histories"], "all interleavings of writers, connection close and recycling across connections",
  "Sharing a recycled object needs an abandoned write on a closing connection and a new user at the right moment.",
  ["framewriter.go", "serveconn.go", "clientconn.go", "reader.go"],
  [("pools", "framewriter.go fwPool, serveconn.go wfrPool, reader.go bufPool")],
  ["frames on other connections"])
p("C10", "A reset from the peer cancels exactly its stream and is never run as a request",
  "A reset frame received for a known stream cancels that stream's context, ends the sequence of its incoming frames and, if this side had already finished, fully closes the stream; a caller waiting for the response of that request is told that the stream was closed instead of waiting for ever. A reset is never handed to a request handler or a subscriber, does not disturb any other stream, and a reset for an unknown stream is ignored.",
  ["histories", "inputs"], "every order of resets and other frames, including resets for unknown or already finished streams, on both sides",
  "One test cancels one stream; resets of pending responses, half-finished and unknown streams are not driven.",
  ["framereader.go", "stream.go", "clientconn.go", "serveconn.go"],
  [("reset handling", "framereader.go ReadFrame, stream.go ResetByPeer"), ("pending response failure", "clientconn.go/serveconn.go readFrames")],
  ["request context", "error returned to the waiting caller"])
p("C11", "Frames of a stream reach that stream's consumer once and in order",
  "The first frame of an incoming stream is delivered once as the request, response or push, and every later accepted frame is delivered exactly once, in wire order, to the consumer of the stream with the same id in the same direction class (pushes and requests are kept apart). Delivery of the end of the stream happens after all its frames, and no frame is delivered after the end.",
  ["histories", "schedules"], "every interleaving of frames of many streams on one connection, any consumer speed",
  "Tests stream a few frames with one consumer, so reordering by asynchronous delivery or mixing of ids does not show.",
  ["framereader.go", "stream.go", "frame.go"],
  [("dispatch", "framereader.go ReadFrame"), ("binding and delivery", "stream.go TryBind/AddInFrame")],
  ["frames received from the stream's frame channel"])
p("C12", "A pending response is settled once: by its own frame or by connection end",
  "The caller of a request gets the first response frame carrying the id of that request, or the stream-closed error when the request is reset or its connection ends; never the frame of another request, never two outcomes, and never none once the connection has ended. The expectation is registered before the request can reach the peer, so an arbitrarily fast answer is not lost. A request submitted while the connection is closing fails or is failed, it does not wait for ever.",
  ["schedules", "histories"], "all interleavings of requests, responses, resets and connection teardown on both sides",
  "Losing the race between teardown and registration, or between a fast answer and registration, needs a precise interleaving.",
  ["clientconn.go", "serveconn.go"],
  [("registration", "clientconn.go/serveconn.go writeBuffers"), ("settlement", "readFrames"), ("teardown", "clientconn.go closeRWC, serveconn.go closeUntracked")],
  ["GetFrame / GetFrameWithContext results"])
p("C13", "Request ids are unique per connection and tell which side initiated",
  "Every request started on a connection gets an id never used before on that connection object, also under concurrent calls: odd when the client starts it and even when the server does. The origin tests on a received frame agree with that for every id. The id returned to the caller is the id on the wire.",
  ["schedules", "inputs"], "all concurrent request sequences on both sides, all ids",
  "Uniqueness under concurrency and the parity of all ids cannot be sampled.",
  ["clientconn.go", "serveconn.go", "frame.go"],
  [("id generation", "clientconn.go/serveconn.go nextRequestID"), ("origin test", "frame.go FromClient/FromServer")],
  ["request ids seen by handlers and callers"])
p("C14", "A request is always answered or reset, and a handler panic stays contained",
  "After a request handler returns or panics, on the server as well as on the client, a request that the handler has not finished answering is reset, so its caller does not wait for ever; a request already answered gets no extra frame. A panic in a handler is recovered: it ends neither the process nor the connection, and later requests are still served. Each handler invocation performs this exactly once.",
  ["histories", "fault_sequences"], "every handler outcome (return, panic, answered or not), blocking or not, on both sides",
  "Panics and unanswered requests are not tested in the various modes.",
  ["serveconn.go", "clientconn.go"],
  [("panic and answer guard", "serveconn.go/clientconn.go handleRequestPanic")],
  ["reset frame at the caller", "connection stays usable"])
p("C15", "Blocking requests run one at a time in order, non-blocking ones do not wait",
  "On a server connection, a request not marked non-blocking (or streamed) is executed to completion before any later frame of that connection is read, in wire order; a non-blocking or streamed request runs concurrently in its own goroutine with its own writer, so it delays neither the reading of later frames nor other handlers. No two concurrently running handlers ever share a writer.",
  ["schedules", "inputs"], "all mixes of blocking and non-blocking requests on one connection",
  "Overlap or a shared writer only shows under specific timing.",
  ["serveconn.go", "clientconn.go"],
  [("dispatch", "serveconn.go serve/readFrames gate"), ("client dispatch", "clientconn.go readFrames")],
  ["handler start and end order"])
p("C16", "Requests are routed by the low two command bytes; registration cannot be lost",
  "A request is handled by the handler registered for the low two bytes of its command, whatever its third byte, after all its middleware, in order, allowed it; a middleware refusal stops it. Registering a second handler for the same route, a nil handler or a command out of range panics and never silently replaces a handler. A request without a handler closes its connection rather than being ignored.",
  ["inputs", "configurations"], "all commands including opaque bytes, all registration orders, all middleware chains",
  "Tests register a few small commands without opaque bytes.",
  ["server.go", "middleware.go", "qrpc.go"],
  [("registration", "server.go Handle"), ("dispatch", "server.go ServeQRPC"), ("middleware chain", "middleware.go")],
  ["which handler runs"])
p("C17", "Inbound limits are enforced exactly",
  "When a limit on concurrently running non-blocking requests of a connection is configured, at most that many run at once, every start is matched by exactly one release when it finishes (blocking requests neither take nor release a slot) and exceeding the limit ends the connection without running the request. When a limit on inbound frames per second is configured, the frame that exceeds it within one second ends the connection and is not delivered, and the count starts again every second. With no limit configured nothing is rejected.",
  ["histories", "configurations"], "all mixes of blocking and non-blocking requests and all limits",
  "No test configures a limit.",
  ["serveconn.go"],
  [("in-flight accounting", "serveconn.go serve/handleRequestPanic"), ("frame rate", "serveconn.go readFrames")],
  ["connection closed when exceeded"])
p("C18", "A server connection's end is processed exactly once and completely",
  "However a server connection ends (peer, read or write error, handler, kick, shutdown), its socket is closed, its context is cancelled, pending responses fail, every registered close notification runs exactly once (immediately if registered after the end) and it leaves the set of active connections; the close lifecycle callback runs once, after all its goroutines finished. A connection rejected by the accept callback is closed and reported closed without ever being served.",
  ["schedules", "fault_sequences"], "all concurrent triggers of connection end and registration of notifications",
  "Concurrent close triggers racing with registration cannot be sampled.",
  ["serveconn.go", "server.go"],
  [("teardown", "serveconn.go Close/closeUntracked"), ("registration", "serveconn.go NotifyWhenClose"), ("callback", "serveconn.go serve, server.go Serve")],
  ["close notifications", "OnClose callback", "peer sees the connection closed"])
p("C19", "An id is bound to at most one live connection and always to the latest",
  "Binding an id that another connection of the same listener holds first ends that connection (running the kick callback once) and only then binds; the binding call reports whether it kicked. The end of a connection removes its own binding and never another connection's, and a connection that has ended does not keep or obtain a binding. Looking up an id gives only a connection bound to it, and binding twice or an empty id is refused.",
  ["schedules", "histories"], "all interleavings of binding, kicking and closing for the same id",
  "Needs concurrent binding and closing for the same id.",
  ["server.go", "serveconn.go"],
  [("binding", "server.go bindID, serveconn.go SetID"), ("unbinding", "server.go untrack")],
  ["lookup by id", "kick callback"])
p("C20", "Shutdown ends accepting and waits for the connections",
  "Shutdown closes every listener the server is serving, runs each registered shutdown function exactly once (immediately when registered later), and returns only after all connection goroutines started by the server ended; a second call only waits. Afterwards serving loops return the server-closed error, also when serving starts concurrently with or after the shutdown. A connection accepted while the shutdown is going on is told to end and waited for as well.",
  ["schedules", "histories"], "all interleavings of serve, accept, shutdown and registration",
  "Tests never call shutdown concurrently with serving.",
  ["server.go"],
  [("shutdown", "server.go Shutdown/closeListenersLocked"), ("accept loop", "server.go Serve"), ("registration", "server.go OnShutdown")],
  ["return values of Serve and Shutdown", "shutdown callbacks"])
p("C21", "A write reported successful was handed completely to the network",
  "A frame write returns success only if every byte of the frame was accepted by the network connection, and a frame not completely accepted is reported as an error, for every pattern of partial writes, timeouts and errors; bytes already accepted are never sent again. After a failed write the connection writes no further frames. The websocket connection obeys the same contract: it never reports bytes as written together with an error.",
  ["fault_sequences", "schedules"], "all partial write and error patterns of the underlying connection, any batch",
  "Partial writes and errors mid batch do not occur on loopback.",
  ["writer.go", "clientconn.go", "serveconn.go", "ws/server/conn.go"],
  [("write loop", "writer.go Write/writeBuffers"), ("batch outcome", "clientconn.go/serveconn.go writeBuffers"), ("overlay write", "ws/server/conn.go Write")],
  ["error returned by the write", "bytes received"])
p("C22", "Closing a client connection ends everything it started",
  "After a client connection is closed, its socket is closed, its goroutines end, waiting for it returns and requests issued on it fail promptly with an error, whether or not reconnecting is enabled and whether or not it is currently connected. No reconnect attempt is started after the close. Only the first close succeeds; later ones report that it was already closed.",
  ["schedules", "fault_sequences"], "all moments of closing relative to connecting, reconnecting, reading and writing",
  "Closing during reconnect or in the middle of a write needs timing that tests do not create.",
  ["clientconn.go"],
  [("main loop", "clientconn.go loop/connect"), ("close", "clientconn.go Close/closeRWC"), ("pending writes", "clientconn.go writeFrameBytes")],
  ["return of Wait", "errors of requests"])
p("C23", "TLS, overlay and socket settings are honoured on every connection path",
  "Whenever a TLS configuration is given, every connection the library makes (plain, reconnecting and each of its reconnects, multi-endpoint, websocket overlay) or accepts runs over TLS with that configuration, and never silently in clear. The dial timeout and socket buffer settings are applied on every dialling path as well (buffer sizes only where one is set), and a configured overlay network is used on every dialling path and for every listener (except for the port-reusing dial, which always makes a plain TCP connection); the overlay is given the same settings. A failed TLS handshake fails the dial and leaves no open socket.",
  ["configurations"], "every combination of settings and every way of making or accepting a connection",
  "TLS tests use one client path only; the reconnecting path was never tried with TLS.",
  ["clientconn.go", "clientconn_reuse.go", "server.go", "api.go", "ws/client/conn.go", "ws/server/overlay.go"],
  [("dial paths", "clientconn.go NewConnection/NewConnectionWithReconnect/connect"), ("listen paths", "server.go ListenAll, ws/server/overlay.go")],
  ["bytes on the wire"])
p("C24", "A request always gives access to the connection it arrived on",
  "Every request handed to a handler, on the server or on any (first or re-established) connection of a client with a handler, can reach its own connection: its connection info, its close operation and its means to start streams refer to the connection it arrived on, without panicking. Closing through a server-initiated request drops the client's current connection, and its context ends when that connection ends.",
  ["histories", "configurations"], "every request on either side, on the first and on every later connection",
  "Client-side handlers are only tested without using their connection.",
  ["clientconn.go", "server.go", "frame.go"],
  [("context values", "clientconn.go newConnection/connect, server.go newConn"), ("lookup", "frame.go")],
  ["handler observations"])
p("C25", "Each client connection cycle starts clean and ends completely before the next",
  "For every established connection of a client, the connect callback runs once, when the connection can be used, then once the connection is lost the disconnect callback runs once; all its goroutines, streams and pending responses are ended before the next connection is used, so nothing of an old connection is mixed into a new one. A lost connection is detected by whichever of reading or writing fails first and always leads to reconnecting (when enabled) or closing.",
  ["schedules", "fault_sequences"], "all sequences of connection losses and re-establishments",
  "No test drops a reconnecting connection.",
  ["clientconn.go", "stream.go"],
  [("cycle", "clientconn.go loop/closeRWC/endLoop")],
  ["lifecycle callbacks", "stream completion"])
p("C26", "Multi-endpoint calls use live connections, replace broken ones and respect close",
  "A call to a named endpoint goes to that endpoint and an unknown name is refused; a call to all endpoints yields one result per endpoint. A connection on which sending failed is closed and forgotten and, unless the connection was only opened for this call, the call is retried on a fresh or replacement connection, at most one live connection being kept per endpoint also under concurrent calls. After close no new connection is opened and every connection is closed.",
  ["schedules", "fault_sequences"], "all interleavings of calls, connection failures and close",
  "Tests call healthy endpoints only.",
  ["api.go"],
  [("call paths", "api.go callViaIdx/callWithoutConn/callViaActiveConns"), ("bookkeeping", "api.go safeStoreConnLocked/safeCloseDeleteConn")],
  ["results per endpoint", "open connections"])
p("C27", "A generated-service request gets exactly one answer, success or error",
  "The dispatcher of generated services answers every request exactly once with the id of the request: the method's result under the request's command, or an error text under the error command when the request cannot be decoded, names an unknown method or the method fails. The client returns an error exactly when the call failed or the answer carries the error command, trying the next address only when sending failed. Generated client and server code decide how to encode each argument and result from the same type.",
  ["inputs", "histories"], "every request content and method outcome",
  "No test covers the generated services.",
  ["codegen/service_handler.go", "codegen/client.go", "codegen/generator.go"],
  [("dispatch", "codegen/service_handler.go ServeQRPC"), ("client call", "codegen/client.go Request"), ("encoding choice", "codegen/generator.go")],
  ["answer frames", "client result"])
p("C28", "Channel-style send and receive follow the stream they wrap",
  "Sending through a pipe opens the stream once with the first message and uses it for every later one, the end marker of any message ends the stream, and sending after the sender was ended is refused; an encoding failure sends nothing and is reported. Receiving returns the frames of that stream in order, always decodes into the caller's variable, and reports the end of the stream and cancellation as errors. Concurrent senders on one pipe never open two streams or interleave their messages.",
  ["schedules", "histories"], "all sequences and interleavings of send, receive and end on both sides",
  "One test exchanges single messages.",
  ["channel/clienttransport.go", "channel/servetransport.go"],
  [("sender", "channel/clienttransport.go Send/End"), ("receiver", "channel/clienttransport.go getFrame, channel/servetransport.go Receive")],
  ["messages and errors at the other end"])
p("C29", "The websocket overlay is a faithful byte stream",
  "Reading from the websocket connection yields exactly the bytes of the received binary messages, in order, for every buffer size: nothing is skipped or repeated across messages, a message larger than the buffer is continued, and no other message type is ever delivered as data. Each write sends exactly its bytes as one binary message. A connection upgraded after the listener was closed is closed instead of being leaked, and accepting fails once the listener is closed.",
  ["inputs", "schedules"], "every message size, buffer size and message type sequence, and every moment of closing",
  "Tests use small frames which fit the buffers.",
  ["ws/server/conn.go", "ws/server/overlay.go"],
  [("read buffering", "ws/server/conn.go Read/readBuffer"), ("accept hand-off", "ws/server/overlay.go")],
  ["bytes read by the peer"])
p("C30", "Shared connection state is only touched under its synchronisation",
  "Every piece of mutable state shared between goroutines of a connection, server or client (pending responses, current socket, id, close flags, listeners, registrations, routes, stream state, counters) is accessed consistently: under its lock, or only atomically. No lock is taken again by the goroutine holding it, and locks are taken in one order. Locks are released on every path, including early returns, errors and panics, and none is held while a user callback runs or while waiting on a channel, except that a pipe's sender keeps its own lock for the length of a message and an API dials one connection at a time. What the documentation leaves to the caller (SetAnything; setting a server up before it serves) is not included.",
  ["schedules"], "all interleavings of public operations and internal goroutines",
  "Data races and lock leaks on rare paths need the right interleaving; the race detector only sees executed paths.",
  ["clientconn.go", "serveconn.go", "server.go", "stream.go", "api.go", "channel/clienttransport.go"],
  [("mutexes", "clientconn.go mu, serveconn.go ConnectionInfo lock, server.go mu, api.go mu"), ("atomics", "stream.go, clientconn.go closed/ridGen, serveconn.go untrack/inflight")],
  ["absence of races and deadlocks"])
p("C31", "Throttling pauses exactly while it is on",
  "While throttling is on for a listener, it accepts no new connection beyond the one it is already waiting for, and each of its connections reads no further request beyond the one in hand or already being waited for; clearing it releases every waiter. A waiter never outlasts the end of its own connection or, for accepting, the shutdown of the server. Setting twice or clearing when not set has no effect, also when called concurrently, and listeners do not affect each other.",
  ["schedules"], "all histories and interleavings of setting and clearing with any number of waiters",
  "Tests do not use throttling.",
  ["server.go", "serveconn.go"],
  [("throttle", "server.go waitThrottle/SetThrottle/ClearThrottle")],
  ["accepting and reading pause and resume"])
p("C32", "Nothing waits for ever once its connection has ended",
  "Every wait the library performs on behalf of a connection (for a queue slot, a result, the write turn, a frame consumer, a blocking handler, throttling, a stream to finish) also ends when that connection or stream ends or is closed. So readers, writers and callers always come back after the connection is gone, and closing always completes.",
  ["schedules", "fault_sequences"], "every wait and every moment at which the connection can end",
  "A wait without a way out only hangs if the connection ends exactly during that wait.",
  ["framereader.go", "stream.go", "serveconn.go", "clientconn.go", "server.go", "channel/clienttransport.go"],
  [("cancelable waits", "select statements with the connection or stream context")],
  ["goroutines end after close"])
p("C33", "Pushed frames reach the subscriber only, and only when there is one",
  "A pushed frame received by a client or server is given to the configured subscriber exactly once, with the connection it arrived on, and is dropped when there is none; it never settles a pending response nor runs a request handler. Sending a pushed frame registers no stream and no pending response, and a push request made as a call does not wait for an answer.",
  ["inputs", "configurations"], "every flag combination including push, with and without a subscriber, on both sides",
  "Tests push with one flag combination and a subscriber present.",
  ["clientconn.go", "serveconn.go"],
  [("push dispatch", "clientconn.go/serveconn.go readFrames"), ("push writing", "collectWriteFrames, writeFirstFrame")],
  ["subscriber invocations"])
p("C34", "Only one goroutine writes to a connection at a time, in whole frames",
  "Bytes are written to a connection only by the single holder of its write turn (server) or its single writing goroutine (client), one complete batch of frames after the other, in the order the frames were taken from the queue. The turn is kept for good once a batch could not be written completely, so a partially written frame is never followed by other frames.",
  ["schedules"], "all interleavings of concurrent writers",
  "Interleaved frames corrupt the stream only under contention.",
  ["serveconn.go", "clientconn.go", "writer.go"],
  [("write turn", "serveconn.go writeFrameBytes"), ("writing goroutine", "clientconn.go writeFrames")],
  ["frame boundaries at the peer"])
p("C35", "Configured read and write timeouts bound every network read and write",
  "With a positive timeout configured, each read of a header or payload and each batch write has a deadline derived from it set on the connection before it blocks; reading a payload never gets longer than the built-in payload bound when a timeout is in force. Without a timeout reads have no deadline, and writes still wake up regularly to notice the end of the connection, a wake-up alone never being reported as a failure. A write fails with the timeout once its own bound has passed.",
  ["fault_sequences", "configurations"], "all timeouts and all patterns of partial progress",
  "Tests never stall the peer.",
  ["reader.go", "writer.go", "framereader.go"],
  [("read deadline", "reader.go ReadBytesWithMaxTimeout"), ("write deadline", "writer.go Write/writeBuffers")],
  ["error after the timeout"])
p("C36", "Weighted endpoint choice follows the weights",
  "For every list of endpoints with one weight each (none negative, not all zero; none given means equal weights), the endpoint a call without endpoint asks first is chosen by one number drawn evenly below the sum of the weights, for each call anew, and each endpoint belongs to exactly as many of these numbers as its weight says, so an endpoint of weight zero is never asked first. What the caller does with its list of weights afterwards changes nothing.",
  ["inputs", "histories"], "all weight vectors and random outcomes",
  "A test samples few of the draws and weight vectors; a slightly wrong proportion shows in none of them.",
  ["api.go"], [("weights and their sum", "api.go NewAPI"), ("weighted choice", "api.go getIdx, Call")], ["endpoint asked first for each draw"])
p("C37", "Payloads survive every codec, marshaller and transport unchanged end to end",
  "For every payload and every lossless codec or message type, what the receiving handler, caller or subscriber obtains equals what the sender supplied, byte for byte or value for value.",
  ["inputs", "programs"], "all payloads, all user codecs and marshallers",
  "Round-trip equality over all values and arbitrary user codecs cannot be sampled.",
  ["framewriter.go", "framereader.go", "codegen/pb/rpc.pb.go", "channel/encode.go"],
  [("encode/decode", "framewriter.go, framereader.go, codegen/pb/rpc.pb.go, channel/encode.go")], ["payload equality"])
p("C38", "Code generated for any service compiles and calls the right methods",
  "For every main service and sub service a user registers (methods of the accepted shape with named argument and result types), whatever other generators ran before and whichever of the types encode themselves, the generator's output is a valid program: it compiles, its clients offer and ask for exactly the registered methods under their service, a sub service is reached through the main client, and the dispatcher runs each registered method under its own name with the commands the generator was made with.",
  ["programs"], "all service definitions",
  "Quantifies over user programs; there is no test of the generator.",
  ["codegen/generator.go"], [("generator", "codegen/generator.go Generate")], ["generated file compiles", "method reached by a call of the generated client"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
