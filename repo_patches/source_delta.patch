From 59551e32a4b81d43ecd54dee14e09cac0537cb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:06 +0000
Subject: [PATCH 01/42] fix: plain requests must not be sent as streams

ToNonStream masked with the (empty) intersection of the stream flags, so it
cleared nothing, and the server side request did not convert at all.
---
 qrpc.go      | 2 +-
 serveconn.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qrpc.go b/qrpc.go
index 67731bf..3d6ecfb 100644
--- a/qrpc.go
+++ b/qrpc.go
@@ -46,7 +46,7 @@ const (
 
 // ToNonStream convert flg to nonstreamed flag
 func (flg FrameFlag) ToNonStream() FrameFlag {
-	return flg & ^(StreamFlag & StreamEndFlag)
+	return flg & ^(StreamFlag | StreamEndFlag)
 }
 
 // ToStream convert flg to streamed flag
diff --git a/serveconn.go b/serveconn.go
index 0a7f6d5..048955a 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -696,7 +696,7 @@ func (sc *serveconn) tryFreeStreams() {
 
 // Request clientconn from serveconn
 func (sc *serveconn) Request(cmd Cmd, flags FrameFlag, payload []byte) (uint64, Response, error) {
-	flags = flags | NBFlag
+	flags = flags.ToNonStream() | NBFlag
 	requestID, resp, _, err := sc.writeFirstFrame(cmd, flags, payload)
 
 	return requestID, resp, err
-- 
2.43.0


From d2458e602bd402e82e82fb98a7d8e34265fbcc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:08 +0000
Subject: [PATCH 02/42] fix: reconnecting connections must honour TLSConf

The initial dial and every reconnect dropped the TLS config and talked plain text.
---
 clientconn.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index 184b82d..b972694 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -164,9 +164,9 @@ func NewConnectionWithReconnect(addrs []string, conf ConnectionConfig, f SubFunc
 		err error
 	)
 	if conf.OverlayNetwork != nil {
-		rwc, err = conf.OverlayNetwork(copy[len(copy)-1], DialConfig{DialTimeout: conf.DialTimeout, WBufSize: conf.WBufSize, RBufSize: conf.RBufSize})
+		rwc, err = conf.OverlayNetwork(copy[len(copy)-1], DialConfig{DialTimeout: conf.DialTimeout, WBufSize: conf.WBufSize, RBufSize: conf.RBufSize, TLSConf: conf.TLSConf})
 	} else {
-		rwc, err = dialTCP(copy[len(copy)-1], DialConfig{DialTimeout: conf.DialTimeout, WBufSize: conf.WBufSize, RBufSize: conf.RBufSize})
+		rwc, err = dialTCP(copy[len(copy)-1], DialConfig{DialTimeout: conf.DialTimeout, WBufSize: conf.WBufSize, RBufSize: conf.RBufSize, TLSConf: conf.TLSConf})
 	}
 	if err != nil {
 		l.Error("initconnect DialTimeout", zap.Error(err))
@@ -273,9 +273,9 @@ func (conn *Connection) connect() error {
 			err error
 		)
 		if conn.conf.OverlayNetwork != nil {
-			rwc, err = conn.conf.OverlayNetwork(addr, DialConfig{DialTimeout: conn.conf.DialTimeout, WBufSize: conn.conf.WBufSize, RBufSize: conn.conf.RBufSize})
+			rwc, err = conn.conf.OverlayNetwork(addr, DialConfig{DialTimeout: conn.conf.DialTimeout, WBufSize: conn.conf.WBufSize, RBufSize: conn.conf.RBufSize, TLSConf: conn.conf.TLSConf})
 		} else {
-			rwc, err = dialTCP(addr, DialConfig{DialTimeout: conn.conf.DialTimeout, WBufSize: conn.conf.WBufSize, RBufSize: conn.conf.RBufSize})
+			rwc, err = dialTCP(addr, DialConfig{DialTimeout: conn.conf.DialTimeout, WBufSize: conn.conf.WBufSize, RBufSize: conn.conf.RBufSize, TLSConf: conn.conf.TLSConf})
 		}
 
 		if err != nil {
-- 
2.43.0


From 0396d6159a188600141293437aac6d6d247c377b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:09 +0000
Subject: [PATCH 03/42] fix: NewReusedConnection must honour TLSConf

---
 clientconn_reuse.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/clientconn_reuse.go b/clientconn_reuse.go
index 557ab0d..2d06492 100644
--- a/clientconn_reuse.go
+++ b/clientconn_reuse.go
@@ -3,6 +3,7 @@
 package qrpc
 
 import (
+	"crypto/tls"
 	"net"
 
 	reuse "github.com/zhiqiangxu/go-reuseport"
@@ -17,6 +18,15 @@ func NewReusedConnection(addr string, conf ConnectionConfig, f SubFunc) (*Connec
 		return nil, err
 	}
 
+	if conf.TLSConf != nil {
+		tlsConn := tls.Client(rwc, conf.TLSConf)
+		if err = tlsConn.Handshake(); err != nil {
+			rwc.Close()
+			return nil, err
+		}
+		rwc = tlsConn
+	}
+
 	return newConnection(rwc, []string{addr}, conf, f, false), nil
 }
 
-- 
2.43.0


From bddedaa637212b5295eeb523408f6742e599a556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:11 +0000
Subject: [PATCH 04/42] fix: detect duplicate registrations by routing cmd

The map is keyed by cmd.Routing(), so a cmd with an opaque byte silently
replaced the handler registered for the same route.
---
 server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index bf17653..d80f560 100644
--- a/server.go
+++ b/server.go
@@ -98,7 +98,7 @@ func (mux *ServeMux) Handle(cmd Cmd, handler Handler, middleware ...MiddlewareFu
 	if mux.m == nil {
 		mux.m = make(map[Cmd]Handler)
 	}
-	if _, exist := mux.m[cmd]; exist {
+	if _, exist := mux.m[cmd.Routing()]; exist {
 		panic("qrpc: multiple registrations for " + string(cmd))
 	}
 
-- 
2.43.0


From cf95af66d985a1c24ec8bb69f67d335ac5b1002d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:12 +0000
Subject: [PATCH 05/42] fix: blocking requests must not release an inflight
 stream slot

They never take one, so each of them raised MaxInboundInflightStreamPerConn by one.
---
 serveconn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serveconn.go b/serveconn.go
index 048955a..81baf2a 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -199,7 +199,8 @@ func (sc *serveconn) serve() {
 
 			if res.readMore != nil {
 				func() {
-					defer sc.handleRequestPanic(res.f, time.Now(), inflightStreamsPtr)
+					// blocking requests are not counted in inflightStreams
+					defer sc.handleRequestPanic(res.f, time.Now(), nil)
 					handler.ServeQRPC(sc.writer, res.f)
 				}()
 				res.readMore()
-- 
2.43.0


From dcc7dbc2eccd3d30c867b5bdbb2b844cc678887f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:14 +0000
Subject: [PATCH 06/42] fix: frame reader must not wait for a stream after the
 connection is closed

The stream is only released after the reader quits, so the reader, the
connection and Server.Shutdown hanged for ever.
---
 framereader.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/framereader.go b/framereader.go
index 3240649..fae4165 100644
--- a/framereader.go
+++ b/framereader.go
@@ -69,7 +69,11 @@ start:
 	}
 	ok := s.AddInFrame(f)
 	if !ok {
-		<-s.Done()
+		select {
+		case <-s.Done():
+		case <-dfr.ctx.Done():
+			return nil, dfr.ctx.Err()
+		}
 	}
 
 	goto start
-- 
2.43.0


From 87d7fffde385182ee797e1440c1aac491a058ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:15 +0000
Subject: [PATCH 07/42] fix: close frameCh only once

A final frame following a reset of a stream without frames panicked with
"close of closed channel", so a remote peer could crash the process.
---
 stream.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stream.go b/stream.go
index 20c3e96..c603ef5 100644
--- a/stream.go
+++ b/stream.go
@@ -150,8 +150,9 @@ func (s *Stream) closePeerIfNeeded(flags FrameFlag) {
 		return
 	}
 
-	atomic.StoreInt32(&s.closedPeer, 1)
-	close(s.frameCh)
+	if atomic.CompareAndSwapInt32(&s.closedPeer, 0, 1) {
+		close(s.frameCh)
+	}
 	if atomic.LoadInt32(&s.closedSelf) != 0 {
 		s.afterDone()
 	}
-- 
2.43.0


From 5d5cad579330eb4c2a93aba50609cb6726fde31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:16 +0000
Subject: [PATCH 08/42] fix: reset by peer must fully close a stream already
 closed by self

Otherwise the stream is never removed and Done never fires.
---
 stream.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stream.go b/stream.go
index c603ef5..434ffdb 100644
--- a/stream.go
+++ b/stream.go
@@ -203,6 +203,10 @@ func (s *Stream) ResetByPeer() {
 	}
 
 	s.reset()
+
+	if atomic.LoadInt32(&s.closedSelf) != 0 {
+		s.afterDone()
+	}
 }
 
 func (s *Stream) afterDone() {
-- 
2.43.0


From d08e42c0f0f1e0a60356f2127f2b88a610a5c924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:18 +0000
Subject: [PATCH 09/42] fix: a request reset by peer must fail its pending
 response

Reset frames were swallowed by the frame reader, so Response.GetFrame
blocked for ever instead of returning ErrStreamClosed.
---
 clientconn.go  | 4 ++++
 framereader.go | 6 ++++++
 serveconn.go   | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/clientconn.go b/clientconn.go
index b972694..0af99e1 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -511,6 +511,10 @@ func (conn *Connection) readFrames() {
 				// just ignore it
 				return
 			}
+			if frame.Flags.IsRst() {
+				// nobody is waiting for it
+				continue
+			}
 			if conn.conf.Handler != nil {
 				if !frame.FromServer() {
 					l.Error("clientconn get RequestFrame.RequestID not even")
diff --git a/framereader.go b/framereader.go
index fae4165..c79e187 100644
--- a/framereader.go
+++ b/framereader.go
@@ -37,6 +37,7 @@ func newFrameReaderWithMFS(ctx context.Context, rwc net.Conn, timeout int, codec
 }
 
 // ReadFrame will only return the first frame in stream
+// the returned frame is an rst frame iff the stream is reset before any other frame
 func (dfr *defaultFrameReader) ReadFrame(cs *ConnStreams) (*Frame, error) {
 start:
 	f, err := dfr.readFrame()
@@ -55,6 +56,11 @@ start:
 		s := cs.GetStream(requestID, flags)
 		if s != nil {
 			s.ResetByPeer()
+			if !s.binded {
+				// the pending response, if any, should be closed by caller
+				s.binded = true
+				return f, nil
+			}
 		}
 
 		goto start
diff --git a/serveconn.go b/serveconn.go
index 81baf2a..c2cc047 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -412,6 +412,11 @@ func (sc *serveconn) readFrames() (err error) {
 			}
 		}
 
+		if req.Flags.IsRst() {
+			// nobody is waiting for it
+			continue
+		}
+
 		if req.Flags.IsNonBlock() {
 			select {
 			case sc.readFrameCh <- readFrameResult{f: (*RequestFrame)(req)}:
-- 
2.43.0


From 497f5f8a968c6d19f11e623d226195a829290fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:19 +0000
Subject: [PATCH 10/42] fix: Close must stop a reconnecting connection

The close was only noticed after a failed dial, so with a reachable server
the connection reconnected for ever and Wait never returned; a request
waiting for its write result was never woken up.
---
 clientconn.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/clientconn.go b/clientconn.go
index 0af99e1..c6fe74f 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -264,6 +264,12 @@ func (conn *Connection) connect() error {
 
 	count := 0
 	for {
+		select {
+		case <-conn.ctx.Done():
+			return conn.ctx.Err()
+		default:
+		}
+
 		addr := conn.addrs[conn.idx%len(conn.addrs)]
 		conn.idx++
 		count++
@@ -403,6 +409,8 @@ func (conn *Connection) writeFrameBytes(dfw *defaultFrameWriter) error {
 			wfr.dfw = nil
 			wfrPool.Put(wfr)
 			return err
+		case <-conn.ctx.Done():
+			return conn.ctx.Err()
 		}
 	} else {
 		select {
-- 
2.43.0


From 35d145e71cdf1d400ca34706a54b4176df7ddd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:21 +0000
Subject: [PATCH 11/42] fix: make ClientConnectionInfo available on the first
 connection

The context of the first connection lacked it, so ClientConnectionInfo,
StreamInitiator and Close panicked in client side handlers.
---
 clientconn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clientconn.go b/clientconn.go
index c6fe74f..8899648 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -201,7 +201,7 @@ func newConnection(rwc net.Conn, addr []string, conf ConnectionConfig, f SubFunc
 
 	if rwc != nil {
 		// loopxxx should be paired with rwc
-		loopCtx, loopCancelCtx := context.WithCancel(ctx)
+		loopCtx, loopCancelCtx := context.WithCancel(c.ctx)
 		c.loopCancelCtx = loopCancelCtx
 		atomic.StorePointer((*unsafe.Pointer)((unsafe.Pointer)(&c.loopCtx)), unsafe.Pointer(&loopCtx))
 		c.loopBytesWriter = NewWriterWithTimeout(loopCtx, rwc, conf.WriteTimeout)
-- 
2.43.0


From 580bbf5811a0e2c56141b4e855413cb4ca0b36c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:22 +0000
Subject: [PATCH 12/42] fix: check stream existence for every frame of a batch

Only the first frame of a batch was checked, so a continuation frame of a
closed stream resurrected it when written concurrently with other frames.
---
 clientconn.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index 8899648..6f5b8c0 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -688,9 +688,19 @@ firstFrame:
 					break
 				}
 			} else if !flags.IsPush() { // skip stream logic if PushFlag set
-				s, loaded := conn.cs.CreateOrGetStream(*conn.loopCtx, requestID, flags)
-				if !loaded {
-					l.Debug("serveconn new stream", zap.Uint64("requestID", requestID), zap.Uint8("flags", uint8(flags)), zap.Uint32("cmd", uint32(dfw.Cmd())))
+				var s *Stream
+				if dfw.checkExist {
+					s = conn.cs.GetStream(requestID, flags)
+					if s == nil {
+						res.result <- ErrStreamNotExists
+						break
+					}
+				} else {
+					var loaded bool
+					s, loaded = conn.cs.CreateOrGetStream(*conn.loopCtx, requestID, flags)
+					if !loaded {
+						l.Debug("serveconn new stream", zap.Uint64("requestID", requestID), zap.Uint8("flags", uint8(flags)), zap.Uint32("cmd", uint32(dfw.Cmd())))
+					}
 				}
 				if !s.AddOutFrame(requestID, flags) {
 					res.result <- ErrWriteAfterCloseSelf
-- 
2.43.0


From c2b6d70e5ecb01c3f99228f41feb06cf58f93417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:24 +0000
Subject: [PATCH 13/42] fix: start every frame with an empty payload

The payload of a frame which failed to encode, or was never ended, was
prepended to the next frame, even of another connection via the pool.
---
 framewriter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/framewriter.go b/framewriter.go
index 94d7390..d38d752 100644
--- a/framewriter.go
+++ b/framewriter.go
@@ -49,6 +49,8 @@ func (dfw *defaultFrameWriter) Finalize() {
 
 // StartWrite Write the FrameHeader.
 func (dfw *defaultFrameWriter) StartWrite(requestID uint64, cmd Cmd, flags FrameFlag) {
+	// drop whatever a previous unfinished frame left
+	dfw.wbuf = dfw.wbuf[:headerSize]
 	binary.BigEndian.PutUint64(dfw.wbuf[4:], requestID)
 	cmdAndFlags := uint32(flags)<<24 + uint32(cmd)&0xffffff
 	binary.BigEndian.PutUint32(dfw.wbuf[12:], cmdAndFlags)
@@ -185,6 +187,7 @@ type defaultStreamWriter defaultFrameWriter
 
 func (dsw *defaultStreamWriter) StartWrite(cmd Cmd) {
 	dfw := (*defaultFrameWriter)(dsw)
+	dfw.wbuf = dfw.wbuf[:headerSize]
 	dfw.SetCmd(cmd)
 }
 
-- 
2.43.0


From 40a2b311269a29c8cbfc7b89013e8e088b402c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:10 +0000
Subject: [PATCH 14/42] fix: a closing connection must only remove, and always
 remove, its own id binding

Closing a connection whose id is bound to another one unbound the other, and
binding on a connection already closed left a stale binding on which the next
SetID for that id looped for ever.
---
 server.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index d80f560..e4f0cad 100644
--- a/server.go
+++ b/server.go
@@ -484,6 +484,14 @@ check:
 		goto check
 	}
 
+	if sc.IsClosed() {
+		// untrack may have missed the binding above
+		<-sc.untrackedCh
+		if v, ok := srv.id2Conn[idx].Load(id); ok && v.(*serveconn) == sc {
+			srv.id2Conn[idx].Delete(id)
+		}
+	}
+
 	ko = atomic.LoadUint64(&kickOrder)
 	return
 }
@@ -498,7 +506,10 @@ func (srv *Server) untrack(sc *serveconn, kicked bool) (bool, <-chan struct{}) {
 
 	id := sc.GetID()
 	if id != "" {
-		srv.id2Conn[idx].Delete(id)
+		// the id may be (still) bound to another connection
+		if v, ok := srv.id2Conn[idx].Load(id); ok && v.(*serveconn) == sc {
+			srv.id2Conn[idx].Delete(id)
+		}
 	}
 	srv.activeConn[idx].Delete(sc)
 
-- 
2.43.0


From 7fcaa0cbeb6e22501d9c8fc83f523bc52cb1f3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:12 +0000
Subject: [PATCH 15/42] fix: Serve must return ErrServerClosed after Shutdown

A listener served after Shutdown was never closed, so Serve accepted for
ever; and Shutdown returned before connections just accepted were tracked.
---
 server.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index e4f0cad..8b409c7 100644
--- a/server.go
+++ b/server.go
@@ -283,7 +283,9 @@ func (srv *Server) Serve(ln Listener, idx int) error {
 	defer ln.Close()
 	var tempDelay time.Duration // how long to sleep on accept failure
 
-	srv.trackListener(ln, idx, true)
+	if !srv.trackListener(ln, idx, true) {
+		return ErrServerClosed
+	}
 	defer srv.trackListener(ln, idx, false)
 
 	acceptCheckFunc := srv.bindings[idx].LifecycleCallbacks.OnAccept
@@ -407,14 +409,21 @@ func (ln *TCPKeepAliveListener) Accept() (c net.Conn, err error) {
 	return
 }
 
-func (srv *Server) trackListener(ln net.Listener, idx int, add bool) {
+func (srv *Server) trackListener(ln net.Listener, idx int, add bool) bool {
 	srv.mu.Lock()
 	defer srv.mu.Unlock()
 	if add {
+		if srv.done {
+			return false
+		}
+		// Shutdown also waits for the accept loop, which may add connections
+		srv.wg.Add(1)
 		srv.listeners[idx] = ln
 	} else {
 		srv.listeners[idx] = nil
+		srv.wg.Done()
 	}
+	return true
 }
 
 // Create new connection from rwc.
-- 
2.43.0


From 4f254fcc56627fab9857126b28fc0c4abe5abd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:13 +0000
Subject: [PATCH 16/42] fix: websocket Write must not report bytes written on
 error

A frame whose write failed was reported as successfully written.
---
 ws/server/conn.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ws/server/conn.go b/ws/server/conn.go
index 2bf4edb..d4bc556 100644
--- a/ws/server/conn.go
+++ b/ws/server/conn.go
@@ -64,7 +64,11 @@ func (c *conn) readBuffer(b []byte) (n int, err error) {
 	return
 }
 func (c *conn) Write(b []byte) (n int, err error) {
-	return len(b), c.wc.WriteMessage(websocket.BinaryMessage, b)
+	err = c.wc.WriteMessage(websocket.BinaryMessage, b)
+	if err != nil {
+		return
+	}
+	return len(b), nil
 }
 
 func (c *conn) Close() (err error) {
-- 
2.43.0


From 2b9e03d9b8544814bda70d162fea2dc740a33ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:14 +0000
Subject: [PATCH 17/42] fix: access the socket of a client connection under its
 lock

readFrames checked and then used it unlocked, so closing in between panicked.
---
 clientconn.go       | 12 +++++++++---
 clientconn_reuse.go |  2 ++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index 6f5b8c0..45d9f00 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -258,7 +258,10 @@ func (conn *Connection) atomicLoopCtx() context.Context {
 
 func (conn *Connection) connect() error {
 	// directly return if connection already established
-	if conn.rwc != nil {
+	conn.mu.Lock()
+	connected := conn.rwc != nil
+	conn.mu.Unlock()
+	if connected {
 		return nil
 	}
 
@@ -486,11 +489,14 @@ func (conn *Connection) readFrames() {
 
 	defer conn.loopCancelCtx()
 
+	conn.mu.Lock()
+	rwc := conn.rwc
+	conn.mu.Unlock()
 	// in case closeRWC is already called
-	if conn.rwc == nil {
+	if rwc == nil {
 		return
 	}
-	reader := newFrameReader(*conn.loopCtx, conn.rwc, conn.conf.ReadTimeout, conn.conf.Codec)
+	reader := newFrameReader(*conn.loopCtx, rwc, conn.conf.ReadTimeout, conn.conf.Codec)
 	defer reader.Finalize()
 
 	for {
diff --git a/clientconn_reuse.go b/clientconn_reuse.go
index 2d06492..195505a 100644
--- a/clientconn_reuse.go
+++ b/clientconn_reuse.go
@@ -32,5 +32,7 @@ func NewReusedConnection(addr string, conf ConnectionConfig, f SubFunc) (*Connec
 
 // GetReusedCon returns the underlying reuse-able socket
 func (conn *Connection) GetReusedCon() net.Conn {
+	conn.mu.Lock()
+	defer conn.mu.Unlock()
 	return conn.rwc
 }
-- 
2.43.0


From 8c735f9599967deb35b1729fda8d812210f059e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:15 +0000
Subject: [PATCH 18/42] fix: serialize concurrent sends on one pipe

Under the read lock two first sends opened two streams and later sends
interleaved in one writer.
---
 channel/clienttransport.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/channel/clienttransport.go b/channel/clienttransport.go
index dd7d0d0..d55bb6c 100644
--- a/channel/clienttransport.go
+++ b/channel/clienttransport.go
@@ -69,8 +69,8 @@ func (s *clientSender) Send(ctx context.Context, cmd qrpc.Cmd, msg interface{},
 		return
 	}
 
-	s.RLock()
-	defer s.RUnlock()
+	s.Lock()
+	defer s.Unlock()
 
 	if s.closed {
 		err = ErrSenderClosed
-- 
2.43.0


From 2e1af61aa2fd4664fa3bc6039f93bc54ccf60564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:15 +0000
Subject: [PATCH 19/42] fix: the end marker of any message must end the stream

---
 channel/clienttransport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channel/clienttransport.go b/channel/clienttransport.go
index d55bb6c..6a896c0 100644
--- a/channel/clienttransport.go
+++ b/channel/clienttransport.go
@@ -88,7 +88,7 @@ func (s *clientSender) Send(ctx context.Context, cmd qrpc.Cmd, msg interface{},
 
 	s.streamWriter.StartWrite(cmd)
 	s.streamWriter.WriteBytes(bytes)
-	err = s.streamWriter.EndWrite(false)
+	err = s.streamWriter.EndWrite(end)
 
 	return
 }
-- 
2.43.0


From 10d80ec592182b441e34892d8c70271a97525518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:16 +0000
Subject: [PATCH 20/42] fix: decode the received message also when the cmd is
 not asked for

---
 channel/servetransport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channel/servetransport.go b/channel/servetransport.go
index 89e03fc..310c8b5 100644
--- a/channel/servetransport.go
+++ b/channel/servetransport.go
@@ -87,7 +87,7 @@ func (r *serveReceiver) Receive(ctx context.Context, cmd *qrpc.Cmd, msg interfac
 
 	if cmd != nil {
 		*cmd = frame.Cmd
-		err = Unmarshal(frame.Payload, msg)
 	}
+	err = Unmarshal(frame.Payload, msg)
 	return
 }
-- 
2.43.0


From 52f2b4262de64c0bf39c4744802da8934bd4a726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:17 +0000
Subject: [PATCH 21/42] fix: encode the result of a generated service by its
 own type

The dispatcher looked at the first input (the context) instead, so results
implementing Marshaler were json encoded while the client unmarshals them.
---
 codegen/generator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codegen/generator.go b/codegen/generator.go
index d761310..5ea4c7c 100644
--- a/codegen/generator.go
+++ b/codegen/generator.go
@@ -271,7 +271,7 @@ func (g *Generator) Generate() {
 	for name, method := range g.services[""] {
 		g.P("m.callback[", codegenPkgAlias, ".FQMethod(\"\",", strconv.Quote(name), ")] = func(ctx context.Context, inBytes []byte) (outBytes []byte, err error) {")
 		inTypes := util.FuncInputTypes(method)
-		outTypes := util.FuncInputTypes(method)
+		outTypes := util.FuncOutputTypes(method)
 		inTypePtrIsMarshaler := reflect.PtrTo(inTypes[1]).Implements(marshalerType)
 		outTypePtrIsMarshaler := reflect.PtrTo(outTypes[0]).Implements(marshalerType)
 		if inTypes[1].PkgPath() != "" {
@@ -313,7 +313,7 @@ func (g *Generator) Generate() {
 		for name, method := range methods {
 			g.P("	ssInterface := ss.(", g.serviceName, ns, "Client)")
 			inTypes := util.FuncInputTypes(method)
-			outTypes := util.FuncInputTypes(method)
+			outTypes := util.FuncOutputTypes(method)
 			inTypePtrIsMarshaler := reflect.PtrTo(inTypes[1]).Implements(marshalerType)
 			outTypePtrIsMarshaler := reflect.PtrTo(outTypes[0]).Implements(marshalerType)
 			g.P("	m.callback[", codegenPkgAlias, ".FQMethod(", strconv.Quote(ns), ",", strconv.Quote(name), ")] = func(ctx context.Context, inBytes []byte) (outBytes []byte, err error) {")
-- 
2.43.0


From e6a171475aa8f0ec4fc49389fe0ec7db6f10dba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:18 +0000
Subject: [PATCH 22/42] fix: do not recycle a frame writer whose write request
 is still queued

When the connection ended before the result was known, the writer went back to
the pool while the write goroutine could still read it, so the next user of the
writer, maybe on another connection, got its buffer sent or modified.
---
 clientconn.go  | 2 ++
 framewriter.go | 4 ++++
 serveconn.go   | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/clientconn.go b/clientconn.go
index 45d9f00..31b6677 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -413,6 +413,7 @@ func (conn *Connection) writeFrameBytes(dfw *defaultFrameWriter) error {
 			wfrPool.Put(wfr)
 			return err
 		case <-conn.ctx.Done():
+			dfw.abandoned = true
 			return conn.ctx.Err()
 		}
 	} else {
@@ -422,6 +423,7 @@ func (conn *Connection) writeFrameBytes(dfw *defaultFrameWriter) error {
 			wfrPool.Put(wfr)
 			return err
 		case <-loopCtx.Done():
+			dfw.abandoned = true
 			return loopCtx.Err()
 		}
 	}
diff --git a/framewriter.go b/framewriter.go
index d38d752..435a19b 100644
--- a/framewriter.go
+++ b/framewriter.go
@@ -20,6 +20,7 @@ type defaultFrameWriter struct {
 	wbuf       []byte
 	resp       *response
 	checkExist bool
+	abandoned  bool // still referenced by a queued write request
 }
 
 // DefaultWBufSize for default wbuf size
@@ -44,6 +45,9 @@ func newFrameWriter(fbw frameBytesWriter) *defaultFrameWriter {
 func (dfw *defaultFrameWriter) Finalize() {
 	dfw.fbw = nil
 	dfw.resp = nil
+	if dfw.abandoned {
+		return
+	}
 	fwPool.Put(dfw)
 }
 
diff --git a/serveconn.go b/serveconn.go
index c2cc047..b60281f 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -487,6 +487,7 @@ func (sc *serveconn) writeFrameBytes(dfw *defaultFrameWriter) (err error) {
 
 			select {
 			case <-sc.ctx.Done():
+				dfw.abandoned = true
 				return sc.ctx.Err()
 			}
 		}
@@ -519,6 +520,7 @@ func (sc *serveconn) writeFrameBytes(dfw *defaultFrameWriter) (err error) {
 		err = sc.collectWriteFrames(binding.WriteFrameChSize)
 		if err != nil {
 			l.Debug("sc.collectWriteFrames", zap.Uintptr("sc", uintptr(unsafe.Pointer(sc))), zap.Error(err))
+			dfw.abandoned = true
 			return
 		}
 
@@ -540,6 +542,7 @@ func (sc *serveconn) writeFrameBytes(dfw *defaultFrameWriter) (err error) {
 		wfrPool.Put(wfr)
 		return err
 	case <-sc.ctx.Done():
+		dfw.abandoned = true
 		return sc.ctx.Err()
 	}
 
-- 
2.43.0


From af4a394412a283601738d7b7c4157764e9b5fbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:20 +0000
Subject: [PATCH 23/42] fix: a failed write must wake up a concurrent OnKickCB

The write lock is not released after a failed write, so a kick whose callback
writes to the connection waited for ever, and with it SetID and Close.
---
 serveconn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serveconn.go b/serveconn.go
index b60281f..2eb595c 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -600,6 +600,8 @@ func (sc *serveconn) writeBuffers() error {
 	if err != nil {
 
 		l.Debug("serveconn.writeBuffers", zap.Uintptr("sc", uintptr(unsafe.Pointer(sc))), zap.Error(err))
+		// nothing can be written any more, wake up writers waiting for wlock, especially OnKickCB
+		sc.cancelCtx()
 		// don't call sc.Close while inside OnKickCB
 		if !sc.IsClosed() {
 			sc.Close()
-- 
2.43.0


From 4e13dbdaf5695d46277d3d9154ca6e6b0d5d7d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:21 +0000
Subject: [PATCH 24/42] fix: close a websocket connection upgraded after the
 listener closed

---
 ws/server/overlay.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ws/server/overlay.go b/ws/server/overlay.go
index 2f391bb..8f9745a 100644
--- a/ws/server/overlay.go
+++ b/ws/server/overlay.go
@@ -54,6 +54,7 @@ func newOverlay(l net.Listener, tlsConfig *tls.Config) (o *qrpcOverWS) {
 		select {
 		case o.acceptCh <- c:
 		case <-o.ctx.Done():
+			c.Close()
 		}
 
 	})
-- 
2.43.0


From d01c7fc7968316c230e636d9c7aa3e83ebfd3651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:22 +0000
Subject: [PATCH 25/42] fix: a handler writing on a lost connection must not
 block reconnecting

Its write stayed in the queue until the reconnect, which waits for the handler.
---
 clientconn.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/clientconn.go b/clientconn.go
index 31b6677..2e4a1e4 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -237,7 +237,7 @@ func (conn *Connection) loop() {
 			conn.conf.LifecycleCallbacks.OnDisconnect(conn)
 		}
 
-		conn.loopWG.Wait()
+		conn.waitLoop()
 		conn.endLoop()
 
 		// close & quit if not reconnect; otherwise automatically reconnect
@@ -248,6 +248,25 @@ func (conn *Connection) loop() {
 	}
 }
 
+// waitLoop waits for all goroutines of this loop, failing the writes they committed after
+// the write goroutine quited
+func (conn *Connection) waitLoop() {
+	done := make(chan struct{})
+	go func() {
+		conn.loopWG.Wait()
+		close(done)
+	}()
+
+	for {
+		select {
+		case wfr := <-conn.writeFrameCh:
+			wfr.result <- ErrConnAlreadyClosed
+		case <-done:
+			return
+		}
+	}
+}
+
 func (conn *Connection) atomicLoopCtx() context.Context {
 	cp := (*context.Context)(atomic.LoadPointer((*unsafe.Pointer)(unsafe.Pointer(&conn.loopCtx))))
 	if cp == nil {
-- 
2.43.0


From 2fbd8ad3bae65862b88cf447e12a348987cdb451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:50 +0000
Subject: [PATCH 26/42] fix: count the frames of established streams in
 MaxInboundFramePerSecond

---
 framereader.go | 29 +++++++++++++++++++++++++++++
 serveconn.go   | 18 +-----------------
 2 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/framereader.go b/framereader.go
index c79e187..7506e85 100644
--- a/framereader.go
+++ b/framereader.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"net"
+	"time"
 	"unsafe"
 
 	"go.uber.org/zap"
@@ -25,6 +26,11 @@ type defaultFrameReader struct {
 	ctx          context.Context
 	maxFrameSize int
 	codec        CompressorCodec
+
+	// for checking inbound frames per second
+	maxFramePerSecond int // no limit if not positive
+	lastCheckTS       int64
+	tsCount           int
 }
 
 // newFrameReader creates a FrameWriter instance to read frames
@@ -44,6 +50,10 @@ start:
 	if err != nil {
 		return f, err
 	}
+	err = dfr.checkFrameRate()
+	if err != nil {
+		return nil, err
+	}
 
 	requestID := f.RequestID
 	flags := f.Flags
@@ -86,6 +96,25 @@ start:
 
 }
 
+// checkFrameRate counts every frame, including the ones consumed by existing streams
+func (dfr *defaultFrameReader) checkFrameRate() error {
+	if dfr.maxFramePerSecond <= 0 {
+		return nil
+	}
+
+	nowTS := time.Now().Unix()
+	if nowTS != dfr.lastCheckTS {
+		dfr.tsCount = 1
+		dfr.lastCheckTS = nowTS
+	} else {
+		dfr.tsCount++
+	}
+	if dfr.tsCount > dfr.maxFramePerSecond {
+		return ErrInboundFramePerSecondExceeded
+	}
+	return nil
+}
+
 const (
 	payloadReadMaxTimeoutSecond = 3
 )
diff --git a/serveconn.go b/serveconn.go
index 2eb595c..7fee538 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -171,6 +171,7 @@ func (sc *serveconn) serve() {
 			maxFrameSize = DefaultMaxFrameSize
 		}
 		sc.reader = newFrameReaderWithMFS(ctx, sc.rwc, binding.DefaultReadTimeout, binding.Codec, maxFrameSize)
+		sc.reader.maxFramePerSecond = binding.MaxInboundFramePerSecond
 	}
 	sc.writer = newFrameWriter(sc) // only used by blocking mode
 
@@ -356,25 +357,8 @@ func (sc *serveconn) readFrames() (err error) {
 	gate := make(gate, 1)
 	gateDone := gate.Done
 
-	checkInBoundQPS := binding.MaxInboundFramePerSecond > 0
-	var (
-		lastCheckTS int64
-		tsCount     int
-	)
 	for {
 		req, err := sc.reader.ReadFrame(sc.cs)
-		if checkInBoundQPS {
-			nowTS := time.Now().Unix()
-			if nowTS != lastCheckTS {
-				tsCount = 1
-				lastCheckTS = nowTS
-			} else {
-				tsCount++
-			}
-			if tsCount > binding.MaxInboundFramePerSecond {
-				err = ErrInboundFramePerSecondExceeded
-			}
-		}
 		if err != nil {
 			sc.Close()
 			sc.reader.Finalize()
-- 
2.43.0


From 8ff48dfd5a5813af9b3ddba54aae60c0a8bc810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:29 +0000
Subject: [PATCH 27/42] fix: close queued websocket connections when the
 listener closes

---
 ws/server/overlay.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ws/server/overlay.go b/ws/server/overlay.go
index 8f9745a..91f0024 100644
--- a/ws/server/overlay.go
+++ b/ws/server/overlay.go
@@ -53,6 +53,9 @@ func newOverlay(l net.Listener, tlsConfig *tls.Config) (o *qrpcOverWS) {
 
 		select {
 		case o.acceptCh <- c:
+			if o.ctx.Err() != nil {
+				o.closeQueued()
+			}
 		case <-o.ctx.Done():
 			c.Close()
 		}
@@ -79,6 +82,10 @@ func newOverlay(l net.Listener, tlsConfig *tls.Config) (o *qrpcOverWS) {
 }
 
 func (o *qrpcOverWS) Accept() (conn net.Conn, err error) {
+	err = o.ctx.Err()
+	if err != nil {
+		return
+	}
 	select {
 	case c := <-o.acceptCh:
 		conn = NewConn(c)
@@ -91,9 +98,22 @@ func (o *qrpcOverWS) Accept() (conn net.Conn, err error) {
 
 func (o *qrpcOverWS) Close() error {
 	o.cancelFunc()
+	o.closeQueued()
 	return o.l.Close()
 }
 
+// closeQueued closes the connections nobody will accept any more
+func (o *qrpcOverWS) closeQueued() {
+	for {
+		select {
+		case c := <-o.acceptCh:
+			c.Close()
+		default:
+			return
+		}
+	}
+}
+
 func (o *qrpcOverWS) Addr() (addr net.Addr) {
 	return o.l.Addr()
 }
-- 
2.43.0


From d1d546b8b9dfdf48ee474f25b5fda63e89e1947e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:53 +0000
Subject: [PATCH 28/42] fix: refuse a nil function in ServeMux.HandleFunc

---
 server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server.go b/server.go
index 8b409c7..70b46fa 100644
--- a/server.go
+++ b/server.go
@@ -78,6 +78,9 @@ func NewServeMux() *ServeMux { return new(ServeMux) }
 
 // HandleFunc registers the handler function for the given pattern.
 func (mux *ServeMux) HandleFunc(cmd Cmd, handler func(FrameWriter, *RequestFrame), middleware ...MiddlewareFunc) {
+	if handler == nil {
+		panic("qrpc: nil handler")
+	}
 	mux.Handle(cmd, HandlerFunc(handler), middleware...)
 }
 
-- 
2.43.0


From e4d83a089f3f0735775660d623e97d89f6ca54c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:31 +0000
Subject: [PATCH 29/42] fix: serialize SetThrottle and ClearThrottle, so that
 no waiter is lost and nothing is closed twice

---
 server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server.go b/server.go
index 70b46fa..9f4c18a 100644
--- a/server.go
+++ b/server.go
@@ -142,6 +142,7 @@ type Server struct {
 	id2Conn          []sync.Map
 	activeConn       []sync.Map // for better iterate when write, map[*serveconn]struct{}
 	throttle         []atomic.Value
+	throttleMu       sync.Mutex // serializes changes of throttle
 	closeRateLimiter []ratelimit.Limiter
 
 	wg sync.WaitGroup // wait group for goroutines
@@ -643,6 +644,9 @@ func (srv *Server) waitThrottle(idx int, doneCh <-chan struct{}) {
 
 // SetThrottle sets throttle on
 func (srv *Server) SetThrottle(idx int) {
+	srv.throttleMu.Lock()
+	defer srv.throttleMu.Unlock()
+
 	v := srv.throttle[idx].Load()
 	if v != nil {
 		// already on,do nothing
@@ -655,6 +659,9 @@ func (srv *Server) SetThrottle(idx int) {
 
 // ClearThrottle clears throttle onff
 func (srv *Server) ClearThrottle(idx int) {
+	srv.throttleMu.Lock()
+	defer srv.throttleMu.Unlock()
+
 	v := srv.throttle[idx].Load()
 	if v == nil {
 		return
-- 
2.43.0


From c4258a9ceb058e5a19c16e8940b889ee7c7fc2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:21 +0000
Subject: [PATCH 30/42] fix: honour RBufSize and WBufSize in
 NewReusedConnection

---
 clientconn_reuse.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/clientconn_reuse.go b/clientconn_reuse.go
index 195505a..ed93d8f 100644
--- a/clientconn_reuse.go
+++ b/clientconn_reuse.go
@@ -18,6 +18,21 @@ func NewReusedConnection(addr string, conf ConnectionConfig, f SubFunc) (*Connec
 		return nil, err
 	}
 
+	if tc, ok := rwc.(*net.TCPConn); ok {
+		if conf.RBufSize > 0 {
+			sockOptErr := tc.SetReadBuffer(conf.RBufSize)
+			if sockOptErr != nil {
+				l.Error("SetReadBuffer", zap.Int("RBufSize", conf.RBufSize), zap.Error(sockOptErr))
+			}
+		}
+		if conf.WBufSize > 0 {
+			sockOptErr := tc.SetWriteBuffer(conf.WBufSize)
+			if sockOptErr != nil {
+				l.Error("SetWriteBuffer", zap.Int("WBufSize", conf.WBufSize), zap.Error(sockOptErr))
+			}
+		}
+	}
+
 	if conf.TLSConf != nil {
 		tlsConn := tls.Client(rwc, conf.TLSConf)
 		if err = tlsConn.Handshake(); err != nil {
-- 
2.43.0


From d2d4aed0ccb12182e811f9f46fc2c97abbfacba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:29 +0000
Subject: [PATCH 31/42] fix: serialize concurrent sends of a served pipe

---
 channel/servetransport.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/channel/servetransport.go b/channel/servetransport.go
index 310c8b5..e65f697 100644
--- a/channel/servetransport.go
+++ b/channel/servetransport.go
@@ -2,6 +2,7 @@ package channel
 
 import (
 	"context"
+	"sync"
 
 	"github.com/zhiqiangxu/qrpc"
 )
@@ -15,6 +16,7 @@ type (
 	HandlerFunc func(Sender, Receiver, Transport)
 
 	serveSender struct {
+		mu    sync.Mutex // w holds one frame at a time
 		w     qrpc.FrameWriter
 		frame *qrpc.RequestFrame
 	}
@@ -56,6 +58,9 @@ func (s *serveSender) Send(ctx context.Context, cmd qrpc.Cmd, msg interface{}, e
 		flag |= qrpc.StreamEndFlag
 	}
 
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	s.w.StartWrite(s.frame.RequestID, cmd, flag)
 	s.w.WriteBytes(bytes)
 	err = s.w.EndWrite()
@@ -63,6 +68,9 @@ func (s *serveSender) Send(ctx context.Context, cmd qrpc.Cmd, msg interface{}, e
 }
 
 func (s *serveSender) End() (err error) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	err = s.w.ResetFrame(s.frame.RequestID, 0)
 	return
 }
-- 
2.43.0


From 5e571473f0dac74a0bb73f7f1fb45400c60fe0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:34 +0000
Subject: [PATCH 32/42] fix: refuse sends of a served pipe after its end

---
 channel/servetransport.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/channel/servetransport.go b/channel/servetransport.go
index e65f697..df764fd 100644
--- a/channel/servetransport.go
+++ b/channel/servetransport.go
@@ -19,6 +19,7 @@ type (
 		mu    sync.Mutex // w holds one frame at a time
 		w     qrpc.FrameWriter
 		frame *qrpc.RequestFrame
+		ended bool
 	}
 	serveReceiver struct {
 		frame                 *qrpc.RequestFrame
@@ -61,9 +62,17 @@ func (s *serveSender) Send(ctx context.Context, cmd qrpc.Cmd, msg interface{}, e
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
+	if s.ended {
+		err = ErrSenderClosed
+		return
+	}
+
 	s.w.StartWrite(s.frame.RequestID, cmd, flag)
 	s.w.WriteBytes(bytes)
 	err = s.w.EndWrite()
+	if err == nil {
+		s.ended = end
+	}
 	return
 }
 
@@ -71,6 +80,7 @@ func (s *serveSender) End() (err error) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
+	s.ended = true
 	err = s.w.ResetFrame(s.frame.RequestID, 0)
 	return
 }
-- 
2.43.0


From d9221b889b5c0424fedad50bccc9a5e4078078ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:07 +0000
Subject: [PATCH 33/42] fix: receiving on a pipe read the response while the
 first send stored it

---
 channel/clienttransport.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/channel/clienttransport.go b/channel/clienttransport.go
index 6a896c0..9494f8a 100644
--- a/channel/clienttransport.go
+++ b/channel/clienttransport.go
@@ -18,6 +18,7 @@ type (
 		t            *clientTransport
 		r            *clientReceiver
 		streamWriter qrpc.StreamWriter
+		respMu       sync.Mutex // for resp, as Send keeps the lock while it blocks
 		resp         qrpc.Response
 		firstFrame   *qrpc.Frame
 		closed       bool
@@ -82,7 +83,11 @@ func (s *clientSender) Send(ctx context.Context, cmd qrpc.Cmd, msg interface{},
 		flag |= qrpc.StreamEndFlag
 	}
 	if s.streamWriter == nil {
-		s.streamWriter, s.resp, err = s.t.c.StreamRequest(cmd, flag, bytes)
+		var resp qrpc.Response
+		s.streamWriter, resp, err = s.t.c.StreamRequest(cmd, flag, bytes)
+		s.respMu.Lock()
+		s.resp = resp
+		s.respMu.Unlock()
 		return
 	}
 
@@ -113,13 +118,16 @@ func (s *clientSender) End() (err error) {
 
 func (s *clientSender) getFrame(ctx context.Context) (frame *qrpc.Frame, err error) {
 
-	if s.resp == nil {
+	s.respMu.Lock()
+	resp := s.resp
+	s.respMu.Unlock()
+	if resp == nil {
 		err = ErrNoResp
 		return
 	}
 
 	if s.firstFrame == nil {
-		frame, err = s.resp.GetFrameWithContext(ctx)
+		frame, err = resp.GetFrameWithContext(ctx)
 		s.firstFrame = frame
 	} else {
 		select {
-- 
2.43.0


From 65c9629b51ba89cb6eeefa71b461af8c2f891fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:47 +0000
Subject: [PATCH 34/42] fix: a stream's last frame that could not be encoded
 marked the next one as the end

---
 framewriter.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/framewriter.go b/framewriter.go
index 435a19b..2b6adc2 100644
--- a/framewriter.go
+++ b/framewriter.go
@@ -204,7 +204,14 @@ func (dsw *defaultStreamWriter) WriteBytes(v []byte) {
 }
 
 func (dsw *defaultStreamWriter) EndWrite(end bool) error {
-	return (*defaultFrameWriter)(dsw).StreamEndWrite(end)
+	dfw := (*defaultFrameWriter)(dsw)
+	flags := dfw.Flags()
+	err := dfw.StreamEndWrite(end)
+	if err != nil && !dfw.abandoned {
+		// later frames of the stream inherit the flags, but not those of a frame that was not sent
+		dfw.SetFlags(flags)
+	}
+	return err
 }
 
 func (dsw *defaultStreamWriter) EndWriteCompressed() (err error) {
-- 
2.43.0


From d670949b0679426204109bb2788e4d1c6125e692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:05 +0000
Subject: [PATCH 35/42] fix: a client handler waiting for a frame of a lost
 connection must not block reconnecting

---
 clientconn.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index 2e4a1e4..bfd1700 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -217,12 +217,13 @@ func (conn *Connection) loop() {
 			return
 		}
 
-		conn.loopWG = &sync.WaitGroup{}
-		util.GoFunc(conn.loopWG, func() {
+		conn.loopWG = &sync.WaitGroup{} // for handlers
+		ioWG := &sync.WaitGroup{}       // for the read and write goroutines
+		util.GoFunc(ioWG, func() {
 			conn.readFrames()
 		})
 
-		util.GoFunc(conn.loopWG, func() {
+		util.GoFunc(ioWG, func() {
 			conn.writeFrames()
 		})
 
@@ -237,7 +238,7 @@ func (conn *Connection) loop() {
 			conn.conf.LifecycleCallbacks.OnDisconnect(conn)
 		}
 
-		conn.waitLoop()
+		conn.waitLoop(ioWG)
 		conn.endLoop()
 
 		// close & quit if not reconnect; otherwise automatically reconnect
@@ -250,9 +251,12 @@ func (conn *Connection) loop() {
 
 // waitLoop waits for all goroutines of this loop, failing the writes they committed after
 // the write goroutine quited
-func (conn *Connection) waitLoop() {
+func (conn *Connection) waitLoop(ioWG *sync.WaitGroup) {
 	done := make(chan struct{})
 	go func() {
+		ioWG.Wait()
+		// a handler may be waiting for a frame or the end of its stream
+		conn.cs.Release()
 		conn.loopWG.Wait()
 		close(done)
 	}()
@@ -474,10 +478,9 @@ func (conn *Connection) closeRWC() {
 	conn.respes = make(map[uint64]*response)
 }
 
-// endLoop is called after read/write g finishes, so no need for lock
+// endLoop is called after read/write g and handlers finish, so no need for lock
 func (conn *Connection) endLoop() {
 
-	conn.cs.Release()
 	conn.cs = &ConnStreams{}
 
 }
-- 
2.43.0


From d3b130723f9ee71e669b33f3cb947ae70165a04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:18 +0000
Subject: [PATCH 36/42] fix: SetReadTimeout raced with the goroutine reading
 the connection

---
 reader.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/reader.go b/reader.go
index 0203bfa..5f13021 100644
--- a/reader.go
+++ b/reader.go
@@ -7,14 +7,15 @@ import (
 	"io"
 	"net"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
 // Reader read data from socket
 type Reader struct {
+	timeout int64 // access by atomic, first for alignment
 	conn    net.Conn
 	reader  *bufio.Reader
-	timeout int
 	ctx     context.Context
 }
 
@@ -42,7 +43,7 @@ func NewReaderWithTimeout(ctx context.Context, conn net.Conn, timeout int) *Read
 
 	bufReader := bufPool.Get().(*bufio.Reader)
 	bufReader.Reset(conn)
-	return &Reader{ctx: ctx, conn: conn, reader: bufReader, timeout: timeout}
+	return &Reader{ctx: ctx, conn: conn, reader: bufReader, timeout: int64(timeout)}
 }
 
 // Finalize is called when no longer used
@@ -54,7 +55,7 @@ func (r *Reader) Finalize() {
 
 // SetReadTimeout allows modify timeout for read
 func (r *Reader) SetReadTimeout(timeout int) {
-	r.timeout = timeout
+	atomic.StoreInt64(&r.timeout, int64(timeout))
 }
 
 // ReadUint32 read uint32 from socket
@@ -80,7 +81,7 @@ func (r *Reader) ReadBytesWithMaxTimeout(bytes []byte, maxTimeoutSecond int) (er
 		offset  int
 		n       int
 	)
-	timeout := r.timeout
+	timeout := int(atomic.LoadInt64(&r.timeout))
 	if maxTimeoutSecond > 0 && timeout > maxTimeoutSecond {
 		timeout = maxTimeoutSecond
 	}
-- 
2.43.0


From d126e84bdf68b945340635def9ba130331a9aa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:18 +0000
Subject: [PATCH 37/42] fix: connections could be reached through WalkConn
 before their reader and user count were set

---
 serveconn.go | 11 -----------
 server.go    | 10 ++++++++++
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/serveconn.go b/serveconn.go
index 7fee538..062639e 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -163,19 +163,8 @@ func (sc *serveconn) serve() {
 	}()
 
 	ctx := sc.ctx
-	{
-		var maxFrameSize int
-		if binding.MaxFrameSize > 0 {
-			maxFrameSize = binding.MaxFrameSize
-		} else {
-			maxFrameSize = DefaultMaxFrameSize
-		}
-		sc.reader = newFrameReaderWithMFS(ctx, sc.rwc, binding.DefaultReadTimeout, binding.Codec, maxFrameSize)
-		sc.reader.maxFramePerSecond = binding.MaxInboundFramePerSecond
-	}
 	sc.writer = newFrameWriter(sc) // only used by blocking mode
 
-	sc.inflight = 1
 	util.GoFunc(&sc.wg, func() {
 		sc.readFrames()
 	})
diff --git a/server.go b/server.go
index 9f4c18a..62335e1 100644
--- a/server.go
+++ b/server.go
@@ -442,6 +442,7 @@ func (srv *Server) newConn(ctx context.Context, rwc net.Conn, idx int) (sc *serv
 		writeFrameCh:   make(chan *writeFrameRequest, srv.bindings[idx].WriteFrameChSize),
 		cachedRequests: make([]*writeFrameRequest, 0, srv.bindings[idx].WriteFrameChSize),
 		cachedBuffs:    make(net.Buffers, 0, srv.bindings[idx].WriteFrameChSize),
+		inflight:       1, // readFrames
 		wlockCh:        make(chan struct{}, 1)}
 
 	ctx, cancelCtx := context.WithCancel(ctx)
@@ -450,7 +451,16 @@ func (srv *Server) newConn(ctx context.Context, rwc net.Conn, idx int) (sc *serv
 	sc.cancelCtx = cancelCtx
 	sc.ctx = ctx
 	sc.bytesWriter = NewWriterWithTimeout(ctx, rwc, srv.bindings[idx].DefaultWriteTimeout)
+	{
+		maxFrameSize := srv.bindings[idx].MaxFrameSize
+		if maxFrameSize <= 0 {
+			maxFrameSize = DefaultMaxFrameSize
+		}
+		sc.reader = newFrameReaderWithMFS(ctx, rwc, srv.bindings[idx].DefaultReadTimeout, srv.bindings[idx].Codec, maxFrameSize)
+		sc.reader.maxFramePerSecond = srv.bindings[idx].MaxInboundFramePerSecond
+	}
 
+	// others can use sc from now on
 	srv.activeConn[idx].Store(sc, struct{}{})
 
 	return sc
-- 
2.43.0


From b0aecd04136ca5d769cdb5c9c876b3bda8917001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:51 +0000
Subject: [PATCH 38/42] fix: generate a valid accessor for the clients of sub
 services

---
 codegen/generator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codegen/generator.go b/codegen/generator.go
index 5ea4c7c..6fe0e60 100644
--- a/codegen/generator.go
+++ b/codegen/generator.go
@@ -212,8 +212,8 @@ func (g *Generator) Generate() {
 		if ns == "" {
 			continue
 		}
-		g.P("func (c ", unexport(g.serviceName), "Client) ", ns, "Client {")
-		g.P("	return ", unexport(g.serviceName), ns, "{c.Client}")
+		g.P("func (c ", unexport(g.serviceName), "Client) ", ns, "Client() ", g.serviceName, ns, "Client {")
+		g.P("	return ", unexport(g.serviceName), ns, "Client{c.Client}")
 		g.P("}")
 		g.P()
 	}
-- 
2.43.0


From 79f4eff5ff224712e3f66e634dc96af5e6d789bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:51 +0000
Subject: [PATCH 39/42] fix: use the import aliases everywhere in generated
 code

---
 codegen/generator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/codegen/generator.go b/codegen/generator.go
index 6fe0e60..8756a4a 100644
--- a/codegen/generator.go
+++ b/codegen/generator.go
@@ -269,7 +269,7 @@ func (g *Generator) Generate() {
 	g.P()
 	g.P("func (m *", unexport(g.serviceName), "ServiceMux) Register(s ", g.serviceName, "Service) {")
 	for name, method := range g.services[""] {
-		g.P("m.callback[", codegenPkgAlias, ".FQMethod(\"\",", strconv.Quote(name), ")] = func(ctx context.Context, inBytes []byte) (outBytes []byte, err error) {")
+		g.P("m.callback[", codegenPkgAlias, ".FQMethod(\"\",", strconv.Quote(name), ")] = func(ctx ", contextPkgAlias, ".Context, inBytes []byte) (outBytes []byte, err error) {")
 		inTypes := util.FuncInputTypes(method)
 		outTypes := util.FuncOutputTypes(method)
 		inTypePtrIsMarshaler := reflect.PtrTo(inTypes[1]).Implements(marshalerType)
@@ -316,7 +316,7 @@ func (g *Generator) Generate() {
 			outTypes := util.FuncOutputTypes(method)
 			inTypePtrIsMarshaler := reflect.PtrTo(inTypes[1]).Implements(marshalerType)
 			outTypePtrIsMarshaler := reflect.PtrTo(outTypes[0]).Implements(marshalerType)
-			g.P("	m.callback[", codegenPkgAlias, ".FQMethod(", strconv.Quote(ns), ",", strconv.Quote(name), ")] = func(ctx context.Context, inBytes []byte) (outBytes []byte, err error) {")
+			g.P("	m.callback[", codegenPkgAlias, ".FQMethod(", strconv.Quote(ns), ",", strconv.Quote(name), ")] = func(ctx ", contextPkgAlias, ".Context, inBytes []byte) (outBytes []byte, err error) {")
 			if inTypes[1].PkgPath() != "" {
 				alias := allPkgs[inTypes[1].PkgPath()]
 				g.P("		var input ", alias, ".", inTypes[1].Name())
@@ -348,7 +348,7 @@ func (g *Generator) Generate() {
 	g.P("	}")
 	g.P("}")
 	g.P()
-	g.P("func (m *", unexport(g.serviceName), "ServiceMux) Mux() *qrpc.ServeMux {")
+	g.P("func (m *", unexport(g.serviceName), "ServiceMux) Mux() *", qrpcPkgAlias, ".ServeMux {")
 	g.P("	if m.mux != nil {")
 	g.P("		return m.mux")
 	g.P("	}")
-- 
2.43.0


From 364e0e2ff318da4e6cf079edaf90f6e8f3ee9757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:51 +0000
Subject: [PATCH 40/42] fix: assert a sub service once, whatever the number of
 its methods

---
 codegen/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen/generator.go b/codegen/generator.go
index 8756a4a..c490b48 100644
--- a/codegen/generator.go
+++ b/codegen/generator.go
@@ -310,8 +310,8 @@ func (g *Generator) Generate() {
 		}
 
 		g.P("case ", strconv.Quote(ns), ":")
+		g.P("	ssInterface := ss.(", g.serviceName, ns, "Client)")
 		for name, method := range methods {
-			g.P("	ssInterface := ss.(", g.serviceName, ns, "Client)")
 			inTypes := util.FuncInputTypes(method)
 			outTypes := util.FuncOutputTypes(method)
 			inTypePtrIsMarshaler := reflect.PtrTo(inTypes[1]).Implements(marshalerType)
-- 
2.43.0


From dc1c47f5fb19339e90a1baffd09d31162df06a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:52 +0000
Subject: [PATCH 41/42] fix: generated code without a json encoded type did not
 compile

---
 codegen/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/codegen/generator.go b/codegen/generator.go
index c490b48..3a394fd 100644
--- a/codegen/generator.go
+++ b/codegen/generator.go
@@ -174,6 +174,10 @@ func (g *Generator) Generate() {
 	g.generatePkg()
 	g.generateImports()
 
+	// json is not used when every type is a Marshaler
+	g.P("var _ = ", jsonPkgAlias, ".Marshal")
+	g.P()
+
 	// client part
 
 	// main service client
-- 
2.43.0


From 0512dcb6feda72572954cc4b96eddea068185f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:08 +0000
Subject: [PATCH 42/42] fix: keep an own copy of the weights given to NewAPI

---
 api.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/api.go b/api.go
index 93fab82..71619c8 100644
--- a/api.go
+++ b/api.go
@@ -36,6 +36,7 @@ func NewAPI(endpoints []string, conf ConnectionConfig, weights []int) API {
 		}
 		totalWeight = len(endpoints)
 	} else {
+		weights = append([]int(nil), weights...)
 		for _, weight := range weights {
 			totalWeight += weight
 		}
-- 
2.43.0

