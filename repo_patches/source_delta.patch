From d8d28606b28cbb548180af3d497a3694f772ef07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:37 +0000
Subject: [PATCH 01/42] fix: closing the send side no longer delivers an extra
 empty message

---
 srpc/common-rpc.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/srpc/common-rpc.go b/srpc/common-rpc.go
index 81afada..b88da18 100644
--- a/srpc/common-rpc.go
+++ b/srpc/common-rpc.go
@@ -120,8 +120,11 @@ func (c *commonRPC) ReadOne() ([]byte, error) {
 }
 
 // WriteCallData writes a call data packet.
+//
+// If data is empty and complete and err are unset, sends an empty message.
 func (c *commonRPC) WriteCallData(data []byte, complete bool, err error) error {
-	outPkt := NewCallDataPacket(data, len(data) == 0, complete, err)
+	dataIsZero := len(data) == 0 && !complete && err == nil
+	outPkt := NewCallDataPacket(data, dataIsZero, complete, err)
 	return c.writer.WritePacket(outPkt)
 }
 
-- 
2.43.0


From 2dfd28cc297fe29c559ffee17f7d2f62819dfe3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:41 +0000
Subject: [PATCH 02/42] fix: Dial acts as the outbound side of the muxed
 connection

---
 srpc/net.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/net.go b/srpc/net.go
index 3bfc3f5..021a93e 100644
--- a/srpc/net.go
+++ b/srpc/net.go
@@ -11,7 +11,7 @@ func Dial(addr string) (Client, error) {
 	if err != nil {
 		return nil, err
 	}
-	muxedConn, err := NewMuxedConn(nconn, false, nil)
+	muxedConn, err := NewMuxedConn(nconn, true, nil)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 3e8751a8fddf80bfca87a081f819d6a5a3b942fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:45 +0000
Subject: [PATCH 03/42] fix: AcceptMuxedListener serves connections
 concurrently

---
 srpc/accept.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/srpc/accept.go b/srpc/accept.go
index 9995073..e7b7f7e 100644
--- a/srpc/accept.go
+++ b/srpc/accept.go
@@ -24,9 +24,10 @@ func AcceptMuxedListener(ctx context.Context, lis net.Listener, srv *Server, yam
 			continue
 		}
 
-		if err := srv.AcceptMuxedConn(ctx, mc); err != nil {
+		// serve the connection without blocking other connections.
+		go func() {
+			_ = srv.AcceptMuxedConn(ctx, mc)
 			_ = nc.Close()
-			continue
-		}
+		}()
 	}
 }
-- 
2.43.0


From a7c09fe9dcf98a5f6eeddbe82be92a06ed7c8122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:48 +0000
Subject: [PATCH 04/42] fix: Listen closes the listener when it returns

---
 srpc/net.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srpc/net.go b/srpc/net.go
index 021a93e..3565a77 100644
--- a/srpc/net.go
+++ b/srpc/net.go
@@ -27,10 +27,12 @@ func Listen(ctx context.Context, addr string, srv *Server, errCh <-chan error) e
 		return err
 	}
 
+	// stop listening when we return.
+	defer lis.Close()
+
 	listenErrCh := make(chan error, 1)
 	go func() {
 		listenErrCh <- AcceptMuxedListener(ctx, lis, srv, nil)
-		_ = lis.Close()
 	}()
 
 	select {
-- 
2.43.0


From 892a00db3205dd0a19b9e516c923b869a6323fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:52 +0000
Subject: [PATCH 05/42] fix: WritePacket continues after a short write instead
 of restarting

---
 srpc/packet-rw.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/packet-rw.go b/srpc/packet-rw.go
index c848891..670f78f 100644
--- a/srpc/packet-rw.go
+++ b/srpc/packet-rw.go
@@ -59,7 +59,7 @@ func (r *PacketReadWriter) WritePacket(p *Packet) error {
 
 	var written, n int
 	for written < len(data) {
-		n, err = r.rw.Write(data)
+		n, err = r.rw.Write(data[written:])
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From ee27e8c608f1b80e8b761188f51c86d1d2f540aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:56 +0000
Subject: [PATCH 06/42] fix: closing the transport does not override the final
 status of a call

---
 srpc/client-rpc.go | 3 ++-
 srpc/common-rpc.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index 4271f70..86953d2 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -70,7 +70,8 @@ func (r *ClientRPC) HandlePacketData(data []byte) error {
 // HandleStreamClose handles the stream closing optionally w/ an error.
 func (r *ClientRPC) HandleStreamClose(closeErr error) {
 	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
-		if closeErr != nil && r.remoteErr == nil {
+		// if dataClosed is set, the remote already reported the final status.
+		if closeErr != nil && r.remoteErr == nil && !r.dataClosed {
 			r.remoteErr = closeErr
 		}
 		r.dataClosed = true
diff --git a/srpc/common-rpc.go b/srpc/common-rpc.go
index b88da18..72767e8 100644
--- a/srpc/common-rpc.go
+++ b/srpc/common-rpc.go
@@ -131,7 +131,8 @@ func (c *commonRPC) WriteCallData(data []byte, complete bool, err error) error {
 // HandleStreamClose handles the incoming stream closing w/ optional error.
 func (c *commonRPC) HandleStreamClose(closeErr error) {
 	c.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
-		if closeErr != nil && c.remoteErr == nil {
+		// if dataClosed is set, the remote already reported the final status.
+		if closeErr != nil && c.remoteErr == nil && !c.dataClosed {
 			c.remoteErr = closeErr
 		}
 		c.dataClosed = true
-- 
2.43.0


From ec4b305cb7614e0ff12f240250d78dd34797648e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:00 +0000
Subject: [PATCH 07/42] fix: ClientRPC closes the writer when the stream was
 closed

---
 srpc/client-rpc.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index 86953d2..b82c1f9 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -76,6 +76,10 @@ func (r *ClientRPC) HandleStreamClose(closeErr error) {
 		}
 		r.dataClosed = true
 		r.ctxCancel()
+		// call did not start yet if writer is nil.
+		if r.writer != nil {
+			_ = r.writer.Close()
+		}
 		broadcast()
 	})
 }
-- 
2.43.0


From 5ee6ddb3a904dd62c900fbb67d289946dcbc2721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:04 +0000
Subject: [PATCH 08/42] fix: release the call context when opening the stream
 fails

---
 srpc/client-rpc.go | 2 ++
 srpc/client.go     | 1 +
 2 files changed, 3 insertions(+)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index b82c1f9..4f51ca5 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -118,6 +118,8 @@ func (r *ClientRPC) Close() {
 		if r.writer != nil {
 			_ = r.WriteCallCancel()
 			r.closeLocked(broadcast)
+		} else {
+			r.ctxCancel()
 		}
 	})
 }
diff --git a/srpc/client.go b/srpc/client.go
index 7d0262c..f0938ac 100644
--- a/srpc/client.go
+++ b/srpc/client.go
@@ -83,6 +83,7 @@ func (c *client) NewStream(ctx context.Context, service, method string, firstMsg
 	clientRPC := NewClientRPC(ctx, service, method)
 	writer, err := c.openStream(ctx, clientRPC.HandlePacketData, clientRPC.HandleStreamClose)
 	if err != nil {
+		clientRPC.Close()
 		return nil, err
 	}
 
-- 
2.43.0


From 83516406ec0879b38aef0cd65d67eb1297b2556a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:34 +0000
Subject: [PATCH 09/42] fix: RwcConn keeps the rest of a packet when the read
 buffer is short

---
 srpc/rwc-conn.go | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/srpc/rwc-conn.go b/srpc/rwc-conn.go
index 6737d4c..71446c5 100644
--- a/srpc/rwc-conn.go
+++ b/srpc/rwc-conn.go
@@ -30,6 +30,10 @@ type RwcConn struct {
 	wd       time.Time   // write deadline
 	packetCh chan []byte // packet ch
 	closeErr error
+
+	readMtx sync.Mutex // guards rbuf, held while reading
+	rbuf    []byte     // unread remainder of rpkt
+	rpkt    []byte     // packet being read
 }
 
 // NewRwcConn constructs a new packet conn and starts the rx pump.
@@ -72,6 +76,14 @@ func (p *RwcConn) RemoteAddr() net.Addr {
 // Read can be made to time out and return an error after a fixed
 // time limit; see SetDeadline and SetReadDeadline.
 func (p *RwcConn) Read(b []byte) (n int, err error) {
+	p.readMtx.Lock()
+	defer p.readMtx.Unlock()
+
+	// return the rest of the previous packet, if any.
+	if len(p.rbuf) != 0 {
+		return p.readBuffered(b), nil
+	}
+
 	deadline := p.rd
 	ctx := p.ctx
 	if !deadline.IsZero() {
@@ -80,7 +92,6 @@ func (p *RwcConn) Read(b []byte) (n int, err error) {
 		defer ctxCancel()
 	}
 
-	var pkt []byte
 	var ok bool
 	select {
 	case <-ctx.Done():
@@ -88,7 +99,7 @@ func (p *RwcConn) Read(b []byte) (n int, err error) {
 			return 0, os.ErrDeadlineExceeded
 		}
 		return 0, context.Canceled
-	case pkt, ok = <-p.packetCh:
+	case p.rpkt, ok = <-p.packetCh:
 		if !ok {
 			err = p.closeErr
 			if err == nil {
@@ -98,13 +109,22 @@ func (p *RwcConn) Read(b []byte) (n int, err error) {
 		}
 	}
 
-	pl := len(pkt)
-	copy(b, pkt)
-	p.ar.Put(&pkt)
-	if len(b) < pl {
-		return len(b), io.ErrShortBuffer
+	p.rbuf = p.rpkt
+	return p.readBuffered(b), nil
+}
+
+// readBuffered copies buffered data to b and advances the buffer.
+// Releases the packet once it was read completely.
+// readMtx must be locked by the caller.
+func (p *RwcConn) readBuffered(b []byte) int {
+	n := copy(b, p.rbuf)
+	p.rbuf = p.rbuf[n:]
+	if len(p.rbuf) == 0 {
+		pkt := p.rpkt
+		p.rpkt, p.rbuf = nil, nil
+		p.ar.Put(&pkt)
 	}
-	return pl, nil
+	return n
 }
 
 // Write writes data to the connection.
-- 
2.43.0


From 8409a3634b2a5283d187623c4dd65ea530f77bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:38 +0000
Subject: [PATCH 10/42] fix: closing RwcConn stops the rx pump and pending
 reads

---
 srpc/rwc-conn.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/srpc/rwc-conn.go b/srpc/rwc-conn.go
index 71446c5..f1006cc 100644
--- a/srpc/rwc-conn.go
+++ b/srpc/rwc-conn.go
@@ -192,6 +192,7 @@ func (p *RwcConn) SetWriteDeadline(t time.Time) error {
 // Close closes the connection.
 // Any blocked ReadFrom or WriteTo operations will be unblocked and return errors.
 func (p *RwcConn) Close() error {
+	p.ctxCancel()
 	return p.rwc.Close()
 }
 
-- 
2.43.0


From 3d105764c3e1b25b04c40e10bbdcbd9f3db4d430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:41 +0000
Subject: [PATCH 11/42] fix: RwcConn reports a deadline error only if the
 deadline passed

---
 srpc/rwc-conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/rwc-conn.go b/srpc/rwc-conn.go
index f1006cc..a76f6f2 100644
--- a/srpc/rwc-conn.go
+++ b/srpc/rwc-conn.go
@@ -95,7 +95,7 @@ func (p *RwcConn) Read(b []byte) (n int, err error) {
 	var ok bool
 	select {
 	case <-ctx.Done():
-		if !deadline.IsZero() {
+		if p.ctx.Err() == nil {
 			return 0, os.ErrDeadlineExceeded
 		}
 		return 0, context.Canceled
-- 
2.43.0


From c08fe560a1ba359ff91d41eea6d7a82c54b79d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:24 +0000
Subject: [PATCH 12/42] fix: RwcConn read deadlines apply to pending reads
 without racing

---
 srpc/rwc-conn.go | 75 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 51 insertions(+), 24 deletions(-)

diff --git a/srpc/rwc-conn.go b/srpc/rwc-conn.go
index a76f6f2..3e9bfa7 100644
--- a/srpc/rwc-conn.go
+++ b/srpc/rwc-conn.go
@@ -31,6 +31,9 @@ type RwcConn struct {
 	packetCh chan []byte // packet ch
 	closeErr error
 
+	dlMtx     sync.Mutex    // guards rd, wd, rdChanged
+	rdChanged chan struct{} // closed when rd changes
+
 	readMtx sync.Mutex // guards rbuf, held while reading
 	rbuf    []byte     // unread remainder of rpkt
 	rpkt    []byte     // packet being read
@@ -55,6 +58,7 @@ func NewRwcConn(
 		laddr:     laddr,
 		raddr:     raddr,
 		packetCh:  make(chan []byte, bufferPacketN),
+		rdChanged: make(chan struct{}),
 	}
 	go func() {
 		_ = c.rxPump()
@@ -84,33 +88,43 @@ func (p *RwcConn) Read(b []byte) (n int, err error) {
 		return p.readBuffered(b), nil
 	}
 
-	deadline := p.rd
-	ctx := p.ctx
-	if !deadline.IsZero() {
-		var ctxCancel context.CancelFunc
-		ctx, ctxCancel = context.WithDeadline(ctx, deadline)
-		defer ctxCancel()
-	}
+	for {
+		p.dlMtx.Lock()
+		deadline, deadlineChanged := p.rd, p.rdChanged
+		p.dlMtx.Unlock()
 
-	var ok bool
-	select {
-	case <-ctx.Done():
-		if p.ctx.Err() == nil {
-			return 0, os.ErrDeadlineExceeded
+		var deadlineCh <-chan time.Time
+		if !deadline.IsZero() {
+			dur := time.Until(deadline)
+			if dur <= 0 {
+				return 0, os.ErrDeadlineExceeded
+			}
+			timer := time.NewTimer(dur)
+			defer timer.Stop()
+			deadlineCh = timer.C
 		}
-		return 0, context.Canceled
-	case p.rpkt, ok = <-p.packetCh:
-		if !ok {
-			err = p.closeErr
-			if err == nil {
-				err = io.EOF
+
+		var ok bool
+		select {
+		case <-p.ctx.Done():
+			return 0, context.Canceled
+		case <-deadlineCh:
+			return 0, os.ErrDeadlineExceeded
+		case <-deadlineChanged:
+			continue
+		case p.rpkt, ok = <-p.packetCh:
+			if !ok {
+				err = p.closeErr
+				if err == nil {
+					err = io.EOF
+				}
+				return 0, err
 			}
-			return 0, err
 		}
-	}
 
-	p.rbuf = p.rpkt
-	return p.readBuffered(b), nil
+		p.rbuf = p.rpkt
+		return p.readBuffered(b), nil
+	}
 }
 
 // readBuffered copies buffered data to b and advances the buffer.
@@ -166,8 +180,10 @@ func (p *RwcConn) Write(pkt []byte) (n int, err error) {
 //
 // A zero value for t means I/O operations will not time out.
 func (p *RwcConn) SetDeadline(t time.Time) error {
-	p.rd = t
+	p.dlMtx.Lock()
+	p.setReadDeadlineLocked(t)
 	p.wd = t
+	p.dlMtx.Unlock()
 	return nil
 }
 
@@ -175,17 +191,28 @@ func (p *RwcConn) SetDeadline(t time.Time) error {
 // and any currently-blocked ReadFrom call.
 // A zero value for t means ReadFrom will not time out.
 func (p *RwcConn) SetReadDeadline(t time.Time) error {
-	p.rd = t
+	p.dlMtx.Lock()
+	p.setReadDeadlineLocked(t)
+	p.dlMtx.Unlock()
 	return nil
 }
 
+// setReadDeadlineLocked sets the read deadline and wakes any blocked reader.
+func (p *RwcConn) setReadDeadlineLocked(t time.Time) {
+	p.rd = t
+	close(p.rdChanged)
+	p.rdChanged = make(chan struct{})
+}
+
 // SetWriteDeadline sets the deadline for future WriteTo calls
 // and any currently-blocked WriteTo call.
 // Even if write times out, it may return n > 0, indicating that
 // some of the data was successfully written.
 // A zero value for t means WriteTo will not time out.
 func (p *RwcConn) SetWriteDeadline(t time.Time) error {
+	p.dlMtx.Lock()
 	p.wd = t
+	p.dlMtx.Unlock()
 	return nil
 }
 
-- 
2.43.0


From 8dd0dcc67713f83536afa8d1df69b51011725d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:51 +0000
Subject: [PATCH 13/42] fix: sending on a closed in-memory stream fails instead
 of panicking

---
 srpc/stream-pipe.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/srpc/stream-pipe.go b/srpc/stream-pipe.go
index 7f55969..9e41699 100644
--- a/srpc/stream-pipe.go
+++ b/srpc/stream-pipe.go
@@ -15,15 +15,19 @@ type pipeStream struct {
 	other *pipeStream
 	// closeOnce ensures we close only once.
 	closeOnce sync.Once
+	// closedCh is closed when the send side is closed.
+	closedCh chan struct{}
+	// sendMtx is held while sending to the data channel of other.
+	sendMtx sync.Mutex
 	// dataCh is the data channel
 	dataCh chan []byte
 }
 
 // NewPipeStream constructs a new in-memory stream.
 func NewPipeStream(ctx context.Context) (Stream, Stream) {
-	s1 := &pipeStream{dataCh: make(chan []byte, 5)}
+	s1 := &pipeStream{dataCh: make(chan []byte, 5), closedCh: make(chan struct{})}
 	s1.ctx, s1.ctxCancel = context.WithCancel(ctx)
-	s2 := &pipeStream{other: s1, dataCh: make(chan []byte, 5)}
+	s2 := &pipeStream{other: s1, dataCh: make(chan []byte, 5), closedCh: make(chan struct{})}
 	s2.ctx, s2.ctxCancel = context.WithCancel(ctx)
 	s1.other = s2
 	return s1, s2
@@ -40,9 +44,26 @@ func (p *pipeStream) MsgSend(msg Message) error {
 	if err != nil {
 		return err
 	}
+
+	p.sendMtx.Lock()
+	defer p.sendMtx.Unlock()
+
+	// the data channel may be closed if we are done sending.
+	select {
+	case <-p.ctx.Done():
+		return context.Canceled
+	case <-p.closedCh:
+		return io.ErrClosedPipe
+	default:
+	}
+
 	select {
 	case <-p.ctx.Done():
 		return context.Canceled
+	case <-p.closedCh:
+		return io.ErrClosedPipe
+	case <-p.other.ctx.Done():
+		return io.ErrClosedPipe
 	case p.other.dataCh <- data:
 		return nil
 	}
@@ -78,7 +99,11 @@ func (p *pipeStream) Close() error {
 // closeRemote closes the remote data channel.
 func (p *pipeStream) closeRemote() {
 	p.closeOnce.Do(func() {
+		// wake any pending send before closing the data channel.
+		close(p.closedCh)
+		p.sendMtx.Lock()
 		close(p.other.dataCh)
+		p.sendMtx.Unlock()
 	})
 }
 
-- 
2.43.0


From a94735febe302330b56107411d2b8062fbcbca16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:54 +0000
Subject: [PATCH 14/42] fix: the rpcstream proxy requires a caller but not a
 release function

---
 rpcstream/proxy.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpcstream/proxy.go b/rpcstream/proxy.go
index 7d1c82e..7e522a1 100644
--- a/rpcstream/proxy.go
+++ b/rpcstream/proxy.go
@@ -38,7 +38,8 @@ func HandleProxyRpcStream[T RpcStream](stream RpcStream, getter RpcProxyGetter[T
 	remoteCaller, remoteComponentID, remoteCallerRel, err := getter(ctx, componentID)
 	if remoteCallerRel != nil {
 		defer remoteCallerRel()
-	} else if err == nil {
+	}
+	if err == nil && remoteCaller == nil {
 		err = ErrNoServerForComponent
 	}
 
-- 
2.43.0


From 4e4321cf6994328123e7feac44ea4e4dce2454ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:58 +0000
Subject: [PATCH 15/42] fix: calls on an already failed stream return the error
 of the stream

---
 srpc/client-rpc.go |  9 +++++++++
 srpc/common-rpc.go | 11 ++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index 4f51ca5..d1458e2 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -33,6 +33,15 @@ func (r *ClientRPC) Start(writer PacketWriter, writeFirstMsg bool, firstMsg []by
 	if err := r.ctx.Err(); err != nil {
 		r.ctxCancel()
 		_ = writer.Close()
+
+		// if the stream was already closed with an error, return it.
+		var remoteErr error
+		r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
+			remoteErr = r.remoteErr
+		})
+		if remoteErr != nil {
+			return remoteErr
+		}
 		return context.Canceled
 	}
 
diff --git a/srpc/common-rpc.go b/srpc/common-rpc.go
index 72767e8..bbfd4ae 100644
--- a/srpc/common-rpc.go
+++ b/srpc/common-rpc.go
@@ -125,7 +125,16 @@ func (c *commonRPC) ReadOne() ([]byte, error) {
 func (c *commonRPC) WriteCallData(data []byte, complete bool, err error) error {
 	dataIsZero := len(data) == 0 && !complete && err == nil
 	outPkt := NewCallDataPacket(data, dataIsZero, complete, err)
-	return c.writer.WritePacket(outPkt)
+	writeErr := c.writer.WritePacket(outPkt)
+	if writeErr != nil {
+		// if the rpc already ended with an error, return it.
+		c.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
+			if c.remoteErr != nil {
+				writeErr = c.remoteErr
+			}
+		})
+	}
+	return writeErr
 }
 
 // HandleStreamClose handles the incoming stream closing w/ optional error.
-- 
2.43.0


From 4623676a52922f87be269ea2297245e3637cbb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:01 +0000
Subject: [PATCH 16/42] fix: an error with an empty text is not reported as
 success

---
 srpc/errors.go | 2 ++
 srpc/packet.go | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/srpc/errors.go b/srpc/errors.go
index caf7511..738eac4 100644
--- a/srpc/errors.go
+++ b/srpc/errors.go
@@ -21,4 +21,6 @@ var (
 	ErrNoAvailableClients = errors.New("no available rpc clients")
 	// ErrNilWriter is returned if the rpc writer is nil.
 	ErrNilWriter = errors.New("writer cannot be nil")
+	// ErrUnknown is sent to the remote if a call failed with an empty error text.
+	ErrUnknown = errors.New("unknown error")
 )
diff --git a/srpc/packet.go b/srpc/packet.go
index 94344a7..0836d07 100644
--- a/srpc/packet.go
+++ b/srpc/packet.go
@@ -67,6 +67,10 @@ func NewCallDataPacket(data []byte, dataIsZero bool, complete bool, err error) *
 	var errStr string
 	if err != nil {
 		errStr = err.Error()
+		if errStr == "" {
+			// the remote recognizes an error by the non-empty text.
+			errStr = ErrUnknown.Error()
+		}
 	}
 	return &Packet{Body: &Packet_CallData{
 		CallData: &CallData{
-- 
2.43.0


From 224b4c4444111bd9905ab68cc0f55aa8b83302b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:42 +0000
Subject: [PATCH 17/42] fix: the raw tunnel returns the first error of both
 directions

---
 rpcstream/raw-stream.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rpcstream/raw-stream.go b/rpcstream/raw-stream.go
index c72dc75..13293d7 100644
--- a/rpcstream/raw-stream.go
+++ b/rpcstream/raw-stream.go
@@ -75,9 +75,10 @@ func HandleRawRpcStream(stream RpcStream, getter RpcRawGetter) error {
 func copyRwcTo(s1, s2 io.ReadWriteCloser, errCh chan error) {
 	buf := make([]byte, 8192)
 	_, err := io.CopyBuffer(s2, s1, buf)
-	_ = s1.Close()
-	_ = s2.Close()
+	// report the error before closing the streams: the other direction fails then.
 	if errCh != nil {
 		errCh <- err
 	}
+	_ = s1.Close()
+	_ = s2.Close()
 }
-- 
2.43.0


From 56112eb3e083eddbdb9dcf9bb4136495146784a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:46 +0000
Subject: [PATCH 18/42] fix: packets read together with a read error are
 delivered

---
 srpc/packet-rw.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/srpc/packet-rw.go b/srpc/packet-rw.go
index 670f78f..219ab00 100644
--- a/srpc/packet-rw.go
+++ b/srpc/packet-rw.go
@@ -86,15 +86,16 @@ func (r *PacketReadWriter) ReadToHandler(cb PacketDataHandler) error {
 	var currLen uint32
 	buf := make([]byte, 2048)
 	isOpen := true
+	var readErr error
 
 	for isOpen {
 		// read some data into the buffer
 		n, err := r.rw.Read(buf)
 		if err != nil {
-			if err == io.EOF || err == context.Canceled {
-				isOpen = false
-			} else {
-				return err
+			// process any data returned with the error first.
+			isOpen = false
+			if err != io.EOF && err != context.Canceled {
+				readErr = err
 			}
 		}
 
@@ -137,7 +138,7 @@ func (r *PacketReadWriter) ReadToHandler(cb PacketDataHandler) error {
 	}
 
 	// closed
-	return nil
+	return readErr
 }
 
 // Close closes the packet rw.
-- 
2.43.0


From 7d9f9b7ec5db98cc33810ae469ac35627fa98355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:17 +0000
Subject: [PATCH 19/42] fix: the rpcstream proxy forwards what an ended side
 sent before ending

---
 rpcstream/proxy.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/rpcstream/proxy.go b/rpcstream/proxy.go
index 7e522a1..22cced6 100644
--- a/rpcstream/proxy.go
+++ b/rpcstream/proxy.go
@@ -93,6 +93,7 @@ func HandleProxyRpcStream[T RpcStream](stream RpcStream, getter RpcProxyGetter[T
 
 // copies s1 to s2
 func copyRpcStreamTo(s1, s2 RpcStream, errCh chan error) {
+	var sendFailed bool
 	rerr := func() error {
 		pkt := srpc.NewRawMessage(nil, true)
 		for {
@@ -106,11 +107,21 @@ func copyRpcStreamTo(s1, s2 RpcStream, errCh chan error) {
 			err = s2.MsgSend(pkt)
 			pkt.Clear()
 			if err != nil {
+				sendFailed = true
 				return err
 			}
 		}
 	}()
 
+	// if s2 ended, there may be packets left which s2 sent before.
+	// the other direction forwards them and then closes both streams.
+	if sendFailed {
+		if errCh != nil {
+			errCh <- rerr
+		}
+		return
+	}
+
 	s1Err := s1.Close()
 	if rerr == nil && s1Err != nil {
 		rerr = s1Err
-- 
2.43.0


From 3b02cf5de798749ccd5c1ccb60e6bb13431072e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:50 +0000
Subject: [PATCH 20/42] fix: closing the send side of a call the remote already
 ended is not an error

---
 srpc/client-rpc.go | 22 ++++++++++++++++++++++
 srpc/common-rpc.go | 17 ++++++++++++++++-
 2 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index d1458e2..1637732 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -2,6 +2,7 @@ package srpc
 
 import (
 	"context"
+	"io"
 
 	"github.com/pkg/errors"
 )
@@ -67,6 +68,27 @@ func (r *ClientRPC) Start(writer PacketWriter, writeFirstMsg bool, firstMsg []by
 	return err
 }
 
+// WriteCallData writes a call data packet.
+//
+// If data is empty and complete and err are unset, sends an empty message.
+// Completing a call which the remote already ended is not an error.
+func (r *ClientRPC) WriteCallData(data []byte, complete bool, err error) error {
+	writeErr := r.commonRPC.WriteCallData(data, complete, err)
+	if writeErr != nil && complete && err == nil && len(data) == 0 {
+		// the remote ended the call if it reported the final status or closed the stream.
+		// reading returns the remaining messages and the final status.
+		if errors.Is(writeErr, io.ErrClosedPipe) {
+			return nil
+		}
+		r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
+			if r.dataClosed {
+				writeErr = nil
+			}
+		})
+	}
+	return writeErr
+}
+
 // HandlePacketData handles an incoming unparsed message packet.
 func (r *ClientRPC) HandlePacketData(data []byte) error {
 	pkt := &Packet{}
diff --git a/srpc/common-rpc.go b/srpc/common-rpc.go
index bbfd4ae..fed104b 100644
--- a/srpc/common-rpc.go
+++ b/srpc/common-rpc.go
@@ -130,7 +130,7 @@ func (c *commonRPC) WriteCallData(data []byte, complete bool, err error) error {
 		// if the rpc already ended with an error, return it.
 		c.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
 			if c.remoteErr != nil {
-				writeErr = c.remoteErr
+				writeErr = &endedError{error: c.remoteErr}
 			}
 		})
 	}
@@ -201,3 +201,18 @@ func (c *commonRPC) closeLocked(broadcast func()) {
 	broadcast()
 	c.ctxCancel()
 }
+
+// endedError is returned when writing to a rpc which already ended with an error.
+type endedError struct {
+	error
+}
+
+// Unwrap returns the error of the rpc.
+func (e *endedError) Unwrap() error {
+	return e.error
+}
+
+// Is indicates that the stream was closed.
+func (e *endedError) Is(target error) bool {
+	return target == io.ErrClosedPipe
+}
-- 
2.43.0


From 7c6031d1ddb7c4c226a90eb9713fcc9d1984350b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 21/42] fix: a cancel packet before the client call has started
 does not panic

---
 srpc/common-rpc.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/srpc/common-rpc.go b/srpc/common-rpc.go
index fed104b..0f4b6db 100644
--- a/srpc/common-rpc.go
+++ b/srpc/common-rpc.go
@@ -146,7 +146,10 @@ func (c *commonRPC) HandleStreamClose(closeErr error) {
 		}
 		c.dataClosed = true
 		c.ctxCancel()
-		_ = c.writer.Close()
+		// client call did not start yet if writer is nil.
+		if c.writer != nil {
+			_ = c.writer.Close()
+		}
 		broadcast()
 	})
 }
-- 
2.43.0


From b9ef71a08763600329f44c72b844b481d57dc801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 22/42] fix: a receive may not return a message after it
 reported the cancellation

---
 srpc/common-rpc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/common-rpc.go b/srpc/common-rpc.go
index 0f4b6db..166e590 100644
--- a/srpc/common-rpc.go
+++ b/srpc/common-rpc.go
@@ -81,7 +81,7 @@ func (c *commonRPC) ReadOne() ([]byte, error) {
 	for {
 		var waitCh <-chan struct{}
 		c.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
-			if ctxDone && !c.dataClosed {
+			if ctxDone && !c.dataClosed && len(c.dataQueue) == 0 {
 				// context must have been canceled locally
 				c.closeLocked(broadcast)
 				err = context.Canceled
-- 
2.43.0


From 773a71d422a3a888857d874131a18ae6adc330d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:17 +0000
Subject: [PATCH 23/42] fix: close the writer if the stream closes while the
 call starts

---
 srpc/client-rpc.go | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index 1637732..499d09a 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -31,24 +31,22 @@ func (r *ClientRPC) Start(writer PacketWriter, writeFirstMsg bool, firstMsg []by
 		return ErrNilWriter
 	}
 
-	if err := r.ctx.Err(); err != nil {
-		r.ctxCancel()
-		_ = writer.Close()
-
-		// if the stream was already closed with an error, return it.
-		var remoteErr error
-		r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
-			remoteErr = r.remoteErr
-		})
-		if remoteErr != nil {
-			return remoteErr
-		}
-		return context.Canceled
-	}
-
 	var firstMsgEmpty bool
 	var err error
 	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
+		// check this with the lock held: the stream may be closed concurrently.
+		if r.ctx.Err() != nil {
+			r.ctxCancel()
+			_ = writer.Close()
+
+			// if the stream was already closed with an error, return it.
+			err = r.remoteErr
+			if err == nil {
+				err = context.Canceled
+			}
+			return
+		}
+
 		r.writer = writer
 
 		if writeFirstMsg {
-- 
2.43.0


From fc2c008cbf3c03c58dd8b2d67d8f8011647bcc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:10 +0000
Subject: [PATCH 24/42] fix: ts: an error does not drop the messages before it

---
 rpcstream/rpcstream.ts |  9 ++++++++-
 srpc/client.ts         |  8 +++++---
 srpc/common-rpc.ts     | 30 +++++++++++++++++++++++++-----
 srpc/pushable.ts       |  2 ++
 4 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/rpcstream/rpcstream.ts b/rpcstream/rpcstream.ts
index c15ff29..3c161ec 100644
--- a/rpcstream/rpcstream.ts
+++ b/rpcstream/rpcstream.ts
@@ -138,7 +138,11 @@ export async function* handleRpcStream(
   // start the handler
   const rpcStream = new RpcStream(packetTx, packetRx)
   handler!(rpcStream)
-    .catch((err) => packetTx.end(err))
+    .catch(async (err) => {
+      // note: end(err) drops the packets which were not sent yet.
+      await packetTx.onEmpty()
+      packetTx.end(err)
+    })
     .then(() => packetTx.end())
 
   // process packets
@@ -161,6 +165,7 @@ export class RpcStream implements PacketStream {
   private readonly _packetTx: {
     push: (val: Message<RpcStreamPacket>) => void
     end: (err?: Error) => void
+    onEmpty: () => Promise<void>
   }
 
   // packetTx writes packets to the remote.
@@ -186,6 +191,8 @@ export class RpcStream implements PacketStream {
         }
         this._packetTx.end()
       } catch (err) {
+        // note: end(err) drops the packets which were not sent yet.
+        await this._packetTx.onEmpty()
         this._packetTx.end(err as Error)
       }
     }
diff --git a/srpc/client.ts b/srpc/client.ts
index 7972b60..215184a 100644
--- a/srpc/client.ts
+++ b/srpc/client.ts
@@ -82,9 +82,11 @@ export class Client implements ProtoRpc {
     const serverData: Pushable<Uint8Array> = pushable({ objectMode: true })
     this.startRpc(service, method, null, abortSignal)
       .then(async (call) => {
-        const handleErr = (err: Error) => {
-          serverData.end(err)
+        const handleErr = async (err: Error) => {
           call.close(err)
+          // note: end(err) drops the values which were not read yet.
+          await serverData.onEmpty()
+          serverData.end(err)
         }
         call.writeCallDataFromSource(data).catch(handleErr)
         try {
@@ -94,7 +96,7 @@ export class Client implements ProtoRpc {
           serverData.end()
           call.close()
         } catch (err) {
-          handleErr(err as Error)
+          await handleErr(err as Error)
         }
       })
       .catch((err) => serverData.end(err))
diff --git a/srpc/common-rpc.ts b/srpc/common-rpc.ts
index 05607b1..5034755 100644
--- a/srpc/common-rpc.ts
+++ b/srpc/common-rpc.ts
@@ -21,7 +21,8 @@ export class CommonRPC {
   })
 
   // _rpcDataSource is used to write to the rpc message source.
-  private readonly _rpcDataSource = pushable<Uint8Array>({
+  // an err value is thrown to the reader after the data before it.
+  private readonly _rpcDataSource = pushable<Uint8Array | { err: Error }>({
     objectMode: true,
   })
 
@@ -36,7 +37,7 @@ export class CommonRPC {
   constructor() {
     this.sink = this._createSink()
     this.source = this._source
-    this.rpcDataSource = this._rpcDataSource
+    this.rpcDataSource = this._createRpcDataSource()
   }
 
   // isClosed returns one of: true (closed w/o error), Error (closed w/ error), or false (not closed).
@@ -158,9 +159,9 @@ export class CommonRPC {
 
     this.pushRpcData(packet.data, packet.dataIsZero)
     if (packet.error) {
-      this._rpcDataSource.end(new Error(packet.error))
+      this.endRpcData(new Error(packet.error))
     } else if (packet.complete) {
-      this._rpcDataSource.end()
+      this.endRpcData()
     }
   }
 
@@ -182,7 +183,26 @@ export class CommonRPC {
       await this.writeCallCancel()
     }
     this._source.end()
-    this._rpcDataSource.end(err)
+    this.endRpcData(err)
+  }
+
+  // endRpcData ends the rpc data source, optionally with an error.
+  private endRpcData(err?: Error) {
+    // note: end(err) would drop the data which was not read yet.
+    if (err) {
+      this._rpcDataSource.push({ err })
+    }
+    this._rpcDataSource.end()
+  }
+
+  // _createRpcDataSource returns a value for the rpcDataSource field.
+  private async *_createRpcDataSource(): AsyncGenerator<Uint8Array> {
+    for await (const data of this._rpcDataSource) {
+      if ('err' in data) {
+        throw data.err
+      }
+      yield data
+    }
   }
 
   // _createSink returns a value for the sink field.
diff --git a/srpc/pushable.ts b/srpc/pushable.ts
index 3806ee7..cfe8510 100644
--- a/srpc/pushable.ts
+++ b/srpc/pushable.ts
@@ -20,6 +20,8 @@ export async function writeToPushable<T>(
     }
     out.end()
   } catch (err) {
+    // note: end(err) drops the values which were not read yet.
+    await out.onEmpty()
     out.end(err as Error)
   }
 }
-- 
2.43.0


From 2d39b4a3438de464a01ebd01680c2620f1863bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:10 +0000
Subject: [PATCH 25/42] fix: ts: a call ends with an error if its stream ends
 before

---
 srpc/client.ts     | 4 ++--
 srpc/common-rpc.ts | 4 +++-
 srpc/errors.ts     | 3 +++
 srpc/server.ts     | 5 +++--
 4 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/srpc/client.ts b/srpc/client.ts
index 215184a..fde013d 100644
--- a/srpc/client.ts
+++ b/srpc/client.ts
@@ -1,7 +1,7 @@
 import { pipe } from 'it-pipe'
 import { pushable, Pushable } from 'it-pushable'
 
-import { ERR_RPC_ABORT } from './errors.js'
+import { ERR_RPC_ABORT, ERR_STREAM_CLOSED } from './errors.js'
 import type { ProtoRpc } from './proto-rpc.js'
 import type { OpenStreamFunc } from './stream.js'
 import { ClientRPC } from './client-rpc.js'
@@ -124,7 +124,7 @@ export class Client implements ProtoRpc {
     })
     pipe(stream, decodePacketSource, call, encodePacketSource, stream)
       .catch((err) => call.close(err))
-      .then(() => call.close())
+      .then(() => call.close(new Error(ERR_STREAM_CLOSED)))
     await call.writeCallStart(data ?? undefined)
     return call
   }
diff --git a/srpc/common-rpc.ts b/srpc/common-rpc.ts
index 5034755..62cddf9 100644
--- a/srpc/common-rpc.ts
+++ b/srpc/common-rpc.ts
@@ -4,7 +4,7 @@ import { CompleteMessage } from '@aptre/protobuf-es-lite'
 
 import type { CallData, CallStart } from './rpcproto.pb.js'
 import { Packet } from './rpcproto.pb.js'
-import { ERR_RPC_ABORT } from './errors.js'
+import { ERR_RPC_ABORT, ERR_STREAM_CLOSED } from './errors.js'
 
 // CommonRPC is common logic between server and client RPCs.
 export class CommonRPC {
@@ -220,6 +220,8 @@ export class CommonRPC {
             await this.handlePacket(msg)
           }
         }
+        // the remote closed the stream: nothing else can arrive.
+        this.close(new Error(ERR_STREAM_CLOSED))
       } catch (err) {
         this.close(err as Error)
       }
diff --git a/srpc/errors.ts b/srpc/errors.ts
index 150b306..e4e2683 100644
--- a/srpc/errors.ts
+++ b/srpc/errors.ts
@@ -13,6 +13,9 @@ export function isAbortError(err: unknown): boolean {
 // ERR_STREAM_IDLE is returned if the stream idle timeout was exceeded.
 export const ERR_STREAM_IDLE = 'ERR_STREAM_IDLE'
 
+// ERR_STREAM_CLOSED is returned if the stream was closed before the RPC completed.
+export const ERR_STREAM_CLOSED = 'ERR_STREAM_CLOSED'
+
 // isStreamIdleError checks if the error object is ERR_STREAM_IDLE.
 export function isStreamIdleError(err: unknown): boolean {
   if (typeof err !== 'object') {
diff --git a/srpc/server.ts b/srpc/server.ts
index 76a2618..319fad7 100644
--- a/srpc/server.ts
+++ b/srpc/server.ts
@@ -1,5 +1,6 @@
 import { pipe } from 'it-pipe'
 
+import { ERR_STREAM_CLOSED } from './errors.js'
 import { LookupMethod } from './mux.js'
 import { ServerRPC } from './server-rpc.js'
 import { decodePacketSource, encodePacketSource } from './packet.js'
@@ -23,7 +24,7 @@ export class Server implements StreamHandler {
       const rpc = this.startRpc()
       return pipe(stream, decodePacketSource, rpc, encodePacketSource, stream)
         .catch((err: Error) => rpc.close(err))
-        .then(() => rpc.close())
+        .then(() => rpc.close(new Error(ERR_STREAM_CLOSED)))
     }
   }
 
@@ -39,7 +40,7 @@ export class Server implements StreamHandler {
     const rpc = this.startRpc()
     pipe(stream, decodePacketSource, rpc, encodePacketSource, stream)
       .catch((err: Error) => rpc.close(err))
-      .then(() => rpc.close())
+      .then(() => rpc.close(new Error(ERR_STREAM_CLOSED)))
     return rpc
   }
 }
-- 
2.43.0


From fe6367fc957291df57202b1c8498b9856e71c7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:10 +0000
Subject: [PATCH 26/42] fix: ts: a call can be aborted while its stream opens

---
 srpc/client.ts | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/srpc/client.ts b/srpc/client.ts
index fde013d..eb0c162 100644
--- a/srpc/client.ts
+++ b/srpc/client.ts
@@ -115,8 +115,18 @@ export class Client implements ProtoRpc {
     if (abortSignal?.aborted) {
       throw new Error(ERR_RPC_ABORT)
     }
-    const openStreamFn = await this.openStreamCtr.wait()
-    const stream = await openStreamFn()
+    const openStream = this.openStreamCtr.wait().then((openStreamFn) => {
+      if (abortSignal?.aborted) {
+        throw new Error(ERR_RPC_ABORT)
+      }
+      return openStreamFn()
+    })
+    const stream = await waitOrAbort(openStream, abortSignal)
+    if (!stream || abortSignal?.aborted) {
+      // aborted: if the stream opens after all, end it.
+      openStream.then((stream) => stream.sink([])).catch(() => {})
+      throw new Error(ERR_RPC_ABORT)
+    }
     const call = new ClientRPC(rpcService, rpcMethod)
     abortSignal?.addEventListener('abort', () => {
       call.writeCallCancel()
@@ -129,3 +139,21 @@ export class Client implements ProtoRpc {
     return call
   }
 }
+
+// waitOrAbort waits for the promise, or returns null once the signal is aborted.
+async function waitOrAbort<T>(
+  promise: Promise<T>,
+  abortSignal?: AbortSignal,
+): Promise<T | null> {
+  if (!abortSignal) {
+    return promise
+  }
+  let onAbort: () => void
+  const aborted = new Promise<null>((resolve) => {
+    onAbort = () => resolve(null)
+    abortSignal.addEventListener('abort', onAbort)
+  })
+  return Promise.race([promise, aborted]).finally(() =>
+    abortSignal.removeEventListener('abort', onAbort),
+  )
+}
-- 
2.43.0


From 0b2758a0074b01f9dc75f23dfdad185c245bedf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:10 +0000
Subject: [PATCH 27/42] fix: ts: closing a BroadcastChannelDuplex twice does
 not throw

---
 srpc/broadcast-channel.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/srpc/broadcast-channel.ts b/srpc/broadcast-channel.ts
index 0384972..b239e78 100644
--- a/srpc/broadcast-channel.ts
+++ b/srpc/broadcast-channel.ts
@@ -22,6 +22,8 @@ export class BroadcastChannelDuplex<T>
   public sink: (source: Source<T>) => Promise<void>
   // source is the source for outgoing messages.
   public source: AsyncGenerator<T>
+  // closed indicates the channels have been closed already.
+  private closed?: true
 
   constructor(read: BroadcastChannel, write: BroadcastChannel) {
     this.read = read
@@ -32,6 +34,11 @@ export class BroadcastChannelDuplex<T>
 
   // close closes the message port.
   public close() {
+    // note: posting to a closed BroadcastChannel throws an error.
+    if (this.closed) {
+      return
+    }
+    this.closed = true
     this.write.postMessage(null)
     this.write.close()
     this.read.close()
-- 
2.43.0


From b28b22ef92f4026391b351a2f8d5327b877438e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:10 +0000
Subject: [PATCH 28/42] fix: ts: MessagePortConn.close tells the remote

---
 srpc/message-port.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/message-port.ts b/srpc/message-port.ts
index 0c51df3..38932e4 100644
--- a/srpc/message-port.ts
+++ b/srpc/message-port.ts
@@ -136,6 +136,6 @@ export class MessagePortConn extends StreamConn {
   // close closes the message port.
   public override close(err?: Error) {
     super.close(err)
-    this.messagePort.close()
+    this._messagePort.close()
   }
 }
-- 
2.43.0


From 0a585c71500936bd0f99f1483ae27b7680ffd4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 29/42] fix: ts: a service or method id like toString is not
 found by default

The mux and the handler looked ids up in plain objects, so that the ids of
Object.prototype members were found: the call failed with a TypeError and
the fallback lookups were not consulted.
---
 srpc/handler.ts | 6 +++++-
 srpc/mux.ts     | 6 ++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/srpc/handler.ts b/srpc/handler.ts
index a5fda2a..93a3162 100644
--- a/srpc/handler.ts
+++ b/srpc/handler.ts
@@ -53,6 +53,10 @@ export class StaticHandler implements Handler {
     if (serviceID && serviceID !== this.service) {
       return null
     }
+    // note: methods might have a prototype with functions like toString.
+    if (!Object.prototype.hasOwnProperty.call(this.methods, methodID)) {
+      return null
+    }
     return this.methods[methodID] || null
   }
 }
@@ -66,7 +70,7 @@ export function createHandler<
   serviceID = serviceID || definition.typeName
 
   // build map of method ID -> method prototype.
-  const methodMap: MethodMap = {}
+  const methodMap: MethodMap = Object.create(null)
   for (const methodInfo of Object.values(definition.methods)) {
     const methodName = methodInfo.name
     let methodProto = impl[methodName]
diff --git a/srpc/mux.ts b/srpc/mux.ts
index 5dc76ad..782063d 100644
--- a/srpc/mux.ts
+++ b/srpc/mux.ts
@@ -25,7 +25,8 @@ type staticMuxMethods = { [methodID: string]: Handler }
 // implements Mux
 export class StaticMux implements Mux {
   // services contains a mapping from service id to handlers.
-  private services: { [id: string]: staticMuxMethods } = {}
+  // note: has no prototype, ids like "constructor" are not found unless registered.
+  private services: { [id: string]: staticMuxMethods } = Object.create(null)
   // lookups is the list of lookup methods to call.
   // called if the method is not resolved by the services list.
   private lookups: LookupMethod[] = []
@@ -40,7 +41,8 @@ export class StaticMux implements Mux {
     if (!serviceID) {
       throw new Error('service id cannot be empty')
     }
-    const serviceMethods = this.services[serviceID] || {}
+    const serviceMethods: staticMuxMethods =
+      this.services[serviceID] || Object.create(null)
     const methodIDs = handler.getMethodIDs()
     for (const methodID of methodIDs) {
       serviceMethods[methodID] = handler
-- 
2.43.0


From 3ff46b4fc145e2508511ad57542b9faab9497e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:02 +0000
Subject: [PATCH 30/42] fix: ts: a call start after the call was canceled does
 not run the handler

As in the Go server: a cancel, or an invalid packet, closes the call; a call
start after it started the handler of the closed call nevertheless.
---
 srpc/server-rpc.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srpc/server-rpc.ts b/srpc/server-rpc.ts
index 5f49d05..7d3a99e 100644
--- a/srpc/server-rpc.ts
+++ b/srpc/server-rpc.ts
@@ -17,6 +17,10 @@ export class ServerRPC extends CommonRPC {
 
   // handleCallStart handles a CallStart cket.
   public override async handleCallStart(packet: Partial<CallStart>) {
+    if (this.isClosed) {
+      // canceled or failed before it started: do not run the handler.
+      return
+    }
     if (this.service || this.method) {
       throw new Error('call start must be sent only once')
     }
-- 
2.43.0


From 90a603c4eea9eb00b38d11eba37037ed45ceff8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 31/42] fix: ts: an error on a ChannelStream does not drop the
 data before it

end(err) of it-pushable clears the values which were not read yet.
---
 srpc/channel.ts | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/srpc/channel.ts b/srpc/channel.ts
index 99bf8dd..3c8e2f3 100644
--- a/srpc/channel.ts
+++ b/srpc/channel.ts
@@ -57,7 +57,10 @@ export class ChannelStream<T = Uint8Array>
   private readonly _source: {
     push: (val: T) => void
     end: (err?: Error) => void
+    onEmpty: () => Promise<void>
   }
+  // sourceEnded indicates the source was ended.
+  private sourceEnded = false
   // localId is the local identifier
   private readonly localId: string
   // localOpen indicates the local side has opened the stream.
@@ -213,7 +216,21 @@ export class ChannelStream<T = Uint8Array>
       this.keepAlive.clear()
       delete this.keepAlive
     }
-    this._source.end(error)
+    this.endSource(error)
+  }
+
+  // endSource ends the source after the data which was received before.
+  private endSource(error?: Error) {
+    if (this.sourceEnded) {
+      return
+    }
+    this.sourceEnded = true
+    if (error) {
+      // note: end(err) drops the data which was not read yet.
+      this._source.onEmpty().then(() => this._source.end(error))
+    } else {
+      this._source.end()
+    }
   }
 
   // onLocalOpened indicates the local side has opened the read stream.
@@ -278,10 +295,8 @@ export class ChannelStream<T = Uint8Array>
     if (data) {
       this._source.push(data)
     }
-    if (err) {
-      this._source.end(err)
-    } else if (closed) {
-      this._source.end()
+    if (err || closed) {
+      this.endSource(err)
     }
   }
 }
-- 
2.43.0


From d81fee02fe425c134edd4cf3b1e92cbc2420fe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 32/42] fix: ts: a ChannelStream delivers falsy messages

The messages may be of any type: 0, false, null and the empty string were
dropped by the receiver.
---
 srpc/channel.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/channel.ts b/srpc/channel.ts
index 3c8e2f3..3b80824 100644
--- a/srpc/channel.ts
+++ b/srpc/channel.ts
@@ -292,7 +292,7 @@ export class ChannelStream<T = Uint8Array>
       this.onRemoteOpened()
     }
     const { data, closed, error: err } = msg
-    if (data) {
+    if (data !== undefined) {
       this._source.push(data)
     }
     if (err || closed) {
-- 
2.43.0


From fd4d02f13707d07a1a477e2020d9367670386995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 33/42] fix: ts: closing a ChannelStream twice does not throw

The second close, such as one after the idle timeout closed the stream,
posted to a closed BroadcastChannel, which throws.
---
 srpc/channel.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/srpc/channel.ts b/srpc/channel.ts
index 3b80824..3ed5d0d 100644
--- a/srpc/channel.ts
+++ b/srpc/channel.ts
@@ -61,6 +61,8 @@ export class ChannelStream<T = Uint8Array>
   }
   // sourceEnded indicates the source was ended.
   private sourceEnded = false
+  // closed indicates close was called.
+  private closed = false
   // localId is the local identifier
   private readonly localId: string
   // localOpen indicates the local side has opened the stream.
@@ -193,6 +195,10 @@ export class ChannelStream<T = Uint8Array>
 
   // close closes the broadcast channels.
   public close(error?: Error) {
+    if (this.closed) {
+      return
+    }
+    this.closed = true
     // write a message to indicate the stream is now closed.
     this.postMessage({ closed: true, error })
     // close channels
-- 
2.43.0


From 7ffb4e8a563a26f7d71db4b171872a58c3545e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 34/42] fix: ts: a ChannelStream's sink ends if the remote
 closes before it opens

The sink, and waitRemoteOpen, waited for the remote forever.
---
 srpc/channel.ts | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/srpc/channel.ts b/srpc/channel.ts
index 3ed5d0d..1a6f376 100644
--- a/srpc/channel.ts
+++ b/srpc/channel.ts
@@ -208,12 +208,7 @@ export class ChannelStream<T = Uint8Array>
       this.channel.tx.close()
       this.channel.rx.close()
     }
-    if (!this.remoteOpen && this._remoteOpen) {
-      this._remoteOpen(error || new Error('closed'))
-    }
-    if (!this.remoteAck && this._remoteAck) {
-      this._remoteAck(error || new Error('closed'))
-    }
+    this.rejectWaiters(error)
     if (this.idleWatchdog) {
       this.idleWatchdog.clear()
       delete this.idleWatchdog
@@ -225,6 +220,16 @@ export class ChannelStream<T = Uint8Array>
     this.endSource(error)
   }
 
+  // rejectWaiters rejects waitRemoteOpen and waitRemoteAck if pending.
+  private rejectWaiters(error?: Error) {
+    if (!this.remoteOpen && this._remoteOpen) {
+      this._remoteOpen(error || new Error('closed'))
+    }
+    if (!this.remoteAck && this._remoteAck) {
+      this._remoteAck(error || new Error('closed'))
+    }
+  }
+
   // endSource ends the source after the data which was received before.
   private endSource(error?: Error) {
     if (this.sourceEnded) {
@@ -302,6 +307,8 @@ export class ChannelStream<T = Uint8Array>
       this._source.push(data)
     }
     if (err || closed) {
+      // if the remote closed before it opened, it never will.
+      this.rejectWaiters(err)
       this.endSource(err)
     }
   }
-- 
2.43.0


From 8385562741cf7cbb889e357a6529a162f4ec5ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 35/42] fix: ts: closing a port or channel duplex ends its
 source

After a close of the local side, which also follows the end of its sink, a
reader of the source waited forever: nothing arrives on a closed port.
---
 srpc/broadcast-channel.ts |  8 ++++++++
 srpc/message-port.ts      | 11 +++++++++++
 2 files changed, 19 insertions(+)

diff --git a/srpc/broadcast-channel.ts b/srpc/broadcast-channel.ts
index b239e78..50d664a 100644
--- a/srpc/broadcast-channel.ts
+++ b/srpc/broadcast-channel.ts
@@ -24,6 +24,8 @@ export class BroadcastChannelDuplex<T>
   public source: AsyncGenerator<T>
   // closed indicates the channels have been closed already.
   private closed?: true
+  // stopSource ends the source, if it was started.
+  private stopSource?: () => void
 
   constructor(read: BroadcastChannel, write: BroadcastChannel) {
     this.read = read
@@ -42,6 +44,8 @@ export class BroadcastChannelDuplex<T>
     this.write.postMessage(null)
     this.write.close()
     this.read.close()
+    // nothing else can be received: end the source.
+    this.stopSource?.()
   }
 
   // _createSink initializes the sink field.
@@ -73,6 +77,10 @@ export class BroadcastChannelDuplex<T>
       }
 
       this.read.addEventListener('message', messageListener)
+      this.stopSource = () => queue.stop()
+      if (this.closed) {
+        queue.stop()
+      }
       return () => {
         this.read.removeEventListener('message', messageListener)
       }
diff --git a/srpc/message-port.ts b/srpc/message-port.ts
index 38932e4..040bf74 100644
--- a/srpc/message-port.ts
+++ b/srpc/message-port.ts
@@ -21,6 +21,10 @@ export class MessagePortDuplex<T extends NonNullable<unknown>>
   public sink: (source: Source<T>) => Promise<void>
   // source is the source for outgoing messages.
   public source: AsyncGenerator<T>
+  // closed indicates the port has been closed already.
+  private closed?: true
+  // stopSource ends the source, if it was started.
+  private stopSource?: () => void
 
   constructor(port: MessagePort) {
     this.port = port
@@ -30,8 +34,11 @@ export class MessagePortDuplex<T extends NonNullable<unknown>>
 
   // close closes the message port.
   public close() {
+    this.closed = true
     this.port.postMessage(null)
     this.port.close()
+    // nothing else can be received: end the source.
+    this.stopSource?.()
   }
 
   // _createSink initializes the sink field.
@@ -64,6 +71,10 @@ export class MessagePortDuplex<T extends NonNullable<unknown>>
 
       this.port.addEventListener('message', messageListener)
       this.port.start()
+      this.stopSource = () => queue.stop()
+      if (this.closed) {
+        queue.stop()
+      }
 
       return () => {
         this.port.removeEventListener('message', messageListener)
-- 
2.43.0


From 46cfc4c3e8674fdf7b5255486ad6c5585b17b2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 36/42] fix: ts: isAbortError and isStreamIdleError accept null

They threw a TypeError for a thrown null.
---
 srpc/errors.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srpc/errors.ts b/srpc/errors.ts
index e4e2683..22388e0 100644
--- a/srpc/errors.ts
+++ b/srpc/errors.ts
@@ -3,7 +3,7 @@ export const ERR_RPC_ABORT = 'ERR_RPC_ABORT'
 
 // isAbortError checks if the error object is ERR_RPC_ABORT.
 export function isAbortError(err: unknown): boolean {
-  if (typeof err !== 'object') {
+  if (typeof err !== 'object' || err === null) {
     return false
   }
   const message = (err as Error).message
@@ -18,7 +18,7 @@ export const ERR_STREAM_CLOSED = 'ERR_STREAM_CLOSED'
 
 // isStreamIdleError checks if the error object is ERR_STREAM_IDLE.
 export function isStreamIdleError(err: unknown): boolean {
-  if (typeof err !== 'object') {
+  if (typeof err !== 'object' || err === null) {
     return false
   }
   const message = (err as Error).message
-- 
2.43.0


From dfd913517bdc7af2f74c202064eadfb977b66fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 37/42] fix: ts: an error does not drop what a pushable sink
 has written before

---
 srpc/pushable.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srpc/pushable.ts b/srpc/pushable.ts
index cfe8510..27e1e72 100644
--- a/srpc/pushable.ts
+++ b/srpc/pushable.ts
@@ -42,6 +42,8 @@ export function buildPushableSink<T>(
       }
       target.end()
     } catch (err) {
+      // note: end(err) drops the values which were not read yet.
+      await target.onEmpty()
       target.end(err as Error)
     }
   }
-- 
2.43.0


From c6c3774af8ccf647b1043a5c259cf7d8771a7587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 38/42] fix: ts: a ValueCtr keeps a falsy initial value

Only undefined means no value: 0, false and the empty string were dropped.
---
 srpc/value-ctr.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/value-ctr.ts b/srpc/value-ctr.ts
index 68843c4..1ec9e91 100644
--- a/srpc/value-ctr.ts
+++ b/srpc/value-ctr.ts
@@ -7,7 +7,7 @@ export class ValueCtr<T> {
   private _waiters: ((fn: T) => void)[]
 
   constructor(initialValue?: T) {
-    this._value = initialValue || undefined
+    this._value = initialValue
     this._waiters = []
   }
 
-- 
2.43.0


From bd159f9360fb647381cf8b6def418c5f13db318c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:24 +0000
Subject: [PATCH 39/42] fix: closing the send side of a nested call does not
 fail if the outer call ended

---
 srpc/client-rpc.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index 499d09a..08e2267 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -70,19 +70,28 @@ func (r *ClientRPC) Start(writer PacketWriter, writeFirstMsg bool, firstMsg []by
 //
 // If data is empty and complete and err are unset, sends an empty message.
 // Completing a call which the remote already ended is not an error.
+// The error of writing to such a call matches io.ErrClosedPipe.
 func (r *ClientRPC) WriteCallData(data []byte, complete bool, err error) error {
 	writeErr := r.commonRPC.WriteCallData(data, complete, err)
-	if writeErr != nil && complete && err == nil && len(data) == 0 {
-		// the remote ended the call if it reported the final status or closed the stream.
-		// reading returns the remaining messages and the final status.
-		if errors.Is(writeErr, io.ErrClosedPipe) {
-			return nil
-		}
+	if writeErr == nil {
+		return nil
+	}
+
+	// the remote ended the call if it reported the final status or closed the stream.
+	if !errors.Is(writeErr, io.ErrClosedPipe) {
+		var ended bool
 		r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
-			if r.dataClosed {
-				writeErr = nil
-			}
+			ended = r.dataClosed
 		})
+		if !ended {
+			return writeErr
+		}
+		writeErr = &endedError{error: writeErr}
+	}
+
+	// reading returns the remaining messages and the final status.
+	if complete && err == nil && len(data) == 0 {
+		return nil
 	}
 	return writeErr
 }
-- 
2.43.0


From 7fa8a43aabdfd3f536a49336e02799fd3189be01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:46 +0000
Subject: [PATCH 40/42] fix: a receive notices the cancellation of the context
 while messages are queued

---
 srpc/common-rpc.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/srpc/common-rpc.go b/srpc/common-rpc.go
index 166e590..e6ad31c 100644
--- a/srpc/common-rpc.go
+++ b/srpc/common-rpc.go
@@ -77,15 +77,12 @@ func (c *commonRPC) ReadOne() ([]byte, error) {
 	var hasMsg bool
 	var msg []byte
 	var err error
-	var ctxDone bool
 	for {
 		var waitCh <-chan struct{}
 		c.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
-			if ctxDone && !c.dataClosed && len(c.dataQueue) == 0 {
+			if !c.dataClosed && c.ctx.Err() != nil {
 				// context must have been canceled locally
 				c.closeLocked(broadcast)
-				err = context.Canceled
-				return
 			}
 
 			if len(c.dataQueue) != 0 {
@@ -113,7 +110,6 @@ func (c *commonRPC) ReadOne() ([]byte, error) {
 
 		select {
 		case <-c.ctx.Done():
-			ctxDone = true
 		case <-waitCh:
 		}
 	}
-- 
2.43.0


From d7a0408de1309181f2bf0ec92a267b76c011d4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:26 +0000
Subject: [PATCH 41/42] fix: ts: a method named like toString which is not
 implemented is unimplemented

---
 srpc/handler.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/srpc/handler.ts b/srpc/handler.ts
index 93a3162..061b63c 100644
--- a/srpc/handler.ts
+++ b/srpc/handler.ts
@@ -74,7 +74,11 @@ export function createHandler<
   for (const methodInfo of Object.values(definition.methods)) {
     const methodName = methodInfo.name
     let methodProto = impl[methodName]
-    if (!methodProto) {
+    // note: every object has functions like toString.
+    if (
+      !methodProto ||
+      methodProto === (Object.prototype as any)[methodName]
+    ) {
       continue
     }
     methodProto = methodProto.bind(impl)
-- 
2.43.0


From a906cd3855924b28472ab1f7c02fe2df24f87329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:22 +0000
Subject: [PATCH 42/42] fix: ts: throwing something else than an Error does not
 end a call cleanly

---
 rpcstream/rpcstream.ts |  5 +++--
 srpc/channel.ts        |  4 ++--
 srpc/client.ts         | 10 +++++-----
 srpc/common-rpc.ts     |  6 +++---
 srpc/pushable.ts       |  6 ++++--
 srpc/server-rpc.ts     |  5 +++--
 srpc/server.ts         |  6 +++---
 7 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/rpcstream/rpcstream.ts b/rpcstream/rpcstream.ts
index 3c161ec..fbc9d98 100644
--- a/rpcstream/rpcstream.ts
+++ b/rpcstream/rpcstream.ts
@@ -9,6 +9,7 @@ import {
   HandleStreamFunc,
 } from '../srpc/stream.js'
 import { MessageStream } from '../srpc/message.js'
+import { castToError } from '../srpc/errors.js'
 
 // RpcStreamCaller is the RPC client function to start a RpcStream.
 export type RpcStreamCaller = (
@@ -141,7 +142,7 @@ export async function* handleRpcStream(
     .catch(async (err) => {
       // note: end(err) drops the packets which were not sent yet.
       await packetTx.onEmpty()
-      packetTx.end(err)
+      packetTx.end(castToError(err))
     })
     .then(() => packetTx.end())
 
@@ -193,7 +194,7 @@ export class RpcStream implements PacketStream {
       } catch (err) {
         // note: end(err) drops the packets which were not sent yet.
         await this._packetTx.onEmpty()
-        this._packetTx.end(err as Error)
+        this._packetTx.end(castToError(err))
       }
     }
   }
diff --git a/srpc/channel.ts b/srpc/channel.ts
index 1a6f376..525cab7 100644
--- a/srpc/channel.ts
+++ b/srpc/channel.ts
@@ -1,7 +1,7 @@
 import type { Sink, Source, Duplex } from 'it-stream-types'
 import { pushable, Pushable } from 'it-pushable'
 import { Watchdog } from './watchdog.js'
-import { ERR_STREAM_IDLE } from './errors.js'
+import { castToError, ERR_STREAM_IDLE } from './errors.js'
 
 // ChannelStreamMessage is a message sent over the stream.
 export interface ChannelStreamMessage<T> {
@@ -285,7 +285,7 @@ export class ChannelStream<T = Uint8Array>
         }
         this.postMessage({ closed: true })
       } catch (error) {
-        this.postMessage({ closed: true, error: error as Error })
+        this.postMessage({ closed: true, error: (error || castToError(error)) as Error })
       }
     }
   }
diff --git a/srpc/client.ts b/srpc/client.ts
index eb0c162..7bbe4b4 100644
--- a/srpc/client.ts
+++ b/srpc/client.ts
@@ -1,7 +1,7 @@
 import { pipe } from 'it-pipe'
 import { pushable, Pushable } from 'it-pushable'
 
-import { ERR_RPC_ABORT, ERR_STREAM_CLOSED } from './errors.js'
+import { castToError, ERR_RPC_ABORT, ERR_STREAM_CLOSED } from './errors.js'
 import type { ProtoRpc } from './proto-rpc.js'
 import type { OpenStreamFunc } from './stream.js'
 import { ClientRPC } from './client-rpc.js'
@@ -68,7 +68,7 @@ export class Client implements ProtoRpc {
     const serverData: Pushable<Uint8Array> = pushable({ objectMode: true })
     this.startRpc(service, method, data, abortSignal)
       .then(async (call) => writeToPushable(call.rpcDataSource, serverData))
-      .catch((err) => serverData.end(err))
+      .catch((err) => serverData.end(castToError(err)))
     return serverData
   }
 
@@ -96,10 +96,10 @@ export class Client implements ProtoRpc {
           serverData.end()
           call.close()
         } catch (err) {
-          await handleErr(err as Error)
+          await handleErr(castToError(err))
         }
       })
-      .catch((err) => serverData.end(err))
+      .catch((err) => serverData.end(castToError(err)))
     return serverData
   }
 
@@ -133,7 +133,7 @@ export class Client implements ProtoRpc {
       call.close(new Error(ERR_RPC_ABORT))
     })
     pipe(stream, decodePacketSource, call, encodePacketSource, stream)
-      .catch((err) => call.close(err))
+      .catch((err) => call.close(castToError(err)))
       .then(() => call.close(new Error(ERR_STREAM_CLOSED)))
     await call.writeCallStart(data ?? undefined)
     return call
diff --git a/srpc/common-rpc.ts b/srpc/common-rpc.ts
index 62cddf9..2ddef66 100644
--- a/srpc/common-rpc.ts
+++ b/srpc/common-rpc.ts
@@ -4,7 +4,7 @@ import { CompleteMessage } from '@aptre/protobuf-es-lite'
 
 import type { CallData, CallStart } from './rpcproto.pb.js'
 import { Packet } from './rpcproto.pb.js'
-import { ERR_RPC_ABORT, ERR_STREAM_CLOSED } from './errors.js'
+import { castToError, ERR_RPC_ABORT, ERR_STREAM_CLOSED } from './errors.js'
 
 // CommonRPC is common logic between server and client RPCs.
 export class CommonRPC {
@@ -83,7 +83,7 @@ export class CommonRPC {
       }
       await this.writeCallData(undefined, true)
     } catch (err) {
-      this.close(err as Error)
+      this.close(castToError(err))
     }
   }
 
@@ -223,7 +223,7 @@ export class CommonRPC {
         // the remote closed the stream: nothing else can arrive.
         this.close(new Error(ERR_STREAM_CLOSED))
       } catch (err) {
-        this.close(err as Error)
+        this.close(castToError(err))
       }
     }
   }
diff --git a/srpc/pushable.ts b/srpc/pushable.ts
index 27e1e72..ba7c987 100644
--- a/srpc/pushable.ts
+++ b/srpc/pushable.ts
@@ -2,6 +2,8 @@ import { Message } from '@aptre/protobuf-es-lite'
 import { Pushable, pushable } from 'it-pushable'
 import { Sink, Source } from 'it-stream-types'
 
+import { castToError } from './errors.js'
+
 // messagePushable is a shortcut to build a pushable for messages.
 export function messagePushable<T extends Message<T>>(): Pushable<T> {
   return pushable<T>({ objectMode: true })
@@ -22,7 +24,7 @@ export async function writeToPushable<T>(
   } catch (err) {
     // note: end(err) drops the values which were not read yet.
     await out.onEmpty()
-    out.end(err as Error)
+    out.end(castToError(err))
   }
 }
 
@@ -44,7 +46,7 @@ export function buildPushableSink<T>(
     } catch (err) {
       // note: end(err) drops the values which were not read yet.
       await target.onEmpty()
-      target.end(err as Error)
+      target.end(castToError(err))
     }
   }
 }
diff --git a/srpc/server-rpc.ts b/srpc/server-rpc.ts
index 7d3a99e..e8379a4 100644
--- a/srpc/server-rpc.ts
+++ b/srpc/server-rpc.ts
@@ -2,6 +2,7 @@ import type { Sink, Source } from 'it-stream-types'
 
 import type { CallData, CallStart } from './rpcproto.pb.js'
 import { CommonRPC } from './common-rpc.js'
+import { castToError } from './errors.js'
 import { InvokeFn } from './handler.js'
 import { LookupMethod } from './mux.js'
 
@@ -54,7 +55,7 @@ export class ServerRPC extends CommonRPC {
     try {
       await invokeFn(this.rpcDataSource, dataSink)
     } catch (err) {
-      this.close(err as Error)
+      this.close(castToError(err))
     }
   }
 
@@ -68,7 +69,7 @@ export class ServerRPC extends CommonRPC {
         await this.writeCallData(undefined, true)
         this.close()
       } catch (err) {
-        this.close(err as Error)
+        this.close(castToError(err))
       }
     }
   }
diff --git a/srpc/server.ts b/srpc/server.ts
index 319fad7..90c07e5 100644
--- a/srpc/server.ts
+++ b/srpc/server.ts
@@ -1,6 +1,6 @@
 import { pipe } from 'it-pipe'
 
-import { ERR_STREAM_CLOSED } from './errors.js'
+import { castToError, ERR_STREAM_CLOSED } from './errors.js'
 import { LookupMethod } from './mux.js'
 import { ServerRPC } from './server-rpc.js'
 import { decodePacketSource, encodePacketSource } from './packet.js'
@@ -23,7 +23,7 @@ export class Server implements StreamHandler {
     return async (stream: PacketStream) => {
       const rpc = this.startRpc()
       return pipe(stream, decodePacketSource, rpc, encodePacketSource, stream)
-        .catch((err: Error) => rpc.close(err))
+        .catch((err) => rpc.close(castToError(err)))
         .then(() => rpc.close(new Error(ERR_STREAM_CLOSED)))
     }
   }
@@ -39,7 +39,7 @@ export class Server implements StreamHandler {
   public handlePacketStream(stream: PacketStream): ServerRPC {
     const rpc = this.startRpc()
     pipe(stream, decodePacketSource, rpc, encodePacketSource, stream)
-      .catch((err: Error) => rpc.close(err))
+      .catch((err) => rpc.close(castToError(err)))
       .then(() => rpc.close(new Error(ERR_STREAM_CLOSED)))
     return rpc
   }
-- 
2.43.0

