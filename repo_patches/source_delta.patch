From 1016a28828504bdcdac80c3d46d2db2c03c73b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:23 +0000
Subject: [PATCH 01/26] fix: do not deliver an extra empty message when closing
 the send side

CloseSend marked its packet as carrying a zero-length message, so the remote
received a phantom empty message before the end of the stream.
---
 srpc/common-rpc.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srpc/common-rpc.go b/srpc/common-rpc.go
index 81afada..f019d15 100644
--- a/srpc/common-rpc.go
+++ b/srpc/common-rpc.go
@@ -121,7 +121,9 @@ func (c *commonRPC) ReadOne() ([]byte, error) {
 
 // WriteCallData writes a call data packet.
 func (c *commonRPC) WriteCallData(data []byte, complete bool, err error) error {
-	outPkt := NewCallDataPacket(data, len(data) == 0, complete, err)
+	// an empty message is a message: a completion without data is not.
+	dataIsZero := len(data) == 0 && !complete && err == nil
+	outPkt := NewCallDataPacket(data, dataIsZero, complete, err)
 	return c.writer.WritePacket(outPkt)
 }
 
-- 
2.43.0


From 03276b75bbc6e158805d72e47c22052da39bfc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:25 +0000
Subject: [PATCH 02/26] fix: tolerate a repeated completion after the send side
 was closed

A handler which closes its send side and then returns (i.e. SendAndClose)
completes the call twice: the second completion was handled as a protocol
error and failed the call with ErrCompleted.
---
 srpc/common-rpc.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/srpc/common-rpc.go b/srpc/common-rpc.go
index f019d15..d3fb81e 100644
--- a/srpc/common-rpc.go
+++ b/srpc/common-rpc.go
@@ -151,7 +151,11 @@ func (c *commonRPC) HandleCallData(pkt *CallData) error {
 	var err error
 	c.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
 		if c.dataClosed {
-			err = ErrCompleted
+			// the remote may signal completion again without sending any data.
+			// for example: CloseSend followed by the handler returning.
+			if len(pkt.GetData()) != 0 || (!pkt.GetComplete() && len(pkt.GetError()) == 0) {
+				err = ErrCompleted
+			}
 			return
 		}
 
-- 
2.43.0


From 9235f882c3b913cfd86f4bca9e5cb12a5502ff57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:28 +0000
Subject: [PATCH 03/26] fix: keep the outcome of a completed call when the
 stream closes later

A transport error, cancel or local close after the remote already completed
the call replaced the final status (io.EOF) with that later error.
---
 srpc/client-rpc.go | 3 ++-
 srpc/common-rpc.go | 8 +++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index 4271f70..eb5dcbe 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -70,7 +70,8 @@ func (r *ClientRPC) HandlePacketData(data []byte) error {
 // HandleStreamClose handles the stream closing optionally w/ an error.
 func (r *ClientRPC) HandleStreamClose(closeErr error) {
 	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
-		if closeErr != nil && r.remoteErr == nil {
+		// do not override the outcome if the stream was already completed.
+		if closeErr != nil && r.remoteErr == nil && !r.dataClosed {
 			r.remoteErr = closeErr
 		}
 		r.dataClosed = true
diff --git a/srpc/common-rpc.go b/srpc/common-rpc.go
index d3fb81e..d0ce5f3 100644
--- a/srpc/common-rpc.go
+++ b/srpc/common-rpc.go
@@ -130,7 +130,8 @@ func (c *commonRPC) WriteCallData(data []byte, complete bool, err error) error {
 // HandleStreamClose handles the incoming stream closing w/ optional error.
 func (c *commonRPC) HandleStreamClose(closeErr error) {
 	c.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
-		if closeErr != nil && c.remoteErr == nil {
+		// do not override the outcome if the stream was already completed.
+		if closeErr != nil && c.remoteErr == nil && !c.dataClosed {
 			c.remoteErr = closeErr
 		}
 		c.dataClosed = true
@@ -186,10 +187,11 @@ func (c *commonRPC) WriteCallCancel() error {
 
 // closeLocked releases resources held by the RPC.
 func (c *commonRPC) closeLocked(broadcast func()) {
-	c.dataClosed = true
-	if c.remoteErr == nil {
+	// do not override the outcome if the stream was already completed.
+	if c.remoteErr == nil && !c.dataClosed {
 		c.remoteErr = context.Canceled
 	}
+	c.dataClosed = true
 	_ = c.writer.Close()
 	broadcast()
 	c.ctxCancel()
-- 
2.43.0


From 4eff0d833a448cfab1fedabfecbcf99f33af8b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:31 +0000
Subject: [PATCH 04/26] fix: do not panic if the remote cancels a call before
 it was started

The client rpc has no writer until Start: a call cancel packet received
before then dereferenced the nil writer and crashed the process.
---
 srpc/common-rpc.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/srpc/common-rpc.go b/srpc/common-rpc.go
index d0ce5f3..24d77f8 100644
--- a/srpc/common-rpc.go
+++ b/srpc/common-rpc.go
@@ -136,7 +136,10 @@ func (c *commonRPC) HandleStreamClose(closeErr error) {
 		}
 		c.dataClosed = true
 		c.ctxCancel()
-		_ = c.writer.Close()
+		// the client writer is nil until the call is started.
+		if c.writer != nil {
+			_ = c.writer.Close()
+		}
 		broadcast()
 	})
 }
-- 
2.43.0


From 296343fab3988a5a0ab2206cd86996ea8e79bd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:34 +0000
Subject: [PATCH 05/26] fix: continue after the written bytes on a short packet
 write

---
 srpc/packet-rw.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/packet-rw.go b/srpc/packet-rw.go
index c848891..670f78f 100644
--- a/srpc/packet-rw.go
+++ b/srpc/packet-rw.go
@@ -59,7 +59,7 @@ func (r *PacketReadWriter) WritePacket(p *Packet) error {
 
 	var written, n int
 	for written < len(data) {
-		n, err = r.rw.Write(data)
+		n, err = r.rw.Write(data[written:])
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 6fff8eaf81486fc5f41116f890b88fb7a10db57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:37 +0000
Subject: [PATCH 06/26] fix: dial as the outbound side of the muxed connection

Dial used the inbound (server) role of the muxer, which is the role used by
Listen: every call over such a connection failed.
---
 srpc/net.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srpc/net.go b/srpc/net.go
index 3bfc3f5..589b580 100644
--- a/srpc/net.go
+++ b/srpc/net.go
@@ -11,8 +11,9 @@ func Dial(addr string) (Client, error) {
 	if err != nil {
 		return nil, err
 	}
-	muxedConn, err := NewMuxedConn(nconn, false, nil)
+	muxedConn, err := NewMuxedConn(nconn, true, nil)
 	if err != nil {
+		_ = nconn.Close()
 		return nil, err
 	}
 	return NewClientWithMuxedConn(muxedConn), nil
-- 
2.43.0


From 6bc4d9c0fb4dd5606aeafcea0b2a72a50af2f24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:56 +0000
Subject: [PATCH 07/26] fix: serve accepted connections concurrently

AcceptMuxedListener served each connection until it was closed before
accepting the next one: a second client could not make any call.
---
 srpc/accept.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/srpc/accept.go b/srpc/accept.go
index 9995073..b284fc1 100644
--- a/srpc/accept.go
+++ b/srpc/accept.go
@@ -24,9 +24,10 @@ func AcceptMuxedListener(ctx context.Context, lis net.Listener, srv *Server, yam
 			continue
 		}
 
-		if err := srv.AcceptMuxedConn(ctx, mc); err != nil {
-			_ = nc.Close()
-			continue
-		}
+		// serve the connection without blocking accepting further connections
+		go func() {
+			_ = srv.AcceptMuxedConn(ctx, mc)
+			_ = mc.Close()
+		}()
 	}
 }
-- 
2.43.0


From dfbf2842def483364b6d70082879823ca11398b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:59 +0000
Subject: [PATCH 08/26] fix: stop listening when Listen returns

The listener was left open (and accepting) if ctx was canceled or an error was
received on errCh.
---
 srpc/net.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srpc/net.go b/srpc/net.go
index 589b580..2700329 100644
--- a/srpc/net.go
+++ b/srpc/net.go
@@ -28,10 +28,11 @@ func Listen(ctx context.Context, addr string, srv *Server, errCh <-chan error) e
 		return err
 	}
 
+	defer lis.Close()
+
 	listenErrCh := make(chan error, 1)
 	go func() {
 		listenErrCh <- AcceptMuxedListener(ctx, lis, srv, nil)
-		_ = lis.Close()
 	}()
 
 	select {
-- 
2.43.0


From a056dd918334f6534e69c4465efea18e6bf906d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:24 +0000
Subject: [PATCH 09/26] fix: do not drop the rest of a packet on a short
 RwcConn read

RwcConn is a net.Conn (a byte stream): a Read with a buffer smaller than the
buffered packet returned io.ErrShortBuffer and dropped the remaining bytes. The
yamux muxer reads headers with small buffers, thus NewMuxedConnWithRwc did not
work at all.
---
 srpc/rwc-conn.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/srpc/rwc-conn.go b/srpc/rwc-conn.go
index 6737d4c..799ccbb 100644
--- a/srpc/rwc-conn.go
+++ b/srpc/rwc-conn.go
@@ -30,6 +30,9 @@ type RwcConn struct {
 	wd       time.Time   // write deadline
 	packetCh chan []byte // packet ch
 	closeErr error
+
+	remMtx sync.Mutex // guards rem
+	rem    []byte     // remainder of a partially read packet
 }
 
 // NewRwcConn constructs a new packet conn and starts the rx pump.
@@ -72,6 +75,15 @@ func (p *RwcConn) RemoteAddr() net.Addr {
 // Read can be made to time out and return an error after a fixed
 // time limit; see SetDeadline and SetReadDeadline.
 func (p *RwcConn) Read(b []byte) (n int, err error) {
+	// return the remainder of a partially read packet first, if any
+	p.remMtx.Lock()
+	n = copy(b, p.rem)
+	p.rem = p.rem[n:]
+	p.remMtx.Unlock()
+	if n != 0 {
+		return n, nil
+	}
+
 	deadline := p.rd
 	ctx := p.ctx
 	if !deadline.IsZero() {
@@ -98,13 +110,15 @@ func (p *RwcConn) Read(b []byte) (n int, err error) {
 		}
 	}
 
-	pl := len(pkt)
-	copy(b, pkt)
-	p.ar.Put(&pkt)
-	if len(b) < pl {
-		return len(b), io.ErrShortBuffer
+	n = copy(b, pkt)
+	if n < len(pkt) {
+		// keep the rest of the packet for the next read
+		p.remMtx.Lock()
+		p.rem = append(p.rem, pkt[n:]...)
+		p.remMtx.Unlock()
 	}
-	return pl, nil
+	p.ar.Put(&pkt)
+	return n, nil
 }
 
 // Write writes data to the connection.
-- 
2.43.0


From 82fa108ada53ba511fcfa8eaf05666850c29aa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:27 +0000
Subject: [PATCH 10/26] fix: stop the RwcConn read pump and blocked reads on
 Close

The read pump stayed blocked forever if the packet buffer was full when the
conn was closed.
---
 srpc/rwc-conn.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/srpc/rwc-conn.go b/srpc/rwc-conn.go
index 799ccbb..9c9e251 100644
--- a/srpc/rwc-conn.go
+++ b/srpc/rwc-conn.go
@@ -186,6 +186,7 @@ func (p *RwcConn) SetWriteDeadline(t time.Time) error {
 // Close closes the connection.
 // Any blocked ReadFrom or WriteTo operations will be unblocked and return errors.
 func (p *RwcConn) Close() error {
+	p.ctxCancel()
 	return p.rwc.Close()
 }
 
-- 
2.43.0


From 4e3bcf5acfc4b0a67a17fa558238984c6dd2ed7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:30 +0000
Subject: [PATCH 11/26] fix: report cancellation of a RwcConn as such if a
 deadline is set

---
 srpc/rwc-conn.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/srpc/rwc-conn.go b/srpc/rwc-conn.go
index 9c9e251..e48d897 100644
--- a/srpc/rwc-conn.go
+++ b/srpc/rwc-conn.go
@@ -96,10 +96,10 @@ func (p *RwcConn) Read(b []byte) (n int, err error) {
 	var ok bool
 	select {
 	case <-ctx.Done():
-		if !deadline.IsZero() {
-			return 0, os.ErrDeadlineExceeded
+		if p.ctx.Err() != nil {
+			return 0, context.Canceled
 		}
-		return 0, context.Canceled
+		return 0, os.ErrDeadlineExceeded
 	case pkt, ok = <-p.packetCh:
 		if !ok {
 			err = p.closeErr
-- 
2.43.0


From 5c85b62011543d51bfdc08b85302c63cb21047a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:56 +0000
Subject: [PATCH 12/26] fix: release the client stream when the remote ends it
 or ctx is canceled

The client closed its side of the stream only from Close or from a receive which
observed the canceled context: a call read until the end (or a nested rpcstream
call) leaked its muxer stream and read pump on both ends, and canceling the
context of a call that was not receiving was never noticed by the remote.
---
 srpc/client-rpc.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index eb5dcbe..bab86e8 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -36,6 +36,9 @@ func (r *ClientRPC) Start(writer PacketWriter, writeFirstMsg bool, firstMsg []by
 		return context.Canceled
 	}
 
+	// release the stream when the rpc ends: remote closed or context canceled.
+	context.AfterFunc(r.ctx, func() { _ = writer.Close() })
+
 	var firstMsgEmpty bool
 	var err error
 	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
@@ -48,6 +51,10 @@ func (r *ClientRPC) Start(writer PacketWriter, writeFirstMsg bool, firstMsg []by
 		pkt := NewCallStartPacket(r.service, r.method, firstMsg, firstMsgEmpty)
 		err = writer.WritePacket(pkt)
 		if err != nil {
+			if r.ctx.Err() != nil {
+				// the write was interrupted by the context
+				err = context.Canceled
+			}
 			r.ctxCancel()
 			_ = writer.Close()
 		}
-- 
2.43.0


From fc97454c2c9257e07c4a2ef2818f55b449bf9d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:59 +0000
Subject: [PATCH 13/26] fix: release the call context if the stream cannot be
 opened

---
 srpc/client-rpc.go | 2 ++
 srpc/client.go     | 1 +
 2 files changed, 3 insertions(+)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index bab86e8..5612851 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -121,6 +121,8 @@ func (r *ClientRPC) Close() {
 		if r.writer != nil {
 			_ = r.WriteCallCancel()
 			r.closeLocked(broadcast)
+		} else {
+			r.ctxCancel()
 		}
 	})
 }
diff --git a/srpc/client.go b/srpc/client.go
index 7d0262c..f0938ac 100644
--- a/srpc/client.go
+++ b/srpc/client.go
@@ -83,6 +83,7 @@ func (c *client) NewStream(ctx context.Context, service, method string, firstMsg
 	clientRPC := NewClientRPC(ctx, service, method)
 	writer, err := c.openStream(ctx, clientRPC.HandlePacketData, clientRPC.HandleStreamClose)
 	if err != nil {
+		clientRPC.Close()
 		return nil, err
 	}
 
-- 
2.43.0


From 1070cb2b4b09bf1ae9f6351c8f38ef38de9e262a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:02 +0000
Subject: [PATCH 14/26] fix: handle data returned with a read error and report
 a partial packet

Packets returned by the final Read along with an error other than io.EOF were
dropped, and a stream ending in the middle of a packet was handled as a clean
end of the stream.
---
 srpc/packet-rw.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/srpc/packet-rw.go b/srpc/packet-rw.go
index 670f78f..ab87393 100644
--- a/srpc/packet-rw.go
+++ b/srpc/packet-rw.go
@@ -85,21 +85,16 @@ func (r *PacketReadWriter) ReadPump(cb PacketDataHandler, closed CloseHandler) {
 func (r *PacketReadWriter) ReadToHandler(cb PacketDataHandler) error {
 	var currLen uint32
 	buf := make([]byte, 2048)
-	isOpen := true
+	var readErr error
 
-	for isOpen {
+	for readErr == nil {
 		// read some data into the buffer
-		n, err := r.rw.Read(buf)
-		if err != nil {
-			if err == io.EOF || err == context.Canceled {
-				isOpen = false
-			} else {
-				return err
-			}
-		}
+		// note: the reader may return data along with an error
+		var n int
+		n, readErr = r.rw.Read(buf)
 
 		// push the data to r.buf
-		_, err = r.buf.Write(buf[:n])
+		_, err := r.buf.Write(buf[:n])
 		if err != nil {
 			return err
 		}
@@ -137,7 +132,14 @@ func (r *PacketReadWriter) ReadToHandler(cb PacketDataHandler) error {
 	}
 
 	// closed
-	return nil
+	if readErr == io.EOF && r.buf.Len() != 0 {
+		// the stream ended in the middle of a packet
+		return io.ErrUnexpectedEOF
+	}
+	if readErr == io.EOF || readErr == context.Canceled {
+		return nil
+	}
+	return readErr
 }
 
 // Close closes the packet rw.
-- 
2.43.0


From a8bdc5c8bbc304d4d9d04591b84779fd29f08f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:20 +0000
Subject: [PATCH 15/26] fix: return an error from pipe stream sends after close

MsgSend after CloseSend or Close panicked (send on closed channel), and a send
blocked on the full buffer was not released if the other end was closed.
---
 srpc/stream-pipe.go | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/srpc/stream-pipe.go b/srpc/stream-pipe.go
index 7f55969..a15fe09 100644
--- a/srpc/stream-pipe.go
+++ b/srpc/stream-pipe.go
@@ -17,13 +17,15 @@ type pipeStream struct {
 	closeOnce sync.Once
 	// dataCh is the data channel
 	dataCh chan []byte
+	// sendClosed is closed when no more messages will be sent.
+	sendClosed chan struct{}
 }
 
 // NewPipeStream constructs a new in-memory stream.
 func NewPipeStream(ctx context.Context) (Stream, Stream) {
-	s1 := &pipeStream{dataCh: make(chan []byte, 5)}
+	s1 := &pipeStream{dataCh: make(chan []byte, 5), sendClosed: make(chan struct{})}
 	s1.ctx, s1.ctxCancel = context.WithCancel(ctx)
-	s2 := &pipeStream{other: s1, dataCh: make(chan []byte, 5)}
+	s2 := &pipeStream{other: s1, dataCh: make(chan []byte, 5), sendClosed: make(chan struct{})}
 	s2.ctx, s2.ctxCancel = context.WithCancel(ctx)
 	s1.other = s2
 	return s1, s2
@@ -41,8 +43,17 @@ func (p *pipeStream) MsgSend(msg Message) error {
 		return err
 	}
 	select {
+	case <-p.sendClosed:
+		return ErrCompleted
+	default:
+	}
+	select {
 	case <-p.ctx.Done():
 		return context.Canceled
+	case <-p.sendClosed:
+		return ErrCompleted
+	case <-p.other.ctx.Done():
+		return io.ErrClosedPipe
 	case p.other.dataCh <- data:
 		return nil
 	}
@@ -54,31 +65,36 @@ func (p *pipeStream) MsgRecv(msg Message) error {
 	select {
 	case <-p.ctx.Done():
 		return context.Canceled
-	case data, ok := <-p.dataCh:
-		if !ok {
+	case data := <-p.dataCh:
+		return msg.UnmarshalVT(data)
+	case <-p.other.sendClosed:
+		// receive the messages which were sent before closing
+		select {
+		case data := <-p.dataCh:
+			return msg.UnmarshalVT(data)
+		default:
 			return io.EOF
 		}
-		return msg.UnmarshalVT(data)
 	}
 }
 
 // CloseSend signals to the remote that we will no longer send any messages.
 func (p *pipeStream) CloseSend() error {
-	p.closeRemote()
+	p.closeSend()
 	return nil
 }
 
 // Close closes the stream.
 func (p *pipeStream) Close() error {
 	p.ctxCancel()
-	p.closeRemote()
+	p.closeSend()
 	return nil
 }
 
-// closeRemote closes the remote data channel.
-func (p *pipeStream) closeRemote() {
+// closeSend marks that no more messages will be sent.
+func (p *pipeStream) closeSend() {
 	p.closeOnce.Do(func() {
-		close(p.other.dataCh)
+		close(p.sendClosed)
 	})
 }
 
-- 
2.43.0


From 4fadf3f4fcc381bfa1cde577e4302c415b7d4193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:46 +0000
Subject: [PATCH 16/26] fix: do not report a stream cut off before its
 completion as io.EOF

If the stream ended without the remote completing the call (connection lost or
the caller canceled), the receiver got io.EOF as if the remote had finished
sending: a truncated message stream was indistinguishable from a complete one.
---
 srpc/client-rpc.go | 10 +++++++++-
 srpc/common-rpc.go |  6 +++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index 5612851..c1c34de 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -2,6 +2,7 @@ package srpc
 
 import (
 	"context"
+	"io"
 
 	"github.com/pkg/errors"
 )
@@ -78,7 +79,14 @@ func (r *ClientRPC) HandlePacketData(data []byte) error {
 func (r *ClientRPC) HandleStreamClose(closeErr error) {
 	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
 		// do not override the outcome if the stream was already completed.
-		if closeErr != nil && r.remoteErr == nil && !r.dataClosed {
+		if r.remoteErr == nil && !r.dataClosed {
+			// the remote did not complete the call: this is not a clean end of stream.
+			if r.ctx.Err() != nil {
+				// the stream was closed because the call was canceled
+				closeErr = context.Canceled
+			} else if closeErr == nil || closeErr == io.EOF {
+				closeErr = io.ErrUnexpectedEOF
+			}
 			r.remoteErr = closeErr
 		}
 		r.dataClosed = true
diff --git a/srpc/common-rpc.go b/srpc/common-rpc.go
index 24d77f8..6930c04 100644
--- a/srpc/common-rpc.go
+++ b/srpc/common-rpc.go
@@ -131,7 +131,11 @@ func (c *commonRPC) WriteCallData(data []byte, complete bool, err error) error {
 func (c *commonRPC) HandleStreamClose(closeErr error) {
 	c.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
 		// do not override the outcome if the stream was already completed.
-		if closeErr != nil && c.remoteErr == nil && !c.dataClosed {
+		if c.remoteErr == nil && !c.dataClosed {
+			// the remote did not complete the call: this is not a clean end of stream.
+			if closeErr == nil || closeErr == io.EOF {
+				closeErr = io.ErrUnexpectedEOF
+			}
 			c.remoteErr = closeErr
 		}
 		c.dataClosed = true
-- 
2.43.0


From dae6e94895df47efd415e7b063b40756b317d555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:28 +0000
Subject: [PATCH 17/26] fix: report a handler error with an empty message as an
 error

The completion packet of a call which failed with an error without any text was
indistinguishable from success.
---
 srpc/packet.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srpc/packet.go b/srpc/packet.go
index 94344a7..af26dfc 100644
--- a/srpc/packet.go
+++ b/srpc/packet.go
@@ -67,6 +67,10 @@ func NewCallDataPacket(data []byte, dataIsZero bool, complete bool, err error) *
 	var errStr string
 	if err != nil {
 		errStr = err.Error()
+		if errStr == "" {
+			// an empty error string indicates success
+			errStr = "unknown error"
+		}
 	}
 	return &Packet{Body: &Packet_CallData{
 		CallData: &CallData{
-- 
2.43.0


From 361ed3582e81d93b27a140640725ee68d617edac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:47 +0000
Subject: [PATCH 18/26] fix: refuse call data before the call start

---
 srpc/server-rpc.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/srpc/server-rpc.go b/srpc/server-rpc.go
index 2404c59..ac10bc6 100644
--- a/srpc/server-rpc.go
+++ b/srpc/server-rpc.go
@@ -86,6 +86,18 @@ func (r *ServerRPC) HandleCallStart(pkt *CallStart) error {
 	return err
 }
 
+// HandleCallData handles the call data packet.
+func (r *ServerRPC) HandleCallData(pkt *CallData) error {
+	var started bool
+	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
+		started = r.method != "" || r.service != ""
+	})
+	if !started {
+		return errors.New("call start must be sent before call data")
+	}
+	return r.commonRPC.HandleCallData(pkt)
+}
+
 // invokeRPC invokes the RPC after CallStart is received.
 func (r *ServerRPC) invokeRPC(serviceID, methodID string) {
 	// on the server side, the writer is closed by invokeRPC.
-- 
2.43.0


From 6d52a8f93cdfe46986166a75ff0626461e6b2efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:25 +0000
Subject: [PATCH 19/26] fix: do not acknowledge an rpc stream as opened if the
 error text is empty

---
 rpcstream/errors.go     | 13 +++++++++++++
 rpcstream/proxy.go      |  3 +--
 rpcstream/raw-stream.go |  6 +-----
 rpcstream/rpcstream.go  |  6 +-----
 4 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/rpcstream/errors.go b/rpcstream/errors.go
index 9b78738..1530698 100644
--- a/rpcstream/errors.go
+++ b/rpcstream/errors.go
@@ -8,3 +8,16 @@ var (
 	// ErrUnexpectedPacket is returned if the packet was unexpected.
 	ErrUnexpectedPacket = errors.New("unexpected rpcstream packet")
 )
+
+// ackErrorText returns the error text to acknowledge the stream with.
+//
+// An empty string indicates success, so an error has a non-empty text.
+func ackErrorText(err error) string {
+	if err == nil {
+		return ""
+	}
+	if errStr := err.Error(); errStr != "" {
+		return errStr
+	}
+	return "unknown error"
+}
diff --git a/rpcstream/proxy.go b/rpcstream/proxy.go
index 7d1c82e..53d91cb 100644
--- a/rpcstream/proxy.go
+++ b/rpcstream/proxy.go
@@ -67,10 +67,9 @@ func HandleProxyRpcStream[T RpcStream](stream RpcStream, getter RpcProxyGetter[T
 	// send ack, but only if we have an error
 	// otherwise: we will proxy the ack from the remote stream.
 	if err != nil {
-		errStr := err.Error()
 		_ = stream.Send(&RpcStreamPacket{
 			Body: &RpcStreamPacket_Ack{
-				Ack: &RpcAck{Error: errStr},
+				Ack: &RpcAck{Error: ackErrorText(err)},
 			},
 		})
 		return err
diff --git a/rpcstream/raw-stream.go b/rpcstream/raw-stream.go
index c72dc75..a2ae344 100644
--- a/rpcstream/raw-stream.go
+++ b/rpcstream/raw-stream.go
@@ -38,13 +38,9 @@ func HandleRawRpcStream(stream RpcStream, getter RpcRawGetter) error {
 	}
 
 	// send ack
-	var errStr string
-	if err != nil {
-		errStr = err.Error()
-	}
 	sendErr := stream.Send(&RpcStreamPacket{
 		Body: &RpcStreamPacket_Ack{
-			Ack: &RpcAck{Error: errStr},
+			Ack: &RpcAck{Error: ackErrorText(err)},
 		},
 	})
 	if err != nil {
diff --git a/rpcstream/rpcstream.go b/rpcstream/rpcstream.go
index 8838fc9..642559c 100644
--- a/rpcstream/rpcstream.go
+++ b/rpcstream/rpcstream.go
@@ -118,13 +118,9 @@ func HandleRpcStream(stream RpcStream, getter RpcStreamGetter) error {
 	}
 
 	// send ack
-	var errStr string
-	if err != nil {
-		errStr = err.Error()
-	}
 	sendErr := stream.Send(&RpcStreamPacket{
 		Body: &RpcStreamPacket_Ack{
-			Ack: &RpcAck{Error: errStr},
+			Ack: &RpcAck{Error: ackErrorText(err)},
 		},
 	})
 	if err != nil {
-- 
2.43.0


From b206d9a682e880baec61e97e5f715bab6a287331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:56 +0000
Subject: [PATCH 20/26] fix: closing the send side of a call the remote
 completed is not an error

---
 srpc/client-rpc.go | 14 ++++++++++++++
 srpc/common-rpc.go |  3 +++
 2 files changed, 17 insertions(+)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index c1c34de..9f8fcd7 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -122,6 +122,20 @@ func (r *ClientRPC) HandleCallStart(pkt *CallStart) error {
 	return errors.Wrap(ErrUnrecognizedPacket, "call start packet unexpected")
 }
 
+// WriteCallData writes a call data packet.
+func (r *ClientRPC) WriteCallData(data []byte, complete bool, err error) error {
+	werr := r.commonRPC.WriteCallData(data, complete, err)
+	if werr != nil && complete && len(data) == 0 {
+		r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
+			if r.completed {
+				// the remote already completed the call and does not wait for more data.
+				werr = nil
+			}
+		})
+	}
+	return werr
+}
+
 // Close releases any resources held by the ClientRPC.
 func (r *ClientRPC) Close() {
 	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
diff --git a/srpc/common-rpc.go b/srpc/common-rpc.go
index 6930c04..c723b3e 100644
--- a/srpc/common-rpc.go
+++ b/srpc/common-rpc.go
@@ -30,6 +30,8 @@ type commonRPC struct {
 	dataClosed bool
 	// remoteErr is an error set by the remote.
 	remoteErr error
+	// completed is a flag set after the remote signaled completion.
+	completed bool
 }
 
 // initCommonRPC initializes the commonRPC.
@@ -179,6 +181,7 @@ func (c *commonRPC) HandleCallData(pkt *CallData) error {
 
 		if complete {
 			c.dataClosed = true
+			c.completed = true
 		}
 
 		broadcast()
-- 
2.43.0


From a05ed3d596376f6fc171e9183300cedb22604505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:37 +0000
Subject: [PATCH 21/26] fix: a canceled caller whose call context is not
 canceled yet gets Canceled

---
 srpc/client-rpc.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index 9f8fcd7..35d54ef 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -10,6 +10,9 @@ import (
 // ClientRPC represents the client side of an on-going RPC call message stream.
 type ClientRPC struct {
 	commonRPC
+	// callerCtx is the context of the caller.
+	// canceled before ctx: the remote may notice in between.
+	callerCtx context.Context
 }
 
 // NewClientRPC constructs a new ClientRPC session and writes CallStart.
@@ -17,7 +20,7 @@ type ClientRPC struct {
 // service and method must be specified.
 // must call Start after creating the RPC object.
 func NewClientRPC(ctx context.Context, service, method string) *ClientRPC {
-	rpc := &ClientRPC{}
+	rpc := &ClientRPC{callerCtx: ctx}
 	initCommonRPC(ctx, &rpc.commonRPC)
 	rpc.service = service
 	rpc.method = method
@@ -81,7 +84,7 @@ func (r *ClientRPC) HandleStreamClose(closeErr error) {
 		// do not override the outcome if the stream was already completed.
 		if r.remoteErr == nil && !r.dataClosed {
 			// the remote did not complete the call: this is not a clean end of stream.
-			if r.ctx.Err() != nil {
+			if r.ctx.Err() != nil || r.callerCtx.Err() != nil {
 				// the stream was closed because the call was canceled
 				closeErr = context.Canceled
 			} else if closeErr == nil || closeErr == io.EOF {
-- 
2.43.0


From 6937e44b923b429a6fe4cb8e4515e82f9d884e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:14 +0000
Subject: [PATCH 22/26] fix: forward what the other side of a proxied stream
 sent before it ended

---
 rpcstream/proxy.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/rpcstream/proxy.go b/rpcstream/proxy.go
index 53d91cb..a9704e4 100644
--- a/rpcstream/proxy.go
+++ b/rpcstream/proxy.go
@@ -93,19 +93,22 @@ func HandleProxyRpcStream[T RpcStream](stream RpcStream, getter RpcProxyGetter[T
 func copyRpcStreamTo(s1, s2 RpcStream, errCh chan error) {
 	rerr := func() error {
 		pkt := srpc.NewRawMessage(nil, true)
+		var sendErr error
 		for {
 			err := s1.MsgRecv(pkt)
 			if err != nil {
+				if sendErr != nil {
+					return sendErr
+				}
 				return err
 			}
-			if len(pkt.GetData()) == 0 {
+			// if s2 does not accept packets anymore it has ended: discard the rest.
+			// the other direction copies what s2 sent until then & closes both.
+			if len(pkt.GetData()) == 0 || sendErr != nil {
 				continue
 			}
-			err = s2.MsgSend(pkt)
+			sendErr = s2.MsgSend(pkt)
 			pkt.Clear()
-			if err != nil {
-				return err
-			}
 		}
 	}()
 
-- 
2.43.0


From d37b5e7971d540fdb3822d2e4548f882d9f659b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 23/26] fix: a canceled open does not leave a stream behind in
 the connection

---
 srpc/muxed-conn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srpc/muxed-conn.go b/srpc/muxed-conn.go
index 0968e3c..0ffa589 100644
--- a/srpc/muxed-conn.go
+++ b/srpc/muxed-conn.go
@@ -73,6 +73,10 @@ func NewClientWithMuxedConn(conn network.MuxedConn) Client {
 // NewOpenStreamWithMuxedConn constructs a OpenStream func with a MuxedConn.
 func NewOpenStreamWithMuxedConn(conn network.MuxedConn) OpenStreamFunc {
 	return func(ctx context.Context, msgHandler PacketDataHandler, closeHandler CloseHandler) (PacketWriter, error) {
+		if ctx.Err() != nil {
+			// do not start opening a stream which would be abandoned (and leaked by yamux).
+			return nil, context.Canceled
+		}
 		mstrm, err := conn.OpenStream(ctx)
 		if err != nil {
 			// If the error is a timeout, context may be canceled.
-- 
2.43.0


From d6951d9e278a9ee75faceeff52f6faace5a95c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:39 +0000
Subject: [PATCH 24/26] fix: RwcConn: apply changed read deadlines to pending
 reads

---
 srpc/rwc-conn.go | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/srpc/rwc-conn.go b/srpc/rwc-conn.go
index e48d897..5a92a14 100644
--- a/srpc/rwc-conn.go
+++ b/srpc/rwc-conn.go
@@ -2,6 +2,7 @@ package srpc
 
 import (
 	"context"
+	"errors"
 	"io"
 	"net"
 	"os"
@@ -26,15 +27,21 @@ type RwcConn struct {
 	raddr net.Addr
 
 	ar       sync.Pool   // packet arena
-	rd       time.Time   // read deadline
-	wd       time.Time   // write deadline
 	packetCh chan []byte // packet ch
 	closeErr error
 
 	remMtx sync.Mutex // guards rem
 	rem    []byte     // remainder of a partially read packet
+
+	dlMtx     sync.Mutex    // guards below fields
+	rd        time.Time     // read deadline
+	rdChanged chan struct{} // closed when rd is changed
+	wd        time.Time     // write deadline
 }
 
+// errReadDeadlineChanged is returned by read if the deadline was changed while waiting.
+var errReadDeadlineChanged = errors.New("read deadline changed")
+
 // NewRwcConn constructs a new packet conn and starts the rx pump.
 func NewRwcConn(
 	ctx context.Context,
@@ -54,6 +61,7 @@ func NewRwcConn(
 		laddr:     laddr,
 		raddr:     raddr,
 		packetCh:  make(chan []byte, bufferPacketN),
+		rdChanged: make(chan struct{}),
 	}
 	go func() {
 		_ = c.rxPump()
@@ -75,6 +83,16 @@ func (p *RwcConn) RemoteAddr() net.Addr {
 // Read can be made to time out and return an error after a fixed
 // time limit; see SetDeadline and SetReadDeadline.
 func (p *RwcConn) Read(b []byte) (n int, err error) {
+	for {
+		n, err = p.read(b)
+		if err != errReadDeadlineChanged {
+			return n, err
+		}
+	}
+}
+
+// read reads data from the connection with the current read deadline.
+func (p *RwcConn) read(b []byte) (n int, err error) {
 	// return the remainder of a partially read packet first, if any
 	p.remMtx.Lock()
 	n = copy(b, p.rem)
@@ -84,7 +102,9 @@ func (p *RwcConn) Read(b []byte) (n int, err error) {
 		return n, nil
 	}
 
-	deadline := p.rd
+	p.dlMtx.Lock()
+	deadline, deadlineChanged := p.rd, p.rdChanged
+	p.dlMtx.Unlock()
 	ctx := p.ctx
 	if !deadline.IsZero() {
 		var ctxCancel context.CancelFunc
@@ -95,6 +115,8 @@ func (p *RwcConn) Read(b []byte) (n int, err error) {
 	var pkt []byte
 	var ok bool
 	select {
+	case <-deadlineChanged:
+		return 0, errReadDeadlineChanged
 	case <-ctx.Done():
 		if p.ctx.Err() != nil {
 			return 0, context.Canceled
@@ -160,8 +182,8 @@ func (p *RwcConn) Write(pkt []byte) (n int, err error) {
 //
 // A zero value for t means I/O operations will not time out.
 func (p *RwcConn) SetDeadline(t time.Time) error {
-	p.rd = t
-	p.wd = t
+	_ = p.SetReadDeadline(t)
+	_ = p.SetWriteDeadline(t)
 	return nil
 }
 
@@ -169,7 +191,11 @@ func (p *RwcConn) SetDeadline(t time.Time) error {
 // and any currently-blocked ReadFrom call.
 // A zero value for t means ReadFrom will not time out.
 func (p *RwcConn) SetReadDeadline(t time.Time) error {
+	p.dlMtx.Lock()
 	p.rd = t
+	close(p.rdChanged)
+	p.rdChanged = make(chan struct{})
+	p.dlMtx.Unlock()
 	return nil
 }
 
@@ -179,7 +205,9 @@ func (p *RwcConn) SetReadDeadline(t time.Time) error {
 // some of the data was successfully written.
 // A zero value for t means WriteTo will not time out.
 func (p *RwcConn) SetWriteDeadline(t time.Time) error {
+	p.dlMtx.Lock()
 	p.wd = t
+	p.dlMtx.Unlock()
 	return nil
 }
 
-- 
2.43.0


From b9f954db95c3b105cb6a70b5a6c5bdcb04d992ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:20 +0000
Subject: [PATCH 25/26] fix: proxy to a component which has no release function

---
 rpcstream/proxy.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpcstream/proxy.go b/rpcstream/proxy.go
index a9704e4..3b8bb49 100644
--- a/rpcstream/proxy.go
+++ b/rpcstream/proxy.go
@@ -38,7 +38,8 @@ func HandleProxyRpcStream[T RpcStream](stream RpcStream, getter RpcProxyGetter[T
 	remoteCaller, remoteComponentID, remoteCallerRel, err := getter(ctx, componentID)
 	if remoteCallerRel != nil {
 		defer remoteCallerRel()
-	} else if err == nil {
+	}
+	if err == nil && remoteCaller == nil {
 		err = ErrNoServerForComponent
 	}
 
-- 
2.43.0


From 3394e0068edcb05f05343803a4150d90a5af2cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:00 +0000
Subject: [PATCH 26/26] fix: RwcConn: keep the order of bytes with concurrent
 reads and writes

---
 srpc/rwc-conn.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/srpc/rwc-conn.go b/srpc/rwc-conn.go
index 5a92a14..1befc54 100644
--- a/srpc/rwc-conn.go
+++ b/srpc/rwc-conn.go
@@ -30,8 +30,9 @@ type RwcConn struct {
 	packetCh chan []byte // packet ch
 	closeErr error
 
-	remMtx sync.Mutex // guards rem
-	rem    []byte     // remainder of a partially read packet
+	readSem  chan struct{} // held while reading, guards rem
+	rem      []byte        // remainder of a partially read packet
+	writeSem chan struct{} // held while writing
 
 	dlMtx     sync.Mutex    // guards below fields
 	rd        time.Time     // read deadline
@@ -61,6 +62,8 @@ func NewRwcConn(
 		laddr:     laddr,
 		raddr:     raddr,
 		packetCh:  make(chan []byte, bufferPacketN),
+		readSem:   make(chan struct{}, 1),
+		writeSem:  make(chan struct{}, 1),
 		rdChanged: make(chan struct{}),
 	}
 	go func() {
@@ -83,6 +86,8 @@ func (p *RwcConn) RemoteAddr() net.Addr {
 // Read can be made to time out and return an error after a fixed
 // time limit; see SetDeadline and SetReadDeadline.
 func (p *RwcConn) Read(b []byte) (n int, err error) {
+	p.readSem <- struct{}{}
+	defer func() { <-p.readSem }()
 	for {
 		n, err = p.read(b)
 		if err != errReadDeadlineChanged {
@@ -94,10 +99,8 @@ func (p *RwcConn) Read(b []byte) (n int, err error) {
 // read reads data from the connection with the current read deadline.
 func (p *RwcConn) read(b []byte) (n int, err error) {
 	// return the remainder of a partially read packet first, if any
-	p.remMtx.Lock()
 	n = copy(b, p.rem)
 	p.rem = p.rem[n:]
-	p.remMtx.Unlock()
 	if n != 0 {
 		return n, nil
 	}
@@ -135,9 +138,7 @@ func (p *RwcConn) read(b []byte) (n int, err error) {
 	n = copy(b, pkt)
 	if n < len(pkt) {
 		// keep the rest of the packet for the next read
-		p.remMtx.Lock()
 		p.rem = append(p.rem, pkt[n:]...)
-		p.remMtx.Unlock()
 	}
 	p.ar.Put(&pkt)
 	return n, nil
@@ -149,6 +150,8 @@ func (p *RwcConn) Write(pkt []byte) (n int, err error) {
 		return 0, nil
 	}
 
+	p.writeSem <- struct{}{}
+	defer func() { <-p.writeSem }()
 	written := 0
 	for written < len(pkt) {
 		n, err = p.rwc.Write(pkt[written:])
-- 
2.43.0

