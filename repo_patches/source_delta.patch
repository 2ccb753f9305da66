From a6ab2f0e240b2ee057811dbdca58e70eb5e213d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:42 +0000
Subject: [PATCH 01/37] fix: keep a worker running after one of its handlers
 returned an error

---
 node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node.go b/node.go
index 634410e..64f6d65 100644
--- a/node.go
+++ b/node.go
@@ -189,7 +189,7 @@ func (n *Node) Listen() error {
 						ctx.client.reportError(err)
 						ctx.client.close()
 
-						return
+						break
 					}
 				}
 			}
-- 
2.43.0


From 9565cec779b110580117c4ab8b841a5e0a7c65d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:43 +0000
Subject: [PATCH 02/37] fix: refuse a second response to a request whichever
 copy of its context sends it

---
 client.go | 3 ++-
 msg.go    | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 85f9b9c..20ff964 100644
--- a/client.go
+++ b/client.go
@@ -9,6 +9,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"go.uber.org/atomic"
 	"go.uber.org/zap"
 	"io"
 	"net"
@@ -545,7 +546,7 @@ func (c *Client) recvLoop() {
 			continue
 		}
 
-		c.node.work <- HandlerContext{client: c, msg: msg}
+		c.node.work <- HandlerContext{client: c, msg: msg, sent: atomic.NewBool(false)}
 
 		for _, protocol := range c.node.protocols {
 			if protocol.OnMessageRecv == nil {
diff --git a/msg.go b/msg.go
index 7d25d28..0d64eed 100644
--- a/msg.go
+++ b/msg.go
@@ -37,7 +37,7 @@ func unmarshalMessage(data []byte) (message, error) {
 type HandlerContext struct {
 	client *Client
 	msg    message
-	sent   atomic.Bool
+	sent   *atomic.Bool // Shared by all copies of this context.
 }
 
 // ID returns the ID of the inbound/outbound peer that sent you the data that is currently being handled.
-- 
2.43.0


From 5f0d2e809ecc7335291066efec760c48c2a8695e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:44 +0000
Subject: [PATCH 03/37] fix: marshal the host of an ID given as a 4-byte IPv4
 address

---
 id.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/id.go b/id.go
index b3c0afa..82f36ee 100644
--- a/id.go
+++ b/id.go
@@ -53,7 +53,7 @@ func (e ID) Marshal() []byte {
 	buf := make([]byte, e.Size())
 
 	copy(buf[:len(e.ID)], e.ID[:])
-	copy(buf[len(e.ID):len(e.ID)+net.IPv6len], e.Host)
+	copy(buf[len(e.ID):len(e.ID)+net.IPv6len], e.Host.To16())
 	binary.BigEndian.PutUint16(buf[len(e.ID)+net.IPv6len:len(e.ID)+net.IPv6len+2], e.Port)
 
 	return buf
-- 
2.43.0


From b59b37add3c1825c08e18fcee76c6875e06d609a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:45 +0000
Subject: [PATCH 04/37] fix: receive messages of any size when the size limit
 is disabled

---
 client.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/client.go b/client.go
index 20ff964..b99d4c6 100644
--- a/client.go
+++ b/client.go
@@ -2,6 +2,7 @@ package noise
 
 import (
 	"bufio"
+	"bytes"
 	"context"
 	"crypto/aes"
 	"crypto/cipher"
@@ -297,15 +298,31 @@ func (c *Client) read() ([]byte, error) {
 		return nil, fmt.Errorf("got %d bytes, but limit is set to %d: %w", size, c.node.maxRecvMessageSize, ErrMessageTooLarge)
 	}
 
-	if _, err := io.ReadFull(c.reader, c.readerBuf[4:size+4]); err != nil {
-		return nil, err
+	var frame []byte
+
+	if c.node.maxRecvMessageSize > 0 {
+		frame = c.readerBuf[4 : size+4]
+
+		if _, err := io.ReadFull(c.reader, frame); err != nil {
+			return nil, err
+		}
+	} else {
+		// There is no limit. Only allocate memory for what has actually been received.
+
+		var data bytes.Buffer
+
+		if _, err := io.CopyN(&data, c.reader, int64(size)); err != nil {
+			return nil, err
+		}
+
+		frame = data.Bytes()
 	}
 
 	if c.suite == nil {
-		return c.readerBuf[4 : size+4], nil
+		return frame, nil
 	}
 
-	buf, err := decryptAEAD(c.suite, c.readerBuf[4:size+4])
+	buf, err := decryptAEAD(c.suite, frame)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 434208e5e63a271cf97c89b788b707431974c1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:46 +0000
Subject: [PATCH 05/37] fix: drop an outbound connection whose handshake failed

---
 client.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client.go b/client.go
index b99d4c6..56ab205 100644
--- a/client.go
+++ b/client.go
@@ -233,6 +233,13 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 
 	c.handshake()
 
+	if c.Error() != nil {
+		c.close()
+		close(c.writerDone)
+		close(c.readerDone)
+		return
+	}
+
 	go c.writeLoop()
 	c.recvLoop()
 	c.close()
-- 
2.43.0


From 73724f38a5f2127c89736af7abf049c0396f7938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:22 +0000
Subject: [PATCH 06/37] fix: fail the requests waiting on a connection once it
 is closed

---
 client.go |  2 ++
 map.go    | 14 ++++++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 56ab205..ac9fb0e 100644
--- a/client.go
+++ b/client.go
@@ -196,6 +196,8 @@ func (c *Client) close() {
 		if c.conn != nil {
 			c.conn.Close()
 		}
+
+		c.requests.close()
 	})
 }
 
diff --git a/map.go b/map.go
index 58c9c12..4fe6033 100644
--- a/map.go
+++ b/map.go
@@ -3,6 +3,7 @@ package noise
 import (
 	"container/list"
 	"errors"
+	"io"
 	"math"
 	"sync"
 )
@@ -100,6 +101,7 @@ type requestMap struct {
 	sync.Mutex
 	entries map[uint64]chan message
 	nonce   uint64
+	closed  bool
 }
 
 func newRequestMap() *requestMap {
@@ -110,6 +112,10 @@ func (r *requestMap) nextNonce() (<-chan message, uint64, error) {
 	r.Lock()
 	defer r.Unlock()
 
+	if r.closed {
+		return nil, 0, io.EOF
+	}
+
 	if r.nonce == math.MaxUint64 {
 		r.nonce = 0
 	}
@@ -131,8 +137,10 @@ func (r *requestMap) markRequestFailed(nonce uint64) {
 	r.Lock()
 	defer r.Unlock()
 
-	close(r.entries[nonce])
-	delete(r.entries, nonce)
+	if ch, exists := r.entries[nonce]; exists {
+		close(ch)
+		delete(r.entries, nonce)
+	}
 }
 
 func (r *requestMap) findRequest(nonce uint64) chan<- message {
@@ -151,6 +159,8 @@ func (r *requestMap) close() {
 	r.Lock()
 	defer r.Unlock()
 
+	r.closed = true
+
 	for nonce := range r.entries {
 		close(r.entries[nonce])
 		delete(r.entries, nonce)
-- 
2.43.0


From fbda52f79221faacf8ab2f685f99ccae8a7784d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:23 +0000
Subject: [PATCH 07/37] fix: report an error from sending on a closed
 connection, and close it when writing fails

---
 client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index ac9fb0e..69df3b6 100644
--- a/client.go
+++ b/client.go
@@ -366,9 +366,14 @@ func (c *Client) write(data []byte) error {
 
 func (c *Client) send(nonce uint64, data []byte) error {
 	c.writerCond.L.Lock()
+	defer c.writerCond.L.Unlock()
+
+	if c.writerClosed {
+		return io.ErrClosedPipe
+	}
+
 	c.writerBuf = append(c.writerBuf, message{nonce: nonce, data: data})
 	c.writerCond.Signal()
-	c.writerCond.L.Unlock()
 
 	return nil
 }
@@ -585,6 +590,7 @@ func (c *Client) recvLoop() {
 }
 
 func (c *Client) writeLoop() {
+	defer c.close()
 	defer close(c.writerDone)
 
 	header := make([]byte, 4)
-- 
2.43.0


From 96551b6398c8dca978aa79a869f04288bc80cf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:24 +0000
Subject: [PATCH 08/37] fix: close the connection of a client that was closed
 before it got connected

---
 client.go | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/client.go b/client.go
index 69df3b6..43df7c1 100644
--- a/client.go
+++ b/client.go
@@ -191,16 +191,35 @@ func (c *Client) close() {
 		c.writerCond.L.Lock()
 		c.writerClosed = true
 		c.writerCond.Signal()
+		conn := c.conn
 		c.writerCond.L.Unlock()
 
-		if c.conn != nil {
-			c.conn.Close()
+		if conn != nil {
+			conn.Close()
 		}
 
 		c.requests.close()
 	})
 }
 
+// open associates conn to this client. It closes conn and returns false should this client already have been closed.
+func (c *Client) open(conn net.Conn) bool {
+	c.reader = bufio.NewReader(conn)
+	c.writer = bufio.NewWriter(conn)
+
+	c.writerCond.L.Lock()
+	c.conn = conn
+	closed := c.writerClosed
+	c.writerCond.L.Unlock()
+
+	if closed {
+		conn.Close()
+		c.reportError(io.ErrClosedPipe)
+	}
+
+	return !closed
+}
+
 func (c *Client) waitUntilReady() {
 	<-c.ready
 }
@@ -223,16 +242,15 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 	conn, err := dialer.DialContext(ctx, "tcp", addr)
 	if err != nil {
 		c.reportError(err)
+	}
+
+	if err != nil || !c.open(conn) {
 		close(c.ready)
 		close(c.writerDone)
 		close(c.readerDone)
 		return
 	}
 
-	c.reader = bufio.NewReader(conn)
-	c.writer = bufio.NewWriter(conn)
-	c.conn = conn
-
 	c.handshake()
 
 	if c.Error() != nil {
@@ -266,14 +284,19 @@ func (c *Client) inbound(conn net.Conn, addr string) {
 		close(c.clientDone)
 	}()
 
-	c.reader = bufio.NewReader(conn)
-	c.writer = bufio.NewWriter(conn)
-	c.conn = conn
+	if !c.open(conn) {
+		close(c.ready)
+		close(c.writerDone)
+		close(c.readerDone)
+		return
+	}
 
 	c.handshake()
 
 	if c.Error() != nil {
 		c.close()
+		close(c.writerDone)
+		close(c.readerDone)
 		return
 	}
 
-- 
2.43.0


From 7ed1939b3ba53354fcec3820b4aecbf6ab9e034d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:24 +0000
Subject: [PATCH 09/37] fix: evict a pooled connection without deadlocking, and
 never remove its successor

---
 client.go | 4 ++--
 map.go    | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/client.go b/client.go
index 43df7c1..8f09557 100644
--- a/client.go
+++ b/client.go
@@ -233,7 +233,7 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 	c.side = clientSideInbound
 
 	defer func() {
-		c.node.outbound.remove(addr)
+		c.node.outbound.remove(addr, c)
 		close(c.clientDone)
 	}()
 
@@ -280,7 +280,7 @@ func (c *Client) inbound(conn net.Conn, addr string) {
 	c.side = clientSideOutbound
 
 	defer func() {
-		c.node.inbound.remove(addr)
+		c.node.inbound.remove(addr, c)
 		close(c.clientDone)
 	}()
 
diff --git a/map.go b/map.go
index 4fe6033..dc2091d 100644
--- a/map.go
+++ b/map.go
@@ -42,8 +42,8 @@ func (c *clientMap) get(n *Node, addr string) (*Client, bool) {
 			e := c.entries[evicted]
 			delete(c.entries, evicted)
 
+			// Do not wait for the evicted client to be done while holding the lock, which it needs to get done.
 			e.client.close()
-			e.client.waitUntilClosed()
 		}
 
 		entry.el = c.order.PushFront(addr)
@@ -57,12 +57,12 @@ func (c *clientMap) get(n *Node, addr string) (*Client, bool) {
 	return entry.client, exists
 }
 
-func (c *clientMap) remove(addr string) {
+func (c *clientMap) remove(addr string, client *Client) {
 	c.Lock()
 	defer c.Unlock()
 
 	entry, exists := c.entries[addr]
-	if !exists {
+	if !exists || entry.client != client {
 		return
 	}
 
-- 
2.43.0


From 2bbe9d6f25ddb75d5d56c2b9276b5801d993169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:25 +0000
Subject: [PATCH 10/37] fix: serve an inbound connection whose remote address
 is still pooled

---
 node.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/node.go b/node.go
index 64f6d65..101cc52 100644
--- a/node.go
+++ b/node.go
@@ -226,9 +226,15 @@ func (n *Node) Listen() error {
 			addr := conn.RemoteAddr().String()
 
 			client, exists := n.inbound.get(n, addr)
-			if !exists {
-				go client.inbound(conn, addr)
+			if exists {
+				// A connection from the very same address is still pooled, hence must be dead.
+				client.close()
+				n.inbound.remove(addr, client)
+
+				client, _ = n.inbound.get(n, addr)
 			}
+
+			go client.inbound(conn, addr)
 		}
 	}()
 
-- 
2.43.0


From 1980fb73b27907dad2d5535e6f89d49a6555dc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:32 +0000
Subject: [PATCH 11/37] fix: do not let a caller that gives up on a shared
 connection fail others, close it, or block

---
 client.go | 19 +++++++++++++++----
 map.go    | 29 +++++++++++++++++++++++++++++
 node.go   | 29 ++++++++++++++---------------
 3 files changed, 58 insertions(+), 19 deletions(-)

diff --git a/client.go b/client.go
index 8f09557..0a3084c 100644
--- a/client.go
+++ b/client.go
@@ -85,6 +85,14 @@ type Client struct {
 	}
 
 	closeOnce sync.Once
+
+	// ctx is done once this client was closed.
+	ctx    context.Context
+	cancel context.CancelFunc
+
+	// waiting is the number of callers that wait for this client to get ready. It is guarded by the lock of the pool
+	// this client is in.
+	waiting int
 }
 
 func newClient(node *Node) *Client {
@@ -104,6 +112,8 @@ func newClient(node *Node) *Client {
 
 	c.writerCond.L = &sync.Mutex{}
 
+	c.ctx, c.cancel = context.WithCancel(context.Background())
+
 	c.SetLogger(node.logger)
 
 	return c
@@ -194,6 +204,8 @@ func (c *Client) close() {
 		conn := c.conn
 		c.writerCond.L.Unlock()
 
+		c.cancel()
+
 		if conn != nil {
 			conn.Close()
 		}
@@ -228,8 +240,7 @@ func (c *Client) waitUntilClosed() {
 	<-c.clientDone
 }
 
-func (c *Client) outbound(ctx context.Context, addr string) {
-	c.addr = addr
+func (c *Client) outbound(addr string) {
 	c.side = clientSideInbound
 
 	defer func() {
@@ -239,9 +250,10 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 
 	var dialer net.Dialer
 
-	conn, err := dialer.DialContext(ctx, "tcp", addr)
+	conn, err := dialer.DialContext(c.ctx, "tcp", addr)
 	if err != nil {
 		c.reportError(err)
+		c.close()
 	}
 
 	if err != nil || !c.open(conn) {
@@ -276,7 +288,6 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 }
 
 func (c *Client) inbound(conn net.Conn, addr string) {
-	c.addr = addr
 	c.side = clientSideOutbound
 
 	defer func() {
diff --git a/map.go b/map.go
index dc2091d..539d8e3 100644
--- a/map.go
+++ b/map.go
@@ -48,15 +48,44 @@ func (c *clientMap) get(n *Node, addr string) (*Client, bool) {
 
 		entry.el = c.order.PushFront(addr)
 		entry.client = newClient(n)
+		entry.client.addr = addr
 
 		c.entries[addr] = entry
 	} else {
 		c.order.MoveToFront(entry.el)
 	}
 
+	entry.client.waiting++
+
 	return entry.client, exists
 }
 
+// leave is called once for every client returned by get when its caller no longer waits for it to get ready. Should
+// the caller have given up while nobody else waits for a client that is not ready, the client is closed.
+func (c *clientMap) leave(client *Client, gaveUp bool) {
+	c.Lock()
+	defer c.Unlock()
+
+	client.waiting--
+
+	if !gaveUp || client.waiting > 0 {
+		return
+	}
+
+	select {
+	case <-client.ready:
+		return
+	default:
+	}
+
+	if entry, exists := c.entries[client.addr]; exists && entry.client == client {
+		c.order.Remove(entry.el)
+		delete(c.entries, client.addr)
+	}
+
+	client.close()
+}
+
 func (c *clientMap) remove(addr string, client *Client) {
 	c.Lock()
 	defer c.Unlock()
diff --git a/node.go b/node.go
index 101cc52..4f7439b 100644
--- a/node.go
+++ b/node.go
@@ -396,15 +396,16 @@ func (n *Node) Close() error {
 func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error) {
 	var err error
 
-	for i := uint(0); i < n.maxDialAttempts; i++ {
+	for i := uint(0); i < n.maxDialAttempts && ctx.Err() == nil; i++ {
 		client, exists := n.outbound.get(n, addr)
 		if !exists {
-			go client.outbound(ctx, addr)
+			go client.outbound(addr)
 		}
 
 		select {
 		case <-ctx.Done():
-			err = fmt.Errorf("failed to dial peer: %w", ctx.Err())
+			n.outbound.leave(client, true)
+			continue
 		case <-client.ready:
 			err = client.Error()
 		case <-client.readerDone:
@@ -413,27 +414,25 @@ func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error
 			err = client.Error()
 		}
 
+		n.outbound.leave(client, false)
+
 		if err == nil {
 			return client, nil
 		}
 
 		client.close()
-		client.waitUntilClosed()
-
-		if errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded) {
-			for _, protocol := range n.protocols {
-				if protocol.OnPingFailed == nil {
-					continue
-				}
-
-				protocol.OnPingFailed(addr, err)
-			}
 
-			return nil, err
+		select {
+		case <-ctx.Done():
+		case <-client.clientDone:
 		}
 	}
 
-	err = fmt.Errorf("attempted to dial %s several times but failed: %w", addr, err)
+	if ctx.Err() != nil {
+		err = fmt.Errorf("failed to dial peer: %w", ctx.Err())
+	} else {
+		err = fmt.Errorf("attempted to dial %s several times but failed: %w", addr, err)
+	}
 
 	for _, protocol := range n.protocols {
 		if protocol.OnPingFailed == nil {
-- 
2.43.0


From 31c8800affb74c3e10a30892312f68e3b2c1b7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:33 +0000
Subject: [PATCH 12/37] fix: stop waiting for a worker once the connection is
 closed

---
 client.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 0a3084c..a0e70c6 100644
--- a/client.go
+++ b/client.go
@@ -611,7 +611,12 @@ func (c *Client) recvLoop() {
 			continue
 		}
 
-		c.node.work <- HandlerContext{client: c, msg: msg, sent: atomic.NewBool(false)}
+		select {
+		case c.node.work <- HandlerContext{client: c, msg: msg, sent: atomic.NewBool(false)}:
+		case <-c.ctx.Done():
+			c.reportError(io.ErrClosedPipe)
+			return
+		}
 
 		for _, protocol := range c.node.protocols {
 			if protocol.OnMessageRecv == nil {
-- 
2.43.0


From 32b7f972e116ae1272b41dd4eafda9cf55fc39c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:34 +0000
Subject: [PATCH 13/37] fix: notify protocols of responses that are received

---
 client.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/client.go b/client.go
index a0e70c6..8d24eaa 100644
--- a/client.go
+++ b/client.go
@@ -607,15 +607,13 @@ func (c *Client) recvLoop() {
 		if ch := c.requests.findRequest(msg.nonce); ch != nil {
 			ch <- msg
 			close(ch)
-
-			continue
-		}
-
-		select {
-		case c.node.work <- HandlerContext{client: c, msg: msg, sent: atomic.NewBool(false)}:
-		case <-c.ctx.Done():
-			c.reportError(io.ErrClosedPipe)
-			return
+		} else {
+			select {
+			case c.node.work <- HandlerContext{client: c, msg: msg, sent: atomic.NewBool(false)}:
+			case <-c.ctx.Done():
+				c.reportError(io.ErrClosedPipe)
+				return
+			}
 		}
 
 		for _, protocol := range c.node.protocols {
-- 
2.43.0


From 123fde5501f6fab67481078f65faa6b2f124f268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:35 +0000
Subject: [PATCH 14/37] fix: set the write deadline when there is data to write
 rather than before waiting for it

---
 client.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/client.go b/client.go
index 8d24eaa..7991167 100644
--- a/client.go
+++ b/client.go
@@ -643,17 +643,6 @@ Write:
 		default:
 		}
 
-		if c.node.idleTimeout > 0 {
-			if err := c.conn.SetWriteDeadline(time.Now().Add(c.node.idleTimeout)); err != nil {
-				if !isEOF(err) {
-					c.Logger().Warn("Got an error setting write deadline.", zap.Error(err))
-				}
-				c.reportError(err)
-
-				break Write
-			}
-		}
-
 		c.writerCond.L.Lock()
 		for len(c.writerBuf) == 0 && !c.writerClosed {
 			c.writerCond.Wait()
@@ -666,6 +655,19 @@ Write:
 			break Write
 		}
 
+		// Only start counting down once there is something to write.
+
+		if c.node.idleTimeout > 0 {
+			if err := c.conn.SetWriteDeadline(time.Now().Add(c.node.idleTimeout)); err != nil {
+				if !isEOF(err) {
+					c.Logger().Warn("Got an error setting write deadline.", zap.Error(err))
+				}
+				c.reportError(err)
+
+				break Write
+			}
+		}
+
 		for _, msg := range writerBuf {
 			buf = buf[:0]
 			buf = msg.marshal(buf)
-- 
2.43.0


From 06c8fe62bf402ae0481ddd21e23616214ebc9ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:24 +0000
Subject: [PATCH 15/37] fix: close a node completely and without blocking,
 whether or not it listens

---
 client.go |  10 ++++-
 map.go    |  10 ++++-
 node.go   | 119 ++++++++++++++++++++++++++++++++++++------------------
 3 files changed, 97 insertions(+), 42 deletions(-)

diff --git a/client.go b/client.go
index 7991167..8d9b34c 100644
--- a/client.go
+++ b/client.go
@@ -246,6 +246,7 @@ func (c *Client) outbound(addr string) {
 	defer func() {
 		c.node.outbound.remove(addr, c)
 		close(c.clientDone)
+		c.node.clients.Done()
 	}()
 
 	var dialer net.Dialer
@@ -275,6 +276,7 @@ func (c *Client) outbound(addr string) {
 	go c.writeLoop()
 	c.recvLoop()
 	c.close()
+	<-c.writerDone
 
 	c.Logger().Debug("Peer connection closed.")
 
@@ -293,6 +295,7 @@ func (c *Client) inbound(conn net.Conn, addr string) {
 	defer func() {
 		c.node.inbound.remove(addr, c)
 		close(c.clientDone)
+		c.node.clients.Done()
 	}()
 
 	if !c.open(conn) {
@@ -314,6 +317,7 @@ func (c *Client) inbound(conn net.Conn, addr string) {
 	go c.writeLoop()
 	c.recvLoop()
 	c.close()
+	<-c.writerDone
 
 	for _, protocol := range c.node.protocols {
 		if protocol.OnPeerDisconnected == nil {
@@ -627,8 +631,10 @@ func (c *Client) recvLoop() {
 }
 
 func (c *Client) writeLoop() {
-	defer c.close()
-	defer close(c.writerDone)
+	defer func() {
+		c.close()
+		close(c.writerDone)
+	}()
 
 	header := make([]byte, 4)
 	buf := make([]byte, 0, 1024)
diff --git a/map.go b/map.go
index 539d8e3..6ecd4a9 100644
--- a/map.go
+++ b/map.go
@@ -19,6 +19,7 @@ type clientMap struct {
 	cap     uint
 	order   *list.List
 	entries map[string]clientMapEntry
+	closed  bool
 }
 
 func newClientMap(cap uint) *clientMap {
@@ -29,10 +30,16 @@ func newClientMap(cap uint) *clientMap {
 	}
 }
 
+// get returns the client pooled for addr, and whether or not it already existed. It returns no client should the pool
+// have been released.
 func (c *clientMap) get(n *Node, addr string) (*Client, bool) {
 	c.Lock()
 	defer c.Unlock()
 
+	if c.closed {
+		return nil, false
+	}
+
 	entry, exists := c.entries[addr]
 	if !exists {
 		if uint(len(c.entries)) == n.maxInboundConnections {
@@ -51,6 +58,7 @@ func (c *clientMap) get(n *Node, addr string) (*Client, bool) {
 		entry.client.addr = addr
 
 		c.entries[addr] = entry
+		n.clients.Add(1)
 	} else {
 		c.order.MoveToFront(entry.el)
 	}
@@ -102,6 +110,7 @@ func (c *clientMap) remove(addr string, client *Client) {
 func (c *clientMap) release() {
 	c.Lock()
 
+	c.closed = true
 	entries := c.entries
 	c.entries = make(map[string]clientMapEntry, c.cap)
 	c.order.Init()
@@ -110,7 +119,6 @@ func (c *clientMap) release() {
 
 	for _, e := range entries {
 		e.client.close()
-		e.client.waitUntilClosed()
 	}
 }
 
diff --git a/node.go b/node.go
index 4f7439b..38089cf 100644
--- a/node.go
+++ b/node.go
@@ -44,6 +44,12 @@ type Node struct {
 	listener  net.Listener
 	listening atomic.Bool
 
+	// closing guards closed, and that a node that gets closed does not start to listen.
+	closing   sync.Mutex
+	closed    bool
+	closeOnce sync.Once
+	closeErr  error
+
 	outbound *clientMap
 	inbound  *clientMap
 
@@ -51,17 +57,20 @@ type Node struct {
 	protocols []Protocol
 	handlers  []Handler
 
-	workers sync.WaitGroup
-	work    chan HandlerContext
+	clients sync.WaitGroup
+
+	workersOnce sync.Once
+	workers     sync.WaitGroup
+	work        chan HandlerContext
 
-	listenerDone chan error
+	listenerDone chan struct{}
 }
 
 // NewNode instantiates a new node instance, and pre-configures the node with provided options.
 // Default values for some non-specified options are instantiated as well, which may yield an error.
 func NewNode(opts ...NodeOption) (*Node, error) {
 	n := &Node{
-		listenerDone: make(chan error, 1),
+		listenerDone: make(chan struct{}),
 
 		maxDialAttempts:        3,
 		maxInboundConnections:  128,
@@ -175,39 +184,20 @@ func (n *Node) Listen() error {
 		}
 	}
 
-	n.work = make(chan HandlerContext, int(n.numWorkers))
-	n.workers.Add(int(n.numWorkers))
-
-	for i := uint(0); i < n.numWorkers; i++ {
-		go func() {
-			defer n.workers.Done()
+	n.workersOnce.Do(n.startWorkers)
 
-			for ctx := range n.work {
-				for _, handler := range n.handlers {
-					if err := handler(ctx); err != nil {
-						ctx.client.Logger().Warn("Got an error executing a message handler.", zap.Error(err))
-						ctx.client.reportError(err)
-						ctx.client.close()
+	n.closing.Lock()
+	defer n.closing.Unlock()
 
-						break
-					}
-				}
-			}
-		}()
+	if n.closed {
+		n.listener.Close()
+		return errors.New("node is closed")
 	}
 
-	go func() {
-		n.listening.Store(true)
-
-		defer func() {
-			n.inbound.release()
-
-			close(n.work)
-			n.workers.Wait()
+	n.listening.Store(true)
 
-			n.listening.Store(false)
-			close(n.listenerDone)
-		}()
+	go func() {
+		defer close(n.listenerDone)
 
 		n.logger.Info("Listening for incoming peers.",
 			zap.String("bind_addr", addr.String()),
@@ -219,7 +209,6 @@ func (n *Node) Listen() error {
 		for {
 			conn, err := n.listener.Accept()
 			if err != nil {
-				n.listenerDone <- err
 				break
 			}
 
@@ -234,6 +223,11 @@ func (n *Node) Listen() error {
 				client, _ = n.inbound.get(n, addr)
 			}
 
+			if client == nil {
+				conn.Close()
+				break
+			}
+
 			go client.inbound(conn, addr)
 		}
 	}()
@@ -241,6 +235,30 @@ func (n *Node) Listen() error {
 	return nil
 }
 
+// startWorkers starts the workers of this node. It is only called once.
+func (n *Node) startWorkers() {
+	n.work = make(chan HandlerContext, int(n.numWorkers))
+	n.workers.Add(int(n.numWorkers))
+
+	for i := uint(0); i < n.numWorkers; i++ {
+		go func() {
+			defer n.workers.Done()
+
+			for ctx := range n.work {
+				for _, handler := range n.handlers {
+					if err := handler(ctx); err != nil {
+						ctx.client.Logger().Warn("Got an error executing a message handler.", zap.Error(err))
+						ctx.client.reportError(err)
+						ctx.client.close()
+
+						break
+					}
+				}
+			}
+		}()
+	}
+}
+
 // RegisterMessage registers a Go type T that implements the Serializable interface with an associated deserialize
 // function whose signature comprises of func([]byte) (T, error). RegisterMessage should be called in the following
 // manner:
@@ -382,22 +400,45 @@ func (n *Node) Ping(ctx context.Context, addr string) (*Client, error) {
 //
 // Close may be called concurrently.
 func (n *Node) Close() error {
-	if n.listening.CAS(true, false) {
-		if err := n.listener.Close(); err != nil {
-			return err
+	n.closeOnce.Do(func() {
+		n.closing.Lock()
+		n.closed = true
+		n.closing.Unlock()
+
+		if n.listening.Load() {
+			n.closeErr = n.listener.Close()
+			<-n.listenerDone
 		}
-	}
 
-	<-n.listenerDone
+		n.outbound.release()
+		n.inbound.release()
+		n.clients.Wait()
 
-	return nil
+		n.workersOnce.Do(func() {})
+
+		if n.work != nil {
+			close(n.work)
+		}
+
+		n.workers.Wait()
+
+		n.listening.Store(false)
+	})
+
+	return n.closeErr
 }
 
 func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error) {
+	n.workersOnce.Do(n.startWorkers)
+
 	var err error
 
 	for i := uint(0); i < n.maxDialAttempts && ctx.Err() == nil; i++ {
 		client, exists := n.outbound.get(n, addr)
+		if client == nil {
+			return nil, errors.New("node is closed")
+		}
+
 		if !exists {
 			go client.outbound(addr)
 		}
-- 
2.43.0


From cda01b0f238068edd0a34c332225d3a0c3fc5ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:44 +0000
Subject: [PATCH 16/37] fix: keep accepting connections after a temporary error

---
 node.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/node.go b/node.go
index 38089cf..c9edcf4 100644
--- a/node.go
+++ b/node.go
@@ -209,6 +209,13 @@ func (n *Node) Listen() error {
 		for {
 			conn, err := n.listener.Accept()
 			if err != nil {
+				// Running out of file descriptors or of memory is not a reason to stop listening for good.
+
+				if netErr, ok := err.(net.Error); ok && netErr.Temporary() {
+					time.Sleep(10 * time.Millisecond)
+					continue
+				}
+
 				break
 			}
 
-- 
2.43.0


From 6d3b4088f57dbb4bd78204c148ed40d78ef85c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:44 +0000
Subject: [PATCH 17/37] fix: synchronize the protocols and handlers of a node

---
 client.go | 10 +++++-----
 node.go   | 31 +++++++++++++++++++++++++++----
 2 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/client.go b/client.go
index 8d9b34c..afccfad 100644
--- a/client.go
+++ b/client.go
@@ -280,7 +280,7 @@ func (c *Client) outbound(addr string) {
 
 	c.Logger().Debug("Peer connection closed.")
 
-	for _, protocol := range c.node.protocols {
+	for _, protocol := range c.node.boundProtocols() {
 		if protocol.OnPeerDisconnected == nil {
 			continue
 		}
@@ -319,7 +319,7 @@ func (c *Client) inbound(conn net.Conn, addr string) {
 	c.close()
 	<-c.writerDone
 
-	for _, protocol := range c.node.protocols {
+	for _, protocol := range c.node.boundProtocols() {
 		if protocol.OnPeerDisconnected == nil {
 			continue
 		}
@@ -575,7 +575,7 @@ func (c *Client) handshake() {
 
 	c.Logger().Debug("Peer connection opened.")
 
-	for _, protocol := range c.node.protocols {
+	for _, protocol := range c.node.boundProtocols() {
 		if protocol.OnPeerConnected == nil {
 			continue
 		}
@@ -620,7 +620,7 @@ func (c *Client) recvLoop() {
 			}
 		}
 
-		for _, protocol := range c.node.protocols {
+		for _, protocol := range c.node.boundProtocols() {
 			if protocol.OnMessageRecv == nil {
 				continue
 			}
@@ -718,7 +718,7 @@ Write:
 			break Write
 		}
 
-		for _, protocol := range c.node.protocols {
+		for _, protocol := range c.node.boundProtocols() {
 			if protocol.OnMessageSent == nil {
 				continue
 			}
diff --git a/node.go b/node.go
index c9edcf4..a2626cd 100644
--- a/node.go
+++ b/node.go
@@ -53,7 +53,10 @@ type Node struct {
 	outbound *clientMap
 	inbound  *clientMap
 
-	codec     *codec
+	codec *codec
+
+	// mu guards protocols and handlers.
+	mu        sync.RWMutex
 	protocols []Protocol
 	handlers  []Handler
 
@@ -173,7 +176,7 @@ func (n *Node) Listen() error {
 		n.id = NewID(n.publicKey, host, uint16(port))
 	}
 
-	for _, protocol := range n.protocols {
+	for _, protocol := range n.boundProtocols() {
 		if protocol.Bind == nil {
 			continue
 		}
@@ -252,7 +255,7 @@ func (n *Node) startWorkers() {
 			defer n.workers.Done()
 
 			for ctx := range n.work {
-				for _, handler := range n.handlers {
+				for _, handler := range n.registeredHandlers() {
 					if err := handler(ctx); err != nil {
 						ctx.client.Logger().Warn("Got an error executing a message handler.", zap.Error(err))
 						ctx.client.reportError(err)
@@ -482,7 +485,7 @@ func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error
 		err = fmt.Errorf("attempted to dial %s several times but failed: %w", addr, err)
 	}
 
-	for _, protocol := range n.protocols {
+	for _, protocol := range n.boundProtocols() {
 		if protocol.OnPingFailed == nil {
 			continue
 		}
@@ -500,6 +503,9 @@ func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error
 //
 // Bind may be called concurrently.
 func (n *Node) Bind(protocols ...Protocol) {
+	n.mu.Lock()
+	defer n.mu.Unlock()
+
 	if n.listening.Load() {
 		return
 	}
@@ -514,6 +520,9 @@ func (n *Node) Bind(protocols ...Protocol) {
 //
 // Handle may be called concurrently.
 func (n *Node) Handle(handlers ...Handler) {
+	n.mu.Lock()
+	defer n.mu.Unlock()
+
 	if n.listening.Load() {
 		return
 	}
@@ -521,6 +530,20 @@ func (n *Node) Handle(handlers ...Handler) {
 	n.handlers = append(n.handlers, handlers...)
 }
 
+func (n *Node) boundProtocols() []Protocol {
+	n.mu.RLock()
+	defer n.mu.RUnlock()
+
+	return n.protocols
+}
+
+func (n *Node) registeredHandlers() []Handler {
+	n.mu.RLock()
+	defer n.mu.RUnlock()
+
+	return n.handlers
+}
+
 // Sign uses the nodes private key to sign data and return its cryptographic signature as a slice of bytes.
 func (n *Node) Sign(data []byte) Signature {
 	return n.privateKey.Sign(data)
-- 
2.43.0


From fcdcf649d1c0e00c3878baae3fd9da289597d3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:16 +0000
Subject: [PATCH 18/37] fix: synchronize the ID and address of a node, and the
 ID of a client

---
 client.go | 10 ++++++++--
 node.go   | 15 ++++++++++++++-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/client.go b/client.go
index afccfad..2807c5c 100644
--- a/client.go
+++ b/client.go
@@ -49,7 +49,8 @@ func (c clientSide) String() string {
 type Client struct {
 	node *Node
 
-	id ID
+	idLock sync.RWMutex
+	id     ID
 
 	addr string
 	side clientSide
@@ -124,6 +125,9 @@ func newClient(node *Node) *Client {
 //
 // ID may be called concurrently.
 func (c *Client) ID() ID {
+	c.idLock.RLock()
+	defer c.idLock.RUnlock()
+
 	return c.id
 }
 
@@ -522,7 +526,7 @@ func (c *Client) handshake() {
 
 	// Send to our peer our overlay ID.
 
-	buf := c.node.id.Marshal()
+	buf := c.node.ID().Marshal()
 	signature = c.node.Sign(append(buf, shared...))
 	buf = append(buf, signature[:]...)
 
@@ -564,7 +568,9 @@ func (c *Client) handshake() {
 		return
 	}
 
+	c.idLock.Lock()
 	c.id = id
+	c.idLock.Unlock()
 
 	c.SetLogger(c.Logger().With(
 		zap.String("peer_id", id.ID.String()),
diff --git a/node.go b/node.go
index a2626cd..525f9f8 100644
--- a/node.go
+++ b/node.go
@@ -24,6 +24,9 @@ import (
 type Node struct {
 	logger *zap.Logger
 
+	// idLock guards addr and id.
+	idLock sync.RWMutex
+
 	host net.IP
 	port uint16
 	addr string
@@ -146,8 +149,10 @@ func (n *Node) Listen() error {
 	n.port = uint16(addr.Port)
 
 	if n.addr == "" {
+		n.idLock.Lock()
 		n.addr = net.JoinHostPort(normalizeIP(n.host), strconv.FormatUint(uint64(n.port), 10))
 		n.id = NewID(n.publicKey, n.host, n.port)
+		n.idLock.Unlock()
 	} else {
 		resolved, err := ResolveAddress(n.addr)
 		if err != nil {
@@ -173,7 +178,9 @@ func (n *Node) Listen() error {
 			return err
 		}
 
+		n.idLock.Lock()
 		n.id = NewID(n.publicKey, host, uint16(port))
+		n.idLock.Unlock()
 	}
 
 	for _, protocol := range n.boundProtocols() {
@@ -204,7 +211,7 @@ func (n *Node) Listen() error {
 
 		n.logger.Info("Listening for incoming peers.",
 			zap.String("bind_addr", addr.String()),
-			zap.String("id_addr", n.id.Address),
+			zap.String("id_addr", n.ID().Address),
 			zap.String("public_key", n.publicKey.String()),
 			zap.String("private_key", n.privateKey.String()),
 		)
@@ -569,6 +576,9 @@ func (n *Node) Outbound() []*Client {
 //
 // Addr may be called concurrently.
 func (n *Node) Addr() string {
+	n.idLock.RLock()
+	defer n.idLock.RUnlock()
+
 	return n.addr
 }
 
@@ -585,5 +595,8 @@ func (n *Node) Logger() *zap.Logger {
 //
 // ID may be called concurrently.
 func (n *Node) ID() ID {
+	n.idLock.RLock()
+	defer n.idLock.RUnlock()
+
 	return n.id
 }
-- 
2.43.0


From d99f309deafc2c8f65afa2939aa77040957a32d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:17 +0000
Subject: [PATCH 19/37] fix: reject a peer that reflects our session handshake

---
 client.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client.go b/client.go
index 2807c5c..1853853 100644
--- a/client.go
+++ b/client.go
@@ -491,6 +491,13 @@ func (c *Client) handshake() {
 	var peerPublicKey PublicKey
 	copy(peerPublicKey[:], data[:SizePublicKey])
 
+	// A peer that sends back our own ephemeral public key does not own it.
+
+	if peerPublicKey == pub {
+		c.reportError(errors.New("received our own session handshake"))
+		return
+	}
+
 	// Verify ownership of our peers Ed25519 public key by verifying the signature they sent.
 
 	if !peerPublicKey.Verify([]byte(".__noise_handshake"), UnmarshalSignature(data[SizePublicKey:SizePublicKey+SizeSignature])) {
-- 
2.43.0


From 7362055c6de2e4ce46f8ec391d1becff84a53b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:55 +0000
Subject: [PATCH 20/37] fix: reject a peer that reflects our overlay handshake

---
 client.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/client.go b/client.go
index 1853853..f5dd881 100644
--- a/client.go
+++ b/client.go
@@ -57,6 +57,9 @@ type Client struct {
 
 	suite cipher.AEAD
 
+	// handshakeSent is what was last sent while handshaking, which no peer but one that reflects it may send back.
+	handshakeSent []byte
+
 	logger struct {
 		sync.RWMutex
 		*zap.Logger
@@ -373,6 +376,10 @@ func (c *Client) read() ([]byte, error) {
 		return frame, nil
 	}
 
+	if bytes.Equal(frame, c.handshakeSent) {
+		return nil, errors.New("received our own session handshake")
+	}
+
 	buf, err := decryptAEAD(c.suite, frame)
 	if err != nil {
 		return nil, err
@@ -396,6 +403,8 @@ func (c *Client) write(data []byte) error {
 		}
 	}
 
+	c.handshakeSent = data
+
 	data = append(make([]byte, 4), data...)
 	binary.BigEndian.PutUint32(data[:4], uint32(len(data)-4))
 
-- 
2.43.0


From 6fa90d1d30f86637288198c58cf382fa49b885ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:16 +0000
Subject: [PATCH 21/37] fix: find the peers that are closest to a target rather
 than those in adjacent buckets

---
 kademlia/table.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/kademlia/table.go b/kademlia/table.go
index 1ea256f..1a30827 100644
--- a/kademlia/table.go
+++ b/kademlia/table.go
@@ -176,16 +176,19 @@ func (t *Table) FindClosest(target noise.PublicKey, k int) []noise.ID {
 
 	f(t.entries[idx])
 
-	for i := 1; len(closest) < k && (idx-i >= 0 || idx+i < len(t.entries)); i++ {
-		if idx-i >= 0 {
-			f(t.entries[idx-i])
-		}
+	// All ids past the bucket of target differ from it at the very same bit, and so may come in any order. They are
+	// closer to it than those of the buckets before, which get further away from target the lower their index is.
 
-		if idx+i < len(t.entries) {
-			f(t.entries[idx+i])
+	if len(closest) < k {
+		for i := idx + 1; i < len(t.entries); i++ {
+			f(t.entries[i])
 		}
 	}
 
+	for i := idx - 1; i >= 0 && len(closest) < k; i-- {
+		f(t.entries[i])
+	}
+
 	closest = SortByDistance(target, closest)
 
 	if len(closest) > k {
-- 
2.43.0


From ef1d24e25b1c6b6086af65f1bc13aee3fffbfd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:17 +0000
Subject: [PATCH 22/37] fix: do not crash when a full bucket gets emptied
 before its last peer is pinged

---
 kademlia/protocol.go | 3 +++
 kademlia/table.go    | 9 +++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/kademlia/protocol.go b/kademlia/protocol.go
index c0eb3ad..6efa831 100644
--- a/kademlia/protocol.go
+++ b/kademlia/protocol.go
@@ -104,6 +104,9 @@ func (p *Protocol) Ack(id noise.ID) {
 		}
 
 		last := p.table.Last(id.ID)
+		if last.ID == noise.ZeroPublicKey { // The bucket got emptied in the meantime.
+			continue
+		}
 
 		ctx, cancel := context.WithTimeout(context.Background(), p.pingTimeout)
 		pong, err := p.node.RequestMessage(ctx, last.Address, Ping{})
diff --git a/kademlia/table.go b/kademlia/table.go
index 1a30827..3da54bd 100644
--- a/kademlia/table.go
+++ b/kademlia/table.go
@@ -37,12 +37,17 @@ func (t *Table) Self() noise.ID {
 	return t.self
 }
 
-// Last returns the last id of the bucket where target resides within.
+// Last returns the last id of the bucket where target resides within, or a zero-value ID if the bucket is empty.
 func (t *Table) Last(target noise.PublicKey) noise.ID {
 	t.RLock()
 	defer t.RUnlock()
 
-	return t.entries[t.getBucketIndex(target)].Back().Value.(noise.ID)
+	last := t.entries[t.getBucketIndex(target)].Back()
+	if last == nil {
+		return noise.ID{}
+	}
+
+	return last.Value.(noise.ID)
 }
 
 // Bucket returns all entries of a bucket where target reside within.
-- 
2.43.0


From 5811bbaa218e54e4ba83bd6c6fa8f7c5174b8e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:18 +0000
Subject: [PATCH 23/37] fix: do not report a peer as evicted that was never
 admitted

---
 kademlia/protocol.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/kademlia/protocol.go b/kademlia/protocol.go
index 6efa831..80b9cdc 100644
--- a/kademlia/protocol.go
+++ b/kademlia/protocol.go
@@ -147,10 +147,6 @@ func (p *Protocol) Ack(id noise.ID) {
 			zap.String("peer_addr", id.Address),
 		)
 
-		if p.events.OnPeerEvicted != nil {
-			p.events.OnPeerEvicted(id)
-		}
-
 		return
 	}
 }
-- 
2.43.0


From 38f9c7ac3e023618e43cad80f6eae8ca5c8b5dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:18 +0000
Subject: [PATCH 24/37] fix: keep a node in its own routing table when it fails
 to dial itself

---
 kademlia/protocol.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kademlia/protocol.go b/kademlia/protocol.go
index 80b9cdc..b3e2c90 100644
--- a/kademlia/protocol.go
+++ b/kademlia/protocol.go
@@ -190,6 +190,10 @@ func (p *Protocol) OnPeerConnected(client *noise.Client) {
 
 // OnPingFailed evicts peers that your node has failed to dial.
 func (p *Protocol) OnPingFailed(addr string, err error) {
+	if addr == p.table.Self().Address { // A node that fails to dial itself remains in its own routing table.
+		return
+	}
+
 	if id, deleted := p.table.DeleteByAddress(addr); deleted {
 		p.logger.Debug("Peer was evicted from routing table by failing to be dialed.", zap.Error(err))
 
-- 
2.43.0


From 41fb0206f3db798ad644cc3ef39a5ac8b836eb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:19 +0000
Subject: [PATCH 25/37] fix: ask peers for those closest to the target of a
 lookup rather than to themselves

---
 kademlia/iterator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kademlia/iterator.go b/kademlia/iterator.go
index 9b0f3ca..e64339a 100644
--- a/kademlia/iterator.go
+++ b/kademlia/iterator.go
@@ -17,6 +17,7 @@ type Iterator struct {
 	table  *Table
 	logger *zap.Logger
 
+	target  noise.PublicKey
 	visited map[noise.PublicKey]struct{}
 	results chan noise.ID
 	buckets [][]noise.ID
@@ -72,6 +73,7 @@ func (it *Iterator) Find(target noise.PublicKey) []noise.ID {
 }
 
 func (it *Iterator) init(target noise.PublicKey) {
+	it.target = target
 	it.results = make(chan noise.ID, 1)
 
 	it.visited = map[noise.PublicKey]struct{}{
@@ -162,7 +164,7 @@ func (it *Iterator) lookupRequest(id noise.ID, out chan<- []noise.ID) {
 	ctx, cancel := context.WithTimeout(context.Background(), it.lookupTimeout)
 	defer cancel()
 
-	obj, err := it.node.RequestMessage(ctx, id.Address, FindNodeRequest{Target: id.ID})
+	obj, err := it.node.RequestMessage(ctx, id.Address, FindNodeRequest{Target: it.target})
 	if err != nil {
 		out <- nil
 		return
-- 
2.43.0


From da1f37d1d574d8f775b3b2f84b7d8e77e5f2c9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:20 +0000
Subject: [PATCH 26/37] fix: recognize gossip of any size that was seen before

---
 gossip/protocol.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gossip/protocol.go b/gossip/protocol.go
index c5ae995..7742382 100644
--- a/gossip/protocol.go
+++ b/gossip/protocol.go
@@ -4,6 +4,7 @@ package gossip
 
 import (
 	"context"
+	"crypto/sha256"
 	"github.com/VictoriaMetrics/fastcache"
 	"github.com/perlin-network/noise"
 	"github.com/perlin-network/noise/kademlia"
@@ -124,6 +125,9 @@ func (p *Protocol) Handle(ctx noise.HandlerContext) error {
 	return nil
 }
 
+// hash returns the key under which the cache records that id is aware of data. It has a fixed size as the cache
+// discards keys that are large.
 func (p *Protocol) hash(id noise.ID, data []byte) []byte {
-	return append(id.ID[:], data...)
+	sum := sha256.Sum256(append(id.ID[:], data...))
+	return sum[:]
 }
-- 
2.43.0


From 91513e35d52d707fabbccf76127c4cb83b932795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:20 +0000
Subject: [PATCH 27/37] fix: handle gossip that is received several times at
 once only once

---
 gossip/protocol.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gossip/protocol.go b/gossip/protocol.go
index 7742382..cc08d57 100644
--- a/gossip/protocol.go
+++ b/gossip/protocol.go
@@ -19,6 +19,9 @@ type Protocol struct {
 	events  Events
 
 	seen *fastcache.Cache
+
+	// mu guards that data is only handled once by this node.
+	mu sync.Mutex
 }
 
 // New returns a new instance of a gossip protocol with 32MB of in-memory cache instantiated.
@@ -108,12 +111,15 @@ func (p *Protocol) Handle(ctx noise.HandlerContext) error {
 
 	self := p.hash(p.node.ID(), msg)
 
-	if p.seen.Has(self) {
+	p.mu.Lock()
+	handled := p.seen.Has(self)
+	p.seen.Set(self, nil) // Mark that we already have this data.
+	p.mu.Unlock()
+
+	if handled {
 		return nil
 	}
 
-	p.seen.Set(self, nil) // Mark that we already have this data.
-
 	if p.events.OnGossipReceived != nil {
 		if err := p.events.OnGossipReceived(ctx.ID(), msg); err != nil {
 			return err
-- 
2.43.0


From c7717832b36ca3fa3cdea35832f93ed77aa10c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:21 +0000
Subject: [PATCH 28/37] fix: do not deadlock when a message is encoded or
 decoded while doing so with another

---
 codec.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/codec.go b/codec.go
index 3d627f2..ab2fe41 100644
--- a/codec.go
+++ b/codec.go
@@ -56,16 +56,18 @@ func (c *codec) register(ser Serializable, de interface{}) uint16 {
 }
 
 func (c *codec) encode(msg Serializable) ([]byte, error) {
-	c.RLock()
-	defer c.RUnlock()
-
 	t := reflect.TypeOf(msg)
 
 	if t.Kind() == reflect.Ptr {
 		t = t.Elem()
 	}
 
+	// Do not hold the lock while serializing msg, as doing so may encode other messages.
+
+	c.RLock()
 	opcode, registered := c.ser[t]
+	c.RUnlock()
+
 	if !registered {
 		return nil, fmt.Errorf("opcode not registered for message type %+v", t)
 	}
@@ -84,10 +86,12 @@ func (c *codec) decode(data []byte) (Serializable, error) {
 	opcode := binary.BigEndian.Uint16(data[:2])
 	data = data[2:]
 
-	c.RLock()
-	defer c.RUnlock()
+	// Do not hold the lock while deserializing data, as doing so may decode other messages.
 
+	c.RLock()
 	decoder, registered := c.de[opcode]
+	c.RUnlock()
+
 	if !registered {
 		return nil, fmt.Errorf("opcode %d is not registered", opcode)
 	}
-- 
2.43.0


From 21073c0ac588644085e9fea93dee0799904dc076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:19 +0000
Subject: [PATCH 29/37] fix: draw the nonces of encrypted frames from a secure
 source

They came from math/rand, whose sequence is the same in every process with Go 1.13, and in any
that seeds it equally: both ends of a connection then used the same nonces under the same key.
---
 aead.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aead.go b/aead.go
index a9699c4..45f9ac4 100644
--- a/aead.go
+++ b/aead.go
@@ -2,8 +2,8 @@ package noise
 
 import (
 	"crypto/cipher"
+	"crypto/rand"
 	"io"
-	"math/rand"
 )
 
 func extendFront(buf []byte, n int) []byte {
-- 
2.43.0


From 941c4dc9c5f4193b595a1b17ed833357760a9372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:20 +0000
Subject: [PATCH 30/37] fix: do not accept peers under a public key nobody
 holds the private key to

Signatures are verified without rejecting public keys of low order (the zero key, say), for which
anyone is able to forge one.
---
 client.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client.go b/client.go
index f5dd881..4789ac6 100644
--- a/client.go
+++ b/client.go
@@ -579,6 +579,13 @@ func (c *Client) handshake() {
 		return
 	}
 
+	// Anyone may sign on behalf of a public key of low order, which there hence is no private key to.
+
+	if _, err := ECDH(sec, id.ID); err != nil {
+		c.reportError(fmt.Errorf("received invalid public key handshaking: %w", err))
+		return
+	}
+
 	if !id.ID.Verify(append(buf, shared...), UnmarshalSignature(data[len(buf):len(buf)+SizeSignature])) {
 		c.reportError(errors.New("overlay handshake signature is malformed"))
 		return
-- 
2.43.0


From a984d91ef4d2fd6a6ef666fadacf795808cbe71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:04 +0000
Subject: [PATCH 31/37] fix: reject a peer that decrypts our overlay handshake
 and sends it back

---
 client.go | 15 +++++++++++++++
 node.go   |  3 +++
 2 files changed, 18 insertions(+)

diff --git a/client.go b/client.go
index 4789ac6..1c2a6dd 100644
--- a/client.go
+++ b/client.go
@@ -471,6 +471,9 @@ func (c *Client) handshake() {
 		return
 	}
 
+	c.node.handshakes.Store(pub, struct{}{})
+	defer c.node.handshakes.Delete(pub)
+
 	// Send our Ed25519 ephemeral public key and signature of the message '.__noise_handshake'.
 
 	signature := sec.Sign([]byte(".__noise_handshake"))
@@ -507,6 +510,11 @@ func (c *Client) handshake() {
 		return
 	}
 
+	// Whether or not it is this very node that is at the other end of the connection. If it is, it keeps handshaking
+	// for as long as we do not send it our overlay ID.
+
+	_, self := c.node.handshakes.Load(peerPublicKey)
+
 	// Verify ownership of our peers Ed25519 public key by verifying the signature they sent.
 
 	if !peerPublicKey.Verify([]byte(".__noise_handshake"), UnmarshalSignature(data[SizePublicKey:SizePublicKey+SizeSignature])) {
@@ -579,6 +587,13 @@ func (c *Client) handshake() {
 		return
 	}
 
+	// A peer may decrypt our own overlay handshake, and send it back to us.
+
+	if id.ID == c.node.publicKey && !self {
+		c.reportError(errors.New("received our own overlay handshake"))
+		return
+	}
+
 	// Anyone may sign on behalf of a public key of low order, which there hence is no private key to.
 
 	if _, err := ECDH(sec, id.ID); err != nil {
diff --git a/node.go b/node.go
index 525f9f8..ecc781e 100644
--- a/node.go
+++ b/node.go
@@ -56,6 +56,9 @@ type Node struct {
 	outbound *clientMap
 	inbound  *clientMap
 
+	// handshakes comprises of the ephemeral public keys this node is handshaking with at the moment.
+	handshakes sync.Map
+
 	codec *codec
 
 	// mu guards protocols and handlers.
-- 
2.43.0


From 1c530dc819094e696e1ab4394595f5a53b6448fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:35 +0000
Subject: [PATCH 32/37] fix: do not block workers for ever relaying gossip to
 unresponsive peers

---
 gossip/protocol.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gossip/protocol.go b/gossip/protocol.go
index cc08d57..0595795 100644
--- a/gossip/protocol.go
+++ b/gossip/protocol.go
@@ -9,8 +9,12 @@ import (
 	"github.com/perlin-network/noise"
 	"github.com/perlin-network/noise/kademlia"
 	"sync"
+	"time"
 )
 
+// relayTimeout bounds how long a worker of a node gets blocked relaying data to peers that are unresponsive.
+const relayTimeout = 10 * time.Second
+
 // Protocol implements a simple gossiping protocol that avoids resending messages to peers that it already believes
 // is aware of particular messages that are being gossiped.
 type Protocol struct {
@@ -126,7 +130,10 @@ func (p *Protocol) Handle(ctx noise.HandlerContext) error {
 		}
 	}
 
-	p.Push(context.Background(), msg)
+	relay, cancel := context.WithTimeout(context.Background(), relayTimeout)
+	defer cancel()
+
+	p.Push(relay, msg)
 
 	return nil
 }
-- 
2.43.0


From fbf5f394441d89c103c67367e959519a5589d905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:00 +0000
Subject: [PATCH 33/37] fix: only ask peers found in a lookup whose identity is
 the one referred to

---
 kademlia/iterator.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kademlia/iterator.go b/kademlia/iterator.go
index e64339a..693f699 100644
--- a/kademlia/iterator.go
+++ b/kademlia/iterator.go
@@ -164,6 +164,13 @@ func (it *Iterator) lookupRequest(id noise.ID, out chan<- []noise.ID) {
 	ctx, cancel := context.WithTimeout(context.Background(), it.lookupTimeout)
 	defer cancel()
 
+	// Peers may be referred to with an address that belongs to somebody else.
+	client, err := it.node.Ping(ctx, id.Address)
+	if err != nil || client.ID().ID != id.ID {
+		out <- nil
+		return
+	}
+
 	obj, err := it.node.RequestMessage(ctx, id.Address, FindNodeRequest{Target: it.target})
 	if err != nil {
 		out <- nil
-- 
2.43.0


From d6a923d9471cdf45a845d72ec38d6ef2dfbbb89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:01 +0000
Subject: [PATCH 34/37] fix: do not reuse opcodes once all of them are
 registered

---
 codec.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/codec.go b/codec.go
index ab2fe41..8af4fda 100644
--- a/codec.go
+++ b/codec.go
@@ -41,6 +41,10 @@ func (c *codec) register(ser Serializable, de interface{}) uint16 {
 		panic(fmt.Errorf("attempted to register type %+v which is already registered under opcode %d", t, opcode))
 	}
 
+	if len(c.ser) > math.MaxUint16 {
+		panic(fmt.Errorf("attempted to register type %+v, but there are no opcodes left", t))
+	}
+
 	expected := reflect.FuncOf([]reflect.Type{reflect.TypeOf(([]byte)(nil))}, []reflect.Type{t, reflect.TypeOf((*error)(nil)).Elem()}, false)
 
 	if d.Type() != expected {
-- 
2.43.0


From 3850224c8b483143f85ad6e5ee0cf9f732732dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:09 +0000
Subject: [PATCH 35/37] fix: do not report peers nobody attempted to dial as
 failed to be dialed

A call whose context has ended before it begins makes no attempt to dial the
peer, yet it was reported to protocols through OnPingFailed. Kademlia evicts
peers that are reported so, and therefore forgot about peers it was connected
to.
---
 node.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/node.go b/node.go
index ecc781e..9a96704 100644
--- a/node.go
+++ b/node.go
@@ -452,6 +452,7 @@ func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error
 	n.workersOnce.Do(n.startWorkers)
 
 	var err error
+	var dialed bool
 
 	for i := uint(0); i < n.maxDialAttempts && ctx.Err() == nil; i++ {
 		client, exists := n.outbound.get(n, addr)
@@ -463,6 +464,12 @@ func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error
 			go client.outbound(addr)
 		}
 
+		select {
+		case <-client.ready:
+		default:
+			dialed = true
+		}
+
 		select {
 		case <-ctx.Done():
 			n.outbound.leave(client, true)
@@ -491,6 +498,10 @@ func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error
 
 	if ctx.Err() != nil {
 		err = fmt.Errorf("failed to dial peer: %w", ctx.Err())
+
+		if !dialed { // No attempt to dial the peer was made.
+			return nil, err
+		}
 	} else {
 		err = fmt.Errorf("attempted to dial %s several times but failed: %w", addr, err)
 	}
-- 
2.43.0


From 25089076c46984b1a1adad05b17a22a8633e142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:22 +0000
Subject: [PATCH 36/37] fix: do not handle a response that arrives once its
 connection is closed as a message

---
 client.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client.go b/client.go
index 1c2a6dd..4bd8def 100644
--- a/client.go
+++ b/client.go
@@ -656,6 +656,13 @@ func (c *Client) recvLoop() {
 			ch <- msg
 			close(ch)
 		} else {
+			// Closing the connection drops the requests that await a response, whose response must not be handled as
+			// though it were a message from the peer.
+			if c.ctx.Err() != nil {
+				c.reportError(io.ErrClosedPipe)
+				return
+			}
+
 			select {
 			case c.node.work <- HandlerContext{client: c, msg: msg, sent: atomic.NewBool(false)}:
 			case <-c.ctx.Done():
-- 
2.43.0


From 268fcca0f70195aa3cd9483928148d3a8f6bbf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:08 +0000
Subject: [PATCH 37/37] fix: evict a peer at whose address another identity
 answers pings

---
 kademlia/protocol.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/kademlia/protocol.go b/kademlia/protocol.go
index b3e2c90..d85d6c2 100644
--- a/kademlia/protocol.go
+++ b/kademlia/protocol.go
@@ -110,6 +110,14 @@ func (p *Protocol) Ack(id noise.ID) {
 
 		ctx, cancel := context.WithTimeout(context.Background(), p.pingTimeout)
 		pong, err := p.node.RequestMessage(ctx, last.Address, Ping{})
+		if err == nil {
+			var client *noise.Client
+
+			// Another peer may have taken over the address.
+			if client, err = p.node.Ping(ctx, last.Address); err == nil && client.ID().ID != last.ID {
+				err = errors.New("another peer is at its address")
+			}
+		}
 		cancel()
 
 		if err != nil {
-- 
2.43.0

