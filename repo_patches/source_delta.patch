From f46795b69ee2c28b98d7a7d5991abca542e7d2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:06 +0000
Subject: [PATCH 01/37] verif: scheduling-point hooks behind build tag verif

---
 client.go            |  2 ++
 engine/client.go     |  3 +++
 engine/emitter.go    |  4 ++++
 engine/hook.go       |  7 +++++++
 engine/hook_verif.go | 17 +++++++++++++++++
 engine/polling.go    |  4 ++++
 engine/server.go     | 13 +++++++++++++
 engine/socket.go     |  3 +++
 engine/websocket.go  |  1 +
 handle.go            |  1 +
 hook.go              |  7 +++++++
 hook_verif.go        | 17 +++++++++++++++++
 server.go            |  5 +++++
 socket.go            |  4 ++++
 14 files changed, 88 insertions(+)
 create mode 100644 engine/hook.go
 create mode 100644 engine/hook_verif.go
 create mode 100644 hook.go
 create mode 100644 hook_verif.go

diff --git a/client.go b/client.go
index 440f251..e62a280 100644
--- a/client.go
+++ b/client.go
@@ -25,6 +25,7 @@ func (c *Client) Dial(rawurl string, requestHeader http.Header, dialer engine.Di
 	if err != nil {
 		return
 	}
+	verifPoint("client.dial.engine")
 	socket := newSocket(e.Socket, parser)
 	c.engine = e
 	c.socket = socket
@@ -88,6 +89,7 @@ func (c *Client) getnsp(nsp string) (n *namespace, ok bool) { n, ok = c.nsps[nsp
 
 // process is the Packet process handle on client side
 func (c *Client) process(sock *socket, p *Packet) {
+	verifPoint("client.process")
 	nsp, ok := c.getnsp(p.Namespace)
 	if !ok {
 		return
diff --git a/engine/client.go b/engine/client.go
index 4fab733..73bf8d0 100644
--- a/engine/client.go
+++ b/engine/client.go
@@ -60,6 +60,7 @@ func Dial(rawurl string, requestHeader http.Header, dialer Dialer) (c *Client, e
 		}
 	}()
 	go func() {
+		verifPoint("client.reader.start")
 		defer ß.Close()
 		var p *Packet
 		var err error
@@ -73,12 +74,14 @@ func Dial(rawurl string, requestHeader http.Header, dialer Dialer) (c *Client, e
 				log.Println("read:", err.Error())
 				return
 			}
+			verifPoint("client.reader.handle")
 			if err = c.handle(ß, p); err != nil {
 				log.Println("handle:", err.Error())
 			}
 		}
 	}()
 
+	verifPoint("client.dialed")
 	return
 }
 
diff --git a/engine/emitter.go b/engine/emitter.go
index 618b2c8..d4c5763 100644
--- a/engine/emitter.go
+++ b/engine/emitter.go
@@ -33,6 +33,7 @@ func (e *emitter) close() {
 	e.wg.Wait()
 }
 func (e *emitter) submit(p *Packet) error {
+	verifPoint("emitter.submit")
 	select {
 	case <-e.done:
 		return errEmitterClosed
@@ -59,7 +60,9 @@ func (e *emitter) loop() {
 		case <-e.done:
 			return
 		case p := <-e.packets:
+			verifPoint("emitter.dequeued")
 			e.so.barrier.Wait()
+			verifPoint("emitter.write")
 			e.so.RLock()
 			e.so.SetWriteDeadline(time.Now().Add(e.so.writeTimeout))
 			e.so.WritePacket(p)
@@ -72,6 +75,7 @@ func (e *emitter) flush() {
 	for {
 		select {
 		case p := <-e.packets:
+			verifPoint("emitter.flush")
 			e.so.barrier.Wait()
 			e.so.RLock()
 			e.so.SetWriteDeadline(time.Now().Add(e.so.writeTimeout))
diff --git a/engine/hook.go b/engine/hook.go
new file mode 100644
index 0000000..786204c
--- /dev/null
+++ b/engine/hook.go
@@ -0,0 +1,7 @@
+//go:build !verif
+// +build !verif
+
+package engine
+
+// verifPoint marks a scheduling point; it does nothing unless built with tag `verif`.
+func verifPoint(string) {}
diff --git a/engine/hook_verif.go b/engine/hook_verif.go
new file mode 100644
index 0000000..0623780
--- /dev/null
+++ b/engine/hook_verif.go
@@ -0,0 +1,17 @@
+//go:build verif
+// +build verif
+
+package engine
+
+import "sync/atomic"
+
+var verifHook atomic.Value
+
+// SetVerifHook installs f, to be called at every scheduling point of this package. Only built with tag `verif`.
+func SetVerifHook(f func(point string)) { verifHook.Store(f) }
+
+func verifPoint(point string) {
+	if f, ok := verifHook.Load().(func(string)); ok {
+		f(point)
+	}
+}
diff --git a/engine/polling.go b/engine/polling.go
index b753e32..b9c76d0 100644
--- a/engine/polling.go
+++ b/engine/polling.go
@@ -90,6 +90,7 @@ func (p *pollingConn) ReadPacket() (*Packet, error) {
 			}
 		}
 	}
+	verifPoint("polling.read")
 	select {
 	case <-p.closed:
 		return nil, ErrPollingConnClosed
@@ -131,6 +132,7 @@ func (p *pollingConn) ReadPacketOut(ctx context.Context) (*Packet, error) {
 	if p.isClosed() {
 		return nil, ErrPollingConnClosed
 	}
+	verifPoint("polling.readout")
 	select {
 	case <-p.closed:
 		return nil, ErrPollingConnClosed
@@ -163,6 +165,7 @@ func (p *pollingConn) WritePacket(pkt *Packet) error {
 			}
 		}
 	}
+	verifPoint("polling.write")
 	select {
 	case <-p.closed:
 		return ErrPollingConnClosed
@@ -249,6 +252,7 @@ func (p *pollingConn) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			return
 		}
 		for i := range payload.packets {
+			verifPoint("polling.post")
 			select {
 			case <-p.closed:
 				http.Error(w, "closed", http.StatusNotFound)
diff --git a/engine/server.go b/engine/server.go
index 63485de..5901d53 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -56,7 +56,9 @@ func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...Orig
 					PingInterval: int(interval / time.Millisecond),
 					PingTimeout:  int(timeout / time.Millisecond),
 				})
+				verifPoint("server.opened")
 				go func() {
+					verifPoint("server.reader.start")
 					defer ß.Close()
 					defer s.sessionManager.Remove(ß.id)
 					var p *Packet
@@ -71,12 +73,14 @@ func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...Orig
 							s.fire(ß, EventClose, MessageTypeString, nil)
 							return
 						}
+						verifPoint("server.reader.handle")
 						if err = s.handle(ß, p); err != nil {
 							log.Println("handle:", err.Error())
 						}
 					}
 				}()
 
+				verifPoint("server.onopen")
 				onOpen(ß)
 			}
 		}
@@ -144,6 +148,7 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		}
 		ß := s.NewSession(conn, s.pingTimeout+s.pingInterval, s.pingTimeout)
 		ß.transportName = transport.Name()
+		verifPoint("server.accepted")
 		select {
 		case <-s.done:
 			return
@@ -152,6 +157,7 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		ß.ServeHTTP(w, r)
 	} else {
 		ß, exists := s.sessionManager.Get(sid)
+		verifPoint("server.session")
 		if !exists {
 			http.Error(w, "invalid session", http.StatusBadRequest)
 			return
@@ -177,6 +183,7 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
 		newConn.Close()
 		return
 	}
+	verifPoint("upgrade.probed")
 	if p.pktType != PacketTypePing {
 		newConn.Close()
 		return
@@ -191,12 +198,14 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
 	ß.RLock()
 	conn := ß.Conn
 	ß.RUnlock()
+	verifPoint("upgrade.pause")
 
 	if err := conn.Pause(); err != nil {
 		newConn.Close()
 		return
 	}
 
+	verifPoint("upgrade.paused")
 	newConn.SetReadDeadline(time.Now().Add(ß.readTimeout))
 	p, err = newConn.ReadPacket()
 	if err != nil {
@@ -210,18 +219,22 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
 		return
 	}
 
+	verifPoint("upgrade.confirmed")
 	conn.Close()
+	verifPoint("upgrade.closed")
 
 	for _, packet := range conn.FlushOut() {
 		newConn.SetWriteDeadline(time.Now().Add(ß.writeTimeout))
 		newConn.WritePacket(packet)
 	}
 
+	verifPoint("upgrade.flushed")
 	ß.Lock()
 	ß.Conn = newConn
 	ß.transportName = transportName
 	ß.Conn.copyHeaderFrom(conn)
 	ß.Unlock()
+	verifPoint("upgrade.swapped")
 
 	for _, packet := range conn.FlushIn() {
 		s.handle(ß, packet)
diff --git a/engine/socket.go b/engine/socket.go
index d8ac152..b05db1a 100644
--- a/engine/socket.go
+++ b/engine/socket.go
@@ -36,6 +36,7 @@ func (s *Socket) Read() (p *Packet, err error) {
 	s.RLock()
 	conn := s.Conn
 	s.RUnlock()
+	verifPoint("socket.read")
 	if err = conn.SetReadDeadline(time.Now().Add(s.readTimeout)); err != nil {
 		return
 	}
@@ -46,7 +47,9 @@ func (s *Socket) Read() (p *Packet, err error) {
 // Close closes underlying connection and background emitter
 func (s *Socket) Close() (err error) {
 	s.once.Do(func() {
+		verifPoint("socket.close")
 		s.emitter.close()
+		verifPoint("socket.close.conn")
 		err = s.Conn.Close()
 	})
 	return
diff --git a/engine/websocket.go b/engine/websocket.go
index 34081aa..935d144 100644
--- a/engine/websocket.go
+++ b/engine/websocket.go
@@ -56,6 +56,7 @@ func (w *websocketConn) Close() error {
 }
 
 func (w *websocketConn) WritePacket(p *Packet) error {
+	verifPoint("websocket.write")
 	wc, err := w.nextWriter(p.msgType, p.pktType)
 	if err != nil {
 		return err
diff --git a/handle.go b/handle.go
index 491bd76..bd188ce 100644
--- a/handle.go
+++ b/handle.go
@@ -62,6 +62,7 @@ func (a *ackHandle) fireAck(so Socket, id uint64, data []byte, buffer [][]byte,
 	a.mutex.RLock()
 	fn, ok := a.ackmap[id]
 	a.mutex.RUnlock()
+	verifPoint("ack.found")
 	if ok {
 		a.mutex.Lock()
 		delete(a.ackmap, id)
diff --git a/hook.go b/hook.go
new file mode 100644
index 0000000..dadfb21
--- /dev/null
+++ b/hook.go
@@ -0,0 +1,7 @@
+//go:build !verif
+// +build !verif
+
+package socketio
+
+// verifPoint marks a scheduling point; it does nothing unless built with tag `verif`.
+func verifPoint(string) {}
diff --git a/hook_verif.go b/hook_verif.go
new file mode 100644
index 0000000..e7286f8
--- /dev/null
+++ b/hook_verif.go
@@ -0,0 +1,17 @@
+//go:build verif
+// +build verif
+
+package socketio
+
+import "sync/atomic"
+
+var verifHook atomic.Value
+
+// SetVerifHook installs f, to be called at every scheduling point of this package. Only built with tag `verif`.
+func SetVerifHook(f func(point string)) { verifHook.Store(f) }
+
+func verifPoint(point string) {
+	if f, ok := verifHook.Load().(func(string)); ok {
+		f(point)
+	}
+}
diff --git a/server.go b/server.go
index 2d4fa96..2fd7c02 100644
--- a/server.go
+++ b/server.go
@@ -21,6 +21,7 @@ type Server struct {
 func NewServer(interval, timeout time.Duration, parser Parser, oc ...engine.OriginChecker) (server *Server, err error) {
 	e, err := engine.NewServer(interval, timeout, func(ß *engine.Socket) {
 		socket := newSocket(ß, parser)
+		verifPoint("server.open")
 		socket.attachnsp("/")
 		nsp := server.creatensp("/")
 		if err := socket.emitPacket(&Packet{
@@ -31,9 +32,11 @@ func NewServer(interval, timeout time.Duration, parser Parser, oc ...engine.Orig
 				nsp.onError(socket, err)
 			}
 		}
+		verifPoint("server.open.connected")
 		server.sockLock.Lock()
 		server.sockets[ß] = socket
 		server.sockLock.Unlock()
+		verifPoint("server.open.registered")
 		if nsp.onConnect != nil {
 			nsp.onConnect(socket)
 		}
@@ -76,6 +79,7 @@ func NewServer(interval, timeout time.Duration, parser Parser, oc ...engine.Orig
 		server.sockLock.Lock()
 		delete(server.sockets, ß)
 		server.sockLock.Unlock()
+		verifPoint("server.close.removed")
 		socket.Close()
 		detachall(server, socket)
 	}))
@@ -108,6 +112,7 @@ func (s *Server) OnError(fn func(err error)) { s.onError = fn }
 
 // process is the Packet process handle on server side
 func (s *Server) process(sock *socket, p *Packet) {
+	verifPoint("server.process")
 	nsp, ok := s.getnsp(p.Namespace)
 	if !ok {
 		if p.Type > PacketTypeDisconnect {
diff --git a/socket.go b/socket.go
index 0cdf2e5..2776771 100644
--- a/socket.go
+++ b/socket.go
@@ -83,6 +83,7 @@ type nspStore interface {
 }
 
 func detachall(s nspStore, sock *socket) {
+	verifPoint("socket.detachall")
 	sock.mutex.Lock()
 	for k := range sock.acks {
 		delete(sock.acks, k)
@@ -133,6 +134,7 @@ func (s *socket) emit(nsp string, event string, args ...interface{}) (err error)
 		}
 	}
 	p.Data = data
+	verifPoint("socket.emit")
 	return s.emitPacket(p)
 }
 
@@ -158,10 +160,12 @@ func (s *socket) emitPacket(p *Packet) (err error) {
 	if err = s.ß.Emit(engine.EventMessage, MessageTypeString, b); err != nil {
 		return
 	}
+	verifPoint("socket.emit.frame")
 	for _, d := range bin {
 		if err = s.ß.Emit(engine.EventMessage, MessageTypeBinary, d); err != nil {
 			return
 		}
+		verifPoint("socket.emit.frame")
 	}
 	return
 }
-- 
2.43.0


From dc5c1a5d884d80e29cc678f9287d8a2027e48dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:15 +0000
Subject: [PATCH 02/37] fix: decode polling payloads completely and refuse
 truncated or malformed ones

Packet data was taken from a single Read, which corrupts packets arriving in
pieces; base64 padding left trailing zero bytes and the base64 decoder read past
the packet; negative and huge lengths panicked or allocated without bound; and
truncated payloads were accepted.
---
 engine/payload.go | 64 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/engine/payload.go b/engine/payload.go
index b75aeee..53fc2bd 100644
--- a/engine/payload.go
+++ b/engine/payload.go
@@ -2,6 +2,7 @@ package engine
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/base64"
 	"errors"
 	"io"
@@ -13,6 +14,9 @@ var (
 	ErrInvalidPayload = errors.New("invalid payload")
 )
 
+// maxPacketLength bounds the packet length accepted in a payload
+const maxPacketLength = 1<<31 - 10
+
 type byteReader interface {
 	io.Reader
 	io.ByteReader
@@ -140,21 +144,46 @@ func (p *Packet) WriteTo(w io.Writer) (n int64, err error) {
 
 func (p *Packet) decode(pr byteReader) (int, error) {
 	n, l, err := p.decodeHead(pr)
+	if err != nil {
+		return n, headError(n, err)
+	}
+	data, err := readBody(pr, p.pktType, l)
+	n += len(data)
 	if err != nil {
 		return n, err
 	}
-	var rd io.Reader = pr
-	n += l
 	if p.msgType == MessageTypeBinary {
-		rd = base64.NewDecoder(base64.StdEncoding, pr /*io.LimitReader(pr, int64(l))*/)
-		l = base64.StdEncoding.DecodedLen(l)
+		b := make([]byte, base64.StdEncoding.DecodedLen(len(data)))
+		if l, err = base64.StdEncoding.Decode(b, data); err != nil {
+			return n, ErrInvalidPayload
+		}
+		data = b[:l]
 	}
-	p.data = make([]byte, l)
-	if l == 0 {
-		return n, nil
+	p.data = data
+	return n, nil
+}
+
+// headError tells a clean end of the payload from one in the middle of a packet head.
+func headError(n int, err error) error {
+	if n > 0 && err == io.EOF {
+		return ErrInvalidPayload
 	}
-	_, err = rd.Read(p.data)
-	return n, err
+	return err
+}
+
+// readBody reads exactly the l bytes of data of a packet; memory grows with what is received, not with what is announced.
+func readBody(r io.Reader, pktType PacketType, l int) ([]byte, error) {
+	if l < 0 || pktType > PacketTypeNoop {
+		return nil, ErrInvalidPayload
+	}
+	var buf bytes.Buffer
+	if _, err := io.CopyN(&buf, r, int64(l)); err != nil {
+		if err == io.EOF {
+			err = ErrInvalidPayload
+		}
+		return buf.Bytes(), err
+	}
+	return buf.Bytes(), nil
 }
 
 func (p *Packet) decodeHead(r io.ByteReader) (n int, length int, err error) {
@@ -170,6 +199,9 @@ func (p *Packet) decodeHead(r io.ByteReader) (n int, length int, err error) {
 		if b < '0' || b > '9' {
 			return n, 0, ErrInvalidPayload
 		}
+		if length > maxPacketLength/10 {
+			return n, 0, ErrInvalidPayload
+		}
 		length = length*10 + int(b-'0')
 	}
 	b, err := r.ReadByte()
@@ -253,6 +285,10 @@ func (p *packet2) decodeHead(r io.ByteReader) (n int, length int, err error) {
 			err = ErrInvalidPayload
 			return
 		}
+		if length > maxPacketLength/10 {
+			err = ErrInvalidPayload
+			return
+		}
 		length = length*10 + int(b)
 	}
 	b, err = r.ReadByte()
@@ -271,12 +307,8 @@ func (p *packet2) decodeHead(r io.ByteReader) (n int, length int, err error) {
 func (p *packet2) decode(pr byteReader) (int, error) {
 	n, l, err := p.decodeHead(pr)
 	if err != nil {
-		return n, err
-	}
-	p.data = make([]byte, l)
-	if l == 0 {
-		return n, nil
+		return n, headError(n, err)
 	}
-	nn, err := pr.Read(p.data)
-	return n + nn, err
+	p.data, err = readBody(pr, p.pktType, l)
+	return n + len(p.data), err
 }
-- 
2.43.0


From bf11f975f90cb22be8dcbfab363d7a4c4ec29f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 03/37] fix: declare the content type of poll responses and
 emit valid JSONP

The header was set after WriteHeader, so it was never sent, and the JSONP
argument was quoted twice.
---
 engine/polling.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/engine/polling.go b/engine/polling.go
index b9c76d0..2f32dcb 100644
--- a/engine/polling.go
+++ b/engine/polling.go
@@ -214,7 +214,6 @@ func (p *pollingConn) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			http.Error(w, err.Error(), http.StatusNotFound)
 			return
 		}
-		w.WriteHeader(http.StatusOK)
 		q := r.URL.Query()
 		b64 := q.Get(queryBase64)
 		if jsonp := q.Get(queryJSONP); jsonp != "" {
@@ -314,7 +313,7 @@ func writeJSONP(w http.ResponseWriter, jsonp string, wt io.WriterTo) error {
 	if err != nil {
 		return err
 	}
-	_, err = fmt.Fprintf(w, `___eio[%s]("%s");`, jsonp, buf.String())
+	_, err = fmt.Fprintf(w, `___eio[%s](%s);`, jsonp, bytes.TrimSpace(buf.Bytes()))
 	return err
 }
 
-- 
2.43.0


From 1b2d1060cb9def3de52101e807a6113f70b20bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 04/37] fix: unmarshal msgpack maps with named string key types

---
 parser_msgp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_msgp.go b/parser_msgp.go
index 407d9ca..154881b 100644
--- a/parser_msgp.go
+++ b/parser_msgp.go
@@ -205,7 +205,7 @@ func msgpReadMap(b []byte, mapType reflect.Type) (v reflect.Value, o []byte, err
 		if err != nil {
 			return
 		}
-		v.SetMapIndex(reflect.ValueOf(string(key)), val.Elem())
+		v.SetMapIndex(reflect.ValueOf(string(key)).Convert(mapType.Key()), val.Elem())
 	}
 	return
 }
-- 
2.43.0


From 43bf86ca7dc4d0678e3f996bf5697f2f86e9e72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 05/37] fix: refuse msgpack messages nested deeper than the
 decoder can recurse

---
 parser_msgp.go | 48 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/parser_msgp.go b/parser_msgp.go
index 154881b..d9d78d9 100644
--- a/parser_msgp.go
+++ b/parser_msgp.go
@@ -2,6 +2,7 @@ package socketio
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"reflect"
 	"time"
@@ -292,7 +293,9 @@ func (m *msgpackDecoder) Add(msgType MessageType, data []byte) (err error) {
 	case MessageTypeString:
 		err = json.Unmarshal(data, &p)
 	case MessageTypeBinary:
-		_, err = p.UnmarshalMsg(data)
+		if err = msgpCheckDepth(data); err == nil {
+			_, err = p.UnmarshalMsg(data)
+		}
 	}
 	if err != nil {
 		return err
@@ -304,4 +307,47 @@ func (m *msgpackDecoder) Add(msgType MessageType, data []byte) (err error) {
 	return nil
 }
 
+// msgpMaxDepth limits the nesting of a message, as encoding/json does: msgp skips and reads values recursively
+const msgpMaxDepth = 10000
+
+var errMsgpDepth = errors.New("msgpack: exceeded max depth")
+
+// msgpCheckDepth walks over the first value in b without recursion
+func msgpCheckDepth(b []byte) (err error) {
+	var left []uint64 // values to go in each enclosing array or map
+	for {
+		var n uint64
+		var sz uint32
+		switch msgp.NextType(b) {
+		case msgp.ArrayType:
+			sz, b, err = msgp.ReadArrayHeaderBytes(b)
+			n = uint64(sz)
+		case msgp.MapType:
+			sz, b, err = msgp.ReadMapHeaderBytes(b)
+			n = 2 * uint64(sz)
+		default:
+			b, err = msgp.Skip(b)
+		}
+		if err != nil {
+			return err
+		}
+		if n > 0 {
+			if len(left) == msgpMaxDepth {
+				return errMsgpDepth
+			}
+			left = append(left, n)
+			continue
+		}
+		for len(left) > 0 {
+			if left[len(left)-1]--; left[len(left)-1] > 0 {
+				break
+			}
+			left = left[:len(left)-1]
+		}
+		if len(left) == 0 {
+			return nil
+		}
+	}
+}
+
 func (m *msgpackDecoder) Decoded() <-chan *Packet { return m.packets }
-- 
2.43.0


From c2987a34084d7d2382673fea065faa8889341d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:55 +0000
Subject: [PATCH 06/37] fix: run the open callback before reading its session,
 and off the accept loop

A packet arriving while the callback ran was handled before the socket was
set up, and a callback that blocked kept every other client from connecting.
---
 engine/server.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/engine/server.go b/engine/server.go
index 5901d53..d5d2a46 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -61,6 +61,8 @@ func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...Orig
 					verifPoint("server.reader.start")
 					defer ß.Close()
 					defer s.sessionManager.Remove(ß.id)
+					verifPoint("server.onopen")
+					onOpen(ß)
 					var p *Packet
 					var err error
 					for {
@@ -79,9 +81,6 @@ func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...Orig
 						}
 					}
 				}()
-
-				verifPoint("server.onopen")
-				onOpen(ß)
 			}
 		}
 	}()
-- 
2.43.0


From c49f5e7abc1899a80e80240765073a139fcbd1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 07/37] fix: refuse handshakes once the server is closed

They were left pending in the accept channel, with their session, emitter
and connection, and the request unanswered.
---
 engine/server.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/engine/server.go b/engine/server.go
index d5d2a46..1282f5d 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -26,7 +26,7 @@ func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...Orig
 	s := &Server{
 		pingInterval:   interval,
 		pingTimeout:    timeout,
-		ßchan:          make(chan *Socket, 1),
+		ßchan:          make(chan *Socket),
 		done:           done,
 		sessionManager: newSessionManager(),
 		eventHandlers:  newEventHandlers(),
@@ -116,6 +116,15 @@ func (s *Server) Close() (err error) {
 	return
 }
 
+func (s *Server) isClosed() bool {
+	select {
+	case <-s.done:
+		return true
+	default:
+	}
+	return false
+}
+
 func (s *Server) getTransport(name string) Transport {
 	switch name {
 	case transportWebsocket:
@@ -141,6 +150,10 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	}
 
 	if sid := query.Get(querySession); sid == "" {
+		if s.isClosed() {
+			http.Error(w, "server closed", http.StatusServiceUnavailable)
+			return
+		}
 		conn, err := transport.Accept(w, r)
 		if err != nil {
 			return
@@ -150,6 +163,9 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		verifPoint("server.accepted")
 		select {
 		case <-s.done:
+			s.sessionManager.Remove(ß.id)
+			ß.Close()
+			ß.ServeHTTP(w, r)
 			return
 		case s.ßchan <- ß:
 		}
-- 
2.43.0


From 99b6331f7b7926a4309e00c9a7b469a828c64d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:18 +0000
Subject: [PATCH 08/37] fix: fire the close event exactly once, on the client
 too, and flush on Client.Close

A close packet fired it twice on the server; on the client neither a lost
connection nor Close fired it. Client.Close dropped packets already emitted
and left the emitter running until the reader noticed.
---
 engine/client.go | 7 ++++---
 engine/server.go | 4 ++--
 engine/socket.go | 1 +
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/engine/client.go b/engine/client.go
index 73bf8d0..9f54bc2 100644
--- a/engine/client.go
+++ b/engine/client.go
@@ -61,7 +61,8 @@ func Dial(rawurl string, requestHeader http.Header, dialer Dialer) (c *Client, e
 	}()
 	go func() {
 		verifPoint("client.reader.start")
-		defer ß.Close()
+		defer ß.closeEvent.Do(func() { c.fire(ß, EventClose, MessageTypeString, nil) })
+		defer c.Close()
 		var p *Packet
 		var err error
 		for {
@@ -89,7 +90,7 @@ func (c *Client) handle(ß *Socket, p *Packet) (err error) {
 	switch p.pktType {
 	case PacketTypeOpen:
 	case PacketTypeClose:
-		c.fire(ß, EventClose, p.msgType, p.data)
+		ß.closeEvent.Do(func() { c.fire(ß, EventClose, p.msgType, p.data) })
 		return ß.Close()
 	case PacketTypePing:
 	case PacketTypePong:
@@ -107,7 +108,7 @@ func (c *Client) handle(ß *Socket, p *Packet) (err error) {
 func (c *Client) Close() (err error) {
 	c.once.Do(func() {
 		close(c.closeChan)
-		err = c.Conn.Close()
+		err = c.Socket.Close()
 	})
 	return
 }
diff --git a/engine/server.go b/engine/server.go
index 1282f5d..fc78b2d 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -72,7 +72,7 @@ func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...Orig
 								continue
 							}
 							log.Println("handle:", err.Error())
-							s.fire(ß, EventClose, MessageTypeString, nil)
+							ß.closeEvent.Do(func() { s.fire(ß, EventClose, MessageTypeString, nil) })
 							return
 						}
 						verifPoint("server.reader.handle")
@@ -91,7 +91,7 @@ func (s *Server) handle(ß *Socket, p *Packet) (err error) {
 	switch p.pktType {
 	case PacketTypeOpen:
 	case PacketTypeClose:
-		s.fire(ß, EventClose, p.msgType, p.data)
+		ß.closeEvent.Do(func() { s.fire(ß, EventClose, p.msgType, p.data) })
 		return ß.Close()
 	case PacketTypePing:
 		err = ß.Emit(EventPong, p.msgType, p.data)
diff --git a/engine/socket.go b/engine/socket.go
index b05db1a..207dbf8 100644
--- a/engine/socket.go
+++ b/engine/socket.go
@@ -17,6 +17,7 @@ type Socket struct {
 	barrier       Barrier
 	emitter       *emitter
 	once          sync.Once
+	closeEvent    sync.Once
 	sync.RWMutex
 }
 
-- 
2.43.0


From 714ed7cf778f68078815922aed41137de102ad65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:02 +0000
Subject: [PATCH 09/37] fix: let Dial set up its handlers before the first
 packet, and close a failed handshake

Packets right behind the handshake were handled before Client.Dial had
registered its callbacks, and lost; a handshake that failed after the
connection was made left it open.
---
 client.go        | 11 ++++++-----
 engine/client.go | 12 +++++++++++-
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/client.go b/client.go
index e62a280..fb1026a 100644
--- a/client.go
+++ b/client.go
@@ -21,10 +21,12 @@ func NewClient() (c *Client) {
 
 // Dial connects to a socket.io server represented by `rawurl` and create Client instance on success.
 func (c *Client) Dial(rawurl string, requestHeader http.Header, dialer engine.Dialer, parser Parser) (err error) {
-	e, err := engine.Dial(rawurl, requestHeader, dialer)
-	if err != nil {
-		return
-	}
+	_, err = engine.Dial(rawurl, requestHeader, dialer, func(e *engine.Client) { c.open(e, parser) })
+	return
+}
+
+// open sets up the socket upon the underlying engine.io connection
+func (c *Client) open(e *engine.Client, parser Parser) {
 	verifPoint("client.dial.engine")
 	socket := newSocket(e.Socket, parser)
 	c.engine = e
@@ -50,7 +52,6 @@ func (c *Client) Dial(rawurl string, requestHeader http.Header, dialer engine.Di
 		socket.Close()
 		detachall(c, socket)
 	}))
-	return
 }
 
 // Emit send event messages to namespace `nsp`
diff --git a/engine/client.go b/engine/client.go
index 9f54bc2..6c7265f 100644
--- a/engine/client.go
+++ b/engine/client.go
@@ -17,11 +17,18 @@ type Client struct {
 }
 
 // Dial connects to a engine.io server represented by `rawurl` and create Client instance on success.
-func Dial(rawurl string, requestHeader http.Header, dialer Dialer) (c *Client, err error) {
+// Functions in onOpen are called with the Client before any packet following the handshake is handled; event
+// handlers registered there miss nothing.
+func Dial(rawurl string, requestHeader http.Header, dialer Dialer, onOpen ...func(*Client)) (c *Client, err error) {
 	conn, err := dialer.Dial(rawurl, requestHeader)
 	if err != nil {
 		return
 	}
+	defer func() {
+		if err != nil {
+			conn.Close()
+		}
+	}()
 	p, err := conn.ReadPacket()
 	if err != nil {
 		return
@@ -44,6 +51,9 @@ func Dial(rawurl string, requestHeader http.Header, dialer Dialer) (c *Client, e
 		eventHandlers: newEventHandlers(),
 		closeChan:     closeChan,
 	}
+	for _, fn := range onOpen {
+		fn(c)
+	}
 
 	go func() {
 		var err error
-- 
2.43.0


From c5ee778d50670a73ccc735f153d42ae0c58429d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 10/37] fix: lose nothing when a session is upgraded, and leave
 it alone when the upgrade fails

The emitter dropped the packet it held when the polling connection was
paused or closed; the reader took the closed polling connection for the end
of the session, competed with the upgrade for what had been received, and
ran message callbacks concurrently with it. Output stood still from the
moment the websocket connected; callbacks that emitted deadlocked with the
paused barrier; a second attempt waited for the first and panicked or hung;
a closed socket was revived. After any attempt, failed ones included, the
request went on to poll a packet that nobody received.
---
 engine/emitter.go | 11 ++----
 engine/polling.go |  6 ++--
 engine/server.go  | 50 ++++++++++++++++++---------
 engine/socket.go  | 88 ++++++++++++++++++++++++++++++++++++++++++-----
 4 files changed, 119 insertions(+), 36 deletions(-)

diff --git a/engine/emitter.go b/engine/emitter.go
index d4c5763..f683f5a 100644
--- a/engine/emitter.go
+++ b/engine/emitter.go
@@ -3,7 +3,6 @@ package engine
 import (
 	"errors"
 	"sync"
-	"time"
 )
 
 var (
@@ -63,10 +62,7 @@ func (e *emitter) loop() {
 			verifPoint("emitter.dequeued")
 			e.so.barrier.Wait()
 			verifPoint("emitter.write")
-			e.so.RLock()
-			e.so.SetWriteDeadline(time.Now().Add(e.so.writeTimeout))
-			e.so.WritePacket(p)
-			e.so.RUnlock()
+			e.so.write(p)
 		}
 	}
 }
@@ -77,10 +73,7 @@ func (e *emitter) flush() {
 		case p := <-e.packets:
 			verifPoint("emitter.flush")
 			e.so.barrier.Wait()
-			e.so.RLock()
-			e.so.SetWriteDeadline(time.Now().Add(e.so.writeTimeout))
-			e.so.WritePacket(p)
-			e.so.RUnlock()
+			e.so.write(p)
 		default:
 			return
 		}
diff --git a/engine/polling.go b/engine/polling.go
index 2f32dcb..11da418 100644
--- a/engine/polling.go
+++ b/engine/polling.go
@@ -73,7 +73,9 @@ func (p *pollingConn) RemoteAddr() net.Addr { return p.remoteAddr }
 func (p *pollingConn) httpHeader() http.Header  { return p.header }
 func (p *pollingConn) copyHeaderFrom(conn Conn) { copyHeaderFrom(p.header, conn) }
 
-func (p *pollingConn) ReadPacket() (*Packet, error) {
+func (p *pollingConn) ReadPacket() (*Packet, error) { return p.readPacket(p.pauseChan()) }
+
+func (p *pollingConn) readPacket(paused <-chan struct{}) (*Packet, error) {
 	if p.isClosed() {
 		return nil, ErrPollingConnClosed
 	}
@@ -99,7 +101,7 @@ func (p *pollingConn) ReadPacket() (*Packet, error) {
 			return nil, ErrPollingConnClosed
 		}
 		return pkt, nil
-	case <-p.pauseChan():
+	case <-paused:
 		return nil, ErrPollingConnPaused
 	case <-timer:
 		return nil, ErrPollingConnReadTimeout
diff --git a/engine/server.go b/engine/server.go
index fc78b2d..3245dff 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -67,10 +67,6 @@ func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...Orig
 					var err error
 					for {
 						if p, err = ß.Read(); err != nil {
-							if err == ErrPollingConnPaused {
-								ß.barrier.Wait()
-								continue
-							}
 							log.Println("handle:", err.Error())
 							ß.closeEvent.Do(func() { s.fire(ß, EventClose, MessageTypeString, nil) })
 							return
@@ -183,14 +179,18 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 				return
 			}
 			s.upgrade(ß, transportName, conn)
+			return
 		}
 		ß.ServeHTTP(w, r)
 	}
 }
 
 func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
-	ß.barrier.Pause()
-	defer ß.barrier.Resume()
+	if !ß.beginUpgrade(newConn) {
+		newConn.Close()
+		return
+	}
+	defer ß.endUpgrade()
 
 	newConn.SetReadDeadline(time.Now().Add(ß.readTimeout))
 	p, err := newConn.ReadPacket()
@@ -210,6 +210,14 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
 		return
 	}
 
+	upgraded := false
+	defer func() {
+		if upgraded { // after Resume: callbacks may emit
+			s.fire(ß, EventUpgrade, p.msgType, p.data)
+		}
+	}()
+	ß.barrier.Pause()
+	defer ß.barrier.Resume()
 	ß.RLock()
 	conn := ß.Conn
 	ß.RUnlock()
@@ -235,24 +243,32 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
 	}
 
 	verifPoint("upgrade.confirmed")
+	ß.writeLock.Lock() // nothing is sent on newConn before what is left on the old transport
+	defer ß.writeLock.Unlock()
+	ß.Lock()
+	if ß.closed {
+		ß.Unlock()
+		newConn.Close()
+		conn.Resume()
+		return
+	}
 	conn.Close()
 	verifPoint("upgrade.closed")
-
-	for _, packet := range conn.FlushOut() {
-		newConn.SetWriteDeadline(time.Now().Add(ß.writeTimeout))
-		newConn.WritePacket(packet)
-	}
-
-	verifPoint("upgrade.flushed")
-	ß.Lock()
+	ß.prev, ß.probing = conn, nil
 	ß.Conn = newConn
 	ß.transportName = transportName
 	ß.Conn.copyHeaderFrom(conn)
 	ß.Unlock()
 	verifPoint("upgrade.swapped")
 
-	for _, packet := range conn.FlushIn() {
-		s.handle(ß, packet)
+	for _, packet := range conn.FlushOut() {
+		newConn.SetWriteDeadline(time.Now().Add(ß.writeTimeout))
+		if err := newConn.WritePacket(packet); err != nil {
+			newConn.Close()
+			break
+		}
 	}
-	s.fire(ß, EventUpgrade, p.msgType, p.data)
+
+	verifPoint("upgrade.flushed")
+	upgraded = true
 }
diff --git a/engine/socket.go b/engine/socket.go
index 207dbf8..4d5ff46 100644
--- a/engine/socket.go
+++ b/engine/socket.go
@@ -18,6 +18,11 @@ type Socket struct {
 	emitter       *emitter
 	once          sync.Once
 	closeEvent    sync.Once
+	prev          Conn       // transport before an upgrade, until what it received has been read
+	probing       Conn       // transport of an upgrade in progress
+	closed        bool       // Close was called
+	writeLock     sync.Mutex // one writer, on one transport, at a time
+	received      []*Packet  // read from prev; only used by Read
 	sync.RWMutex
 }
 
@@ -32,26 +37,93 @@ func newSocket(conn Conn, readTimeout, writeTimeout time.Duration, id string) *S
 	return so
 }
 
+// conn returns the current transport
+func (s *Socket) conn() Conn {
+	s.RLock()
+	defer s.RUnlock()
+	return s.Conn
+}
+
 // Read returns a Packet upon success or error on failure
 func (s *Socket) Read() (p *Packet, err error) {
-	s.RLock()
-	conn := s.Conn
-	s.RUnlock()
-	verifPoint("socket.read")
-	if err = conn.SetReadDeadline(time.Now().Add(s.readTimeout)); err != nil {
-		return
+	for {
+		s.Lock()
+		conn := s.Conn
+		if s.prev != nil {
+			s.received, s.prev = s.prev.FlushIn(), nil
+		}
+		s.Unlock()
+		if len(s.received) > 0 {
+			p, s.received = s.received[0], s.received[1:]
+			return p, nil
+		}
+		verifPoint("socket.read")
+		p, err = s.readFrom(conn)
+		if err == nil || conn == s.conn() {
+			return
+		}
+	}
+}
+
+func (s *Socket) readFrom(conn Conn) (p *Packet, err error) {
+	deadline := time.Now().Add(s.readTimeout)
+	if err = conn.SetReadDeadline(deadline); err == nil {
+		p, err = conn.ReadPacket()
+	}
+	if polling, ok := conn.(*pollingConn); ok && err == ErrPollingConnPaused {
+		// it is paused to send nothing; what the peer sends is still to be read
+		polling.readDeadline.Store(deadline)
+		p, err = polling.readPacket(nil)
 	}
-	p, err = conn.ReadPacket()
 	return
 }
 
+// write sends a Packet on the current transport, waiting for an upgrade in progress
+func (s *Socket) write(p *Packet) (err error) {
+	for {
+		s.writeLock.Lock()
+		conn := s.conn()
+		if err = conn.SetWriteDeadline(time.Now().Add(s.writeTimeout)); err == nil {
+			err = conn.WritePacket(p)
+		}
+		s.writeLock.Unlock()
+		if err != ErrPollingConnPaused {
+			return
+		}
+		s.barrier.Wait()
+	}
+}
+
+// beginUpgrade admits one upgrade at a time
+func (s *Socket) beginUpgrade(newConn Conn) bool {
+	s.Lock()
+	defer s.Unlock()
+	if s.closed || s.probing != nil {
+		return false
+	}
+	s.probing = newConn
+	return true
+}
+
+func (s *Socket) endUpgrade() {
+	s.Lock()
+	s.probing = nil
+	s.Unlock()
+}
+
 // Close closes underlying connection and background emitter
 func (s *Socket) Close() (err error) {
 	s.once.Do(func() {
+		s.Lock()
+		s.closed = true
+		if s.probing != nil {
+			s.probing.Close()
+		}
+		s.Unlock()
 		verifPoint("socket.close")
 		s.emitter.close()
 		verifPoint("socket.close.conn")
-		err = s.Conn.Close()
+		err = s.conn().Close()
 	})
 	return
 }
-- 
2.43.0


From a38704cefff5ab7aaa3ad93ecf952091bab5a7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 11/37] fix: copy the caller's buffer in Emit, which is sent
 after it returns

---
 engine/socket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/socket.go b/engine/socket.go
index 4d5ff46..cad0ae8 100644
--- a/engine/socket.go
+++ b/engine/socket.go
@@ -149,7 +149,7 @@ func (s *Socket) Emit(event event, msgType MessageType, args interface{}) (err e
 	}
 	var data []byte
 	if d, ok := args.([]byte); ok {
-		data = d
+		data = append([]byte(nil), d...) // sent later; the caller may reuse d
 	} else if s, ok := args.(string); ok {
 		data = []byte(s)
 	} else {
-- 
2.43.0


From a4b6a03ac0641e1debf581f3f81486aa0b07398f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 12/37] fix: end a connection that cannot be written to instead
 of continuing with a message missing

---
 engine/emitter.go | 11 +++++++++--
 engine/server.go  |  1 +
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/engine/emitter.go b/engine/emitter.go
index f683f5a..4c8ec6c 100644
--- a/engine/emitter.go
+++ b/engine/emitter.go
@@ -62,18 +62,25 @@ func (e *emitter) loop() {
 			verifPoint("emitter.dequeued")
 			e.so.barrier.Wait()
 			verifPoint("emitter.write")
-			e.so.write(p)
+			e.send(p)
 		}
 	}
 }
 
+// send writes p; if that fails the connection is ended rather than continued with p missing
+func (e *emitter) send(p *Packet) {
+	if err := e.so.write(p); err != nil && err != ErrInvalidPayload {
+		e.so.conn().Close()
+	}
+}
+
 func (e *emitter) flush() {
 	for {
 		select {
 		case p := <-e.packets:
 			verifPoint("emitter.flush")
 			e.so.barrier.Wait()
-			e.so.write(p)
+			e.send(p)
 		default:
 			return
 		}
diff --git a/engine/server.go b/engine/server.go
index 3245dff..2182572 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -68,6 +68,7 @@ func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...Orig
 					for {
 						if p, err = ß.Read(); err != nil {
 							log.Println("handle:", err.Error())
+							ß.conn().Close() // nobody is there to flush to
 							ß.closeEvent.Do(func() { s.fire(ß, EventClose, MessageTypeString, nil) })
 							return
 						}
-- 
2.43.0


From 678c1386cf55cd6978077dfc1b7f045d9c17dd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 13/37] fix: refuse requests naming the session of a websocket
 connection

---
 engine/server.go | 7 ++++++-
 engine/socket.go | 7 +++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/engine/server.go b/engine/server.go
index 2182572..d0a0096 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -174,7 +174,12 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			http.Error(w, "invalid session", http.StatusBadRequest)
 			return
 		}
-		if transportName := transport.Name(); ß.transportName != transportName {
+		current := ß.transport()
+		if current == transportWebsocket { // neither serves requests nor can be upgraded
+			http.Error(w, "transport mismatch", http.StatusBadRequest)
+			return
+		}
+		if transportName := transport.Name(); current != transportName {
 			conn, err := transport.Accept(w, r)
 			if err != nil {
 				return
diff --git a/engine/socket.go b/engine/socket.go
index cad0ae8..b77aca3 100644
--- a/engine/socket.go
+++ b/engine/socket.go
@@ -44,6 +44,13 @@ func (s *Socket) conn() Conn {
 	return s.Conn
 }
 
+// transport returns the name of the current transport
+func (s *Socket) transport() string {
+	s.RLock()
+	defer s.RUnlock()
+	return s.transportName
+}
+
 // Read returns a Packet upon success or error on failure
 func (s *Socket) Read() (p *Packet, err error) {
 	for {
-- 
2.43.0


From e56e3e5baeaa65d56a9175d4a19576df76270620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:52 +0000
Subject: [PATCH 14/37] fix: lock the transport of a session where an upgrade
 may replace it

---
 engine/socket.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/engine/socket.go b/engine/socket.go
index b77aca3..cd9c926 100644
--- a/engine/socket.go
+++ b/engine/socket.go
@@ -2,6 +2,7 @@ package engine
 
 import (
 	"encoding/json"
+	"net"
 	"net/http"
 	"sync"
 	"time"
@@ -176,11 +177,17 @@ func (s *Socket) Send(args interface{}) (err error) {
 
 // ServeHTTP implements http.Handler
 func (s *Socket) ServeHTTP(w http.ResponseWriter, r *http.Request) {
-	if handler, ok := s.Conn.(http.Handler); ok {
+	if handler, ok := s.conn().(http.Handler); ok {
 		handler.ServeHTTP(w, r)
 	}
 }
 
+// LocalAddr returns the local network address of the current transport
+func (s *Socket) LocalAddr() net.Addr { return s.conn().LocalAddr() }
+
+// RemoteAddr returns the remote network address of the current transport
+func (s *Socket) RemoteAddr() net.Addr { return s.conn().RemoteAddr() }
+
 // Sid returns socket session id, assigned by server.
 func (s *Socket) Sid() string {
 	return s.id
-- 
2.43.0


From 5323288e0a04596656d686e81a2ac217c7daa5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 15/37] fix: run disconnect callbacks without holding the
 socket's lock

---
 socket.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/socket.go b/socket.go
index 2776771..b1be025 100644
--- a/socket.go
+++ b/socket.go
@@ -84,16 +84,20 @@ type nspStore interface {
 
 func detachall(s nspStore, sock *socket) {
 	verifPoint("socket.detachall")
+	var left []string
 	sock.mutex.Lock()
 	for k := range sock.acks {
 		delete(sock.acks, k)
+		left = append(left, k)
+	}
+	sock.mutex.Unlock()
+	for _, k := range left { // unlocked: callbacks may use sock
 		if nsp, ok := s.getnsp(k); ok {
 			if nsp.onDisconnect != nil {
 				nsp.onDisconnect(&nspSock{socket: sock, name: k})
 			}
 		}
 	}
-	sock.mutex.Unlock()
 }
 
 func (s *socket) fireAck(nsp string, id uint64, data []byte, buffer [][]byte, au ArgsUnmarshaler) (err error) {
-- 
2.43.0


From 86cb1afad1b7c3f025fe2e5fe94ca6466321ac89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 16/37] fix: accept nil among the arguments of an emit

---
 socket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket.go b/socket.go
index b1be025..ee30713 100644
--- a/socket.go
+++ b/socket.go
@@ -131,7 +131,7 @@ func (s *socket) emit(nsp string, event string, args ...interface{}) (err error)
 	data := []interface{}{event}
 	p := &Packet{Type: PacketTypeEvent, Namespace: nsp}
 	for i := range args {
-		if t := reflect.TypeOf(args[i]); t.Kind() == reflect.Func {
+		if t := reflect.TypeOf(args[i]); t != nil && t.Kind() == reflect.Func {
 			p.ID = newid(ack.onAck(args[i]))
 		} else {
 			data = append(data, args[i])
-- 
2.43.0


From 75a08f09453bbfa5e792b5bd6106e395327e8ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 17/37] fix: send the frames of a packet contiguously

---
 socket.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/socket.go b/socket.go
index ee30713..de956c3 100644
--- a/socket.go
+++ b/socket.go
@@ -52,6 +52,7 @@ type socket struct {
 	decoder Decoder
 	acks    map[string]*ackHandle
 	mutex   sync.RWMutex
+	sending sync.Mutex // frames of a packet are contiguous
 }
 
 func newSocket(ß *engine.Socket, parser Parser) *socket {
@@ -161,6 +162,8 @@ func (s *socket) emitPacket(p *Packet) (err error) {
 	if err != nil {
 		return
 	}
+	s.sending.Lock()
+	defer s.sending.Unlock()
 	if err = s.ß.Emit(engine.EventMessage, MessageTypeString, b); err != nil {
 		return
 	}
-- 
2.43.0


From 09a3137a903d8baebcb48aa0ee0a1e04aed52d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 18/37] fix: send no empty text frame ahead of an all-binary
 packet

---
 socket.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/socket.go b/socket.go
index de956c3..b242f55 100644
--- a/socket.go
+++ b/socket.go
@@ -164,7 +164,10 @@ func (s *socket) emitPacket(p *Packet) (err error) {
 	}
 	s.sending.Lock()
 	defer s.sending.Unlock()
-	if err = s.ß.Emit(engine.EventMessage, MessageTypeString, b); err != nil {
+	if b != nil || len(bin) == 0 { // a packet may be all binary
+		err = s.ß.Emit(engine.EventMessage, MessageTypeString, b)
+	}
+	if err != nil {
 		return
 	}
 	verifPoint("socket.emit.frame")
-- 
2.43.0


From 3e1d349cdb733f37c21305b3dace22e732294fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 19/37] fix: answer without the event's attachments, and with
 an empty list if there is nothing to return

---
 socket.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/socket.go b/socket.go
index b242f55..56b5096 100644
--- a/socket.go
+++ b/socket.go
@@ -154,6 +154,10 @@ func (s *socket) emitError(nsp string, arg interface{}) (err error) {
 
 func (s *socket) ack(p *Packet) (err error) {
 	p.Type = PacketTypeAck
+	p.buffer = nil // holds what came with the event
+	if p.Data == nil {
+		p.Data = []interface{}{}
+	}
 	return s.emitPacket(p)
 }
 
-- 
2.43.0


From b87759f91be077f1e2d67422bfd2b6d9f1c0dc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 20/37] fix: take a binary first argument of an ack for the
 attachment it is

---
 parser_default.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser_default.go b/parser_default.go
index 09349ad..d0a6db5 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -310,10 +310,15 @@ func extractAttachments(b []byte) (buffer [][]byte, left []byte) {
 		buffer = make([][]byte, len(m))
 	}
 	left = placeholderExp.ReplaceAllLiteral(b, nil)
+	if loc := firstPlaceholderExp.FindIndex(left); loc != nil { // of an ack
+		buffer = append(buffer, nil)
+		left = append([]byte{'['}, left[loc[1]:]...)
+	}
 	return
 }
 
 var placeholderExp = regexp.MustCompile(`\s*,\s*\{\s*"_placeholder"\s*:\s*true\s*,\s*"num"\s*:\s*\d*?\s*\}\s*`)
+var firstPlaceholderExp = regexp.MustCompile(`^\[\s*\{\s*"_placeholder"\s*:\s*true\s*,\s*"num"\s*:\s*\d*?\s*\}\s*,?`)
 var eventExp = regexp.MustCompile(`^\[\s*"(?P<event>[^"]+)"\s*,?`)
 
 type placeholder struct {
-- 
2.43.0


From 79f24e17e984d54e06e18223a295e9fc839114b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:16 +0000
Subject: [PATCH 21/37] fix: unescape event names

---
 parser_default.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser_default.go b/parser_default.go
index d0a6db5..2aa0501 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -301,6 +301,9 @@ func extractEvent(b []byte) (event string, left []byte, match bool) {
 		event = string(sub[1])
 		left = eventExp.ReplaceAll(b, []byte{'['})
 		match = true
+		if bytes.IndexByte(sub[1], '\\') >= 0 {
+			match = json.Unmarshal([]byte(`"`+event+`"`), &event) == nil
+		}
 	}
 	return
 }
@@ -319,7 +322,7 @@ func extractAttachments(b []byte) (buffer [][]byte, left []byte) {
 
 var placeholderExp = regexp.MustCompile(`\s*,\s*\{\s*"_placeholder"\s*:\s*true\s*,\s*"num"\s*:\s*\d*?\s*\}\s*`)
 var firstPlaceholderExp = regexp.MustCompile(`^\[\s*\{\s*"_placeholder"\s*:\s*true\s*,\s*"num"\s*:\s*\d*?\s*\}\s*,?`)
-var eventExp = regexp.MustCompile(`^\[\s*"(?P<event>[^"]+)"\s*,?`)
+var eventExp = regexp.MustCompile(`^\[\s*"(?P<event>(?:[^"\\]|\\.)+)"\s*,?`)
 
 type placeholder struct {
 	num int
-- 
2.43.0


From 7e7f19ad5bc12cd536309717f3cfaeefa45814f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 22/37] fix: run connect, event and disconnect callbacks only
 as the namespace is joined and left

---
 client.go | 10 ++++++++++
 server.go | 10 ++++++++++
 socket.go | 11 +++++++++++
 3 files changed, 31 insertions(+)

diff --git a/client.go b/client.go
index fb1026a..09e1449 100644
--- a/client.go
+++ b/client.go
@@ -98,16 +98,26 @@ func (c *Client) process(sock *socket, p *Packet) {
 
 	switch p.Type {
 	case PacketTypeConnect:
+		again := sock.attached(p.Namespace)
 		sock.attachnsp(p.Namespace)
+		if again {
+			return
+		}
 		if nsp.onConnect != nil {
 			nsp.onConnect(&nspSock{socket: sock, name: p.Namespace})
 		}
 	case PacketTypeDisconnect:
+		if !sock.attached(p.Namespace) {
+			return
+		}
 		sock.detachnsp(p.Namespace)
 		if nsp.onDisconnect != nil {
 			nsp.onDisconnect(&nspSock{socket: sock, name: p.Namespace})
 		}
 	case PacketTypeEvent, PacketTypeBinaryEvent:
+		if !sock.attached(p.Namespace) {
+			return
+		}
 		event, data, bin, err := sock.decoder.ParseData(p)
 		if err != nil {
 			if nsp.onError != nil {
diff --git a/server.go b/server.go
index 2fd7c02..101b9cd 100644
--- a/server.go
+++ b/server.go
@@ -122,6 +122,7 @@ func (s *Server) process(sock *socket, p *Packet) {
 	}
 	switch p.Type {
 	case PacketTypeConnect:
+		again := sock.attached(p.Namespace)
 		sock.attachnsp(p.Namespace)
 		if err := sock.emitPacket(&Packet{
 			Type:      PacketTypeConnect,
@@ -131,15 +132,24 @@ func (s *Server) process(sock *socket, p *Packet) {
 				nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)
 			}
 		}
+		if again {
+			return
+		}
 		if nsp.onConnect != nil {
 			nsp.onConnect(&nspSock{socket: sock, name: p.Namespace})
 		}
 	case PacketTypeDisconnect:
+		if !sock.attached(p.Namespace) {
+			return
+		}
 		sock.detachnsp(p.Namespace)
 		if nsp.onDisconnect != nil {
 			nsp.onDisconnect(&nspSock{socket: sock, name: p.Namespace})
 		}
 	case PacketTypeEvent, PacketTypeBinaryEvent:
+		if !sock.attached(p.Namespace) {
+			return
+		}
 		event, data, bin, err := sock.decoder.ParseData(p)
 		if err != nil {
 			if nsp.onError != nil {
diff --git a/socket.go b/socket.go
index 56b5096..ae70b54 100644
--- a/socket.go
+++ b/socket.go
@@ -65,6 +65,9 @@ func newSocket(ß *engine.Socket, parser Parser) *socket {
 }
 
 func (s *socket) attachnsp(nsp string) {
+	if s.attached(nsp) { // keep the callbacks awaiting an answer
+		return
+	}
 	s.mutex.Lock()
 	s.acks[nsp] = &ackHandle{ackmap: make(map[uint64]*callback)}
 	s.mutex.Unlock()
@@ -79,6 +82,14 @@ func (s *socket) detachnsp(nsp string) {
 	s.mutex.Unlock()
 }
 
+// attached changes in the goroutine that processes packets only
+func (s *socket) attached(nsp string) bool {
+	s.mutex.RLock()
+	_, ok := s.acks[nsp]
+	s.mutex.RUnlock()
+	return ok
+}
+
 type nspStore interface {
 	getnsp(nsp string) (n *namespace, ok bool)
 }
-- 
2.43.0


From 756fb38c6304e97c2f0f5e9b4e1b92b324af7f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 23/37] fix: never reuse the ack ids of a namespace joined
 again

---
 handle.go | 7 +++++++
 socket.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/handle.go b/handle.go
index bd188ce..ba8a06d 100644
--- a/handle.go
+++ b/handle.go
@@ -79,3 +79,10 @@ func (a *ackHandle) onAck(callback interface{}) uint64 {
 	a.mutex.Unlock()
 	return id
 }
+
+// reset forgets the callbacks awaiting an answer
+func (a *ackHandle) reset() {
+	a.mutex.Lock()
+	a.ackmap = make(map[uint64]*callback)
+	a.mutex.Unlock()
+}
diff --git a/socket.go b/socket.go
index ae70b54..d52a036 100644
--- a/socket.go
+++ b/socket.go
@@ -51,6 +51,7 @@ type socket struct {
 	encoder Encoder
 	decoder Decoder
 	acks    map[string]*ackHandle
+	left    map[string]*ackHandle // of namespaces left; ids are not reused when they are joined again
 	mutex   sync.RWMutex
 	sending sync.Mutex // frames of a packet are contiguous
 }
@@ -61,6 +62,7 @@ func newSocket(ß *engine.Socket, parser Parser) *socket {
 		encoder: parser.Encoder(),
 		decoder: parser.Decoder(),
 		acks:    make(map[string]*ackHandle),
+		left:    make(map[string]*ackHandle),
 	}
 }
 
@@ -70,6 +72,10 @@ func (s *socket) attachnsp(nsp string) {
 	}
 	s.mutex.Lock()
 	s.acks[nsp] = &ackHandle{ackmap: make(map[uint64]*callback)}
+	if left, ok := s.left[nsp]; ok {
+		left.reset()
+		s.acks[nsp] = left
+	}
 	s.mutex.Unlock()
 }
 
@@ -77,6 +83,7 @@ func (s *socket) detachnsp(nsp string) {
 	s.mutex.Lock()
 	_, ok := s.acks[nsp]
 	if ok {
+		s.left[nsp] = s.acks[nsp]
 		delete(s.acks, nsp)
 	}
 	s.mutex.Unlock()
-- 
2.43.0


From c3b6f677cd440f9a2a97070a1bf19fab02e122d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 24/37] fix: report answers that do not fit, nameless events
 and missing attachments

---
 client.go         | 5 ++++-
 parser_default.go | 6 +++++-
 parser_msgp.go    | 4 ++++
 server.go         | 5 ++++-
 4 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/client.go b/client.go
index 09e1449..cb1abc6 100644
--- a/client.go
+++ b/client.go
@@ -159,7 +159,10 @@ func (c *Client) process(sock *socket, p *Packet) {
 				}
 				return
 			}
-			sock.fireAck(p.Namespace, *p.ID, data, bin, sock.decoder)
+			err = sock.fireAck(p.Namespace, *p.ID, data, bin, sock.decoder)
+			if err != nil && nsp.onError != nil {
+				nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)
+			}
 		}
 	case PacketTypeError:
 		if nsp.onError != nil {
diff --git a/parser_default.go b/parser_default.go
index 2aa0501..cfb5b3b 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -168,6 +168,7 @@ func (d *defaultDecoder) Decoded() <-chan *Packet {
 }
 
 func (d *defaultDecoder) Add(msgType MessageType, data []byte) error {
+	var incomplete error
 	if msgType != MessageTypeString {
 		if d.lastp == nil {
 			return ErrUnknownPacket
@@ -183,6 +184,9 @@ func (d *defaultDecoder) Add(msgType MessageType, data []byte) error {
 		if len(p.buffer) != p.attachments {
 			return ErrUnknownPacket
 		}
+		if d.lastp != nil { // its attachments are missing
+			incomplete = ErrUnknownPacket
+		}
 		d.lastp = p
 	}
 
@@ -190,7 +194,7 @@ func (d *defaultDecoder) Add(msgType MessageType, data []byte) error {
 		d.emit()
 	}
 
-	return nil
+	return incomplete
 }
 
 func (d *defaultDecoder) emit() {
diff --git a/parser_msgp.go b/parser_msgp.go
index d9d78d9..3f6e547 100644
--- a/parser_msgp.go
+++ b/parser_msgp.go
@@ -276,6 +276,10 @@ func (msgpackDecoder) ParseData(p *Packet) (event string, data []byte, bin [][]b
 			if err != nil {
 				return
 			}
+			if event == "" {
+				err = ErrUnknownPacket
+				return
+			}
 			// reconstruct array
 			data = make([]byte, 0, len(b))
 			data = msgp.AppendArrayHeader(data, sz-1)
diff --git a/server.go b/server.go
index 101b9cd..08eb2ca 100644
--- a/server.go
+++ b/server.go
@@ -191,7 +191,10 @@ func (s *Server) process(sock *socket, p *Packet) {
 				}
 				return
 			}
-			sock.fireAck(p.Namespace, *p.ID, data, bin, sock.decoder)
+			err = sock.fireAck(p.Namespace, *p.ID, data, bin, sock.decoder)
+			if err != nil && nsp.onError != nil {
+				nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)
+			}
 		}
 	case PacketTypeError:
 		if nsp.onError != nil {
-- 
2.43.0


From e21ee8bba8705f6167e71ba8282cd94227180625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:59 +0000
Subject: [PATCH 25/37] fix: keep no callback of a failed emit, nor the lock
 when one is invalid

---
 handle.go | 10 +++++++++-
 socket.go |  5 ++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/handle.go b/handle.go
index ba8a06d..7ade218 100644
--- a/handle.go
+++ b/handle.go
@@ -74,8 +74,9 @@ func (a *ackHandle) fireAck(so Socket, id uint64, data []byte, buffer [][]byte,
 
 func (a *ackHandle) onAck(callback interface{}) uint64 {
 	id := atomic.AddUint64(&a.id, 1)
+	cb := newCallback(callback) // may panic
 	a.mutex.Lock()
-	a.ackmap[id] = newCallback(callback)
+	a.ackmap[id] = cb
 	a.mutex.Unlock()
 	return id
 }
@@ -86,3 +87,10 @@ func (a *ackHandle) reset() {
 	a.ackmap = make(map[uint64]*callback)
 	a.mutex.Unlock()
 }
+
+// forget drops the callback of an emit that failed
+func (a *ackHandle) forget(id uint64) {
+	a.mutex.Lock()
+	delete(a.ackmap, id)
+	a.mutex.Unlock()
+}
diff --git a/socket.go b/socket.go
index d52a036..c03cd99 100644
--- a/socket.go
+++ b/socket.go
@@ -158,7 +158,10 @@ func (s *socket) emit(nsp string, event string, args ...interface{}) (err error)
 	}
 	p.Data = data
 	verifPoint("socket.emit")
-	return s.emitPacket(p)
+	if err = s.emitPacket(p); err != nil && p.ID != nil {
+		ack.forget(*p.ID)
+	}
+	return
 }
 
 func (s *socket) emitError(nsp string, arg interface{}) (err error) {
-- 
2.43.0


From eaa6b61b98824ebeb160ed4dd473e02643079a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:00 +0000
Subject: [PATCH 26/37] fix: create the root namespace before serving

---
 server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server.go b/server.go
index 08eb2ca..92fe8e4 100644
--- a/server.go
+++ b/server.go
@@ -45,6 +45,7 @@ func NewServer(interval, timeout time.Duration, parser Parser, oc ...engine.Orig
 		return
 	}
 	server = &Server{engine: e, sockets: make(map[*engine.Socket]*socket), nsps: make(map[string]*namespace)}
+	server.creatensp("/") // not while serving
 
 	e.On(engine.EventMessage, engine.Callback(func(ß *engine.Socket, msgType engine.MessageType, data []byte) {
 		server.sockLock.RLock()
-- 
2.43.0


From dcf922d8a11621ab120f2fae9f48eb2ca09587cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 27/37] fix: encode what can be decoded: no failed, misplaced
 or ambiguous parts

---
 parser_default.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/parser_default.go b/parser_default.go
index cfb5b3b..cb09842 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -10,6 +10,7 @@ import (
 	"reflect"
 	"regexp"
 	"strconv"
+	"strings"
 )
 
 type defaultParser struct{}
@@ -32,18 +33,29 @@ func (d defaultEncoder) Encode(p *Packet) ([]byte, [][]byte, error) {
 	return buf.Bytes(), p.buffer, nil
 }
 
-func (defaultEncoder) preprocess(p *Packet) {
+func (defaultEncoder) preprocess(p *Packet) (err error) {
 	if p.Namespace != "" && p.Namespace[0] != '/' {
 		p.Namespace = "/" + p.Namespace
 	}
 	p.attachments = 0
+	if strings.IndexByte(p.Namespace, ',') >= 0 { // ends it on the wire
+		return fmt.Errorf("invalid namespace %q", p.Namespace)
+	}
+	switch p.Type {
+	case PacketTypeConnect, PacketTypeDisconnect, PacketTypeError: // cannot have attachments
+		p.buffer = nil
+		return
+	}
 	if d, ok := p.Data.([]interface{}); ok {
 		p.buffer = make([][]byte, 0, len(d))
 		for i := range d {
 			if b, ok := d[i].(encoding.BinaryMarshaler); ok {
 				d[i] = &placeholder{num: p.attachments}
 				p.attachments++
-				bb, _ := b.MarshalBinary()
+				bb, err := b.MarshalBinary()
+				if err != nil {
+					return err
+				}
 				p.buffer = append(p.buffer, bb)
 			}
 		}
@@ -56,10 +68,13 @@ func (defaultEncoder) preprocess(p *Packet) {
 			p.Type = PacketTypeBinaryAck
 		}
 	}
+	return
 }
 
 func (d defaultEncoder) encodeTo(w üWriter, p *Packet) (err error) {
-	d.preprocess(p)
+	if err = d.preprocess(p); err != nil {
+		return
+	}
 
 	if err = w.WriteByte(byte(p.Type) + '0'); err != nil {
 		return
@@ -86,6 +101,13 @@ func (d defaultEncoder) encodeTo(w üWriter, p *Packet) (err error) {
 		}
 	}
 	if p.Data != nil {
+		if p.Type == PacketTypeError {
+			if b, _ := json.Marshal(p.Data); len(b) > 0 && b[0] >= '0' && b[0] <= '9' {
+				if err = w.WriteByte(' '); err != nil { // it is not an id
+					return
+				}
+			}
+		}
 		err = json.NewEncoder(w).Encode(p.Data)
 	}
 	return
-- 
2.43.0


From 6708f5d8c292530c1943febc62cd8e528073929d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 28/37] fix: accept the members of a placeholder in either
 order

---
 parser_default.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser_default.go b/parser_default.go
index cb09842..644c7af 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -346,8 +346,8 @@ func extractAttachments(b []byte) (buffer [][]byte, left []byte) {
 	return
 }
 
-var placeholderExp = regexp.MustCompile(`\s*,\s*\{\s*"_placeholder"\s*:\s*true\s*,\s*"num"\s*:\s*\d*?\s*\}\s*`)
-var firstPlaceholderExp = regexp.MustCompile(`^\[\s*\{\s*"_placeholder"\s*:\s*true\s*,\s*"num"\s*:\s*\d*?\s*\}\s*,?`)
+var placeholderExp = regexp.MustCompile(`\s*,\s*\{\s*(?:"_placeholder"\s*:\s*true\s*,\s*"num"\s*:\s*\d*?|"num"\s*:\s*\d+\s*,\s*"_placeholder"\s*:\s*true)\s*\}\s*`)
+var firstPlaceholderExp = regexp.MustCompile(`^\[\s*\{\s*(?:"_placeholder"\s*:\s*true\s*,\s*"num"\s*:\s*\d*?|"num"\s*:\s*\d+\s*,\s*"_placeholder"\s*:\s*true)\s*\}\s*,?`)
 var eventExp = regexp.MustCompile(`^\[\s*"(?P<event>(?:[^"\\]|\\.)+)"\s*,?`)
 
 type placeholder struct {
-- 
2.43.0


From 0dc9931ccb2da887919f731507176920cf8e98e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:14 +0000
Subject: [PATCH 29/37] fix: keep nobody waiting to emit while an upgrade holds
 the output back

---
 engine/emitter.go | 34 +++++++++++++++++++++++++++++-----
 engine/socket.go  | 19 +++++++------------
 2 files changed, 36 insertions(+), 17 deletions(-)

diff --git a/engine/emitter.go b/engine/emitter.go
index 4c8ec6c..16f9b00 100644
--- a/engine/emitter.go
+++ b/engine/emitter.go
@@ -60,8 +60,6 @@ func (e *emitter) loop() {
 			return
 		case p := <-e.packets:
 			verifPoint("emitter.dequeued")
-			e.so.barrier.Wait()
-			verifPoint("emitter.write")
 			e.send(p)
 		}
 	}
@@ -69,8 +67,35 @@ func (e *emitter) loop() {
 
 // send writes p; if that fails the connection is ended rather than continued with p missing
 func (e *emitter) send(p *Packet) {
-	if err := e.so.write(p); err != nil && err != ErrInvalidPayload {
-		e.so.conn().Close()
+	for held := []*Packet{p}; len(held) > 0; {
+		verifPoint("emitter.write")
+		err := e.so.write(held[0])
+		if err == ErrPollingConnPaused {
+			held = e.hold(held)
+			continue
+		}
+		held = held[1:]
+		if err != nil && err != ErrInvalidPayload {
+			e.so.conn().Close()
+		}
+	}
+}
+
+// hold takes what is submitted until an upgrade in progress ends. Nobody may be kept waiting for that: the upgrade
+// depends on packets still being read, and whoever reads them may emit.
+func (e *emitter) hold(held []*Packet) []*Packet {
+	resumed := make(chan struct{})
+	go func() {
+		e.so.barrier.Wait()
+		close(resumed)
+	}()
+	for {
+		select {
+		case <-resumed:
+			return held
+		case p := <-e.packets:
+			held = append(held, p)
+		}
 	}
 }
 
@@ -79,7 +104,6 @@ func (e *emitter) flush() {
 		select {
 		case p := <-e.packets:
 			verifPoint("emitter.flush")
-			e.so.barrier.Wait()
 			e.send(p)
 		default:
 			return
diff --git a/engine/socket.go b/engine/socket.go
index cd9c926..165f07c 100644
--- a/engine/socket.go
+++ b/engine/socket.go
@@ -86,20 +86,15 @@ func (s *Socket) readFrom(conn Conn) (p *Packet, err error) {
 	return
 }
 
-// write sends a Packet on the current transport, waiting for an upgrade in progress
+// write sends a Packet on the current transport; ErrPollingConnPaused tells that an upgrade is in progress
 func (s *Socket) write(p *Packet) (err error) {
-	for {
-		s.writeLock.Lock()
-		conn := s.conn()
-		if err = conn.SetWriteDeadline(time.Now().Add(s.writeTimeout)); err == nil {
-			err = conn.WritePacket(p)
-		}
-		s.writeLock.Unlock()
-		if err != ErrPollingConnPaused {
-			return
-		}
-		s.barrier.Wait()
+	s.writeLock.Lock()
+	defer s.writeLock.Unlock()
+	conn := s.conn()
+	if err = conn.SetWriteDeadline(time.Now().Add(s.writeTimeout)); err == nil {
+		err = conn.WritePacket(p)
 	}
+	return
 }
 
 // beginUpgrade admits one upgrade at a time
-- 
2.43.0


From 78a1e0ddb065fc61461a0ff80f08b1796dd85897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 30/37] fix: leave the shared websocket transport alone when
 accepting

---
 engine/transport.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/engine/transport.go b/engine/transport.go
index 5711544..28977a7 100644
--- a/engine/transport.go
+++ b/engine/transport.go
@@ -85,10 +85,11 @@ func (websocketTransport) Name() string {
 }
 
 func (t *websocketTransport) Accept(w http.ResponseWriter, r *http.Request) (Conn, error) {
-	if t.Upgrader.CheckOrigin == nil { // allow all connections by default
-		t.Upgrader.CheckOrigin = func(_ *http.Request) bool { return true }
+	upgrader := t.Upgrader           // t is shared
+	if upgrader.CheckOrigin == nil { // allow all connections by default
+		upgrader.CheckOrigin = func(_ *http.Request) bool { return true }
 	}
-	c, err := t.Upgrader.Upgrade(w, r, w.Header())
+	c, err := upgrader.Upgrade(w, r, w.Header())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From dc523eb92f54b1eb5c086aeb77fd44e8e8635017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:48 +0000
Subject: [PATCH 31/37] fix: refuse binary arguments where others are expected,
 and others where binary ones are

Attachments and the other arguments were matched separately, so that a callback
ran with zero or shifted values instead of the mismatch being reported.
---
 parser_default.go | 48 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/parser_default.go b/parser_default.go
index 644c7af..d5b6337 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -149,7 +149,14 @@ func (defaultDecoder) ParseData(p *Packet) (event string, data []byte, bin [][]b
 }
 
 func (defaultDecoder) UnmarshalArgs(args []reflect.Type, data []byte, buffer [][]byte) ([]reflect.Value, error) {
-	argv := make([]interface{}, 0, len(args))
+	var argv []json.RawMessage
+	if err := json.Unmarshal(data, &argv); err != nil {
+		return nil, err
+	}
+	apart := len(buffer) > 0 // data is without placeholders
+	for _, arg := range argv {
+		apart = apart && !argPlaceholderExp.Match(arg)
+	}
 	in := make([]reflect.Value, len(args))
 	for i, typ := range args {
 		if isTypeSocket(typ) {
@@ -160,23 +167,18 @@ func (defaultDecoder) UnmarshalArgs(args []reflect.Type, data []byte, buffer [][
 		}
 		in[i] = reflect.New(typ)
 		it := in[i].Interface()
-		if b, ok := it.(encoding.BinaryUnmarshaler); ok {
+		if b, ok := it.(encoding.BinaryUnmarshaler); ok && apart {
 			if len(buffer) > 0 {
 				if err := b.UnmarshalBinary(buffer[0]); err != nil {
 					return nil, err
 				}
 				buffer = buffer[1:]
 			}
-		} else {
-			argv = append(argv, it)
-		}
-	}
-	if err := json.Unmarshal(data, &argv); err != nil {
-		return nil, err
-	}
-	for i := range args {
-		if isTypeSocket(args[i]) {
-			continue
+		} else if len(argv) > 0 {
+			if err := unmarshalArg(it, argv[0], buffer); err != nil {
+				return nil, err
+			}
+			argv = argv[1:]
 		}
 		if args[i].Kind() != reflect.Ptr {
 			in[i] = in[i].Elem()
@@ -185,6 +187,25 @@ func (defaultDecoder) UnmarshalArgs(args []reflect.Type, data []byte, buffer [][
 	return in, nil
 }
 
+// unmarshalArg unmarshals an argument into v; what is binary, and nothing else, is in the attachment a placeholder names
+func unmarshalArg(v interface{}, data []byte, buffer [][]byte) error {
+	b, binary := v.(encoding.BinaryUnmarshaler)
+	m := argPlaceholderExp.FindSubmatch(data)
+	switch {
+	case binary && m != nil:
+		num, err := strconv.Atoi(string(m[1]) + string(m[2]))
+		if err != nil || num >= len(buffer) {
+			return fmt.Errorf("no attachment for %s", data)
+		}
+		return b.UnmarshalBinary(buffer[num])
+	case m != nil && len(buffer) > 0:
+		return fmt.Errorf("binary data does not fit %T", v)
+	case binary && string(data) != "null":
+		return fmt.Errorf("data does not fit %T", v)
+	}
+	return json.Unmarshal(data, v)
+}
+
 func (d *defaultDecoder) Decoded() <-chan *Packet {
 	return d.packets
 }
@@ -308,7 +329,7 @@ func (defaultDecoder) decode(s []byte) (p *Packet, err error) {
 			return
 		}
 		p.Data = s[i:]
-		p.buffer, p.Data = extractAttachments(s[i:])
+		p.buffer, _ = extractAttachments(s[i:])
 	default:
 		err = json.Unmarshal(s[i:], &p.Data)
 	}
@@ -348,6 +369,7 @@ func extractAttachments(b []byte) (buffer [][]byte, left []byte) {
 
 var placeholderExp = regexp.MustCompile(`\s*,\s*\{\s*(?:"_placeholder"\s*:\s*true\s*,\s*"num"\s*:\s*\d*?|"num"\s*:\s*\d+\s*,\s*"_placeholder"\s*:\s*true)\s*\}\s*`)
 var firstPlaceholderExp = regexp.MustCompile(`^\[\s*\{\s*(?:"_placeholder"\s*:\s*true\s*,\s*"num"\s*:\s*\d*?|"num"\s*:\s*\d+\s*,\s*"_placeholder"\s*:\s*true)\s*\}\s*,?`)
+var argPlaceholderExp = regexp.MustCompile(`^\{\s*(?:"_placeholder"\s*:\s*true\s*,\s*"num"\s*:\s*(\d+)|"num"\s*:\s*(\d+)\s*,\s*"_placeholder"\s*:\s*true)\s*\}$`)
 var eventExp = regexp.MustCompile(`^\[\s*"(?P<event>(?:[^"\\]|\\.)+)"\s*,?`)
 
 type placeholder struct {
-- 
2.43.0


From 0f1d55034d2423c72c46e68f083e6d352f1ecab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 32/37] fix: refuse events whose data is not JSON

The event's name was cut off together with an optional comma before the rest was
parsed, so that ["e" 1] and ["e",] ran callbacks.
---
 parser_default.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_default.go b/parser_default.go
index d5b6337..3b0f107 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -136,7 +136,7 @@ func (defaultDecoder) ParseData(p *Packet) (event string, data []byte, bin [][]b
 		fallthrough
 	case PacketTypeEvent:
 		var match bool
-		if event, data, match = extractEvent(text); !match {
+		if event, data, match = extractEvent(text); !match || !json.Valid(text) {
 			err = ErrUnknownPacket
 		}
 	case PacketTypeBinaryAck:
-- 
2.43.0


From bebb097726c738295614bb548cabb5647ff74f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:23 +0000
Subject: [PATCH 33/37] fix: refuse packet ids and attachment counts that
 overflow

---
 parser_default.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser_default.go b/parser_default.go
index 3b0f107..12f51c0 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"net/url"
 	"reflect"
 	"regexp"
@@ -271,6 +272,9 @@ func (defaultDecoder) decode(s []byte) (p *Packet, err error) {
 			if s[j] < '0' || s[j] > '9' {
 				return nil, ErrUnknownPacket
 			}
+			if p.attachments > len(s) { // more than it can name
+				return nil, ErrUnknownPacket
+			}
 			p.attachments = p.attachments*10 + int(s[j]-'0')
 		}
 		i = j + 1
@@ -304,7 +308,11 @@ func (defaultDecoder) decode(s []byte) (p *Packet, err error) {
 		var id = uint64(s[i] - '0')
 		for ; j < len(s); j++ {
 			if s[j] >= '0' && s[j] <= '9' {
-				id = id*10 + uint64(s[j]-'0')
+				n := uint64(s[j] - '0')
+				if id > (math.MaxUint64-n)/10 {
+					return nil, ErrUnknownPacket
+				}
+				id = id*10 + n
 			} else {
 				break
 			}
-- 
2.43.0


From ddbb948381ac50267ecd6d870a32cdb8a0929828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:53 +0000
Subject: [PATCH 34/37] fix: an upgrade keeps the headers of the session where
 its request has others

---
 engine/transport.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/engine/transport.go b/engine/transport.go
index 28977a7..989df9a 100644
--- a/engine/transport.go
+++ b/engine/transport.go
@@ -118,11 +118,9 @@ func (t *websocketTransport) Dial(rawurl string, requestHeader http.Header) (Con
 
 func copyHeaderFrom(header http.Header, conn Conn) {
 	for k, vv := range conn.httpHeader() {
-		if _, ok := header[k]; !ok {
-			vv2 := make([]string, len(vv))
-			copy(vv2, vv)
-			header[k] = vv2
-		}
+		vv2 := make([]string, len(vv))
+		copy(vv2, vv)
+		header[k] = vv2
 	}
 }
 
-- 
2.43.0


From f69a5261e14f9adf3b9363758d5d7a505dac5909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:04 +0000
Subject: [PATCH 35/37] fix: a nil pointer argument that is binary when not nil
 panicked the default encoder

---
 parser_default.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser_default.go b/parser_default.go
index 12f51c0..cda206b 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -50,7 +50,7 @@ func (defaultEncoder) preprocess(p *Packet) (err error) {
 	if d, ok := p.Data.([]interface{}); ok {
 		p.buffer = make([][]byte, 0, len(d))
 		for i := range d {
-			if b, ok := d[i].(encoding.BinaryMarshaler); ok {
+			if b, ok := d[i].(encoding.BinaryMarshaler); ok && !isNilPtr(d[i]) {
 				d[i] = &placeholder{num: p.attachments}
 				p.attachments++
 				bb, err := b.MarshalBinary()
@@ -72,6 +72,12 @@ func (defaultEncoder) preprocess(p *Packet) (err error) {
 	return
 }
 
+// isNilPtr tells values that are null, as in encoding/json, rather than binary
+func isNilPtr(i interface{}) bool {
+	v := reflect.ValueOf(i)
+	return v.Kind() == reflect.Ptr && v.IsNil()
+}
+
 func (d defaultEncoder) encodeTo(w üWriter, p *Packet) (err error) {
 	if err = d.preprocess(p); err != nil {
 		return
-- 
2.43.0


From d7d9fdf9ba1ee65f6bdd9ad30739cb722cf9c09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:39 +0000
Subject: [PATCH 36/37] fix: calls on a client that is not connected, or whose
 Dial failed, panicked

---
 client.go |  9 +++++++++
 socket.go | 46 +++++++++++++++++++++++++++++++++++++++-------
 2 files changed, 48 insertions(+), 7 deletions(-)

diff --git a/client.go b/client.go
index cb1abc6..605e5da 100644
--- a/client.go
+++ b/client.go
@@ -56,16 +56,25 @@ func (c *Client) open(e *engine.Client, parser Parser) {
 
 // Emit send event messages to namespace `nsp`
 func (c *Client) Emit(nsp string, event string, args ...interface{}) (err error) {
+	if c.socket == nil { // not connected
+		return ErrorNamespaceUnavaialble
+	}
 	return c.socket.emit(nsp, event, args...)
 }
 
 // Sid returns session id assigned by socket.io server
 func (c *Client) Sid() string {
+	if c.engine == nil {
+		return ""
+	}
 	return c.engine.Sid()
 }
 
 // Close closes underlying engine.io transport
 func (c *Client) Close() error {
+	if c.engine == nil {
+		return nil
+	}
 	return c.engine.Close()
 }
 
diff --git a/socket.go b/socket.go
index c03cd99..a4ecffc 100644
--- a/socket.go
+++ b/socket.go
@@ -135,7 +135,12 @@ func (s *socket) Emit(event string, args ...interface{}) (err error) {
 }
 
 // EmitError implements Socket.EmitError
-func (s *socket) EmitError(arg interface{}) (err error) { return s.emitError("/", arg) }
+func (s *socket) EmitError(arg interface{}) (err error) {
+	if s == nil { // of a client that is not connected
+		return ErrorNamespaceUnavaialble
+	}
+	return s.emitError("/", arg)
+}
 
 // Namespace implements Socket.Namespace
 func (*socket) Namespace() string { return "/" }
@@ -214,9 +219,36 @@ func (s *socket) yield() *Packet {
 	}
 }
 
-func (s *socket) Sid() string                 { return s.ß.Sid() }
-func (s *socket) Close() (err error)          { return s.ß.Close() }
-func (s *socket) LocalAddr() net.Addr         { return s.ß.LocalAddr() }
-func (s *socket) RemoteAddr() net.Addr        { return s.ß.RemoteAddr() }
-func (s *socket) GetHeader(key string) string { return s.ß.GetHeader(key) }
-func (s *socket) SetHeader(key, value string) { s.ß.SetHeader(key, value) }
+func (s *socket) Sid() string        { return s.ß.Sid() }
+func (s *socket) Close() (err error) { return s.ß.Close() }
+
+// LocalAddr implements Socket.LocalAddr
+func (s *socket) LocalAddr() net.Addr {
+	if s == nil {
+		return nil
+	}
+	return s.ß.LocalAddr()
+}
+
+// RemoteAddr implements Socket.RemoteAddr
+func (s *socket) RemoteAddr() net.Addr {
+	if s == nil {
+		return nil
+	}
+	return s.ß.RemoteAddr()
+}
+
+// GetHeader implements Socket.GetHeader
+func (s *socket) GetHeader(key string) string {
+	if s == nil {
+		return ""
+	}
+	return s.ß.GetHeader(key)
+}
+
+// SetHeader implements Socket.SetHeader
+func (s *socket) SetHeader(key, value string) {
+	if s != nil {
+		s.ß.SetHeader(key, value)
+	}
+}
-- 
2.43.0


From a47d1debd1cd918bb4b55dca1a3b94ece7642b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:19 +0000
Subject: [PATCH 37/37] fix: end a polling connection whose response is lost
 instead of continuing with a message missing

---
 engine/polling.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/engine/polling.go b/engine/polling.go
index 11da418..e0bc4c1 100644
--- a/engine/polling.go
+++ b/engine/polling.go
@@ -225,8 +225,14 @@ func (p *pollingConn) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		} else {
 			err = writeXHR2(w, pkt.packet2())
 		}
+		if err == nil {
+			err = r.Context().Err() // nobody is there to get it
+		}
 		if err != nil {
 			log.Println("polling:", err.Error())
+			if pkt.pktType != PacketTypeNoop {
+				p.Close() // rather than going on with pkt missing
+			}
 		}
 	case "POST":
 		var payload Payload
-- 
2.43.0

