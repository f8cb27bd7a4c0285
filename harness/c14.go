package main

import (
	"bufio"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
	"weak"

	"github.com/gorilla/websocket"
	"github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"
)

func init() {
	register(&Suite{ID: "C14", Quick: 4000, Deep: 40000, MinNT: 2000,
		Rule: "ended connections, distinct by role, transport, ways of ending, activity at the end and order of scheduling points passed",
		Run:  runC14})
}

func runC14(c *Ctx) {
	c.Soon(3*time.Second, func() bool { return len(libGoroutines()) == 0 }) // what the previous case left
	base := len(libGoroutines())
	switch k := c.R.Intn(20); {
	case c.Case%211 == 17:
		c14Repeat(c)
	case c.Case%23 == 3:
		c14Posts(c, base)
	case k < 11:
		c14Server(c, base)
	case k < 15:
		c14Client(c, base)
	case k < 18:
		c14Dial(c, base)
	default:
		c14Close(c, base)
	}
}

// libGoroutines returns the goroutines that run library code, or that it started.
func libGoroutines() (out []string) {
	for _, g := range goroutines() {
		if strings.Contains(g, libPath) {
			out = append(out, g)
		}
	}
	return
}

// released waits until no more than base goroutines are inside the library.
func (c *Ctx) released(base int, what string) {
	if !c.Await("goroutines", "the library's goroutines finish: "+what, func() bool { return len(libGoroutines()) <= base }) {
		panic(abort{})
	}
	c.Count("times all goroutines were seen to finish", 1)
}

// handle14 is one socket of the library, of either layer.
type handle14 struct {
	eng *engine.Socket
	sio socketio.Socket
	cli *engine.Client
	sc  *socketio.Client
}

func (h *handle14) emit(size int) error {
	switch {
	case h.sio != nil:
		return h.sio.Emit("e", strings.Repeat("x", size))
	case h.sc != nil:
		return h.sc.Emit("/", "e", strings.Repeat("x", size))
	case h.cli != nil:
		return h.cli.Send(strings.Repeat("x", size))
	}
	return h.eng.Send(strings.Repeat("x", size))
}

func (h *handle14) close() error {
	switch {
	case h.sio != nil:
		return h.sio.Close()
	case h.sc != nil:
		return h.sc.Close()
	case h.cli != nil:
		return h.cli.Close()
	}
	return h.eng.Close()
}

// touch makes every other call; errs are those of emits.
func (h *handle14) touch(r *rand.Rand) (errs []error) {
	type access interface {
		GetHeader(string) string
		SetHeader(string, string)
		Sid() string
		LocalAddr() net.Addr
		RemoteAddr() net.Addr
	}
	var a access
	switch {
	case h.sio != nil:
		a = h.sio
		errs = append(errs, h.sio.EmitError("x"), h.sio.Emit("e", func() {}), h.sio.Emit("e", &socketio.Bytes{Data: []byte("x")}))
	case h.sc != nil:
		a = h.sc
		errs = append(errs, h.sc.EmitError("x"), h.sc.Emit("/", "e", func() {}), h.sc.Emit("/", "e", &socketio.Bytes{Data: []byte("x")}))
	case h.cli != nil:
		a = h.cli
		errs = append(errs, h.cli.Emit(engine.EventMessage, engine.MessageTypeBinary, []byte("x")), h.cli.Emit(engine.EventPing, engine.MessageTypeString, nil))
	default:
		a = h.eng
		errs = append(errs, h.eng.Emit(engine.EventMessage, engine.MessageTypeBinary, []byte("x")), h.eng.Emit(engine.EventPong, engine.MessageTypeString, "x"))
	}
	a.GetHeader("User-Agent")
	a.SetHeader("X-A", "1")
	a.Sid()
	a.LocalAddr()
	a.RemoteAddr()
	return
}

// pointer is the address of the library's object, as a weak pointer.
func (h *handle14) pointer() weak.Pointer[byte] {
	if h.eng != nil {
		return weak.Make((*byte)(unsafe.Pointer(h.eng)))
	}
	return weak.Make((*byte)(reflect.ValueOf(h.sio).UnsafePointer()))
}

// after checks what operations do once a connection has ended.
func (c *Ctx) after(h *handle14, what string) {
	c.Within("blocked-after", "operations on an ended connection return: "+what, func() {
		for i := 0; i < 12; i++ { // more than any buffer
			if err := h.emit(10); err == nil {
				c.Failf("emit-after", "an emit on an ended connection returns no error: %s", what)
				return
			}
		}
		for i, err := range h.touch(nil) {
			if err == nil {
				c.Failf("emit-after", "emit %d on an ended connection returns no error: %s", i, what)
			}
		}
		h.close()
		h.close()
	})
	c.Count("ended connections operated on", 1)
}

// farm14 is a server of either layer.
type farm14 struct {
	*Front
	c       *Ctx
	eng     *engine.Server
	sio     *socketio.Server
	mu      sync.Mutex
	handles map[string]*handle14
	onOpen  func(*handle14)
	onMsg   func(*handle14)
	onEnd   func(*handle14)
	ends    int
	short   bool // sessions end unless they send something soon
}

func (c *Ctx) farm14(sio bool, iv, to time.Duration) *farm14 {
	f := &farm14{c: c, short: iv < time.Second, handles: map[string]*handle14{}}
	opened := func(sid string, h *handle14) {
		f.mu.Lock()
		f.handles[sid] = h
		g := f.onOpen
		f.mu.Unlock()
		if g != nil {
			g(h)
		}
	}
	msg := func(sid string) {
		f.mu.Lock()
		h, g := f.handles[sid], f.onMsg
		f.mu.Unlock()
		if g != nil && h != nil {
			g(h)
		}
	}
	ended := func(sid string) {
		f.mu.Lock()
		h, g := f.handles[sid], f.onEnd
		f.ends++
		f.mu.Unlock()
		if g != nil && h != nil {
			g(h)
		}
	}
	evil := originCheck(func(r *http.Request) bool { return r.Header.Get("Origin") != "http://evil.example" })
	var h http.Handler
	if sio {
		sv, err := socketio.NewServer(iv, to, parserOf(c.R.Intn(2) == 0), evil)
		c.Must(err, "NewServer")
		sv.Namespace("/").OnConnect(func(so socketio.Socket) { opened(so.Sid(), &handle14{sio: so}) }).
			OnDisconnect(func(so socketio.Socket) { ended(so.Sid()) }).
			OnError(func(so socketio.Socket, _ ...interface{}) { msg(so.Sid()) })
		sv.OnError(func(error) {})
		f.sio, h = sv, sv
	} else {
		es, err := engine.NewServer(iv, to, func(so *engine.Socket) { opened(so.Sid(), &handle14{eng: so}) }, evil)
		c.Must(err, "NewServer")
		es.On(engine.EventMessage, engine.Callback(func(so *engine.Socket, _ engine.MessageType, _ []byte) { msg(so.Sid()) }))
		es.On(engine.EventClose, engine.Callback(func(so *engine.Socket, _ engine.MessageType, _ []byte) { ended(so.Sid()) }))
		f.eng, h = es, es
	}
	f.Front = c.Serve(h)
	c.Cleanup(func() { f.close() })
	return f
}

func (f *farm14) close() error {
	if f.sio != nil {
		return f.sio.Close()
	}
	return f.eng.Close()
}

func (f *farm14) wait(sid string) *handle14 {
	var h *handle14
	f.c.MustAwait("open-stall", "open callback", func() bool {
		f.mu.Lock()
		defer f.mu.Unlock()
		h = f.handles[sid]
		return h != nil
	})
	return h
}

// refused requires every kind of request that names sid to be refused.
func (f *farm14) refused(sid, what string) {
	c := f.c
	u := "http://" + f.Addr + "/engine.io/?EIO=3&sid=" + url.QueryEscape(sid)
	c.Within("sid-stall", "requests naming an ended session are answered", func() {
		for _, m := range []string{"GET", "POST"} {
			hdr := http.Header{"Content-Type": {"text/plain;charset=UTF-8"}}
			if code, _ := status(m, u+"&transport=polling", hdr); code != 0 && code/100 != 4 {
				c.Failf("sid", "%s naming an ended session is answered with %d: %s", m, code, what)
			}
		}
		if w, resp, err := dialWS(f.Addr, "sid="+url.QueryEscape(sid), nil, &Inbox{}, nil); err == nil {
			w.Close()
			c.Failf("sid", "a websocket for an ended session is accepted: %s", what)
		} else if resp != nil && resp.StatusCode/100 != 4 {
			c.Failf("sid", "a websocket for an ended session is answered with %d: %s", resp.StatusCode, what)
		}
	})
}

// conn14 is one session and its peer.
type conn14 struct {
	h     *handle14
	sid   string
	w     *WS
	p     *Poll
	probe *WS // upgrade attempt in progress
	desc  string
	gated bool // the peer does not poll
	raw   bool // the peer dropped the connection itself
}

// refusedUpgrade: only the session's end is a reason to refuse an upgrade, and one with short times may have ended.
func (f *farm14) refusedUpgrade(err error) {
	if f.short {
		f.c.Inconclusive("idle session ended before its upgrade: %v", err)
	}
	f.c.Fatalf("upgrade", "an upgrade of an open session fails: %v", err)
}

func (f *farm14) open(r *rand.Rand, gated bool) *conn14 {
	c := f.c
	x := &conn14{}
	switch k := r.Intn(5); k {
	case 0, 1:
		x.w = c.MustWS(f.Addr)
		x.sid, x.desc = x.w.Open.SID, "websocket"
	default:
		x.p = c.MustPoll(f.Addr, r.Intn(3))
		x.sid, x.desc = x.p.Open.SID, "polling"
		if gated {
			x.gated = true
			x.h = f.wait(x.sid)
			return x
		}
		x.p.Start()
	}
	x.h = f.wait(x.sid)
	for k := r.Intn(6) - 3; x.p != nil && k > 0; k-- { // attempts that fail
		w, _, err := dialWS(f.Addr, "sid="+url.QueryEscape(x.sid), nil, &Inbox{}, nil)
		if err != nil {
			f.refusedUpgrade(err)
		}
		c.Cleanup(w.Close)
		wrong := EP{Type: []byte{0, 1, 3, 4, 6}[r.Intn(5)], Data: []byte("x")}
		if r.Intn(2) == 0 {
			w.Send(EP{Type: 2, Data: []byte("probe")})
			c.MustAwait("probe", "the probe is answered or the attempt refused", func() bool { return w.Len(3) > 0 || w.Ended() })
		}
		if r.Intn(4) == 0 {
			w.SendText([]string{"", "9"}[r.Intn(2)])
		} else {
			w.Send(wrong)
		}
		c.MustAwait("attempt-eof", "the connection of a failed upgrade attempt is closed", w.Ended)
		x.desc += ", failed upgrade"
		c.Count("failed upgrades", 1)
	}
	if x.p != nil {
		switch r.Intn(4) {
		case 0:
			var w *WS
			c.MustAwait("upgrade", "an upgrade succeeds in the end", func() bool { // an earlier attempt may not be over yet for the server
				var err error
				if w, err = x.p.Upgrade(c, nil); err != nil && err != errRefused {
					f.refusedUpgrade(err)
				}
				return err == nil
			})
			c.Cleanup(w.Close)
			x.p, x.w, x.desc = nil, w, x.desc+", upgraded"
			w.Send(EP{Type: 2, Data: []byte("there?")})
			c.MustAwait("upgrade", "the server takes the upgrade", func() bool { return w.Len(3) > 1 || f.short && w.Ended() })
		case 1:
			w, _, err := dialWS(f.Addr, "sid="+url.QueryEscape(x.sid), nil, &Inbox{}, nil)
			if err != nil {
				f.refusedUpgrade(err)
			}
			c.Cleanup(w.Close)
			x.probe, x.desc = w, x.desc+", upgrade begun"
			if r.Intn(2) == 0 {
				p, idle := x.p, x.p.Halt()
				w.Send(EP{Type: 2, Data: []byte("probe")})
				go func() { // the attempt has failed: back to polling
					<-w.done
					<-idle
					p.Start()
				}()
				x.desc = x.desc + ", upgrade probed"
				if r.Intn(2) == 0 {
					c.Soon(10*time.Millisecond, func() bool { return w.Len(3) > 0 })
				}
			}
		}
	}
	return x
}

func (x *conn14) send(ps ...EP) error {
	if x.w != nil {
		for _, p := range ps {
			if err := x.w.Send(p); err != nil {
				return err
			}
		}
		return nil
	}
	code, err := x.p.Post(ps, true, nil)
	if err == nil && code != 200 {
		err = &statusError{code, "POST"}
	}
	return err
}

// chatter keeps a connection alive from the side that does not read, until it has ended.
func chatter(every time.Duration, pings bool, send func(...EP) error) {
	p := EP{Type: 6}
	if pings {
		p = EP{Type: 2, Data: []byte("x")}
	}
	for send(p) == nil {
		time.Sleep(every)
	}
}

const (
	byClosePacket = iota
	byCloseCall
	byCloseCallback
	byDrop
	byGarbage
	byBoth
	byCloses
	byIdle
	byUnread
)

var endings = []string{"close packet", "close call", "close call in a callback", "dropped connection", "websocket protocol violation", "close packet and call", "several close calls", "idle", "unread output"}

func c14Server(c *Ctx, base int) {
	r := c.R
	short := r.Intn(5) == 0
	sio := r.Intn(2) == 0
	iv, to := 25*time.Second, 60*time.Second
	if short {
		iv, to = 60*time.Millisecond, 120*time.Millisecond
	}
	how := c.Perturb("emitter.submit", "emitter.dequeued", "emitter.flush", "socket.close", "socket.close.conn", "upgrade.probed", "upgrade.paused", "server.session", "polling.read", "polling.readout", "server.close.removed", "socket.detachall")
	f := c.farm14(sio, iv, to)
	worker := len(libGoroutines())
	n := 1 + r.Intn(5)
	same := -1
	if r.Intn(4) == 0 { // enough of one kind to see them collected
		n, same = 8, -2
	}
	var conns []*conn14
	var kinds []int
	var weaks []weak.Pointer[byte]
	descs := ""
	unread := false
	for i := 0; i < n; i++ {
		kind := r.Intn(byIdle)
		if short {
			kind = []int{byIdle, byUnread, byDrop}[r.Intn(3)]
		}
		if same == -2 {
			same = kind
		} else if same >= 0 {
			kind = same
		}
		x := f.open(rand.New(rand.NewSource(r.Int63())), kind == byUnread)
		if x.w == nil && !short && (kind == byDrop || kind == byGarbage) {
			kind = byClosePacket // only its timeout tells that a polling peer is gone
		}
		x.desc += ", " + endings[kind]
		unread = unread || kind == byUnread
		conns, kinds = append(conns, x), append(kinds, kind)
		weaks = append(weaks, x.h.pointer())
		descs += x.desc + "; "
	}
	what := fmt.Sprintf("socket.io %v, interval %v, timeout %v: %s", sio, iv, to, descs)
	c.Tracef("%s", what)
	c.Sample(map[string]interface{}{"socket.io": sio, "interval": iv.String(), "connections": descs, "delays": how})
	// calls in progress
	var wg Group
	blocked := 0
	for i, x := range conns {
		h, kind := x.h, kinds[i]
		if kind == byUnread {
			if x.w != nil {
				x.w.gate.Lock()
			}
		} else if r.Intn(3) > 0 {
			continue
		}
		if kind == byUnread && r.Intn(2) == 0 {
			c.Count("peers that stopped reading and went on sending", 1)
			go chatter(iv/4, r.Intn(2) == 0, x.send)
			if r.Intn(2) == 0 { // a close call meets writes that do not get through
				d := time.Duration(r.Intn(150)) * time.Millisecond
				blocked++
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(d)
					h.close()
				}()
			}
		}
		for k := 1 + r.Intn(3); k > 0; k-- {
			blocked++
			wg.Add(1)
			size := 10
			if kind == byUnread {
				size = 300000
			}
			go func() {
				defer wg.Done()
				for h.emit(size) == nil {
					if kind != byUnread {
						time.Sleep(100 * time.Microsecond)
					}
				}
			}()
		}
	}
	if r.Intn(2) == 0 {
		time.Sleep(time.Duration(r.Intn(1000)) * time.Microsecond)
	}
	var ending Group
	f.mu.Lock()
	if r.Intn(3) == 0 {
		f.onEnd = func(h *handle14) { h.emit(5); h.touch(nil); h.close() }
	}
	f.onMsg = func(h *handle14) { h.close() } // of those that end in a callback
	f.mu.Unlock()
	for i, x := range conns {
		x, kind := x, kinds[i]
		closes := 1
		ending.Add(1)
		switch kind {
		case byCloses:
			closes = 2 + r.Intn(3)
		}
		d := time.Duration(r.Intn(500)) * time.Microsecond
		sub := r.Intn(4)
		go func() {
			defer ending.Done()
			switch kind {
			case byClosePacket:
				x.send(EP{Type: 1})
			case byCloseCall:
				x.h.close()
			case byCloses:
				var g sync.WaitGroup
				for ; closes > 0; closes-- {
					g.Add(1)
					go func() { defer g.Done(); x.h.close() }()
				}
				g.Wait()
			case byCloseCallback:
				if f.sio != nil {
					x.send(EP{Type: 4, Data: []byte(`4"x"`)}, EP{Type: 4, Data: []byte(`{"type":4,"nsp":"/","data":"x"}`)})
				} else {
					x.send(EP{Type: 4, Data: []byte("x")})
				}
			case byDrop:
				x.raw = true
				if x.w != nil {
					if tcp, ok := x.w.Conn.UnderlyingConn().(*net.TCPConn); ok && sub%2 == 0 {
						tcp.SetLinger(0)
					}
					x.w.Close()
				} else {
					x.p.Close()
				}
			case byGarbage:
				switch sub {
				case 0:
					x.w.Conn.UnderlyingConn().Write([]byte{0x83, 0x80, 0, 0, 0, 0})
				case 1:
					x.w.Conn.UnderlyingConn().Write([]byte{0x81, 2, '4', 'p'})
				case 2:
					x.w.SendRaw(websocket.CloseMessage, websocket.FormatCloseMessage(1000, ""))
				default:
					x.w.SendText("")
				}
			case byBoth:
				go x.send(EP{Type: 1})
				time.Sleep(d)
				x.h.close()
			}
		}()
	}
	if !c.Await("end-stall", "close calls and close packets return: "+what, func() bool { return done(&ending) }) {
		panic(abort{})
	}
	if unread {
		c.Soon(500*time.Millisecond, func() bool { return done(&wg) })
		for i, x := range conns {
			if kinds[i] == byUnread && x.w != nil {
				if !c.Await("blocked", "emits to a peer that does not read return in the end: "+what, func() bool { return done(&wg) }) {
					panic(abort{})
				}
				x.w.gate.Unlock()
			}
		}
	}
	if !c.Await("blocked", "calls in progress return when the connection ends: "+what, func() bool { return done(&wg) }) {
		panic(abort{})
	}
	c.Count("calls in progress that returned", blocked)
	for _, x := range conns {
		switch {
		case x.raw, x.gated:
		case x.w != nil:
			c.MustAwait("peer-eof", "the network connection is closed: "+x.desc, x.w.Ended)
		default:
			c.MustAwait("poll-end", "the outstanding poll is answered: "+x.desc, func() bool {
				_, err := x.p.Err()
				return err != nil
			})
		}
		if x.probe != nil {
			c.MustAwait("probe-eof", "the connection of an upgrade in progress is closed: "+x.desc, x.probe.Ended)
		}
	}
	c.released(worker, what)
	for i, x := range conns {
		c.after(x.h, x.desc)
		f.refused(x.sid, x.desc)
		c.Count(endings[kinds[i]], 1)
		if x.p != nil {
			x.p.Close()
		}
	}
	c.Stop()
	c.released(worker, "after operations on ended connections: "+what)
	c.Sig("server %v %s %x", sio, descs, interleaving())
	if n >= 2 {
		for _, x := range conns {
			x.h = nil
		}
		f.mu.Lock()
		f.handles, f.onEnd, f.onMsg = map[string]*handle14{}, nil, nil
		f.mu.Unlock()
		c.MustAwait("retained", "ended connections become garbage: "+what, func() bool {
			runtime.GC()
			k := 0
			for _, w := range weaks {
				k += b2i(w.Value() != nil)
			}
			return k <= 1
		})
		c.Count("ended connections seen to be collected", n)
	}
	f.close()
	c.released(base, "after the server's Close: "+what)
}

// c14Posts: requests that carry more packets than fit into any buffer, while a callback does not return and the session
// is ended.
func c14Posts(c *Ctx, base int) {
	r := c.R
	sio := r.Intn(2) == 0
	f := c.farm14(sio, 25*time.Second, 60*time.Second)
	worker := len(libGoroutines())
	p := f.c.MustPoll(f.Addr, r.Intn(3))
	h := f.wait(p.Open.SID)
	if r.Intn(2) == 0 {
		p.Start()
	}
	release := make(chan struct{})
	var entered atomic.Bool
	after := r.Intn(12)
	f.mu.Lock()
	n := 0
	f.onMsg = func(h *handle14) {
		f.mu.Lock()
		n++
		stop := n > after
		f.mu.Unlock()
		if stop {
			entered.Store(true)
			<-release
		}
	}
	f.mu.Unlock()
	posts := 1 + r.Intn(3)
	var sizes []int
	var wg, ending Group
	for i := 0; i < posts; i++ {
		var ps []EP
		for j := after + 1 + r.Intn(50); j >= 0; j-- {
			if sio {
				ps = append(ps, EP{Type: 4, Data: []byte(`4"x"`)}, EP{Type: 4, Data: []byte(`{"type":4,"nsp":"/","data":"x"}`)})
			} else {
				ps = append(ps, EP{Type: 4, Data: []byte("x")})
			}
		}
		sizes = append(sizes, len(ps))
		bin2 := r.Intn(2) == 0
		wg.Add(1)
		go func() { defer wg.Done(); p.Post(ps, bin2, nil) }()
	}
	what := fmt.Sprintf("socket.io %v, %d requests of %v packets, callback %d does not return", sio, posts, sizes, after)
	c.Soon(3*time.Second, entered.Load)
	time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
	before := done(&wg)
	ending.Add(1)
	how := r.Intn(3)
	go func() {
		defer ending.Done()
		switch how {
		case 0, 1:
			h.close()
			if how == 1 {
				h.close()
			}
		default:
			h.close()
			f.close()
		}
	}()
	if !c.Await("post-blocked", "requests are answered when the session is closed: "+what, func() bool { return done(&wg) }) {
		close(release)
		panic(abort{})
	}
	close(release)
	c.MustAwait("end-stall", "close calls return: "+what, func() bool { return done(&ending) })
	p.Halt()
	p.Close()
	c.released(worker, what)
	c.after(h, "polling, ended while requests wait")
	if how < 2 {
		f.refused(p.Open.SID, what)
	}
	f.close()
	c.released(base, "after the server's Close: "+what)
	if !before {
		c.Count("waiting requests answered at the end", posts)
	}
	c.Sig("posts %v %d %v %d %v", sio, how, sizes, after, before)
	c.Sample(map[string]interface{}{"requests": sizes, "socket.io": sio, "waiting": !before})
}

// c14Client: the library's client, ended in any way.
func c14Client(c *Ctx, base int) {
	r := c.R
	how := c.Perturb("emitter.submit", "emitter.dequeued", "emitter.flush", "socket.close", "socket.close.conn", "client.reader.start", "client.reader.handle", "client.dialed", "client.dial.engine", "socket.detachall")
	short := r.Intn(5) == 0
	iv, to := 25*time.Second, 60*time.Second
	if short {
		iv, to = 60*time.Millisecond, 120*time.Millisecond
	}
	peers := make(chan *RawPeer, 1)
	gate := make(chan bool, 1)
	rs := c.NewRawServer(func(p *RawPeer) {
		p.Send(openPacket("v", int(iv/time.Millisecond), int(to/time.Millisecond)))
		if <-gate {
			p.gate.Lock()
		}
		p.StartReading()
		peers <- p
	})
	n := 1 + r.Intn(3)
	descs := ""
	for i := 0; i < n; i++ {
		kind := r.Intn(byIdle)
		if short {
			kind = []int{byIdle, byUnread, byDrop}[r.Intn(3)]
		}
		gate <- kind == byUnread
		var h *handle14
		var once sync.Once
		var onEnd atomic.Bool
		inEnd := r.Intn(3) == 0
		closing := func() { // in a callback
			if kind == byCloseCallback && h != nil {
				once.Do(func() { h.close() })
			}
		}
		ready := make(chan struct{})
		sio := r.Intn(2) == 0
		ended := func() {
			<-ready
			if inEnd {
				h.emit(5)
				h.touch(nil)
				h.close()
			}
			onEnd.Store(true)
		}
		if sio {
			cl := socketio.NewClient()
			cl.Namespace("/").OnDisconnect(func(socketio.Socket) { ended() }).OnError(func(socketio.Socket, ...interface{}) { <-ready; closing() })
			if err := cl.Dial("ws://"+rs.Addr+"/", nil, socketio.WebsocketTransport, parserOf(r.Intn(2) == 0)); err != nil {
				c.Fatalf("dial", "Dial: %v", err)
			}
			h = &handle14{sc: cl}
		} else {
			cl, err := engine.Dial("ws://"+rs.Addr+"/", nil, engine.WebsocketTransport, func(cl *engine.Client) {
				cl.On(engine.EventMessage, engine.Callback(func(*engine.Socket, engine.MessageType, []byte) { <-ready; closing() }))
				cl.On(engine.EventClose, engine.Callback(func(*engine.Socket, engine.MessageType, []byte) { ended() }))
			})
			if err != nil {
				c.Fatalf("dial", "Dial: %v", err)
			}
			h = &handle14{cli: cl}
		}
		close(ready)
		p := <-peers
		what := fmt.Sprintf("client, socket.io %v, %v %v, %s", sio, iv, to, endings[kind])
		descs += what + "; "
		c.Tracef("%s", what)
		connected := r.Intn(3) > 0
		if connected {
			p.Send(EP{Type: 4, Data: []byte("0")})
			p.Send(EP{Type: 4, Data: []byte(`{"type":0,"nsp":"/"}`)})
		}
		var wg Group
		if kind == byUnread && !sio && r.Intn(2) == 0 { // whose emits do not wait for a namespace
			c.Count("servers that stopped reading and went on sending", 1)
			go chatter(iv/4, r.Intn(2) == 0, func(ps ...EP) error { return p.Send(ps[0]) })
			if r.Intn(2) == 0 {
				d := time.Duration(r.Intn(150)) * time.Millisecond
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(d)
					h.close()
				}()
			}
		}
		if kind == byUnread || r.Intn(3) == 0 {
			for k := 1 + r.Intn(3); k > 0; k-- {
				wg.Add(1)
				size := 10
				if kind == byUnread {
					size = 300000
				}
				go func() {
					defer wg.Done()
					for sio && connected && h.emit(1) != nil && c.Soon(5*time.Millisecond, func() bool { return false }) {
					}
					for h.emit(size) == nil {
						if kind != byUnread {
							time.Sleep(100 * time.Microsecond)
						}
					}
				}()
			}
		}
		c.Within("end-stall", "the client ends: "+what, func() {
			switch kind {
			case byClosePacket:
				p.Send(EP{Type: 1})
			case byCloseCall:
				h.close()
			case byCloses:
				var g sync.WaitGroup
				for k := 2 + r.Intn(3); k > 0; k-- {
					g.Add(1)
					go func() { defer g.Done(); h.close() }()
				}
				g.Wait()
			case byCloseCallback:
				p.Send(EP{Type: 4, Data: []byte("0")})
				p.Send(EP{Type: 4, Data: []byte(`4"x"`)})
				p.Send(EP{Type: 4, Data: []byte(`{"type":4,"nsp":"/","data":"x"}`)})
			case byDrop:
				if tcp, ok := p.Conn.UnderlyingConn().(*net.TCPConn); ok && r.Intn(2) == 0 {
					tcp.SetLinger(0)
				}
				p.Close()
			case byGarbage:
				switch r.Intn(4) {
				case 0:
					p.Conn.UnderlyingConn().Write([]byte{0x83, 0})
				case 1:
					p.Conn.UnderlyingConn().Write([]byte{0x81, 0x82, 0, 0, 0, 0, '4', 'p'})
				case 2:
					p.SendRaw(websocket.CloseMessage, websocket.FormatCloseMessage(1000, ""))
				default:
					p.SendText("")
				}
			case byBoth:
				go p.Send(EP{Type: 1})
				h.close()
			}
		})
		c.Stop()
		c.MustAwait("blocked", "calls in progress return when the connection ends: "+what, func() bool { return done(&wg) })
		if kind == byUnread {
			p.gate.Unlock()
		}
		c.MustAwait("peer-eof", "the network connection is closed: "+what, p.Ended)
		c.released(base, what)
		c.after(h, what)
		c.Stop()
		c.released(base, "after operations on an ended client: "+what)
		c.Count("client: "+endings[kind], 1)
	}
	c.Sample(map[string]interface{}{"clients": descs, "delays": how})
	c.Sig("client %s %x", descs, interleaving())
}

// c14Dial: handshakes that fail.
func c14Dial(c *Ctx, base int) {
	r := c.R
	c.Perturb()
	descs := ""
	type step struct {
		what string
		f    func(conn net.Conn, br *bufio.Reader, accept func() *websocket.Conn)
	}
	late := r.Intn(5)
	first := func(what string, t int, b string) step {
		return step{what, func(_ net.Conn, _ *bufio.Reader, accept func() *websocket.Conn) {
			if ws := accept(); ws != nil {
				ws.WriteMessage(t, []byte(b))
			}
		}}
	}
	steps := []step{
		{"closed at once", func(conn net.Conn, _ *bufio.Reader, _ func() *websocket.Conn) { conn.Close() }},
		{"no HTTP", func(conn net.Conn, _ *bufio.Reader, _ func() *websocket.Conn) { conn.Write([]byte("hello\r\n\r\n")) }},
		{"status 400", func(conn net.Conn, _ *bufio.Reader, _ func() *websocket.Conn) {
			fmt.Fprint(conn, "HTTP/1.1 400 Bad Request\r\nContent-Length: 0\r\n\r\n")
		}},
		{"status 200", func(conn net.Conn, _ *bufio.Reader, _ func() *websocket.Conn) {
			fmt.Fprint(conn, "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok")
		}},
		{"wrong accept key", func(conn net.Conn, _ *bufio.Reader, _ func() *websocket.Conn) {
			fmt.Fprint(conn, "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: AAAA\r\n\r\n")
		}},
		{"cut response", func(conn net.Conn, _ *bufio.Reader, _ func() *websocket.Conn) {
			fmt.Fprint(conn, "HTTP/1.1 101 Switching Proto")
			conn.Close()
		}},
		{"dropped after the handshake", func(conn net.Conn, _ *bufio.Reader, accept func() *websocket.Conn) { accept(); conn.Close() }},
		{"cut frame", func(conn net.Conn, _ *bufio.Reader, accept func() *websocket.Conn) {
			if accept() != nil {
				conn.Write([]byte{0x81, 20, '0', '{'})
				conn.Close()
			}
		}},
		{"protocol violation", func(conn net.Conn, _ *bufio.Reader, accept func() *websocket.Conn) {
			if accept() != nil {
				conn.Write([]byte{0x83, 0})
			}
		}},
		{"close frame", func(conn net.Conn, _ *bufio.Reader, accept func() *websocket.Conn) {
			if ws := accept(); ws != nil {
				ws.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(1000, ""))
			}
		}},
		first("empty message", websocket.TextMessage, ""),
		first("no open packet", websocket.TextMessage, []string{"1", "2probe", "3", "4x", "5", "6", "9", "x"}[r.Intn(8)]),
		first("binary message", websocket.BinaryMessage, "\x04abc"),
		{"open packet too late", func(_ net.Conn, _ *bufio.Reader, accept func() *websocket.Conn) {
			if ws := accept(); ws != nil {
				for _, b := range []string{[]string{"40", "2", "6", "1", "3"}[late], `0{"sid":"late","upgrades":[],"pingInterval":25000,"pingTimeout":60000}`, "40", `42["e"]`} {
					ws.WriteMessage(websocket.TextMessage, []byte(b))
				}
			}
		}},
		first("open packet without content", websocket.TextMessage, "0"),
		first("open packet with broken JSON", websocket.TextMessage, `0{"sid":"x","pingInterval":`),
		first("open packet with other JSON", websocket.TextMessage, []string{`0[1,2]`, `0"sid"`, `0{"sid":5}`, `0{"sid":"a","pingInterval":"1"}`, `0{"sid":"a","pingTimeout":{}}`}[r.Intn(5)]),
	}
	l, err := listen()
	c.Must(err, "listen")
	c.Cleanup(func() { l.Close() })
	var cur atomic.Pointer[step]
	eof := make(chan bool, 1)
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer conn.Close()
				br := bufio.NewReader(conn)
				if cur.Load().what == "closed at once" {
					conn.Close()
					eof <- true
					return
				}
				req, err := http.ReadRequest(br)
				if err != nil {
					eof <- true
					return
				}
				var ws *websocket.Conn
				cur.Load().f(conn, br, func() *websocket.Conn {
					up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}
					ws, _ = up.Upgrade(&hijack{conn: conn, br: br, h: http.Header{}}, req, nil)
					return ws
				})
				for b := make([]byte, 4096); ; { // until the client has closed it
					if _, err := conn.Read(b); err != nil {
						break
					}
				}
				eof <- true
			}()
		}
	}()
	n := 1 + r.Intn(4)
	for i := 0; i < n; i++ {
		s := steps[r.Intn(len(steps))]
		cur.Store(&s)
		sio := r.Intn(2) == 0
		what := fmt.Sprintf("socket.io %v, %s", sio, s.what)
		descs += what + "; "
		c.Tracef("%s", what)
		var err error
		var opened atomic.Bool
		var used *socketio.Client
		if !c.Within("dial-stall", "Dial returns: "+what, func() {
			if sio {
				cl := socketio.NewClient()
				used = cl
				if r.Intn(4) == 0 {
					c.neverConnected(cl, "before Dial")
				}
				cl.OnError(func(interface{}) { opened.Store(true) })
				for _, n := range []string{"/", "/a"} {
					cl.Namespace(n).OnConnect(func(socketio.Socket) { opened.Store(true) }).
						OnDisconnect(func(socketio.Socket) { opened.Store(true) }).
						OnError(func(socketio.Socket, ...interface{}) { opened.Store(true) }).
						OnEvent("e", func() { opened.Store(true) })
				}
				err = cl.Dial("ws://"+l.Addr().String()+"/", nil, socketio.WebsocketTransport, socketio.DefaultParser)
			} else {
				_, err = engine.Dial("ws://"+l.Addr().String()+"/", nil, engine.WebsocketTransport, func(*engine.Client) { opened.Store(true) })
			}
		}) {
			panic(abort{})
		}
		if err == nil {
			c.Fatalf("dial", "Dial succeeds: %s", what)
		}
		if used != nil {
			c.neverConnected(used, "after a failed Dial: "+what)
		}
		c.MustAwait("peer-eof", "a failed Dial leaves its connection open: "+what, func() bool {
			select {
			case <-eof:
				return true
			default:
				return false
			}
		})
		c.released(base, "failed Dial: "+what)
		if opened.Load() {
			c.Fatalf("dial", "a Dial that fails runs a callback: %s", what)
		}
		c.Count("failed dials", 1)
	}
	// nobody listens; malformed addresses
	for _, u := range []string{"ws://127.0.0.1:1/", "http://" + l.Addr().String(), "ws://%zz/", "", "://"} {
		c.Within("dial-stall", "Dial returns", func() {
			if _, err := engine.Dial(u, nil, engine.WebsocketTransport); err == nil {
				c.Failf("dial", "Dial of %q succeeds", u)
			}
			if _, err := engine.Dial(u, nil, engine.PollingTransport); err == nil {
				c.Failf("dial", "Dial of %q with polling succeeds", u)
			}
		})
	}
	c.released(base, "failed Dials of nothing")
	c.Sample(map[string]interface{}{"dials": descs})
	c.Sig("dial %s", descs)
}

// hijack lets a raw connection be upgraded.
type hijack struct {
	conn net.Conn
	br   *bufio.Reader
	h    http.Header
}

func (h *hijack) Header() http.Header         { return h.h }
func (h *hijack) Write(b []byte) (int, error) { return h.conn.Write(b) }
func (h *hijack) WriteHeader(int)             {}
func (h *hijack) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	return h.conn, bufio.NewReadWriter(h.br, bufio.NewWriter(h.conn)), nil
}

// badHandshake makes one handshake that cannot succeed, or none at all.
func (f *farm14) badHandshake(r *rand.Rand) string {
	c := f.c
	ws := "http://" + f.Addr + "/engine.io/?EIO=3&transport=websocket"
	poll := "http://" + f.Addr + "/engine.io/?EIO=3&transport=polling"
	get := func(u string, h http.Header) {
		c.Within("handshake-stall", "a handshake is answered", func() {
			if code, _ := status("GET", u, h); code != 0 && code/100 != 4 {
				c.Failf("handshake", "%s %v is answered with %d", u, h, code)
			}
		})
	}
	switch r.Intn(7) {
	case 0:
		get(strings.Replace(poll, "EIO=3", "EIO=4", 1), nil)
		return "version"
	case 1:
		get(strings.Replace(poll, "polling", "flash", 1), nil)
		return "transport"
	case 2:
		get(ws, nil)
		return "no websocket handshake"
	case 3:
		get(poll, http.Header{"Origin": {"http://evil.example"}})
		return "polling from a rejected origin"
	case 4:
		if w, _, err := dialWS(f.Addr, "", http.Header{"Origin": {"http://evil.example"}}, &Inbox{}, nil); err == nil {
			w.Close()
			c.Failf("origin", "a websocket from a rejected origin is accepted")
		}
		return "websocket from a rejected origin"
	case 5:
		get(poll+"&sid=nobody", nil)
		return "unknown sid"
	}
	conn, err := net.Dial("tcp", f.Addr)
	c.Must(err, "dial")
	req := "GET /engine.io/?EIO=3&transport=websocket HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n"
	fmt.Fprint(conn, req[:r.Intn(len(req))])
	conn.Close()
	return "cut request"
}

// c14Close: a server closed during handshakes.
func c14Close(c *Ctx, base int) {
	r := c.R
	how := c.Perturb("server.accepted", "server.opened", "server.reader.start", "server.onopen")
	sio := r.Intn(2) == 0
	f := c.farm14(sio, 25*time.Second, 60*time.Second)
	worker := len(libGoroutines())
	desc := ""
	for i := r.Intn(3); i > 0; i-- {
		desc += f.badHandshake(r) + "; "
	}
	c.Stop()
	c.released(worker, "refused handshakes: "+desc)
	var old []*conn14
	for i := r.Intn(3); i > 0; i-- {
		old = append(old, f.open(r, false))
	}
	c.Stop()
	n := r.Intn(6)
	var mu sync.Mutex
	var fresh []*conn14
	var wg Group
	refusals := 0
	for i := 0; i < n; i++ {
		polling := r.Intn(2) == 0
		d := time.Duration(r.Intn(600)) * time.Microsecond
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(d)
			x := &conn14{}
			if polling {
				p, err := DialPoll(f.Addr, modeXHR2, nil)
				if err != nil {
					mu.Lock()
					refusals++
					mu.Unlock()
					return
				}
				x.p, x.sid = p, p.Open.SID
			} else {
				w, _, err := DialWS(f.Addr, "", nil)
				if err != nil {
					mu.Lock()
					refusals++
					mu.Unlock()
					return
				}
				c.Cleanup(w.Close)
				if !c.Await("handshake-stall", "a handshake while the server closes is answered or its connection closed", func() bool { return w.opened.Load() || w.Ended() }) {
					return
				}
				if !w.opened.Load() {
					mu.Lock()
					refusals++
					mu.Unlock()
					return
				}
				x.w, x.sid = w, w.Open.SID
			}
			mu.Lock()
			fresh = append(fresh, x)
			mu.Unlock()
		}()
	}
	time.Sleep(time.Duration(r.Intn(700)) * time.Microsecond)
	closes := 1 + r.Intn(3)
	c.Within("close-stall", "Server.Close returns", func() {
		var g sync.WaitGroup
		for i := 0; i < closes; i++ {
			g.Add(1)
			go func() { defer g.Done(); f.close() }()
		}
		g.Wait()
	})
	c.Stop()
	c.MustAwait("handshake-stall", "handshakes while the server closes end", func() bool { return done(&wg) })
	// later handshakes
	for i := 1 + r.Intn(3); i > 0; i-- {
		c.Within("handshake-stall", "handshakes with a closed server are answered", func() {
			u := "http://" + f.Addr + "/engine.io/?EIO=3&transport=polling"
			if code, _ := status("GET", u, nil); code != 0 && code < 400 {
				c.Failf("closed-server", "a closed server answers a handshake with %d", code)
			}
			if w, _, err := dialWS(f.Addr, "", nil, &Inbox{}, nil); err == nil {
				defer w.Close()
				c.Await("closed-server", "a closed server ends a websocket handshake's connection", w.Ended)
				if w.Len(0) > 0 {
					c.Failf("closed-server", "a closed server opens a session")
				}
			}
		})
	}
	c.Stop()
	// the sessions that there are can end
	for _, x := range append(old, fresh...) {
		if x.w != nil && r.Intn(2) == 0 {
			x.w.Close()
		} else if x.send(EP{Type: 1}) != nil {
			c.Tracef("close packet of %s fails", x.sid)
		}
		if x.w != nil {
			x := x
			c.MustAwait("peer-eof", "a session of a closed server ends", x.w.Ended)
		}
	}
	c.released(base, fmt.Sprintf("closed server; %s sessions before %d, during %d (refused %d)", desc, len(old), len(fresh), refusals))
	c.Count("servers closed", 1)
	c.Count("handshakes refused while or after closing", refusals)
	c.Sample(map[string]interface{}{"closed server": true, "refused": desc, "sessions before": len(old), "sessions during": len(fresh), "refused during": refusals, "delays": how})
	c.Sig("close %v %s %d %d %d %x", sio, desc, len(old), len(fresh), refusals, interleaving())
}

// c14Repeat: many connections one after another leave nothing on the heap.
func c14Repeat(c *Ctx) {
	r := c.R
	sio := r.Intn(2) == 0
	f := c.farm14(sio, 25*time.Second, 60*time.Second)
	worker := len(libGoroutines())
	kind := r.Intn(5)
	cycle := func() {
		var sid string
		switch kind {
		case 0, 1:
			w, _, err := DialWS(f.Addr, "", nil)
			if err != nil {
				c.Fatalf("handshake", "%v", err)
			}
			c.MustAwait("handshake-stall", "open packet", func() bool { return w.opened.Load() || w.Ended() })
			sid = w.Open.SID
			if kind == 0 {
				w.Send(EP{Type: 1})
				c.MustAwait("peer-eof", "the network connection is closed", w.Ended)
			}
			w.Close()
		case 2:
			p := c.newPollOf(f.Addr)
			sid = p.Open.SID
			p.Post([]EP{{Type: 1}}, true, nil)
			p.tr.CloseIdleConnections()
		case 3:
			f.badHandshake(r)
			return
		case 4: // a failed upgrade, then a close call
			p := c.newPollOf(f.Addr)
			sid = p.Open.SID
			if w, _, err := dialWS(f.Addr, "sid="+url.QueryEscape(sid), nil, &Inbox{}, nil); err == nil {
				w.Send(EP{Type: 4})
				c.MustAwait("not-closed", "a failed attempt is closed", w.Ended)
				w.Close()
			}
			f.wait(sid).close()
			p.tr.CloseIdleConnections()
		}
		f.wait(sid)
		f.mu.Lock()
		delete(f.handles, sid)
		f.mu.Unlock()
	}
	const cycles = 80
	measure := func() int64 {
		c.released(worker, "between rounds")
		var m runtime.MemStats
		least := int64(-1)
		for i := 0; i < 4; i++ {
			runtime.GC()
			runtime.ReadMemStats(&m)
			if k := int64(m.HeapObjects); least < 0 || k < least {
				least = k
			}
			time.Sleep(2 * time.Millisecond)
		}
		return least
	}
	var at []int64
	grown := 0
	for i := 0; i < 6; i++ {
		for k := 0; k < cycles; k++ {
			cycle()
			c.Stop()
		}
		at = append(at, measure())
		if i > 0 && at[i]-at[i-1] >= cycles {
			grown++
		} else if i > 0 {
			break
		}
	}
	c.Tracef("objects %v", at)
	if grown >= 5 {
		c.Fatalf("growth", "heap objects grow by more than one per connection: %v after every %d (kind %d)", at, cycles, kind)
	}
	c.Count("connections one after another without growth", cycles*len(at))
	c.Sample(map[string]interface{}{"repeated": kind, "objects": at})
	c.Sig("repeat %d %v", kind, sio)
	f.close()
}

func (c *Ctx) newPollOf(addr string) *Poll {
	p, err := DialPoll(addr, modeXHR2, nil)
	if err != nil {
		c.Fatalf("handshake", "%v", err)
	}
	return p
}

// neverConnected makes every call on a client that has no connection: emits fail, and none panics or blocks.
func (c *Ctx) neverConnected(cl *socketio.Client, when string) {
	defer func() {
		if e := recover(); e != nil {
			c.Fatalf("ops", "a call on a client %s panics: %v", when, e)
		}
	}()
	errs := []error{cl.Emit("/", "e", "x"), cl.EmitError("x"), cl.Emit("/a", "e", func() {}), cl.Emit("/", "e", &socketio.Bytes{Data: []byte("x")})}
	for i, err := range errs {
		if err == nil {
			c.Fatalf("ops", "emit %d on a client %s succeeds", i, when)
		}
	}
	cl.SetHeader("X-A", "b")
	cl.GetHeader("X-A")
	cl.LocalAddr()
	cl.RemoteAddr()
	cl.Sid()
	cl.Close()
	cl.Close()
}
