package main

import (
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"
)

func init() {
	register(&Suite{ID: "C17", Quick: 1200, Deep: 40000, MinNT: 800, Shards: 40, Run: runC17,
		Rule: "sets of misbehaving connections and blocked callbacks beside healthy ones, distinct by role, kinds and number of the former, transports and steps of the latter and order of scheduling points passed"})
}

func runC17(c *Ctx) {
	c.Perturb("server.accepted", "server.opened", "server.onopen", "server.open", "server.close.removed", "server.process", "upgrade.pause", "upgrade.paused", "emitter.submit")
	switch k := c.R.Intn(20); {
	case k < 12:
		c17Sio(c)
	case k < 17:
		c17Engine(c)
	default:
		c17Client(c)
	}
}

// Go runs f beside the case.
func (c *Ctx) Go(g *Group, f func()) {
	g.Add(1)
	go func() {
		defer g.Done()
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(abort); !ok {
					panic(e)
				}
			}
		}()
		f()
	}()
}

// bad17 keeps what misbehaves.
type bad17 struct {
	c       *Ctx
	release chan struct{}
	mu      sync.Mutex
	kinds   map[string]int
	blocked map[string]int // callbacks blocked so far
	floods  []*flood17
	wg      Group
	big     string
}

type flood17 struct {
	n    atomic.Int64
	last atomic.Int64
	over atomic.Bool
	free bool // the peer reads
}

// stuck tells whether an emit has not returned for a while.
func (f *flood17) stuck() bool {
	return f.free || f.over.Load() || f.n.Load() > 0 && time.Now().UnixNano()-f.last.Load() > int64(5*time.Millisecond)
}

func (c *Ctx) newBad() *bad17 {
	b := &bad17{c: c, release: make(chan struct{}), kinds: map[string]int{}, blocked: map[string]int{}}
	b.big = strings.Repeat("x", 1<<(10+c.R.Intn(9)))
	c.Cleanup(b.end)
	return b
}

var once17 sync.Mutex

func (b *bad17) end() {
	once17.Lock()
	defer once17.Unlock()
	select {
	case <-b.release:
	default:
		close(b.release)
	}
}

// block is what a callback of a misbehaving connection does.
func (b *bad17) block(what string) {
	b.mu.Lock()
	b.blocked[what]++
	b.mu.Unlock()
	b.c.Count("callbacks blocked: "+what, 1)
	<-b.release
}

func (b *bad17) reached(what string, k int) {
	if b.c.Soon(2*time.Second, func() bool { b.mu.Lock(); defer b.mu.Unlock(); return b.blocked[what] >= k }) {
		return
	}
	b.c.Count("callbacks not reached: "+what, 1)
}

// flood emits until that fails or the case is over.
func (b *bad17) flood(free bool, emit func() error) {
	f := &flood17{free: free}
	b.mu.Lock()
	b.floods = append(b.floods, f)
	b.mu.Unlock()
	defer f.over.Store(true)
	for {
		select {
		case <-b.release:
			return
		default:
		}
		f.last.Store(time.Now().UnixNano())
		f.n.Add(1)
		if emit() != nil {
			return
		}
		if free {
			time.Sleep(time.Millisecond)
		}
	}
}

// stuck waits until all that is emitted to peers that do not read has piled up.
func (b *bad17) stuck() {
	if b.c.Soon(3*time.Second, func() bool {
		b.mu.Lock()
		defer b.mu.Unlock()
		for _, f := range b.floods {
			if !f.stuck() {
				return false
			}
		}
		return true
	}) {
		b.mu.Lock()
		b.c.Count("emits blocked", len(b.floods))
		b.mu.Unlock()
	}
}

func (b *bad17) note(kind string) {
	b.mu.Lock()
	b.kinds[kind]++
	b.mu.Unlock()
	b.c.Count("misbehaving: "+kind, 1)
}

func (b *bad17) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	var l []string
	for k, n := range b.kinds {
		l = append(l, fmt.Sprintf("%s*%d", k, n))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// raw opens a TCP connection and sends text.
func (b *bad17) raw(addr, text string) net.Conn {
	conn, err := net.DialTimeout("tcp", addr, 20*time.Second)
	if err != nil {
		return nil
	}
	b.c.Cleanup(func() { conn.Close() })
	conn.Write([]byte(text))
	return conn
}

// wire opens a session of either transport with header X-Bad and starts to read. It may fail, as other connections
// are allowed to be slow here.
func (b *bad17) wire(addr, hdr string, polling, mp, gated bool) *SPeer {
	h := http.Header{"X-Bad": []string{hdr}}
	p := &SPeer{mp: mp}
	if polling {
		q, err := DialPoll(addr, modeXHR2, h)
		if err != nil {
			return nil
		}
		b.c.Cleanup(q.Close)
		p.poll, p.Inbox, p.sid = q, q.Inbox, q.Open.SID
		q.Inbox.drop.Store(hdr == "flooding")
		if gated {
			q.gate.Lock()
			b.c.Cleanup(q.gate.Unlock)
		}
		q.Start()
		return p
	}
	w, _, err := DialWS(addr, "", h)
	if err != nil {
		return nil
	}
	b.c.Cleanup(w.Close)
	p.ws, p.Inbox = w, w.Inbox
	b.c.Soon(20*time.Second, func() bool { return w.opened.Load() || w.Ended() })
	p.sid = w.Open.SID
	if gated {
		w.gate.Lock()
		b.c.Cleanup(w.gate.Unlock)
	}
	return p
}

// post sends frames beside the case: the request may not be answered for long.
func (b *bad17) post(p *SPeer, fs ...EP) {
	if p.ws != nil {
		p.SendFrames(fs...)
		return
	}
	go p.SendFrames(fs...)
}

var kinds17 = []string{"silent", "no reads", "flooded callback", "flooded beside", "blocked event", "blocked event, more sent", "blocked connect", "blocked connect /a", "blocked ack", "blocked error",
	"blocked disconnect", "blocked disconnect /a", "dropped while blocked", "half an upgrade", "half an upgrade, flooded", "probe only", "probe only, flooded", "half a handshake", "no handshake", "half a post", "half a frame", "half a packet", "half an event",
	"unread handshake", "closed while unread", "dropped while unread", "bare polls"}

// misbehave adds a connection of the given kind to a socketio server (or, with eng, to an engine server, where "blocked
// event" stands for the message callback and the like).
func (b *bad17) misbehave(kind, addr string, eng, mp bool, rnd int64) {
	r := rand.New(rand.NewSource(rnd))
	polling := r.Intn(2) == 0
	msg := func(p *SPeer, ev string, id int) []EP {
		if eng {
			return []EP{{Type: 4, Data: []byte(ev)}}
		}
		return p.framesOf(SP{Type: 2, Nsp: "/", ID: map[bool]*uint64{true: uid(uint64(id))}[id > 0], Args: []interface{}{ev}})
	}
	b.note(kind)
	count := func(what string) int { b.mu.Lock(); defer b.mu.Unlock(); return b.blocked[what] }
	switch kind {
	case "silent":
		b.wire(addr, "", polling, mp, false)
	case "no reads":
		if p := b.wire(addr, "", polling, mp, true); p != nil {
			b.post(p, msg(p, "flood", 0)...)
		}
	case "flooded callback", "closed while unread", "dropped while unread":
		p := b.wire(addr, "", polling, mp, true)
		if p == nil {
			return
		}
		b.post(p, msg(p, "flood", 0)...)
		if kind != "flooded callback" {
			b.stuck()
			if kind[0] == 'd' {
				p.Close()
			} else {
				b.post(p, EP{Type: 1})
			}
		}
	case "flooded beside":
		b.wire(addr, "flooded", polling, mp, true)
	case "blocked event", "blocked event, more sent", "dropped while blocked":
		p := b.wire(addr, "", polling, mp, false)
		if p == nil {
			return
		}
		n := count("event")
		b.post(p, msg(p, "block", r.Intn(2))...)
		b.reached("event", n+1)
		if kind == "dropped while blocked" {
			p.Close()
		} else if kind != "blocked event" {
			var fs []EP
			for i := 0; i < 40; i++ {
				fs = append(fs, msg(p, "echo", 0)...)
			}
			b.post(p, fs...)
		}
	case "blocked connect":
		n := count("connect")
		b.wire(addr, "connect", polling, mp, false)
		b.reached("connect", n+1)
	case "blocked connect /a", "blocked disconnect /a":
		what := map[bool]string{true: "connect /a", false: "disconnect /a"}[kind == "blocked connect /a"]
		p := b.wire(addr, what, polling, mp, false)
		if p == nil || eng {
			return
		}
		n := count(what)
		b.post(p, p.framesOf(SP{Type: 0, Nsp: "/a"})...)
		if what[0] == 'd' {
			b.c.Soon(time.Second, func() bool { return p.Len(4) > 1 })
			b.post(p, p.framesOf(SP{Type: 1, Nsp: "/a"})...)
		}
		b.reached(what, n+1)
	case "blocked ack":
		p := b.wire(addr, "ack", polling, mp, false)
		if p == nil {
			return
		}
		n := count("ack")
		if eng {
			b.post(p, EP{Type: 2})
		} else {
			b.post(p, msg(p, "ask", 0)...)
			var id *uint64
			b.c.Soon(time.Second, func() bool {
				ps, _ := p.Packets()
				for _, q := range ps {
					if q.Type == 2 && q.ID != nil {
						id = q.ID
					}
				}
				return id != nil
			})
			b.post(p, p.framesOf(SP{Type: 3, Nsp: "/", ID: id, Args: []interface{}{"x"}})...)
		}
		b.reached("ack", n+1)
	case "blocked error":
		if p := b.wire(addr, "error", polling, mp, false); p != nil && !eng {
			n := count("error")
			if r.Intn(3) == 0 { // to the server's callback
				b.post(p, EP{Type: 4, Data: []byte("?")})
			} else {
				b.post(p, p.framesOf(SP{Type: 4, Nsp: "/", Data: "x"})...)
			}
			b.reached("error", n+1)
		}
	case "blocked disconnect":
		if p := b.wire(addr, "disconnect", polling, mp, false); p != nil {
			n := count("disconnect")
			if r.Intn(2) == 0 || p.ws == nil {
				b.post(p, EP{Type: 1})
			} else {
				p.Close()
			}
			b.reached("disconnect", n+1)
		}
	case "half an upgrade", "half an upgrade, flooded", "probe only", "probe only, flooded":
		p := b.wire(addr, "", true, mp, false)
		if p == nil {
			return
		}
		if strings.HasSuffix(kind, "flooded") {
			p = b.wire(addr, "flooding", true, mp, false)
			if p == nil {
				return
			}
		}
		w, _, err := dialWS(addr, "sid="+p.sid, nil, &Inbox{}, nil)
		if err != nil {
			return
		}
		b.c.Cleanup(w.Close)
		if kind[0] == 'p' {
			w.Send(EP{Type: 2, Data: []byte("probe")})
			b.c.Soon(time.Second, func() bool { return w.Len(3) > 0 || w.Ended() })
			if r.Intn(2) == 0 {
				p.poll.Halt()
			}
		}
	case "half a handshake":
		b.raw(addr, "GET /engine.io/?EIO=3&transport=websocket HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\n")
	case "no handshake":
		b.raw(addr, "")
	case "unread handshake":
		b.raw(addr, "GET /engine.io/?EIO=3&transport="+[]string{"websocket", "polling"}[r.Intn(2)]+" HTTP/1.1\r\nHost: x\r\nX-Bad: flooded\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n")
	case "half a post":
		if p := b.wire(addr, "", true, mp, false); p != nil {
			body := string(encText(msg(p, "echo", 0)))
			b.raw(addr, fmt.Sprintf("POST /engine.io/?EIO=3&transport=polling&sid=%s HTTP/1.1\r\nHost: x\r\nContent-Type: text/plain; charset=UTF-8\r\nContent-Length: %d\r\n\r\n%s", p.sid, len(body)+10, body))
		}
	case "half a frame":
		if p := b.wire(addr, "", false, mp, false); p != nil {
			wr, err := p.ws.Conn.NextWriter(1)
			if err == nil {
				wr.Write([]byte(b.big))
			}
		}
	case "half a packet", "half an event":
		if p := b.wire(addr, "", polling, mp, false); p != nil {
			t := `51-["echo",{"_placeholder":true,"num":0}]`
			if kind == "half a packet" {
				t = `52-/a,7["echo",{"_pl`
			}
			b.post(p, EP{Type: 4, Data: []byte(t)})
		}
	case "bare polls":
		if p := b.wire(addr, "", true, mp, true); p != nil {
			for i := 0; i < 3; i++ { // several at a time, against the protocol
				b.raw(addr, fmt.Sprintf("GET /engine.io/?EIO=3&transport=polling&sid=%s HTTP/1.1\r\nHost: x\r\n\r\n", p.sid))
			}
		}
	}
}

// gather adds misbehaving connections of random kinds.
func (b *bad17) gather(addr string, eng, mp bool) (late []func()) {
	r := b.c.R
	var todo []func()
	add := func(kind string) {
		seed := r.Int63()
		todo = append(todo, func() { b.misbehave(kind, addr, eng, mp, seed) })
	}
	n := 1 + r.Intn(4)
	switch r.Intn(12) {
	case 0, 1: // a crowd of one kind
		kind := kinds17[r.Intn(len(kinds17))]
		for k := 8 + r.Intn(60); k > 0; k-- {
			add(kind)
		}
	case 2:
		n = 5 + r.Intn(25)
	}
	for ; n > 0; n-- {
		add(kinds17[r.Intn(len(kinds17))])
	}
	if len(b.big) > 1<<14 && len(todo) > 6 {
		b.big = b.big[:1<<14]
	}
	for i, f := range todo {
		f := f
		if r.Intn(4) == 0 && i > 0 {
			late = append(late, f)
		} else {
			b.c.Go(&b.wg, f)
		}
	}
	return
}

// settle waits until the misbehaving connections are where they are to be.
func (b *bad17) settle() {
	b.c.Soon(15*time.Second, func() bool { return done(&b.wg) })
	b.stuck()
}

// healthy17 is a connection that behaves.
type healthy17 struct {
	*SPeer
	c    *Ctx
	r    *rand.Rand
	srv  *sio17
	addr string
	id   uint64
	done []string
	gone bool
}

// sio17 is what the server's callbacks record of the healthy connections.
type sio17 struct {
	mu    sync.Mutex
	socks map[string]socketio.Socket
	n     map[string]int
}

func (s *sio17) add(so socketio.Socket, what string) {
	s.mu.Lock()
	s.n[so.Sid()+what]++
	if so.Namespace() == "/" {
		s.socks[so.Sid()] = so
	}
	s.mu.Unlock()
}

func (s *sio17) get(k string) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.n[k]
}

func c17Sio(c *Ctx) {
	b := c.newBad()
	mp := c.R.Intn(3) == 0
	s := &sio17{socks: map[string]socketio.Socket{}, n: map[string]int{}}
	sv := c.NewSio(25*time.Second, 60*time.Second, parserOf(mp), func(sv *socketio.Server) {
		sv.OnError(func(error) { b.block("error") }) // healthy peers do not cause it
		for _, n := range []string{"/", "/a"} {
			n := n
			suffix := strings.TrimPrefix(" "+n, " /")
			if n == "/a" {
				suffix = " /a"
			}
			on := func(so socketio.Socket, what string) {
				s.add(so, what+n)
				if so.GetHeader("X-Bad") == what+suffix {
					b.block(what + suffix)
				}
			}
			sv.Namespace(n).OnConnect(func(so socketio.Socket) {
				if f := so.GetHeader("X-Bad"); (f == "flooded" || f == "flooding") && n == "/" {
					go b.flood(f == "flooding", func() error { return so.Emit("data", b.big) })
				}
				on(so, "connect")
			}).OnDisconnect(func(so socketio.Socket) { on(so, "disconnect") }).
				OnError(func(so socketio.Socket, e ...interface{}) { on(so, "error") }).
				OnEvent("block", func(so socketio.Socket) { b.block("event") }).
				OnEvent("flood", func(so socketio.Socket) { b.flood(false, func() error { return so.Emit("data", b.big) }) }).
				OnEvent("echo", func(s string) string { return s }).
				OnEvent("ask", func(so socketio.Socket) {
					so.Emit("q", func(string) { on(so, "ack") })
				})
		}
	})
	var hs []*healthy17
	healthy := func() *healthy17 {
		return &healthy17{c: c, r: rand.New(rand.NewSource(c.R.Int63())), srv: s, addr: sv.Addr, SPeer: &SPeer{mp: mp}}
	}
	for i := c.R.Intn(3); i > 0; i-- { // there before
		h := healthy()
		h.step("connect")
		hs = append(hs, h)
	}
	late := b.gather(sv.Addr, false, mp)
	b.settle()
	for len(hs) < 2 || c.R.Intn(3) == 0 && len(hs) < 5 {
		hs = append(hs, healthy())
	}
	var wg Group
	for _, h := range hs {
		h := h
		c.Go(&wg, func() {
			h.live(4 + h.r.Intn(10))
			if h.r.Intn(2) == 0 { // and again
				h.SPeer, h.gone = &SPeer{mp: mp}, false
				h.live(2 + h.r.Intn(4))
			}
		})
	}
	for _, f := range late {
		c.Go(&b.wg, f)
	}
	c.MustAwait("stall", "healthy connections are served", func() bool { return done(&wg) })
	desc := ""
	for _, h := range hs {
		desc += strings.Join(h.done, ",") + ";"
		c.Count("steps of healthy connections", len(h.done))
	}
	b.end()
	c.Sample(map[string]interface{}{"misbehaving": b.String(), "healthy": desc})
	c.Sig("sio %v %s %s %x", mp, b, desc, interleaving())
}

// live makes n random steps and ends the connection.
func (h *healthy17) live(n int) {
	if h.Inbox == nil {
		h.step("connect")
	}
	steps := []string{"echo", "echo", "ask", "ping", "join", "leave", "error", "emit", "upgrade", "unknown"}
	for ; n > 0 && !h.c.Failed(); n-- {
		h.step(steps[h.r.Intn(len(steps))])
	}
	h.step([]string{"close", "drop", "close from the server"}[h.r.Intn(3)])
}

func (h *healthy17) must(err error, what string) {
	if err != nil {
		h.c.Failf("healthy", "%s of a healthy connection beside misbehaving ones: %v", what, err)
	}
}

func (h *healthy17) await(what string, cond func() bool) {
	h.c.MustAwait("healthy-stall", "a healthy connection beside misbehaving ones: "+what, func() bool {
		if cond() {
			return true
		}
		if h.Inbox != nil && !h.gone && h.Ended() && !cond() {
			h.c.Fatalf("healthy-ended", "a healthy connection was ended while: %s", what)
		}
		return false
	})
}

func (h *healthy17) packet(t byte, nsp string, id *uint64) (found *SP) {
	ps, err := h.Packets()
	if err != nil {
		h.c.Fatalf("frames", "%v", err)
	}
	for i, p := range ps {
		if p.Type == t && p.Nsp == nsp && (id == nil || p.ID != nil && *p.ID == *id) {
			found = &ps[i]
		}
	}
	return
}

func (h *healthy17) step(what string) {
	h.done = append(h.done, what)
	joined := h.Inbox != nil && h.srv.get(h.sid+"connect/a") > h.srv.get(h.sid+"disconnect/a")
	nsp := "/"
	if joined && h.r.Intn(2) == 0 {
		nsp = "/a"
	}
	// the server's answer to each request comes within one exchange, and requests are answered at all
	send := func(ss ...SP) {
		h.c.Within("healthy-stall", "what a healthy connection sends is taken", func() { h.must(h.Send(ss...), what) })
		h.c.Stop()
	}
	switch what {
	case "connect":
		if h.r.Intn(2) == 0 {
			q := h.c.MustPoll(h.addr, modeXHR2)
			q.Start()
			h.poll, h.Inbox, h.sid = q, q.Inbox, q.Open.SID
		} else {
			w := h.c.MustWS(h.addr)
			h.ws, h.Inbox, h.sid = w, w.Inbox, w.Open.SID
		}
		h.await("its connect packet arrives", func() bool { return h.packet(0, "/", nil) != nil })
		h.await("its connect callback runs", func() bool { return h.srv.get(h.sid+"connect/") == 1 })
	case "echo":
		h.id++
		id, s := h.id, fmt.Sprint("e", h.id)
		send(SP{Type: 2, Nsp: nsp, ID: &id, Args: []interface{}{"echo", s}})
		h.await("an event is answered", func() bool {
			p := h.packet(3, nsp, &id)
			return p != nil && len(p.Args) == 1 && p.Args[0] == s
		})
	case "ask":
		n := h.srv.get(h.sid + "ack" + nsp)
		k := 0
		count := func() (k int, id *uint64) {
			ps, _ := h.Packets()
			for _, p := range ps {
				if p.Type == 2 && p.ID != nil && p.Nsp == nsp {
					k, id = k+1, p.ID
				}
			}
			return
		}
		k, _ = count()
		send(SP{Type: 2, Nsp: nsp, Args: []interface{}{"ask"}})
		var id *uint64
		h.await("an event with acknowledgement arrives", func() bool {
			var k2 int
			k2, id = count()
			return k2 > k
		})
		send(SP{Type: 3, Nsp: nsp, ID: id, Args: []interface{}{"y"}})
		h.await("an acknowledgement callback runs", func() bool { return h.srv.get(h.sid+"ack"+nsp) > n })
	case "ping":
		n := h.Len(3)
		h.c.Within("healthy-stall", "a ping of a healthy connection is taken", func() { h.must(h.SendFrames(EP{Type: 2, Data: []byte("p")}), "ping") })
		h.c.Stop()
		h.await("a ping is answered", func() bool { return h.Len(3) > n })
	case "join":
		if joined {
			return
		}
		n := h.srv.get(h.sid + "connect/a")
		send(SP{Type: 0, Nsp: "/a"})
		h.await("a namespace is joined", func() bool {
			return h.srv.get(h.sid+"connect/a") > n && h.packet(0, "/a", nil) != nil
		})
	case "leave":
		if !joined {
			return
		}
		n := h.srv.get(h.sid + "disconnect/a")
		send(SP{Type: 1, Nsp: "/a"})
		h.await("a namespace is left", func() bool { return h.srv.get(h.sid+"disconnect/a") > n })
	case "error":
		n := h.srv.get(h.sid + "error" + nsp)
		send(SP{Type: 4, Nsp: nsp, Data: "e"})
		h.await("an error packet is reported", func() bool { return h.srv.get(h.sid+"error"+nsp) > n })
	case "unknown":
		n := h.Len(4)
		send(SP{Type: 2, Nsp: "/nowhere", Args: []interface{}{"x"}})
		h.await("an event to an unknown namespace is refused", func() bool { return h.Len(4) > n })
	case "emit":
		h.srv.mu.Lock()
		so := h.srv.socks[h.sid]
		h.srv.mu.Unlock()
		n := h.Len(4)
		h.c.Within("healthy-stall", "Emit to a healthy connection returns", func() { h.must(so.Emit("hello", "x"), "Emit") })
		h.c.Stop()
		h.await("what is emitted arrives", func() bool { return h.Len(4) > n })
	case "upgrade":
		if h.ws != nil {
			return
		}
		var w *WS
		var err error
		h.c.Within("healthy-stall", "an upgrade of a healthy connection ends", func() { w, err = h.poll.Upgrade(h.c, nil) })
		h.c.Stop()
		h.must(err, "an upgrade")
		h.c.Stop()
		h.c.Cleanup(w.Close)
		h.ws = w
		h.step("echo")
	case "close", "drop", "close from the server":
		h.gone = true
		j := h.srv.get(h.sid + "connect/a")
		switch what {
		case "close":
			h.c.Within("healthy-stall", "a close packet is taken", func() { h.must(h.SendFrames(EP{Type: 1}), "close") })
			h.c.Stop()
		case "drop":
			if h.ws == nil { // nobody notices
				h.c.Within("healthy-stall", "a close packet is taken", func() { h.must(h.SendFrames(EP{Type: 1}), "close") })
				h.c.Stop()
			}
			h.Close()
		default:
			h.srv.mu.Lock()
			so := h.srv.socks[h.sid]
			h.srv.mu.Unlock()
			h.c.Within("healthy-stall", "Close of a healthy connection returns", func() { so.Close() })
			h.c.Stop()
		}
		h.await("its disconnect callbacks run", func() bool {
			return h.srv.get(h.sid+"disconnect/") == 1 && h.srv.get(h.sid+"disconnect/a") == j
		})
		h.c.Stop()
	}
}

// c17Engine: the same on the engine.
func c17Engine(c *Ctx) {
	b := c.newBad()
	var es *EngineServer
	es = c.NewEngine(25*time.Second, 60*time.Second, func(so *engine.Socket) {
		switch f := so.GetHeader("X-Bad"); f {
		case "flooded", "flooding":
			go b.flood(f == "flooding", func() error { return so.Send(b.big) })
		case "connect":
			b.block("connect")
		}
	})
	es.onMsg = func(so *engine.Socket, p EP) {
		switch string(p.Data) {
		case "block":
			b.block("event")
		case "flood":
			b.flood(false, func() error { return so.Send(b.big) })
		default:
			so.Emit(engine.EventMessage, map[bool]engine.MessageType{true: engine.MessageTypeBinary, false: engine.MessageTypeString}[p.Bin], p.Data)
		}
	}
	es.onEv = func(so *engine.Socket, what string) {
		switch h := so.GetHeader("X-Bad"); {
		case h == "disconnect" && what == "close":
			b.block("disconnect")
		case h == "ack" && what == "ping":
			b.block("ack")
		}
	}
	before := c.R.Intn(3)
	mk := func(r *rand.Rand) (*WS, *Poll) {
		if r.Intn(2) == 0 {
			return c.MustWS(es.Addr), nil
		}
		q := c.MustPoll(es.Addr, modeXHR2)
		q.Start()
		return nil, q
	}
	type end struct {
		w *WS
		q *Poll
	}
	var ends []end
	for i := 0; i < before; i++ {
		w, q := mk(c.R)
		ends = append(ends, end{w, q})
	}
	late := b.gather(es.Addr, true, false)
	b.settle()
	for len(ends) < 2+c.R.Intn(3) {
		ends = append(ends, end{})
	}
	var wg Group
	var mu sync.Mutex
	desc := ""
	for _, e := range ends {
		e, r := e, rand.New(rand.NewSource(c.R.Int63()))
		c.Go(&wg, func() {
			if e.w == nil && e.q == nil {
				e.w, e.q = mk(r)
			}
			p, sid := &SPeer{ws: e.w, poll: e.q}, ""
			if e.w != nil {
				p.Inbox, sid = e.w.Inbox, e.w.Open.SID
			} else {
				p.Inbox, sid = e.q.Inbox, e.q.Open.SID
			}
			d := fmt.Sprint(e.w != nil)
			stall := func(what string, cond func() bool) {
				c.MustAwait("healthy-stall", "a healthy connection beside misbehaving ones: "+what, cond)
			}
			stall("its open callback runs", func() bool { return es.Sock(sid) != nil })
			for n := 2 + r.Intn(8); n > 0; n-- {
				t := byte(4)
				if r.Intn(4) == 0 {
					t = 2
				}
				if p.ws == nil && r.Intn(4) == 0 {
					var w *WS
					var err error
					c.Within("healthy-stall", "an upgrade of a healthy connection ends", func() { w, err = p.poll.Upgrade(c, nil) })
					c.Stop()
					if err != nil {
						c.Fatalf("healthy", "an upgrade of a healthy connection beside misbehaving ones: %v", err)
					}
					c.Cleanup(w.Close)
					p.ws = w
					d += "u"
				}
				k := p.Len(4) + p.Len(3)
				c.Within("healthy-stall", "what a healthy connection sends is taken", func() {
					if err := p.SendFrames(EP{Type: t, Data: []byte("h")}); err != nil {
						c.Failf("healthy", "sending on a healthy connection beside misbehaving ones: %v", err)
					}
				})
				c.Stop()
				stall("a message is answered", func() bool { return p.Len(4)+p.Len(3) > k })
				d += fmt.Sprint(t)
			}
			how := r.Intn(3)
			so := es.Sock(sid)
			if how == 0 {
				c.Within("healthy-stall", "Close of a healthy connection returns", func() { so.Close() })
				c.Stop()
			} else if how == 1 && p.ws != nil {
				p.Close()
			} else {
				c.Within("healthy-stall", "a close packet is taken", func() { p.SendFrames(EP{Type: 1}) })
				c.Stop()
			}
			stall("its close event fires", func() bool { return es.Events(sid, "close") == 1 })
			c.Count("healthy engine sessions", 1)
			mu.Lock()
			desc += fmt.Sprint(d, how, ";")
			mu.Unlock()
		})
	}
	for _, f := range late {
		c.Go(&b.wg, f)
	}
	c.MustAwait("stall", "healthy connections are served", func() bool { return done(&wg) })
	b.end()
	c.Sample(map[string]interface{}{"engine, misbehaving": b.String(), "healthy": desc})
	c.Sig("engine %s %s %x", b, desc, interleaving())
}

// c17Client: several clients in one process, of which some are blocked or meet servers that misbehave.
func c17Client(c *Ctx) {
	b := c.newBad()
	mp := c.R.Intn(3) == 0
	raw := func(script func(p *RawPeer)) string {
		return "ws://" + c.NewRawServer(func(p *RawPeer) {
			c.Cleanup(p.WS.Close)
			script(p)
		}).Addr + "/socket.io/"
	}
	dial := func(url, what string, setup func(cl *socketio.Client)) (*socketio.Client, error) {
		cl := socketio.NewClient()
		cl.OnError(func(interface{}) {
			if what == "error" {
				b.block("client error")
			}
		})
		cl.Namespace("/").OnConnect(func(so socketio.Socket) {
			if what == "connect" {
				b.block("client connect")
			}
		}).OnDisconnect(func(so socketio.Socket) {
			if what == "disconnect" {
				b.block("client disconnect")
			}
		}).OnEvent("block", func() { b.block("client event") }).
			OnEvent("flood", func(so socketio.Socket) { b.flood(false, func() error { return so.Emit("data", b.big) }) })
		if setup != nil {
			setup(cl)
		}
		err := cl.Dial(url, nil, socketio.WebsocketTransport, parserOf(mp))
		if err == nil {
			c.Cleanup(func() { cl.Close() })
		}
		return cl, err
	}
	tail := &SPeer{mp: mp}
	open := func(p *RawPeer, more ...SP) {
		p.Send(openPacket("x", 25000, 60000))
		for _, s := range append([]SP{{Type: 0, Nsp: "/"}}, more...) {
			for _, f := range tail.framesOf(s) {
				p.Send(f)
			}
		}
	}
	for n := 1 + c.R.Intn(5); n > 0; n-- {
		kind := []string{"no handshake", "half a handshake", "no open", "connect", "event", "flood", "disconnect", "error", "no reads"}[c.R.Intn(9)]
		b.note("client: " + kind)
		var url string
		switch kind {
		case "no handshake", "half a handshake":
			l, err := listen()
			c.Must(err, "listen")
			c.Cleanup(func() { l.Close() })
			go func() {
				for {
					conn, err := l.Accept()
					if err != nil {
						return
					}
					c.Cleanup(func() { conn.Close() })
					if kind[0] == 'h' {
						conn.Write([]byte("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\n"))
					}
				}
			}()
			url = "ws://" + l.Addr().String() + "/socket.io/"
		case "no open":
			url = raw(func(p *RawPeer) {})
		case "connect", "no reads":
			url = raw(func(p *RawPeer) { open(p) })
		case "event", "flood":
			ev := map[bool]string{true: "block", false: "flood"}[kind == "event"]
			url = raw(func(p *RawPeer) { open(p, SP{Type: 2, Nsp: "/", Args: []interface{}{ev}}) })
		case "disconnect":
			url = raw(func(p *RawPeer) { open(p); p.Send(EP{Type: 1}) })
		case "error":
			url = raw(func(p *RawPeer) { open(p); p.Send(EP{Type: 4, Data: []byte("?")}) })
		}
		c.Go(&b.wg, func() {
			cl, err := dial(url, kind, nil)
			if err == nil && kind == "no reads" {
				go b.flood(false, func() error { return cl.Emit("/", "data", b.big) })
			}
		})
	}
	c.Sleep(time.Duration(c.R.Intn(20)) * time.Millisecond)
	b.stuck()
	// a server of the library, or a raw one, and clients of the library that behave
	sv := c.NewSio(25*time.Second, 60*time.Second, parserOf(mp), func(sv *socketio.Server) {
		sv.Namespace("/").OnEvent("echo", func(s string) string { return s }).
			OnEvent("call", func(so socketio.Socket) { so.Emit("back", func(string) { so.Emit("end") }) })
	})
	var wg Group
	for n := 1 + c.R.Intn(3); n > 0; n-- {
		r := rand.New(rand.NewSource(c.R.Int63()))
		c.Go(&wg, func() {
			var conn, disc, acks, ends atomic.Int64
			var cl *socketio.Client
			var err error
			c.Within("healthy-stall", "Dial of a healthy client beside misbehaving ones returns", func() {
				cl, err = dial("ws://"+sv.Addr+"/socket.io/", "", func(cl *socketio.Client) {
					cl.Namespace("/").OnConnect(func(socketio.Socket) { conn.Add(1) }).OnDisconnect(func(socketio.Socket) { disc.Add(1) }).
						OnEvent("back", func() string { return "b" }).OnEvent("end", func() { ends.Add(1) })
				})
			})
			c.Stop()
			if err != nil {
				c.Fatalf("healthy", "Dial of a healthy client beside misbehaving ones: %v", err)
			}
			stall := func(what string, cond func() bool) {
				c.MustAwait("healthy-stall", "a healthy client beside misbehaving ones: "+what, cond)
			}
			stall("its connect callback runs", func() bool { return conn.Load() == 1 })
			for k := 1 + r.Intn(6); k > 0; k-- {
				n, m := acks.Load(), ends.Load()
				c.Within("healthy-stall", "Emit of a healthy client returns", func() {
					if r.Intn(2) == 0 {
						err = cl.Emit("/", "echo", "x", func(string) { acks.Add(1) })
						m = -1
					} else {
						err = cl.Emit("/", "call")
						n = -1
					}
				})
				c.Stop()
				if err != nil {
					c.Fatalf("healthy", "Emit of a healthy client beside misbehaving ones: %v", err)
				}
				stall("an emit is answered", func() bool { return acks.Load() > n && n >= 0 || ends.Load() > m && m >= 0 })
			}
			c.Within("healthy-stall", "Close of a healthy client returns", func() { cl.Close() })
			c.Stop()
			stall("its disconnect callback runs", func() bool { return disc.Load() == 1 })
			c.Count("healthy clients", 1)
		})
	}
	c.MustAwait("stall", "healthy clients are served", func() bool { return done(&wg) })
	b.end()
	c.Sample(map[string]interface{}{"clients, misbehaving": b.String()})
	c.Sig("client %v %s %x", mp, b, interleaving())
}
