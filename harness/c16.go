package main

import (
	"fmt"
	"math/rand"
	"net"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"
)

func init() {
	register(&Suite{ID: "C16", Quick: 8000, Deep: 160000, MinNT: 5000, Run: runC16,
		Rule: "sets of public calls made from callbacks and beside them, distinct by role, calls, the callbacks they were made from and order of scheduling points passed"})
}

func runC16(c *Ctx) {
	c.Perturb("socket.close", "socket.close.conn", "emitter.submit", "upgrade.pause", "upgrade.paused", "upgrade.closed", "server.close.removed", "socket.detachall")
	switch k := c.R.Intn(20); {
	case c.Case%29 == 11:
		c16Held(c)
	case k < 12:
		c16Sio(c)
	case k < 14:
		c16Connect(c)
	case k < 18:
		c16Engine(c)
	default:
		c16EngineClient(c)
	}
}

// api16 is what can be called on a connection, of either layer.
type api16 interface {
	RemoteAddr() net.Addr
	LocalAddr() net.Addr
	GetHeader(key string) string
	SetHeader(key, value string)
	Sid() string
	Close() error
}

// calls16 makes calls and watches that they return.
type calls16 struct {
	c      *Ctx
	mu     sync.Mutex
	r      *rand.Rand
	all    []api16 // connections that any call may use
	budget int     // callbacks that may still make calls
	seq    int
	in     map[int]string  // calls in progress
	made   map[string]int  // calls made, with the callback
	runs   map[string]int  // callbacks run, by sid and kind
	asks   map[string]int  // by sid: successful emits with a callback, to "/"
	answ   map[string]int  // by sid: their callbacks
	closed map[string]bool // connections that some call was to close
	free   bool            // any connection may be closed, and the server
	server func() error
	extra  func(where string)
	wg     Group
	cli    api16 // the client whose connections these are, if any
	mp     bool
	known  []string // sids of connections made
	lost   int      // handshakes that found their session closed
}

func (c *Ctx) newCalls() *calls16 {
	return &calls16{c: c, r: rand.New(rand.NewSource(c.R.Int63())), budget: 3 + c.R.Intn(12), in: map[int]string{}, made: map[string]int{},
		runs: map[string]int{}, asks: map[string]int{}, answ: map[string]int{}, closed: map[string]bool{}}
}

func (k *calls16) rnd(n int) int {
	k.mu.Lock()
	defer k.mu.Unlock()
	return k.r.Intn(n)
}

func (k *calls16) join(a api16) {
	k.mu.Lock()
	k.all = append(k.all, a)
	k.mu.Unlock()
}

func (k *calls16) isClosed(sid string) bool {
	k.mu.Lock()
	defer k.mu.Unlock()
	return k.closed[sid]
}

func (k *calls16) ran(sid, what string) int {
	k.mu.Lock()
	defer k.mu.Unlock()
	return k.runs[sid+" "+what]
}

// at is called from a callback.
func (k *calls16) at(where string, so api16) {
	k.mu.Lock()
	k.runs[so.Sid()+" "+where]++
	n := 0
	if k.budget > 0 && k.r.Intn(3) > 0 {
		k.budget--
		n = 1 + k.r.Intn(3)
	}
	k.mu.Unlock()
	for ; n > 0; n-- {
		k.any(where, so)
	}
}

// any makes some call, on so or on another connection.
func (k *calls16) any(where string, so api16) {
	op := ops16[k.rnd(len(ops16))]
	if k.rnd(4) == 0 {
		k.mu.Lock()
		if len(k.all) > 0 {
			if o := k.all[k.r.Intn(len(k.all))]; o.Sid() != so.Sid() {
				so, where = o, where+" of another"
			}
		}
		k.mu.Unlock()
	}
	if k.cli != nil && k.rnd(3) == 0 {
		so, where = k.cli, where+" by client"
	}
	switch k.rnd(8) {
	case 0: // on another goroutine, waited for
		done := make(chan struct{})
		k.wg.Add(1)
		go func() { defer k.wg.Done(); defer close(done); k.do(op, "goroutine awaited by "+where, so) }()
		<-done
	case 1:
		k.wg.Add(1)
		go func() { defer k.wg.Done(); k.do(op, "goroutine begun by "+where, so) }()
	default:
		k.do(op, where, so)
	}
}

var ops16 = []string{"emit", "emit", "emit 40", "emit large", "ask", "ask", "emit binary", "error", "headers", "addresses", "sid", "close", "close", "server", "extra"}

func (k *calls16) do(op, where string, so api16) {
	sid := so.Sid()
	k.mu.Lock()
	if op == "close" || op == "server" {
		if !k.free || op == "close" && k.r.Intn(3) > 0 || op == "server" && k.server == nil {
			op = "emit"
		} else if op == "close" {
			k.closed[sid] = true
		}
	}
	k.seq++
	id := k.seq
	k.in[id] = fmt.Sprintf("%s in %s of %s", op, where, sid)
	k.made[op+" in "+where]++
	k.mu.Unlock()
	k.c.Tracef("%d begin %s in %s of %s", id, op, where, sid)
	var err error
	sio, _ := so.(socketio.Socket)
	eng, _ := so.(*engine.Socket)
	if cl, ok := so.(*engine.Client); ok {
		eng = cl.Socket
	}
	emit := func(size int) error {
		if sio != nil {
			return sio.Emit("x", strings.Repeat("x", size))
		}
		return eng.Send(strings.Repeat("x", size))
	}
	switch op {
	case "emit":
		err = emit(3)
	case "emit 40": // more than is buffered
		for i := 0; i < 40 && err == nil; i++ {
			err = emit(10)
		}
	case "emit large":
		err = emit(300000)
	case "ask":
		if sio == nil {
			err = eng.Emit(engine.EventPing, engine.MessageTypeString, "")
			break
		}
		root := sio.Namespace() == "/"
		ev := []string{"ask", "askbin"}[k.rnd(2)]
		args := []interface{}{"q", func(a socketio.Socket, s string) {
			if root {
				k.mu.Lock()
				k.answ[sid]++
				k.mu.Unlock()
			}
			k.at("ack", a)
		}}
		if ev == "askbin" {
			if k.mp {
				args = append(args, []byte("attached"))
			} else {
				args = append(args, &socketio.Bytes{Data: []byte("attached")})
			}
		}
		if err = sio.Emit(ev, args...); err == nil && root {
			k.mu.Lock()
			k.asks[sid]++
			k.mu.Unlock()
		}
	case "emit binary":
		switch {
		case sio == nil:
			err = eng.Emit(engine.EventMessage, engine.MessageTypeBinary, []byte("binary"))
		case k.mp:
			err = sio.Emit("x", []byte("a"), []byte("b"))
		default:
			err = sio.Emit("x", &socketio.Bytes{Data: []byte("a")}, &socketio.Bytes{Data: []byte("b")})
		}
	case "error":
		if sio != nil {
			err = sio.EmitError("failed")
		} else {
			err = eng.Emit(engine.EventPong, engine.MessageTypeString, "x")
		}
	case "headers":
		so.SetHeader("X-Some", so.GetHeader("User-Agent"))
	case "addresses":
		_ = so.LocalAddr().String() + so.RemoteAddr().String()
	case "sid":
		_ = so.Sid()
		if sio != nil {
			_ = sio.Namespace()
		}
	case "close":
		so.Close()
	case "server":
		k.server()
	case "extra":
		if k.extra != nil {
			k.extra(where)
		}
	}
	k.mu.Lock()
	delete(k.in, id)
	k.mu.Unlock()
	k.c.Tracef("%d end %s: %v", id, op, err)
}

// settled repeats cond until it holds; if it does not, what is in progress is told.
func (k *calls16) settled(key, what string, cond func() bool) {
	if k.c.await(func() bool { return cond() }, stallTime, stallSteps) {
		return
	}
	k.mu.Lock()
	var in []string
	for _, s := range k.in {
		in = append(in, s)
	}
	k.mu.Unlock()
	sort.Strings(in)
	k.c.Stop()
	k.c.Fatalf(key, "no progress: %s\ncalls in progress: %q\n%s", what, in, libStacks())
}

// sign records what was observed.
func (k *calls16) sign(what string) {
	k.mu.Lock()
	var l []string
	n, m := 0, 0
	for s, v := range k.made {
		l = append(l, s)
		n += v
	}
	for _, v := range k.runs {
		m += v
	}
	k.mu.Unlock()
	sort.Strings(l)
	for _, s := range l {
		if i := strings.Index(s, " in "); i > 0 {
			k.c.Count("calls from "+strings.TrimSuffix(s[i+4:], " of another"), 1)
		}
	}
	k.c.Count("calls returned", n)
	k.c.Count("callbacks run", m)
	k.c.Count("cases: "+what, 1)
	if n > 0 {
		k.c.Sig("%s %q %x", what, l, interleaving())
	}
	k.c.Sample(map[string]interface{}{"kind": what, "calls": l})
}

var askRE = regexp.MustCompile(`^[25](?:\d+-)?(?:(/[^,\[]*),)?(\d+)\["ask(?:bin)?"`)

// asked16 returns the questions among frames: namespaces and ids.
func asked16(fs []EP, mp bool) (nsps []string, ids []uint64) {
	for _, f := range fs {
		if mp {
			if !f.Bin {
				continue
			}
			if ps, err := mpSplit([]EP{f}); err == nil && len(ps) == 1 && ps[0].Type == 2 && ps[0].ID != nil {
				nsps, ids = append(nsps, ps[0].Nsp), append(ids, *ps[0].ID)
			}
			continue
		}
		if m := askRE.FindSubmatch(f.Data); m != nil && !f.Bin {
			n := string(m[1])
			if n == "" {
				n = "/"
			}
			id, _ := strconv.ParseUint(string(m[2]), 10, 64)
			nsps, ids = append(nsps, n), append(ids, id)
		}
	}
	return
}

// peer16 is the far end of a connection; it answers every question.
type peer16 struct {
	*Duo
	k      *calls16
	mu     sync.RWMutex // held for writing during an upgrade
	stop   chan struct{}
	events int
	gone   bool // the peer has ended the connection
	wg     Group
}

func (k *calls16) peer(d *Duo) *peer16 {
	p := &peer16{Duo: d, k: k, stop: make(chan struct{})}
	p.wg.Add(1)
	go func() {
		defer p.wg.Done()
		seen := 0
		for {
			select {
			case <-p.stop:
				return
			case <-time.After(300 * time.Microsecond):
			}
			fs := p.Msgs()
			nsps, ids := asked16(fs[seen:], p.MP)
			seen = len(fs)
			for i, id := range ids {
				p.send(SP{Type: 3, Nsp: nsps[i], ID: uid(id), Args: []interface{}{"answer"}})
			}
		}
	}()
	k.c.Cleanup(func() { close(p.stop) })
	return p
}

func (p *peer16) send(s ...SP) bool {
	p.mu.RLock()
	defer p.mu.RUnlock()
	return p.Send(s...) == nil
}

func (p *peer16) raw(fs ...EP) bool {
	p.mu.RLock()
	defer p.mu.RUnlock()
	return p.SendFrames(fs...) == nil
}

// fence asks the library's end and waits for the answer.
func (p *peer16) fence() bool {
	id := uint64(1000000 + p.k.rnd(1000000000))
	if !p.send(SP{Type: 2, Nsp: "/", ID: &id, Args: []interface{}{"fence"}}) {
		return false
	}
	want := fmt.Sprintf("3%d[", id)
	ok := func() bool {
		fs := p.Msgs()
		for i := len(fs) - 1; i >= 0; i-- {
			if p.MP && fs[i].Bin {
				if ps, err := mpSplit(fs[i : i+1]); err == nil && ps[0].Type == 3 && ps[0].ID != nil && *ps[0].ID == id {
					return true
				}
			} else if !p.MP && strings.HasPrefix(string(fs[i].Data), want) {
				return true
			}
		}
		return false
	}
	p.k.settled("stuck", "a later event is answered", func() bool { return ok() || p.k.isClosed(p.sid) || p.gone })
	return ok()
}

func c16Sio(c *Ctx) {
	o := c.genDuo(c.R.Intn(4) == 0)
	k := c.newCalls()
	k.mp = o.MP
	r := c.R
	d0 := c.NewDuo(o, func(d *Duo) {
		if d.srv != nil {
			k.server = d.srv.Server.Close
			d.srv.Server.OnError(func(e error) { k.root("server error", d) })
		} else {
			k.cli = cliSocket{d.cli}
			d.cli.OnError(func(e interface{}) { k.root("client error", d) })
		}
		k.extra = func(string) { d.Ns("/a") }
		d.OnConn = func(nsp string, so socketio.Socket) { k.join(so); k.at("connect", so) }
		d.OnDisc = func(nsp string, so socketio.Socket) { k.at("disconnect", so) }
		d.OnErr = func(nsp string, so socketio.Socket) { k.at("error", so) }
		for _, n := range d.Nsps {
			d.Ns(n).OnEvent("ev", func(so socketio.Socket, s string) { k.at("event", so) }).
				OnEvent("evk", func(so socketio.Socket, s string) string { k.at("event", so); return s }).
				OnEvent("fence", func() string { return "ok" }).
				OnEvent("num", func(so socketio.Socket, n int) { k.at("event", so) })
		}
	})
	ps := []*peer16{k.peer(d0)}
	if d0.srv != nil {
		for i := r.Intn(3); i > 0; i-- {
			ps = append(ps, k.peer(d0.Another()))
		}
	}
	k.mu.Lock()
	k.free = r.Intn(4) > 0
	k.budget += 6
	k.mu.Unlock()
	var wg Group
	for _, p := range ps {
		p, rr, n := p, rand.New(rand.NewSource(r.Int63())), 3+r.Intn(12)
		wg.Add(1)
		go func() {
			defer wg.Done()
			p.drive(rr, n)
		}()
	}
	for i := r.Intn(3); i > 0; i-- { // beside the callbacks
		so, n := ps[r.Intn(len(ps))].Sock([]string{"/", "/", "/a"}[r.Intn(3)]), 1+r.Intn(5)
		var a api16 = so
		if d0.cli != nil && r.Intn(2) == 0 {
			a = cliSocket{d0.cli}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for ; n > 0; n-- {
				k.any("a goroutine", a)
				time.Sleep(time.Duration(k.rnd(800)) * time.Microsecond)
			}
		}()
	}
	k.settled("call-stall", "peers and goroutines end", func() bool { return done(&wg) })
	k.settled("call-stall", "calls return", func() bool { return done(&k.wg) && k.idle() })
	for _, p := range ps {
		p.judge()
	}
	k.settled("call-stall", "calls return", func() bool { return done(&k.wg) && k.idle() })
	k.sign("socketio " + o.String())
}

func (k *calls16) idle() bool {
	k.mu.Lock()
	defer k.mu.Unlock()
	return len(k.in) == 0
}

// root is called from callbacks of the server or client itself, which are given no socket.
func (k *calls16) root(where string, d *Duo) {
	k.mu.Lock()
	var a api16
	if len(k.all) > 0 {
		a = k.all[k.r.Intn(len(k.all))]
	}
	k.mu.Unlock()
	if d.cli != nil && k.rnd(2) == 0 {
		a = cliSocket{d.cli}
	}
	if a != nil {
		k.at(where, a)
	}
}

// drive makes callbacks run.
func (p *peer16) drive(r *rand.Rand, n int) {
	joined := true
	for ; n > 0; n-- {
		ok := true
		nsp := []string{"/", "/", "/a"}[r.Intn(3)]
		switch r.Intn(14) {
		case 0, 1, 2:
			ok = p.send(SP{Type: 2, Nsp: nsp, Args: []interface{}{"ev", "s"}})
			if nsp == "/" {
				p.events++
			}
		case 3, 4:
			ok = p.send(SP{Type: 2, Nsp: nsp, ID: uid(uint64(n)), Args: []interface{}{"evk", "s"}})
			if nsp == "/" {
				p.events++
			}
		case 5:
			ok = p.send(SP{Type: 2, Nsp: nsp, Args: []interface{}{"num", "no number"}})
		case 6:
			ok = p.send(SP{Type: 4, Nsp: nsp, Data: "oops"})
		case 7:
			bad := EP{Type: 4, Data: []byte("2[")}
			if p.MP {
				bad = EP{Type: 4, Bin: true, Data: []byte{0xc1}}
			}
			ok = p.raw(bad)
		case 8:
			if joined {
				ok = p.send(SP{Type: 1, Nsp: "/a"})
			} else {
				ok = p.send(SP{Type: 0, Nsp: "/a"})
			}
			joined = !joined
		case 9:
			if p.cli == nil && p.ws == nil {
				p.mu.Lock()
				ok = p.k.upgrade(p.Duo)
				p.mu.Unlock()
			}
		case 10:
			if so := p.Sock("/"); so != nil {
				p.k.do("ask", "a goroutine", so)
			}
		case 11:
			if r.Intn(6) == 0 && p.k.free {
				p.end(r)
				return
			}
		default:
			time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
		}
		if !ok {
			return
		}
	}
}

// end ends the connection, or only "/", from the peer's side.
func (p *peer16) end(r *rand.Rand) {
	p.gone = true
	switch r.Intn(3) {
	case 0:
		p.raw(EP{Type: 1})
	case 1:
		p.send(SP{Type: 1, Nsp: "/"})
		p.raw(EP{Type: 1})
	default:
		if p.ws == nil { // the server cannot know
			p.raw(EP{Type: 1})
			return
		}
		p.ws.Close()
	}
}

// judge requires a connection to work on, or to have been taken down.
func (p *peer16) judge() {
	k, c := p.k, p.c
	if !p.gone && !k.isClosed(p.sid) {
		if p.fence() {
			if n := k.ran(p.sid, "event"); !k.isClosed(p.sid) && n < p.events {
				c.Fatalf("callback-lost", "%d event callbacks ran on %s, %d events were sent before one that has been answered", n, p.sid, p.events)
			}
			k.settled("ack-lost", "answered questions run their callbacks", func() bool {
				k.mu.Lock()
				defer k.mu.Unlock()
				return k.answ[p.sid] >= k.asks[p.sid] || k.closed[p.sid]
			})
			if !k.isClosed(p.sid) {
				c.Count("connections that work on", 1)
				return
			}
		} else if !k.isClosed(p.sid) {
			if p.Ended() {
				c.Fatalf("ended", "connection %s, which nobody closed, has ended", p.sid)
			}
			c.Fatalf("stuck", "connection %s takes no more packets", p.sid)
		}
	}
	k.settled("teardown", "the disconnect callback of a closed connection runs", func() bool { return p.NDisc("/") >= 1 })
	k.settled("teardown", "the connection is ended", func() bool { return p.gone || p.Ended() })
	so := p.Sock("/")
	for _, op := range []string{"emit", "ask", "emit binary", "error", "headers", "addresses", "close"} {
		k.do(op, "a goroutine after the end", so)
	}
	c.Count("connections taken down", 1)
}

// dial opens a session in whose first callback calls are made. If it is closed there, a polling handshake may find
// nobody to answer it: then dial returns nil.
func (k *calls16) dial(addr string, ws bool) *SPeer {
	c := k.c
	p := &SPeer{mp: k.mp}
	if ws {
		w := c.MustWS(addr)
		p.ws, p.Inbox, p.sid = w, w.Inbox, w.Open.SID
		k.known = append(k.known, p.sid)
		return p
	}
	var q *Poll
	var err error
	k.within("handshake-stall", "a polling handshake is answered", func() { q, err = DialPoll(addr, modeXHR2, nil) })
	if err != nil {
		k.mu.Lock()
		defer k.mu.Unlock()
		n := len(k.closed)
		for _, s := range k.known {
			if k.closed[s] {
				n--
			}
		}
		if _, ok := err.(*statusError); !ok || n <= k.lost {
			c.Fatalf("handshake", "polling handshake failed: %v", err)
		}
		k.lost++
		return nil
	}
	c.Cleanup(q.Close)
	q.Start()
	p.poll, p.Inbox, p.sid = q, q.Inbox, q.Open.SID
	k.known = append(k.known, p.sid)
	return p
}

func (k *calls16) within(key, what string, f func()) {
	ch := make(chan struct{})
	go func() { defer close(ch); f() }()
	k.settled(key, what, func() bool {
		select {
		case <-ch:
			return true
		default:
			return false
		}
	})
}

// upgrade moves a polling peer to a websocket; if that fails or the websocket ends, the peer polls again, so that
// what is being flushed to it is read.
func (k *calls16) upgrade(d *Duo) bool {
	ok := d.upgrade10()
	w := d.ws
	go func() {
		if ok {
			<-w.done
		}
		<-d.poll.Halt()
		d.poll.Start()
	}()
	if ok {
		k.c.Count("upgrades", 1)
	}
	return ok
}

// c16Connect: calls, Close among them, from the connect callback of a new connection.
func c16Connect(c *Ctx) {
	k := c.newCalls()
	k.mp = c.R.Intn(4) == 0
	k.free = true
	k.budget = 50
	d := &duoState{nconn: map[string]int{}, ndisc: map[string]int{}}
	sv := c.NewSio(25*time.Second, 60*time.Second, parserOf(k.mp), func(s *socketio.Server) {
		s.Namespace("/").OnConnect(func(so socketio.Socket) {
			k.join(so)
			d.mu.Lock()
			d.nconn[so.Sid()]++
			d.mu.Unlock()
			k.at("connect", so)
			d.mu.Lock()
			d.nconn[so.Sid()]++
			d.mu.Unlock()
		}).OnDisconnect(func(so socketio.Socket) {
			k.at("disconnect", so)
			d.mu.Lock()
			d.ndisc[so.Sid()]++
			d.mu.Unlock()
		}).OnEvent("fence", func() string { return "ok" })
	})
	count := func(m map[string]int, sid string) int {
		d.mu.Lock()
		defer d.mu.Unlock()
		return m[sid]
	}
	type end struct {
		*SPeer
		sid string
	}
	var ends []*end
	for i := 1 + c.R.Intn(4); i > 0; i-- {
		if p := k.dial(sv.Addr, c.R.Intn(2) == 0); p != nil {
			ends = append(ends, &end{p, p.sid})
		}
	}
	for _, e := range ends {
		k.settled("stuck", "the connect callback runs", func() bool { return count(d.nconn, e.sid) == 2 })
	}
	k.settled("call-stall", "calls return", func() bool { return done(&k.wg) && k.idle() })
	for _, e := range ends {
		id := uint64(77)
		if !k.isClosed(e.sid) {
			e.Send(SP{Type: 2, Nsp: "/", ID: &id, Args: []interface{}{"fence"}})
			k.settled("stuck", "an event is answered", func() bool {
				if k.isClosed(e.sid) {
					return true
				}
				ps, _ := e.Packets()
				for _, x := range ps {
					if x.Type == 3 && x.ID != nil && *x.ID == id {
						return true
					}
				}
				return false
			})
		}
		if k.isClosed(e.sid) {
			k.settled("teardown", "the disconnect callback runs", func() bool { return count(d.ndisc, e.sid) == 1 })
			k.settled("teardown", "the connection is ended", e.Ended)
		}
	}
	k.settled("call-stall", "calls return", func() bool { return done(&k.wg) && k.idle() })
	k.sign("connect callback")
}

func c16Engine(c *Ctx) {
	k := c.newCalls()
	r := c.R
	var es *EngineServer
	k.free = r.Intn(4) > 0
	open := map[string]int{}
	var mu sync.Mutex
	ready := false
	es = c.newEngineBare(25*time.Second, 60*time.Second, func(so *engine.Socket) {
		k.join(so)
		k.at("open", so)
		mu.Lock()
		open[so.Sid()]++
		mu.Unlock()
	})
	k.server = func() error {
		mu.Lock()
		ok := ready
		mu.Unlock()
		if ok { // connections are yet to be made
			return es.Server.Close()
		}
		return nil
	}
	k.extra = func(string) {
		es.Server.On(engine.EventPong, engine.Callback(func(so *engine.Socket, t engine.MessageType, b []byte) { k.at("pong", so) }))
	}
	k.extra("")
	es.onMsg = func(so *engine.Socket, p EP) {
		if strings.HasPrefix(string(p.Data), "fence") {
			so.Send(string(p.Data))
			return
		}
		k.at("message", so)
	}
	es.onEv = func(so *engine.Socket, what string) { k.at(what, so) }
	es.Front = c.Serve(es.Server)
	c.Cleanup(func() { es.Server.Close() })
	type end struct {
		*SPeer
		sid  string
		gone bool
		n    int
	}
	var ends []*end
	for i := 1 + r.Intn(3); i > 0; i-- {
		if p := k.dial(es.Addr, r.Intn(2) == 0); p != nil {
			ends = append(ends, &end{SPeer: p, sid: p.sid})
		}
	}
	if len(ends) == 0 {
		return
	}
	for _, e := range ends {
		k.settled("stuck", "the open callback ends", func() bool { mu.Lock(); defer mu.Unlock(); return open[e.sid] == 1 })
	}
	mu.Lock()
	ready = true
	mu.Unlock()
	k.mu.Lock()
	k.budget += 6
	k.mu.Unlock()
	var wg Group
	for _, e := range ends {
		e, rr, n := e, rand.New(rand.NewSource(r.Int63())), 3+r.Intn(12)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for ; n > 0; n-- {
				var err error
				switch rr.Intn(9) {
				case 0, 1, 2:
					err = e.SendFrames(EP{Type: 4, Data: []byte("m")}, EP{Type: 4, Bin: true, Data: []byte("b")})
					e.n += 2
				case 3:
					err = e.SendFrames(EP{Type: 2, Data: []byte("p")})
				case 4:
					err = e.SendFrames(EP{Type: 3, Data: []byte("p")})
				case 5:
					if e.ws == nil {
						d := &Duo{SPeer: e.SPeer, c: c, srv: &SioServer{Front: es.Front}}
						if !k.upgrade(d) {
							return
						}
					}
				case 6:
					if rr.Intn(8) == 0 && k.free {
						e.gone = true
						e.SendFrames(EP{Type: 1})
						if e.ws != nil && rr.Intn(2) == 0 {
							e.ws.Close()
						}
						return
					}
				default:
					time.Sleep(time.Duration(rr.Intn(1500)) * time.Microsecond)
				}
				if err != nil {
					return
				}
			}
		}()
	}
	for i := r.Intn(3); i > 0; i-- {
		so, n := es.Sock(ends[r.Intn(len(ends))].sid), 1+r.Intn(5)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for ; n > 0; n-- {
				k.any("a goroutine", so)
				time.Sleep(time.Duration(k.rnd(800)) * time.Microsecond)
			}
		}()
	}
	k.settled("call-stall", "peers and goroutines end", func() bool { return done(&wg) })
	k.settled("call-stall", "calls return", func() bool { return done(&k.wg) && k.idle() })
	closes := func(sid string) (n int) {
		for _, x := range es.Log(sid) {
			if x == "close" {
				n++
			}
		}
		return
	}
	for i, e := range ends {
		if !e.gone && !k.isClosed(e.sid) {
			tag := fmt.Sprintf("fence%d", i)
			sent := e.SendFrames(EP{Type: 4, Data: []byte(tag)}) == nil
			back := func() bool {
				for _, f := range e.Msgs() {
					if string(f.Data) == tag {
						return true
					}
				}
				return false
			}
			if sent {
				k.settled("stuck", "a later message is answered", func() bool { return back() || k.isClosed(e.sid) })
			}
			if !k.isClosed(e.sid) {
				if !sent || e.Ended() {
					c.Fatalf("ended", "session %s, which nobody closed, has ended", e.sid)
				}
				if n := k.ran(e.sid, "message"); n < e.n {
					c.Fatalf("callback-lost", "%d of %d message callbacks ran", n, e.n)
				}
				c.Count("connections that work on", 1)
				continue
			}
		}
		k.settled("teardown", "the close event fires", func() bool { return closes(e.sid) >= 1 })
		k.settled("teardown", "the connection is ended", func() bool { return e.gone || e.Ended() })
		for _, op := range []string{"emit", "ask", "emit binary", "headers", "addresses", "close"} {
			k.do(op, "a goroutine after the end", es.Sock(e.sid))
		}
		c.Count("connections taken down", 1)
	}
	k.settled("call-stall", "calls return", func() bool { return done(&k.wg) && k.idle() })
	k.sign("engine server")
}

func c16EngineClient(c *Ctx) {
	k := c.newCalls()
	k.free = c.R.Intn(4) > 0
	got := make(chan *RawPeer, 1)
	rs := c.NewRawServer(func(p *RawPeer) {
		p.Send(openPacket("cli", 20000, 60000))
		p.StartReading()
		got <- p
	})
	var cli *engine.Client
	var err error
	msgs, closes := 0, 0
	fenced := make(chan struct{})
	var mu sync.Mutex
	setup := func(cl *engine.Client) {
		k.cli = cl
		k.extra = func(string) {
			cl.On(engine.EventPong, engine.Callback(func(*engine.Socket, engine.MessageType, []byte) {}))
		}
		cl.On(engine.EventMessage, engine.Callback(func(so *engine.Socket, t engine.MessageType, b []byte) {
			if string(b) == "fence" {
				close(fenced)
				return
			}
			k.at("message", so)
			mu.Lock()
			msgs++
			mu.Unlock()
		}))
		cl.On(engine.EventClose, engine.Callback(func(so *engine.Socket, t engine.MessageType, b []byte) {
			k.at("close", so)
			mu.Lock()
			closes++
			mu.Unlock()
		}))
	}
	if !c.Within("dial-stall", "Dial returns", func() {
		cli, err = engine.Dial("ws://"+rs.Addr+"/", nil, engine.WebsocketTransport)
		if err == nil {
			setup(cli)
		}
	}) {
		return
	}
	if err != nil {
		c.Fatalf("dial", "Dial fails: %v", err)
	}
	c.Cleanup(func() { cli.Close() })
	p := <-got
	k.join(cli.Socket)
	r := c.R
	var wg Group
	for i := r.Intn(3); i > 0; i-- {
		var a api16 = cli.Socket
		n := 1 + r.Intn(5)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for ; n > 0; n-- {
				k.any("a goroutine", a)
				if k.rnd(12) == 0 && k.free {
					k.mu.Lock()
					k.closed["cli"] = true
					k.mu.Unlock()
					cli.Close()
				}
			}
		}()
	}
	sent, gone := 0, false
	for n := 3 + r.Intn(10); n > 0; n-- {
		switch r.Intn(5) {
		case 0, 1:
			p.Send(EP{Type: 4, Data: []byte("m")})
			sent++
		case 2:
			p.Send(EP{Type: 3})
		case 3:
			time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
		default:
			if r.Intn(10) == 0 && k.free {
				gone = true
				if r.Intn(2) == 0 {
					p.Send(EP{Type: 1})
				} else {
					p.Close()
				}
			}
		}
		if gone {
			break
		}
	}
	k.settled("call-stall", "goroutines end", func() bool { return done(&wg) })
	k.settled("call-stall", "calls return", func() bool { return done(&k.wg) && k.idle() })
	num := func(v *int) int { mu.Lock(); defer mu.Unlock(); return *v }
	if !gone && !k.isClosed("cli") {
		p.Send(EP{Type: 4, Data: []byte("fence")})
		k.settled("stuck", "a later message reaches its callback", func() bool {
			select {
			case <-fenced:
				return true
			default:
				return k.isClosed("cli")
			}
		})
		if !k.isClosed("cli") && num(&msgs) != sent {
			c.Fatalf("callback-lost", "%d of %d message callbacks ran", num(&msgs), sent)
		}
	}
	if gone || k.isClosed("cli") {
		k.settled("teardown", "the close event fires", func() bool { return num(&closes) == 1 })
		k.settled("teardown", "the connection is ended", func() bool { return gone || p.Ended() })
		for _, op := range []string{"emit", "ask", "emit binary", "headers", "addresses", "close"} {
			k.do(op, "a goroutine after the end", cli.Socket)
		}
	}
	k.settled("call-stall", "calls return", func() bool { return done(&k.wg) && k.idle() })
	k.sign("engine client")
}

// c16Held: while emits wait for a peer that does not read, what it sends is handled and other calls return. The peer may
// well read on only then.
func c16Held(c *Ctx) {
	r := c.R
	o := c.genDuo(r.Intn(4) == 0)
	var events, errs, answers, disc atomic.Int64
	look := r.Intn(2) == 0 // callbacks look at the connection
	at := func(so socketio.Socket) {
		if look {
			so.SetHeader("X-H", "v")
			_, _, _, _ = so.GetHeader("X-H"), so.Sid(), so.RemoteAddr(), so.LocalAddr()
		}
	}
	d := c.NewDuo(o, func(d *Duo) {
		d.OnErr = func(nsp string, so socketio.Socket) { at(so); errs.Add(1) }
		d.OnDisc = func(nsp string, so socketio.Socket) { at(so); disc.Add(1) }
		for _, n := range d.Nsps {
			d.Ns(n).OnEvent("ev", func(so socketio.Socket, s string) { at(so); events.Add(1) })
		}
	})
	asks, leave := 1+r.Intn(5), r.Intn(3) == 0
	for i := 0; i < asks; i++ {
		so := d.Sock(o.Nsps[r.Intn(len(o.Nsps))])
		if err := so.Emit("ask", "q", func(so socketio.Socket, s string) { at(so); answers.Add(1) }); err != nil {
			c.Fatalf("emit", "%s: an emit fails: %v", o, err)
		}
	}
	var qs []SP
	c.MustAwait("ask-lost", "the questions arrive", func() bool {
		nsps, ids := asked16(d.Msgs(), o.MP)
		if len(ids) < asks {
			return false
		}
		qs = nil
		for i, id := range ids {
			qs = append(qs, SP{Type: 3, Nsp: nsps[i], ID: uid(id), Args: []interface{}{"answer"}})
		}
		return true
	})
	gate := &sync.RWMutex{}
	if d.ws != nil {
		gate = &d.ws.gate
	} else {
		gate = &d.poll.gate
	}
	gate.Lock()
	open := false
	unlock := func() {
		if !open {
			open = true
			gate.Unlock()
		}
	}
	defer unlock()
	var wg Group
	var left atomic.Bool
	big := strings.Repeat("x", 1<<19)
	stuck := make([]*flood17, 1+r.Intn(3))
	for i := range stuck {
		f := &flood17{}
		stuck[i] = f
		so := d.Sock([]string{"/", "/a"}[r.Intn(2)*b2i(!leave)])
		n, kind := 40, r.Intn(3)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer f.over.Store(true)
			for j := 0; j < n && !left.Load(); j++ {
				f.last.Store(time.Now().UnixNano())
				f.n.Add(1)
				var err error
				switch {
				case d.ws == nil:
					err = so.Emit("b", "x")
				case kind == 0 && !o.MP:
					err = so.Emit("b", big, &socketio.Bytes{Data: []byte(big)})
				case kind == 1:
					err = so.Emit("b", big, func(string) {})
				default:
					err = so.Emit("b", big)
				}
				if err != nil {
					c.Failf("emit", "%s: an emit to a peer that does not read for a while fails: %v", o, err)
				}
			}
		}()
	}
	held := c.Soon(5*time.Second, func() bool {
		for _, f := range stuck {
			if !f.stuck() {
				return false
			}
		}
		return true
	})
	evs, es := 0, 0
	for i, n := 0, r.Intn(6); i < n; i++ {
		nsp := o.Nsps[r.Intn(len(o.Nsps))]
		if r.Intn(2) == 0 {
			evs++
			qs = append(qs, SP{Type: 2, Nsp: nsp, Args: []interface{}{"ev", "x"}})
		} else {
			es++
			qs = append(qs, SP{Type: 4, Nsp: nsp, Data: "oops"})
		}
	}
	r.Shuffle(len(qs), func(i, j int) { qs[i], qs[j] = qs[j], qs[i] })
	if leave {
		qs = append(qs, SP{Type: 1, Nsp: "/a"})
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		c.Within("call-stall", "reading and setting headers while emits wait", func() { at(d.Sock("/")); at(d.Sock("/a")) })
	}()
	wg.Add(1)
	go func() { defer wg.Done(); d.Send(qs...) }()
	what := fmt.Sprintf("%s: with %d emits under way to a peer that does not read, %d answers, %d events, %d errors (and a disconnect: %v) it sends are handled", o, len(stuck), asks, evs, es, leave)
	c.MustAwait("held", what, func() bool {
		return answers.Load() >= int64(asks) && events.Load() >= int64(evs) && errs.Load() >= int64(es) && disc.Load() >= int64(b2i(leave))
	})
	if held {
		c.Count("handled beside waiting emits", len(qs))
	}
	left.Store(true)
	unlock()
	c.MustAwait("call-stall", what+", then emits return", func() bool { return done(&wg) })
	c.Stop()
	d.SendFrames(EP{Type: 1})
	c.MustAwait("teardown", "the disconnect callback of a closed connection runs", func() bool { return d.NDisc("/") >= 1 })
	c.Sample(map[string]interface{}{"role": "held " + o.String(), "emits": len(stuck), "handled": len(qs), "waited": held})
	c.Sig("held %s %d %d %d %d %v %x", o, len(stuck), asks, evs, es, leave, interleaving())
}
