package main

import (
	"fmt"
	"math/rand"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"
)

func init() {
	register(&Suite{ID: "C10", Quick: 7000, Deep: 120000, MinNT: 3500, Virtual: true, Extra: true,
		realTime: func(n int) bool { return n%7 != 5 },
		Rule:     "connection lifecycles checked, distinct by packet script, way of ending and order of scheduling points passed",
		Run:      runC10})
}

var lifePoints = []string{"server.opened", "server.reader.start", "server.onopen", "server.open", "server.open.connected", "server.open.registered",
	"server.close.removed", "server.process", "client.reader.start", "client.reader.handle", "client.dial.engine", "client.dialed", "client.process",
	"socket.close", "socket.close.conn", "socket.detachall", "server.reader.handle", "server.accepted", "server.session", "emitter.flush"}

// life is what the callbacks of one connection did, by namespace.
type life struct {
	mu  sync.Mutex
	log map[string][]string
}

func (l *life) add(nsp, what string) {
	l.mu.Lock()
	l.log[nsp] = append(l.log[nsp], what)
	l.mu.Unlock()
}

func (l *life) get(nsp string) []string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]string(nil), l.log[nsp]...)
}

// judge compares a namespace's history with the one the peer's packets call for: it must be a prefix of it, followed by
// a disconnect exactly if that prefix leaves the namespace connected and the connection has ended.
func judge(got, want []string, ended bool) string {
	k := 0
	for k < len(got) && k < len(want) && got[k] == want[k] {
		k++
	}
	conn := false
	for _, x := range got[:k] {
		conn = x != "disconnect"
	}
	rest := got[k:]
	switch {
	case len(rest) == 0:
		if ended && conn {
			return "no disconnect callback after the last connect"
		}
		return ""
	case len(rest) == 1 && rest[0] == "disconnect" && conn && ended:
		return ""
	}
	return fmt.Sprintf("callback %d is %q", k, rest[0])
}

// judgeMute is judge for a namespace whose connects and disconnects have no callback.
func judgeMute(got, want []string) string {
	for k, x := range got {
		if k >= len(want) || x != want[k] {
			return fmt.Sprintf("callback %d is %q", k, x)
		}
	}
	return ""
}

// Ways a connection ends.
const (
	endClosePacket = iota // the peer's close packet
	endDrop               // the peer drops the connection
	endLocal              // Close from outside
	endCallback           // Close from a callback
	endMany               // Close from several goroutines and the peer's close packet at once
	endGarbage            // a websocket frame that is no packet
	endIdle               // the peer falls silent
	endUnread             // the peer does not read
	endUpgraded           // the session is upgraded first, then any of the first five
	nEnds
)

var endNames = []string{"close packet", "drop", "local close", "close from a callback", "several closes", "garbage", "silence", "unread output", "upgrade"}

func runC10(c *Ctx) {
	if c.S.Virtual {
		longHistory(c)
		return
	}
	how := c.Perturb(lifePoints...)
	if c.R.Intn(4) == 0 {
		c10Engine(c, how)
		return
	}
	o := c.genDuo(c.R.Intn(4) == 0)
	o.NoJoin = true
	o.Nsps = []string{"/", "/a", "/b"}[:1+c.R.Intn(3)]
	for _, n := range []string{"/q0", "/q1", "/q2", "/q3"}[:c.R.Intn(5)*c.R.Intn(2)] {
		o.Nsps, o.Mute = append(o.Nsps, n), append(o.Mute, n)
	}
	end := c.R.Intn(endGarbage + 1)
	switch {
	case c.Case%83 == 7:
		end, o.Short = endIdle, true
	case c.Case%83 == 53:
		end, o.Polling, o.Client, o.Short = endUpgraded, true, false, true
	case c.Case%83 == 31:
		end, o.Polling, o.Short = endUnread, false, true
	case c.R.Intn(6) == 0:
		end, o.Polling, o.Client = endUpgraded, true, false
	}
	if o.Polling && end == endDrop {
		end = endClosePacket
	}
	c.Sample(map[string]interface{}{"connection": o.String(), "namespaces": len(o.Nsps), "end": endNames[end], "delays": how})
	c10Sio(c, o, end)
}

// firstOf is the first entry of l that is one of what.
func firstOf(l []string, what ...string) string {
	for _, x := range l {
		for _, w := range what {
			if x == w {
				return x
			}
		}
	}
	return ""
}

type life10 struct {
	c     *Ctx
	mu    sync.Mutex
	bySid map[string]*life
	act   func(so interfaceSocket, what string) // done in callbacks
}

func (l *life10) of(sid string) *life {
	l.mu.Lock()
	defer l.mu.Unlock()
	x := l.bySid[sid]
	if x == nil {
		x = &life{log: map[string][]string{}}
		l.bySid[sid] = x
	}
	return x
}

func c10Sio(c *Ctx, o DuoOpt, end int) {
	r := c.R
	ls := &life10{c: c, bySid: map[string]*life{}}
	slowCB := time.Duration(0)
	if r.Intn(3) == 0 {
		slowCB = time.Duration(r.Intn(1500)) * time.Microsecond
	}
	sub := end
	if end == endUpgraded {
		sub = []int{endClosePacket, endDrop, endLocal, endCallback, endMany}[r.Intn(5)]
		if o.Short {
			sub = endIdle
		}
	}
	var countdown atomic.Int64 // callbacks until one closes
	countdown.Store(-1)
	mute := map[string]bool{} // namespaces without callbacks for connects and disconnects
	for _, n := range o.Mute {
		mute[n] = true
	}
	early := !o.Polling && r.Intn(2) == 0
	if sub == endCallback && early {
		countdown.Store(int64(1 + r.Intn(12)))
	}
	emitters := r.Intn(3) == 0
	act := func(so interfaceSocket) {
		if slowCB > 0 {
			time.Sleep(slowCB)
		}
		if emitters {
			so.Emit("hello", 1)
		}
		if countdown.Add(-1) == 0 {
			so.Close()
		}
	}
	d := c.NewDuo(o, func(d *Duo) {
		d.OnConn = func(nsp string, so interfaceSocket) {
			if so.Namespace() != nsp {
				c.Failf("socket", "the connect callback of %s got the socket of %s", nsp, so.Namespace())
			}
			l := ls.of(so.Sid())
			l.add(nsp, "connect")
			act(so)
			l.add(nsp, "connected")
		}
		d.OnDisc = func(nsp string, so interfaceSocket) {
			if so.Namespace() != nsp {
				c.Failf("socket", "the disconnect callback of %s got the socket of %s", nsp, so.Namespace())
			}
			if so.Emit("late") == nil {
				c.Failf("left", "an emit from the disconnect callback of %s succeeds: it is still connected there", nsp)
			}
			l := ls.of(so.Sid())
			l.add(nsp, "disconnect")
			act(so)
		}
		for _, nsp := range d.Nsps {
			nsp := nsp
			d.Ns(nsp).OnEvent("e", func(so interfaceSocket, n int) {
				l := ls.of(so.Sid())
				l.add(nsp, fmt.Sprint("event ", n))
				act(so)
			})
		}
	})
	ds := []*Duo{d}
	if !o.Client && r.Intn(3) == 0 {
		ds = append(ds, d.Another())
	}
	if sub == endCallback && !early {
		countdown.Store(int64(1 + r.Intn(12)))
	}
	wants := make([]map[string][]string, len(ds))
	scripts := ""
	var wg Group
	for i, d := range ds {
		d, rr := d, rand.New(rand.NewSource(r.Int63()))
		want := map[string][]string{"/": {"connect", "connected"}}
		wants[i] = want
		// the script is settled beforehand
		conn := map[string]bool{"/": true}
		type step struct {
			fs    []EP
			pause time.Duration
		}
		var steps []step
		var fs []EP
		for n, k := 0, 1+rr.Intn(25); n < k; n++ {
			nsp := d.Nsps[rr.Intn(len(d.Nsps))]
			var s SP
			switch rr.Intn(6) {
			case 0, 1:
				s = SP{Type: 0, Nsp: nsp}
				if !conn[nsp] {
					conn[nsp] = true
					if !mute[nsp] {
						want[nsp] = append(want[nsp], "connect", "connected")
					}
				}
				scripts += "c"
			case 2:
				s = SP{Type: 1, Nsp: nsp}
				if conn[nsp] {
					conn[nsp] = false
					if !mute[nsp] {
						want[nsp] = append(want[nsp], "disconnect")
					}
				}
				scripts += "d"
			default:
				s = SP{Type: 2, Nsp: nsp, Args: []interface{}{"e", int64(n)}}
				if rr.Intn(3) == 0 {
					s.ID = uid(uint64(n))
				}
				if conn[nsp] {
					want[nsp] = append(want[nsp], fmt.Sprint("event ", n))
				}
				scripts += "e"
			}
			scripts += fmt.Sprint(len(nsp))
			fs = append(fs, spell(s, o.MP, rr)...)
			if rr.Intn(2) == 0 {
				steps = append(steps, step{fs, time.Duration(rr.Intn(3)) * time.Duration(rr.Intn(600)) * time.Microsecond})
				fs = nil
			}
		}
		steps = append(steps, step{fs: fs})
		upAt := -1
		if end == endUpgraded {
			upAt = rr.Intn(len(steps) + 1)
		}
		tail := sub
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i, st := range steps {
				if i == upAt && !d.upgrade10() {
					return
				}
				if len(st.fs) > 0 && d.SendFrames(st.fs...) != nil {
					return // ended; the checks below decide whether it may
				}
				if st.pause > 0 {
					time.Sleep(st.pause)
				}
			}
			if upAt == len(steps) && !d.upgrade10() {
				return
			}
			switch tail {
			case endClosePacket:
				d.SendFrames(EP{Type: 1})
				if rr.Intn(2) == 0 {
					d.SendFrames(EP{Type: 1})
				}
			case endDrop:
				d.SPeer.Close()
			case endMany:
				d.SendFrames(EP{Type: 1})
			case endGarbage:
				if d.ws == nil {
					d.SendFrames(EP{Type: 1})
					return
				}
				d.ws.Conn.UnderlyingConn().Write([]byte{0x83, 0x80, 0, 0, 0, 0}) // a reserved opcode
			case endUnread:
				d.ws.gate.Lock()
				so := d.Sock("/")
				big := strings.Repeat("x", 1<<20)
				for i := 0; i < 60; i++ {
					if so.Emit("big", big) != nil {
						break
					}
				}
				d.ws.gate.Unlock()
			}
		}()
	}
	switch sub {
	case endLocal, endMany:
		wait := time.Duration(r.Intn(4)) * time.Duration(r.Intn(1500)) * time.Microsecond
		for _, d := range ds {
			for g := 1 + r.Intn(2)*b2i(sub == endMany); g >= 0; g-- {
				d, nsp := d, g%2 == 0
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(wait)
					if d.cli != nil && nsp {
						d.cli.Close()
					} else {
						d.Sock("/").Close()
					}
				}()
			}
		}
	case endCallback:
		c.Soon(time.Second, func() bool { return done(&wg) })
		for _, d := range ds { // if no callback came to it
			d.Sock("/").Close()
		}
	}
	full := sub == endClosePacket || sub == endGarbage && !o.Polling || sub == endIdle && !o.Polling
	show := func(i int) string {
		s := ""
		for _, n := range o.Nsps {
			s += fmt.Sprintf("%s\n want %v\n got  %v\n", n, wants[i][n], ls.of(ds[i].sid).get(n))
		}
		return s
	}
	check := func(ended bool) bool {
		for i, d := range ds {
			for _, n := range o.Nsps {
				got, want := ls.of(d.sid).get(n), wants[i][n]
				e := judge(got, want, ended)
				if mute[n] {
					e = judgeMute(got, want)
				}
				if ended && full && e == "" && len(got) < len(want) {
					e = "callbacks are missing"
				}
				if e != "" {
					if !ended { // the connection may have ended meanwhile; that is judged below
						if !mute[n] && judge(got, want, true) == "" {
							continue
						}
						c.Fatalf("lifecycle", "%s, %s, namespace %s: %s\n%s", o, endNames[end], n, e, show(i))
					}
					return false
				}
			}
		}
		return true
	}
	if !c.Await("no-disconnect", fmt.Sprintf("%s, %s: every namespace connected is disconnected", o, endNames[end]), func() bool {
		check(false)
		return done(&wg) && check(true)
	}) {
		for i := range ds {
			c.Tracef("%s", show(i))
		}
		c.Failed()
		c.Failf("no-disconnect-detail", "%s", show(0))
		panic(abort{})
	}
	time.Sleep(time.Duration(300+r.Intn(1200)) * time.Microsecond)
	check(false)
	c.MustAwait("no-disconnect", "what was under way ends", func() bool { return check(true) })
	n := 0
	for _, d := range ds {
		for _, nsp := range o.Nsps {
			n += len(ls.of(d.sid).get(nsp))
		}
	}
	c.Count("callbacks checked", n)
	c.Count("ended by "+endNames[end], len(ds))
	c.Sig("sio %s %d %s %x", o, end, scripts, interleaving())
}

// upgrade10 moves a polling peer to a websocket; false if the session ended meanwhile.
func (d *Duo) upgrade10() bool {
	if d.ws != nil {
		return true
	}
	w, _, err := dialWS(d.srv.Addr, "sid="+d.sid, nil, &Inbox{}, nil)
	if err != nil {
		return false
	}
	d.c.Cleanup(w.Close)
	w.Send(EP{Type: 2, Data: []byte("probe")})
	d.c.Soon(20*time.Second, func() bool { return w.Len(3) > 0 || w.Ended() })
	if w.Len(3) == 0 {
		w.Close()
		return false
	}
	idle := d.poll.Halt()
	select {
	case <-idle:
	case <-time.After(20 * time.Second):
		return false
	}
	in := d.Inbox
	w.Inbox.mu.Lock()
	for _, f := range w.Inbox.frames[1:] {
		in.add(f, 'w')
	}
	w.Inbox.note = func(f EP, _ byte) { in.add(f, 'w') }
	w.Inbox.mu.Unlock()
	if w.Send(EP{Type: 5}) != nil {
		return false
	}
	d.ws = w
	return true
}

// c10Engine: one open callback and one close event per session.
func c10Engine(c *Ctx, how string) {
	r := c.R
	if r.Intn(4) == 0 {
		c10EngineClient(c, how)
		return
	}
	closeIn := ""
	if r.Intn(4) == 0 {
		closeIn = []string{"open", "message", "ping", "upgrade", "close"}[r.Intn(5)]
	}
	es := c.NewEngine(40*time.Second, 60*time.Second, func(so *engine.Socket) {
		if closeIn == "open" {
			so.Close()
		}
	})
	es.onMsg = func(so *engine.Socket, _ EP) {
		if closeIn == "message" {
			so.Close()
		}
	}
	es.onEv = func(so *engine.Socket, what string) {
		if what == closeIn {
			so.Close()
		}
	}
	n := 1 + r.Intn(4)
	var wg Group
	for i := 0; i < n; i++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			c10Session(c, es, rr)
		}()
	}
	srvClose := r.Intn(5) == 0
	if srvClose { // handshakes around the server's end
		time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
		es.Server.Close()
	}
	c.MustAwait("close-event", "the sessions end", func() bool { return done(&wg) })
	all := func() bool {
		es.mu.Lock()
		defer es.mu.Unlock()
		for _, l := range es.log {
			if k := strings.Count(strings.Join(l, " "), "close"); k == 0 {
				return false
			}
		}
		return true
	}
	c.MustAwait("close-event", "every session that opened has its close event", all)
	time.Sleep(time.Duration(200+r.Intn(800)) * time.Microsecond)
	c.MustAwait("close-event", "every session that opened has its close event", all)
	es.mu.Lock()
	defer es.mu.Unlock()
	for sid, l := range es.log {
		opens, closes := 0, 0
		for _, x := range l {
			opens += b2i(x == "open")
			closes += b2i(x == "close")
		}
		if opens != 1 || closes != 1 || firstOf(l, "open", "message") != "open" {
			c.Fatalf("engine-events", "session %s: %v (server closed: %v, close in %q)", sid, l, srvClose, closeIn)
		}
		c.Count("engine sessions checked", 1)
		c.Count("callbacks checked", len(l))
	}
	if len(es.log) == 0 {
		return
	}
	c.Sig("engine %d %v %s %x", n, srvClose, closeIn, interleaving())
}

// c10Session is one peer's session, ended in some way.
func c10Session(c *Ctx, es *EngineServer, r *rand.Rand) {
	sleep := func() { time.Sleep(time.Duration(r.Intn(3)) * time.Duration(r.Intn(500)) * time.Microsecond) }
	var send func(ps ...EP) error
	var drop func()
	var sid string
	ws := r.Intn(2) == 0
	if ws {
		w, _, err := DialWS(es.Addr, "", nil)
		if err != nil {
			return // the server may be closed
		}
		c.Cleanup(w.Close)
		if r.Intn(4) > 0 {
			c.Soon(5*time.Second, func() bool { return w.opened.Load() || w.Ended() })
			sid = w.Open.SID
		}
		send = func(ps ...EP) (err error) {
			for _, p := range ps {
				if err = w.Send(p); err != nil {
					return
				}
			}
			return
		}
		drop = w.Close
	} else {
		p, err := DialPoll(es.Addr, modeXHR2, nil)
		if err != nil {
			return
		}
		c.Cleanup(p.Close)
		p.Start()
		sid = p.Open.SID
		send = func(ps ...EP) error {
			code, err := p.Post(ps, true, nil)
			if err == nil && code != 200 {
				err = &statusError{code, ""}
			}
			return err
		}
		drop = func() { send(EP{Type: 1}) }
		if r.Intn(2) == 0 { // an upgrade, or what goes for one
			w, _, err := dialWS(es.Addr, "sid="+sid, nil, &Inbox{}, nil)
			if err == nil {
				c.Cleanup(w.Close)
				steps := r.Intn(4)
				if steps > 0 {
					w.Send(EP{Type: 2, Data: []byte("probe")})
					c.Soon(5*time.Second, func() bool { return w.Len(3) > 0 || w.Ended() })
				}
				if steps > 1 && w.Len(3) > 0 {
					select {
					case <-p.Halt():
					case <-time.After(10 * time.Second):
					}
					drop = w.Close // the session's connection from here on
					if w.Send(EP{Type: 5}) == nil && steps > 2 {
						send = func(ps ...EP) (err error) {
							for _, p := range ps {
								if err = w.Send(p); err != nil {
									return
								}
							}
							return
						}
					}
				} else if steps < 2 && r.Intn(2) == 0 {
					w.Close()
				}
			}
		}
	}
	for i := r.Intn(4); i > 0; i-- {
		if r.Intn(3) == 0 {
			send(EP{Type: 2, Data: []byte("p")})
		} else {
			send(EP{Type: 4, Data: []byte("m")})
		}
		sleep()
	}
	local := func() {
		if so := es.Sock(sid); so != nil {
			so.Close()
		}
	}
	switch r.Intn(5) {
	case 0:
		send(EP{Type: 1})
	case 1:
		send(EP{Type: 1}, EP{Type: 1}, EP{Type: 4, Data: []byte("late")})
	case 2:
		go local()
		sleep()
		send(EP{Type: 1})
	case 3:
		local()
		go local()
		send(EP{Type: 1})
	}
	drop()
	local()
}

// c10EngineClient: the client side's close event.
func c10EngineClient(c *Ctx, how string) {
	r := c.R
	end := r.Intn(5)
	peers := make(chan *RawPeer, 1)
	rs := c.NewRawServer(func(p *RawPeer) {
		p.Send(openPacket("x10", 25000, 60000))
		for i := r.Intn(4); i > 0; i-- {
			p.Send(EP{Type: 4, Data: []byte("m")})
		}
		if end == 0 {
			p.Send(EP{Type: 1})
		}
		if end == 1 {
			p.WS.Close()
		}
		p.StartReading()
		peers <- p
	})
	var closes atomic.Int64
	inClose := r.Intn(3)
	var cl *engine.Client
	var err error
	c.Within("dial-stall", "Dial returns", func() {
		cl, err = engine.Dial("ws://"+rs.Addr+"/", http.Header{}, engine.WebsocketTransport, func(cl *engine.Client) {
			cl.On(engine.EventClose, engine.Callback(func(so *engine.Socket, _ engine.MessageType, _ []byte) {
				closes.Add(1)
				if inClose == 0 {
					so.Close()
				}
				if inClose == 1 {
					cl.Close()
				}
			}))
			cl.On(engine.EventMessage, engine.Callback(func(so *engine.Socket, _ engine.MessageType, _ []byte) {
				if end == 2 {
					so.Close()
				}
			}))
		})
	})
	c.Stop()
	if err != nil {
		if end == 1 {
			return
		}
		c.Fatalf("dial", "Dial: %v", err)
	}
	p := <-peers
	time.Sleep(time.Duration(r.Intn(3)) * time.Duration(r.Intn(500)) * time.Microsecond)
	switch end {
	case 3:
		go cl.Close()
		p.Send(EP{Type: 1})
	case 4:
		go cl.Socket.Close()
		p.WS.Close()
	}
	if end == 2 {
		cl.Close()
	}
	c.MustAwait("close-event", "the client's close event", func() bool { return closes.Load() > 0 })
	go cl.Close()
	go cl.Socket.Close()
	p.Send(EP{Type: 1})
	time.Sleep(time.Duration(200+r.Intn(800)) * time.Microsecond)
	if k := closes.Load(); k != 1 {
		c.Fatalf("engine-events", "%d close events of a client", k)
	}
	c.Count("engine sessions checked", 1)
	c.Sig("client %d %d %x", end, inClose, interleaving())
}

var _ socketio.Socket
