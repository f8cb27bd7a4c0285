package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/zyxar/socketio"
)

func init() {
	register(&Suite{ID: "C11", Quick: 5000, Deep: 80000, MinNT: 2500,
		Rule: "sets of connections whose every callback and packet was attributed, distinct by workload and order of scheduling points passed",
		Run:  runC11})
}

var nspPool = []string{"/a", "/A", "/a/b", "/ab", "/b", "/ä", "/a.b", "/0", "/a b", "/b/a", "/a-", "/b~", "/a/", "/b/", "/a//b", "/a/./b", "/a/../b", "/.", "/..", "/a+b", "/a&b", "/a;b", "/a=b", "/a:b", "/@a", "/a\\b", "/1", "/0a", "/B",
	"/" + strings.Repeat("a", 300), "/" + strings.Repeat("a", 299) + "b", "/" + strings.Repeat("b/", 600)}
var evPool = []string{"e", "E", "ee", "e ", "message", "connect", "disconnect", "error", "ü", "a,b", "\"q\"", "[", "null", "1", "/a", "e\n", "\\"}

// iso11 is the ledger of one case: what was called, and what was sent, where.
type iso11 struct {
	c     *Ctx
	mu    sync.Mutex
	calls map[string]int            // connection, namespace, event, tag
	sent  map[string]map[string]int // by connection: namespace and tag of what was emitted successfully
	by    map[string]*Duo
	acked map[string]int    // answers that reached their callback: connection, namespace, tag
	hello map[string]string // emitted in connect callbacks: tag to namespace and connection
	wg    Group
}

// connected emits from the connect callback of nsp: the namespace is connected there already.
func (s *iso11) connected(so interfaceSocket, nsp string) {
	s.same(so, nsp, "(connect)")
	s.mu.Lock()
	t := fmt.Sprint("hi ", len(s.hello))
	s.hello[t] = nsp + " of " + so.Sid()
	s.mu.Unlock()
	if err := so.Emit("hi", t); err != nil {
		s.c.Failf("emit", "an emit from the connect callback of %s fails: %v", nsp, err)
	}
}

// same checks that a callback of nsp got the socket of its namespace and connection.
func (s *iso11) same(so interfaceSocket, nsp, what string) {
	if so.Namespace() != nsp {
		s.c.Failf("socket", "the callback for %q of %s got the socket of %s", what, nsp, so.Namespace())
	}
	s.mu.Lock()
	d := s.by[so.Sid()]
	s.mu.Unlock()
	if d != nil && d.ws != nil && so.RemoteAddr().String() != d.ws.Conn.LocalAddr().String() {
		s.c.Failf("socket", "the callback for %q of %s on %s got a socket to %v", what, nsp, d.ws.Conn.LocalAddr(), so.RemoteAddr())
	}
}

func (s *iso11) called(so interfaceSocket, nsp, ev, tag string, r int) {
	c := s.c
	sid := so.Sid()
	s.mu.Lock()
	s.calls[fmt.Sprintf("%s %s %q %s", sid, nsp, ev, tag)]++
	s.mu.Unlock()
	s.same(so, nsp, ev)
	reply := func(sync bool) {
		t := "re " + tag
		emit := func() error { return so.Emit("re", t) }
		if len(tag)%5 == 1 { // to be answered
			emit = func() error {
				return so.Emit("re", t, func(a socketio.Socket, got string) {
					s.same(a, nsp, "(ack)")
					if got != t || a.Sid() != sid {
						c.Failf("ack", "the answer %q of connection %s came to the callback of %q of connection %s", got, a.Sid(), t, sid)
					}
					s.mu.Lock()
					s.acked[sid+" "+nsp+" "+t]++
					s.mu.Unlock()
				})
			}
		}
		if len(tag)%5 == 0 { // as an error
			t = "re! " + tag
			emit = func() error { return so.EmitError(t) }
		}
		s.mu.Lock()
		m := s.sent[sid]
		if m == nil {
			m = map[string]int{}
			s.sent[sid] = m
		}
		m[nsp+" "+t]++
		s.mu.Unlock()
		if err := emit(); err != nil {
			s.mu.Lock()
			m[nsp+" "+t]--
			s.mu.Unlock()
			if sync {
				c.Failf("emit", "an emit from a callback of %s fails: %v", nsp, err)
			}
		}
	}
	switch r % 4 {
	case 0:
		reply(true)
	case 1:
		s.wg.Add(1)
		go func() { defer s.wg.Done(); reply(false) }()
	}
}

func runC11(c *Ctx) {
	how := c.Perturb("server.process", "client.process", "socket.emit", "socket.emit.frame", "emitter.submit", "server.reader.handle")
	r := c.R
	o := c.genDuo(r.Intn(4) == 0)
	o.NoJoin = true
	perm := r.Perm(len(nspPool))
	o.Nsps = []string{"/"}
	for i := 0; i < 1+r.Intn(4); i++ {
		o.Nsps = append(o.Nsps, nspPool[perm[i]])
	}
	if r.Intn(10) == 0 {
		for i := 10 + r.Intn(60); i > 0; i-- {
			o.Nsps = append(o.Nsps, fmt.Sprint("/n", i))
		}
	}
	var unknown []string
	for _, i := range perm[5:] {
		unknown = append(unknown, nspPool[i])
	}
	s := &iso11{c: c, calls: map[string]int{}, sent: map[string]map[string]int{}, by: map[string]*Duo{}, hello: map[string]string{}, acked: map[string]int{}}
	type hnd struct {
		bin bool
		n   int
	}
	hs := map[string]*hnd{}
	evs := append([]string(nil), evPool...)
	r.Shuffle(len(evs), func(i, j int) { evs[i], evs[j] = evs[j], evs[i] })
	evs = evs[:2+r.Intn(5)]
	for _, n := range o.Nsps {
		for _, e := range evs {
			if r.Intn(3) > 0 {
				hs[n+" "+e] = &hnd{bin: r.Intn(4) == 0, n: r.Intn(4)}
			}
		}
	}
	setup := func(d *Duo) {
		d.OnConn = func(nsp string, so interfaceSocket) { s.connected(so, nsp) }
		d.OnErr = func(nsp string, so interfaceSocket) { s.same(so, nsp, "(error)") }
		d.OnDisc = func(nsp string, so interfaceSocket) {
			s.same(so, nsp, "(disconnect)")
			if so.Emit("late", "late") == nil {
				c.Failf("left", "an emit from the disconnect callback of %s succeeds", nsp)
			}
		}
		for k, h := range hs {
			h := h
			i := strings.Index(k[1:], " ")
			// namespaces may contain a blank, too
			for _, n := range d.Nsps {
				if strings.HasPrefix(k, n+" ") && hs[k] != nil && contains(evs, k[len(n)+1:]) {
					i = len(n)
				}
			}
			nsp, ev := k[:i], k[i+1:]
			if r.Intn(4) == 0 { // registered again below
				d.Ns(nsp).OnEvent(ev, func(so interfaceSocket) {
					c.Failf("replaced", "an event %s of %s runs a handler that was replaced", ev, nsp)
				})
			}
			if h.bin && !o.MP {
				d.Ns(nsp).OnEvent(ev, func(so interfaceSocket, tag string, b socketio.Bytes) string {
					if string(b.Data) != tag {
						c.Failf("args", "%s: attachment %q came with the event of %q", o, b.Data, tag)
					}
					s.called(so, nsp, ev, tag, h.n)
					return "ack " + tag
				})
			} else if h.bin {
				d.Ns(nsp).OnEvent(ev, func(so interfaceSocket, tag string, b []byte) string {
					if string(b) != tag {
						c.Failf("args", "%s: attachment %q came with the event of %q", o, b, tag)
					}
					s.called(so, nsp, ev, tag, h.n)
					return "ack " + tag
				})
			} else {
				d.Ns(nsp).OnEvent(ev, func(so interfaceSocket, tag string) string {
					s.called(so, nsp, ev, tag, h.n)
					return "ack " + tag
				})
			}
		}
	}
	ds := []*Duo{c.NewDuo(o, setup)}
	for k := r.Intn(3); k > 0; k-- {
		switch {
		case !o.Client && r.Intn(3) > 0:
			o2 := ds[0].Polling
			ds[0].Polling = r.Intn(2) == 0
			ds = append(ds, ds[0].Another())
			ds[0].Polling = o2
		default: // another server, or another client
			ds = append(ds, c.NewDuo(o, setup))
		}
	}
	sids := map[string]bool{}
	for _, d := range ds {
		if !sids[d.sid] { // raw servers give all clients the same sid
			s.by[d.sid] = d
		} else {
			delete(s.by, d.sid)
		}
		sids[d.sid] = true
	}
	c.Sample(map[string]interface{}{"connection": o.String(), "namespaces": o.Nsps, "events": evs, "connections": len(ds), "delays": how})
	type want struct {
		calls map[string]int
		acks  map[string]int // namespace, id, tag
		errs  map[string]int // namespaces not offered
		told  map[string]int // namespace, error packet sent
		conn  map[string]bool
		stale int
	}
	wants := make([]*want, len(ds))
	var wg Group
	var total sync.WaitGroup
	for i, d := range ds {
		i, d, rr := i, d, rand.New(rand.NewSource(r.Int63()))
		w := &want{calls: map[string]int{}, acks: map[string]int{}, errs: map[string]int{}, told: map[string]int{}, conn: map[string]bool{"/": true}}
		wants[i] = w
		wg.Add(1)
		total.Add(1)
		go func() {
			defer total.Done()
			defer wg.Done()
			conn := w.conn
			var fs []EP
			flush := func() bool {
				if len(fs) == 0 {
					return true
				}
				err := d.SendFrames(fs...)
				fs = nil
				if err != nil {
					c.Failf("ended", "a connection ended by itself: %v", err)
				}
				return err == nil
			}
			for n, k := 0, 3+rr.Intn(30); n < k && !c.Failed(); n++ {
				nsp := o.Nsps[rr.Intn(len(o.Nsps))]
				switch x := rr.Intn(13); {
				case x == 12 && conn[nsp]: // an error
					t := fmt.Sprintf("err! c%d.%d %s", i, n, nsp)
					fs = append(fs, spell(SP{Type: 4, Nsp: nsp, Data: t}, o.MP, rr)...)
					w.told[nsp+" "+t]++
				case x == 0:
					fs = append(fs, spell(SP{Type: 0, Nsp: nsp}, o.MP, rr)...)
					conn[nsp] = true
				case x == 1:
					fs = append(fs, spell(SP{Type: 1, Nsp: nsp}, o.MP, rr)...)
					conn[nsp] = false
				case x == 2 && len(unknown) > 0: // not offered
					nsp = unknown[rr.Intn(len(unknown))]
					switch rr.Intn(4) {
					case 0:
						fs = append(fs, spell(SP{Type: 0, Nsp: nsp}, o.MP, rr)...)
					case 1:
						fs = append(fs, spell(SP{Type: 1, Nsp: nsp}, o.MP, rr)...)
					default:
						s := SP{Type: 2, Nsp: nsp, Args: []interface{}{evs[rr.Intn(len(evs))], "nowhere"}}
						if rr.Intn(3) == 0 {
							s.Args = append(s.Args, []byte("bin"))
						}
						if rr.Intn(3) == 0 {
							s.ID = uid(uint64(n))
						}
						fs = append(fs, spell(s, o.MP, rr)...)
						w.errs[nsp]++
					}
				case x == 3: // an emit to a namespace that is not connected
					if !flush() {
						return
					}
					nsp = o.Nsps[rr.Intn(len(o.Nsps))]
					if conn[nsp] {
						if d.Send(SP{Type: 1, Nsp: nsp}) != nil {
							return
						}
						conn[nsp] = false
					}
					if c.fence11(d); c.Failed() {
						return
					}
					if d.Sock(nsp) == nil {
						if d.cli == nil {
							continue
						}
						if err := d.cli.Emit(nsp, "stale", 1); err == nil {
							c.Failf("emit-unconnected", "emitting to %s, never connected, succeeds", nsp)
						}
						w.stale++
						continue
					}
					var args []interface{}
					for i := rr.Intn(3); i > 0; i-- {
						args = append(args, []interface{}{"x", 7, func() { c.Failf("unasked", "the callback of a refused emit runs") }}[rr.Intn(3)])
					}
					if err := d.Sock(nsp).Emit("stale", args...); err == nil {
						c.Failf("emit-unconnected", "emitting to %s, which has been left, succeeds", nsp)
					}
					if d.cli != nil && d.cli.Emit(nsp, "stale", args...) == nil {
						c.Failf("emit-unconnected", "emitting to %s, which has been left, succeeds", nsp)
					}
					if x := "/nobody's"; d.cli != nil && d.cli.Emit(x, "stale", args...) == nil {
						c.Failf("emit-unconnected", "emitting to %s, which the client has no namespace of, succeeds", x)
					}
					w.stale++
				default:
					ev := evs[rr.Intn(len(evs))]
					tag := fmt.Sprintf("c%d.%d %s %q", i, n, nsp, ev)
					h := hs[nsp+" "+ev]
					s := SP{Type: 2, Nsp: nsp, Args: []interface{}{ev, tag}}
					if h != nil && h.bin {
						s.Args = append(s.Args, []byte(tag))
					}
					if rr.Intn(3) == 0 && h != nil {
						s.ID = uid(uint64(rr.Intn(5)))
						if conn[nsp] {
							w.acks[fmt.Sprint(nsp, " ", *s.ID, " ", tag)]++
						}
					}
					if h != nil && conn[nsp] {
						w.calls[fmt.Sprintf("%s %s %q %s", d.sid, nsp, ev, tag)]++
					}
					fs = append(fs, spell(s, o.MP, rr)...)
				}
				if rr.Intn(3) > 0 {
					if !flush() {
						return
					}
				}
				if rr.Intn(20) == 0 {
					time.Sleep(time.Duration(rr.Intn(500)) * time.Microsecond)
				}
			}
			flush()
		}()
	}
	c.MustAwait("stall", "the scripts run through", func() bool { return done(&wg) })
	for _, d := range ds {
		c.fence11(d)
	}
	c.MustAwait("stall", "emits return", func() bool { return done(&s.wg) })
	c.answers11(s, ds, func(i int, nsp string) bool { return wants[i].conn[nsp] })
	c.Stop()
	for i, d := range ds { // every error in its own namespace
		got := map[string]int{}
		d.mu.Lock()
		for _, n := range d.Nsps {
			for _, e := range d.errs[d.sid+n] {
				if t, ok := e.(string); ok && strings.HasPrefix(t, "err! ") {
					got[n+" "+t]++
				}
			}
		}
		d.mu.Unlock()
		if diff := diffCounts(wants[i].told, got); diff != "" {
			c.Fatalf("errors", "errors of connection %d:\n%s", i, diff)
		}
		c.Count("errors attributed", len(got))
	}
	wantCalls := map[string]int{}
	for _, w := range wants {
		for k, v := range w.calls {
			wantCalls[k] += v
		}
	}
	s.mu.Lock()
	diff := diffCounts(wantCalls, s.calls)
	s.mu.Unlock()
	if diff != "" {
		c.Fatalf("calls", "event callbacks:\n%s", diff)
	}
	// what the peers received
	clients := map[string]int{}
	for i, d := range ds {
		d, w := d, wants[i]
		var got map[string]int
		look := func() bool {
			got = map[string]int{}
			for _, p := range d.sioOut() {
				switch {
				case p.Type == 2 && len(p.Args) == 2 && p.Args[0] == "hi":
				case p.Type == 2 && len(p.Args) == 2 && p.Args[0] == "re":
					t := fmt.Sprint(p.Args[1])
					if !strings.HasPrefix(t, fmt.Sprintf("re c%d.", i)) {
						c.Fatalf("leak", "connection %d received the reply %q in %s", i, t, p.Nsp)
					}
					got[p.Nsp+" "+t]++
				case p.Type == 3 && len(p.Args) == 1 && p.ID != nil:
					t := strings.TrimPrefix(fmt.Sprint(p.Args[0]), "ack ")
					got[fmt.Sprint("ack ", p.Nsp, " ", *p.ID, " ", t)]++
				case p.Type == 4:
					if t, ok := p.Data.(string); ok && strings.HasPrefix(t, "re! ") {
						if !strings.HasPrefix(t, fmt.Sprintf("re! c%d.", i)) {
							c.Fatalf("leak", "connection %d received the error %q in %s", i, t, p.Nsp)
						}
						got[p.Nsp+" "+t]++
					} else if p.Nsp != "/nowhere" {
						got["error "+p.Nsp]++
					}
				default:
					c.Fatalf("leak", "connection %d received %v", i, p)
				}
			}
			exp := map[string]int{}
			for k, v := range w.acks {
				exp["ack "+k] += v
			}
			if d.cli == nil {
				for k, v := range w.errs {
					exp["error "+k] += v
				}
			}
			s.mu.Lock()
			for k, v := range s.sent[d.sid] {
				me := fmt.Sprintf("c%d.", i)
				if v > 0 && (strings.Contains(k, " re "+me) || strings.Contains(k, " re! "+me)) {
					exp[k] += v
				}
			}
			s.mu.Unlock()
			diff = diffCounts(exp, got)
			return diff == ""
		}
		if !c.await(look, 3*time.Second, 300) {
			c.Fatalf("packets", "connection %d received:\n%s", i, diff)
		}
		clients[d.sid]++
		c.Count("packets attributed", len(got))
	}
	if !c.await(func() bool {
		got := map[string]int{}
		for _, d := range ds {
			for _, p := range d.sioOut() {
				if p.Type == 2 && len(p.Args) == 2 && p.Args[0] == "hi" {
					got[fmt.Sprint(p.Args[1], " in ", p.Nsp, " of ", d.sid)]++
				}
			}
		}
		want := map[string]int{}
		s.mu.Lock()
		for t, at := range s.hello {
			want[t+" in "+at]++
		}
		s.mu.Unlock()
		diff = diffCounts(want, got)
		return diff == ""
	}, 3*time.Second, 300) {
		c.Fatalf("packets", "of what was emitted in connect callbacks:\n%s", diff)
	}
	c.Count("packets of connect callbacks attributed", len(s.hello))
	c.Count("callbacks attributed", len(wantCalls))
	n := 0
	for _, w := range wants {
		n += w.stale
	}
	c.Count("emits to namespaces not connected", n)
	c.Sig("%s %d %v %v %d %x", o, len(ds), o.Nsps, evs, len(wantCalls), interleaving())
}

func contains(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// diffCounts describes how two multisets differ.
func diffCounts(want, got map[string]int) string {
	var out []string
	for k, v := range want {
		if v > 0 && got[k] != v {
			out = append(out, fmt.Sprintf("%s: want %d, got %d", k, v, got[k]))
		}
	}
	for k, v := range got {
		if v > 0 && want[k] == 0 {
			out = append(out, fmt.Sprintf("%s: want 0, got %d", k, v))
		}
	}
	sort.Strings(out)
	if len(out) > 12 {
		out = append(out[:12], fmt.Sprintf("... %d in all", len(out)))
	}
	return strings.Join(out, "\n")
}

// fence11 waits until the library has processed what this peer has sent; it may be used on any goroutine.
func (c *Ctx) fence11(d *Duo) {
	if d.cli != nil {
		fences := func() (k int) {
			d.mu.Lock()
			defer d.mu.Unlock()
			for _, e := range d.errs[d.sid+"/"] {
				if e == "fence" {
					k++
				}
			}
			return
		}
		n := fences()
		if d.Send(SP{Type: 4, Nsp: "/", Data: "fence"}) != nil {
			c.Failf("ended", "a connection ended by itself")
			return
		}
		c.Await("fence", "an error packet reaches its callback", func() bool { return fences() > n })
		return
	}
	count := func() (k int) {
		ps, err := d.Packets()
		if err != nil {
			c.Failf("frames", "the peer received frames that are no packet sequence: %v", err)
		}
		for _, p := range ps {
			if p.Type == 4 && p.Nsp == "/nowhere" {
				k++
			}
		}
		return
	}
	n := count()
	if d.Send(SP{Type: 2, Nsp: "/nowhere", Args: []interface{}{"e"}}) != nil {
		c.Failf("ended", "a connection ended by itself")
		return
	}
	c.Await("fence", "an event for an unknown namespace is answered", func() bool { return count() > n })
}

// answers11 answers every emit that asks for it, in another order, and waits for the callbacks.
func (c *Ctx) answers11(s *iso11, ds []*Duo, connected func(i int, nsp string) bool) {
	for i, d := range ds {
		want := map[string]int{}
		ps := d.sioOut()
		c.R.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
		for _, p := range ps {
			if p.Type != 2 || p.ID == nil || len(p.Args) != 2 || !connected(i, p.Nsp) {
				continue
			}
			if d.Send(SP{Type: 3, Nsp: p.Nsp, ID: p.ID, Args: []interface{}{p.Args[1]}}) != nil {
				c.Failf("ended", "a connection ended by itself")
				return
			}
			want[d.sid+" "+p.Nsp+" "+fmt.Sprint(p.Args[1])]++
		}
		c.fence11(d)
		s.mu.Lock()
		n := 0
		for k, v := range s.acked {
			if v > 1 {
				c.Failf("ack", "the callback of %q ran %d times", k, v)
			}
			if want[k] > 0 {
				n++
			}
		}
		s.mu.Unlock()
		c.Count("answers attributed", n)
	}
}
