package main

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"sync"
	"testing/synctest"
	"time"

	"github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"
)

// longPeer is a raw Socket.IO peer in memory whose session lasts, on the virtual clock.
type longPeer struct {
	*SPeer
	joined map[string]bool
	nconn  map[string]int
	ndisc  map[string]int
	seen   int // packets of the library's judged so far
	asks   []*longAsk
	kind   string
}

type longAsk struct {
	nsp string
	id  uint64
	p   *probe
	ans []arg
	at  time.Time
}

type longHandler struct {
	nsp, name string
	args, ret []arg
	p         *probe
}

// longHistory: connections that last hours, on which next to nothing happens at a time. What the library does in
// response to each step is complete when nothing runs any more, so every step is judged exactly.
func longHistory(c *Ctx) {
	r := c.R
	o := c.genDuo(r.Intn(4) == 0)
	o.Nsps = []string{"/", "/a", "/b"}[:1+r.Intn(3)]
	if r.Intn(8) == 0 {
		for i := r.Intn(50); i > 0; i-- {
			o.Nsps = append(o.Nsps, fmt.Sprint("/n", i))
		}
	}
	switch c.S.ID {
	case "C03":
		o.MP = false
	case "C04":
		o.MP = true
	}
	upgrades := c.S.ID == "C07" || c.S.ID == "C08"
	if upgrades {
		o.Client = false
	}
	iv, to := genTimes(r)
	iv, to = max(iv.Truncate(time.Millisecond), 10*time.Millisecond), max(to.Truncate(time.Millisecond), 10*time.Millisecond)
	if o.Client && to > 20*iv { // the pings of a case are limited
		to = 20 * iv
	}
	P := iv + to
	c.settle(P)
	var mu sync.Mutex
	socks := map[string]socketio.Socket{}
	nconn, ndisc := map[string]int{}, map[string]int{}
	var errs []string
	var hs []*longHandler
	setup := func(ns func(string) socketio.Namespace) {
		for _, n := range o.Nsps {
			n := n
			ns(n).OnConnect(func(so socketio.Socket) {
				mu.Lock()
				defer mu.Unlock()
				socks[so.Sid()+n] = so
				nconn[so.Sid()+n]++
			}).OnDisconnect(func(so socketio.Socket) {
				mu.Lock()
				defer mu.Unlock()
				ndisc[so.Sid()+n]++
			}).OnError(func(so socketio.Socket, e ...interface{}) {
				mu.Lock()
				defer mu.Unlock()
				errs = append(errs, fmt.Sprint(n, e))
			})
			for i := r.Intn(3); i > 0; i-- { // or none at all
				h := &longHandler{nsp: n, name: fmt.Sprint("q", i), args: o.genArgs(r, 3), ret: o.genArgs(r, 3)}
				if !o.MP && r.Intn(2) == 0 {
					h.args = append(h.args, genBin(r))
				}
				h.p = newProbe(c, r, h.args, o.MP, vals(h.ret))
				ns(n).OnEvent(h.name, h.p.fn)
				hs = append(hs, h)
			}
		}
	}
	onTop := func(e interface{}) {
		mu.Lock()
		defer mu.Unlock()
		errs = append(errs, fmt.Sprint(e))
	}
	var ps []*longPeer
	var cl *socketio.Client
	var v *vnet
	if o.Client {
		conns := make(chan engine.Conn, 1)
		hold := make(chan struct{})
		c.Cleanup(func() { close(hold) })
		v = c.virtualServe(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
			if conn, err := engine.WebsocketTransport.Accept(w, req); err == nil {
				conns <- conn
				<-hold
			}
		}))
		w, err := v.ws("", new(Inbox))
		c.Must(err, "dial")
		w.Inbox.mu.Lock()
		w.Inbox.note = func(f EP, _ byte) {
			if f.Type == 2 {
				go w.Send(EP{Type: 3, Data: f.Data, Bin: f.Bin})
			}
		}
		w.Inbox.mu.Unlock()
		go w.Send(openPacket("long", int(iv/time.Millisecond), int(to/time.Millisecond)))
		cl = socketio.NewClient()
		cl.OnError(onTop)
		setup(cl.Namespace)
		if err := cl.Dial("ws://pipe/", nil, connDialer{<-conns}, parserOf(o.MP)); err != nil {
			c.Fatalf("dial", "Dial: %v", err)
		}
		c.Cleanup(func() { cl.Close() })
		ps = append(ps, &longPeer{SPeer: &SPeer{mp: o.MP, ws: w, Inbox: w.Inbox, sid: "long"}, kind: "client"})
	} else {
		sv, err := socketio.NewServer(iv, to, parserOf(o.MP))
		c.Must(err, "NewServer")
		sv.OnError(func(e error) { onTop(e) })
		setup(sv.Namespace)
		v = c.virtualServe(sv)
		c.Cleanup(func() { sv.Close() })
		for n := 1 + r.Intn(2); n > 0; n-- {
			p := &longPeer{SPeer: &SPeer{mp: o.MP}, kind: "websocket"}
			if upgrades || r.Intn(2) == 0 {
				p.kind = "polling"
				p.poll = v.poll(modeXHR2)
				first, err := p.poll.get(context.Background())
				if err != nil || len(first) == 0 || json.Unmarshal(first[0].Data, &p.poll.Open) != nil {
					c.Fatalf("handshake", "%v %v", err, first)
				}
				for _, f := range first {
					p.poll.Inbox.add(f, 'p')
				}
				p.poll.Start()
				p.Inbox, p.sid = p.poll.Inbox, p.poll.Open.SID
			} else {
				p.ws, err = v.ws("", new(Inbox))
				c.Must(err, "dial")
				synctest.Wait()
				p.Inbox, p.sid = p.ws.Inbox, p.ws.Open.SID
			}
			ps = append(ps, p)
		}
	}
	var desc []string
	step := func(format string, a ...interface{}) {
		s := fmt.Sprintf(format, a...)
		desc = append(desc, s)
		c.Tracef("%s", s)
	}
	span := time.Duration(0)
	// pass lets time pass, in which the sessions are kept alive
	pass := func(d time.Duration) {
		span += d
		for d > 0 {
			g := min(d, P/8+time.Duration(r.Int63n(int64(P/2))))
			time.Sleep(g)
			d -= g
			for _, p := range ps {
				if !o.Client {
					if err := p.SendFrames(EP{Type: 2}); err != nil {
						c.Fatalf("lost", "%s, interval %v, timeout %v: the session does not take a ping any more: %v\n%v", p.kind, iv, to, err, desc)
					}
				}
			}
		}
		synctest.Wait()
	}
	gap := func() time.Duration {
		switch r.Intn(4) {
		case 0:
			return 0
		case 1:
			return time.Duration(r.Int63n(int64(P)))
		case 2:
			return time.Duration(r.Int63n(int64(8 * P)))
		}
		return time.Duration(r.Int63n(int64(time.Second)))
	}
	// send sends frames with time between them
	send := func(p *longPeer, fs []EP) {
		slow := r.Intn(2) == 0
		if !slow || len(fs) == 1 {
			if err := p.SendFrames(fs...); err != nil {
				c.Fatalf("lost", "%s: the session does not take a packet any more: %v\n%v", p.kind, err, desc)
			}
			return
		}
		for i, f := range fs {
			if i > 0 && r.Intn(2) == 0 {
				pass(gap())
			}
			if err := p.SendFrames(f); err != nil {
				c.Fatalf("lost", "%s: the session does not take a frame any more: %v\n%v", p.kind, err, desc)
			}
		}
	}
	sock := func(p *longPeer, nsp string) socketio.Socket {
		mu.Lock()
		defer mu.Unlock()
		return socks[p.sid+nsp]
	}
	// judge compares what happened since the last step with what it calls for
	judge := func(p *longPeer, want []SP) []SP {
		synctest.Wait()
		var fs []EP
		for _, f := range p.Msgs() {
			if !f.Bin && len(f.Data) > 0 && f.Data[0] == '0' && !o.MP {
				continue
			}
			if l, err := mpSplit([]EP{f}); o.MP && !f.Bin && err == nil && l[0].Type == 0 {
				continue
			}
			fs = append(fs, f)
		}
		var out []SP
		var err error
		if o.MP {
			out, err = mpSplit(fs)
		} else {
			out, err = sioSplit(fs)
		}
		if err != nil {
			c.Fatalf("frames", "the peer received frames that are no packet sequence: %v", err)
		}
		fresh := out[min(p.seen, len(out)):]
		p.seen = len(out)
		if len(fresh) != len(want) {
			c.Fatalf("packets", "%s, %v into the connection: the library sends %v, due is %v (errors %v)\n%v", p.kind, span, fresh, want, errs, desc)
		}
		for i := range want {
			if want[i].ID == nil { // the library's choice
				want[i].ID = fresh[i].ID
			}
			if a, b := renderSP(want[i], o.MP), renderSP(fresh[i], o.MP); a != b {
				c.Fatalf("packets", "%s, %v into the connection: the library sends\n%s\ndue is\n%s\n%v", p.kind, span, clip(b, 900), clip(a, 900), desc)
			}
		}
		mu.Lock()
		defer mu.Unlock()
		if len(errs) > 0 {
			c.Fatalf("errors", "%s, %v into the connection: reported errors %v\n%v", p.kind, span, errs, desc)
		}
		for _, p := range ps {
			for _, n := range o.Nsps {
				if k := p.sid + n; nconn[k] != p.nconn[n] || ndisc[k] != p.ndisc[n] {
					c.Fatalf("lifecycle", "%s, %v into the connection: namespace %s: %d connect and %d disconnect callbacks, due are %d and %d\n%v", p.kind, span, n, nconn[k], ndisc[k], p.nconn[n], p.ndisc[n], desc)
				}
			}
		}
		return fresh
	}
	join := func(p *longPeer, n string) {
		p.joined[n] = true
		p.nconn[n]++
		if n != "/" || o.Client {
			send(p, spell(SP{Type: 0, Nsp: n}, o.MP, r))
		}
	}
	for _, p := range ps {
		p.joined, p.nconn, p.ndisc = map[string]bool{}, map[string]int{}, map[string]int{}
	}
	synctest.Wait()
	for _, p := range ps {
		join(p, "/")
	}
	for _, p := range ps {
		for _, n := range o.Nsps[1:] {
			if r.Intn(3) > 0 {
				join(p, n)
			}
		}
		judge(p, nil)
	}
	answer := func(p *longPeer, i int) {
		a := p.asks[i]
		p.asks = append(p.asks[:i:i], p.asks[i+1:]...)
		step("%s %d answered after %v", a.nsp, a.id, time.Since(a.at))
		send(p, spell(SP{Type: 3, Nsp: a.nsp, ID: &a.id, Args: wires(a.ans)}, o.MP, r))
		judge(p, nil)
		if a.p.n() != 1 {
			c.Fatalf("ack-calls", "%s: an acknowledgement callback ran %d times by its answer, sent %v after the emit\n%v", p.kind, a.p.n(), time.Since(a.at), desc)
		}
		if g, w := a.p.last(), rendered(a.ans, o.MP); g != w {
			c.Fatalf("ack-args", "%s: an acknowledgement callback ran with\n%s\nsent was\n%s", p.kind, clip(g, 900), clip(w, 900))
		}
		c.Count("answers", 1)
	}
	events := 0
	// upgrade makes an attempt to upgrade a polling session, during which both sides send
	upgrade := func(p *longPeer) {
		fail := r.Intn(3) == 0
		if c.S.ID == "C08" {
			fail = r.Intn(8) > 0
		}
		stage := 4
		if fail {
			stage = r.Intn(4)
		}
		left := P / 2
		var want []SP
		// Sending waits on a lock while the old transport is paused, which keeps the clock from running: then time passes
		// only while nothing is to be sent.
		busy := func(paused bool) {
			for n := r.Intn(4); n > 0; n-- {
				g := min(gap(), left)
				left -= g
				if paused {
					time.Sleep(g)
				} else {
					pass(g)
				}
				var in []string
				for _, n := range o.Nsps {
					if p.joined[n] {
						in = append(in, n)
					}
				}
				nsp := in[r.Intn(len(in))]
				var h *longHandler
				if len(hs) > 0 {
					h = hs[r.Intn(len(hs))]
				}
				switch k := r.Intn(3); {
				case k == 0 && !paused:
					args := o.genArgs(r, 2)
					if err := sock(p, nsp).Emit("e", vals(args)...); err != nil {
						c.Fatalf("emit", "%s: Emit during an upgrade, %v into the connection: %v\n%v", p.kind, span, err, desc)
					}
					want = append(want, SP{Type: 2, Nsp: nsp, Args: append([]interface{}{"e"}, wires(args)...)})
				case k == 1 && h != nil && p.joined[h.nsp]:
					n, id := h.p.n(), genID(r)
					if paused {
						id = nil
					}
					if err := p.SendFrames(spell(SP{Type: 2, Nsp: h.nsp, ID: id, Args: append([]interface{}{h.name}, wires(h.args)...)}, o.MP, r)...); err != nil {
						c.Fatalf("lost", "%s: the session takes no packet during an upgrade: %v\n%v", p.kind, err, desc)
					}
					synctest.Wait()
					if h.p.n() != n+1 {
						c.Fatalf("event-calls", "%s, %v into the connection: an event sent during an upgrade called its callback %d times\n%v", p.kind, span, h.p.n()-n, desc)
					}
					if id != nil {
						want = append(want, SP{Type: 3, Nsp: h.nsp, ID: id, Args: wires(h.ret)})
					}
				}
				synctest.Wait()
			}
		}
		step("upgrade to stage %d", stage)
		w, err := v.ws("sid="+p.sid, new(Inbox))
		if err != nil {
			c.Fatalf("upgrade", "%v into the connection: %v\n%v", span, err, desc)
		}
		busy(false)
		if stage == 1 { // no probe
			w.Send([]EP{{Type: 3, Data: []byte("probe")}, {Type: 4, Data: []byte(`2["e"]`)}, {Type: 5}, {Type: 1}, {Type: 6}}[r.Intn(5)])
		}
		idle := (<-chan struct{})(nil)
		if stage > 1 {
			pass(1) // a ping of everyone's
			idle = p.poll.Halt()
			w.Send(EP{Type: 2, Data: []byte("probe")})
			synctest.Wait()
			<-idle
			if f := w.All(); len(f) != 1 || f[0].Type != 3 || string(f[0].Data) != "probe" {
				c.Fatalf("upgrade", "%v into the connection: the probe is answered with %v\n%v", span, f, desc)
			}
			left = P / 2
			busy(true)
			for n := r.Intn(4); n > 0; n-- {
				args := o.genArgs(r, 2)
				if err := sock(p, "/").Emit("e", vals(args)...); err != nil {
					c.Fatalf("emit", "%s: Emit during an upgrade, %v into the connection: %v\n%v", p.kind, span, err, desc)
				}
				want = append(want, SP{Type: 2, Nsp: "/", Args: append([]interface{}{"e"}, wires(args)...)})
			}
		}
		if stage == 3 { // no upgrade
			w.Send([]EP{{Type: 3, Data: []byte("probe")}, {Type: 4, Data: []byte(`2["e"]`)}, {Type: 2, Data: []byte("probe")}, {Type: 1}, {Type: 6}}[r.Intn(5)])
		}
		if fail {
			if stage != 1 && stage != 3 || r.Intn(2) == 0 {
				w.Close()
			}
			synctest.Wait()
			if idle != nil {
				p.poll.Start()
			}
			judge(p, want)
			pass(1)
			if stage == 1 || stage == 3 {
				if !w.Ended() {
					c.Fatalf("upgrade", "%v into the connection: a failed attempt is not ended\n%v", span, desc)
				}
			}
			if code, err := p.poll.Err(); err != nil {
				c.Fatalf("lost", "polls fail after a failed attempt to upgrade: %d %v\n%v", code, err, desc)
			}
			c.Count("long connections whose upgrade failed", 1)
			return
		}
		in := p.Inbox
		w.Inbox.mu.Lock()
		w.Inbox.note = func(f EP, _ byte) { in.add(f, 'w') }
		w.Inbox.mu.Unlock()
		c.Must(w.Send(EP{Type: 5}), "send")
		p.ws, p.poll, p.kind = w, nil, "upgraded"
		judge(p, want)
		pass(1)
		c.Count("long connections upgraded", 1)
	}
	for k := 4 + r.Intn(16); k > 0; k-- {
		pass(gap())
		p := ps[r.Intn(len(ps))]
		var in, off []string
		for _, n := range o.Nsps {
			if p.joined[n] {
				in = append(in, n)
			} else {
				off = append(off, n)
			}
		}
		nsp := in[r.Intn(len(in))]
		op := r.Intn(9)
		if upgrades && r.Intn(3) == 0 {
			op = 6
		}
		switch op {
		case 6:
			if p.poll != nil {
				upgrade(p)
			}
		case 1: // several in a row, the peer polling again only after them
			var want []SP
			n := 1 + r.Intn(12)
			if r.Intn(6) == 0 {
				n = 50 + r.Intn(2000)
			}
			halt := p.poll != nil && r.Intn(2) == 0
			if halt { // as much as is kept for a peer that does not poll without anyone waiting for it
				n = 1 + r.Intn(3)
				p.poll.Halt()
			}
			step("%s burst of %d", nsp, n)
			left := to / 2 // output not taken for the timeout ends the session
			rest := func() {
				g := gap()
				if halt {
					g = min(g, left)
					left -= g
				}
				pass(g)
			}
			for i := 0; i < n; i++ {
				args := o.genArgs(r, 2)
				if n > 12 || halt {
					args = []arg{o.genArg(r)}
				}
				if err := sock(p, nsp).Emit("e", vals(args)...); err != nil {
					c.Fatalf("emit", "%s: Emit %v into the connection: %v\n%v", p.kind, span, err, desc)
				}
				want = append(want, SP{Type: 2, Nsp: nsp, Args: append([]interface{}{"e"}, wires(args)...)})
				if n <= 12 && r.Intn(4) == 0 {
					rest()
				}
			}
			if halt {
				rest()
				<-p.poll.Halt()
				p.poll.Start()
			}
			judge(p, want)
			events += n
		case 0:
			args := o.genArgs(r, 3)
			step("%s emit", nsp)
			if err := sock(p, nsp).Emit("e", vals(args)...); err != nil {
				c.Fatalf("emit", "%s: Emit %v into the connection: %v\n%v", p.kind, span, err, desc)
			}
			judge(p, []SP{{Type: 2, Nsp: nsp, Args: append([]interface{}{"e"}, wires(args)...)}})
			events++
		case 2, 5:
			a := &longAsk{nsp: nsp, ans: o.genArgs(r, 3), at: time.Now()}
			if !o.MP && r.Intn(3) == 0 {
				a.ans = append(a.ans, genBin(r))
			}
			a.p = newProbe(c, r, a.ans, o.MP, nil)
			if err := sock(p, nsp).Emit("ask", a.p.fn); err != nil {
				c.Fatalf("emit", "%s: Emit %v into the connection: %v\n%v", p.kind, span, err, desc)
			}
			got := judge(p, []SP{{Type: 2, Nsp: nsp, Args: []interface{}{"ask"}}})
			if got[0].ID == nil {
				c.Fatalf("ack-id", "an emit with a callback is sent without id")
			}
			a.id = *got[0].ID
			for _, b := range p.asks {
				if b.nsp == nsp && b.id == a.id {
					c.Fatalf("ack-id", "an outstanding id is given out again")
				}
			}
			p.asks = append(p.asks, a)
			step("%s ask %d", nsp, a.id)
		case 3:
			if len(p.asks) > 0 {
				answer(p, r.Intn(len(p.asks)))
			}
		case 4:
			if len(off) > 0 {
				step("join %s", off[0])
				join(p, off[0])
				judge(p, nil)
			} else if nsp != "/" {
				step("leave %s", nsp)
				p.joined[nsp] = false
				p.ndisc[nsp]++
				var keep []*longAsk
				for _, a := range p.asks {
					if a.nsp != nsp {
						keep = append(keep, a)
					}
				}
				p.asks = keep
				send(p, spell(SP{Type: 1, Nsp: nsp}, o.MP, r))
				judge(p, nil)
			}
		default:
			if len(hs) == 0 {
				break
			}
			h := hs[r.Intn(len(hs))]
			if !p.joined[h.nsp] {
				break
			}
			id := genID(r)
			step("%s event %s", h.nsp, h.name)
			n := h.p.n()
			send(p, spell(SP{Type: 2, Nsp: h.nsp, ID: id, Args: append([]interface{}{h.name}, wires(h.args)...)}, o.MP, r))
			var want []SP
			if id != nil {
				want = []SP{{Type: 3, Nsp: h.nsp, ID: id, Args: wires(h.ret)}}
			}
			judge(p, want)
			if h.p.n() != n+1 {
				c.Fatalf("event-calls", "%s, %v into the connection: an event called its callback %d times\n%v", p.kind, span, h.p.n()-n, desc)
			}
			if g, w := h.p.last(), rendered(h.args, o.MP); g != w {
				c.Fatalf("event-args", "%s: a callback ran with\n%s\nsent was\n%s", p.kind, clip(g, 900), clip(w, 900))
			}
			events++
		}
	}
	for _, p := range ps {
		for len(p.asks) > 0 {
			pass(gap())
			answer(p, r.Intn(len(p.asks)))
		}
	}
	for i, p := range ps {
		if !o.Client || r.Intn(2) == 0 {
			p.SendFrames(EP{Type: 1})
		} else {
			cl.Close()
		}
		for n := range p.joined {
			if p.joined[n] {
				p.ndisc[n]++
			}
		}
		synctest.Wait()
		mu.Lock()
		for _, q := range ps[i:] {
			for _, n := range o.Nsps {
				if k := q.sid + n; ndisc[k] != q.ndisc[n] || nconn[k] != q.nconn[n] {
					c.Failf("lifecycle", "%s: the connection ended after %v: namespace %s has had %d connect and %d disconnect callbacks, due are %d and %d\n%v", q.kind, span, n, nconn[k], ndisc[k], q.nconn[n], q.ndisc[n], desc)
				}
			}
		}
		mu.Unlock()
		if c.Failed() {
			return
		}
		if i+1 < len(ps) {
			rest := ps
			ps = ps[i+1:]
			pass(gap())
			ps = rest
		}
	}
	c.Count("long histories", 1)
	c.Count("events on long connections", events)
	c.Count("minutes of virtual time", int(span/time.Minute))
	c.Sig("long %s %v %v %v", o, iv, to, desc)
	c.Sample(map[string]interface{}{"connection": o.String(), "interval": iv.String(), "timeout": to.String(), "lasted": span.String(), "steps": clip(fmt.Sprint(desc), 300)})
}
