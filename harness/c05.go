package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zyxar/socketio/engine"
)

func init() {
	register(&Suite{ID: "C05", Quick: 3000, Deep: 70000, MinNT: 1400, Virtual: true, Extra: true,
		realTime: func(n int) bool { return n%7 != 5 },
		Rule:     "connections whose whole delivery history was checked, distinct by workload and order of scheduling points passed",
		Run:      runC05})
}

// lane is one direction of a connection.
type lane struct {
	c      *Ctx
	name   string
	emit   func(p EP, style int, buf []byte) error // library sender, concurrent use
	text   bool                                    // text messages only
	send   func(ps []EP, r *rand.Rand) error       // raw sender, one goroutine
	got    func() []EP
	mu     sync.Mutex
	sent   [][]EP // per goroutine, in order
	index  map[string][2]int
	next   []int // checked so far, per goroutine
	seen   int   // received packets checked
	errs   int
	before int // emits that had returned when the connection was closed locally
}

func (l *lane) key(p EP) string { return fmt.Sprintf("%v%s", p.Bin, p.Data) }

// add announces a message before it is sent.
func (l *lane) add(g int, p EP) {
	l.mu.Lock()
	l.index[l.key(p)] = [2]int{g, len(l.sent[g])}
	l.sent[g] = append(l.sent[g], p)
	l.mu.Unlock()
}

// drop takes back the last message: its emit failed.
func (l *lane) drop(g int) {
	l.mu.Lock()
	k := len(l.sent[g]) - 1
	delete(l.index, l.key(l.sent[g][k]))
	l.sent[g] = l.sent[g][:k]
	l.errs++
	l.mu.Unlock()
}

func (l *lane) total() (n int) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, s := range l.sent {
		n += len(s)
	}
	return
}

// check extends the verdict to what has been received by now: per sender, a prefix of what it sent.
func (l *lane) check() int {
	got := l.got()
	l.mu.Lock()
	defer l.mu.Unlock()
	for ; l.seen < len(got); l.seen++ {
		p := got[l.seen]
		at, ok := l.index[l.key(p)]
		if !ok {
			l.c.Failf("content", "%s: message %d received, %v, was never emitted (or was altered, or its emit failed)", l.name, l.seen, p)
			return l.seen
		}
		g, n := at[0], at[1]
		if n != l.next[g] {
			what := "repeated"
			if n > l.next[g] {
				what = "ahead of or without its predecessors"
			}
			l.c.Failf("order", "%s: message %d of sender %d received %s (message %d was due), as number %d", l.name, n, g, what, l.next[g], l.seen)
			return l.seen
		}
		l.next[g]++
	}
	return l.seen
}

// c5payload makes a message that differs from all others of its lane.
func c5payload(r *rand.Rand, g, n, max int, text bool) EP {
	p := EP{Type: 4, Bin: !text && r.Intn(2) == 0}
	tag := fmt.Sprintf("%d.%d|", g, n)
	if max > 1<<20 { // of any order of magnitude up to it
		k := 1<<20<<r.Intn(5) - 1000 + r.Intn(5000)
		piece := []byte(genText(r, 5000))
		p.Data = append([]byte(tag), bytes.Repeat(piece, 1+k/len(piece))...)
	} else if p.Bin {
		p.Data = append([]byte(tag), genBytes(r, genSize(r, max))...)
	} else {
		p.Data = []byte(tag + genText(r, genSize(r, max)))
	}
	return p
}

// engineEmit emits through an engine socket; buf is reused, and overwritten as soon as the call returns.
func engineEmit(so *engine.Socket, p EP, style int, buf []byte) error {
	t := engine.MessageTypeString
	if p.Bin {
		t = engine.MessageTypeBinary
	}
	if !p.Bin && style%3 == 0 {
		if style%2 == 0 {
			return so.Send(string(p.Data))
		}
		return so.Emit(engine.EventMessage, t, string(p.Data))
	}
	if !p.Bin && style%3 == 1 {
		return so.Send(json.RawMessage(p.Data))
	}
	b := append(buf[:0], p.Data...)
	err := so.Emit(engine.EventMessage, t, b)
	for i := range b {
		b[i] ^= 0x5a
	}
	return err
}

// run sends n messages on each of k goroutines (library) or one (raw). stop ends it early.
func (l *lane) run(wg *Group, k, n, max int, stop *atomic.Bool, pace time.Duration) {
	if l.emit == nil {
		k = 1
	}
	l.sent, l.next, l.index = make([][]EP, k), make([]int, k), map[string][2]int{}
	for g := 0; g < k; g++ {
		g, r := g, rand.New(rand.NewSource(l.c.R.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			var buf []byte
			for i := 0; i < n && !stop.Load() && !l.c.Failed(); {
				if pace > 0 && r.Intn(4) == 0 {
					time.Sleep(time.Duration(r.Int63n(int64(pace))))
				}
				if l.emit == nil {
					var ps []EP
					for m := 1 + r.Intn(5); m > 0 && i < n; m-- {
						p := c5payload(r, g, i, max, l.text)
						l.add(g, p)
						ps = append(ps, p)
						i++
					}
					if err := l.send(ps, r); err != nil {
						return
					}
					continue
				}
				p := c5payload(r, g, i, max, l.text)
				style := r.Intn(6)
				if !p.Bin && !l.text && style%3 == 1 { // a JSON value
					p.Data, _ = json.Marshal(string(p.Data))
				}
				l.add(g, p)
				i++
				if cap(buf) < len(p.Data) {
					buf = make([]byte, 0, 2*len(p.Data))
				}
				if err := l.emit(p, style, buf); err != nil {
					l.drop(g)
					return
				}
			}
		}()
	}
}

// link5 is a connection under test.
type link5 struct {
	kind     string
	lanes    []*lane
	hold     func() func() // the raw peer stops reading, until the returned function is called
	ended    func() bool   // the raw peer, or the receiving library end, has seen the connection end
	closers  []func()      // local close of a library end; index is the lane it sends on
	drop     func()        // the raw peer drops the connection
	sayClose func() error  // the raw peer sends a close packet
	ws       bool
}

func (c *Ctx) link5(timeout time.Duration, vol bool) *link5 {
	lk := &link5{}
	mk := func(name string) *lane {
		l := &lane{c: c, name: name}
		lk.lanes = append(lk.lanes, l)
		return l
	}
	slow := time.Duration(0)
	if c.R.Intn(3) == 0 && !vol {
		slow = []time.Duration{50 * time.Microsecond, 500 * time.Microsecond}[c.R.Intn(2)]
	}
	interval := 40 * time.Second
	switch k := c.R.Intn(8); k {
	case 0, 1, 2: // engine server, raw peer
		es := c.NewEngine(interval, timeout, nil)
		es.onMsg = func(*engine.Socket, EP) {
			if slow > 0 {
				time.Sleep(slow)
			}
		}
		s2c, c2s := mk("server to peer"), mk("peer to server")
		var sid string
		if k == 0 {
			p := c.MustPoll(es.Addr, c.R.Intn(3))
			p.Start()
			sid = p.Open.SID
			lk.kind = fmt.Sprintf("polling mode %d", p.Mode)
			s2c.got = p.Msgs
			c2s.send = func(ps []EP, r *rand.Rand) error {
				var cr *rand.Rand
				if r.Intn(3) == 0 {
					cr = r
				}
				code, err := p.Post(ps, r.Intn(2) == 0, cr)
				if err == nil && code != 200 {
					err = &statusError{code, ""}
				}
				return err
			}
			lk.hold = func() func() { p.gate.Lock(); return p.gate.Unlock }
			lk.ended = func() bool { _, err := p.Err(); return err != nil }
			if c.R.Intn(2) == 0 {
				c5noise(c, p)
			}
			lk.drop = p.Close
			lk.sayClose = func() error { _, err := p.Post([]EP{{Type: 1}}, false, nil); return err }
		} else {
			w := c.MustWS(es.Addr)
			sid = w.Open.SID
			lk.kind, lk.ws = "websocket", true
			s2c.got = w.Msgs
			c2s.send = func(ps []EP, r *rand.Rand) error {
				for _, p := range ps {
					var err error
					if r.Intn(4) == 0 {
						err = w.SendFragmented(p, []int{len(p.Data) / 3, len(p.Data) / 2})
					} else {
						err = w.Send(p)
					}
					if err != nil {
						return err
					}
				}
				return nil
			}
			lk.hold = func() func() { w.gate.Lock(); return w.gate.Unlock }
			lk.ended = w.Ended
			lk.drop = w.Close
			lk.sayClose = func() error { return w.Send(EP{Type: 1}) }
		}
		so := es.WaitSock(sid)
		s2c.emit = func(p EP, style int, buf []byte) error { return engineEmit(so, p, style, buf) }
		c2s.got = func() []EP { return es.Got(sid) }
		lk.closers = []func(){func() { so.Close() }, nil}
	case 3, 4: // engine client, raw server or library server
		var in rec5
		in.slow = slow
		c.Final(func() { in.mu.Lock(); defer in.mu.Unlock(); in.kept.check(c) })
		c2s, s2c := mk("client to server"), mk("server to client")
		lk.ws = true
		var addr string
		raw := make(chan *RawPeer, 1)
		var es *EngineServer
		if k == 3 {
			lk.kind = "client, raw server"
			addr = c.NewRawServer(func(p *RawPeer) {
				p.Send(openPacket("c05", 40000, int(timeout/time.Millisecond)))
				p.StartReading()
				raw <- p
			}).Addr
		} else {
			lk.kind = "client, engine server"
			es = c.NewEngine(interval, timeout, nil)
			addr = es.Addr
		}
		var cl *engine.Client
		var err error
		if !c.Within("dial-stall", "Dial returns", func() {
			cl, err = engine.Dial("ws://"+addr+"/engine.io/", http.Header{}, engine.WebsocketTransport, func(cl *engine.Client) {
				cl.On(engine.EventMessage, engine.Callback(in.call))
				cl.On(engine.EventClose, engine.Callback(func(*engine.Socket, engine.MessageType, []byte) { in.closed.Store(true) }))
			})
		}) {
			panic(abort{})
		}
		if err != nil {
			c.Fatalf("dial", "Dial fails: %v", err)
		}
		c.Cleanup(func() { cl.Close() })
		c2s.emit = func(p EP, style int, buf []byte) error { return engineEmit(cl.Socket, p, style, buf) }
		s2c.got = in.all
		lk.closers = []func(){func() { cl.Close() }, nil}
		if k == 3 {
			p := <-raw
			c2s.got = p.Msgs
			s2c.send = func(ps []EP, r *rand.Rand) error {
				for _, x := range ps {
					if err := p.Send(x); err != nil {
						return err
					}
				}
				return nil
			}
			lk.hold = func() func() { p.gate.Lock(); return p.gate.Unlock }
			lk.ended = p.Ended
			lk.drop = p.Close
			lk.sayClose = func() error { return p.Send(EP{Type: 1}) }
		} else {
			so := es.WaitSock(cl.Sid())
			s2c.emit = func(p EP, style int, buf []byte) error { return engineEmit(so, p, style, buf) }
			c2s.got = func() []EP { return es.Got(cl.Sid()) }
			lk.closers[1] = func() { so.Close() }
			lk.ended = func() bool { return in.closed.Load() && es.Events(cl.Sid(), "close") > 0 }
		}
	default: // socketio
		o := c.genDuo(c.R.Intn(4) == 0)
		lk.kind, lk.ws = "socketio "+o.String(), !o.Polling
		var in rec5
		in.slow = slow
		c.Final(func() { in.mu.Lock(); defer in.mu.Unlock(); in.kept.check(c) })
		d := c.NewDuo(o, func(d *Duo) {
			for _, n := range o.Nsps {
				n := n
				d.Ns(n).OnEvent("m", func(s string) {
					if n != o.Nsps[len(s)%2] {
						s = n + " " + s
					}
					in.add(EP{Type: 4, Data: []byte(s)})
				})
			}
		})
		out, inl := mk("library to peer"), mk("peer to library")
		out.text, inl.text = true, true
		nsp := func(p EP) (string, string) { return o.Nsps[len(p.Data)%2], string(p.Data) }
		out.emit = func(p EP, style int, buf []byte) error {
			n, s := nsp(p)
			return d.Emit(n, "m", s, style)
		}
		out.got = func() (eps []EP) {
			for _, p := range d.sioOut() {
				if len(p.Args) == 3 {
					s, _ := p.Args[1].(string)
					eps = append(eps, EP{Type: 4, Data: []byte(s)})
				} else {
					eps = append(eps, EP{Data: []byte(fmt.Sprint(p))})
				}
			}
			return
		}
		inl.send = func(ps []EP, r *rand.Rand) error {
			var ss []SP
			for _, p := range ps {
				n, s := nsp(p)
				ss = append(ss, SP{Type: 2, Nsp: n, Args: []interface{}{"m", s}})
			}
			return d.Send(ss...)
		}
		inl.got = in.all
		lk.ended = d.Ended
		lk.drop = d.SPeer.Close
		lk.sayClose = func() error { return d.SendFrames(EP{Type: 1}) }
		lk.closers = []func(){func() {
			if d.cli != nil && c.Case%2 == 0 {
				d.cli.Close()
			} else {
				d.Sock("/").Close()
			}
		}, nil}
		if d.ws != nil {
			lk.hold = func() func() { d.ws.gate.Lock(); return d.ws.gate.Unlock }
		} else {
			lk.hold = func() func() { d.poll.gate.Lock(); return d.poll.gate.Unlock }
		}
	}
	return lk
}

// c5noise makes requests on p's session that are neither polls nor valid posts; they take and deliver nothing.
func c5noise(c *Ctx, p *Poll) {
	r := rand.New(rand.NewSource(c.R.Int63()))
	var stop atomic.Bool
	go func() {
		for !stop.Load() {
			time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
			m := []string{"HEAD", "OPTIONS", "PUT", "DELETE", "PATCH", "POST", "POST"}[r.Intn(7)]
			ct := []string{"application/json", "text/html; charset=UTF-8", "application/x-www-form-urlencoded", "text/plain; charset=latin1"}[r.Intn(4)]
			ctx, cancel := context.WithTimeout(context.Background(), 50*time.Millisecond)
			req, err := http.NewRequestWithContext(ctx, m, p.url(), strings.NewReader("6:4noise"))
			if err != nil {
				c.Fatalf("harness", "%v", err)
			}
			req.Header.Set("Content-Type", ct)
			if resp, err := p.hc.Do(req); err == nil {
				io.Copy(io.Discard, resp.Body)
				resp.Body.Close()
				c.Count("requests that are neither polls nor posts", 1)
			}
			cancel()
		}
	}()
	c.Cleanup(func() { stop.Store(true) })
}

// rec5 records what a callback sees.
type rec5 struct {
	mu     sync.Mutex
	ps     []EP
	slow   time.Duration
	closed atomic.Bool
	kept   keeper
}

func (r *rec5) call(_ *engine.Socket, t engine.MessageType, data []byte) {
	p := EP{Type: 4, Bin: t == engine.MessageTypeBinary, Data: append([]byte(nil), data...)}
	r.mu.Lock()
	r.kept.add(data, p.Data)
	r.mu.Unlock()
	r.add(p)
}

func (r *rec5) add(p EP) {
	r.mu.Lock()
	r.ps = append(r.ps, p)
	r.mu.Unlock()
	if r.slow > 0 {
		time.Sleep(r.slow)
	}
}

func (r *rec5) all() []EP {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]EP(nil), r.ps...)
}

var points5 = []string{"emitter.submit", "emitter.dequeued", "emitter.write", "emitter.flush", "socket.close", "socket.close.conn", "websocket.write",
	"polling.write", "polling.readout", "polling.read", "polling.post", "server.reader.handle", "client.reader.handle", "socket.emit.frame"}

func runC05(c *Ctx) {
	if c.S.Virtual {
		longHistory(c)
		return
	}
	vol := c.Case%650 == 11 // a long history
	huge := c.Case%100 == 13
	how := ""
	if !vol && !huge {
		how = c.Perturb(points5...)
		if c.R.Intn(8) == 0 {
			c05Lost(c, how)
			return
		}
	}
	end := c.R.Intn(8)
	timeout := 60 * time.Second
	if end == 4 {
		timeout = time.Duration(80+c.R.Intn(200)) * time.Millisecond
	}
	if vol || huge {
		end = 7
	}
	lk := c.link5(timeout, vol)
	n, max := 1+c.R.Intn(60), 3000
	switch c.R.Intn(6) {
	case 0:
		n, max = 1+c.R.Intn(8), 400000
	case 1:
		n, max = 100+c.R.Intn(200), 40
	}
	k := 1
	if c.R.Intn(2) == 0 {
		k = 2 + c.R.Intn(4)
	}
	if huge {
		n, max, k = 1+c.R.Intn(2), 16<<20, 1
		c.Count("connections with huge messages", 1)
	}
	if vol {
		n, max, k = (1<<16+1<<11)*(1+c.R.Intn(2)), 20, 1
		if !lk.ws {
			n = 12000
		}
		c.Count("long histories", 1)
	}
	pace := []time.Duration{0, 0, 300 * time.Microsecond, 3 * time.Millisecond}[c.R.Intn(4)*b2i(!vol)]
	c.Sample(map[string]interface{}{"connection": lk.kind, "ending": end, "senders": k, "messages": n, "delays": how})
	c.Tracef("%s, ending %d, %d senders of %d messages up to %d bytes", lk.kind, end, k, n, max)
	var stop atomic.Bool
	var wg Group
	checkAll := func() {
		for _, l := range lk.lanes {
			c.Count("messages delivered and checked", l.check()-l.before)
			l.before = l.seen
		}
		c.Stop()
	}
	whole := func(l *lane) func() bool {
		return func() bool { return l.check() >= l.total() }
	}
	defer stop.Store(true)
	wait := func(what string) {
		c.MustAwait("emit-stall", what, func() bool {
			if done(&wg) {
				return true
			}
			for _, l := range lk.lanes {
				l.check()
			}
			return false
		})
		c.Stop()
	}
	switch end {
	case 4: // the peer does not read until writes time out
		if lk.hold == nil {
			c.Count("skipped", 1)
			return
		}
		if lk.ws {
			n, max = 40, 1<<20 // beyond what the kernel buffers
		}
		release := lk.hold()
		l := lk.lanes[0]
		for _, x := range lk.lanes[1:] {
			x.sent, x.next = make([][]EP, 1), make([]int, 1)
		}
		l.run(&wg, k, n, max, &stop, 0)
		c.Soon(timeout*time.Duration(1+c.R.Intn(3)), func() bool { return done(&wg) })
		time.Sleep(time.Duration(c.R.Intn(int(timeout / 2))))
		release()
		wait("emits return after the peer resumed reading")
		c.MustAwait("gap", "a connection that stopped being read ends, or delivers everything in the end", func() bool {
			return l.check() >= l.total() || lk.ended()
		})
		checkAll()
		if l.seen < l.total() {
			c.Count("connections ended unread", 1)
		} else {
			c.Count("connections caught up", 1)
		}
	case 1, 2: // graceful local close after the emits have returned
		who := c.R.Intn(len(lk.closers))
		if lk.closers[who] == nil {
			who = 0
		}
		l := lk.lanes[who]
		for _, x := range lk.lanes {
			x.sent, x.next = make([][]EP, 1), make([]int, 1)
		}
		var release func()
		if lk.hold != nil && c.R.Intn(3) == 0 {
			release = lk.hold()
			n = min(n, 8/k)
		}
		l.run(&wg, k, n, max, &stop, pace)
		if release != nil {
			time.Sleep(time.Duration(c.R.Intn(3000)) * time.Microsecond)
			release()
		}
		wait("emits return")
		c.Tracef("local close")
		if !c.Within("close-stall", "Close returns", lk.closers[who]) {
			return
		}
		if lk.ws {
			c.MustAwait("close-flush", fmt.Sprintf("%s (%s): the %d messages emitted before the local close arrive", l.name, lk.kind, l.total()), func() bool {
				return l.check() >= l.total() || lk.ended()
			})
			if l.check() < l.total() {
				c.Fatalf("close-flush", "%s (%s): the connection ended with %d of the %d messages emitted before the local close delivered", l.name, lk.kind, l.seen, l.total())
			}
			c.Count("graceful closes", 1)
		} else {
			c.Soon(5*time.Millisecond, whole(l))
		}
		checkAll()
	case 3: // dropped, or closed by the peer, in the middle
		if lk.drop == nil {
			c.Count("skipped", 1)
			return
		}
		for _, l := range lk.lanes {
			l.run(&wg, k, n, max, &stop, pace)
		}
		time.Sleep(time.Duration(c.R.Intn(5000)) * time.Microsecond)
		if c.R.Intn(2) == 0 {
			lk.drop()
		} else {
			lk.sayClose()
		}
		stop.Store(true)
		c.Soon(5*time.Millisecond, func() bool { checkAll(); return false })
		lk.drop()
		checkAll()
		c.Count("connections dropped", 1)
	default: // stays up: everything arrives
		if lk.hold != nil && !vol && c.R.Intn(3) == 0 {
			go func() {
				r := rand.New(rand.NewSource(int64(c.Case)))
				for !stop.Load() {
					release := lk.hold()
					time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
					release()
					time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
				}
			}()
		}
		for _, l := range lk.lanes {
			l.run(&wg, k, n, max, &stop, pace)
		}
		wait("emits on a connection that is read return")
		for _, l := range lk.lanes {
			l := l
			c.MustAwait("lost", fmt.Sprintf("%s (%s): all %d messages arrive", l.name, lk.kind, l.total()), whole(l))
			if l.errs > 0 {
				c.Fatalf("emit-error", "%s (%s): an emit failed on a connection that is up", l.name, lk.kind)
			}
		}
		checkAll()
		if lk.ended() {
			c.Fatalf("ended", "%s: the connection ended although both ends kept it up", lk.kind)
		}
		// nothing comes late
		c.Soon(time.Millisecond, func() bool { return false })
		checkAll()
		c.Count("connections delivered completely", 1)
	}
	c.Stop()
	sum := ""
	for _, l := range lk.lanes {
		sum += fmt.Sprint(l.total(), " ")
	}
	c.Sig("%s %d %s %x", lk.kind, end, sum, interleaving())
}
