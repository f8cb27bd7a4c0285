package main

import (
	"fmt"
	"math/rand"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zyxar/socketio"
)

func init() {
	register(&Suite{ID: "C06", Quick: 4000, Deep: 50000, MinNT: 900,
		Rule: "connections with concurrent emitters whose whole frame sequence was checked, distinct by workload and order of scheduling points passed",
		Run:  runC06})
}

var c06Points = []string{"socket.emit", "socket.emit.frame", "emitter.submit", "emitter.dequeued", "emitter.write", "websocket.write", "polling.write",
	"polling.readout", "server.process", "client.process"}

func runC06(c *Ctx) {
	how := c.Perturb(c06Points...)
	if c.R.Intn(4) == 0 {
		c06Pair(c, how)
		return
	}
	c06Raw(c, how)
}

// order6 checks that packets of several senders arrive once each, in each sender's order.
type order6 struct {
	c     *Ctx
	mu    sync.Mutex
	index map[string][2]int
	sent  []int
	next  []int
	total int
}

func newOrder6(c *Ctx, k int) *order6 {
	return &order6{c: c, index: map[string][2]int{}, sent: make([]int, k), next: make([]int, k)}
}

func (o *order6) add(g int, key string) {
	o.mu.Lock()
	o.index[key] = [2]int{g, o.sent[g]}
	o.sent[g]++
	o.total++
	o.mu.Unlock()
}

func (o *order6) got(key string) {
	o.mu.Lock()
	defer o.mu.Unlock()
	at, ok := o.index[key]
	if !ok {
		o.c.Failf("mixed", "a packet arrived that nobody emitted: %s", clip(key, 1500))
		return
	}
	if at[1] != o.next[at[0]] {
		o.c.Failf("order", "packet %d of sender %d arrived when %d was due: %s", at[1], at[0], o.next[at[0]], clip(key, 600))
		return
	}
	o.next[at[0]]++
	o.total--
}

func (o *order6) left() int {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.total
}

// c06Raw: a raw peer sees every frame the library sends.
func c06Raw(c *Ctx, how string) {
	o := c.genDuo(c.R.Intn(6) == 0)
	k := 2 + c.R.Intn(5)
	n := 2 + c.R.Intn(25)
	ord := newOrder6(c, k+1)
	type ret struct{ vals, wires []interface{} }
	var mu sync.Mutex
	rets := map[int]ret{}
	bin := func(tag string, r *rand.Rand) (interface{}, interface{}) {
		b := append([]byte(tag), genBytes(r, genSize(r, 2000))...)
		if o.MP {
			return b, b
		}
		switch r.Intn(3) {
		case 0:
			return socketio.Bytes{Data: b}, b
		case 1:
			return &blob{b}, b
		}
		return &socketio.Bytes{Data: b}, b
	}
	mk := func(tag string, r *rand.Rand) (vals, wires []interface{}) {
		for i := r.Intn(6); i > 0; i-- {
			t := fmt.Sprintf("%s/%d", tag, i)
			if r.Intn(3) > 0 {
				v, w := bin(t, r)
				vals, wires = append(vals, v), append(wires, w)
			} else {
				vals, wires = append(vals, t), append(wires, t)
			}
		}
		return
	}
	d := c.NewDuo(o, func(d *Duo) {
		for _, nsp := range o.Nsps {
			d.Ns(nsp).OnEvent("q", func(i int) (a, b, e interface{}) {
				mu.Lock()
				r := rets[i]
				mu.Unlock()
				return r.vals[0], r.vals[1], r.vals[2]
			})
		}
	})
	c.Sample(map[string]interface{}{"connection": o.String(), "senders": k, "packets each": n, "delays": how})
	var wg Group
	acks := 0
	for g := 0; g < k; g++ {
		g, r := g, rand.New(rand.NewSource(c.R.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n && !c.Failed(); i++ {
				nsp := o.Nsps[r.Intn(len(o.Nsps))]
				tag := fmt.Sprintf("%d.%d", g, i)
				if r.Intn(8) == 0 {
					ord.add(g, renderSP(SP{Type: 4, Nsp: nsp, Data: tag}, o.MP))
					if err := d.Sock(nsp).EmitError(tag); err != nil {
						c.Failf("emit", "EmitError fails: %v", err)
					}
					continue
				}
				vals, wires := mk(tag, r)
				ord.add(g, "cb "[3*b2i(i%3 != 0):]+renderSP(SP{Type: 2, Nsp: nsp, Args: append([]interface{}{"e" + tag}, wires...)}, o.MP))
				if i%3 == 0 {
					at := r.Intn(len(vals) + 1)
					vals = append(vals[:at:at], append([]interface{}{func() {}}, vals[at:]...)...)
				}
				if err := d.Emit(nsp, "e"+tag, vals...); err != nil {
					c.Failf("emit", "Emit fails: %v", err)
				}
			}
		}()
	}
	// meanwhile the peer asks for acknowledgements
	r := rand.New(rand.NewSource(c.R.Int63()))
	for i := c.R.Intn(15); i > 0; i-- {
		nsp := o.Nsps[r.Intn(len(o.Nsps))]
		var rt ret
		for len(rt.vals) < 3 {
			v, w := mk(fmt.Sprintf("ack%d.%d", i, len(rt.vals)), r)
			rt.vals, rt.wires = append(rt.vals, v...), append(rt.wires, w...)
		}
		rt.vals, rt.wires = rt.vals[:3], rt.wires[:3]
		mu.Lock()
		rets[i] = rt
		mu.Unlock()
		ord.add(k, renderSP(SP{Type: 3, Nsp: nsp, ID: uid(uint64(i)), Args: rt.wires}, o.MP))
		if err := d.Send(SP{Type: 2, Nsp: nsp, ID: uid(uint64(i)), Args: []interface{}{"q", i}}); err != nil {
			c.Must(err, "send")
		}
		acks++
		if r.Intn(3) == 0 {
			time.Sleep(time.Duration(r.Intn(500)) * time.Microsecond)
		}
	}
	seen := 0
	c.MustAwait("lost", fmt.Sprintf("all packets arrive (%s)", o), func() bool {
		emitted := done(&wg)
		ps := d.sioOut()
		for ; seen < len(ps); seen++ {
			p := ps[seen]
			pre := ""
			if p.Type == 2 && p.ID != nil {
				pre, p.ID = "cb ", nil
			}
			ord.got(pre + renderSP(p, o.MP))
			c.Stop()
		}
		return emitted && ord.left() == 0
	})
	c.Soon(time.Millisecond, func() bool { return false })
	_, err := split(d.Msgs(), o.MP)
	if err != nil {
		c.Fatalf("frames", "the frames received are no packet sequence: %v", err)
	}
	if x := len(d.sioOut()); x != seen {
		c.Fatalf("repeated", "%d packets arrived, %d were emitted", x, seen)
	}
	if e := d.Errs(); d.NErr("") > 0 {
		c.Fatalf("errors", "errors were reported: %s", e)
	}
	c.Count("packets checked", seen)
	c.Count("acks checked", acks)
	c.Count("frames checked", len(d.Msgs()))
	c.Sig("raw %s %d %d %d %x", o, k, n, acks, interleaving())
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// done tells whether the group has finished.
func done(wg *Group) bool {
	return wg.n.Load() == 0
}

// Group counts goroutines that have not finished.
type Group struct{ n atomic.Int64 }

func (g *Group) Add(k int) { g.n.Add(int64(k)) }
func (g *Group) Done()     { g.n.Add(-1) }

// c06Pair: library client and library server emit to each other.
func c06Pair(c *Ctx, how string) {
	k := 2 + c.R.Intn(4)
	n := 2 + c.R.Intn(30)
	ords := map[string]*order6{"server": newOrder6(c, k), "client": newOrder6(c, k)}
	var mu sync.Mutex
	var sock socketio.Socket
	var kept keeper
	c.Final(func() { mu.Lock(); defer mu.Unlock(); kept.check(c) })
	type B = socketio.Bytes
	reg := func(ns socketio.Namespace, from *order6) {
		hear := func(s string, bs ...[]byte) {
			from.got(fmt.Sprintf("%s %q", s, bs))
			mu.Lock()
			for _, b := range bs {
				kept.add(b, append([]byte(nil), b...))
			}
			mu.Unlock()
		}
		ns.OnEvent("e0", func(s string) { hear(s) })
		ns.OnEvent("e1", func(a *B, s string) { hear(s, a.Data) })
		ns.OnEvent("e2", func(a *B, s string, b B) { hear(s, a.Data, b.Data) })
		ns.OnEvent("e3", func(so socketio.Socket, s string, a, b, e B) (string, *B) {
			hear(s, a.Data, b.Data, e.Data)
			return s, &B{Data: a.Data}
		})
	}
	sv := c.NewSio(30*time.Second, 60*time.Second, socketio.DefaultParser, func(s *socketio.Server) {
		ns := s.Namespace("/").OnConnect(func(so socketio.Socket) { mu.Lock(); sock = so; mu.Unlock() })
		reg(ns, ords["client"])
		ns.OnError(func(_ socketio.Socket, e ...interface{}) { c.Failf("errors", "the server reports an error: %v", e) })
		s.OnError(func(e error) { c.Failf("errors", "the server reports an error: %v", e) })
	})
	cl := socketio.NewClient()
	connected := make(chan struct{})
	cl.OnError(func(e interface{}) { c.Failf("errors", "the client reports an error: %v", e) })
	ns := cl.Namespace("/").OnConnect(func(socketio.Socket) { close(connected) })
	ns.OnError(func(_ socketio.Socket, e ...interface{}) { c.Failf("errors", "the client reports an error: %v", e) })
	reg(ns, ords["server"])
	var err error
	if !c.Within("dial-stall", "Dial returns", func() {
		err = cl.Dial("ws://"+sv.Addr+"/socket.io/", http.Header{}, socketio.WebsocketTransport, socketio.DefaultParser)
	}) {
		panic(abort{})
	}
	if err != nil {
		c.Fatalf("dial", "Dial: %v", err)
	}
	c.Cleanup(func() { cl.Close() })
	c.MustAwait("connect-stall", "both ends are connected", func() bool {
		select {
		case <-connected:
		default:
			return false
		}
		mu.Lock()
		defer mu.Unlock()
		return sock != nil
	})
	var wg Group
	wantAcks, gotAcks := 0, 0
	for who, ord := range ords {
		for g := 0; g < k; g++ {
			who, ord, g, r := who, ord, g, rand.New(rand.NewSource(c.R.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < n && !c.Failed(); i++ {
					s := fmt.Sprintf("%s %d.%d", who, g, i)
					a := r.Intn(4)
					bs := make([][]byte, a)
					x := make([]*B, 3)
					for j := range bs {
						bs[j] = append([]byte(s+fmt.Sprint("/", j)), genBytes(r, genSize(r, 1500))...)
						x[j] = &B{Data: bs[j]}
					}
					args := [][]interface{}{{s}, {x[0], s}, {x[0], s, x[1]}, {s, x[0], x[1], x[2]}}[a]
					if a == 3 && r.Intn(2) == 0 {
						mu.Lock()
						wantAcks++
						mu.Unlock()
						args = append(args, func(t string, b B) {
							if t != s || string(b.Data) != string(bs[0]) {
								c.Failf("ack", "the callback of %q is called with %q, %q", s, t, clip(string(b.Data), 60))
							}
							mu.Lock()
							gotAcks++
							mu.Unlock()
						})
					}
					ord.add(g, fmt.Sprintf("%s %q", s, bs))
					var err error
					if who == "client" {
						err = cl.Emit("/", fmt.Sprint("e", a), args...)
					} else {
						err = sock.Emit(fmt.Sprint("e", a), args...)
					}
					if err != nil {
						c.Failf("emit", "Emit fails: %v", err)
					}
				}
			}()
		}
	}
	c.MustAwait("lost", "all packets and acks arrive", func() bool {
		return done(&wg) && ords["server"].left() == 0 && ords["client"].left() == 0 && func() bool { mu.Lock(); defer mu.Unlock(); return gotAcks == wantAcks }()
	})
	c.Soon(time.Millisecond, func() bool { return false })
	c.Stop()
	c.Sample(map[string]interface{}{"connection": "client and server", "senders": 2 * k, "packets each": n, "delays": strings.TrimSpace(how)})
	c.Count("packets checked", 2*k*n)
	c.Count("acks checked", gotAcks)
	c.Sig("pair %d %d %d %x", k, n, gotAcks, interleaving())
}
