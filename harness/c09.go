package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func init() {
	register(&Suite{ID: "C09", Quick: 6000, Deep: 120000, MinNT: 3500, Virtual: true, Extra: true,
		realTime: func(n int) bool { return n%7 != 5 },
		Rule:     "connections whose acknowledgement history was checked, distinct by workload and order of scheduling points passed",
		Run:      runC09})
}

// asked is an emit of the library with a callback.
type asked struct {
	d    *Duo
	nsp  string
	tag  string
	ans  []arg
	p    *probe
	id   *uint64
	want int // calls due: 1 once a valid answer is sent
}

func runC09(c *Ctx) {
	if c.S.Virtual {
		longHistory(c)
		return
	}
	how := c.Perturb("ack.found", "socket.emit", "socket.emit.frame", "server.process", "client.process", "emitter.submit", "emitter.dequeued")
	o := c.genDuo(c.R.Intn(4) == 0)
	if c.R.Intn(3) == 0 {
		o.Nsps = []string{"/", "/a", "/b"}
		if c.R.Intn(3) == 0 {
			o.Nsps = append(o.Nsps, "/c", "/d", "/e", "/f", "/g", "/h", "/i")
		}
	}
	c.Sample(map[string]interface{}{"connection": o.String(), "delays": how})
	if c.Case%20000 == 11 {
		c09Many(c, o, 66000+c.R.Intn(2000))
		return
	}
	if c.R.Intn(100) == 0 {
		c09Many(c, o, 260+c.R.Intn(3000))
		return
	}
	if c.R.Intn(3) == 0 {
		c09Answer(c, o)
		return
	}
	c09Ask(c, o)
}

func without(l []string, x string) (out []string) {
	for _, y := range l {
		if y != x {
			out = append(out, y)
		}
	}
	return
}

// c09Ask: the library asks, the peer answers in every way it likes.
func c09Ask(c *Ctx, o DuoOpt) {
	d := c.NewDuo(o, func(d *Duo) { d.Ns("/idle").OnEvent("ask", func() {}) }) // /idle is never joined
	ds := []*Duo{d}
	if !o.Client && c.R.Intn(3) == 0 {
		ds = append(ds, d.Another())
	}
	var mu sync.Mutex
	var all []*asked
	var wg Group
	ask := func(d *Duo, nsp string, r *rand.Rand, tag string) {
		a := &asked{d: d, nsp: nsp, tag: tag, ans: o.genArgs(r, 3)}
		a.p = newProbe(c, r, a.ans, o.MP, nil)
		mu.Lock()
		all = append(all, a)
		mu.Unlock()
		args := []interface{}{tag, a.p.fn}
		if r.Intn(2) == 0 {
			args[0], args[1] = args[1], args[0]
		}
		if err := d.Emit(nsp, "ask", args...); err != nil {
			c.Failf("emit", "Emit with a callback on a connected namespace: %v", err)
		}
	}
	senders, per := 1+c.R.Intn(3), 1+c.R.Intn(8)
	for g := 0; g < senders; g++ {
		g, r := g, rand.New(rand.NewSource(c.R.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < per; i++ {
				d := ds[r.Intn(len(ds))]
				nsp := o.Nsps[r.Intn(len(o.Nsps))]
				if r.Intn(8) == 0 { // an emit that fails leaves nothing behind
					if err := d.Emit(nsp, "bad", make(chan int), func() { c.Failf("failed-emit", "the callback of a failed emit runs") }); err == nil {
						c.Failf("emit", "emitting a channel succeeds")
					}
				}
				ask(d, nsp, r, fmt.Sprintf("%d.%d", g, i))
			}
		}()
	}
	r := c.R
	rounds := 1 + r.Intn(3)
	answered := map[string]*asked{} // by connection, namespace and id
	key := func(d *Duo, nsp string, id uint64) string { return fmt.Sprint(d.sid, nsp, " ", id) }
	send := func(d *Duo, nsp string, id uint64, ans []arg, bare bool) {
		s := SP{Type: 3, Nsp: nsp, ID: &id, Args: wires(ans)}
		if bare {
			s.Args = nil
		}
		if err := d.SendFrames(spell(s, o.MP, r)...); err != nil {
			c.Must(err, "send")
		}
	}
	forge := func() {
		d := ds[r.Intn(len(ds))]
		nsp := o.Nsps[r.Intn(len(o.Nsps))]
		var id uint64
		switch r.Intn(5) {
		case 0:
			id = uint64(1)<<40 + uint64(r.Intn(1000))
		case 1:
			id = 0
		case 2:
			nsp, id = []string{"/none", "/idle"}[r.Intn(2)], uint64(1+r.Intn(5+len(all)))
		default: // an id answered already, or outstanding elsewhere
			quiet := done(&wg)
			var ids []uint64
			out := map[uint64]bool{}
			mu.Lock()
			for _, a := range all {
				if a.id == nil || !quiet {
					if !quiet || a.d == d && a.nsp == nsp {
						mu.Unlock()
						return // not sure which ids are outstanding here
					}
					continue
				}
				ids = append(ids, *a.id)
				if a.d == d && a.nsp == nsp && a.want == 0 {
					out[*a.id] = true
				}
			}
			mu.Unlock()
			if len(ids) == 0 {
				return
			}
			id = ids[r.Intn(len(ids))]
			if out[id] {
				return
			}
		}
		if id == 0 { // never in use, ids start at one
			for _, a := range all {
				if a.id != nil && *a.id == 0 {
					return
				}
			}
		}
		if !o.MP && r.Intn(3) == 0 {
			for _, a := range all {
				if a.d == d && a.nsp == nsp && a.id != nil { // a number that is this id modulo 2^64
					t, _ := encSIO(SP{Type: 3, Nsp: nsp, Args: wires(o.genArgs(r, 0))})
					k := strings.IndexByte(t, '[')
					c.Must(d.SendFrames(EP{Type: 4, Data: []byte(t[:k] + beyond64(r, *a.id) + t[k:])}), "send")
					c.Count("answers with ids beyond 64 bits", 1)
					break
				}
			}
		}
		send(d, nsp, id, o.genArgs(r, 3), false)
		c.Count("forged or repeated answers", 1)
	}
	collect := func() {
		c.MustAwait("lost", "all emits arrive", func() bool {
			if !done(&wg) {
				return false
			}
			n := 0
			mu.Lock()
			byTag := map[string]*asked{}
			for _, a := range all {
				byTag[a.d.sid+a.nsp+a.tag] = a
			}
			mu.Unlock()
			for _, d := range ds {
				for _, p := range d.sioOut() {
					if p.Type == 4 && p.Nsp == "/none" {
						continue
					}
					if p.Type != 2 || len(p.Args) != 2 {
						c.Fatalf("packet", "the peer received %v", p)
					}
					tag, _ := p.Args[1].(string)
					a := byTag[d.sid+p.Nsp+tag]
					if a == nil || p.ID == nil {
						c.Fatalf("packet", "the peer received %v", p)
					}
					if a.id != nil && *a.id != *p.ID {
						c.Fatalf("packet", "emit %s sent twice, with ids %d and %d", tag, *a.id, *p.ID)
					}
					if x := answered[key(d, p.Nsp, *p.ID)]; x != nil && x != a {
						c.Fatalf("id-reuse", "emits %s and %s carry the same id %d in %s", x.tag, a.tag, *p.ID, p.Nsp)
					}
					a.id = p.ID
					answered[key(d, p.Nsp, *p.ID)] = a
					n++
				}
			}
			return n == len(byTag)
		})
	}
	for round := 0; round < rounds; round++ {
		collect()
		order := r.Perm(len(all))
		for _, i := range order {
			a := all[i]
			if a.want > 0 || a.want < 0 || (r.Intn(5) == 0 && round < rounds) {
				continue
			}
			if r.Intn(4) == 0 {
				forge()
			}
			bare := len(a.ans) == 0 && r.Intn(2) == 0 && o.MP // msgpack may leave the data out
			if r.Intn(3) == 0 && round == 0 {                 // the callback asks in turn
				tag := "nested " + a.tag
				d, nsp := a.d, a.nsp
				nr := rand.New(rand.NewSource(r.Int63()))
				wg.Add(1)
				a.p.mu.Lock()
				a.p.on = func(interfaceSocket) {
					defer wg.Done()
					ask(d, nsp, nr, tag)
				}
				a.p.mu.Unlock()
			}
			a.want = 1
			send(a.d, a.nsp, *a.id, a.ans, bare)
			if r.Intn(4) == 0 { // once more, with the same or other arguments
				if r.Intn(2) == 0 {
					send(a.d, a.nsp, *a.id, a.ans, false)
				} else {
					send(a.d, a.nsp, *a.id, o.genArgs(r, 3), false)
				}
				c.Count("forged or repeated answers", 1)
			}
		}
		// the namespace is left and joined again: answers to emits of before are stale
		if r.Intn(3) == 0 {
			d := ds[r.Intn(len(ds))]
			nsps := []string{o.Nsps[r.Intn(len(o.Nsps))]}
			if r.Intn(3) == 0 { // several
				nsps = nil
				for _, i := range r.Perm(len(o.Nsps)) {
					nsps = append(nsps, o.Nsps[i])
				}
			}
			if !o.Client {
				nsps = without(nsps, "/")
			}
			collect()
			ks := map[string]int{}
			for _, nsp := range nsps {
				nsp := nsp
				kd := d.NDisc(nsp)
				ks[nsp] = d.NConn(nsp)
				c.Must(d.Send(SP{Type: 1, Nsp: nsp}), "send")
				c.MustAwait("disconnect-stall", "disconnect callback", func() bool { return d.NDisc(nsp) > kd })
			}
			for _, nsp := range nsps {
				for _, a := range all { // answers in the namespace that was left, to questions asked elsewhere
					if a.d == d && a.nsp != nsp && a.id != nil && r.Intn(2+len(nsps)/2) == 0 {
						send(d, nsp, *a.id, a.ans, false)
						c.Count("answers in a left namespace", 1)
					}
				}
			}
			for _, nsp := range nsps {
				c.Must(d.Send(SP{Type: 0, Nsp: nsp}), "send")
				d.waitConn(nsp, ks[nsp]+1)
			}
			for _, nsp := range nsps {
				mu.Lock()
				var stale []*asked
				for _, a := range all {
					if a.d == d && a.nsp == nsp && a.want == 0 && a.id != nil {
						a.want = -1
						stale = append(stale, a)
					}
				}
				mu.Unlock()
				for i := r.Intn(3); i > 0; i-- {
					ask(d, nsp, r, fmt.Sprintf("again %d.%s.%d", round, nsp, i))
				}
				for _, a := range stale {
					send(a.d, a.nsp, *a.id, a.ans, false)
					c.Count("stale answers", 1)
				}
			}
		}
	}
	collect()
	for _, a := range all { // what was held back
		if a.want == 0 && r.Intn(4) > 0 {
			a.want = 1
			send(a.d, a.nsp, *a.id, a.ans, false)
		}
	}
	for i := r.Intn(4); i > 0; i-- {
		forge()
	}
	for _, a := range all {
		if a.want == 1 {
			a := a
			c.MustAwait("ack-lost", fmt.Sprintf("the answer %v to emit %s of %s, id %d, reaches its callback %T (errors %s)", a.ans, a.tag, a.nsp, *a.id, a.p.fn, d.Errs()), func() bool { return a.p.n() > 0 })
			c.Count("answers", 1)
		}
	}
	// everything sent has been processed once a later event has been
	c09Fence(c, ds)
	for _, a := range all {
		n := a.p.n()
		switch {
		case a.want == 1 && n != 1:
			c.Fatalf("twice", "the callback of emit %s of %s, id %d, ran %d times", a.tag, a.nsp, *a.id, n)
		case a.want != 1 && n != 0:
			c.Fatalf("unasked", "the callback of emit %s of %s, id %d, ran although it was not answered (stale: %v)", a.tag, a.nsp, *a.id, a.want < 0)
		case n == 1 && a.p.last() != rendered(a.ans, o.MP):
			c.Fatalf("ack-args", "the callback of emit %s, %T:\nwant %s\ngot  %s", a.tag, a.p.fn, clip(rendered(a.ans, o.MP), 1200), clip(a.p.last(), 1200))
		}
		if n == 1 && a.p.socks[0] != nil && (a.p.socks[0].Namespace() != a.nsp || a.p.socks[0].Sid() != a.d.sid) {
			c.Fatalf("ack-socket", "the callback of emit %s of %s got the socket of %s", a.tag, a.nsp, a.p.socks[0].Namespace())
		}
	}
	c.Sig("ask %s %d %d %d %x", o, len(ds), senders*per, len(all), interleaving())
}

// c09Many: many questions outstanding at once.
func c09Many(c *Ctx, o DuoOpt, n int) {
	if n > 5000 {
		perturbReset()
	}
	d := c.NewDuo(o, nil)
	var calls atomic.Int64
	var mu sync.Mutex
	got := make([]int, n)
	nsp := o.Nsps[c.R.Intn(len(o.Nsps))]
	var wg Group
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < n && !c.Failed(); i++ {
			i := i
			if err := d.Emit(nsp, "many", strconv.Itoa(i), func(s string) {
				mu.Lock()
				got[i]++
				mu.Unlock()
				calls.Add(1)
				if s != strconv.Itoa(i) {
					c.Failf("misrouted", "with %d questions outstanding, the callback of question %d receives the answer to %q", n, i, s)
				}
			}); err != nil {
				c.Failf("emit", "Emit with a callback on a connected namespace: %v", err)
			}
		}
	}()
	for k := 0; k <= n; k += 500 {
		k := k
		c.MustAwait("lost", "emits arrive", func() bool { return d.Len(4) >= k })
	}
	c.MustAwait("lost", "all emits arrive", func() bool { return done(&wg) && len(d.frames()) >= n })
	ids := map[uint64]string{}
	var fs []EP
	for _, p := range d.sioOut() {
		if p.Type != 2 || len(p.Args) != 2 || p.ID == nil {
			c.Fatalf("packet", "the peer received %v", p)
		}
		tag, _ := p.Args[1].(string)
		if t, ok := ids[*p.ID]; ok {
			c.Fatalf("id-reuse", "questions %s and %s, both outstanding, carry the same id %d", t, tag, *p.ID)
		}
		ids[*p.ID] = tag
		fs = append(fs, spell(SP{Type: 3, Nsp: nsp, ID: p.ID, Args: []interface{}{tag}}, o.MP, c.R)...)
	}
	if len(ids) != n {
		c.Fatalf("lost", "%d emits make %d packets", n, len(ids))
	}
	c.R.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	for i := 0; i < len(fs); i += 100 {
		c.Must(d.SendFrames(fs[i:min(i+100, len(fs))]...), "send")
	}
	for k := 0; k < n; {
		k = min(k+500, n)
		c.MustAwait("ack-lost", fmt.Sprintf("the callbacks of %d questions are called", n), func() bool { return calls.Load() >= int64(k) })
	}
	c09Fence(c, []*Duo{d})
	mu.Lock()
	defer mu.Unlock()
	for i, k := range got {
		if k != 1 {
			c.Fatalf("ack-count", "with %d questions outstanding and answered, the callback of question %d ran %d times (errors %s)", n, i, k, d.Errs())
		}
	}
	c.Count("answers", n)
	c.Sig("many %s %d", o, n)
}

// beyond64 is a decimal number of more than 64 bits that is n modulo 2^64.
func beyond64(r *rand.Rand, n uint64) string {
	x := new(big.Int).Lsh(big.NewInt(int64(1+r.Intn(1000))), uint(64+r.Intn(3)*r.Intn(60)))
	return x.Add(x, new(big.Int).SetUint64(n)).String()
}

// c09Fence waits until the library has processed what the peers have sent: an answer to a question that the peer
// asks of a namespace's handler "fence" would need a handler, so an unknown namespace's error is used on servers, and
// repeated connects' effects on clients.
func c09Fence(c *Ctx, ds []*Duo) {
	for _, d := range ds {
		d := d
		if d.cli == nil {
			n := 0
			seen, k := -1, 0
			count := func() int {
				if m := d.Len(4); m == seen {
					return k
				} else {
					seen, k = m, 0
				}
				for _, p := range d.sioOut() {
					if p.Type == 4 {
						k++
					}
				}
				return k
			}
			n = count()
			c.Must(d.Send(SP{Type: 2, Nsp: "/nowhere", Args: []interface{}{"e"}}), "send")
			c.MustAwait("fence", "an event for an unknown namespace is answered", func() bool { return count() > n })
			continue
		}
		n := d.NErr("/")
		c.Must(d.Send(SP{Type: 4, Nsp: "/", Data: "fence"}), "send")
		c.MustAwait("fence", "an error packet reaches its callback", func() bool { return d.NErr("/") > n })
	}
}

// c09Answer: the peer asks, the library answers.
func c09Answer(c *Ctx, o DuoOpt) {
	type hnd struct {
		nsp, name string
		args, ret []arg
		p         *probe
	}
	var hs []*hnd
	r := c.R
	var du *Duo
	var mu sync.Mutex
	emitted := 0
	d := c.NewDuo(o, func(d *Duo) {
		du = d
		for i := 1 + r.Intn(6); i > 0; i-- {
			h := &hnd{nsp: o.Nsps[r.Intn(len(o.Nsps))], name: fmt.Sprint("q", i), args: o.genArgs(r, 3), ret: o.genArgs(r, 3)}
			if r.Intn(3) == 0 {
				h.ret = nil
			}
			h.p = newProbe(c, r, h.args, o.MP, vals(h.ret))
			switch r.Intn(4) {
			case 0: // the handler emits before it answers
				nsp := h.nsp
				h.p.on = func(interfaceSocket) {
					if err := du.Sock(nsp).Emit("meanwhile"); err == nil {
						mu.Lock()
						emitted++
						mu.Unlock()
					}
				}
			case 1:
				d := time.Duration(r.Intn(800)) * time.Microsecond
				h.p.on = func(interfaceSocket) { time.Sleep(d) }
			}
			hs = append(hs, h)
			d.Ns(h.nsp).OnEvent(h.name, h.p.fn)
		}
	})
	du = d
	var want []string
	calls := map[*hnd]int{}
	events := 1 + r.Intn(25)
	var fs []EP
	flush := func() {
		if len(fs) > 0 {
			c.Must(d.SendFrames(fs...), "send")
			fs = nil
		}
	}
	for i := 0; i < events; i++ {
		h := hs[r.Intn(len(hs))]
		id := genID(r)
		if r.Intn(4) == 0 {
			id = uid(uint64(r.Intn(3))) // ids of the peer's may well repeat
		}
		fs = append(fs, spell(SP{Type: 2, Nsp: h.nsp, ID: id, Args: append([]interface{}{h.name}, wires(h.args)...)}, o.MP, r)...)
		calls[h]++
		if id != nil {
			want = append(want, renderSP(SP{Type: 3, Nsp: h.nsp, ID: id, Args: wires(h.ret)}, o.MP))
		}
		if r.Intn(2) == 0 {
			flush()
		}
		if r.Intn(10) == 0 { // an answer nobody asked for in between
			fs = append(fs, spell(SP{Type: 3, Nsp: h.nsp, ID: uid(uint64(r.Intn(5))), Args: []interface{}{}}, o.MP, r)...)
		}
	}
	flush()
	for h, n := range calls {
		h, n := h, n
		c.MustAwait("event-lost", fmt.Sprintf("the callback of %q runs %d times (errors %s)", h.name, n, d.Errs()), func() bool { return h.p.n() >= n })
	}
	acks := func() (got []string, other int) {
		for _, p := range d.sioOut() {
			if p.Type == 3 {
				got = append(got, renderSP(p, o.MP))
			} else {
				other++
			}
		}
		return
	}
	c.MustAwait("not-answered", fmt.Sprintf("%d events are answered (errors %s)", len(want), d.Errs()), func() bool {
		g, _ := acks()
		return len(g) >= len(want)
	})
	c09Fence(c, []*Duo{d})
	got, _ := acks()
	sort.Strings(want)
	sort.Strings(got)
	if a, b := strings.Join(want, "\n"), strings.Join(got, "\n"); a != b {
		c.Fatalf("answers", "answers due:\n%s\nanswers sent:\n%s", clip(a, 1800), clip(b, 1800))
	}
	for _, h := range hs {
		if h.p.n() != calls[h] {
			c.Fatalf("calls", "%q: %d calls for %d events", h.name, h.p.n(), calls[h])
		}
	}
	c.Count("events", events)
	c.Count("answers sent", len(got))
	c.Sig("answer %s %d %d %d %x", o, len(hs), events, len(want), interleaving())
}
