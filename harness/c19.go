package main

import (
	"bufio"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/gorilla/websocket"
	"github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"
)

func init() {
	register(&Suite{ID: "C19", Quick: 25000, Deep: 500000, MinNT: 15000, Run: runC19,
		Rule: "dialed connections, distinct by layer, parser, handshake, packets sent behind it, their batching and timing, end, and order of scheduling points passed"})
}

func runC19(c *Ctx) {
	switch k := c.R.Intn(20); {
	case k < 12:
		c19Sio(c)
	case k < 14:
		c19Engine(c)
	case k < 15:
		c19Again(c)
	case k < 18:
		c19Pair(c)
	default:
		c.Soon(3*time.Second, func() bool { return len(libGoroutines()) == 0 }) // what the previous case left
		c14Dial(c, len(libGoroutines()))
	}
}

// cork holds back what is written until it is released.
type cork struct {
	net.Conn
	mu  sync.Mutex
	on  bool
	buf []byte
}

func (k *cork) Write(b []byte) (int, error) {
	k.mu.Lock()
	if k.on {
		k.buf = append(k.buf, b...)
		k.mu.Unlock()
		return len(b), nil
	}
	k.mu.Unlock()
	return k.Conn.Write(b)
}

// release writes what was held back in pieces, with pauses.
func (k *cork) release(cuts []int, pauses []time.Duration) {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.on = false
	last := 0
	for i, at := range append(cuts, len(k.buf)) {
		if at > len(k.buf) {
			at = len(k.buf)
		}
		if at > last {
			if last > 0 {
				time.Sleep(pauses[i-1])
			}
			k.Conn.Write(k.buf[last:at])
			last = at
		}
	}
	k.buf = nil
}

// peer19 is the server end of the connection.
type peer19 struct {
	*WS
	k   *cork
	req *http.Request
}

// server19 accepts one connection, whose writes are held back until they are released.
func (c *Ctx) server19() (addr string, got chan *peer19) {
	l, err := listen()
	c.Must(err, "listen")
	c.Cleanup(func() { l.Close() })
	got = make(chan *peer19, 1)
	go func() {
		conn, err := l.Accept()
		if err != nil {
			return
		}
		c.Cleanup(func() { conn.Close() })
		br := bufio.NewReader(conn)
		req, err := http.ReadRequest(br)
		if err != nil {
			conn.Close()
			return
		}
		k := &cork{Conn: conn, on: true}
		up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}
		ws, err := up.Upgrade(&hijack{conn: k, br: br, h: http.Header{}}, req, nil)
		if err != nil {
			conn.Close()
			return
		}
		p := &peer19{WS: &WS{Inbox: new(Inbox), Conn: ws, done: make(chan struct{})}, k: k, req: req}
		go p.read()
		got <- p
	}()
	return l.Addr().String(), got
}

// request19 is what the caller adds to the handshake request.
type request19 struct {
	path  string
	raw   string // the path as it is spelled, if that matters
	query url.Values
	hdr   http.Header
}

func genRequest19(r *rand.Rand) *request19 {
	q := &request19{path: []string{"/", "/socket.io/", "/engine.io", "/a b/c", "/é/", "/a/b/", "/x%2Fy"}[r.Intn(7)], query: url.Values{}}
	switch q.path { // spellings that mean something else than the plain path does
	case "/a/b/":
		q.raw = "/a%2Fb/"
	case "/x%2Fy":
		q.raw = "/x%252Fy"
	}
	for i := r.Intn(4); i > 0; i-- {
		q.query.Add([]string{"token", "a b", "é&=", "t", "sid2", "EIO", "transport", "j"}[r.Intn(8)], []string{"", "1", "4", "polling", genText(r, r.Intn(10)), "x&y=z#%;"}[r.Intn(6)])
	}
	switch r.Intn(6) {
	case 0:
		return q
	case 1:
		q.hdr = http.Header{}
		return q
	}
	q.hdr = http.Header{}
	for i := r.Intn(5); i > 0; i-- {
		k := []string{"Cookie", "X-Token", "Authorization", "Origin", "User-Agent", "Accept-Language", "x-lower"}[r.Intn(7)]
		if k == "User-Agent" { // there is only one
			delete(q.hdr, k)
		}
		q.hdr[k] = append(q.hdr[k], []string{"a=1; b=2", "Bearer x.y", "http://elsewhere.example", "é", "0"}[r.Intn(5)])
	}
	return q
}

func (q *request19) url(addr string) string {
	u := url.URL{Scheme: "ws", Host: addr, Path: q.path, RawPath: q.raw, RawQuery: q.query.Encode()}
	return u.String()
}

func (q *request19) check(c *Ctx, r *http.Request) {
	got, err := url.ParseQuery(r.URL.RawQuery)
	if err != nil {
		c.Failf("query", "the handshake's query %q: %v", r.URL.RawQuery, err)
	}
	want := url.Values{}
	for k, v := range q.query {
		want[k] = v
	}
	want["EIO"], want["transport"] = []string{"3"}, []string{"websocket"}
	for k := range got {
		if want[k] == nil {
			c.Failf("query", "the handshake's query has %q=%q, which nobody asked for", k, got[k])
		}
	}
	for k, v := range want {
		if !equalStrings(got[k], v) {
			c.Failf("query", "the handshake's query has %q=%q, where %q is due", k, got[k], v)
		}
	}
	if r.URL.Path != q.path {
		c.Failf("path", "the handshake's path is %q, the caller's is %q", r.URL.Path, q.path)
	}
	if q.raw != "" && r.URL.EscapedPath() != q.raw {
		c.Failf("path", "the handshake's path is spelled %q, the caller spelled it %q", r.URL.EscapedPath(), q.raw)
	}
	for k, v := range q.hdr {
		if g := r.Header[http.CanonicalHeaderKey(k)]; !equalStrings(g, v) {
			c.Failf("header", "the handshake's header %s is %q, the caller's is %q", k, g, v)
		}
	}
	c.Count("requests checked", 1)
}

// open19 is an open packet, in one of its spellings.
func open19(r *rand.Rand) (EP, string) {
	sid := []string{"s", genText(r, 1+r.Intn(30)), "a/b+c=\"\\", "<é&>", strings.Repeat("x", 1+r.Intn(300))}[r.Intn(5)]
	switch r.Intn(4) {
	case 0:
		return EP{Type: 0, Data: []byte(fmt.Sprintf(`{"pingTimeout": 60000, "unknown":{"a":[1]}, "upgrades":["x"],"pingInterval":25000,"sid":%s}`, jsonOf(sid)))}, sid
	case 1:
		return EP{Type: 0, Data: []byte(fmt.Sprintf(" {\n\"sid\" : %s ,\"pingInterval\":25000,\"pingTimeout\":60000,\"upgrades\":null}\n", jsonOf(sid)))}, sid
	case 2:
		return EP{Type: 0, Data: []byte(fmt.Sprintf(`{"sid":%s,"pingInterval":25000,"pingTimeout":60000,"maxPayload":100000}`, jsonOf(sid)))}, sid
	}
	return openPacket(sid, 25000, 60000), sid
}

// script19 writes packets: the first early ones in random pieces right behind the handshake, the others one by one.
type script19 struct {
	early  int
	pauses []time.Duration
	cuts   []int
	frag   *rand.Rand
}

func genScript19(r *rand.Rand, n int) *script19 {
	s := &script19{early: n, frag: rand.New(rand.NewSource(r.Int63()))}
	if r.Intn(3) == 0 {
		s.early = r.Intn(n + 1)
	}
	for i := 0; i < n+8; i++ {
		s.pauses = append(s.pauses, []time.Duration{0, 0, 100 * time.Microsecond, time.Millisecond, 3 * time.Millisecond}[r.Intn(5)])
	}
	if r.Intn(3) > 0 { // otherwise all in one
		for i := r.Intn(6); i > 0; i-- {
			s.cuts = append(s.cuts, 1+r.Intn(150+60*n))
		}
		sort.Ints(s.cuts)
	}
	return s
}

func (s *script19) String() string { return fmt.Sprint(s.early, s.cuts) }

// play sends open, then frames, then what end does.
func (s *script19) play(p *peer19, open EP, fs []EP, end func()) {
	send := func(x EP) {
		if len(x.Data) > 1 && s.frag.Intn(5) == 0 {
			p.SendFragmented(x, []int{len(x.Data) / 3, len(x.Data) / 2})
		} else {
			p.Send(x)
		}
	}
	send(open)
	for _, x := range fs[:s.early] {
		send(x)
	}
	if s.early == len(fs) && end != nil {
		end()
	}
	p.k.release(s.cuts, s.pauses)
	for i, x := range fs[s.early:] {
		time.Sleep(s.pauses[i])
		send(x)
	}
	if s.early < len(fs) && end != nil {
		end()
	}
}

// the ways the connection ends
const (
	finOwn     = iota // Close of the client, when all has arrived
	finOwnSoon        // at once
	finPacket         // close packet
	finFin            // the server shuts down its side
	finFrame          // websocket close
	finDrop
	ends19
)

var endNames19 = []string{"own close", "early own close", "close packet", "end of stream", "websocket close", "drop"}

func (p *peer19) endBy(k int) func() {
	switch k {
	case finPacket:
		return func() { p.Send(EP{Type: 1}) }
	case finFrame:
		return func() { p.SendRaw(websocket.CloseMessage, websocket.FormatCloseMessage(1000, "bye")) }
	}
	return nil
}

// endAfter is what follows everything sent.
func (p *peer19) endAfter(k int) {
	tcp := p.k.Conn.(*net.TCPConn)
	switch k {
	case finFin:
		tcp.CloseWrite()
	case finDrop:
		tcp.Close()
	}
}

func c19Sio(c *Ctx) {
	r := c.R
	how := c.Perturb("client.dial.engine", "client.dialed", "client.reader.start", "client.reader.handle", "client.process")
	mp := r.Intn(3) == 0
	lg := &log18{all: map[string][]string{}}
	// what the server sends
	open, sid := open19(r)
	g := &gen18{c: c, r: r, d: &Duo{DuoOpt: DuoOpt{MP: mp}}, away: true}
	var items []item18
	noop := func() item18 {
		return item18{what: "noop", fs: []EP{[]EP{{Type: 6}, {Type: 3}, {Type: 3, Data: []byte("probe")}, {Type: 5}}[r.Intn(4)]}}
	}
	for i := r.Intn(3); i > 0; i-- { // before it is connected
		switch r.Intn(3) {
		case 0:
			items = append(items, noop())
		case 1:
			n := g.pick("/", "/a")
			items = append(items, item18{what: "error packet", fs: g.spell(SP{Type: 4, Nsp: n, Data: "refused"}), effects: []string{"errpkt " + n + ` "refused"`}})
		case 2:
			items = append(items, item18{what: "early event", fs: g.spell(SP{Type: 2, Nsp: "/", ID: g.newID(), Args: []interface{}{"ok", "x"}})})
		}
	}
	connected := r.Intn(12) > 0
	if connected {
		items = append(items, item18{what: "connect", fs: g.spell(SP{Type: 0, Nsp: "/"}), effects: []string{"conn /"}})
		then := false
		for i := r.Intn(20); i > 0 || then; i-- {
			var it item18
			switch k := r.Intn(10); {
			case k == 0 && !then:
				it = noop()
			case k < 3 && !then:
				it = g.faulty()
			default:
				it = g.valid()
			}
			then = it.then
			items = append(items, it)
		}
	}
	end := r.Intn(ends19)
	if end == finOwn { // when it has come, the events before it have been acknowledged
		items = append(items, item18{what: "last", fs: g.spell(SP{Type: 4, Nsp: "/", Data: "last"}), effects: []string{`errpkt / "last"`}})
	}
	var fs []EP
	var want, answers, sent []string
	for _, it := range items {
		fs = append(fs, it.fs...)
		want = append(want, it.effects...)
		sent = append(sent, it.what)
		if it.answer != "" {
			answers = append(answers, it.answer)
		}
	}
	sc := genScript19(r, len(fs))
	desc := fmt.Sprintf("msgpack %v, %s, %v", mp, endNames19[end], sc)
	// the client
	cl := socketio.NewClient()
	nEarly, nLate := r.Intn(4), r.Intn(6)
	cl.OnError(func(interface{}) { lg.add(cl.Sid(), "top") })
	var dialed atomic.Bool
	early := 0
	for _, n := range []string{"/", "/a"} {
		n := n
		cl.Namespace(n).OnConnect(func(so socketio.Socket) {
			defer lg.add(so.Sid(), "conn %s", n)
			if !dialed.Load() {
				c.Count("connect callbacks before Dial returned", 1)
			}
			for i := 0; n == "/" && i < nEarly; i++ {
				var err error
				if i%2 == 0 {
					err = so.Emit("m", 0, i)
				} else {
					err = cl.Emit("/", "m", 0, i)
				}
				if err != nil {
					if end < finPacket && end != finOwnSoon {
						c.Failf("emit", "Emit in the connect callback returns %v", err)
					}
					break
				}
				early++
			}
		}).OnDisconnect(func(so socketio.Socket) { lg.add(so.Sid(), "disc %s", n) }).
			OnError(func(so socketio.Socket, e ...interface{}) {
				if len(e) == 1 {
					if _, ok := e[0].(error); ok {
						lg.add(so.Sid(), "err %s", n)
						return
					}
					lg.add(so.Sid(), "errpkt %s %s", n, canon(e[0]))
				}
			})
	}
	register18(cl.Namespace, mp, lg)
	addr, got := c.server19()
	q := genRequest19(r)
	var peer atomic.Pointer[peer19]
	var wg Group
	c.Go(&wg, func() {
		p := <-got
		peer.Store(p)
		sc.play(p, open, fs, p.endBy(end))
		if end >= finPacket {
			p.endAfter(end)
		}
	})
	var err error
	if !c.Within("dial-stall", "Dial returns", func() {
		err = cl.Dial(q.url(addr), q.hdr, socketio.WebsocketTransport, parserOf(mp))
	}) {
		panic(abort{})
	}
	dialed.Store(true)
	if err != nil {
		c.Fatalf("dial", "Dial fails: %v (%s; sid %q)", err, desc, sid)
	}
	c.Cleanup(func() { cl.Close() })
	if s := cl.Sid(); s != sid {
		c.Fatalf("sid", "the client's sid is %q, announced was %q", s, sid)
	}
	p := peer.Load()
	q.check(c, p.req)
	c.Stop()
	noerr := func(l []string) (out []string) { return l }
	if end == finOwnSoon || end == finFrame || end == finDrop { // acknowledgements may fail
		noerr = func(l []string) (out []string) {
			for _, e := range l {
				if !strings.HasPrefix(e, "err ") {
					out = append(out, e)
				}
			}
			return
		}
	}
	want = noerr(want)
	log := func() []string { return noerr(lg.get(sid)) }
	// attached after the first k effects
	attached := func(k int) (l []string) {
		at := map[string]bool{}
		for _, e := range want[:k] {
			if strings.HasPrefix(e, "conn ") {
				at[e[5:]] = true
			} else if strings.HasPrefix(e, "disc ") {
				delete(at, e[5:])
			}
		}
		for n := range at {
			l = append(l, "disc "+n)
		}
		sort.Strings(l)
		return
	}
	// the log must be the first k effects for some k >= least, then a disconnect of each namespace connected then
	matches := func(least int) bool {
		l := log()
		for k := least; k <= len(want) && k <= len(l); k++ {
			rest := append([]string(nil), l[k:]...)
			sort.Strings(rest)
			if equalStrings(l[:k], want[:k]) && equalStrings(rest, attached(k)) {
				return true
			}
		}
		return false
	}
	fail := func(what string) {
		c.Fatalf("callbacks", "%s: %s\npackets sent: %q\neffects: %q\ndue: %q", desc, what, sent, log(), want)
	}
	prefix := func() {
		l := log()
		for i := 0; i < len(l) && i < len(want); i++ {
			if l[i] != want[i] {
				fail(fmt.Sprintf("effect %d is %q, due is %q", i, l[i], want[i]))
			}
		}
		if len(l) > len(want) {
			fail("there are more effects than due")
		}
	}
	late := 0
	least := 0
	switch end {
	case finOwn, finOwnSoon:
		if end == finOwn {
			if !c.await(func() bool { return len(log()) >= len(want) && done(&wg) }, stallTime, stallSteps) {
				prefix()
				fail("some effects are missing")
			}
			prefix()
			least = len(want)
			for ; connected && late < nLate; late++ {
				var err error
				if !c.Within("emit-stall", "Emit returns", func() { err = cl.Emit("/", "m", 1, late) }) {
					panic(abort{})
				}
				if err != nil {
					c.Fatalf("emit", "Emit returns %v", err)
				}
			}
		}
		c.Within("close-stall", "Close returns", func() { cl.Close() })
		c.Stop()
	case finPacket, finFin:
		least = len(want)
	}
	c.MustAwait("stall", "the server's script ends", func() bool { return done(&wg) })
	if end != finDrop {
		c.MustAwait("peer-eof", "the client ends the connection: "+desc, p.Ended)
	}
	if !c.await(func() bool { return matches(least) }, stallTime, stallSteps) {
		fail(fmt.Sprintf("the connection has ended, and the effects are not the first ones due (at least %d) followed by the disconnects", least))
	}
	// what the client sent
	if end != finDrop {
		msgs := p.Msgs()
		var ps []SP
		if mp {
			ps, err = mpSplit(msgs)
		} else {
			ps, err = sioSplit(msgs)
		}
		if err != nil && err != errIncomplete {
			c.Fatalf("frames", "%s: the server received frames that are no packet sequence: %v", desc, err)
		}
		var acks []string
		n := map[string]int{}
		for _, x := range ps {
			switch x.Type {
			case 3:
				if x.ID != nil {
					acks = append(acks, fmt.Sprintf("%s %d %s", x.Nsp, *x.ID, renderWires(x.Args, mp)))
				}
			case 2:
				if len(x.Args) != 3 || x.Nsp != "/" {
					c.Fatalf("frames", "%s: the server received %v", desc, x)
				}
				k := fmt.Sprint(x.Args[1])
				if fmt.Sprint(x.Args[2]) != fmt.Sprint(n[k]) {
					c.Fatalf("emits", "%s: the server received emit %v of %s, after %d", desc, x.Args[2], k, n[k])
				}
				n[k]++
			}
		}
		if len(acks) > len(answers) || !equalStrings(acks, answers[:len(acks)]) {
			c.Fatalf("answers", "%s: the server received the acknowledgements %q, due were %q", desc, acks, answers)
		}
		if end == finOwn && (len(acks) < len(answers) || n["0"] != early || n["1"] != late) {
			c.Fatalf("flush", "%s: of the %d+%d emits and %d acknowledgements before Close the server received %d+%d and %d", desc, early, late, len(answers), n["0"], n["1"], len(acks))
		}
		c.Count("packets received by the server", len(ps))
		if end == finOwn {
			c.Count("emits flushed by Close", early+late)
		}
	}
	c.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
	if !c.await(func() bool { return matches(least) }, stallTime, stallSteps) { // an early Close does not wait for callbacks
		fail("effects after the end")
	}
	lg.mu.Lock()
	for k := range lg.all {
		if k != sid {
			c.Failf("sid", "in callbacks the sid is %q, announced was %q", k, sid)
		}
	}
	lg.mu.Unlock()
	c.Count("effects checked", len(log()))
	c.Count("ended by "+endNames19[end], 1)
	c.Sample(map[string]interface{}{"case": desc, "packets": sent, "delays": how})
	c.Sig("sio %s %q %x", desc, sent, interleaving())
}

func c19Engine(c *Ctx) {
	r := c.R
	how := c.Perturb("client.dialed", "client.reader.start", "client.reader.handle", "socket.close")
	open, sid := open19(r)
	var fs []EP
	var want []string
	for i := r.Intn(16); i > 0; i-- {
		switch r.Intn(5) {
		case 0:
			fs = append(fs, []EP{{Type: 6}, {Type: 3}, {Type: 3, Data: []byte("x")}, {Type: 5}}[r.Intn(4)])
		default:
			x := EP{Type: 4, Data: []byte(genStr(r))}
			if r.Intn(3) == 0 {
				x = bin18(genBytes(r, r.Intn(300)))
			}
			fs = append(fs, x)
			want = append(want, fmt.Sprintf("%v %x", x.Bin, x.Data))
		}
	}
	sc := genScript19(r, len(fs))
	end := r.Intn(ends19)
	desc := fmt.Sprintf("engine, %s, %v", endNames19[end], sc)
	lg := &log18{all: map[string][]string{}}
	addr, got := c.server19()
	q := genRequest19(r)
	var peer atomic.Pointer[peer19]
	var wg Group
	c.Go(&wg, func() {
		p := <-got
		peer.Store(p)
		sc.play(p, open, fs, p.endBy(end))
		if end >= finPacket {
			p.endAfter(end)
		}
	})
	nOpen, nLate := r.Intn(3), r.Intn(6)
	opens := 0
	var ended atomic.Int32
	var cl *engine.Client
	var err error
	onOpen := []func(*engine.Client){func(cl *engine.Client) {
		opens++
		if cl.Sid() != sid {
			c.Failf("sid", "in the open callback the sid is %q, announced was %q", cl.Sid(), sid)
		}
		cl.On(engine.EventMessage, engine.Callback(func(so *engine.Socket, t engine.MessageType, b []byte) {
			if ended.Load() > 0 {
				c.Failf("callbacks", "%s: a message after the close event", desc)
			}
			lg.add(so.Sid(), "%v %x", t == engine.MessageTypeBinary, b)
		}))
		cl.On(engine.EventClose, engine.Callback(func(*engine.Socket, engine.MessageType, []byte) { ended.Add(1) }))
	}}
	if r.Intn(2) == 0 {
		onOpen = append(onOpen, func(cl *engine.Client) {
			if opens++; opens != 2 {
				c.Failf("open", "open callbacks run out of order")
			}
			for i := 0; i < nOpen; i++ {
				if err := cl.Send([]byte(fmt.Sprint("o", i))); err != nil {
					c.Failf("emit", "Send in the open callback returns %v", err)
				}
			}
		})
	} else {
		nOpen = 0
	}
	if !c.Within("dial-stall", "Dial returns", func() { cl, err = engine.Dial(q.url(addr), q.hdr, engine.WebsocketTransport, onOpen...) }) {
		panic(abort{})
	}
	if err != nil {
		c.Fatalf("dial", "Dial fails: %v (%s; sid %q)", err, desc, sid)
	}
	c.Cleanup(func() { cl.Close() })
	if opens != len(onOpen) || cl.Sid() != sid {
		c.Fatalf("sid", "of %d open callbacks %d ran; the sid is %q, announced was %q", len(onOpen), opens, cl.Sid(), sid)
	}
	p := peer.Load()
	q.check(c, p.req)
	c.Stop()
	log := func() []string { return lg.get(sid) }
	all := func() bool { return len(log()) >= len(want) }
	late, least := 0, 0
	switch end {
	case finOwn, finOwnSoon:
		if end == finOwn {
			least = len(want)
			c.MustAwait("callbacks", "the messages sent arrive: "+desc, func() bool { return all() && done(&wg) })
			for ; late < nLate; late++ {
				var err error
				if !c.Within("emit-stall", "Send returns", func() { err = cl.Send([]byte(fmt.Sprint("l", late))) }) {
					panic(abort{})
				}
				if err != nil {
					c.Fatalf("emit", "Send returns %v", err)
				}
			}
		}
		c.Within("close-stall", "Close returns", func() { cl.Close() })
		c.Stop()
	case finPacket, finFin:
		least = len(want)
	}
	c.MustAwait("stall", "the server's script ends", func() bool { return done(&wg) })
	c.MustAwait("close-event", "the close event comes: "+desc, func() bool { return ended.Load() > 0 })
	if end != finDrop {
		c.MustAwait("peer-eof", "the client ends the connection: "+desc, p.Ended)
	}
	l := log()
	if len(l) < least || len(l) > len(want) || !equalStrings(l, want[:len(l)]) {
		c.Fatalf("callbacks", "%s: messages %q, sent were %q", desc, l, want)
	}
	if end == finOwn || end == finOwnSoon && sc.early == len(fs) && end != finDrop {
		n := map[byte]int{}
		for _, x := range p.Msgs() {
			k := x.Data[0]
			if string(x.Data[1:]) != fmt.Sprint(n[k]) {
				c.Fatalf("emits", "%s: the server received %q after %d", desc, x.Data, n[k])
			}
			n[k]++
		}
		if end == finOwn && (n['o'] != nOpen || n['l'] != late) {
			c.Fatalf("flush", "%s: of the %d+%d messages before Close the server received %d+%d", desc, nOpen, late, n['o'], n['l'])
		}
		c.Count("emits flushed by Close", nOpen+late)
	}
	c.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
	if k := ended.Load(); k != 1 {
		c.Fatalf("close-event", "%s: %d close events", desc, k)
	}
	c.Stop()
	c.Count("effects checked", len(l))
	c.Count("ended by "+endNames19[end], 1)
	c.Sample(map[string]interface{}{"case": desc, "messages": len(want), "delays": how})
	c.Sig("engine %s %d %x", desc, len(want), interleaving())
}

// c19Pair: the library's server emits as soon as a client is there.
func c19Pair(c *Ctx) {
	r := c.R
	how := c.Perturb("client.dial.engine", "client.dialed", "client.reader.start", "client.reader.handle", "client.process", "server.opened", "server.onopen", "emitter.submit", "socket.close")
	mp := r.Intn(3) == 0
	sv, err := socketio.NewServer(25*time.Second, 60*time.Second, parserOf(mp))
	c.Must(err, "socketio.NewServer")
	asks := r.Intn(3)
	k := asks + r.Intn(12)
	if asks > 0 {
		k++ // when the last event has come, those before it have been acknowledged
	}
	n := 1 + r.Intn(4)
	bySrv := r.Intn(2) == 0
	inConn := bySrv && r.Intn(3) == 0 // the server closes at once
	if inConn {
		asks = 0 // data to a closed connection may make the network discard what the client has not read
	}
	var mu sync.Mutex
	socks := map[string]socketio.Socket{}
	srvLog := map[string][]string{}
	discs := map[string]int{}
	sv.Namespace("/").OnConnect(func(so socketio.Socket) {
		mu.Lock()
		socks[so.Sid()] = so
		mu.Unlock()
		for i := 0; i < k; i++ {
			var err error
			if i < asks {
				err = so.Emit("m", so.Sid(), i, func(s string, j int) {
					mu.Lock()
					srvLog[so.Sid()] = append(srvLog[so.Sid()], fmt.Sprint("ack ", s, j))
					mu.Unlock()
				})
			} else {
				err = so.Emit("m", so.Sid(), i)
			}
			if err != nil {
				c.Failf("emit", "Emit in the connect callback returns %v", err)
			}
		}
		if inConn {
			so.Close()
		}
	}).OnDisconnect(func(so socketio.Socket) {
		mu.Lock()
		discs[so.Sid()]++
		mu.Unlock()
	}).OnEvent("c", func(so socketio.Socket, i int) {
		mu.Lock()
		srvLog[so.Sid()] = append(srvLog[so.Sid()], fmt.Sprint("c ", i))
		mu.Unlock()
	})
	f := c.Serve(sv)
	c.Cleanup(func() { sv.Close() })
	var wg Group
	descs := make([]string, n)
	for i := 0; i < n; i++ {
		i, rr := i, rand.New(rand.NewSource(r.Int63()))
		c.Go(&wg, func() {
			var lmu sync.Mutex
			var log []string
			get := func() []string {
				lmu.Lock()
				defer lmu.Unlock()
				return append([]string(nil), log...)
			}
			add := func(format string, a ...interface{}) {
				lmu.Lock()
				log = append(log, fmt.Sprintf(format, a...))
				lmu.Unlock()
			}
			cl := socketio.NewClient()
			cl.OnError(func(e interface{}) { add("top %v", e) })
			cl.Namespace("/").OnConnect(func(so socketio.Socket) { add("conn %s", so.Sid()) }).
				OnDisconnect(func(so socketio.Socket) { add("disc %s", so.Sid()) }).
				OnError(func(so socketio.Socket, e ...interface{}) {
					if !bySrv { // the server may be gone when events are acknowledged
						add("err %v", e)
					}
				}).
				OnEvent("m", func(sid string, k int) (string, int) { add("m %s %d", sid, k); return sid, k })
			q := genRequest19(rr)
			q.path = "/socket.io/"
			delete(q.hdr, "Origin")
			var err error
			c.Within("dial-stall", "Dial returns", func() {
				err = cl.Dial(q.url(f.Addr), q.hdr, socketio.WebsocketTransport, parserOf(mp))
			})
			if c.Failed() {
				return
			}
			if err != nil {
				c.Failf("dial", "Dial fails: %v", err)
				return
			}
			defer cl.Close()
			sid := cl.Sid()
			want := []string{"conn " + sid}
			for j := 0; j < k; j++ {
				want = append(want, fmt.Sprintf("m %s %d", sid, j))
			}
			if inConn {
				want = append(want, "disc "+sid)
			}
			if !c.await(func() bool { return len(get()) >= len(want) }, stallTime, stallSteps) || !equalStrings(get(), want) {
				c.Failf("callbacks", "callbacks of the client: %q, due %q", get(), want)
				return
			}
			late := 0
			if !inConn {
				for ; late < rr.Intn(6); late++ {
					if err := cl.Emit("/", "c", late); err != nil {
						c.Failf("emit", "Emit returns %v", err)
					}
				}
				if bySrv {
					var so socketio.Socket
					if !c.Await("connect", "the server's connect callback runs", func() bool {
						mu.Lock()
						defer mu.Unlock()
						so = socks[sid]
						return so != nil
					}) {
						return
					}
					so.Close()
				} else {
					c.Within("close-stall", "Close returns", func() { cl.Close() })
				}
				want = append(want, "disc "+sid)
			}
			if !c.await(func() bool { return len(get()) >= len(want) }, stallTime, stallSteps) || !equalStrings(get(), want) {
				c.Failf("callbacks", "when the connection has ended the callbacks of the client are %q, due %q", get(), want)
				return
			}
			c.Await("disconnect", "the server's disconnect callback runs", func() bool {
				mu.Lock()
				defer mu.Unlock()
				return discs[sid] == 1
			})
			if !bySrv {
				var exp []string
				for j := 0; j < asks && j < k; j++ {
					exp = append(exp, fmt.Sprint("ack ", sid, j))
				}
				for j := 0; j < late; j++ {
					exp = append(exp, fmt.Sprint("c ", j))
				}
				mu.Lock()
				got := append([]string(nil), srvLog[sid]...)
				mu.Unlock()
				if !equalStrings(got, exp) {
					c.Failf("flush", "before its Close the client answered and emitted %q, the server received %q", exp, got)
				}
				c.Count("emits flushed by Close", late)
			}
			c.Count("effects checked", len(want))
			descs[i] = fmt.Sprint(late, q.query)
		})
	}
	if !c.await(func() bool { return done(&wg) }, 4*stallTime, 4*stallSteps) && !c.Failed() {
		c.Failf("stall", "the connections do not end")
	}
	c.Stop()
	c.Count("pairs of the library's client and server", n)
	c.Sample(map[string]interface{}{"clients": n, "emits": k, "server closes": bySrv, "delays": how})
	c.Sig("pair %v %d %d %d %v %v %s %x", mp, k, asks, n, bySrv, inConn, descs, interleaving())
}
