package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand"
	randv2 "math/rand/v2"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/gorilla/websocket"
	"github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"
)

func init() {
	register(&Suite{ID: "C15", Race: true, Shards: 40, Quick: 900, Deep: 40000, MinNT: 500, Run: runC15,
		Rule: "workloads run under the race detector, distinct by workload, delays and the packets each peer saw, in order"})
}

// The race detector only reports conflicting accesses that nothing orders, and everything the harness synchronises
// orders accesses of the library too. So here nothing is recorded in callbacks, peers run freely on seeds of their own,
// and connections are mostly in memory: the read and write system calls of one process are all ordered.

func runC15(c *Ctx) {
	w := &work15{c: c, mp: c.R.Intn(3) == 0, desc: c.Perturb(), stop: make(chan struct{})}
	w.wg.Add(1)
	w.shared = []interface{}{"shared", map[string]interface{}{"k": []interface{}{"v", 1.5}, "t": "é"}, []interface{}{true, "x"}}
	if w.mp {
		w.shared = append(w.shared, []byte("shared bytes"))
	} else {
		w.shared = append(w.shared, &socketio.Bytes{Data: []byte("shared bytes")}, socketio.Bytes{Data: []byte("more")})
	}
	w.iv, w.to = 250*time.Millisecond, 250*time.Millisecond // ends what is left behind soon
	if c.R.Intn(4) == 0 {
		w.iv, w.to = 30*time.Millisecond, 400*time.Millisecond
	}
	w.big = c.R.Intn(6) == 0
	switch k := c.R.Intn(20); {
	case k < 8:
		w.sioServer()
	case k < 13:
		w.engineServer()
	case k < 16:
		w.client()
	case k < 19:
		w.both()
	default:
		w.conns()
	}
	w.finish()
}

type work15 struct {
	c      *Ctx
	mp     bool
	big    bool
	desc   string
	kind   string
	iv, to time.Duration
	shared []interface{}
	wg     sync.WaitGroup // callers on the library's end
	pwg    sync.WaitGroup // peers
	stop   chan struct{}
	net    *net15
	peers  []*peer15
	calls  atomic.Int64 // added to once per goroutine, at its end
}

// net15 is an HTTP server of its own: the usual guard counts requests, which would order them.
type net15 struct {
	addr string
	pipe *pipeListener
	hs   *http.Server
}

func (w *work15) serve(h http.Handler, pipe bool) *net15 {
	n := &net15{addr: "pipe", hs: &http.Server{Handler: h, ErrorLog: log.New(io.Discard, "", 0)}}
	if pipe {
		n.pipe = newPipeListener()
		go n.hs.Serve(n.pipe)
	} else {
		l, err := listen()
		w.c.Must(err, "listen")
		n.addr = l.Addr().String()
		go n.hs.Serve(l)
	}
	w.net = n
	return n
}

func (n *net15) close() {
	n.hs.Close()
	if n.pipe == nil {
		return
	}
	n.pipe.Close()
	n.pipe.mu.Lock()
	defer n.pipe.mu.Unlock()
	for _, x := range n.pipe.all {
		x.Close()
	}
}

func (n *net15) ws(query string, hdr http.Header) (*websocket.Conn, error) {
	d := websocket.Dialer{HandshakeTimeout: 30 * time.Second}
	if n.pipe != nil {
		d.NetDial = func(string, string) (net.Conn, error) { return n.pipe.Dial() }
	}
	conn, _, err := d.Dial("ws://"+n.addr+"/socket.io/?EIO=3&transport=websocket"+query, hdr)
	return conn, err
}

// poller makes requests; each user has its own, as they share no memory in reality.
func (n *net15) poller(mode int, sid string) *Poll {
	p := newPoll(n.addr, mode, http.Header{"X-Peer": {"poll"}})
	p.Open.SID = sid
	if n.pipe != nil {
		p.tr.DialContext = func(context.Context, string, string) (net.Conn, error) { return n.pipe.Dial() }
	}
	return p
}

// spawn runs f on a goroutine the case waits for; it returns the number of calls it made.
func (w *work15) spawn(f func() int) {
	w.wg.Add(1)
	go func() {
		defer w.wg.Done()
		w.calls.Add(int64(f()))
	}()
}

func (w *work15) finish() {
	c := w.c
	until := func(what string, f func()) bool {
		done := make(chan struct{})
		go func() { f(); close(done) }()
		select {
		case <-done:
			return true
		case <-time.After(60 * time.Second):
			c.Inconclusive("%s do not end\n%s", what, libStacks())
		}
		return false
	}
	until("peers", w.pwg.Wait)
	close(w.stop)
	if w.net != nil {
		w.net.close()
	}
	for i := 0; i < 100 && len(libGoroutines()) > 0; i++ { // late callbacks may still add callers
		time.Sleep(15 * time.Millisecond)
	}
	w.wg.Done()
	until("callers", w.wg.Wait)
	h := fnv.New64a()
	n := 0
	for _, p := range w.peers {
		h.Write(p.seen)
		h.Write([]byte{255})
		n += len(p.seen)
		c.Count("packets sent by peers", p.sent)
		for k, v := range p.did {
			c.Count("peer: "+k, v)
		}
	}
	c.Count("packets received by peers", n)
	c.Count("public calls", int(w.calls.Load()))
	c.Count("cases "+w.kind, 1)
	if n > 0 && w.calls.Load() > 0 {
		c.Sig("%s %v %s %x", w.kind, w.mp, w.desc, h.Sum64())
	}
	c.Sample(map[string]interface{}{"kind": w.kind, "msgpack": w.mp, "delays": w.desc, "peers": len(w.peers), "packets received": n, "calls": w.calls.Load()})
}

// peer15 is a raw peer; the fields are used by one goroutine at a time.
type peer15 struct {
	w    *work15
	r    *rand.Rand
	sio  bool
	seen []byte
	sent int
	did  map[string]int
	sid  string
}

func (w *work15) peer(sio bool) *peer15 {
	p := &peer15{w: w, r: rand.New(rand.NewSource(w.c.R.Int63())), sio: sio, did: map[string]int{}}
	w.peers = append(w.peers, p)
	return p
}

func nap(r *rand.Rand) {
	switch r.Intn(4) {
	case 0:
		time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
	case 1:
		time.Sleep(time.Duration(r.Intn(80)) * time.Microsecond)
	}
}

func doze() {
	switch randv2.IntN(5) {
	case 0:
		time.Sleep(time.Duration(randv2.IntN(1200)) * time.Microsecond)
	case 1:
		time.Sleep(time.Duration(randv2.IntN(60)) * time.Microsecond)
	}
}

// packets are what a peer says next.
func (p *peer15) packets() []EP {
	r := p.r
	switch r.Intn(12) {
	case 0:
		return []EP{{Type: 2, Data: []byte("ping")}}
	case 1:
		return []EP{{Type: []byte{1, 3, 6, 5, 0, 4}[1+r.Intn(5)], Data: []byte("?")}}
	}
	if !p.sio {
		if r.Intn(2) == 0 {
			return []EP{{Type: 4, Bin: true, Data: genBytes(r, r.Intn(60))}}
		}
		return []EP{{Type: 4, Data: []byte(genText(r, r.Intn(60)))}}
	}
	nsp := []string{"/", "/", "/a", "/zz"}[r.Intn(4)]
	s := SP{Nsp: nsp}
	var id *uint64
	if r.Intn(2) == 0 {
		id = uid(uint64(r.Intn(9)))
	}
	size := 20
	if p.w.big && r.Intn(4) == 0 {
		size = 9000
	}
	switch k := r.Intn(16); {
	case k < 3:
		s.Type, s.ID, s.Args = 2, id, []interface{}{"e", genText(r, size), map[string]interface{}{"a": 1.5, "b": []interface{}{"x"}}}
	case k < 6:
		s.Type, s.ID, s.Args = 5, id, []interface{}{"b", "x", genBytes(r, size)}
	case k < 9: // guessed ids: the answer to one of the latest emits, or none
		s.Type, s.ID, s.Args = 3, uid(uint64(1+r.Intn(12))), []interface{}{"ok"}
	case k < 11:
		s.Type, s.ID, s.Args = 6, uid(uint64(1+r.Intn(12))), []interface{}{genBytes(r, 12)}
	case k < 13:
		s.Type = 0
	case k < 14:
		s.Type = 1
	case k < 15:
		s.Type, s.Data = 4, "oops"
	default:
		bad := []string{"", "9", "2[", "2", "51-[\"e\",{\"_placeholder\":true,\"num\":7}]", "3/a,1[}", "2[1]"}
		return []EP{{Type: 4, Data: []byte(bad[r.Intn(len(bad))])}, {Type: 4, Bin: true, Data: []byte("stray")}}
	}
	if p.w.mp {
		if s.Type > 4 {
			s.Type -= 3
		}
		return mpFrames(s)
	}
	t, att := encSIO(s)
	out := []EP{{Type: 4, Data: []byte(t)}}
	for _, a := range att {
		out = append(out, EP{Type: 4, Bin: true, Data: a})
	}
	return out
}

func wsSend(conn *websocket.Conn, x EP) error {
	if x.Bin {
		return conn.WriteMessage(websocket.BinaryMessage, append([]byte{x.Type}, x.Data...))
	}
	return conn.WriteMessage(websocket.TextMessage, append([]byte{x.Type + '0'}, x.Data...))
}

func (p *peer15) saw(x EP) {
	if len(p.seen) < 1<<16 {
		b := x.Type
		if x.Bin {
			b += 8
		}
		if p.sio && x.Type == 4 && !x.Bin && len(x.Data) > 0 {
			b = x.Data[0]
		}
		p.seen = append(p.seen, b)
	}
}

// wsSession speaks on conn until it has said enough or the connection ends. It reads on a goroutine of its own, which
// only tells it the end.
func (p *peer15) wsSession(conn *websocket.Conn, n int, first ...EP) {
	ended := make(chan struct{})
	rd := &peer15{sio: p.sio}
	go func() {
		defer close(ended)
		for {
			t, b, err := conn.ReadMessage()
			if err != nil {
				return
			}
			if x, err := wsPacket(t, b); err == nil {
				rd.saw(x)
			}
		}
	}()
	func() {
		for _, x := range first {
			if wsSend(conn, x) != nil {
				return
			}
		}
		for i := 0; i < n; i++ {
			for _, x := range p.packets() {
				if wsSend(conn, x) != nil {
					return
				}
				p.sent++
			}
			nap(p.r)
			select {
			case <-ended:
				return
			default:
			}
		}
	}()
	switch p.r.Intn(4) {
	case 0:
		p.did["sends close"]++
		wsSend(conn, EP{Type: 1})
		select {
		case <-ended:
		case <-time.After(200 * time.Millisecond):
		}
	case 1: // stays to listen
		select {
		case <-ended:
		case <-time.After(time.Duration(p.r.Intn(60)) * time.Millisecond):
		}
	}
	conn.Close()
	<-ended
	p.seen = append(p.seen, rd.seen...)
}

func (p *peer15) viaWS(n int) {
	conn, err := p.w.net.ws("", http.Header{"X-Peer": {"ws"}})
	if err != nil {
		return
	}
	p.did["websocket session"]++
	p.wsSession(conn, n)
}

func (p *peer15) viaPolling(n int, upgrade bool) {
	nw := p.w.net
	mode := p.r.Intn(3)
	get := nw.poller(mode, "")
	defer get.Close()
	ps, err := get.get(context.Background())
	if err != nil || len(ps) == 0 || json.Unmarshal(ps[0].Data, &get.Open) != nil || get.Open.SID == "" {
		return
	}
	sid := get.Open.SID
	p.did["polling session"]++
	stop := make(chan struct{})
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	rd := &peer15{sio: p.sio}
	var wg sync.WaitGroup
	poll := func(g *Poll, rd *peer15) {
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			ps, err := g.get(ctx)
			if err != nil {
				return
			}
			for _, x := range ps {
				rd.saw(x)
			}
		}
	}
	wg.Add(1)
	go poll(get, rd)
	if p.r.Intn(6) == 0 { // ill-behaved: more than one poll at a time
		p.did["parallel polls"]++
		g := nw.poller(mode, sid)
		defer g.Close()
		wg.Add(1)
		go poll(g, &peer15{sio: p.sio})
	}
	posters := 1
	if p.r.Intn(5) == 0 {
		posters = 2
		p.did["parallel posts"]++
	}
	var pg sync.WaitGroup
	for k := 0; k < posters; k++ {
		q := &peer15{w: p.w, r: rand.New(rand.NewSource(p.r.Int63())), sio: p.sio}
		post := nw.poller(mode, sid)
		defer post.Close()
		pg.Add(1)
		go func() {
			defer pg.Done()
			for i := 0; i < n; i++ {
				var l []EP
				for j := q.r.Intn(3); j >= 0; j-- {
					l = append(l, q.packets()...)
				}
				code, err := post.Post(l, q.r.Intn(2) == 0, nil)
				if err != nil || code == 400 || code == 404 {
					return
				}
				nap(q.r)
			}
		}()
	}
	if upgrade {
		nap(p.r)
		time.Sleep(time.Duration(p.r.Intn(8)) * time.Millisecond)
		if conn, err := nw.ws("&sid="+url.QueryEscape(sid), http.Header{"X-Up": {"1"}}); err == nil {
			p.did["upgrade begun"]++
			p.upgrade(conn, stop, &wg, &pg, n)
		}
	}
	pg.Wait()
	switch p.r.Intn(3) {
	case 0:
		p.did["sends close"]++
		post := nw.poller(mode, sid)
		post.Post([]EP{{Type: 1}}, false, nil)
		post.Close()
	case 1:
		time.Sleep(time.Duration(p.r.Intn(40)) * time.Millisecond)
	}
	cancel()
	select {
	case <-stop:
	default:
		close(stop)
	}
	wg.Wait()
	p.seen = append(p.seen, rd.seen...)
}

func (p *peer15) upgrade(conn *websocket.Conn, stop chan struct{}, wg, pg *sync.WaitGroup, n int) {
	defer conn.Close()
	conn.SetReadDeadline(time.Now().Add(10 * time.Second))
	if p.r.Intn(8) == 0 || wsSend(conn, EP{Type: 2, Data: []byte("probe")}) != nil {
		return
	}
	if _, _, err := conn.ReadMessage(); err != nil {
		return
	}
	switch p.r.Intn(8) {
	case 0:
		p.did["upgrade abandoned"]++
		return
	case 1:
		p.did["upgrade botched"]++
		wsSend(conn, EP{Type: 4, Data: []byte("no")})
		return
	case 2: // posts go on during the switch
	default:
		close(stop)
		wg.Wait()
		pg.Wait()
	}
	if wsSend(conn, EP{Type: 5}) != nil {
		return
	}
	p.did["upgrade confirmed"]++
	conn.SetReadDeadline(time.Time{})
	p.wsSession(conn, n)
}

// stray makes requests that belong to no session, or to another's.
func (p *peer15) stray(n int) {
	for i := 0; i < n; i++ {
		q := p.w.net.poller(p.r.Intn(2), "")
		switch p.r.Intn(4) {
		case 0:
			q.Open.SID = "nobody"
			q.get(context.Background())
		case 1:
			q.Open.SID = "nobody"
			q.Post([]EP{{Type: 4, Data: []byte("x")}}, false, nil)
		case 2:
			if conn, err := p.w.net.ws("&sid=nobody", nil); err == nil {
				conn.Close()
			}
		case 3: // a handshake nobody goes on with
			q.get(context.Background())
		}
		q.Close()
		p.did["stray request"]++
		nap(p.r)
	}
}

// crowd runs peers against w.net.
func (w *work15) crowd(sio bool) {
	c := w.c
	for k := 2 + c.R.Intn(4); k > 0; k-- {
		p := w.peer(sio)
		how, n := c.R.Intn(8), 3+c.R.Intn(14)
		late := time.Duration(0)
		if c.R.Intn(3) == 0 {
			late = time.Duration(c.R.Intn(12)) * time.Millisecond
		}
		w.pwg.Add(1)
		go func() {
			defer w.pwg.Done()
			time.Sleep(late)
			switch {
			case how < 3:
				p.viaWS(n)
			case how < 5:
				p.viaPolling(n, false)
			case how < 7:
				p.viaPolling(n, true)
			default:
				p.stray(n)
			}
		}()
	}
}

// closeSome closes the server while it is in use, from several goroutines.
func (w *work15) closeSome(f func() error) {
	c := w.c
	if c.R.Intn(3) > 0 {
		w.spawn(func() int { <-w.stop; f(); return 1 })
		return
	}
	d := time.Duration(c.R.Intn(40)) * time.Millisecond
	for k := 1 + c.R.Intn(2); k >= 0; k-- {
		w.spawn(func() int { time.Sleep(d); f(); return 1 })
	}
}

// use makes public calls on a socket.
func (w *work15) use(so socketio.Socket, n int, mayClose bool) (calls int) {
	buf := []byte("buffer of the caller")
	for i := 0; i < n; i++ {
		select {
		case <-w.stop:
			return
		default:
		}
		calls++
		switch randv2.IntN(14) {
		case 0:
			so.Emit("e", "text", i, w.shared[1])
		case 1:
			so.Emit("all", w.shared...)
		case 2, 3:
			m := map[string]interface{}{"i": "x"}
			l := []interface{}{m, "y"}
			if w.mp {
				so.Emit("b", buf, l, m)
			} else {
				so.Emit("b", socketio.Bytes{Data: buf}, l, &socketio.Bytes{Data: buf}, m)
			}
			for j := range buf { // the caller's again
				buf[j]++
			}
			m["i"], l[1] = "z", "w"
		case 4:
			got := 0
			so.Emit("k", "text", func(s string) { got++ })
		case 5:
			if w.mp {
				so.Emit("k", func(so socketio.Socket, b []byte) { scribble(b); so.Emit("e", b) })
			} else {
				so.Emit("k", func(so socketio.Socket, b *socketio.Bytes) { scribble(b.Data); so.Emit("e", b) })
			}
		case 6:
			so.EmitError(w.shared[1])
		case 7:
			so.EmitError("failed")
		case 8:
			_ = so.GetHeader("User-Agent") + so.GetHeader("X-Peer") + so.GetHeader("X-0")
		case 9:
			so.SetHeader(fmt.Sprintf("X-%d", randv2.IntN(3)), fmt.Sprint(i))
		case 10:
			if a := so.LocalAddr(); a != nil {
				_ = a.String() + a.Network()
			}
		case 11:
			if a := so.RemoteAddr(); a != nil {
				_ = a.String() + a.Network()
			}
		case 12:
			_ = so.Sid() + so.Namespace()
		case 13:
			if mayClose && randv2.IntN(12) == 0 {
				so.Close()
			}
		}
		doze()
	}
	return
}

func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0x55
	}
}

// handlers registers callbacks that use their sockets, in place and on goroutines of their own.
func (w *work15) handlers(n socketio.Namespace) {
	more := func(so socketio.Socket) {
		switch randv2.IntN(8) {
		case 0:
			w.spawn(func() int { return w.use(so, 3, true) })
		case 1, 2:
			w.use(so, 1, false)
		}
	}
	n.OnConnect(func(so socketio.Socket) {
		for k := randv2.IntN(3); k >= 0; k-- {
			w.spawn(func() int { return w.use(so, 12, true) })
		}
		w.use(so, 2, false)
	}).OnDisconnect(func(so socketio.Socket) {
		w.use(so, 3, false)
	}).OnError(func(so socketio.Socket, e ...interface{}) {
		for _, x := range e {
			if m, ok := x.(map[string]interface{}); ok {
				m["seen"] = true
			}
		}
		more(so)
	}).OnEvent("e", func(so socketio.Socket, s string, m map[string]interface{}) (string, map[string]interface{}, interface{}) {
		if m != nil {
			m["mine"] = s
		}
		more(so)
		return s, m, w.shared[1]
	})
	if w.mp {
		n.OnEvent("b", func(so socketio.Socket, s string, b []byte) []byte {
			w.keep(b)
			more(so)
			return []byte(s)
		})
		return
	}
	n.OnEvent("b", func(so socketio.Socket, s string, b socketio.Bytes) (socketio.Bytes, *socketio.Bytes) {
		w.keep(b.Data)
		more(so)
		return socketio.Bytes{Data: []byte(s)}, w.shared[3].(*socketio.Bytes)
	})
}

// keep keeps what a callback was given, and writes to it, after the callback has returned.
func (w *work15) keep(b []byte) {
	scribble(b)
	if randv2.IntN(4) == 0 {
		w.spawn(func() int { doze(); scribble(b); return 0 })
	}
}

func (w *work15) sioServer() {
	w.kind = "socketio server"
	c := w.c
	sv, err := socketio.NewServer(w.iv, w.to, parserOf(w.mp))
	c.Must(err, "socketio.NewServer")
	sv.OnError(func(e error) { _ = e.Error() })
	if c.R.Intn(4) > 0 { // "/" always exists
		w.handlers(sv.Namespace("/"))
	}
	w.handlers(sv.Namespace("/a"))
	w.serve(sv, c.R.Intn(4) > 0)
	w.closeSome(sv.Close)
	w.crowd(true)
}

func (w *work15) useEngine(so *engine.Socket, closer io.Closer, n int) (calls int) {
	buf := []byte("buffer of the caller")
	for i := 0; i < n; i++ {
		select {
		case <-w.stop:
			return
		default:
		}
		calls++
		switch randv2.IntN(12) {
		case 0:
			so.Send("text")
		case 1:
			so.Send(w.shared[1])
		case 2, 3:
			so.Emit(engine.EventMessage, engine.MessageTypeBinary, buf)
			scribble(buf)
		case 4:
			so.Emit(engine.EventMessage, engine.MessageTypeString, buf)
			scribble(buf)
		case 5:
			so.Emit(engine.EventPing, engine.MessageTypeString, "p")
		case 6:
			_ = so.GetHeader("User-Agent") + so.GetHeader("X-1")
		case 7:
			so.SetHeader(fmt.Sprintf("X-%d", randv2.IntN(3)), fmt.Sprint(i))
		case 8:
			_ = so.LocalAddr().String()
		case 9:
			_ = so.RemoteAddr().String()
		case 10:
			_ = so.Sid()
		case 11:
			if randv2.IntN(10) == 0 {
				closer.Close()
			}
		}
		doze()
	}
	return
}

func (w *work15) engineServer() {
	w.kind = "engine server"
	c := w.c
	sv, err := engine.NewServer(w.iv, w.to, func(so *engine.Socket) {
		for k := randv2.IntN(3); k >= 0; k-- {
			w.spawn(func() int { return w.useEngine(so, so, 12) })
		}
		w.useEngine(so, so, 2)
	})
	c.Must(err, "engine.NewServer")
	on := func(ev int) {
		switch ev {
		case 0:
			sv.On(engine.EventMessage, engine.Callback(func(so *engine.Socket, t engine.MessageType, b []byte) {
				so.Emit(engine.EventMessage, t, b)
				scribble(b)
				w.useEngine(so, so, 1)
			}))
		case 1:
			sv.On(engine.EventPing, engine.Callback(func(so *engine.Socket, t engine.MessageType, b []byte) { w.useEngine(so, so, 1) }))
		case 2:
			sv.On(engine.EventClose, engine.Callback(func(so *engine.Socket, t engine.MessageType, b []byte) { w.useEngine(so, so, 2) }))
		case 3:
			sv.On(engine.EventUpgrade, engine.Callback(func(so *engine.Socket, t engine.MessageType, b []byte) { w.useEngine(so, so, 2) }))
		}
	}
	for i := 0; i < 4; i++ {
		on(i)
	}
	w.serve(sv, c.R.Intn(4) > 0)
	w.closeSome(sv.Close)
	if c.R.Intn(2) == 0 { // handlers of an engine server may be registered at any time
		w.spawn(func() (n int) {
			for ; n < 10; n++ {
				on(randv2.IntN(4))
				doze()
			}
			return
		})
	}
	w.crowd(false)
}

// dialer15 makes the engine's websocket connection over a connection in memory: the library's own, accepted from the
// raw peer.
type dialer15 struct{ conn net.Conn }

func (d dialer15) Dial(string, http.Header) (engine.Conn, error) {
	br := bufio.NewReader(d.conn)
	req, err := http.ReadRequest(br)
	if err != nil {
		return nil, err
	}
	sv, err := accepted.Accept(&hijack{conn: d.conn, br: br, h: http.Header{}}, req)
	return sv, err
}

var accepted engine.Acceptor = engine.WebsocketTransport

// client runs clients of the library against raw peers.
func (w *work15) client() {
	w.kind = "clients"
	c := w.c
	for k := 1 + c.R.Intn(3); k > 0; k-- {
		sio := c.R.Intn(3) > 0
		p := w.peer(sio)
		n := 4 + c.R.Intn(16)
		a, b := net.Pipe()
		connect := EP{Type: 6}
		if sio {
			connect = EP{Type: 4, Data: []byte("0")}
			if w.mp {
				connect = mpFrames(SP{Type: 0})[0]
			}
		}
		w.pwg.Add(1)
		go func() { // the peer
			defer w.pwg.Done()
			defer a.Close()
			d := websocket.Dialer{NetDial: func(string, string) (net.Conn, error) { return a, nil }}
			conn, _, err := d.Dial("ws://pipe/", nil)
			if err != nil {
				return
			}
			p.did["client session"]++
			p.wsSession(conn, n, openPacket("client", int(w.iv/time.Millisecond), int(w.to/time.Millisecond)), connect)
		}()
		if sio {
			w.spawn(func() int { return w.dialSio("ws://pipe/", nil, dialer15{b}) })
		} else {
			w.spawn(func() int { return w.dialEngine("ws://pipe/", nil, dialer15{b}) })
		}
	}
}

func (w *work15) dialSio(u string, h http.Header, d engine.Dialer) (calls int) {
	cli := socketio.NewClient()
	cli.OnError(func(e interface{}) { _ = fmt.Sprint(e) })
	w.handlers(cli.Namespace("/"))
	w.handlers(cli.Namespace("/a"))
	if err := cli.Dial(u, h, d, parserOf(w.mp)); err != nil {
		return 1
	}
	for k := randv2.IntN(3); k > 0; k-- {
		w.spawn(func() int { return w.use(cliSocket{cli}, 10, true) })
	}
	calls = w.use(cliSocket{cli}, 10, true)
	if randv2.IntN(2) == 0 {
		cli.Close()
	}
	return
}

// cliSocket is a client as a socket of "/".
type cliSocket struct{ *socketio.Client }

func (c cliSocket) Emit(event string, args ...interface{}) error {
	return c.Client.Emit("/", event, args...)
}
func (c cliSocket) Namespace() string { return "/" }

var _ socketio.Socket = cliSocket{}

func (w *work15) dialEngine(u string, h http.Header, d engine.Dialer) (calls int) {
	cli, err := engine.Dial(u, h, d)
	if err != nil {
		return 1
	}
	on := func(ev int) {
		switch ev {
		case 0:
			cli.On(engine.EventMessage, engine.Callback(func(so *engine.Socket, t engine.MessageType, b []byte) {
				so.Emit(engine.EventMessage, t, b)
				scribble(b)
			}))
		case 1:
			cli.On(engine.EventClose, engine.Callback(func(so *engine.Socket, t engine.MessageType, b []byte) { w.useEngine(so, cli, 2) }))
		}
	}
	on(0)
	on(1)
	for k := randv2.IntN(3); k > 0; k-- {
		w.spawn(func() int { return w.useEngine(cli.Socket, cli, 10) })
	}
	calls = w.useEngine(cli.Socket, cli, 10)
	on(randv2.IntN(2))
	if randv2.IntN(2) == 0 {
		cli.Close()
	}
	return
}

// both runs clients of the library against servers of the library, over the network, with raw peers beside them.
func (w *work15) both() {
	w.kind = "both ends"
	c := w.c
	sio := c.R.Intn(3) > 0
	var sv http.Handler
	if sio {
		s, err := socketio.NewServer(w.iv, w.to, parserOf(w.mp))
		c.Must(err, "socketio.NewServer")
		w.handlers(s.Namespace("/"))
		w.handlers(s.Namespace("/a"))
		w.closeSome(s.Close)
		sv = s
	} else {
		s, err := engine.NewServer(w.iv, w.to, func(so *engine.Socket) {
			w.spawn(func() int { return w.useEngine(so, so, 10) })
		})
		c.Must(err, "engine.NewServer")
		s.On(engine.EventMessage, engine.Callback(func(so *engine.Socket, t engine.MessageType, b []byte) { scribble(b) }))
		w.closeSome(s.Close)
		sv = s
	}
	w.serve(sv, false)
	u := "ws://" + w.net.addr + "/socket.io/"
	h := http.Header{"X-Shared": {"a", "b"}} // the same for all
	for k := 2 + c.R.Intn(3); k > 0; k-- {
		if sio {
			w.spawn(func() int { return w.dialSio(u, h, socketio.WebsocketTransport) })
		} else {
			w.spawn(func() int { return w.dialEngine(u, h, engine.WebsocketTransport) })
		}
	}
	p := w.peer(sio)
	n := 8 + c.R.Intn(10)
	w.pwg.Add(1)
	go func() {
		defer w.pwg.Done()
		p.viaWS(n)
		time.Sleep(time.Duration(p.r.Intn(30)) * time.Millisecond)
	}()
}

// conns uses the transports by themselves.
func (w *work15) conns() {
	w.kind = "transports"
	w.serve(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		a := engine.PollingAcceptor
		if strings.Contains(r.URL.RawQuery, "websocket") {
			a = engine.WebsocketTransport
		}
		conn, err := a.Accept(rw, r)
		if err != nil {
			return
		}
		defer conn.Close()
		if a == engine.PollingAcceptor {
			_ = conn.LocalAddr().String() + conn.RemoteAddr().String()
			return
		}
		for {
			p, err := conn.ReadPacket()
			if err != nil {
				return
			}
			if conn.SetWriteDeadline(time.Now().Add(time.Second)) != nil || conn.WritePacket(p) != nil {
				return
			}
		}
	}), true)
	w.calls.Add(1)
	for k := 3; k > 0; k-- {
		p := w.peer(false)
		w.pwg.Add(1)
		go func() {
			defer w.pwg.Done()
			if p.r.Intn(4) == 0 {
				p.stray(3)
			} else {
				p.viaWS(6)
			}
		}()
	}
}
