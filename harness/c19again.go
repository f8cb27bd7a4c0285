package main

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zyxar/socketio"
)

// c19Again: one Client dials again and again, sometimes in vain; each connection is a connection of its own.
func c19Again(c *Ctx) {
	r := c.R
	how := c.Perturb("client.dial.engine", "client.dialed", "client.reader.start", "client.reader.handle", "client.process")
	mp := r.Intn(3) == 0
	var mu sync.Mutex
	var log []string // of the connection there is
	add := func(format string, a ...interface{}) {
		mu.Lock()
		log = append(log, fmt.Sprintf(format, a...))
		mu.Unlock()
	}
	logged := func() []string {
		mu.Lock()
		defer mu.Unlock()
		return append([]string(nil), log...)
	}
	past := map[string]int{} // disconnects of connections that need not have ended when the next is made, by sid and namespace
	isPast := map[string]bool{}
	var gate chan func() // served by the next disconnect callback
	var serving atomic.Bool
	cl := socketio.NewClient()
	cl.OnError(func(e interface{}) { add("error %v", e) })
	for _, n := range []string{"/", "/a"} {
		n := n
		cl.Namespace(n).OnConnect(func(so socketio.Socket) {
			add("connect %s %s %s", so.Sid(), cl.Sid(), n)
			if n == "/" {
				so.Emit("hello", so.Sid())
			}
		}).OnDisconnect(func(so socketio.Socket) {
			mu.Lock()
			if isPast[so.Sid()] {
				past[so.Sid()+" "+n]++
			} else {
				log = append(log, fmt.Sprintf("disconnect %s %s", so.Sid(), n))
			}
			g := gate
			gate = nil
			mu.Unlock()
			if g != nil {
				serving.Store(true)
				for f := range g {
					f()
				}
			}
		}).OnEvent("e", func(so socketio.Socket, tag string) string {
			add("event %s %s %s", so.Sid(), so.Namespace(), tag)
			return tag
		}).OnError(func(so socketio.Socket, e ...interface{}) { add("error %s %s %v", so.Sid(), n, e) })
	}
	n, sent := 2+r.Intn(4), []string{}
	wantPast := map[string]int{}
	var in chan func() // of a disconnect callback that is running
	run := func(f func()) {
		if in == nil {
			f()
			return
		}
		done := make(chan struct{})
		in <- func() { f(); close(done) }
		<-done
	}
	for i := 0; i < n; i++ {
		for r.Intn(3) == 0 { // in vain
			kind := r.Intn(4)
			var addr string
			switch kind {
			case 0: // nobody there
				l, err := listen()
				c.Must(err, "listen")
				addr = l.Addr().String()
				l.Close()
			case 1:
				s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, _ *http.Request) { http.Error(w, "no", http.StatusForbidden) }))
				addr = s.Listener.Addr().String()
				c.Cleanup(s.Close)
			default:
				a, got := c.server19()
				addr = a
				go func() {
					p := <-got
					switch kind {
					case 2:
						p.Send(EP{Type: 4, Data: []byte("0")})
						p.k.release(nil, nil)
					default:
						p.k.release(nil, nil)
						p.k.Conn.Close()
					}
				}()
			}
			var err error
			if !c.Within("dial-stall", "Dial returns", func() {
				run(func() { err = cl.Dial("ws://"+addr+"/socket.io/", nil, socketio.WebsocketTransport, parserOf(mp)) })
			}) {
				panic(abort{})
			}
			if err == nil {
				c.Fatalf("dial", "Dial succeeds without a handshake (%d)", kind)
			}
			if l := logged(); i > 0 && len(l) > 0 {
				c.Fatalf("vain", "an attempt in vain makes callbacks run: %q", l)
			}
			sent = append(sent, fmt.Sprint("in vain ", kind))
			c.Count("dials in vain", 1)
		}
		addr, got := c.server19()
		sid := fmt.Sprint("sid", i)
		fs := spell(SP{Type: 0, Nsp: "/"}, mp, r)
		want := []string{fmt.Sprintf("connect %s %s /", sid, sid)}
		nsps := []string{"/"}
		if r.Intn(2) == 0 {
			fs = append(fs, spell(SP{Type: 0, Nsp: "/a"}, mp, r)...)
			want = append(want, fmt.Sprintf("connect %s %s /a", sid, sid))
			nsps = append(nsps, "/a")
		}
		var acks []string
		for j := r.Intn(6); j >= 0; j-- {
			tag, nsp := fmt.Sprint(i, ".", j), nsps[r.Intn(len(nsps))]
			p := SP{Type: 2, Nsp: nsp, Args: []interface{}{"e", tag}}
			if r.Intn(2) == 0 {
				p.ID = uid(uint64(j))
				acks = append(acks, fmt.Sprintf("%s %d %s", nsp, j, tag))
			}
			fs = append(fs, spell(p, mp, r)...)
			want = append(want, fmt.Sprintf("event %s %s %s", sid, nsp, tag))
		}
		if len(nsps) == 1 && r.Intn(2) == 0 { // joined before, not now
			fs = append(fs, spell(SP{Type: 2, Nsp: "/a", Args: []interface{}{"e", "stray"}}, mp, r)...)
		}
		sc := genScript19(r, len(fs))
		sent = append(sent, fmt.Sprint(len(fs), sc))
		var peer *peer19
		var wg Group
		c.Go(&wg, func() {
			p := <-got
			mu.Lock()
			peer = p
			mu.Unlock()
			sc.play(p, openPacket(sid, 25000, 60000), fs, nil)
		})
		var err error
		if !c.Within("dial-stall", "Dial returns", func() {
			run(func() { err = cl.Dial("ws://"+addr+"/socket.io/", nil, socketio.WebsocketTransport, parserOf(mp)) })
		}) {
			panic(abort{})
		}
		if err != nil {
			c.Fatalf("dial", "Dial %d fails: %v", i, err)
		}
		if in != nil {
			close(in)
			in = nil
		}
		if g := cl.Sid(); g != sid {
			c.Fatalf("sid", "the client's sid is %q, announced was %q", g, sid)
		}
		if !c.await(func() bool { return len(logged()) >= len(want) && done(&wg) }, stallTime, stallSteps) || !equalStrings(logged(), want) {
			c.Fatalf("callbacks", "connection %d: callbacks %q, due were %q (before: %v)", i, logged(), want, sent)
		}
		if !c.await(func() bool { // Close could come before the answer to the last event
			k := 0
			ps, _ := split(peer.Msgs(), mp)
			for _, p := range ps {
				k += b2i(p.Type == 3)
			}
			return k >= len(acks)
		}, stallTime, stallSteps) {
			c.Fatalf("answers", "connection %d: answers are missing", i)
		}
		late := r.Intn(4)
		for k := 0; k < late; k++ {
			if err := cl.Emit("/", "late", k, func(so socketio.Socket) { add("answer %s", so.Sid()) }); err != nil {
				c.Fatalf("emit", "an emit on connection %d fails: %v", i, err)
			}
		}
		if len(nsps) == 1 && cl.Emit("/a", "x") == nil {
			c.Fatalf("emit", "an emit to a namespace joined on an earlier connection only succeeds")
		}
		if late > 0 && r.Intn(2) == 0 { // the last one is answered, and no earlier connection's
			for _, f := range spell(SP{Type: 3, Nsp: "/", ID: uid(uint64(late)), Args: []interface{}{}}, mp, r) {
				peer.Send(f)
			}
			want = append(want, "answer "+sid)
			if !c.await(func() bool { return len(logged()) >= len(want) }, stallTime, stallSteps) || !equalStrings(logged(), want) {
				c.Fatalf("answer", "connection %d: callbacks %q, due were %q", i, logged(), want)
			}
		}
		overlap := 0
		if i < n-1 {
			overlap = max(0, r.Intn(6)-3)
		}
		if overlap == 2 { // the next connection is made in a disconnect callback of this one
			mu.Lock()
			gate = make(chan func())
			in = gate
			mu.Unlock()
			serving.Store(false)
		}
		if r.Intn(2) == 0 {
			c.Within("close-stall", "Close returns", func() { cl.Close() })
			c.MustAwait("peer-eof", "the client ends the connection", peer.Ended)
			hello, lates := 0, 0
			var gotAcks []string
			ps, err := split(peer.Msgs(), mp)
			if err != nil {
				c.Fatalf("frames", "the server received frames that are no packets: %v", err)
			}
			for _, p := range ps {
				switch {
				case p.Type == 2 && p.Args[0] == "hello" && len(p.Args) == 2 && p.Args[1] == sid:
					hello++
				case p.Type == 2 && p.Args[0] == "late" && p.ID != nil && *p.ID == uint64(lates+1):
					lates++
				case p.Type == 3 && p.ID != nil && len(p.Args) == 1:
					gotAcks = append(gotAcks, fmt.Sprintf("%s %d %s", p.Nsp, *p.ID, p.Args[0]))
				default:
					c.Fatalf("packets", "connection %d: the server received %v", i, p)
				}
			}
			if hello != 1 || lates != late || !equalStrings(gotAcks, acks) {
				c.Fatalf("packets", "connection %d: the server received %d+%d emits of 1+%d and answers %q of %q", i, hello, lates, late, gotAcks, acks)
			}
		} else {
			peer.Send(EP{Type: 1})
			c.MustAwait("peer-eof", "the client ends the connection", peer.Ended)
		}
		if overlap > 0 {
			if overlap == 2 {
				c.MustAwait("disconnect-stall", "a disconnect callback runs", serving.Load)
			}
			mu.Lock()
			isPast[sid] = true
			for k, e := range log[min(len(log), len(want)):] {
				if x := strings.TrimPrefix(e, "disconnect "); x != e && strings.HasPrefix(x, sid+" ") {
					past[x]++
				} else {
					c.Failf("callbacks", "after the end of connection %d: callback %d is %q", i, k, e)
				}
			}
			log = nil
			mu.Unlock()
			for _, n := range nsps {
				wantPast[sid+" "+n] = 1
			}
			sent = append(sent, []string{"", "at once", "in a callback"}[overlap])
			c.Count("dials while the last connection's disconnects are reported", 1)
			c.Count("connections of one client", 1)
			continue
		}
		ends := func() bool {
			l, k := logged(), 0
			for _, n := range nsps {
				k += b2i(contains(l[min(len(l), len(want)):], fmt.Sprintf("disconnect %s %s", sid, n)))
			}
			return k == len(nsps) && len(l) == len(want)+k
		}
		if !c.await(ends, stallTime, stallSteps) {
			c.Fatalf("callbacks", "connection %d has ended: callbacks %q, due were %q and disconnects of %q", i, logged(), want, nsps)
		}
		mu.Lock()
		log = nil
		mu.Unlock()
		c.Count("connections of one client", 1)
	}
	c.await(func() bool { mu.Lock(); defer mu.Unlock(); return len(past) >= len(wantPast) }, stallTime, stallSteps)
	c.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
	mu.Lock()
	if !reflect.DeepEqual(past, wantPast) {
		c.Failf("disconnects", "the client dialled again at once; disconnect callbacks of earlier connections %v, due were %v", past, wantPast)
	}
	mu.Unlock()
	if l := logged(); len(l) > 0 {
		c.Fatalf("late", "after all connections have ended: %q", l)
	}
	c.Sample(map[string]interface{}{"dials of one client": sent, "msgpack": mp, "delays": how})
	c.Sig("again %v %q %x", mp, sent, interleaving())
}
