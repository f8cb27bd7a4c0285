package main

import (
	"fmt"
	"math/rand"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"
)

func init() {
	register(&Suite{ID: "C07", Quick: 7000, Deep: 70000, MinNT: 1400, Virtual: true, Extra: true,
		realTime: func(n int) bool { return n%7 != 5 },
		Rule:     "completed upgrades under traffic, distinct by workload and order of scheduling points passed",
		Run:      runC07})
}

var upgradePoints = []string{"upgrade.probed", "upgrade.pause", "upgrade.paused", "upgrade.confirmed", "upgrade.closed", "upgrade.flushed", "upgrade.swapped",
	"emitter.submit", "emitter.dequeued", "emitter.write", "polling.read", "polling.readout", "polling.write", "polling.post", "websocket.write", "socket.read",
	"server.reader.handle", "server.session"}

// upPeer is a polling peer that may be upgraded; its sending side keeps to one transport at a time.
type upPeer struct {
	*Poll
	mu sync.Mutex // held while something is sent, or the transport changes
	w  *WS
}

func (u *upPeer) sendEPs(ps []EP, r *rand.Rand) error {
	u.mu.Lock()
	defer u.mu.Unlock()
	if u.w != nil {
		for _, p := range ps {
			if err := u.w.Send(p); err != nil {
				return err
			}
		}
		return nil
	}
	var cr *rand.Rand
	if r != nil && r.Intn(4) == 0 {
		cr = r
	}
	code, err := u.Post(ps, len(ps)%2 == 0, cr)
	if err == nil && code != 200 {
		err = &statusError{code, "POST"}
	}
	return err
}

// upgrade performs a proper upgrade while traffic goes on.
func (u *upPeer) upgrade(c *Ctx, pause time.Duration, again bool) {
	var w *WS
	var err error
	c.MustAwait("upgrade", "a proper upgrade succeeds", func() bool {
		w, err = u.Poll.Upgrade(c, func() {
			if pause > 0 {
				time.Sleep(pause)
			}
			u.mu.Lock() // what is being sent is finished on the old transport
		})
		return err != errRefused || !again // an earlier attempt may not be over yet for the server
	})
	if w != nil {
		u.w = w
		c.Cleanup(w.Close)
	}
	if err != nil {
		c.Fatalf("upgrade", "a proper upgrade fails: %v", err)
	}
	u.mu.Unlock()
}

func runC07(c *Ctx) {
	if c.S.Virtual {
		longHistory(c)
		return
	}
	how := c.Perturb(upgradePoints...)
	if c.R.Intn(4) == 0 {
		c07Sio(c, how)
		return
	}
	c07Engine(c, how)
}

// session7 is a polling session with lanes in both directions, driven through upgrades.
type session7 struct {
	c        *Ctx
	es       *EngineServer
	u        *upPeer
	so       *engine.Socket
	sid      string
	s2c, c2s *lane
	wg       Group
	stop     atomic.Bool
	hdr      string
	slow     time.Duration
}

func (c *Ctx) session7(timeout time.Duration, mode int) *session7 {
	return c.session7i(40*time.Second, timeout, mode)
}

func (c *Ctx) session7i(interval, timeout time.Duration, mode int, oc ...engine.OriginChecker) *session7 {
	s := &session7{c: c, hdr: fmt.Sprint("v", c.R.Intn(1000))}
	if c.R.Intn(3) == 0 {
		s.slow = time.Duration(c.R.Intn(600)) * time.Microsecond
	}
	s.es = c.NewEngine(interval, timeout, nil, oc...)
	s.es.onMsg = func(*engine.Socket, EP) {
		if s.slow > 0 {
			time.Sleep(s.slow)
		}
	}
	p, err := DialPoll(s.es.Addr, mode, http.Header{"X-Case": {s.hdr}})
	if err != nil {
		c.Fatalf("handshake", "polling handshake failed: %v", err)
	}
	c.Cleanup(p.Close)
	s.u = &upPeer{Poll: p}
	s.sid = p.Open.SID
	s.so = s.es.WaitSock(s.sid)
	so := s.so
	s.s2c = &lane{c: c, name: "server to client", emit: func(p EP, style int, buf []byte) error { return engineEmit(so, p, style, buf) }, got: s.u.Msgs}
	s.c2s = &lane{c: c, name: "client to server", send: s.u.sendEPs, got: func() []EP { return s.es.Got(s.sid) }}
	so.SetHeader("X-Set", "set"+s.hdr)
	switch c.R.Intn(4) {
	case 0: // what the handshake had is changed; an upgrade's request repeats it as it was
		s.hdr = "changed " + s.hdr
		so.SetHeader("X-Case", s.hdr)
		so.SetHeader("X-Set", "set"+s.hdr)
	case 1: // an upgrade's request has headers of its own
		p.Hdr = http.Header{"X-Case": {"of the upgrade"}, "X-Set": {"of the upgrade"}, "X-None": {"of the upgrade"}}
	}
	return s
}

func (s *session7) traffic(k, n, max int, pace time.Duration) {
	s.s2c.run(&s.wg, k, n, max, &s.stop, pace)
	s.c2s.run(&s.wg, 1, n, max, &s.stop, pace)
}

// settle waits until all traffic has been delivered.
func (s *session7) settle() {
	c := s.c
	c.MustAwait("lost", "messages of both directions arrive", func() bool {
		emitted := done(&s.wg)
		a, b := s.s2c.check() >= s.s2c.total(), s.c2s.check() >= s.c2s.total()
		return emitted && a && b
	})
	c.Soon(500*time.Microsecond, func() bool { return false })
	s.s2c.check()
	s.c2s.check()
	c.Stop()
	if s.s2c.errs > 0 {
		c.Fatalf("emit-error", "an emit on an open session failed")
	}
	c.Count("messages delivered and checked", s.s2c.seen+s.c2s.seen)
}

// state checks what must not change.
func (s *session7) state(upgrades int) {
	c := s.c
	if n := s.es.Events(s.sid, "close"); n != 0 {
		c.Fatalf("closed", "%d close events on an open session", n)
	}
	if n := s.es.Events(s.sid, "open"); n != 1 {
		c.Fatalf("opened", "%d open callbacks for one session", n)
	}
	if n := s.es.Events(s.sid, "upgrade"); n != upgrades {
		c.Fatalf("upgrade-events", "%d upgrade events, want %d", n, upgrades)
	}
	if s.so.Sid() != s.sid {
		c.Fatalf("sid", "sid %s has become %s", s.sid, s.so.Sid())
	}
	if a, b := s.so.GetHeader("X-Case"), s.so.GetHeader("X-Set"); a != s.hdr || b != "set"+s.hdr {
		c.Fatalf("header", "headers %q, %q; want %q, %q", a, b, s.hdr, "set"+s.hdr)
	}
	if s.so.RemoteAddr() == nil || s.so.LocalAddr() == nil {
		c.Fatalf("addr", "no address")
	}
}

func c07Engine(c *Ctx, how string) {
	mode := c.R.Intn(3)
	s := c.session7(60*time.Second, mode)
	k, n, max := 1+c.R.Intn(4), 5+c.R.Intn(60), 2000
	if c.R.Intn(6) == 0 {
		n, max = 3+c.R.Intn(6), 200000
	}
	pace := []time.Duration{0, 200 * time.Microsecond, 2 * time.Millisecond}[c.R.Intn(3)]
	when := time.Duration(c.R.Intn(4)) * time.Duration(c.R.Intn(2000)) * time.Microsecond
	pause := time.Duration(c.R.Intn(3)) * time.Duration(c.R.Intn(2000)) * time.Microsecond
	c.Sample(map[string]interface{}{"mode": mode, "senders": k, "messages": n, "bytes": max, "upgrade after": when.String(), "delays": how})
	var up lane // emitted from the upgrade callback
	s.es.onEv = func(so *engine.Socket, what string) {
		if what == "upgrade" {
			up.mu.Lock()
			up.errs++
			up.mu.Unlock()
			so.Send("from the upgrade callback")
		}
	}
	got := s.s2c.got
	fromUp, echoed := 0, 0
	echo := c.R.Intn(2) == 0
	if echo { // the message callback emits, too
		n := 0
		s.es.onMsg = func(so *engine.Socket, _ EP) {
			if err := so.Send(fmt.Sprint("echo ", n)); err != nil {
				c.Failf("emit", "an emit from a message callback fails: %v", err)
			}
			n++
		}
	}
	s.s2c.got = func() []EP {
		fromUp, echoed = 0, 0
		var out []EP
		for _, p := range got() {
			if string(p.Data) == "from the upgrade callback" {
				fromUp++
				continue
			}
			if strings.HasPrefix(string(p.Data), "echo ") {
				if want := fmt.Sprint("echo ", echoed); string(p.Data) != want {
					c.Failf("order", "%q received when %q was due", p.Data, want)
				}
				echoed++
				continue
			}
			out = append(out, p)
		}
		return out
	}
	s.u.Start()
	if c.R.Intn(3) == 0 {
		time.Sleep(when)
	}
	s.traffic(k, n, max, pace)
	time.Sleep(when)
	pings := 0
	if c.R.Intn(3) == 0 {
		c.Must(s.u.sendEPs([]EP{{Type: 2, Data: []byte("before")}}, nil), "ping")
		pings++
	}
	s.u.upgrade(c, pause, false)
	c.Stop()
	if c.R.Intn(2) == 0 {
		c.Must(s.u.sendEPs([]EP{{Type: 2, Data: []byte("after")}}, nil), "ping")
		pings++
	}
	s.settle()
	c.MustAwait("pong", "pings are answered and the upgrade event comes", func() bool {
		s.s2c.got()
		return s.u.Inbox.Len(3) == pings && s.es.Events(s.sid, "upgrade") == 1 && fromUp == 1 && (!echo || echoed == s.es.GotN(s.sid))
	})
	s.state(1)
	if s.u.w.Ended() {
		c.Fatalf("ended", "the websocket ended after the upgrade")
	}
	// traffic after the switch: on the websocket
	s2 := &session7{c: c, es: s.es, u: s.u, so: s.so, sid: s.sid, hdr: s.hdr}
	base, cbase := len(s.s2c.got()), len(s.c2s.got())
	s2.s2c = &lane{c: c, name: "server to client, upgraded", emit: s.s2c.emit, got: func() []EP { return s.s2c.got()[base:] }}
	s2.c2s = &lane{c: c, name: "client to server, upgraded", send: s.c2s.send, got: func() []EP { return s.c2s.got()[cbase:] }}
	s2.traffic(1, 1+c.R.Intn(5), 500, 0)
	s2.settle()
	s2.state(1)
	// the old transport carries nothing any more
	if code, body := status("GET", "http://"+s.es.Addr+"/engine.io/?EIO=3&transport=polling&sid="+url.QueryEscape(s.sid), nil); code/100 == 2 {
		c.Fatalf("old-transport", "a poll of an upgraded session is answered with %d %q", code, clip(body, 100))
	}
	s2.state(1)
	if s.u.w.Ended() {
		c.Fatalf("ended", "a poll ended the websocket of an upgraded session")
	}
	c.Count("upgrades", 1)
	c.Sig("engine %d %d %d %x", mode, k, n, interleaving())
}

// c07Sio: events with attachments and acks across the switch.
func c07Sio(c *Ctx, how string) {
	o := DuoOpt{Polling: true, MP: c.R.Intn(4) == 0, Nsps: []string{"/", "/a"}}
	n := 5 + c.R.Intn(25)
	k := 1 + c.R.Intn(3)
	out := newOrder6(c, k+1)
	var mu sync.Mutex
	var in []string
	type B = socketio.Bytes
	d := c.NewDuo(o, func(d *Duo) {
		for _, nsp := range o.Nsps {
			if o.MP {
				d.Ns(nsp).OnEvent("q", func(s string, b []byte) (string, []byte) {
					mu.Lock()
					in = append(in, fmt.Sprintf("%s%q", s, b))
					mu.Unlock()
					return s, b
				})
			} else {
				d.Ns(nsp).OnEvent("q", func(s string, b *B) (string, *B) {
					mu.Lock()
					in = append(in, fmt.Sprintf("%s%q", s, b.Data))
					mu.Unlock()
					return s, b
				})
			}
		}
	})
	u := &upPeer{Poll: d.poll}
	c.Sample(map[string]interface{}{"connection": o.String(), "senders": k, "packets": n, "delays": how})
	var wg Group
	for g := 0; g < k; g++ {
		g, r := g, rand.New(rand.NewSource(c.R.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n && !c.Failed(); i++ {
				nsp := o.Nsps[r.Intn(2)]
				b := genBytes(r, genSize(r, 800))
				tag := fmt.Sprintf("%d.%d", g, i)
				out.add(g, renderSP(SP{Type: 2, Nsp: nsp, Args: []interface{}{"e", tag, b}}, o.MP))
				var v interface{} = &B{Data: b}
				if o.MP {
					v = b
				}
				if err := d.Sock(nsp).Emit("e", tag, v); err != nil {
					c.Failf("emit", "Emit: %v", err)
				}
				if r.Intn(3) == 0 {
					time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
				}
			}
		}()
	}
	var want []string
	wg.Add(1)
	r := rand.New(rand.NewSource(c.R.Int63()))
	go func() {
		defer wg.Done()
		for i := 0; i < n && !c.Failed(); i++ {
			nsp := o.Nsps[r.Intn(2)]
			b := genBytes(r, genSize(r, 800))
			s := fmt.Sprint("s", i)
			mu.Lock()
			want = append(want, fmt.Sprintf("%s%q", s, b))
			mu.Unlock()
			out.add(k, renderSP(SP{Type: 3, Nsp: nsp, ID: uid(uint64(i)), Args: []interface{}{s, b}}, o.MP))
			if err := u.sendEPs(d.framesOf(SP{Type: 2, Nsp: nsp, ID: uid(uint64(i)), Args: []interface{}{"q", s, b}}), r); err != nil {
				c.Failf("send", "sending on an open session fails: %v", err)
			}
			if r.Intn(3) == 0 {
				time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
			}
		}
	}()
	time.Sleep(time.Duration(c.R.Intn(4000)) * time.Microsecond)
	u.upgrade(c, time.Duration(c.R.Intn(2000))*time.Microsecond, false)
	seen := 0
	c.MustAwait("lost", "all packets arrive", func() bool {
		emitted := done(&wg)
		ps := d.sioOut()
		for ; seen < len(ps); seen++ {
			out.got(renderSP(ps[seen], o.MP))
			c.Stop()
		}
		return emitted && out.left() == 0
	})
	c.MustAwait("lost", "all events arrive", func() bool { mu.Lock(); defer mu.Unlock(); return len(in) >= len(want) })
	mu.Lock()
	defer mu.Unlock()
	if a, b := fmt.Sprint(want), fmt.Sprint(in); a != b {
		c.Fatalf("order", "events sent %s\nreceived %s", clip(a, 1000), clip(b, 1000))
	}
	nc, nd, e := d.NConn("/")+d.NConn("/a"), d.NDisc("/")+d.NDisc("/a"), d.NErr("")
	if nc != 2 || nd != 0 || e != 0 || u.w.Ended() {
		c.Fatalf("state", "after an upgrade: %d connects, %d disconnects, errors %s, ended %v", nc, nd, d.Errs(), u.w.Ended())
	}
	c.Count("upgrades", 1)
	c.Count("messages delivered and checked", seen+len(in))
	c.Sig("sio %v %d %d %x", o.MP, k, n, interleaving())
}
