package main

import (
	"bufio"
	"bytes"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"sync"
	"sync/atomic"
	"time"

	"github.com/gorilla/websocket"
)

func init() {
	register(&Suite{ID: "C08", Quick: 4700, Deep: 70000, MinNT: 2400, Virtual: true, Extra: true,
		realTime: func(n int) bool { return n%7 != 5 },
		Rule:     "failed upgrade attempts under traffic, distinct by kind of failure, workload and order of scheduling points passed",
		Run:      runC08})
}

type originCheck func(*http.Request) bool

func (f originCheck) CheckOrigin(r *http.Request) bool { return f(r) }

func runC08(c *Ctx) {
	if c.S.Virtual {
		longHistory(c)
		return
	}
	how := c.Perturb(upgradePoints...)
	if c.R.Intn(8) == 0 {
		c08Websocket(c)
		return
	}
	silent := c.Case%83 == 7
	iv, to := 40*time.Second, 60*time.Second
	var s *session7
	checker := originCheck(func(r *http.Request) bool { return r.Header.Get("Origin") != "http://evil.example" })
	mode := c.R.Intn(3)
	var gap atomic.Int64
	if silent {
		iv, to = time.Second, 4*time.Second
	}
	s = c.session7i(iv, to, mode, checker)
	s.u.Start()
	if silent { // keep the session alive
		stop := make(chan struct{})
		c.Cleanup(func() { close(stop) })
		go func() {
			last := time.Now()
			for {
				select {
				case <-stop:
					return
				case <-time.After(400 * time.Millisecond):
				}
				s.u.mu.Lock()
				ws := s.u.w != nil
				s.u.mu.Unlock()
				if ws {
					return
				}
				s.u.sendEPs([]EP{{Type: 2, Data: []byte("alive")}}, nil)
				if g := int64(time.Since(last)); g > gap.Load() {
					gap.Store(g)
				}
				last = time.Now()
			}
		}()
	}
	k, n, max := 1+c.R.Intn(3), 3+c.R.Intn(40), 1500
	pace := []time.Duration{0, 200 * time.Microsecond, 2 * time.Millisecond}[c.R.Intn(3)]
	s.traffic(k, n, max, pace)
	kinds := ""
	attempts := 1 + c.R.Intn(3)
	if silent {
		attempts = 1
	}
	for i := 0; i < attempts; i++ {
		kind := c.R.Intn(12)
		if silent {
			kind = 12 + c.Case/83%3
		}
		what := c.attempt(s, kind, func() time.Duration { return time.Duration(gap.Load()) })
		kinds += what + "; "
		c.Tracef("attempt: %s", what)
		c.Stop()
		if c.R.Intn(2) == 0 {
			time.Sleep(time.Duration(c.R.Intn(2000)) * time.Microsecond)
		}
	}
	c.Sample(map[string]interface{}{"mode": mode, "senders": k, "messages": n, "attempts": kinds, "delays": how})
	if code, err := s.u.Err(); err != nil && !(silent && gap.Load() > int64(1500*time.Millisecond)) {
		c.Fatalf("session", "after [%s] polling is refused: %d %v", kinds, code, err)
	}
	if silent && gap.Load() > int64(1500*time.Millisecond) {
		c.Inconclusive("the harness itself was stalled for %v", time.Duration(gap.Load()))
	}
	s.settle()
	s.state(0)
	if c.R.Intn(3) > 0 {
		if c.R.Intn(2) == 0 { // traffic during the proper upgrade, too
			base, cbase := len(s.s2c.got()), len(s.c2s.got())
			g1, g2 := s.s2c.got, s.c2s.got
			s.s2c = &lane{c: c, name: "server to client, after failed attempts", emit: s.s2c.emit, got: func() []EP { return g1()[base:] }}
			s.c2s = &lane{c: c, name: "client to server, after failed attempts", send: s.c2s.send, got: func() []EP { return g2()[cbase:] }}
			s.traffic(1, 10, 500, pace)
		}
		s.u.upgrade(c, 0, true)
		c.Stop()
		s.settle()
		c.MustAwait("upgrade-event", "the upgrade event comes", func() bool { return s.es.Events(s.sid, "upgrade") > 0 })
		s.state(1)
		c.Count("later upgrades", 1)
	}
	c.Count("failed attempts", attempts)
	c.Sig("%s %d %d %x", kinds, k, n, interleaving())
}

// flow requires messages to get through in both directions.
func (s *session7) flow(c *Ctx, when string) {
	n, m := s.es.GotN(s.sid), len(s.s2c.got())
	_ = m
	if !c.Await("flow", "messages reach the server "+when, func() bool {
		return s.c2s.check() >= s.c2s.total() && done(&s.wg) || s.es.GotN(s.sid) > n+3
	}) {
		return
	}
	c.Await("flow", "messages reach the client "+when, func() bool {
		return s.s2c.check() >= s.s2c.total() && done(&s.wg) || len(s.s2c.got()) > m+3
	})
}

// attempt makes an upgrade attempt that fails and returns a description of it.
func (c *Ctx) attempt(s *session7, kind int, gap func() time.Duration) string {
	r := c.R
	q := "sid=" + url.QueryEscape(s.sid)
	base := "http://" + s.es.Addr + "/engine.io/?EIO=3&transport=websocket&" + q
	gone := func(w *WS, what string) {
		c.Await("not-closed", "the connection of a failed upgrade attempt is closed: "+what, w.Ended)
		if kind != 9 && len(w.Msgs()) > 0 {
			c.Failf("leak", "the connection of a failed upgrade attempt carried messages %v", w.Msgs())
		}
	}
	dial := func() *WS {
		w, resp, err := dialWS(s.es.Addr, q, nil, &Inbox{}, nil)
		if err != nil {
			code := 0
			if resp != nil {
				code = resp.StatusCode
			}
			c.Fatalf("attempt", "a websocket for an open session is refused: %v (%d)", err, code)
		}
		c.Cleanup(w.Close)
		return w
	}
	// an earlier attempt may not be over yet for the server: try again
	probed := func() (w *WS) {
		c.MustAwait("probe", "the probe is answered", func() bool {
			w = dial()
			w.Send(EP{Type: 2, Data: []byte("probe")})
			c.MustAwait("probe", "the probe is answered", func() bool { return w.Len(3) > 0 || w.Ended() })
			return w.Len(3) > 0
		})
		return
	}
	odd := func(not byte) (string, func(w *WS) error) {
		for {
			switch x := r.Intn(9); x {
			case 7:
				return "text frame 9x", func(w *WS) error { return w.SendText("9x") }
			case 8:
				if r.Intn(2) == 0 {
					return "empty text frame", func(w *WS) error { return w.SendText("") }
				}
				return "binary garbage", func(w *WS) error { return w.SendRaw(websocket.BinaryMessage, []byte{77, 1}) }
			default:
				if byte(x) == not {
					continue
				}
				p := EP{Type: byte(x), Data: []byte("x")}
				return fmt.Sprintf("packet of type %d", x), func(w *WS) error { return w.Send(p) }
			}
		}
	}
	switch kind {
	case 0: // nothing
		w := dial()
		if r.Intn(2) == 0 {
			s.flow(c, "while an upgrade is not yet probed")
		}
		w.Close()
		return "dropped before the probe"
	case 1, 2: // wrong probe
		w := dial()
		what, f := odd(2)
		c.Must(f(w), "send")
		gone(w, "first "+what)
		return "first " + what
	case 3: // dropped after the probe
		w := dial()
		c.Must(w.Send(EP{Type: 2, Data: []byte("probe")}), "probe")
		if r.Intn(2) == 0 {
			c.Soon(20*time.Millisecond, func() bool { return w.Len(3) > 0 })
		}
		if r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
		}
		w.Close()
		return "dropped after the probe"
	case 4, 5: // something else than an upgrade packet
		w := probed()
		what, f := odd(5)
		if r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
		}
		c.Must(f(w), "send")
		gone(w, "after the probe "+what)
		return "after the probe " + what
	case 6: // rejected origin
		w, resp, err := dialWS(s.es.Addr, q, http.Header{"Origin": {"http://evil.example"}}, &Inbox{}, nil)
		if err == nil {
			w.Close()
			c.Failf("origin", "an upgrade from a rejected origin is accepted")
		} else if resp == nil || resp.StatusCode/100 != 4 {
			c.Failf("origin", "an upgrade from a rejected origin fails with %v, %v", resp, err)
		}
		return "rejected origin"
	case 7: // no websocket handshake at all
		m := []string{"GET", "POST"}[r.Intn(2)]
		if code, body := status(m, base, nil); code/100 != 4 {
			c.Failf("plain", "%s with transport=websocket is answered with %d %q", m, code, clip(body, 100))
		}
		return "no websocket handshake"
	case 8: // the connection breaks inside a frame
		conn, err := net.Dial("tcp", s.es.Addr)
		c.Must(err, "dial")
		defer conn.Close()
		fmt.Fprintf(conn, "GET /engine.io/?EIO=3&transport=websocket&%s HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n", q)
		if r.Intn(4) > 0 {
			br := bufio.NewReader(conn)
			resp, err := http.ReadResponse(br, nil)
			if err != nil || resp.StatusCode != 101 {
				c.Fatalf("attempt", "a websocket for an open session is refused: %v", err)
			}
			frame := []byte{0x81, 0x86, 1, 2, 3, 4, '2' ^ 1, 'p' ^ 2, 'r' ^ 3, 'o' ^ 4, 'b' ^ 1, 'e' ^ 2}
			up := []byte{0x81, 0x81, 0, 0, 0, 0, '5'}
			switch r.Intn(3) {
			case 0:
				conn.Write(frame[:r.Intn(len(frame))])
			case 1:
				conn.Write(append(append([]byte{}, frame...), up[:r.Intn(len(up)-1)]...))
			default: // a control frame, a reserved opcode, an unmasked frame
				conn.Write([][]byte{{0x88, 0x80, 0, 0, 0, 0}, {0x83, 0x80, 0, 0, 0, 0}, {0x81, 2, '2', 'p'}}[r.Intn(3)])
				br.ReadByte()
			}
		}
		return "broken inside a frame"
	case 9, 10, 11: // a second attempt during the first; then the first fails as well
		var first *WS
		if kind > 9 {
			first = probed()
		} else {
			first = dial()
		}
		if kind == 9 { // the first holds the place once its packet may come
			time.Sleep(time.Duration(r.Intn(500)) * time.Microsecond)
		}
		second, _, err := dialWS(s.es.Addr, q, nil, &Inbox{}, nil)
		if err == nil {
			c.Cleanup(second.Close)
			second.Send(EP{Type: 2, Data: []byte("probe")})
			if kind > 9 {
				c.Await("not-closed", "the second of two concurrent attempts is closed", second.Ended)
				if second.Len(3) > 0 {
					c.Failf("second", "the probe of a second attempt is answered while another attempt has been probed")
				}
			}
		}
		first.Close()
		if err == nil {
			second.Close()
		}
		return "two attempts at a time"
	case 12:
		w := dial()
		s.flow(c, "while an upgrade is not yet probed")
		c.Await("not-closed", "an attempt that never probes is closed in the end", w.Ended)
		return "silent"
	case 13:
		w := probed()
		c.Await("not-closed", "an attempt that is silent after the probe is closed in the end", w.Ended)
		return "silent after the probe"
	case 14:
		hc := new(heldConn)
		w, _, err := dialWS(s.es.Addr, q, nil, &Inbox{}, func(network, addr string) (net.Conn, error) {
			conn, err := net.Dial(network, addr)
			hc.Conn = conn
			return hc, err
		})
		if err != nil {
			c.Fatalf("attempt", "a websocket for an open session is refused: %v", err)
		}
		c.Cleanup(w.Close)
		hc.gate.Lock()
		big := bytes.Repeat([]byte("probe"), 5<<20)
		w.Send(EP{Type: 2, Bin: r.Intn(2) == 0, Data: big})
		s.flow(c, "while the answer to a probe is not read")
		time.Sleep(9 * time.Second) // the time to write is 4 s
		hc.gate.Unlock()
		c.Await("not-closed", "an attempt that does not read the answer to its probe is closed in the end", w.Ended)
		if w.Len(3) > 0 && gap() < 1500*time.Millisecond {
			c.Failf("not-closed", "an attempt that has not read the answer to its probe for 9 s is still served; the time to write is 4 s")
		}
		return "probe's answer unread"
	}
	return ""
}

// heldConn is a connection nothing is read from while gate is held for writing.
type heldConn struct {
	net.Conn
	gate sync.RWMutex
}

func (h *heldConn) Read(b []byte) (int, error) {
	n, err := h.Conn.Read(b)
	h.gate.RLock()
	h.gate.RUnlock()
	return n, err
}

// c08Websocket: requests that name a websocket session.
func c08Websocket(c *Ctx) {
	es := c.NewEngine(40*time.Second, 60*time.Second, nil)
	w := c.MustWS(es.Addr)
	sid := w.Open.SID
	so := es.WaitSock(sid)
	s := &session7{c: c, es: es, so: so, sid: sid}
	s.s2c = &lane{c: c, name: "server to client", emit: func(p EP, style int, buf []byte) error { return engineEmit(so, p, style, buf) }, got: w.Msgs}
	s.c2s = &lane{c: c, name: "client to server", got: func() []EP { return es.Got(sid) }, send: func(ps []EP, _ *rand.Rand) error {
		for _, p := range ps {
			if err := w.Send(p); err != nil {
				return err
			}
		}
		return nil
	}}
	s.traffic(1+c.R.Intn(3), 3+c.R.Intn(40), 1500, time.Duration(c.R.Intn(3))*200*time.Microsecond)
	q := "EIO=3&sid=" + url.QueryEscape(sid)
	u := "http://" + es.Addr + "/engine.io/?" + q
	kinds := ""
	for i := 1 + c.R.Intn(3); i > 0; i-- {
		what := ""
		switch c.R.Intn(4) {
		case 0:
			what = "GET"
			if code, _ := status("GET", u+"&transport=polling", nil); code/100 != 4 {
				c.Failf("poll", "a poll of a websocket session is answered with %d", code)
			}
		case 1:
			what = "POST"
			p := newPoll(es.Addr, modeXHR2, nil)
			p.Open.SID = sid
			if code, err := p.Post([]EP{{Type: 4, Data: []byte("x")}}, c.R.Intn(2) == 0, nil); err == nil && code/100 != 4 {
				c.Failf("post", "a POST to a websocket session is answered with %d", code)
			}
			p.Close()
		case 2:
			what = "websocket"
			w2, resp, err := dialWS(es.Addr, "sid="+url.QueryEscape(sid), nil, &Inbox{}, nil)
			if err == nil {
				w2.Send(EP{Type: 2, Data: []byte("probe")})
				w2.Send(EP{Type: 5})
				c.Await("not-closed", "a second websocket naming a websocket session is closed", w2.Ended)
				w2.Close()
			} else if resp == nil || resp.StatusCode/100 != 4 {
				c.Failf("second", "a second websocket naming a websocket session: %v %v", resp, err)
			}
		default:
			what = "plain"
			if code, _ := status("GET", u+"&transport=websocket", nil); code/100 != 4 {
				c.Failf("plain", "a plain GET naming a websocket session is answered with %d", code)
			}
		}
		kinds += what + " "
		c.Stop()
	}
	s.settle()
	if n := es.Events(sid, "close") + es.Events(sid, "upgrade"); n > 0 || w.Ended() {
		c.Fatalf("session", "after [%s] the websocket session saw %d close or upgrade events, ended %v", kinds, n, w.Ended())
	}
	c.Count("requests naming a websocket session", len(kinds))
	c.Sig("ws %s %x", kinds, interleaving())
}
