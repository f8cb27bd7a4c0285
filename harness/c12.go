package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/gorilla/websocket"
	"github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"
)

func init() {
	register(&Suite{ID: "C12", Quick: 4000, Deep: 60000, MinNT: 2500, Virtual: true,
		realTime: func(n int) bool { return n%83 != 47 },
		Rule:     "servers whose every handshake and refused request was checked, distinct by request sequence and order of scheduling points passed",
		Run:      runC12})
}

// sess12 is one session a peer holds.
type sess12 struct {
	sid    string
	hdr    http.Header
	addr   string // the peer's own
	p      *Poll
	w      *WS
	so     *engine.Socket
	c2s    []string
	s2c    []string
	closed bool
}

type adm12 struct {
	c        *Ctx
	es       *EngineServer
	iv, to   time.Duration
	checks   bool
	strict   bool // origins have to be named
	mu       sync.Mutex
	seen     map[string]*sess12
	refused  int
	srvEnded bool
}

var wsHeaders = http.Header{"Connection": {"Upgrade"}, "Upgrade": {"websocket"}, "Sec-Websocket-Version": {"13"}, "Sec-Websocket-Key": {"dGhlIHNhbXBsZSBub25jZQ=="}}

func (a *adm12) hdr(r *rand.Rand) http.Header {
	h := http.Header{}
	for i := r.Intn(4); i > 0; i-- {
		h.Set([]string{"X-Token", "User-Agent", "Cookie", "X-Other"}[r.Intn(4)], fmt.Sprint("v", r.Intn(1e6)))
	}
	if r.Intn(6) == 0 { // as a proxy, or someone pretending to be one, would send
		h.Set([]string{"X-Forwarded-For", "X-Real-Ip", "Forwarded", "X-Forwarded-Host", "X-Forwarded-Proto", "X-Http-Method-Override", "Via", "Sid"}[r.Intn(8)], []string{"10.1.2.3", "for=10.1.2.3", "POST", "other"}[r.Intn(4)])
	}
	if r.Intn(4) == 0 {
		h["X-Multi"] = []string{"one", "two"}
	}
	if a.strict || a.checks && r.Intn(2) == 0 {
		h.Set("Origin", "http://good.example")
	}
	return h
}

// open makes a proper handshake; nil if the server has been closed.
func (a *adm12) open(r *rand.Rand) *sess12 {
	c := a.c
	s := &sess12{hdr: a.hdr(r)}
	var open Params
	extra := []string{"", "", "t=abc", "token=%20x&y=1"}[r.Intn(4)]
	if r.Intn(2) == 0 {
		w, resp, err := DialWS(a.es.Addr, extra, s.hdr)
		if err != nil {
			if a.mayRefuse(resp) {
				return nil
			}
			c.Failf("handshake", "a proper websocket handshake fails: %v", err)
			return nil
		}
		c.Cleanup(w.Close)
		if !c.Await("handshake-stall", "the open packet of a websocket session", func() bool { return w.opened.Load() || w.Ended() }) {
			return nil
		}
		if !w.opened.Load() {
			if !a.ended() {
				c.Failf("handshake", "a websocket session ends before its open packet: %v", w.rerr)
			}
			return nil
		}
		f := w.All()[0]
		if f.Type != 0 || f.Bin {
			c.Failf("first-packet", "the first packet of a websocket session is %v", f)
			return nil
		}
		s.w, open, s.addr = w, w.Open, w.Conn.LocalAddr().String()
		a.params(f.Data, false)
	} else {
		p := newPoll(a.es.Addr, r.Intn(3), s.hdr)
		var amu sync.Mutex
		p.tr.DialContext = func(ctx context.Context, network, addr string) (net.Conn, error) {
			conn, err := new(net.Dialer).DialContext(ctx, network, addr)
			if err == nil {
				amu.Lock()
				if s.addr == "" {
					s.addr = conn.LocalAddr().String()
				}
				amu.Unlock()
			}
			return conn, err
		}
		c.Cleanup(p.Close)
		var ps []EP
		var err error
		if !c.Within("handshake-stall", "a polling handshake is answered", func() { ps, err = p.get(context.Background()) }) {
			return nil
		}
		if err != nil {
			if se, ok := err.(*statusError); ok && a.ended() && se.code >= 400 {
				return nil
			}
			c.Failf("handshake", "a proper polling handshake fails: %v", err)
			return nil
		}
		if len(ps) == 0 || ps[0].Type != 0 || json.Unmarshal(ps[0].Data, &open) != nil {
			c.Failf("first-packet", "a polling handshake is answered with %v", ps)
			return nil
		}
		for _, x := range ps {
			p.add(x, 'p')
		}
		p.Open = open
		p.Start()
		s.p = p
		a.params(ps[0].Data, true)
	}
	s.sid = open.SID
	a.mu.Lock()
	if a.seen[s.sid] != nil || s.sid == "" {
		c.Failf("sid", "sid %q is announced twice", s.sid)
	}
	a.seen[s.sid] = s
	a.mu.Unlock()
	if !c.Await("open-stall", "the open callback for "+s.sid, func() bool { return a.es.Sock(s.sid) != nil }) {
		return nil
	}
	s.so = a.es.Sock(s.sid)
	if g := s.so.RemoteAddr().String(); g != s.addr {
		c.Failf("address", "RemoteAddr is %s, the peer is %s", g, s.addr)
	}
	if g := s.so.LocalAddr().String(); !c.S.Virtual && g != a.es.Addr {
		c.Failf("address", "LocalAddr is %s, the server's is %s", g, a.es.Addr)
	}
	for k, v := range s.hdr {
		if g := s.so.GetHeader(k); g != v[0] {
			c.Failf("header", "GetHeader(%q) is %q, the handshake had %q", k, g, v)
		}
	}
	if g := s.so.GetHeader("X-None"); g != "" {
		c.Failf("header", "GetHeader of a header not sent is %q", g)
	}
	return s
}

func (a *adm12) params(data []byte, poll bool) {
	var m map[string]interface{}
	json.Unmarshal(data, &m)
	if iv, to := float64(a.iv/time.Millisecond), float64(a.to/time.Millisecond); m["pingInterval"] != iv || m["pingTimeout"] != to {
		a.c.Failf("params", "announced %s, configured %v and %v", data, a.iv, a.to)
	}
	ups, ok := m["upgrades"].([]interface{})
	offered := false
	for _, u := range ups {
		offered = offered || u == "websocket"
	}
	if !ok || poll && !offered {
		a.c.Failf("params", "announced %s: websocket is an upgrade from polling", data)
	}
}

func (a *adm12) ended() bool {
	a.mu.Lock()
	defer a.mu.Unlock()
	return a.srvEnded
}

func (a *adm12) mayRefuse(resp *http.Response) bool {
	return a.ended() && resp != nil && resp.StatusCode >= 400
}

// refuse makes a request that must be refused.
func (a *adm12) refuse(what, method, query string, hdr http.Header, body string) {
	c := a.c
	var code int
	var text string
	if !c.Within("refusal-stall", "a request is answered: "+what, func() {
		code, text = request(method, "http://"+a.es.Addr+"/engine.io/?"+query, hdr, body)
	}) {
		return
	}
	if code < 400 || code > 499 {
		if code == 503 && a.ended() {
			return
		}
		c.Failf("not-refused", "%s: %s ?%s %v is answered with status %d %q", what, method, query, hdr, code, clip(text, 100))
	}
	a.mu.Lock()
	a.refused++
	a.mu.Unlock()
}

func request(method, rawurl string, hdr http.Header, body string) (int, string) {
	if body == "" {
		return status(method, rawurl, hdr)
	}
	req, err := http.NewRequest(method, rawurl, strings.NewReader(body))
	if err != nil {
		return 0, err.Error()
	}
	for k, v := range hdr {
		req.Header[k] = v
	}
	tr := &http.Transport{DisableKeepAlives: true}
	defer tr.CloseIdleConnections()
	resp, err := (&http.Client{Transport: tr, Timeout: 60 * time.Second}).Do(req)
	if err != nil {
		return 0, err.Error()
	}
	resp.Body.Close()
	return resp.StatusCode, ""
}

// wsWith is a websocket handshake with h besides.
func wsWith(h http.Header) http.Header {
	w := wsHeaders.Clone()
	for k, v := range h {
		w[k] = v
	}
	return w
}

func with(h http.Header, kv ...string) http.Header {
	o := http.Header{}
	for k, v := range h {
		o[k] = v
	}
	for i := 0; i < len(kv); i += 2 {
		o.Set(kv[i], kv[i+1])
	}
	return o
}

func runC12(c *Ctx) {
	if c.S.Virtual {
		c12Burst(c)
		return
	}
	how := c.Perturb("server.accepted", "server.opened", "server.session", "server.reader.start", "server.onopen", "server.open")
	r := c.R
	if r.Intn(6) == 0 {
		c12Sio(c, how)
		return
	}
	a := &adm12{c: c, seen: map[string]*sess12{}, checks: r.Intn(2) == 0}
	a.iv = 20*time.Second + time.Duration(r.Int63n(int64(40*time.Second)))
	a.to = 20*time.Second + time.Duration(r.Int63n(int64(70*time.Second)))
	if r.Intn(2) == 0 {
		a.iv, a.to = a.iv.Truncate(time.Millisecond), a.to.Truncate(time.Second)
	}
	var oc []engine.OriginChecker
	if a.checks {
		a.strict = r.Intn(3) == 0
		ok := originCheck(func(r *http.Request) bool { return true })
		no := originCheck(func(r *http.Request) bool {
			o := r.Header.Get("Origin")
			return o == "" && !a.strict || o == "http://good.example"
		})
		oc = [][]engine.OriginChecker{{no}, {ok, no}, {no, ok}, {nil, no}, {no, nil, ok}}[r.Intn(5)]
	}
	a.es = c.NewEngine(a.iv, a.to, nil, oc...)
	workers := 1 + r.Intn(3)
	c.Sample(map[string]interface{}{"workers": workers, "origin checkers": len(oc), "delays": how})
	var wg Group
	ops := make([]string, workers)
	closeAt := -1
	if r.Intn(4) == 0 {
		closeAt = r.Intn(workers)
	}
	for i := 0; i < workers; i++ {
		i, rr := i, rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			ops[i] = a.worker(rr, closeAt == i)
		}()
	}
	c.MustAwait("stall", "requests are answered", func() bool { return done(&wg) })
	c.Stop()
	// sessions are those of the proper handshakes
	time.Sleep(300 * time.Microsecond)
	a.mu.Lock()
	defer a.mu.Unlock()
	es := a.es
	es.mu.Lock()
	defer es.mu.Unlock()
	for sid, l := range es.log {
		s := a.seen[sid]
		if s == nil {
			if a.srvEnded { // a handshake that met the server's end may have lost its answer
				continue
			}
			c.Fatalf("phantom", "session %s, which nobody was told of: %v", sid, l)
		}
		opens := 0
		for _, x := range l {
			opens += b2i(x == "open")
		}
		if opens != 1 {
			c.Fatalf("open", "%d open callbacks for one handshake", opens)
		}
	}
	c.Count("handshakes checked", len(a.seen))
	c.Count("requests refused", a.refused)
	c.Sig("%v %d %v %x", ops, closeAt, len(oc), interleaving())
}

func (a *adm12) worker(r *rand.Rand, closes bool) string {
	c := a.c
	var live, dead []*sess12
	ops := ""
	sidOf := func() (string, *sess12) { // of a session of any kind
		if len(live) > 0 && r.Intn(3) > 0 {
			s := live[r.Intn(len(live))]
			return s.sid, s
		}
		return "", nil
	}
	n := 3 + r.Intn(12)
	for k := 0; k < n && !c.Failed(); k++ {
		x := r.Intn(12)
		ops += string(rune('a' + x))
		sid, s := sidOf()
		q := "EIO=3&transport=polling"
		if sid != "" {
			q += "&sid=" + sid
		}
		msg := encText([]EP{{Type: 4, Data: []byte("not to be delivered")}})
		post := http.Header{"Content-Type": {"text/plain; charset=UTF-8"}}
		switch x {
		case 0, 1:
			if s := a.open(r); s != nil {
				live = append(live, s)
			}
		case 2: // several at once
			var wg sync.WaitGroup
			var mu sync.Mutex
			for i := 1 + r.Intn(6); i > 0; i-- {
				rr := rand.New(rand.NewSource(r.Int63()))
				wg.Add(1)
				go func() {
					defer wg.Done()
					if s := a.open(rr); s != nil {
						mu.Lock()
						live = append(live, s)
						mu.Unlock()
					}
				}()
			}
			wg.Wait()
		case 3: // protocol version
			v := []string{"", "EIO=4&", "EIO=2&", "EIO=03&", "EIO=3.0&", "EIO=-3&", "EIO=three&", "EIO=&", "eio=3&", "EIO=33&", "EIO=3%20&"}[r.Intn(11)]
			t := []string{"polling", "websocket"}[r.Intn(2)]
			rest := v + "transport=" + t
			if sid != "" {
				rest += "&sid=" + sid
			}
			switch {
			case t == "websocket":
				a.refuse("protocol version", "GET", rest, wsHeaders, "")
			case sid != "" && r.Intn(2) == 0:
				a.refuse("protocol version", "POST", rest, post, string(msg))
			default:
				a.refuse("protocol version", "GET", rest, nil, "")
			}
		case 4: // transport
			t := []string{"", "&transport=", "&transport=flashsocket", "&transport=Polling", "&transport=web", "&transport=websocket%20", "&transport=polling2", "&Transport=polling", "&transport=jsonp"}[r.Intn(9)]
			rest := "EIO=3" + t
			if sid != "" {
				rest += "&sid=" + sid
			}
			if r.Intn(3) == 0 {
				a.refuse("transport", "POST", rest, post, string(msg))
			} else {
				a.refuse("transport", "GET", rest, wsHeaders, "")
			}
		case 5, 6: // unknown or ended session
			bad := []string{"x", "0", "null", strings.Repeat("A", 300), "%00", "é", "undefined"}[r.Intn(7)]
			what := "unknown session id"
			if len(dead) > 0 && r.Intn(2) == 0 {
				bad, what = dead[r.Intn(len(dead))].sid, "ended session id"
			} else if sid != "" {
				bad = []string{sid[:len(sid)-1], sid + "0", strings.ToLower(sid), sid[1:], sid + " ", sid + "\x00", reverse(sid)}[r.Intn(7)]
				a.mu.Lock()
				known := a.seen[bad] != nil
				a.mu.Unlock()
				if known {
					continue
				}
			}
			e := "&sid=" + url.QueryEscape(bad)
			switch r.Intn(3) {
			case 0:
				a.refuse(what, "GET", "EIO=3&transport=polling"+e, nil, "")
			case 1:
				a.refuse(what, "POST", "EIO=3&transport=polling"+e, post, string(msg))
			default:
				a.refuse(what, "GET", "EIO=3&transport=websocket"+e, wsHeaders, "")
			}
		case 7: // origin
			if !a.checks {
				continue
			}
			o := []string{"http://evil.example", "http://good.example.evil", "null", "https://good.example", "http://" + a.es.Addr}[r.Intn(5)]
			if a.strict && r.Intn(2) == 0 {
				o = ""
			}
			oh := http.Header{"Origin": {o}}
			if o == "" {
				oh = nil
			}
			switch r.Intn(3) {
			case 0:
				a.refuse("rejected origin", "GET", "EIO=3&transport=polling", oh, "")
			case 1:
				a.refuse("rejected origin", "GET", "EIO=3&transport=websocket", wsWith(oh), "")
			default:
				if s != nil && s.p != nil {
					a.refuse("rejected origin of an upgrade", "GET", "EIO=3&transport=websocket&sid="+sid, wsWith(oh), "")
				}
			}
		case 8: // no websocket handshake
			a.refuse("no websocket request", "GET", "EIO=3&transport=websocket", nil, "")
		case 9: // end one
			if s == nil || s.closed {
				continue
			}
			s.closed = true
			switch {
			case r.Intn(2) == 0:
				s.so.Close()
			case s.w != nil && r.Intn(2) == 0:
				s.w.Close()
			case s.w != nil:
				s.w.Send(EP{Type: 1})
			default:
				s.p.Post([]EP{{Type: 1}}, true, nil)
			}
			if !c.Await("close-stall", "a session ends", func() bool { return a.es.Events(s.sid, "close") == 1 }) {
				return ops
			}
			for i := range live {
				if live[i] == s {
					live = append(live[:i:i], live[i+1:]...)
					break
				}
			}
			// it may take a moment until the sid is forgotten
			if !c.Await("sid-remembered", "the sid of an ended session is refused", func() bool {
				code, _ := status("GET", "http://"+a.es.Addr+"/engine.io/?EIO=3&transport=polling&sid="+s.sid, nil)
				return code >= 400 && code < 500
			}) {
				return ops
			}
			if !c.Await("sid-remembered", "the sid of an ended session is refused", func() bool {
				code, _ := status("GET", "http://"+a.es.Addr+"/engine.io/?EIO=3&transport=websocket&sid="+s.sid, wsHeaders)
				return code >= 400 && code < 500
			}) {
				return ops
			}
			dead = append(dead, s)
		case 10: // header changes stay with the session
			if s != nil {
				v := fmt.Sprint("set", r.Intn(1e6))
				k := []string{"X-Token", "x-token", "X-TOKEN", "x-Set-Later", "user-agent"}[r.Intn(5)]
				s.so.SetHeader(k, v)
				s.hdr = with(s.hdr, http.CanonicalHeaderKey(k), v)
				if g := s.so.GetHeader(k); g != v {
					c.Failf("header", "after SetHeader(%q, %q) GetHeader returns %q", k, v, g)
				}
			}
		default:
			a.exchange(live, r)
		}
	}
	if c.Failed() {
		return ops
	}
	a.exchange(live, r)
	for _, s := range live {
		for k, v := range s.hdr {
			if g := s.so.GetHeader(k); g != v[0] {
				c.Failf("header", "GetHeader(%q) is %q, the session's is %q", k, g, v)
			}
		}
		if l := a.es.Events(s.sid, "close") + a.es.Events(s.sid, "upgrade"); l != 0 {
			c.Failf("changed", "a session was closed or upgraded by refused requests")
		}
	}
	if closes {
		a.mu.Lock()
		a.srvEnded = true
		a.mu.Unlock()
		a.es.Server.Close()
		for i := 0; i < 3; i++ {
			h := []http.Header{nil, wsHeaders}[i%2]
			code, text := status("GET", "http://"+a.es.Addr+"/engine.io/?EIO=3&transport="+[]string{"polling", "websocket"}[i%2], h)
			if code < 400 {
				c.Failf("closed-server", "a handshake with a closed server is answered with status %d %q", code, text)
			}
		}
		if _, _, err := websocket.DefaultDialer.Dial("ws://"+a.es.Addr+"/?EIO=3&transport=websocket", nil); err == nil {
			c.Failf("closed-server", "a websocket handshake with a closed server succeeds")
		}
		a.mu.Lock()
		a.refused += 4
		a.mu.Unlock()
	}
	return ops
}

func reverse(s string) string {
	b := []byte(s)
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return string(b)
}

// exchange sends a message each way on every session and checks that each got exactly its own.
func (a *adm12) exchange(live []*sess12, r *rand.Rand) {
	c := a.c
	for _, s := range live {
		m := fmt.Sprintf("%s up %d", s.sid, len(s.c2s))
		s.c2s = append(s.c2s, m)
		var err error
		if s.w != nil {
			err = s.w.Send(EP{Type: 4, Data: []byte(m)})
		} else {
			var code int
			if code, err = s.p.Post([]EP{{Type: 4, Data: []byte(m)}}, r.Intn(2) == 0, nil); err == nil && code != 200 {
				err = &statusError{code, "POST"}
			}
		}
		if err != nil {
			c.Failf("live-session", "sending on a live session: %v", err)
			return
		}
		m = fmt.Sprintf("%s down %d", s.sid, len(s.s2c))
		s.s2c = append(s.s2c, m)
		if err := s.so.Send(m); err != nil {
			c.Failf("live-session", "emitting on a live session: %v", err)
			return
		}
	}
	for _, s := range live {
		in := func() []EP {
			if s.w != nil {
				return s.w.Msgs()
			}
			return s.p.Msgs()
		}
		if !c.Await("live-session", "messages of a live session arrive", func() bool { return len(in()) >= len(s.s2c) && a.es.GotN(s.sid) >= len(s.c2s) }) {
			return
		}
		if g, w := textsOf(in()), strings.Join(s.s2c, "\n"); g != w {
			c.Failf("messages", "a session's peer got\n%s\nwant\n%s", g, w)
		}
		if g, w := textsOf(a.es.Got(s.sid)), strings.Join(s.c2s, "\n"); g != w {
			c.Failf("messages", "a session got\n%s\nwant\n%s", g, w)
		}
	}
}

func textsOf(ps []EP) string {
	var l []string
	for _, p := range ps {
		l = append(l, string(p.Data))
	}
	return strings.Join(l, "\n")
}

// c12Sio: the same identity reaches the Socket.IO layer.
func c12Sio(c *Ctx, how string) {
	r := c.R
	type id struct{ sid, hdr, addr string }
	var mu sync.Mutex
	got := map[string][]id{}
	n := 1 + r.Intn(6)
	c.Sample(map[string]interface{}{"handshakes": n, "layer": "socket.io", "delays": how})
	sv := c.NewSio(25*time.Second, 60*time.Second, parserOf(r.Intn(3) == 0), func(s *socketio.Server) {
		s.Namespace("/").OnConnect(func(so socketio.Socket) {
			mu.Lock()
			got[so.Sid()] = append(got[so.Sid()], id{so.Sid(), so.GetHeader("X-Id"), so.RemoteAddr().String()})
			mu.Unlock()
		})
	})
	var wg Group
	want := map[string]id{}
	for i := 0; i < n; i++ {
		h, ws := fmt.Sprint("peer", i), r.Intn(2) == 0
		wg.Add(1)
		go func() {
			defer wg.Done()
			hdr := http.Header{"X-Id": {h}}
			if ws {
				w, _, err := DialWS(sv.Addr, "", hdr)
				if err != nil {
					c.Failf("handshake", "a proper websocket handshake fails: %v", err)
					return
				}
				c.Cleanup(w.Close)
				if c.Await("handshake-stall", "the open packet", func() bool { return w.opened.Load() || w.Ended() }) {
					mu.Lock()
					want[w.Open.SID] = id{w.Open.SID, h, w.Conn.LocalAddr().String()}
					mu.Unlock()
				}
				return
			}
			p, err := DialPoll(sv.Addr, modeXHR2, hdr)
			if err != nil {
				c.Failf("handshake", "a proper polling handshake fails: %v", err)
				return
			}
			c.Cleanup(p.Close)
			mu.Lock()
			want[p.Open.SID] = id{p.Open.SID, h, ""}
			mu.Unlock()
		}()
	}
	c.MustAwait("stall", "handshakes are answered", func() bool { return done(&wg) })
	c.MustAwait("connect-stall", "the connect callbacks run", func() bool { mu.Lock(); defer mu.Unlock(); return len(got) >= n })
	mu.Lock()
	defer mu.Unlock()
	if len(want) != n || len(got) != n {
		c.Fatalf("sid", "%d handshakes, %d sids announced, %d connected", n, len(want), len(got))
	}
	for sid, w := range want {
		g := got[sid]
		if w.addr == "" && len(g) == 1 {
			w.addr = g[0].addr
		}
		if len(g) != 1 || g[0] != w {
			c.Fatalf("identity", "connect callbacks %v for %v", g, w)
		}
	}
	c.Count("handshakes checked", n)
	c.Sig("sio %d %x", n, interleaving())
}

// burst12 are the sids of all bursts of this process. The virtual clock starts at the same time in each of them.
var burst12 = map[string]bool{}

// c12Burst: many handshakes at one and the same time, on the virtual clock.
func c12Burst(c *Ctx) {
	r := c.R
	iv, to := time.Second, time.Second
	c.settle(iv + to)
	es := c.newEngineBare(iv, to, nil)
	c.Cleanup(func() { es.Server.Close() })
	serve := func(method, query, body string) (int, string) {
		req := httptest.NewRequest(method, "/engine.io/?EIO=3&transport=polling"+query, strings.NewReader(body))
		req.Header.Set("Content-Type", "text/plain;charset=UTF-8")
		w := httptest.NewRecorder()
		es.Server.ServeHTTP(w, req)
		return w.Code, w.Body.String()
	}
	k := 1 + r.Intn(4)
	n := k * (300 + r.Intn(500)) / k
	sids := make([][]string, k)
	var wg sync.WaitGroup
	for i := range sids {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for len(sids[i]) < n/k {
				code, body := serve("GET", "", "")
				_, packet, _ := strings.Cut(body, "0{")
				var open struct{ Sid string }
				if code != 200 || len(packet) == 0 || json.Unmarshal([]byte("{"+packet), &open) != nil || open.Sid == "" {
					c.Failf("handshake", "a handshake is answered with %d %q", code, body)
					return
				}
				sids[i] = append(sids[i], open.Sid)
			}
		}()
	}
	wg.Wait()
	c.Stop()
	at := time.Now()
	all := map[string]string{}
	for i := range sids {
		for j, sid := range sids[i] {
			if all[sid] != "" || burst12[sid] {
				c.Fatalf("sid", "two of %d handshakes at the same time were given the sid %s", n+len(burst12), sid)
			}
			all[sid] = fmt.Sprintf("for %d.%d", i, j)
		}
	}
	for sid := range all {
		burst12[sid] = true
	}
	synctest.Wait()
	es.mu.Lock()
	for sid, l := range es.log {
		if all[sid] == "" || len(l) != 1 || l[0] != "open" {
			c.Failf("open", "callbacks of session %s: %v", sid, l)
		}
	}
	if len(es.log) != len(all) {
		c.Failf("open", "%d sessions opened for %d handshakes", len(es.log), len(all))
	}
	es.mu.Unlock()
	c.Stop()
	for sid, text := range all { // each reaches its own
		if code, body := serve("POST", "&sid="+sid, fmt.Sprintf("%d:4%s", len(text)+1, text)); code != 200 {
			c.Fatalf("live-session", "a message to session %s is answered with %d %q", sid, code, body)
		}
	}
	synctest.Wait()
	for sid, text := range all {
		if got := textsOf(es.Got(sid)); got != text {
			c.Failf("messages", "session %s got %q, not %q", sid, got, text)
		}
	}
	if d := time.Since(at); d != 0 {
		c.Tracef("the clock went on by %v", d)
	}
	c.Count("handshakes at one time checked", len(all))
	c.Sig("burst %d %d %d", k, n, c.Case)
}
