package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/gorilla/websocket"
	"github.com/tinylib/msgp/msgp"
	"github.com/zyxar/socketio"
)

func init() {
	register(&Suite{ID: "C02", Quick: 3000, Deep: 80000, MinNT: 2000,
		Rule: "hostile bytes at every input surface (query, headers, methods, polling bodies, websocket frames, Socket.IO frames of both parsers, callback arguments, a hostile server facing the client): grammar-aware mutation of valid input, constructed malformations and random bytes, between valid packets of the same and of bystander sessions; distinct by input bytes",
		Run:  runC02})
}

func runC02(c *Ctx) {
	switch c.Case % 10 {
	case 0:
		c02HTTP(c)
	case 1, 2, 3:
		c02Payload(c)
	case 4:
		c02WS(c)
	case 5, 6:
		c02Sio(c, false)
	case 7, 8:
		c02Sio(c, true)
	case 9:
		c02Client(c)
	}
}

// mutate applies random byte-level edits.
func mutate(r *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	for k := 1 + r.Intn(4); k > 0; k-- {
		n := len(b)
		switch op := r.Intn(8); {
		case n == 0 || op == 0: // insert
			i := r.Intn(n + 1)
			b = append(b[:i], append([]byte{randByte(r)}, b[i:]...)...)
		case op == 1: // delete
			i := r.Intn(n)
			j := min(n, i+1+r.Intn(4))
			b = append(b[:i], b[j:]...)
		case op == 2: // truncate
			b = b[:r.Intn(n)]
		case op == 3: // duplicate a span
			i := r.Intn(n)
			j := min(n, i+1+r.Intn(20))
			b = append(b[:j], append(append([]byte(nil), b[i:j]...), b[j:]...)...)
		case op == 4: // swap
			i, j := r.Intn(n), r.Intn(n)
			b[i], b[j] = b[j], b[i]
		default:
			b[r.Intn(n)] = randByte(r)
		}
	}
	return b
}

const spiceBytes = "0123456789:-,/[]{}\"\\bx_ \x00\xff\x90\x80\xdd\xdf\xc1\xcf"

func randByte(r *rand.Rand) byte {
	if r.Intn(2) == 0 {
		return spiceBytes[r.Intn(len(spiceBytes))]
	}
	return byte(r.Intn(256))
}

// allocated measures what f allocates; meaningful when little else runs.
func allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

func allocLimit(n int) uint64 { return 24<<20 + 512*uint64(n) }

func genDigits(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = '0' + byte(r.Intn(10))
	}
	return string(b)
}

// nestedBinary makes a binary packet that keeps to the framing, with placeholders at any depth and in any number.
func nestedBinary(r *rand.Rand, names []target) []EP {
	n := 0
	var value func(depth int) string
	value = func(depth int) string {
		switch k := r.Intn(8); {
		case k <= 2:
			n++
			num := n - 1
			if r.Intn(4) == 0 {
				num = r.Intn(n + 1)
			}
			return fmt.Sprintf([]string{`{"_placeholder":true,"num":%d}`, `{"num":%d,"_placeholder":true}`, `{ "_placeholder" : true , "num" : %d }`}[r.Intn(3)], num)
		case k == 3 && depth > 0:
			l := make([]string, r.Intn(4))
			for i := range l {
				l[i] = value(depth - 1)
			}
			return "[" + strings.Join(l, ",") + "]"
		case k == 4 && depth > 0:
			return fmt.Sprintf(`{"a":%s,"b":%s}`, value(depth-1), value(depth-1))
		case k == 5:
			return "null"
		default:
			return []string{"1", `"x"`, "true", "{}", "[]"}[r.Intn(5)]
		}
	}
	var l []string
	typ := "5"
	if r.Intn(3) == 0 {
		typ = "6"
	} else {
		l = append(l, fmt.Sprintf("%q", names[r.Intn(len(names))].name))
	}
	for i := r.Intn(5); i > 0; i-- {
		l = append(l, value(2))
	}
	text := "[" + strings.Join(l, ",") + "]"
	id := ""
	if typ == "6" || r.Intn(2) == 0 {
		id = fmt.Sprint(r.Intn(9))
	}
	// what the decoder counts may differ from what is there
	count := n
	if r.Intn(3) == 0 {
		count = r.Intn(n + 2)
	}
	out := []EP{{Type: 4, Data: []byte(fmt.Sprintf("%s%d-%s%s", typ, count, id, text))}}
	for i := 0; i < count; i++ {
		out = append(out, EP{Type: 4, Bin: true, Data: genBytes(r, r.Intn(5))})
	}
	return out
}

// deepMsgpack nests d values in each other, arrays and maps in any place of a packet.
func deepMsgpack(r *rand.Rand, d int) []byte {
	var nest []byte
	kinds := [][]byte{{0x91}, {0x81, 0xa1, 'k'}, {0x82, 0xa1, 'k', 1, 0xa1, 'l'}, {0x92, 1}, {0x93, 1, 0x80}, {0xdc, 0, 1}, {0xdf, 0, 0, 0, 1, 0xa0}}
	one := kinds[r.Intn(len(kinds))]
	if r.Intn(2) == 0 {
		nest = bytes.Repeat(one, d)
	} else {
		for i := 0; i < d; i++ {
			nest = append(nest, kinds[r.Intn(len(kinds))]...)
		}
	}
	if r.Intn(2) == 0 {
		nest = append(nest, 0xc0)
	}
	switch r.Intn(4) {
	case 0:
		return append([]byte("\x85\xa4type\x02\xa3nsp\xa1/\xa2id\xc0\xa1x"), nest...)
	case 1:
		return append([]byte("\x84\xa4type\x02\xa3nsp"), nest...)
	default:
		return append([]byte("\x84\xa4type\x02\xa3nsp\xa1/\xa2id\xc0\xa4data\x92\xa3any"), nest...)
	}
}

// serveDirect calls the handler without a network.
func (c *Ctx) serveDirect(h http.Handler, req *http.Request, what string) *httptest.ResponseRecorder {
	rec := httptest.NewRecorder()
	ctx, cancel := context.WithCancel(req.Context())
	defer cancel()
	req = req.WithContext(ctx)
	g := c.guard(h, new(atomic.Int64))
	if !c.Within("no-answer", "a request is answered: "+what, func() { g.ServeHTTP(rec, req) }) {
		panic(abort{})
	}
	c.Stop()
	return rec
}

// bystander is a healthy session whose echoes must keep coming.
type bystander struct {
	c *Ctx
	w *WS
	s *EngineServer
	n int
}

func (b *bystander) check(when string) {
	b.n++
	m := fmt.Sprintf("bystander-%d", b.n)
	if err := b.w.Send(EP{Type: 4, Data: []byte(m)}); err != nil {
		b.c.Fatalf("bystander", "another session is dead after %s: %v", when, err)
	}
	sid := b.w.Open.SID
	b.c.MustAwait("bystander", "another session's message is processed after "+when, func() bool {
		return b.s.GotN(sid) >= b.n || b.w.Ended()
	})
	got := b.s.Got(sid)
	if len(got) != b.n || string(got[b.n-1].Data) != m {
		b.c.Fatalf("bystander", "another session received %d messages instead of %d after %s", len(got), b.n, when)
	}
}

func c02HTTP(c *Ctx) {
	s := c.NewEngine(time.Minute, time.Minute, nil)
	by := &bystander{c: c, w: c.MustWS(s.Addr), s: s}
	live := c.MustPoll(s.Addr, modeXHR2)
	sid := live.Open.SID
	pick := func(l ...string) string { return l[c.R.Intn(len(l))] }
	for k := 0; k < 60; k++ {
		q := url.Values{}
		add := func(key string, vals ...string) {
			if c.R.Intn(6) > 0 {
				q.Add(key, pick(vals...))
			}
			if c.R.Intn(12) == 0 {
				q.Add(key, string(genBytes(c.R, c.R.Intn(20))))
			}
		}
		add("EIO", "3", "3", "3", "4", "2", "", "03", "3 ")
		add("transport", "polling", "polling", "websocket", "jsonp", "", "Polling", "flashsocket")
		sidv := pick("", "nope", sid+"x", strings.ToLower(sid), "../"+sid, string(genBytes(c.R, 26)))
		method := pick("GET", "GET", "POST", "PUT", "DELETE", "OPTIONS", "HEAD", "PATCH", "")
		if method != "GET" && c.R.Intn(2) == 0 {
			sidv = sid // anything but a poll may address the live session
		}
		if sidv != "" || c.R.Intn(3) == 0 {
			q.Set("sid", sidv)
		}
		add("j", "0", "1", "x", "<script>", "-1", "99999999999999999999")
		add("b64", "0", "1", "true")
		raw := q.Encode()
		if c.R.Intn(5) == 0 {
			raw = string(mutate(c.R, []byte(raw)))
		}
		var body []byte
		if c.R.Intn(2) == 0 {
			body = genBytes(c.R, c.R.Intn(100))
		}
		req := httptest.NewRequest("GET", "/engine.io/", bytes.NewReader(body))
		if method != "" {
			req.Method = method
		}
		req.URL.RawQuery = raw
		for _, h := range []string{"Content-Type", "Upgrade", "Connection", "Sec-WebSocket-Key", "Sec-WebSocket-Version", "Origin"} {
			if c.R.Intn(3) == 0 {
				req.Header.Set(h, pick("websocket", "Upgrade", "13", "dGhlIHNhbXBsZSBub25jZQ==", "text/plain", "text/plain;charset=utf-8", "application/octet-stream", "text/plain; charset=\"", "a/b;c", ";", "http://x", string(genBytes(c.R, 8))))
			}
		}
		what := fmt.Sprintf("%s ?%s (live sid %s)", req.Method, raw, sid)
		v := req.URL.Query()
		if v.Get("sid") == sid && v.Get("EIO") == "3" {
			if v.Get("transport") != "polling" || req.Method == "GET" || req.Method == "HEAD" {
				continue // a poll of the live session may block legitimately; upgrades are another suite
			}
			if req.Method == "POST" {
				req.Header.Set("Content-Type", pick("", "text/html", "text/plain", "text/plain; charset=latin1", "application/json", "application/octet-stream;", "text/plain;charset=UTF-8"))
				if ct := req.Header.Get("Content-Type"); strings.HasPrefix(ct, "application/octet") || strings.HasSuffix(ct, "UTF-8") {
					req.Body = http.NoBody
				}
			}
		}
		newSess := v.Get("EIO") == "3" && v.Get("sid") == "" && v.Get("transport") == "polling"
		rec := c.serveDirect(s.Server, req, what)
		if newSess {
			continue
		}
		if rec.Code >= 500 && v.Get("transport") != "websocket" {
			c.Fatalf("status", "%s answered with %d", what, rec.Code)
		}
		if rec.Code < 400 && (v.Get("EIO") != "3" || (v.Get("transport") != "polling" && v.Get("transport") != "websocket") || (v.Get("sid") != "" && v.Get("sid") != sid)) {
			c.Fatalf("status", "%s answered with %d", what, rec.Code)
		}
		c.Count("requests", 1)
		c.Sig("http %s", what)
		if k == 0 {
			c.Sample(map[string]interface{}{"surface": "http", "request": what, "status": rec.Code})
		}
	}
	by.check("hostile requests")
	c02After(c, s, live, 1)
}

// c02After: the session still carries well-formed traffic both ways.
func c02After(c *Ctx, s *EngineServer, p *Poll, k int) {
	sid := p.Open.SID
	n := s.GotN(sid)
	m := EP{Type: 4, Data: []byte(fmt.Sprintf("after-%d", k))}
	var code int
	var err error
	if !c.Within("post-stall", "a well-formed POST is answered after malformed ones", func() { code, err = p.Post([]EP{m}, k%2 == 0, nil) }) {
		panic(abort{})
	}
	if err != nil || code != 200 {
		c.Fatalf("after", "a well-formed POST after malformed ones is answered with %d, %v", code, err)
	}
	c.MustAwait("after", "a well-formed message after malformed input is processed", func() bool { return s.GotN(sid) > n })
	if got := s.Got(sid); len(got) != n+1 || !got[n].equal(m) {
		c.Fatalf("after", "after malformed input: got %v, want %v", got[n:], m)
	}
}

// malform builds a body that no reading of the framing accepts.
func malform(r *rand.Rand, xhr2 bool) (body []byte, good int, what string) {
	pre := make([]EP, r.Intn(3))
	for i := range pre {
		pre[i] = EP{Type: []byte{4, 4, 2}[r.Intn(3)], Bin: r.Intn(2) == 0, Data: []byte(fmt.Sprintf("must-not-take-effect-%d", i))}
	}
	last := EP{Type: 4, Bin: r.Intn(2) == 0, Data: genBytes(r, 1+r.Intn(400))}
	if !last.Bin {
		last.Data = []byte(genText(r, 1+r.Intn(400)) + "x")
	}
	huge := []string{"99999999999999999999999", "9223372036854775807", "9223372036854775808", "18446744073709551617", "2147483647", "2147483649", "4294967297", "1099511627776"}[r.Intn(8)]
	if r.Intn(2) == 0 { // of any magnitude
		huge = string('1'+byte(r.Intn(9))) + genDigits(r, 4+r.Intn(20))
	}
	if xhr2 {
		body = encXHR2(pre)
		e := encXHR2([]EP{last})
		digits := func(s string) []byte {
			b := []byte(s)
			for i := range b {
				b[i] -= '0'
			}
			return b
		}
		switch r.Intn(6) {
		case 0:
			k := 1 + r.Intn(len(e)-1)
			return append(body, e[:k]...), len(pre), fmt.Sprintf("truncated to %d of %d", k, len(e))
		case 1:
			e[0] = byte(2 + r.Intn(253))
			return append(body, e...), len(pre), "packet kind"
		case 2:
			e[1] = byte(10 + r.Intn(240))
			return append(body, e...), len(pre), "length digit"
		case 3:
			e = append(append([]byte{byte(r.Intn(2))}, digits(huge)...), 0xFF, '4', 'x')
			return append(body, e...), len(pre), "length " + huge
		case 4:
			return append(body, byte(r.Intn(2)), 0, 0xFF, '4'), len(pre), "length 0"
		default:
			if last.Bin {
				e[bytes.IndexByte(e, 0xFF)+1] = byte(7 + r.Intn(249))
			} else {
				e[bytes.IndexByte(e, 0xFF)+1] = byte('7' + r.Intn(200))
			}
			return append(body, e...), len(pre), "packet type"
		}
	}
	body = encText(pre)
	e := encText([]EP{last})
	colon := bytes.IndexByte(e, ':')
	switch r.Intn(9) {
	case 0:
		k := 1 + r.Intn(len(e)-1)
		return append(body, e[:k]...), len(pre), fmt.Sprintf("truncated to %d of %d", k, len(e))
	case 1:
		e[r.Intn(colon)] = "-+ x.,\x00\xff"[r.Intn(8)]
		return append(body, e...), len(pre), "length digit"
	case 2:
		return append(body, []byte(huge+":4x")...), len(pre), "length " + huge
	case 3:
		return append(body, []byte(huge+":b4eHh4")...), len(pre), "binary length " + huge
	case 4:
		return append(body, "0:4"...), len(pre), "length 0"
	case 5:
		return append(body, []string{"1:b4", "1:b", "0:b4", "2:b"}[r.Intn(4)]...), len(pre), "short binary"
	case 6:
		return append(body, []string{"6:b4!!!!", "6:b4e$h4", "6:b4====", "5:b4eHh", "3:b4e"}[r.Intn(5)]...), len(pre), "invalid base64"
	case 7:
		i := colon + 1
		if last.Bin {
			i++
		}
		e[i] = "789/;A \xff"[r.Intn(8)]
		return append(body, e...), len(pre), "packet type"
	default:
		return append(body, "x"...), len(pre), "garbage"
	}
}

// c02Judge compares what became of a body with what two independent readings of the framing, a strict and a lenient
// one, make of it.
func c02Judge(c *Ctx, s *EngineServer, v *Poll, body []byte, xhr2 bool, code int) {
	dec := decTextAs
	if xhr2 {
		dec = decXHR2As
	}
	ps, err := dec(body, true)
	_, lerr := dec(body, false)
	sid := v.Open.SID
	switch {
	case err == nil:
		var want []EP
		for _, p := range ps {
			if p.Type == 1 {
				if code >= 400 && code != 404 {
					c.Fatalf("refused", "well-formed body %q answered with %d", clip(string(body), 300), code)
				}
				return // the session ends
			}
			if p.Type == 4 {
				want = append(want, p)
			}
		}
		if code != 200 {
			c.Fatalf("refused", "well-formed body %q answered with %d", clip(string(body), 300), code)
		}
		c.MustAwait("refused", "the packets of a well-formed body take effect", func() bool { return s.GotN(sid) >= len(want) })
		if got := s.Got(sid); !epsEqual(got, want) {
			c.Fatalf("misread", "body %q is read as %v, want %v", clip(string(body), 300), got, want)
		}
		c.Count("mutated bodies that were well-formed", 1)
	case lerr != nil:
		if code < 400 {
			c.Fatalf("malformed-accepted", "malformed body %q (%v) answered with %d", clip(string(body), 300), lerr, code)
		}
		c02After(c, s, v, 0)
		if k := s.Events(sid, "ping"); k != 0 {
			c.Fatalf("malformed-effect", "pings of malformed body %q took effect", clip(string(body), 300))
		}
		c.Count("mutated bodies that were malformed", 1)
	}
}

func c02Payload(c *Ctx) {
	s := c.newEngineBare(time.Minute, time.Minute, nil)
	c.Cleanup(func() { s.Server.Close() })
	s.Front = c.Serve(s.Server)
	by := &bystander{c: c, w: c.MustWS(s.Addr), s: s}
	p := c.MustPoll(s.Addr, modeXHR2)
	s.WaitSock(p.Open.SID)
	sid := p.Open.SID
	for k := 0; k < 25; k++ {
		xhr2 := c.R.Intn(2) == 0
		body, _, what := malform(c.R, xhr2)
		definite := true
		if c.R.Intn(3) == 0 {
			enc := encText
			if xhr2 {
				enc = encXHR2
			}
			if ps := genEPs(c.R, 200, true); c.R.Intn(3) > 0 {
				body = mutate(c.R, enc(ps))
			} else { // something between packets
				i := c.R.Intn(len(ps) + 1)
				junk := []byte{randByte(c.R)}
				for c.R.Intn(3) == 0 {
					junk = append(junk, randByte(c.R))
				}
				body = append(append(enc(ps[:i]), junk...), enc(ps[i:])...)
			}
			definite, what = false, "mutated"
		}
		ct := "text/plain;charset=UTF-8"
		if xhr2 {
			ct = "application/octet-stream"
		}
		n := s.GotN(sid)
		pongs := s.Events(sid, "ping")
		if c.R.Intn(6) == 0 { // a proper body whose type may be odd: taken whole or not at all
			ps := []EP{}
			for i := 1 + c.R.Intn(4); i > 0; i-- {
				ps = append(ps, EP{Type: 4, Data: []byte(genText(c.R, c.R.Intn(50)))})
			}
			body := encText(ps)
			if xhr2 {
				body = encXHR2(ps)
			}
			ct += []string{"; x", "; x=", ";", "; =", ";;", "; x=1; x=2", "; q=\"", "; charset", ";charset=UTF-8", " ", "/x", ",text/plain", "; \xff=1", ";a=b", "; boundary=x"}[c.R.Intn(15)]
			req := httptest.NewRequest("POST", "/engine.io/?EIO=3&transport=polling&sid="+sid, bytes.NewReader(body))
			req.Header.Set("Content-Type", ct)
			rec := c.serveDirect(s.Server, req, fmt.Sprintf("POST %q as %q", clip(string(body), 200), ct))
			want := n + 1
			if rec.Code < 400 {
				want += len(ps)
			}
			last := EP{Type: 4, Data: []byte(fmt.Sprintf("last-%d", k))}
			if code, err := p.Post([]EP{last}, k%2 == 0, nil); err != nil || code != 200 {
				c.Fatalf("after", "a well-formed POST after one of an odd type is answered with %d, %v", code, err)
			}
			c.MustAwait("after", "a message after a POST of an odd type is processed", func() bool { g := s.Got(sid); return len(g) > n && g[len(g)-1].equal(last) })
			if got := s.GotN(sid); got != want {
				c.Fatalf("odd-type", "a POST of %d messages as %q is answered with %d; %d of them took effect", len(ps), ct, rec.Code, got-n-1)
			}
			c.Count("proper bodies of an odd type", 1)
			c.Sig("type %q %v", ct, rec.Code)
			continue
		}
		if !definite { // a mutated body may be legal; on a session of its own
			v := c.MustPoll(s.Addr, modeXHR2)
			s.WaitSock(v.Open.SID)
			req := httptest.NewRequest("POST", "/engine.io/?EIO=3&transport=polling&sid="+v.Open.SID, bytes.NewReader(body))
			req.Header.Set("Content-Type", ct)
			var rec *httptest.ResponseRecorder
			al := allocated(func() { rec = c.serveDirect(s.Server, req, fmt.Sprintf("POST %q", clip(string(body), 200))) })
			if al > allocLimit(len(body)) {
				c.Fatalf("allocation", "a POST of %d bytes made the server allocate %d bytes: %q", len(body), al, clip(string(body), 200))
			}
			c02Judge(c, s, v, body, xhr2, rec.Code)
			v.Close()
			c.Sig("mutated %x", body)
			c.Count("mutated bodies", 1)
			continue
		}
		req := httptest.NewRequest("POST", "/engine.io/?EIO=3&transport=polling&sid="+sid, bytes.NewReader(body))
		req.Header.Set("Content-Type", ct)
		if c.R.Intn(4) == 0 {
			rd, _ := fragment(c.R, body)
			req = httptest.NewRequest("POST", "/engine.io/?EIO=3&transport=polling&sid="+sid, rd)
			req.Header.Set("Content-Type", ct)
		}
		var rec *httptest.ResponseRecorder
		al := allocated(func() { rec = c.serveDirect(s.Server, req, fmt.Sprintf("POST %s %q", what, clip(string(body), 200))) })
		if al > allocLimit(len(body)) {
			c.Fatalf("allocation", "a POST of %d bytes (%s) made the server allocate %d bytes: %q", len(body), what, al, clip(string(body), 200))
		}
		if rec.Code < 400 {
			c.Fatalf("malformed-accepted", "malformed body (%s) %q answered with %d", what, clip(string(body), 200), rec.Code)
		}
		c.Count("malformed bodies", 1)
		c.Sig("malformed %x", body)
		c02After(c, s, p, k)
		if got := s.GotN(sid); got != n+1 || s.Events(sid, "ping") != pongs {
			c.Fatalf("malformed-effect", "packets of a malformed body (%s) %q took effect: %d messages, %d pings", what, clip(string(body), 200), got-n-1, s.Events(sid, "ping")-pongs)
		}
		if k == 0 {
			c.Sample(map[string]interface{}{"surface": "polling body", "xhr2": xhr2, "malformation": what, "body": clip(fmt.Sprintf("%q", body), 200), "status": rec.Code})
		}
	}
	by.check("malformed polling bodies")
}

// c02WS: hostile websocket traffic, below and at the Engine.IO level.
func c02WS(c *Ctx) {
	s := c.NewEngine(time.Minute, time.Minute, nil)
	by := &bystander{c: c, w: c.MustWS(s.Addr), s: s}
	for k := 0; k < 10; k++ {
		w := c.MustWS(s.Addr)
		s.WaitSock(w.Open.SID)
		fatal := false
		var what string
		r := c.R
		switch r.Intn(8) {
		case 0:
			what, fatal = "empty message", true
			w.SendRaw(1+r.Intn(2), nil)
		case 1:
			b := genBytes(r, 1+r.Intn(40))
			if b[0] == '1' {
				b[0] = 'q'
			}
			what = fmt.Sprintf("text %q", b)
			w.SendRaw(websocket.TextMessage, b)
		case 2:
			b := genBytes(r, 1+r.Intn(40))
			if b[0] == 1 {
				b[0] = 200
			}
			what = fmt.Sprintf("binary %q", b)
			w.SendRaw(websocket.BinaryMessage, b)
		case 3:
			for i := 0; i < 20; i++ {
				w.SendRaw(websocket.TextMessage, []byte{byte('7' + r.Intn(100))})
				w.SendRaw(websocket.BinaryMessage, []byte{byte(7 + r.Intn(200)), 1, 2})
			}
			what = "unknown packet types"
		case 4:
			what = "packets out of place"
			for i := 0; i < 10; i++ {
				w.Send(EP{Type: []byte{0, 3, 5, 6}[r.Intn(4)], Bin: r.Intn(2) == 0, Data: genBytes(r, r.Intn(30))})
			}
		case 5:
			what = "control frames"
			w.wmu.Lock()
			w.Conn.WriteControl(websocket.PingMessage, genBytes(r, r.Intn(125)), time.Now().Add(time.Minute))
			w.Conn.WriteControl(websocket.PongMessage, genBytes(r, r.Intn(125)), time.Now().Add(time.Minute))
			w.wmu.Unlock()
		case 6:
			what, fatal = "raw frame bytes", true
			b := genBytes(r, 2+r.Intn(30))
			b[0] |= 0x70 // reserved bits
			w.Conn.UnderlyingConn().Write(b)
		default:
			what, fatal = "a frame announcing a huge length", true
			b := []byte{0x82, 0xff, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5}
			binary.BigEndian.PutUint64(b[2:], []uint64{1 << 62, 1 << 40, 1 << 33}[r.Intn(3)])
			al := allocated(func() {
				w.Conn.UnderlyingConn().Write(b)
				time.Sleep(3 * time.Millisecond)
			})
			if al > 256<<20 {
				c.Fatalf("allocation", "a websocket frame header made the server allocate %d bytes", al)
			}
			w.Close()
		}
		c.Count("hostile websocket inputs", 1)
		c.Sig("ws %s %d", what, r.Int63())
		c.Tracef("%s", what)
		if !fatal {
			sid := w.Open.SID
			n := EP{Type: 4, Data: []byte("later message")}
			w.Send(n)
			c.MustAwait("after", "a later message is processed after "+what, func() bool {
				g := s.Got(sid)
				return (len(g) > 0 && g[len(g)-1].equal(n)) || w.Ended()
			})
			if g := s.Got(sid); len(g) == 0 || !g[len(g)-1].equal(n) {
				c.Fatalf("after", "%s ended the connection", what)
			}
		}
		by.check(what)
		if k == 0 {
			c.Sample(map[string]interface{}{"surface": "websocket", "input": what})
		}
	}
}

type strKey string

// target is a registered callback and its parameter types.
type target struct {
	name string
	args []reflect.Type
}

// genArg makes a value that fits a parameter of type t, mostly.
func genArg(r *rand.Rand, t reflect.Type, msgpack bool, depth int) interface{} {
	if r.Intn(12) == 0 || depth < 0 {
		return genSioJSON(r, 2)
	}
	switch t {
	case reflect.TypeOf(socketio.Bytes{}):
		return genBytes(r, r.Intn(10))
	case reflect.TypeOf(time.Time{}):
		if msgpack {
			return mpExt{5, genBytes(r, []int{12, 12, 11, 0}[r.Intn(4)])}
		}
		return "2020-01-01T00:00:00Z"
	}
	num := func() interface{} {
		return []interface{}{int64(r.Intn(100)), int64(-r.Intn(100)), int64(r.Intn(70000)), int64(r.Uint64()), uint64(1<<64 - 1)}[r.Intn(5)]
	}
	switch t.Kind() {
	case reflect.Ptr:
		return genArg(r, t.Elem(), msgpack, depth-1)
	case reflect.Bool:
		return r.Intn(2) == 0
	case reflect.String:
		return genText(r, r.Intn(10))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return num()
	case reflect.Float32, reflect.Float64:
		if r.Intn(3) == 0 {
			return num()
		}
		return r.Float64() * 100
	case reflect.Complex64, reflect.Complex128:
		if !msgpack {
			return 1.5
		}
		return mpExt{byte(3 + r.Intn(2)), genBytes(r, []int{8, 16, 8, 3}[r.Intn(4)])}
	case reflect.Slice, reflect.Array:
		if msgpack && t.Elem().Kind() == reflect.Uint8 {
			return genBytes(r, r.Intn(8))
		}
		n := r.Intn(4)
		if t.Kind() == reflect.Array && r.Intn(2) == 0 {
			n = t.Len()
		}
		l := make([]interface{}, n)
		for i := range l {
			l[i] = genArg(r, t.Elem(), msgpack, depth-1)
		}
		return l
	case reflect.Map:
		m := map[string]interface{}{}
		for i := r.Intn(4); i > 0; i-- {
			m[genText(r, r.Intn(6))] = genArg(r, t.Elem(), msgpack, depth-1)
		}
		return m
	case reflect.Struct:
		m := map[string]interface{}{}
		for i := 0; i < t.NumField(); i++ {
			if r.Intn(2) == 0 {
				m[strings.ToLower(t.Field(i).Name)] = genArg(r, t.Field(i).Type, msgpack, depth-1)
			}
		}
		return m
	}
	return genSioJSON(r, 2)
}

type c02Struct struct {
	A int                    `json:"a"`
	B string                 `json:"b"`
	C []float64              `json:"c"`
	D map[string]interface{} `json:"d"`
	E *c02Struct             `json:"e"`
	T time.Time              `json:"t"`
}

// c02Callbacks registers callbacks of every parameter shape.
func c02Callbacks(n socketio.Namespace, msgpack bool, hit *atomic.Int64) (names []target) {
	on := func(name string, f interface{}) {
		t := target{name: name}
		for i, ft := 0, reflect.TypeOf(f); i < ft.NumIn(); i++ {
			if in := ft.In(i); in != reflect.TypeOf((*socketio.Socket)(nil)).Elem() {
				t.args = append(t.args, in)
			}
		}
		names = append(names, t)
		n.OnEvent(name, f)
	}
	on("none", func() { hit.Add(1) })
	on("str", func(string) { hit.Add(1) })
	on("int", func(so socketio.Socket, a int, b int8, d uint64) (int, string) { hit.Add(1); return a, "x" })
	on("float", func(float32, float64) { hit.Add(1) })
	on("bool", func(bool, *bool) { hit.Add(1) })
	on("any", func(interface{}, interface{}) { hit.Add(1) })
	on("map", func(map[string]interface{}) { hit.Add(1) })
	on("mapint", func(map[string]int, map[strKey]string) { hit.Add(1) })
	on("slice", func([]string, []int, [][]byte) { hit.Add(1) })
	on("array", func([3]int, [0]string) { hit.Add(1) })
	on("bytes", func([]byte) { hit.Add(1) })
	on("bin", func(socketio.Bytes, string) { hit.Add(1) })
	on("bins", func(*socketio.Bytes, string, *socketio.Bytes) { hit.Add(1) })
	on("bins3", func(socketio.Bytes, socketio.Bytes, socketio.Bytes) { hit.Add(1) })
	on("binsock", func(socketio.Bytes, socketio.Socket, *socketio.Bytes, []interface{}) { hit.Add(1) })
	on("binany", func(interface{}, socketio.Bytes, []interface{}, *socketio.Bytes) { hit.Add(1) })
	on("variadic", func(string, ...int) { hit.Add(1) })
	on("ptr", func(*string, *int, **int) { hit.Add(1) })
	on("time", func(time.Time, time.Duration) { hit.Add(1) })
	on("struct", func(c02Struct, *c02Struct) { hit.Add(1) })
	on("ret", func() (interface{}, []byte, map[string]int) { hit.Add(1); return nil, []byte{1}, nil })
	on("mapiface", func(map[string]fmt.Stringer) { hit.Add(1) })
	on("mapmap", func(map[strKey]map[strKey][]int) { hit.Add(1) })
	on("nested", func([][][]interface{}) { hit.Add(1) })
	on("complex", func(complex64) { hit.Add(1) })
	if msgpack {
		on("raw", func(msgp.Raw) { hit.Add(1) })
	}
	return
}

func genSioJSON(r *rand.Rand, depth int) interface{} {
	switch k := r.Intn(11); {
	case k == 0:
		return nil
	case k == 1:
		return r.Intn(2) == 0
	case k == 2:
		return r.Int63()
	case k == 3:
		return -r.Float64() * 1e10
	case k == 4:
		return map[string]interface{}{"_placeholder": true, "num": r.Intn(4) - 1}
	case k <= 6 || depth <= 0:
		return genText(r, r.Intn(12))
	case k <= 8:
		l := make([]interface{}, r.Intn(4))
		for i := range l {
			l[i] = genSioJSON(r, depth-1)
		}
		return l
	default:
		m := map[string]interface{}{}
		for i := r.Intn(4); i > 0; i-- {
			m[genText(r, 1+r.Intn(6))] = genSioJSON(r, depth-1)
		}
		return m
	}
}

// hostileSio makes a Socket.IO frame sequence: valid-looking, mutated, or constructed to be malformed. It never is a
// disconnect packet of "/live".
func hostileSio(r *rand.Rand, names []target, msgpack bool) []EP {
	if r.Intn(40) == 0 { // deep nesting
		d := []int{100, 5000, 60000, 3000000}[r.Intn(4)]
		if msgpack {
			return []EP{{Type: 4, Bin: true, Data: deepMsgpack(r, d)}}
		}
		if d > 200000 { // regular expressions go over it, which takes its time
			d = 200000
		}
		s := []string{`2["any",`, `4`, `0`, `31`, `51-["any",{"_placeholder":true,"num":0},`, `1/none,`}[r.Intn(6)] + strings.Repeat([]string{"[", `{"a":`}[r.Intn(2)], d)
		if r.Intn(2) == 0 {
			s += strings.Repeat("]", d) + "]"
		}
		return []EP{{Type: 4, Data: []byte(s)}}
	}
	if !msgpack && r.Intn(8) == 0 {
		return nestedBinary(r, names)
	}
	nsp := []string{"/", "/", "/nope", "/x y", "/a%2Fb", "/%zz", "/a?b=c", "//", "/é"}[r.Intn(9)]
	var tg target
	fits := false
	p := SP{Type: []byte{2, 2, 2, 3, 4, 0, 5, 6}[r.Intn(8)], Nsp: nsp}
	if r.Intn(2) == 0 {
		p.ID = uid([]uint64{0, 1, 2, 77, 1<<64 - 1}[r.Intn(5)])
	}
	if p.Type == 2 || p.Type == 3 || p.Type >= 5 {
		p.Args = []interface{}{}
		if p.Type == 2 || p.Type == 5 {
			tg = names[r.Intn(len(names))]
			p.Args = append(p.Args, tg.name)
			if r.Intn(2) == 0 { // arguments that fit: the conversions themselves are the surface
				fits = true
				p.Nsp = "/"
				for _, t := range tg.args {
					p.Args = append(p.Args, genArg(r, t, msgpack, 4))
				}
			}
		}
		if !fits {
			for i := r.Intn(5); i > 0; i-- {
				if r.Intn(3) == 0 {
					p.Args = append(p.Args, genBytes(r, r.Intn(10)))
				} else {
					p.Args = append(p.Args, genSioJSON(r, 3))
				}
			}
		}
	} else {
		p.Data = genSioJSON(r, 3)
	}
	if msgpack {
		fs := mpFramesGeneric(p, r)
		for i := range fs {
			if r.Intn(2) == 0 && (!fits || r.Intn(4) == 0) {
				fs[i].Data = mutate(r, fs[i].Data)
			}
			if r.Intn(15) == 0 {
				fs[i].Bin = !fs[i].Bin
			}
		}
		return fs
	}
	t, att := encSIO(p)
	b := []byte(t)
	sel := r.Intn(6)
	if fits && r.Intn(4) > 0 {
		sel = 5
	}
	switch sel {
	case 0, 1:
		b = mutate(r, b)
	case 2:
		b = []byte([]string{"5", "6", "5-", "51", "51-", "5999999999999999999999-[\"bin\"]", "59-[\"bin\",{\"_placeholder\":true,\"num\":0}]", "50-[\"bin\"]", "2", "3", "2[]", "2[1]", "2[null]", "2[\"\"]", "2{}", "2\"str\"", "2[", "2[\"str\"", "30", "3[", "31[", "4{", "4[[[", "7", "9[]", "", ":", "2/", "2/,", "2/nope", "2/nope,[\"x\"]", "0/", "4/,", "299999999999999999999999[\"none\"]", "5-1-[\"bin\"]", "51-[{\"_placeholder\":true,\"num\":0}]", "61-0[{\"_placeholder\":true,\"num\":99}]", "61-{\"_placeholder\":true,\"num\":0}", "\x00", "\xff\xfe"}[r.Intn(40)])
	}
	if len(b) > 0 && b[0] == '1' {
		b[0] = '2'
	}
	out := []EP{{Type: 4, Data: b}}
	for _, a := range att {
		if r.Intn(6) > 0 {
			out = append(out, EP{Type: 4, Bin: true, Data: a})
		}
	}
	if r.Intn(6) == 0 {
		out = append(out, EP{Type: 4, Bin: true, Data: genBytes(r, r.Intn(5))})
	}
	return out
}

func mpFramesGeneric(s SP, r *rand.Rand) []EP {
	fix := func(v interface{}) interface{} { return v }
	args := make([]interface{}, len(s.Args))
	for i := range s.Args {
		args[i] = fix(s.Args[i])
		if r.Intn(12) == 0 {
			args[i] = mpExt{byte(r.Intn(256)), genBytes(r, r.Intn(20))}
		}
	}
	if s.Args != nil {
		s.Args = args
	}
	return mpFrames(s)
}

func c02Sio(c *Ctx, msgpack bool) {
	parser := socketio.DefaultParser
	if msgpack {
		parser = socketio.MsgpackParser
	}
	var hits, errs, live atomic.Int64
	ackFns := []interface{}{
		func() { hits.Add(1) }, func(string, int) { hits.Add(1) }, func(*socketio.Bytes, string) { hits.Add(1) }, func(map[strKey]int) { hits.Add(1) },
		func(socketio.Socket, interface{}, []string) { hits.Add(1) }, func(...int) { hits.Add(1) }, func(c02Struct) { hits.Add(1) }, func(time.Time, [2]bool) { hits.Add(1) },
		func(socketio.Bytes, socketio.Bytes, socketio.Socket, *socketio.Bytes) { hits.Add(1) },
	}
	quiet := c.R.Intn(4) == 0 // no error callbacks registered
	var mu sync.Mutex
	liveGot := map[string][]string{}
	var names []target
	s := c.NewSio(time.Minute, time.Minute, parser, func(sv *socketio.Server) {
		names = c02Callbacks(sv.Namespace("/"), msgpack, &hits)
		if !quiet {
			sv.Namespace("/").OnError(func(so socketio.Socket, err ...interface{}) { errs.Add(1) })
			sv.OnError(func(error) { errs.Add(1) })
		}
		sv.Namespace("/").OnConnect(func(so socketio.Socket) {
			for _, f := range ackFns {
				so.Emit("question", f)
			}
		})
		sv.Namespace("/live").OnEvent("m", func(so socketio.Socket, s string) string {
			mu.Lock()
			liveGot[so.Sid()] = append(liveGot[so.Sid()], s)
			mu.Unlock()
			live.Add(1)
			return s
		})
	})
	join := func(p *SPeer) {
		p.Send(SP{Type: 0, Nsp: "/live"})
	}
	by := c.MustSPeer(s.Addr, false, msgpack)
	join(by)
	polling := c.R.Intn(4) == 0
	p := c.MustSPeer(s.Addr, polling, msgpack)
	join(p)
	ackTargets := make([]target, len(ackFns))
	for i, f := range ackFns {
		for k, ft := 0, reflect.TypeOf(f); k < ft.NumIn(); k++ {
			if in := ft.In(k); in != reflect.TypeOf((*socketio.Socket)(nil)).Elem() {
				ackTargets[i].args = append(ackTargets[i].args, in)
			}
		}
	}
	got := func(x *SPeer) []string { mu.Lock(); defer mu.Unlock(); return append([]string(nil), liveGot[x.sid]...) }
	var seqs int
	check := func(x *SPeer, name string) {
		seqs++
		m := fmt.Sprintf("valid-%d", seqs)
		n := len(got(x))
		if err := x.Send(SP{Type: 2, Nsp: "/live", Args: []interface{}{"m", m}}); err != nil {
			c.Fatalf(name, "the session is dead after hostile packets: %v", err)
		}
		c.MustAwait(name, "a later valid event is processed ("+name+")", func() bool { return len(got(x)) > n || x.Ended() })
		if g := got(x); len(g) != n+1 || g[n] != m {
			c.Fatalf(name, "after hostile packets: got %v, want %s", g[n:], m)
		}
	}
	for k := 0; k < 25; k++ {
		fs := hostileSio(c.R, names, msgpack)
		if c.R.Intn(4) == 0 { // answer one of the server's questions
			i := c.R.Intn(len(ackTargets))
			a := SP{Type: 3, Nsp: "/", ID: uid(uint64(i + 1)), Args: []interface{}{}}
			for _, t := range ackTargets[i].args {
				a.Args = append(a.Args, genArg(c.R, t, msgpack, 3))
			}
			fs = p.framesOf(a)
		}
		size := 0
		for _, f := range fs {
			size += len(f.Data)
			c.Tracef("send %v", f)
			if !f.Bin && msgpack && bytes.Contains(f.Data, []byte("/live")) {
				c.Inconclusive("generator")
			}
		}
		al := allocated(func() {
			if err := p.SendFrames(fs...); err != nil {
				c.Fatalf("session", "the session ended on hostile packets: %v", err)
			}
			check(p, "after")
		})
		if al > allocLimit(size) {
			c.Fatalf("allocation", "%d bytes of Socket.IO frames made the process allocate %d bytes", size, al)
		}
		c.Count("hostile packets", 1)
		if len(fs) > 0 {
			c.Sig("sio %v %x", msgpack, clip(string(fs[0].Data), 4096))
		}
		if k == 0 {
			c.Sample(map[string]interface{}{"surface": "socket.io packets", "msgpack": msgpack, "polling": polling, "frames": clip(fmt.Sprint(fs), 300)})
		}
	}
	check(by, "bystander")
	c.Count("callbacks run", int(hits.Load()))
	c.Count("errors reported", int(errs.Load()))
}

// c02Client: a hostile server.
func c02Client(c *Ctx) {
	msgpack := c.R.Intn(2) == 0
	parser := socketio.DefaultParser
	if msgpack {
		parser = socketio.MsgpackParser
	}
	r := c.R
	if r.Intn(2) == 0 { // hostile handshake
		first := [][]byte{nil, []byte("0"), []byte("0{"), []byte("0{}"), []byte("4hello"), []byte("0[]"), []byte("0null"), []byte("0{\"sid\":1}"), []byte("0{\"sid\":\"x\",\"pingInterval\":\"y\"}"), genBytes(r, 10), []byte("2probe"), {0x00}}
		b := first[r.Intn(len(first))]
		kind := 1 + r.Intn(2)
		rs := c.NewRawServer(func(p *RawPeer) { p.SendRaw(kind, b); p.StartReading() })
		var err error
		cl := socketio.NewClient()
		if !c.Within("dial-stall", fmt.Sprintf("Dial returns when the server begins with %q", b), func() {
			err = cl.Dial("ws://"+rs.Addr+"/", nil, socketio.WebsocketTransport, parser)
		}) {
			panic(abort{})
		}
		if err == nil {
			c.Cleanup(func() { cl.Close() })
			if string(b) != "0{}" && string(b) != "0null" && !(len(b) > 0 && b[0] == '0') && !(kind == 2 && len(b) > 0 && b[0] == 0) {
				c.Fatalf("dial-accepts", "Dial succeeds although the server began with %q", b)
			}
		}
		c.Count("hostile handshakes", 1)
		c.Sig("handshake %d %x", kind, b)
		return
	}
	var hits, errs atomic.Int64
	var mu sync.Mutex
	var got []string
	peer := make(chan *RawPeer, 1)
	rs := c.NewRawServer(func(p *RawPeer) {
		p.Send(openPacket("sid", 60000, 60000))
		p.StartReading()
		peer <- p
	})
	cl := socketio.NewClient()
	names := c02Callbacks(cl.Namespace("/"), msgpack, &hits)
	cl.Namespace("/").OnError(func(so socketio.Socket, err ...interface{}) { errs.Add(1) })
	cl.OnError(func(interface{}) { errs.Add(1) })
	cl.Namespace("/live").OnEvent("m", func(s string) { mu.Lock(); got = append(got, s); mu.Unlock() })
	if err := cl.Dial("ws://"+rs.Addr+"/", nil, socketio.WebsocketTransport, parser); err != nil {
		c.Fatalf("dial", "Dial: %v", err)
	}
	c.Cleanup(func() { cl.Close() })
	p := <-peer
	sp := &SPeer{Inbox: p.Inbox, ws: p.WS, mp: msgpack}
	time.Sleep(2 * time.Millisecond)
	sp.Send(SP{Type: 0, Nsp: "/"}, SP{Type: 0, Nsp: "/live"})
	for k := 0; k < 25; k++ {
		fs := hostileSio(r, names, msgpack)
		size := 0
		for _, f := range fs {
			size += len(f.Data)
			c.Tracef("send %v", f)
		}
		if r.Intn(6) == 0 {
			b := genBytes(r, 1+r.Intn(30))
			if b[0] != '1' && b[0] != 1 {
				p.SendRaw(1+r.Intn(2), b)
			}
		}
		m := fmt.Sprintf("valid-%d", k)
		al := allocated(func() {
			sp.SendFrames(fs...)
			sp.Send(SP{Type: 2, Nsp: "/live", Args: []interface{}{"m", m}})
			c.MustAwait("after", "a later valid event reaches the client's callback", func() bool {
				mu.Lock()
				defer mu.Unlock()
				return len(got) > k || p.Ended()
			})
		})
		mu.Lock()
		g := append([]string(nil), got...)
		mu.Unlock()
		if len(g) != k+1 || g[k] != m {
			c.Fatalf("after", "after hostile packets from the server the client got %v, want %s (connection ended: %v)", g[min(k, len(g)):], m, p.Ended())
		}
		if al > allocLimit(size) {
			c.Fatalf("allocation", "%d bytes of Socket.IO frames made the client allocate %d bytes", size, al)
		}
		c.Count("hostile packets", 1)
		if len(fs) > 0 {
			c.Sig("client %v %x", msgpack, clip(string(fs[0].Data), 4096))
		}
	}
	c.Sample(map[string]interface{}{"surface": "client", "msgpack": msgpack, "callbacks": hits.Load(), "errors": errs.Load()})
}
