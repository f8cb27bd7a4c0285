package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"runtime"
	"strings"
	"sync"
	"testing/iotest"
	"time"

	"github.com/zyxar/socketio/engine"
)

func init() {
	register(&Suite{ID: "C01", Quick: 3000, Deep: 60000, MinNT: 200,
		Rule: "random packet sequences (types 0-6, text/binary, sizes 0..4MB, a few up to 40 MB, around length-digit, base64 and buffer boundaries) x framing (text, base64, XHR2, JSONP) x fragmentation (one byte, random pieces, data with EOF, real chunked TCP bodies); distinct by packet shapes, framing and fragmentation; differential against an independent codec in both directions",
		Run:  runC01})
}

// textTypes name the same media type.
var textTypes = []string{"text/plain; charset=UTF-8", "text/plain;charset=UTF-8", "text/plain; charset=utf-8", "text/plain;charset=\"utf-8\"", "Text/Plain; Charset=Utf-8"}

var contentTypes = map[int]string{modeXHR2: "application/octet-stream", modeB64: "text/plain; charset=utf-8", modeJSONP: "text/javascript; charset=utf-8"}
var modeNames = []string{"xhr2", "b64", "jsonp"}

func fragment(r *rand.Rand, b []byte) (io.Reader, string) {
	switch r.Intn(6) {
	case 0:
		return bytes.NewReader(b), "whole"
	case 1:
		if len(b) < 50000 {
			return iotest.OneByteReader(bytes.NewReader(b)), "onebyte"
		}
		return iotest.HalfReader(bytes.NewReader(b)), "half"
	case 2:
		return iotest.DataErrReader(bytes.NewReader(b)), "dataerr"
	case 3:
		return struct{ io.Reader }{bytes.NewReader(b)}, "plain"
	default:
		return &pieces{b: b, r: r}, "pieces"
	}
}

type pieces struct {
	b []byte
	r *rand.Rand
}

func (p *pieces) Read(q []byte) (int, error) {
	if len(p.b) == 0 {
		return 0, io.EOF
	}
	n := 1 + p.r.Intn(len(p.b))
	if p.r.Intn(2) == 0 {
		n = 1 + p.r.Intn(40)
	}
	n = min(n, len(p.b), len(q))
	copy(q, p.b[:n])
	p.b = p.b[n:]
	if len(p.b) == 0 && p.r.Intn(2) == 0 {
		return n, io.EOF
	}
	return n, nil
}

func runC01(c *Ctx) {
	switch {
	case c.Case%4 == 3:
		c01Server(c)
	case c.Case%4 == 2:
		c01Payload(c)
	case c.Case%8 == 5: // several at once
		var g Group
		for i := 0; i < 4; i++ {
			r := rand.New(rand.NewSource(c.R.Int63()))
			c.Go(&g, func() { c01Conn(c, r, 3, 1) })
		}
		for g.n.Load() > 0 {
			time.Sleep(50 * time.Microsecond)
		}
		c.Stop()
	default:
		c01Conn(c, c.R, 6, c.R.Intn(2))
	}
}

// slowWriter takes its time before it takes what is written.
type slowWriter struct {
	http.ResponseWriter
	dawdler
}

func (w *slowWriter) Write(p []byte) (int, error) {
	w.dawdle()
	n, err := w.ResponseWriter.Write(p)
	w.dawdle()
	return n, err
}

type slowReader struct {
	io.Reader
	dawdler
}

func (r *slowReader) Read(p []byte) (int, error) {
	r.dawdle()
	n, err := r.Reader.Read(p)
	r.dawdle()
	return n, err
}

type dawdler struct {
	r *rand.Rand
	n int
}

func (d *dawdler) dawdle() {
	if d.n++; d.n > 40 {
		return
	}
	switch k := d.r.Intn(30); {
	case k == 0:
		time.Sleep(time.Duration(d.r.Intn(100)) * time.Microsecond)
	case k < 12:
		for i := d.r.Intn(5); i >= 0; i-- {
			runtime.Gosched()
		}
	}
}

// huge puts, in a few cases, a message of up to 40 MB into ps.
func (c *Ctx) huge(ps []EP) []EP {
	if k := c.Case % 1000; k == 0 || k == 2 || k == 3 {
		b := make([]byte, 5<<20+c.R.Intn(35<<20))
		for i := 0; i < 1000; i++ {
			b[c.R.Intn(len(b))] = byte(c.R.Intn(128))
		}
		ps[c.R.Intn(len(ps))] = EP{Type: 4, Bin: c.R.Intn(2) == 0, Data: b}
		c.Count("huge packets", 1)
	}
	return ps
}

// c01Payload: the exported Payload decodes the reference encoding and re-encodes it to the same bytes.
func c01Payload(c *Ctx) {
	for k := 0; k < 25; k++ {
		max := 60000
		if k == 0 {
			max = 3 << 20
		}
		ps := genEPs(c.R, max, false)
		if k == 0 {
			ps = c.huge(ps)
		}
		enc := encText(ps)
		rd, how := fragment(c.R, enc)
		var p engine.Payload
		n, err := p.ReadFrom(rd)
		if err != nil {
			c.Fatalf("payload-decode", "Payload.ReadFrom(%s, %s): %v", shapeOf(ps), how, err)
		}
		if n != int64(len(enc)) {
			c.Fatalf("payload-count", "Payload.ReadFrom(%s, %s) reports %d bytes of %d", shapeOf(ps), how, n, len(enc))
		}
		var buf bytes.Buffer
		m, err := p.WriteTo(&buf)
		if err != nil || m != int64(buf.Len()) {
			c.Fatalf("payload-encode", "Payload.WriteTo: n=%d of %d err=%v", m, buf.Len(), err)
		}
		if !bytes.Equal(buf.Bytes(), enc) {
			c.Fatalf("payload-mismatch", "payload %s read (%s) and written back differs at byte %d: %s", shapeOf(ps), how, diffAt(buf.Bytes(), enc), around(buf.Bytes(), enc))
		}
		c.Count("payloads", 1)
		c.Count("packets", len(ps))
		c.Sig("payload %s %s", how, shapeOf(ps))
	}
}

func diffAt(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

func around(a, b []byte) string {
	i := diffAt(a, b)
	cut := func(x []byte) []byte { return x[max(0, min(len(x), i-20)):min(len(x), i+30)] }
	return fmt.Sprintf("got %q want %q (lengths %d, %d)", cut(a), cut(b), len(a), len(b))
}

func checkResponse(c *Ctx, mode int, j string, code int, hdr http.Header, body []byte) []EP {
	if code != 200 {
		c.Fatalf("poll-status", "poll (%s) answered with status %d %q", modeNames[mode], code, clip(string(body), 100))
	}
	if ct := strings.ToLower(strings.ReplaceAll(hdr.Get("Content-Type"), " ", "")); ct != strings.ReplaceAll(contentTypes[mode], " ", "") {
		c.Fatalf("content-type-"+modeNames[mode], "poll response in framing %s declares Content-Type %q", modeNames[mode], hdr.Get("Content-Type"))
	}
	ps, err := decodeMode(mode, j, body)
	if err != nil {
		c.Fatalf("framing-"+modeNames[mode], "%v", err)
	}
	// the encoding is canonical: re-encoding gives the same bytes
	switch mode {
	case modeXHR2:
		if !bytes.Equal(encXHR2(ps), body) {
			c.Fatalf("wire-xhr2", "non-canonical XHR2 bytes %q", clip(string(body), 100))
		}
	case modeB64:
		if !bytes.Equal(encText(ps), body) {
			c.Fatalf("wire-text", "non-canonical text bytes %q", clip(string(body), 100))
		}
	}
	return ps
}

// c01Conn: bodies posted to a polling Conn come out of ReadPacket, and packets given to WritePacket come out of polls.
func c01Conn(c *Ctx, r *rand.Rand, n, slow int) {
	for k := 0; k < n; k++ {
		max := 40000
		if k == 0 && r.Intn(3) == 0 {
			max = 4 << 20
		}
		ps := genEPs(r, max, false)
		if k == 0 {
			ps = c.huge(ps)
		}
		rec := httptest.NewRecorder()
		conn, err := engine.PollingAcceptor.Accept(rec, httptest.NewRequest("GET", "/?EIO=3&transport=polling", nil))
		if err != nil {
			c.Fatalf("accept", "PollingAcceptor: %v", err)
		}
		h := conn.(http.Handler)
		xhr2 := r.Intn(2) == 0
		body, ct := encText(ps), textTypes[r.Intn(len(textTypes))]
		if xhr2 {
			body, ct = encXHR2(ps), "application/octet-stream"
		}
		rd, how := fragment(r, body)
		if slow == 1 && len(body) < 100000 {
			rd = &slowReader{rd, dawdler{r: rand.New(rand.NewSource(r.Int63()))}}
		}
		req := httptest.NewRequest("POST", "/?EIO=3&transport=polling&sid=x", rd)
		req.Header.Set("Content-Type", ct)
		var wg sync.WaitGroup
		wg.Add(1)
		post := httptest.NewRecorder()
		go func() { defer wg.Done(); h.ServeHTTP(post, req) }()
		var pkts []*engine.Packet
		var mu sync.Mutex
		go func() {
			for {
				p, err := conn.ReadPacket()
				if err != nil {
					return
				}
				mu.Lock()
				pkts = append(pkts, p)
				mu.Unlock()
			}
		}()
		posted := make(chan struct{})
		go func() { wg.Wait(); close(posted) }()
		arrived := func() int { mu.Lock(); defer mu.Unlock(); return len(pkts) }
		c.MustAwait("post-stall", "POST of "+shapeOf(ps)+" is answered", func() bool {
			select {
			case <-posted:
				return true
			default:
				return false
			}
		})
		if post.Code == 200 {
			c.MustAwait("post-lost", fmt.Sprintf("posted %s (xhr2=%v, %s) arrives", shapeOf(ps), xhr2, how), func() bool { return arrived() >= len(ps) })
		}
		mu.Lock()
		pkts = append([]*engine.Packet(nil), pkts...)
		mu.Unlock()
		if post.Code == 200 && len(pkts) != len(ps) {
			c.Fatalf("post-mismatch", "posted %s (xhr2=%v, %s): %d packets arrived", shapeOf(ps), xhr2, how, len(pkts))
		}
		if post.Code != 200 {
			c.Fatalf("post-status", "well-formed POST (%s, xhr2=%v, %s) answered with %d", shapeOf(ps), xhr2, how, post.Code)
		}
		for i, p := range pkts {
			var buf bytes.Buffer
			if _, err := p.WriteTo(&buf); err != nil {
				c.Fatalf("packet-encode", "%v", err)
			}
			if want := encText(ps[i : i+1]); !bytes.Equal(buf.Bytes(), want) {
				c.Fatalf("post-mismatch", "packet %d of posted %s (xhr2=%v, %s): %s", i, shapeOf(ps), xhr2, how, around(buf.Bytes(), want))
			}
		}
		mode := r.Intn(3)
		j := fmt.Sprint(r.Intn(300))
		q := [][]string{{"", "", "&b64=0", "&b64="}, {"&b64=1"}, {"&j=" + j, "&b64=1&j=" + j, "&j=" + j + "&b64=1", "&b64=0&j=" + j}}[mode]
		if len(q) > 1 {
			q = q[r.Intn(len(q)):]
		}
		go func() {
			for _, p := range pkts {
				if conn.WritePacket(p) != nil {
					return
				}
			}
		}()
		var got []EP
		polls := 0
		for len(got) < len(ps) {
			rec := httptest.NewRecorder()
			if !c.Within("poll-stall", "poll with packets pending is answered", func() {
				var w http.ResponseWriter = rec
				if slow == 1 {
					w = &slowWriter{rec, dawdler{r: rand.New(rand.NewSource(r.Int63()))}}
				}
				h.ServeHTTP(w, httptest.NewRequest("GET", "/?EIO=3&transport=polling&sid=x"+q[0], nil))
			}) {
				c.Stop()
			}
			res := rec.Result()
			got = append(got, checkResponse(c, mode, j, res.StatusCode, res.Header, rec.Body.Bytes())...)
			polls++
		}
		conn.Close()
		if !epsEqual(got, ps) {
			c.Fatalf("poll-mismatch", "packets %s written and polled as %s arrive as %s (first difference: %s)", shapeOf(ps), modeNames[mode], shapeOf(got), firstDiff(got, ps))
		}
		c.Count("posts", 1)
		c.Count("polls", polls)
		c.Count("packets", len(ps))
		c.Sig("conn %v %s %d %s", xhr2, how, mode, shapeOf(ps))
		if k == 0 {
			c.Sample(map[string]interface{}{"post": map[bool]string{true: "xhr2", false: "text"}[xhr2], "fragmentation": how, "poll": modeNames[mode], "packets": clip(shapeOf(ps), 200)})
		}
	}
}

func firstDiff(a, b []EP) string {
	for i := range a {
		if i >= len(b) {
			return fmt.Sprintf("%d: got %v, want nothing", i, a[i])
		}
		if !a[i].equal(b[i]) {
			return fmt.Sprintf("%d: got %v, want %v (%s)", i, a[i], b[i], around(a[i].Data, b[i].Data))
		}
	}
	if len(b) > len(a) {
		return fmt.Sprintf("%d: got nothing, want %v", len(a), b[len(a)])
	}
	return "none"
}

// c01Server: the same through a server over TCP, with chunked request bodies.
func c01Server(c *Ctx) {
	s := c.NewEngine(time.Minute, time.Minute, nil)
	mode := c.R.Intn(3)
	p := c.MustPoll(s.Addr, mode)
	so := s.WaitSock(p.Open.SID)
	p.Start()
	max := 30000
	if c.R.Intn(4) == 0 {
		max = 5 << 20
	}
	var up []EP
	for k := 0; k < 4; k++ {
		ps := genEPs(c.R, max, true)
		if k == 0 {
			ps = c.huge(ps)
		}
		var ch *rand.Rand
		if c.R.Intn(3) > 0 {
			ch = c.R
		}
		bin2 := c.R.Intn(2) == 0
		var code int
		var err error
		if !c.Within("post-stall", "POST is answered", func() { code, err = p.Post(ps, bin2, ch) }) {
			c.Stop()
		}
		if err != nil || code != 200 {
			c.Fatalf("post-status", "well-formed POST of %s (xhr2=%v, chunked=%v) answered with %d, %v", shapeOf(ps), bin2, ch != nil, code, err)
		}
		up = append(up, ps...)
		c.Sig("server %d %v %v %s", mode, bin2, ch != nil, shapeOf(ps))
	}
	down := c.huge(genEPs(c.R, max, true))
	go func() {
		for _, e := range down {
			t := engine.MessageTypeString
			if e.Bin {
				t = engine.MessageTypeBinary
			}
			if so.Emit(engine.EventMessage, t, e.Data) != nil {
				return
			}
		}
	}()
	c.MustAwait("post-lost", "all posted messages reach the callback", func() bool { return s.GotN(p.Open.SID) >= len(up) })
	c.Await("poll-lost", "all emitted messages are polled", func() bool {
		_, err := p.Err()
		return len(p.Msgs()) >= len(down) || err != nil
	})
	if _, err := p.Err(); err != nil {
		c.Fatalf("poll-error", "poll (%s) failed: %v", modeNames[mode], err)
	}
	if got := s.Got(p.Open.SID); !epsEqual(got, up) {
		c.Fatalf("post-mismatch", "posted messages arrive changed: %s", firstDiff(got, up))
	}
	if got := p.Msgs(); !epsEqual(got, down) {
		c.Fatalf("poll-mismatch", "messages polled as %s arrive changed: %s", modeNames[mode], firstDiff(got, down))
	}
	c.Count("packets", len(up)+len(down))
	c.Sample(map[string]interface{}{"server": true, "poll": modeNames[mode], "posted": clip(shapeOf(up), 200), "polled": clip(shapeOf(down), 200)})
}
