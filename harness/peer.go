package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/gorilla/websocket"
	"github.com/zyxar/socketio/engine"
)

// Front is an HTTP server on the loopback network in front of a handler.
type Front struct {
	Addr     string
	hs       *http.Server
	inflight atomic.Int64
	conns    sync.Map
}

// Serve starts a Front; a panic in the handler is a violation.
func (c *Ctx) Serve(h http.Handler) *Front {
	ln, err := listen()
	c.Must(err, "listen")
	return c.serveOn(ln, h)
}

func (c *Ctx) serveOn(ln net.Listener, h http.Handler) *Front {
	f := &Front{Addr: ln.Addr().String()}
	f.hs = &http.Server{Handler: c.guard(h, &f.inflight)}
	go f.hs.Serve(ln)
	c.Cleanup(func() { f.hs.Close() })
	return f
}

func (c *Ctx) guard(h http.Handler, inflight *atomic.Int64) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		inflight.Add(1)
		defer inflight.Add(-1)
		defer func() {
			if e := recover(); e != nil {
				if e == http.ErrAbortHandler {
					panic(e)
				}
				c.Failf("panic", "panic in ServeHTTP for %s %s: %v\n%s", r.Method, r.URL, e, debug.Stack())
			}
		}()
		h.ServeHTTP(w, r)
	})
}

// Inbox collects the packets a peer receives, whatever transport they come on.
type Inbox struct {
	mu     sync.Mutex
	frames []EP
	via    []byte // 'p' polling, 'w' websocket
	note   func(EP, byte)
	drop   atomic.Bool // keep nothing
}

func (b *Inbox) add(p EP, via byte) {
	if b.drop.Load() {
		return
	}
	b.mu.Lock()
	b.frames = append(b.frames, p)
	b.via = append(b.via, via)
	f := b.note
	b.mu.Unlock()
	if f != nil {
		f(p, via)
	}
}

// All returns the packets received so far.
func (b *Inbox) All() []EP {
	b.mu.Lock()
	defer b.mu.Unlock()
	return append([]EP(nil), b.frames...)
}

// Msgs returns the message packets received so far.
func (b *Inbox) Msgs() (out []EP) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, f := range b.frames {
		if f.Type == 4 {
			out = append(out, f)
		}
	}
	return
}

// Len is the number of packets of type t received so far.
func (b *Inbox) Len(t byte) (n int) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, f := range b.frames {
		if f.Type == t {
			n++
		}
	}
	return
}

// Params is the content of an open packet.
type Params struct {
	SID          string   `json:"sid"`
	Upgrades     []string `json:"upgrades"`
	PingInterval int      `json:"pingInterval"`
	PingTimeout  int      `json:"pingTimeout"`
}

// WS is a raw websocket peer of an Engine.IO server.
type WS struct {
	*Inbox
	Conn   *websocket.Conn
	wmu    sync.Mutex
	gate   sync.RWMutex // held for writing: the peer does not read
	done   chan struct{}
	rerr   error
	Open   Params
	opened atomic.Bool
}

// DialWS opens a websocket to a server; query is added to EIO=3&transport=websocket.
func DialWS(addr, query string, hdr http.Header) (*WS, *http.Response, error) {
	return dialWS(addr, query, hdr, new(Inbox), nil)
}

func dialWS(addr, query string, hdr http.Header, in *Inbox, nd func(network, addr string) (net.Conn, error)) (*WS, *http.Response, error) {
	d := websocket.Dialer{HandshakeTimeout: 30 * time.Second, NetDial: nd}
	u := "ws://" + addr + "/engine.io/?EIO=3&transport=websocket"
	if query != "" {
		u += "&" + query
	}
	conn, resp, err := d.Dial(u, hdr)
	if err != nil {
		return nil, resp, err
	}
	w := &WS{Inbox: in, Conn: conn, done: make(chan struct{})}
	go w.read()
	return w, resp, nil
}

func (w *WS) read() {
	defer close(w.done)
	for {
		w.gate.RLock()
		w.gate.RUnlock()
		t, b, err := w.Conn.ReadMessage()
		if err != nil {
			w.rerr = err
			return
		}
		w.gate.RLock()
		w.gate.RUnlock()
		p, err := wsPacket(t, b)
		if err != nil {
			w.rerr = err
			return
		}
		first := p.Type == 0 && !w.opened.Load()
		if first {
			json.Unmarshal(p.Data, &w.Open)
		}
		w.add(p, 'w')
		if first {
			w.opened.Store(true)
		}
	}
}

func wsPacket(t int, b []byte) (EP, error) {
	if len(b) == 0 {
		return EP{}, errors.New("empty websocket message")
	}
	p := EP{Type: b[0], Bin: t == websocket.BinaryMessage, Data: b[1:]}
	if !p.Bin {
		p.Type -= '0'
	}
	if p.Type > 6 {
		return p, fmt.Errorf("packet type %d", p.Type)
	}
	return p, nil
}

// Send writes one packet.
func (w *WS) Send(p EP) error {
	w.wmu.Lock()
	defer w.wmu.Unlock()
	if p.Bin {
		return w.Conn.WriteMessage(websocket.BinaryMessage, append([]byte{p.Type}, p.Data...))
	}
	return w.Conn.WriteMessage(websocket.TextMessage, append([]byte{p.Type + '0'}, p.Data...))
}

// SendFragmented writes one packet as several websocket fragments.
func (w *WS) SendFragmented(p EP, cut []int) error {
	w.wmu.Lock()
	defer w.wmu.Unlock()
	t, first := websocket.TextMessage, p.Type+'0'
	if p.Bin {
		t, first = websocket.BinaryMessage, p.Type
	}
	wr, err := w.Conn.NextWriter(t)
	if err != nil {
		return err
	}
	wr.Write([]byte{first})
	last := 0
	for _, k := range append(cut, len(p.Data)) {
		if k > last && k <= len(p.Data) {
			wr.Write(p.Data[last:k])
			last = k
		}
	}
	return wr.Close()
}

// SendText writes a raw text frame.
func (w *WS) SendText(s string) error {
	w.wmu.Lock()
	defer w.wmu.Unlock()
	return w.Conn.WriteMessage(websocket.TextMessage, []byte(s))
}

// SendRaw writes a raw websocket message.
func (w *WS) SendRaw(t int, b []byte) error {
	w.wmu.Lock()
	defer w.wmu.Unlock()
	return w.Conn.WriteMessage(t, b)
}

// Close drops the connection.
func (w *WS) Close() { w.Conn.Close() }

// Ended tells whether the server has ended the connection.
func (w *WS) Ended() bool {
	select {
	case <-w.done:
		return true
	default:
		return false
	}
}

// Poll framings.
const (
	modeXHR2 = iota
	modeB64
	modeJSONP
)

// Poll is a raw polling peer of an Engine.IO server; it keeps the rules of the protocol: at most one GET and one POST
// at a time.
type Poll struct {
	*Inbox
	addr   string
	hc     *http.Client
	tr     *http.Transport
	Open   Params
	Hdr    http.Header
	Mode   int // framing of GET responses
	J      string
	pmu    sync.Mutex // a POST is in flight
	lmu    sync.Mutex
	stop   bool
	idle   chan struct{} // closed when the poll loop is not running
	gerr   error
	gstat  int
	cancel context.CancelFunc
	Polls  atomic.Int64
	gate   sync.RWMutex // held for writing: the peer does not poll
}

// DialPoll makes a polling handshake.
func DialPoll(addr string, mode int, hdr http.Header) (*Poll, error) {
	p := newPoll(addr, mode, hdr)
	ps, err := p.get(context.Background())
	if err != nil {
		return nil, err
	}
	if len(ps) == 0 || ps[0].Type != 0 {
		return nil, fmt.Errorf("handshake answered with %v", ps)
	}
	if err := json.Unmarshal(ps[0].Data, &p.Open); err != nil {
		return nil, err
	}
	for _, x := range ps {
		p.add(x, 'p')
	}
	return p, nil
}

func newPoll(addr string, mode int, hdr http.Header) *Poll {
	tr := &http.Transport{DisableCompression: true, MaxIdleConnsPerHost: 4}
	p := &Poll{Inbox: new(Inbox), addr: addr, tr: tr, hc: &http.Client{Transport: tr}, Mode: mode, J: "0", Hdr: hdr}
	p.idle = make(chan struct{})
	close(p.idle)
	return p
}

func (p *Poll) url() string {
	q := "EIO=3&transport=polling"
	if p.Open.SID != "" {
		q += "&sid=" + url.QueryEscape(p.Open.SID)
	}
	switch p.Mode {
	case modeB64:
		q += "&b64=1"
	case modeJSONP:
		q += "&j=" + p.J
	}
	return "http://" + p.addr + "/engine.io/?" + q
}

type statusError struct {
	code int
	body string
}

func (e *statusError) Error() string { return fmt.Sprintf("status %d: %s", e.code, e.body) }

func (p *Poll) get(ctx context.Context) ([]EP, error) {
	req, err := http.NewRequestWithContext(ctx, "GET", p.url(), nil)
	if err != nil {
		return nil, err
	}
	for k, v := range p.Hdr {
		req.Header[k] = v
	}
	resp, err := p.hc.Do(req)
	if err != nil {
		return nil, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return nil, err
	}
	if resp.StatusCode != 200 {
		return nil, &statusError{resp.StatusCode, clip(string(b), 200)}
	}
	return decodeMode(p.Mode, p.J, b)
}

func decodeMode(mode int, j string, b []byte) ([]EP, error) {
	var ps []EP
	var err error
	switch mode {
	case modeXHR2:
		ps, err = decXHR2(b)
	case modeB64:
		ps, err = decText(b)
	default:
		ps, err = decJSONP(b, j)
	}
	if err != nil {
		return ps, fmt.Errorf("undecodable response %q: %v", clip(string(b), 120), err)
	}
	return ps, nil
}

// Start runs the poll loop.
func (p *Poll) Start() {
	p.lmu.Lock()
	defer p.lmu.Unlock()
	p.stop = false
	ctx, cancel := context.WithCancel(context.Background())
	p.cancel = cancel
	idle := make(chan struct{})
	p.idle = idle
	go func() {
		defer close(idle)
		for {
			p.gate.RLock()
			p.gate.RUnlock()
			p.lmu.Lock()
			stop := p.stop
			p.lmu.Unlock()
			if stop {
				return
			}
			p.Polls.Add(1)
			ps, err := p.get(ctx)
			for _, x := range ps {
				p.add(x, 'p')
			}
			if err != nil {
				p.lmu.Lock()
				p.gerr = err
				if se, ok := err.(*statusError); ok {
					p.gstat = se.code
				}
				p.lmu.Unlock()
				return
			}
		}
	}()
}

// Err is the error that ended the poll loop, if any.
func (p *Poll) Err() (int, error) {
	p.lmu.Lock()
	defer p.lmu.Unlock()
	return p.gstat, p.gerr
}

// Halt lets the current poll finish and starts no other.
func (p *Poll) Halt() <-chan struct{} {
	p.lmu.Lock()
	p.stop = true
	p.lmu.Unlock()
	return p.idle
}

// Close ends the polling peer without telling the server.
func (p *Poll) Close() {
	p.lmu.Lock()
	p.stop = true
	if p.cancel != nil {
		p.cancel()
	}
	p.lmu.Unlock()
	p.tr.CloseIdleConnections()
}

// Post sends packets in one request: bin2 chooses the XHR2 framing.
func (p *Poll) Post(ps []EP, bin2 bool, chunk *rand.Rand) (int, error) {
	var body []byte
	ct := "text/plain; charset=UTF-8"
	if bin2 {
		body = encXHR2(ps)
		ct = "application/octet-stream"
	} else {
		body = encText(ps)
	}
	return p.PostRaw(body, ct, chunk)
}

// PostRaw sends a request body; with chunk it arrives in random pieces.
func (p *Poll) PostRaw(body []byte, ct string, chunk *rand.Rand) (int, error) {
	p.pmu.Lock()
	defer p.pmu.Unlock()
	var rd io.Reader = bytes.NewReader(body)
	if chunk != nil {
		rd = &chunked{b: body, r: chunk}
	}
	req, err := http.NewRequest("POST", p.url(), rd)
	if err != nil {
		return 0, err
	}
	for k, v := range p.Hdr {
		req.Header[k] = v
	}
	req.Header.Set("Content-Type", ct)
	resp, err := p.hc.Do(req)
	if err != nil {
		return 0, err
	}
	defer resp.Body.Close()
	io.Copy(io.Discard, resp.Body)
	return resp.StatusCode, nil
}

// chunked delivers a body in random pieces.
type chunked struct {
	b []byte
	r *rand.Rand
	n int
}

func (c *chunked) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	n := 1 + c.r.Intn(len(c.b))
	if c.r.Intn(3) == 0 {
		n = 1 + c.r.Intn(7)
	}
	n = min(n, len(c.b), len(p))
	copy(p, c.b[:n])
	c.b = c.b[n:]
	c.n++
	if c.n < 6 && c.r.Intn(2) == 0 {
		time.Sleep(time.Duration(c.r.Intn(400)) * time.Microsecond)
	}
	return n, nil
}

var errRefused = errors.New("websocket ended during probe")

// Upgrade performs the client side of a proper upgrade and returns the websocket; received packets keep arriving in
// the same inbox.
func (p *Poll) Upgrade(c *Ctx, pause func()) (*WS, error) {
	w, resp, err := dialWS(p.addr, "sid="+url.QueryEscape(p.Open.SID), p.Hdr, &Inbox{}, nil)
	if err != nil {
		if resp != nil {
			return nil, fmt.Errorf("%v (status %d)", err, resp.StatusCode)
		}
		return nil, err
	}
	if err := w.Send(EP{Type: 2, Data: []byte("probe")}); err != nil {
		return nil, err
	}
	if !c.Await("upgrade-stall", "the probe is answered", func() bool { return w.Len(3) > 0 || w.Ended() }) {
		return nil, errors.New("probe not answered")
	}
	if w.Len(3) == 0 {
		return nil, errRefused
	}
	if fr := w.All(); string(fr[0].Data) != "probe" || fr[0].Type != 3 {
		return nil, fmt.Errorf("probe answered with %v", fr[0])
	}
	if pause != nil {
		pause()
	}
	idle := p.Halt()
	if !c.Await("upgrade-stall", "the outstanding poll is answered after the probe", func() bool {
		select {
		case <-idle:
			return true
		default:
			return false
		}
	}) {
		return nil, errors.New("outstanding poll not answered")
	}
	if _, err := p.Err(); err != nil {
		return nil, fmt.Errorf("the outstanding poll fails: %v", err)
	}
	p.pmu.Lock() // no POST in flight
	defer p.pmu.Unlock()
	// from here on frames of the websocket go to the shared inbox
	w.Inbox.mu.Lock()
	for _, f := range w.Inbox.frames[1:] {
		p.Inbox.add(f, 'w')
	}
	in := p.Inbox
	w.Inbox.note = func(f EP, _ byte) { in.add(f, 'w') }
	w.Inbox.mu.Unlock()
	if err := w.Send(EP{Type: 5}); err != nil {
		return nil, err
	}
	return w, nil
}

// EngineServer is an engine.Server behind a Front, with a recorder of what its callbacks observe.
type EngineServer struct {
	*engine.Server
	*Front
	c     *Ctx
	mu    sync.Mutex
	socks []*engine.Socket
	bySid map[string]*engine.Socket
	ev    map[string][]EP // messages received per sid
	log   map[string][]string
	beats map[string][]EP // of ping and pong events
	busy  map[string]int  // concurrent message callbacks per sid
	kept  keeper
	onMsg func(so *engine.Socket, p EP)
	onEv  func(so *engine.Socket, what string)
}

// keeper holds on to the data that message callbacks were given, next to a copy made in the callback.
type keeper struct {
	data, was [][]byte
	size      int
}

func (k *keeper) add(data, was []byte) {
	if k.size += len(data); len(k.data) < 2000 && k.size < 4<<20 {
		k.data, k.was = append(k.data, data), append(k.was, was)
	}
}

func (k *keeper) check(c *Ctx) {
	for i, b := range k.data {
		if string(b) != string(k.was[i]) {
			c.Failf("kept", "a message callback was given %q, which has since become %q", clip(string(k.was[i]), 600), clip(string(b), 600))
			return
		}
	}
	c.Count("messages whose data stayed as it was", len(k.data))
}

// NewEngine starts an engine server; onOpen may be nil.
func (c *Ctx) NewEngine(interval, timeout time.Duration, onOpen func(*engine.Socket), oc ...engine.OriginChecker) *EngineServer {
	s := c.newEngineBare(interval, timeout, onOpen, oc...)
	s.Front = c.Serve(s.Server)
	c.Cleanup(func() { s.Server.Close() })
	return s
}

func (c *Ctx) newEngineBare(interval, timeout time.Duration, onOpen func(*engine.Socket), oc ...engine.OriginChecker) *EngineServer {
	s := &EngineServer{c: c, bySid: map[string]*engine.Socket{}, ev: map[string][]EP{}, log: map[string][]string{}, busy: map[string]int{}, beats: map[string][]EP{}}
	var err error
	s.Server, err = engine.NewServer(interval, timeout, func(so *engine.Socket) {
		s.mu.Lock()
		s.socks = append(s.socks, so)
		s.bySid[so.Sid()] = so
		s.log[so.Sid()] = append(s.log[so.Sid()], "open")
		s.mu.Unlock()
		if onOpen != nil {
			onOpen(so)
		}
	}, oc...)
	c.Must(err, "engine.NewServer")
	c.Final(func() { s.mu.Lock(); defer s.mu.Unlock(); s.kept.check(c) })
	if c.Case%3 == 0 { // handlers that are replaced before anything can be handled
		old := engine.Callback(func(so *engine.Socket, t engine.MessageType, data []byte) {
			c.Failf("replaced", "a handler that was replaced by another runs for session %s with %q", so.Sid(), clip(string(data), 100))
		})
		s.On(engine.EventMessage, old)
		s.On(engine.EventClose, old)
		s.On(engine.EventUpgrade, old)
		s.On(engine.EventPing, old)
	}
	s.On(engine.EventMessage, engine.Callback(func(so *engine.Socket, t engine.MessageType, data []byte) {
		p := EP{Type: 4, Bin: t == engine.MessageTypeBinary, Data: append([]byte(nil), data...)}
		sid := so.Sid()
		s.mu.Lock()
		s.kept.add(data, p.Data)
		s.busy[sid]++
		if s.busy[sid] > 1 {
			c.Failf("concurrent-callbacks", "message callbacks of session %s run concurrently", sid)
		}
		s.ev[sid] = append(s.ev[sid], p)
		s.log[sid] = append(s.log[sid], "message")
		f := s.onMsg
		s.mu.Unlock()
		if f != nil {
			f(so, p)
		}
		s.mu.Lock()
		s.busy[sid]--
		s.mu.Unlock()
	}))
	for _, what := range []string{"close", "upgrade", "ping", "pong"} {
		what := what
		cb := engine.Callback(func(so *engine.Socket, t engine.MessageType, data []byte) {
			s.mu.Lock()
			if what == "ping" || what == "pong" {
				p := EP{Type: 2, Bin: t == engine.MessageTypeBinary, Data: append([]byte(nil), data...)}
				if what == "pong" {
					p.Type = 3
				}
				s.beats[so.Sid()] = append(s.beats[so.Sid()], p)
			}
			s.log[so.Sid()] = append(s.log[so.Sid()], what)
			f := s.onEv
			s.mu.Unlock()
			if f != nil {
				f(so, what)
			}
		})
		switch what {
		case "close":
			s.On(engine.EventClose, cb)
		case "upgrade":
			s.On(engine.EventUpgrade, cb)
		case "ping":
			s.On(engine.EventPing, cb)
		case "pong":
			s.On(engine.EventPong, cb)
		}
	}
	return s
}

// Got returns the messages session sid has received.
func (s *EngineServer) Got(sid string) []EP {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]EP(nil), s.ev[sid]...)
}

// GotN is the number of messages session sid has received.
func (s *EngineServer) GotN(sid string) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.ev[sid])
}

// Beats returns the data of the ping and pong events of session sid.
func (s *EngineServer) Beats(sid string) []EP {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]EP(nil), s.beats[sid]...)
}

// Events counts the events named what of session sid.
func (s *EngineServer) Events(sid, what string) (n int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, e := range s.log[sid] {
		if e == what {
			n++
		}
	}
	return
}

// Sock returns the socket of session sid, or nil.
func (s *EngineServer) Sock(sid string) *engine.Socket {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.bySid[sid]
}

// WaitSock waits until the open callback has seen sid.
func (s *EngineServer) WaitSock(sid string) *engine.Socket {
	s.c.MustAwait("open-stall", "open callback for "+sid, func() bool { return s.Sock(sid) != nil })
	return s.Sock(sid)
}

// MustWS dials a websocket session and waits for its open packet.
func (c *Ctx) MustWS(addr string) *WS {
	w, _, err := DialWS(addr, "", nil)
	if err != nil {
		c.Fatalf("handshake", "websocket handshake failed: %v", err)
	}
	c.Cleanup(w.Close)
	c.MustAwait("handshake-stall", "open packet on a new websocket session", func() bool { return w.opened.Load() || w.Ended() })
	if !w.opened.Load() {
		c.Fatalf("handshake", "websocket ended before the open packet: %v", w.rerr)
	}
	return w
}

// MustPoll makes a polling session.
func (c *Ctx) MustPoll(addr string, mode int) *Poll {
	var p *Poll
	var err error
	if !c.Within("handshake-stall", "polling handshake is answered", func() { p, err = DialPoll(addr, mode, nil) }) {
		panic(abort{})
	}
	if err != nil {
		c.Fatalf("handshake", "polling handshake failed: %v", err)
	}
	c.Cleanup(p.Close)
	return p
}

// status makes one request and returns its status (0 on a transport error).
func status(method, rawurl string, hdr http.Header) (int, string) {
	req, err := http.NewRequest(method, rawurl, nil)
	if err != nil {
		return 0, err.Error()
	}
	for k, v := range hdr {
		req.Header[k] = v
	}
	tr := &http.Transport{DisableKeepAlives: true}
	defer tr.CloseIdleConnections()
	resp, err := (&http.Client{Transport: tr, Timeout: 60 * time.Second}).Do(req)
	if err != nil {
		return 0, err.Error()
	}
	defer resp.Body.Close()
	b, _ := io.ReadAll(io.LimitReader(resp.Body, 1<<16))
	return resp.StatusCode, strings.TrimSpace(string(b))
}

// Log returns what happened on session sid.
func (s *EngineServer) Log(sid string) []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string(nil), s.log[sid]...)
}
