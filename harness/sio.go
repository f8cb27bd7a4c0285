package main

import (
	"fmt"
	"net/http"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	"github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"
)

// SioServer is a socketio.Server behind a Front.
type SioServer struct {
	*socketio.Server
	*Front
	c *Ctx
}

// NewSio starts a socketio server; setup registers its callbacks before it serves.
func (c *Ctx) NewSio(interval, timeout time.Duration, parser socketio.Parser, setup func(s *socketio.Server), oc ...engine.OriginChecker) *SioServer {
	sv, err := socketio.NewServer(interval, timeout, parser, oc...)
	c.Must(err, "socketio.NewServer")
	if setup != nil {
		setup(sv)
	}
	s := &SioServer{Server: sv, c: c}
	s.Front = c.Serve(sv)
	c.Cleanup(func() { sv.Close() })
	return s
}

// SPeer is a raw Socket.IO peer: the frames of the message packets, over either transport.
type SPeer struct {
	*Inbox
	ws   *WS
	poll *Poll
	sid  string
	mp   bool // msgpack parser
	smu  sync.Mutex
}

// MustSPeer opens a raw session and waits until the server's CONNECT for "/" has arrived.
func (c *Ctx) MustSPeer(addr string, polling bool, msgpack bool) *SPeer {
	p := &SPeer{mp: msgpack}
	if polling {
		p.poll = c.MustPoll(addr, modeXHR2)
		p.poll.Start()
		p.Inbox, p.sid = p.poll.Inbox, p.poll.Open.SID
	} else {
		p.ws = c.MustWS(addr)
		p.Inbox, p.sid = p.ws.Inbox, p.ws.Open.SID
	}
	c.MustAwait("connect-stall", "the connect packet for / arrives", func() bool { return p.Len(4) > 0 || p.Ended() })
	if p.Len(4) == 0 {
		c.Fatalf("connect", "a new session ended before its connect packet")
	}
	return p
}

// Ended tells whether the server ended the session's connection.
func (p *SPeer) Ended() bool {
	if p.ws != nil {
		return p.ws.Ended()
	}
	_, err := p.poll.Err()
	return err != nil
}

// Close drops the connection.
func (p *SPeer) Close() {
	if p.ws != nil {
		p.ws.Close()
	} else {
		p.poll.Close()
	}
}

// SendFrames sends Engine.IO packets.
func (p *SPeer) SendFrames(ps ...EP) error {
	if p.ws != nil {
		p.smu.Lock()
		defer p.smu.Unlock()
		for _, x := range ps {
			if err := p.ws.Send(x); err != nil {
				return err
			}
		}
		return nil
	}
	code, err := p.poll.Post(ps, true, nil)
	if err != nil {
		return err
	}
	if code != 200 {
		return &statusError{code, "POST"}
	}
	return nil
}

// framesOf encodes a Socket.IO packet as Engine.IO message packets.
func (p *SPeer) framesOf(s SP) []EP {
	if p.mp {
		return mpFrames(s)
	}
	t, att := encSIO(s)
	out := []EP{{Type: 4, Data: []byte(t)}}
	for _, a := range att {
		out = append(out, EP{Type: 4, Bin: true, Data: a})
	}
	return out
}

// Send sends Socket.IO packets.
func (p *SPeer) Send(ss ...SP) error {
	var fs []EP
	for _, s := range ss {
		fs = append(fs, p.framesOf(s)...)
	}
	return p.SendFrames(fs...)
}

// SendText sends a raw Socket.IO text frame.
func (p *SPeer) SendText(s string) error { return p.SendFrames(EP{Type: 4, Data: []byte(s)}) }

// Packets decodes the Socket.IO packets received so far.
func (p *SPeer) Packets() ([]SP, error) {
	if p.mp {
		return mpSplit(p.Msgs())
	}
	ps, err := sioSplit(p.Msgs())
	if err == errIncomplete {
		err = nil
	}
	return ps, err
}

// mpFrames encodes a packet as the msgpack parser's peer would.
func mpFrames(s SP) []EP {
	nsp := s.Nsp
	if nsp == "" {
		nsp = "/"
	}
	switch s.Type {
	case 0, 1, 4:
		m := map[string]interface{}{"type": s.Type, "nsp": nsp}
		if s.Data != nil {
			m["data"] = s.Data
		}
		if s.ID != nil {
			m["id"] = *s.ID
		}
		return []EP{{Type: 4, Data: jsonOf(m)}}
	}
	m := map[string]interface{}{"type": int64(s.Type), "nsp": nsp}
	if s.Args != nil {
		m["data"] = s.Args
	}
	if s.ID != nil {
		m["id"] = *s.ID
	}
	return []EP{{Type: 4, Bin: true, Data: mpEnc(nil, m, nil)}}
}

func mpSplit(fs []EP) (out []SP, err error) {
	for i, f := range fs {
		p := SP{}
		if !f.Bin {
			var m struct {
				Type *byte       `json:"type"`
				Nsp  string      `json:"nsp"`
				Data interface{} `json:"data"`
				ID   *uint64     `json:"id"`
			}
			if err := decodeNumber(f.Data, &m); err != nil {
				return out, fmt.Errorf("frame %d %q: %v", i, clip(string(f.Data), 80), err)
			}
			if m.Type == nil {
				return out, fmt.Errorf("frame %d %q: no type", i, clip(string(f.Data), 80))
			}
			if *m.Type != 0 && *m.Type != 1 && *m.Type != 4 {
				return out, fmt.Errorf("frame %d: packet of type %d as JSON text", i, *m.Type)
			}
			p = SP{Type: *m.Type, Nsp: m.Nsp, Data: m.Data, ID: m.ID}
		} else {
			v, rest, err := mpDec(f.Data, 0)
			if err != nil || len(rest) > 0 {
				return out, fmt.Errorf("frame %d: %v (%d bytes left)", i, err, len(rest))
			}
			m, ok := v.(map[string]interface{})
			if !ok {
				return out, fmt.Errorf("frame %d: %T", i, v)
			}
			t, ok := m["type"].(int64)
			if !ok {
				return out, fmt.Errorf("frame %d: type %v", i, m["type"])
			}
			p.Type = byte(t)
			p.Nsp, _ = m["nsp"].(string)
			if m["data"] != nil {
				p.Args, ok = m["data"].([]interface{})
				if !ok {
					return out, fmt.Errorf("frame %d: data %T", i, m["data"])
				}
			}
			switch id := m["id"].(type) {
			case int64:
				u := uint64(id)
				p.ID = &u
			case uint64:
				p.ID = &id
			}
			if p.Type == 5 || p.Type == 6 {
				p.Type -= 3
			}
		}
		if p.Nsp == "" {
			p.Nsp = "/"
		}
		out = append(out, p)
	}
	return out, nil
}

func uid(n uint64) *uint64 { return &n }

// RawServer is a scripted websocket server for the client side.
type RawServer struct {
	Addr string
	mu   sync.Mutex
	reqs []*http.Request
}

// RawPeer is the server end of one client connection.
type RawPeer struct {
	*WS
	Req *http.Request
}

// NewRawServer serves websockets with script; the script runs on its own goroutine per connection.
func (c *Ctx) NewRawServer(script func(p *RawPeer)) *RawServer {
	rs := &RawServer{}
	up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}
	f := c.Serve(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		conn, err := up.Upgrade(w, r, nil)
		if err != nil {
			return
		}
		c.Cleanup(func() { conn.Close() })
		p := &RawPeer{WS: &WS{Inbox: new(Inbox), Conn: conn, done: make(chan struct{})}, Req: r}
		rs.mu.Lock()
		rs.reqs = append(rs.reqs, r)
		rs.mu.Unlock()
		script(p)
	}))
	rs.Addr = f.Addr
	return rs
}

// StartReading begins to record what the client sends.
func (p *RawPeer) StartReading() { go p.read() }

func openPacket(sid string, interval, timeout int) EP {
	return EP{Type: 0, Data: jsonOf(Params{SID: sid, Upgrades: []string{}, PingInterval: interval, PingTimeout: timeout})}
}
