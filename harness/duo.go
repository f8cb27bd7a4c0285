package main

import (
	"fmt"
	"sync"
	"time"

	"github.com/zyxar/socketio"
)

// DuoOpt says what a Duo connects.
type DuoOpt struct {
	Client  bool // the library is the client
	Polling bool // transport, when the library is the server
	MP      bool // msgpack parser
	Nsps    []string
	Mute    []string // those of Nsps without callbacks for connects and disconnects
	NoJoin  bool     // only "/" is connected
	Short   bool     // short heartbeat times: a slow machine may lose the session early
}

func (o DuoOpt) String() string {
	s := "server"
	if o.Client {
		s = "client"
	}
	if o.Polling {
		s += "/polling"
	}
	if o.MP {
		s += "/msgpack"
	}
	return s
}

func (o DuoOpt) times() (interval, timeout time.Duration) {
	if o.Short {
		return 500 * time.Millisecond, 900 * time.Millisecond
	}
	return 25 * time.Second, 60 * time.Second
}

func (c *Ctx) genDuo(mp bool) DuoOpt {
	o := DuoOpt{Client: c.R.Intn(3) == 0, MP: mp, Nsps: []string{"/", "/a"}}
	if !o.Client {
		o.Polling = c.R.Intn(3) == 0
	}
	return o
}

// Duo is one connection between the library, as server or as client, and a raw peer.
type Duo struct {
	*SPeer
	DuoOpt
	c      *Ctx
	cli    *socketio.Client
	srv    *SioServer
	before []EP // frames sent to a client before its connect packet
	*duoState
}

// duoState is what the callbacks of the library's end record; maps are by session and namespace.
type duoState struct {
	mu     sync.Mutex
	socks  map[string]socketio.Socket
	nconn  map[string]int
	ndisc  map[string]int
	errs   map[string][]interface{}
	top    []interface{} // reported to the server or client
	OnConn func(nsp string, so socketio.Socket)
	OnDisc func(nsp string, so socketio.Socket)
	OnErr  func(nsp string, so socketio.Socket)
	OnTop  func()
}

func (d *duoState) onTop(e interface{}) {
	d.mu.Lock()
	d.top = append(d.top, e)
	f := d.OnTop
	d.mu.Unlock()
	if f != nil {
		f()
	}
}

func parserOf(mp bool) socketio.Parser {
	if mp {
		return socketio.MsgpackParser
	}
	return socketio.DefaultParser
}

// Ns is the library's namespace nsp.
func (d *Duo) Ns(nsp string) socketio.Namespace {
	if d.cli != nil {
		return d.cli.Namespace(nsp)
	}
	return d.srv.Server.Namespace(nsp)
}

func (d *Duo) watch(nsp string) {
	for _, n := range d.Mute {
		if n == nsp {
			d.Ns(nsp)
			return
		}
	}
	d.Ns(nsp).OnConnect(func(so socketio.Socket) {
		d.mu.Lock()
		k := so.Sid() + nsp
		d.socks[k] = so
		d.nconn[k]++
		f := d.OnConn
		d.mu.Unlock()
		if f != nil {
			f(nsp, so)
		}
	}).OnDisconnect(func(so socketio.Socket) {
		d.mu.Lock()
		d.ndisc[so.Sid()+nsp]++
		f := d.OnDisc
		d.mu.Unlock()
		if f != nil {
			f(nsp, so)
		}
	}).OnError(func(so socketio.Socket, e ...interface{}) {
		d.mu.Lock()
		k := so.Sid() + nsp
		if len(e) == 1 {
			d.errs[k] = append(d.errs[k], e[0])
		} else {
			d.errs[k] = append(d.errs[k], e)
		}
		f := d.OnErr
		d.mu.Unlock()
		if f != nil {
			f(nsp, so)
		}
	})
}

// NewDuo makes a connection; setup registers event callbacks before it exists.
func (c *Ctx) NewDuo(o DuoOpt, setup func(d *Duo)) *Duo {
	d := &Duo{DuoOpt: o, c: c, duoState: &duoState{socks: map[string]socketio.Socket{}, nconn: map[string]int{}, ndisc: map[string]int{}, errs: map[string][]interface{}{}}}
	if len(d.Nsps) == 0 {
		d.Nsps = []string{"/"}
	}
	if o.Client {
		d.cli = socketio.NewClient()
		d.cli.OnError(func(e interface{}) { d.onTop(e) })
		for _, n := range d.Nsps {
			d.watch(n)
		}
		if setup != nil {
			setup(d)
		}
		got := make(chan *RawPeer, 1)
		rs := c.NewRawServer(func(p *RawPeer) {
			iv, to := o.times()
			p.Send(openPacket("duo", int(iv/time.Millisecond), int(to/time.Millisecond)))
			p.StartReading()
			got <- p
		})
		var err error
		if !c.Within("dial-stall", "Dial returns", func() {
			err = d.cli.Dial("ws://"+rs.Addr+"/socket.io/", nil, socketio.WebsocketTransport, parserOf(o.MP))
		}) {
			panic(abort{})
		}
		if err != nil {
			c.Fatalf("dial", "Dial fails: %v", err)
		}
		c.Cleanup(func() { d.cli.Close() })
		p := <-got
		d.SPeer = &SPeer{mp: o.MP, ws: p.WS, Inbox: p.Inbox, sid: "duo"}
		for _, f := range d.before {
			c.Must(p.Send(f), "send")
		}
		c.Must(d.Send(SP{Type: 0, Nsp: "/"}), "send")
	} else {
		iv, to := o.times()
		sv, err := socketio.NewServer(iv, to, parserOf(o.MP))
		c.Must(err, "socketio.NewServer")
		d.srv = &SioServer{Server: sv, c: c}
		sv.OnError(func(e error) { d.onTop(e) })
		for _, n := range d.Nsps {
			d.watch(n)
		}
		if setup != nil {
			setup(d)
		}
		d.srv.Front = c.Serve(sv)
		c.Cleanup(func() { sv.Close() })
		d.SPeer = c.MustSPeer(d.srv.Addr, o.Polling, o.MP)
	}
	d.start()
	return d
}

func (d *Duo) start() {
	d.c.Cleanup(d.SPeer.Close)
	d.waitConn("/", 1)
	if !d.NoJoin {
		for _, n := range d.Nsps {
			if n != "/" {
				d.Join(n)
			}
		}
	}
}

// Another opens another connection to the same library server.
func (d *Duo) Another() *Duo {
	e := *d
	e.SPeer = d.c.MustSPeer(d.srv.Addr, d.Polling, d.MP)
	e.start()
	return &e
}

// Join connects the namespace.
func (d *Duo) Join(nsp string) {
	d.mu.Lock()
	k := d.nconn[d.sid+nsp]
	d.mu.Unlock()
	d.c.Must(d.Send(SP{Type: 0, Nsp: nsp}), "send")
	d.waitConn(nsp, k+1)
}

func (d *Duo) waitConn(nsp string, k int) {
	d.c.MustAwait("connect-stall", fmt.Sprintf("connect callback %d of %s", k, nsp), func() bool {
		d.mu.Lock()
		defer d.mu.Unlock()
		return d.nconn[d.sid+nsp] >= k
	})
}

// Sock is the library's socket of a connected namespace.
func (d *Duo) Sock(nsp string) socketio.Socket {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.socks[d.sid+nsp]
}

// Emit emits from the library's end.
func (d *Duo) Emit(nsp, ev string, args ...interface{}) error {
	if d.cli != nil && d.c.Case%2 == 0 {
		return d.cli.Emit(nsp, ev, args...)
	}
	return d.Sock(nsp).Emit(ev, args...)
}

// NErr is the number of errors reported to namespace nsp, or to the server or client itself for "".
func (d *Duo) NErr(nsp string) int {
	d.mu.Lock()
	defer d.mu.Unlock()
	if nsp == "" {
		return len(d.top)
	}
	return len(d.errs[d.sid+nsp])
}

// NConn and NDisc count connect and disconnect callbacks.
func (d *Duo) NConn(nsp string) int {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.nconn[d.sid+nsp]
}

func (d *Duo) NDisc(nsp string) int {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.ndisc[d.sid+nsp]
}

// Errs returns all errors reported so far.
func (d *Duo) Errs() string {
	d.mu.Lock()
	defer d.mu.Unlock()
	return fmt.Sprintf("%v %v", d.top, d.errs)
}

// frames are the frames of messages the peer has received, without connect packets.
func (d *Duo) frames() (out []EP) {
	for _, f := range d.Msgs() {
		if !f.Bin && len(f.Data) > 0 && f.Data[0] == '0' && !d.MP {
			continue
		}
		if ps, err := mpSplit([]EP{f}); d.MP && !f.Bin && err == nil && ps[0].Type == 0 {
			continue
		}
		out = append(out, f)
	}
	return
}

// sioOut returns the packets the peer has received, without connects.
func (d *Duo) sioOut() []SP {
	ps, err := d.Packets()
	if err != nil {
		d.c.Fatalf("frames", "the peer received frames that are no packet sequence: %v", err)
	}
	var out []SP
	for _, p := range ps {
		if p.Type != 0 {
			out = append(out, p)
		}
	}
	return out
}

type interfaceSocket = socketio.Socket
