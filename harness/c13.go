package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"
)

func init() {
	register(&Suite{ID: "C13", Quick: 20000, Deep: 400000, MinNT: 8000, Virtual: true,
		realTime: func(n int) bool { return n%3 == 0 },
		Rule:     "heartbeat histories checked against the clock, distinct by transport, times and schedule of packets, and by workload and order of scheduling points passed for pings amid traffic",
		Run:      runC13})
}

func runC13(c *Ctx) {
	if c.S.Virtual {
		switch c.R.Intn(5) {
		case 0, 1:
			c13Client(c)
		default:
			c13Server(c)
		}
		return
	}
	switch {
	case c.Case%53 == 0:
		c13Real(c)
	default:
		c13Pings(c)
	}
}

func (s *EngineServer) onVirtual(v *vnet) { s.Front = &Front{Addr: "pipe", hs: v.hs} }

// genTimes are heartbeat times of a server.
func genTimes(r *rand.Rand) (iv, to time.Duration) {
	f := func() time.Duration {
		switch r.Intn(4) {
		case 0:
			return time.Duration(1+r.Intn(50)) * time.Millisecond
		case 1:
			return time.Duration(50+r.Intn(2000)) * time.Millisecond
		case 2:
			return time.Duration(1+r.Intn(90)) * time.Second
		}
		return time.Duration(1+r.Int63n(int64(30*time.Second))) + time.Millisecond
	}
	if r.Intn(12) == 0 { // sessions that live for days
		return time.Duration(1+r.Intn(20)) * time.Hour, time.Duration(1+r.Intn(600)) * time.Minute
	}
	return f(), f()
}

// beat is a session's history on the virtual clock.
type beat struct {
	kind   string
	sid    string
	last   time.Time // the last packet was sent
	closed []time.Time
	stays  bool // kept alive to the end
	desc   []string
	end    func() // ends it if it stays
	gone   func() bool
	busy   time.Duration // time spent in callbacks
}

func c13Server(c *Ctx) {
	r := c.R
	iv, to := genTimes(r)
	P := iv + to
	c.settle(P)
	var mu sync.Mutex
	beats := map[string]*beat{}
	var callback time.Duration // time the message callback takes
	if r.Intn(4) == 0 {
		callback = P / time.Duration(2+r.Intn(40))
	}
	var opens time.Duration
	if r.Intn(5) == 0 {
		opens = P / time.Duration(1+r.Intn(4))
	}
	sio := r.Intn(5) == 0
	var v *vnet
	closedAt := func(sid string) {
		mu.Lock()
		defer mu.Unlock()
		b := beats[sid]
		if b == nil {
			b = &beat{}
			beats[sid] = b
		}
		b.closed = append(b.closed, time.Now())
	}
	socks := map[string]interface{ Close() error }{}
	if sio {
		sv, err := socketio.NewServer(iv, to, socketio.DefaultParser)
		c.Must(err, "NewServer")
		sv.Namespace("/").OnConnect(func(so socketio.Socket) {
			mu.Lock()
			socks[so.Sid()] = so
			mu.Unlock()
			time.Sleep(opens)
		}).OnDisconnect(func(so socketio.Socket) { closedAt(so.Sid()) }).OnEvent("m", func() { time.Sleep(callback) })
		v = c.virtualServe(sv)
		c.Cleanup(func() { sv.Close() })
	} else {
		es := c.newEngineBare(iv, to, func(so *engine.Socket) {
			mu.Lock()
			socks[so.Sid()] = so
			mu.Unlock()
			time.Sleep(opens)
		})
		es.onEv = func(so *engine.Socket, what string) {
			if what == "close" {
				closedAt(so.Sid())
			}
		}
		es.onMsg = func(*engine.Socket, EP) { time.Sleep(callback) }
		v = c.virtualServe(es.Server)
		es.onVirtual(v)
		c.Cleanup(func() { es.Server.Close() })
	}
	c.Tracef("interval %v timeout %v, message callback takes %v, open callback %v, socket.io %v", iv, to, callback, opens, sio)
	n := 1 + r.Intn(3)
	var wg sync.WaitGroup
	all := make([]*beat, n)
	for i := 0; i < n; i++ {
		i, rr := i, rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			all[i] = c13Session(c, v, rr, P, callback, opens, &mu, beats, socks, sio, i)
		}()
	}
	wg.Wait()
	c.Stop()
	// the silent ones end
	slack := P/4 + 100*time.Millisecond
	deadline := time.Now()
	mu.Lock()
	for _, b := range all {
		if e := b.last.Add(P + slack + b.busy + opens); !b.stays && e.After(deadline) {
			deadline = e
		}
	}
	mu.Unlock()
	time.Sleep(time.Until(deadline) + time.Millisecond)
	synctest.Wait()
	mu.Lock()
	for i, b := range all {
		got := b.closed
		if b.stays {
			continue
		}
		if len(got) != 1 {
			mu.Unlock()
			c.Fatalf("not-closed", "session %d (%s), interval %v, timeout %v: %d close events %v after its last packet\n%s", i, b.kind, iv, to, len(got), time.Since(b.last), strings.Join(b.desc, " "))
		}
		if d := got[0].Sub(b.last); d < P {
			mu.Unlock()
			c.Fatalf("closed-early", "session %d (%s), interval %v, timeout %v: closed %v after a packet\n%s", i, b.kind, iv, to, d, strings.Join(b.desc, " "))
		} else if d > P+slack+b.busy+opens {
			mu.Unlock()
			c.Fatalf("closed-late", "session %d (%s), interval %v, timeout %v: closed %v after its last packet\n%s", i, b.kind, iv, to, d, strings.Join(b.desc, " "))
		}
	}
	mu.Unlock()
	time.Sleep(10 * time.Millisecond)
	synctest.Wait()
	for i, b := range all {
		if b.stays {
			continue
		}
		if !b.gone() {
			c.Fatalf("not-ended", "session %d (%s): the connection is still there after the close event", i, b.kind)
		}
		if code := v.status("EIO=3&transport=polling&sid=" + b.sid); code < 400 || code > 499 {
			c.Fatalf("sid", "the sid of a session closed by its timeout is answered with status %d", code)
		}
		c.Count("silent sessions closed in time", 1)
	}
	for i, b := range all {
		if b.stays {
			mu.Lock()
			k := len(b.closed)
			mu.Unlock()
			if k == 0 {
				b.end()
				time.Sleep(b.busy + opens + time.Millisecond)
				synctest.Wait()
				mu.Lock()
				k = len(b.closed)
				mu.Unlock()
				if k != 1 {
					c.Fatalf("end", "session %d (%s): %d close events after its close packet", i, b.kind, k)
				}
			}
			c.Count("sessions kept alive", 1)
		}
		c.Sig("server %v %v %v %v %v", iv, to, callback, b.kind, b.desc)
	}
	c.Sample(map[string]interface{}{"interval": iv.String(), "timeout": to.String(), "sessions": len(all), "first": all[0].kind, "schedule": clip(strings.Join(all[0].desc, " "), 300)})
}

func c13Session(c *Ctx, v *vnet, r *rand.Rand, P, callback, opens time.Duration, mu *sync.Mutex, beats map[string]*beat, socks map[string]interface{ Close() error }, sio bool, idx int) *beat {
	b := &beat{}
	var send func(ps ...EP) error
	var in *Inbox
	var p *Poll
	var w *WS
	msg := func() EP {
		if sio {
			return EP{Type: 4, Data: []byte(`2["m"]`)}
		}
		return EP{Type: 4, Bin: r.Intn(3) == 0, Data: []byte("m")}
	}
	wsSend := func(ps ...EP) error {
		for _, x := range ps {
			if err := w.Send(x); err != nil {
				return err
			}
		}
		return nil
	}
	var err error
	polling := r.Intn(2) == 0
	opened := time.Now()
	if !polling {
		b.kind = "websocket"
		w, err = v.ws("", new(Inbox))
		if err != nil {
			c.Failf("handshake", "%v", err)
			return b
		}
		for !w.opened.Load() && !w.Ended() {
			time.Sleep(time.Nanosecond)
		}
		in, send = w.Inbox, wsSend
		b.sid = w.Open.SID
		b.gone = w.Ended
	} else {
		b.kind = "polling"
		p = v.poll(r.Intn(3))
		ps, err := p.get(context.Background())
		if err != nil || len(ps) == 0 || json.Unmarshal(ps[0].Data, &p.Open) != nil {
			c.Failf("handshake", "%v %v", err, ps)
			return b
		}
		in, b.sid = p.Inbox, p.Open.SID
		p.Start()
		send = func(ps ...EP) error {
			code, err := p.Post(ps, r.Intn(2) == 0, nil)
			if err == nil && code != 200 {
				err = &statusError{code, "POST"}
			}
			return err
		}
		b.gone = func() bool {
			code, _ := p.Err()
			return code >= 400
		}
	}
	mu.Lock()
	beats[b.sid] = b
	b.last = opened
	mu.Unlock()
	b.end = func() { send(EP{Type: 1}) }
	upgrade := polling && r.Intn(3) == 0
	b.stays = r.Intn(3) == 0
	steps := r.Intn(12)
	if b.stays {
		steps = 3 + r.Intn(25)
	}
	up := r.Intn(steps + 1)
	pings := 0
	check := func(when string) bool {
		mu.Lock()
		defer mu.Unlock()
		if len(b.closed) > 0 {
			c.Failf("closed-early", "session %d (%s), interval+timeout %v: closed %v after its last packet, %s\n%s", idx, b.kind, P, b.closed[0].Sub(b.last), when, strings.Join(b.desc, " "))
			return false
		}
		return true
	}
	for k := 0; k < steps; k++ {
		var gap time.Duration
		switch r.Intn(4) {
		case 0:
			gap = P - time.Nanosecond*time.Duration(1+r.Intn(1000000))
			if gap < 0 {
				gap = 0
			}
		case 1:
			gap = P/2 + time.Duration(r.Int63n(int64(P/2)))
		default:
			gap = time.Duration(r.Int63n(int64(P)))
		}
		mu.Lock()
		rest := P - time.Since(b.last) - time.Nanosecond // less than P after a failed upgrade
		if upgrade && k == up {
			rest -= 10 * time.Microsecond // which takes some time
		}
		gap = min(gap, rest)
		mu.Unlock()
		time.Sleep(gap)
		if upgrade && k == up && check("before an upgrade") {
			w, err = v.ws("sid="+b.sid, new(Inbox))
			if err != nil {
				c.Failf("upgrade", "%v", err)
				return b
			}
			idle := p.Halt() // on this network polls answered at once would keep the clock from running
			w.Send(EP{Type: 2, Data: []byte("probe")})
			for w.Len(3) == 0 && !w.Ended() {
				time.Sleep(time.Nanosecond)
			}
			<-idle
			// the attempt may take its time; what is posted meanwhile keeps the session alive
			for left := P - P/20; w.Len(3) > 0 && in.Len(3) == pings && r.Intn(4) > 0; {
				mu.Lock()
				rest := P - time.Since(b.last) - time.Millisecond
				mu.Unlock()
				if rest <= 0 {
					break
				}
				d := time.Duration(r.Int63n(int64(rest)))
				if left -= d; left < 0 {
					break
				}
				time.Sleep(d)
				if !check("during an upgrade") {
					return b
				}
				if r.Intn(5) == 0 {
					continue
				}
				// nothing that is answered: an answer waits for the end of the upgrade, which may keep the virtual clock
				x := []EP{{Type: 6}, {Type: 3, Data: []byte("pong")}, msg()}[r.Intn(3)]
				if x.Type == 4 {
					b.busy += callback
				}
				mu.Lock()
				b.last = time.Now()
				mu.Unlock()
				b.desc = append(b.desc, fmt.Sprint(d, ":", "in upgrade"))
				if err := send(x); err != nil {
					c.Failf("closed-early", "session %d (%s): posting during an upgrade fails: %v\n%s", idx, b.kind, err, strings.Join(b.desc, " "))
					return b
				}
				c.Count("packets during upgrades", 1)
			}
			if !check("during an upgrade") {
				return b
			}
			if r.Intn(3) == 0 { // it fails
				w.Close()
				time.Sleep(time.Microsecond)
				b.desc = append(b.desc, fmt.Sprint(gap, ":failed upgrade"))
				p.Start()
				continue
			}
			mu.Lock()
			b.last = time.Now()
			b.kind = "upgraded"
			mu.Unlock()
			if w.Len(3) == 0 || w.Send(EP{Type: 5}) != nil {
				c.Failf("upgrade", "an upgrade within the period fails")
				return b
			}
			w.Inbox.mu.Lock()
			for _, f := range w.Inbox.frames[1:] {
				in.add(f, 'w')
			}
			w.Inbox.note = func(f EP, _ byte) { in.add(f, 'w') }
			w.Inbox.mu.Unlock()
			send, b.gone = wsSend, w.Ended
			b.desc = append(b.desc, fmt.Sprint(gap, ":upgrade"))
			continue
		}
		if !check("while it kept sending") {
			return b
		}
		ps := []EP{}
		for i := 1 + r.Intn(2)*r.Intn(3); i > 0; i-- {
			switch r.Intn(6) {
			case 0:
				ps = append(ps, EP{Type: 6})
			case 1:
				ps = append(ps, EP{Type: 3, Data: []byte("pong")})
			case 2, 3:
				ps = append(ps, EP{Type: 2, Data: []byte(fmt.Sprint("ping", pings))})
				pings++
			default:
				ps = append(ps, msg())
				b.busy += callback
			}
		}
		mu.Lock()
		b.last = time.Now()
		mu.Unlock()
		b.desc = append(b.desc, fmt.Sprint(gap, ":", len(ps)))
		if err := send(ps...); err != nil {
			c.Failf("closed-early", "session %d (%s): sending within the period fails: %v\n%s", idx, b.kind, err, strings.Join(b.desc, " "))
			return b
		}
	}
	// every ping has its pong
	time.Sleep(min(b.busy+opens+time.Microsecond, P/2))
	if b.busy+opens < P/2 {
		k := 0
		for _, f := range in.All() {
			if f.Type == 3 {
				if string(f.Data) != fmt.Sprint("ping", k) {
					c.Failf("pong", "pong %d is %q", k, f.Data)
				}
				k++
			}
		}
		if k != pings {
			c.Failf("pong", "%d pongs for %d pings", k, pings)
		}
		c.Count("pings answered", k)
	}
	return b
}

// connDialer hands out a connection made elsewhere.
type connDialer struct{ conn engine.Conn }

func (d connDialer) Dial(string, http.Header) (engine.Conn, error) { return d.conn, nil }

// c13Client: the client's heartbeat against a scripted server, on the virtual clock.
func c13Client(c *Ctx) {
	r := c.R
	iv, to := genTimes(r)
	iv, to = iv.Truncate(time.Millisecond), to.Truncate(time.Millisecond)
	if to > 50*iv { // the pings of a case are limited
		to = 50 * iv
	}
	P := iv + to
	c.settle(P)
	sio := r.Intn(3) == 0
	// the client's transport is one that was accepted: the harness dials it
	conns := make(chan engine.Conn, 1)
	hold := make(chan struct{})
	c.Cleanup(func() { close(hold) })
	v := c.virtualServe(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		conn, err := engine.WebsocketTransport.Accept(w, req)
		if err == nil {
			conns <- conn
			<-hold
		}
	}))
	w, err := v.ws("", new(Inbox))
	c.Must(err, "dial")
	conn := <-conns
	var mu sync.Mutex
	var pings, others []time.Time
	var last time.Time // something was sent to the client
	delay := time.Duration(0)
	if r.Intn(2) == 0 {
		delay = time.Duration(r.Int63n(int64(to)))
	}
	mode := r.Intn(4) // 0: answers all; 1: other packets instead of pongs; 2: answers some, then silence; 3: silence at once
	answer := -1
	switch mode {
	case 2:
		answer = 1 + r.Intn(6)
	case 3:
		answer = 0
	}
	var data []string
	w.Inbox.mu.Lock()
	w.Inbox.note = func(f EP, _ byte) {
		mu.Lock()
		defer mu.Unlock()
		if f.Type != 2 {
			others = append(others, time.Now())
			return
		}
		pings = append(pings, time.Now())
		data = append(data, string(f.Data))
		if answer < 0 || len(pings) <= answer {
			reply := EP{Type: 3, Data: f.Data, Bin: f.Bin}
			if mode == 1 {
				reply = []EP{{Type: 6}, {Type: 4, Data: []byte("x")}, {Type: 4, Bin: true, Data: []byte("x")}, {Type: 3, Data: []byte("other")}}[r.Intn(4)]
				if sio && reply.Type == 4 {
					reply = EP{Type: 4, Data: []byte(`2["x"]`)}
				}
			}
			go func() {
				time.Sleep(delay)
				mu.Lock()
				last = time.Now()
				mu.Unlock()
				w.Send(reply)
			}()
		}
	}
	w.Inbox.mu.Unlock()
	t0 := time.Now()
	last = t0
	go w.Send(openPacket("v", int(iv/time.Millisecond), int(to/time.Millisecond)))
	var closed []time.Time
	onClose := func() { mu.Lock(); closed = append(closed, time.Now()); mu.Unlock() }
	var stop func() error
	var emit func() error
	if sio {
		cl := socketio.NewClient()
		cl.Namespace("/").OnDisconnect(func(socketio.Socket) { onClose() })
		if err := cl.Dial("ws://pipe/", nil, connDialer{conn}, socketio.DefaultParser); err != nil {
			c.Fatalf("dial", "Dial: %v", err)
		}
		w.Send(EP{Type: 4, Data: []byte("0")})
		stop, emit = cl.Close, func() error { return cl.Emit("/", "e") }
	} else {
		cl, err := engine.Dial("ws://pipe/", nil, connDialer{conn}, func(cl *engine.Client) {
			cl.On(engine.EventClose, engine.Callback(func(*engine.Socket, engine.MessageType, []byte) { onClose() }))
		})
		if err != nil {
			c.Fatalf("dial", "Dial: %v", err)
		}
		stop, emit = cl.Close, func() error { return cl.Send("e") }
	}
	c.Cleanup(func() { stop() })
	c.Cleanup(func() { w.Close() })
	desc := fmt.Sprintf("interval %v timeout %v delay %v mode %d answers %d", iv, to, delay, mode, answer)
	c.Tracef("%s", desc)
	span := time.Duration(3+r.Intn(20)) * iv
	if mode >= 2 {
		span = time.Duration(answer)*(iv+delay) + P + P/2
	}
	for e := r.Intn(3); e > 0 && mode < 2; e-- {
		d := time.Duration(r.Int63n(int64(span)))
		go func() {
			time.Sleep(d)
			emit()
		}()
	}
	time.Sleep(span)
	synctest.Wait()
	mu.Lock()
	defer mu.Unlock()
	limit := time.Now()
	if len(closed) > 0 {
		limit = closed[0]
	}
	// pings come at the interval for as long as the client is connected
	prev := t0
	for i, t := range append(append([]time.Time(nil), pings...), time.Time{}) {
		if t.IsZero() {
			if d := limit.Sub(prev); d > iv+iv/10+time.Millisecond {
				c.Fatalf("ping-missing", "%s: no ping for %v", desc, d)
			}
			break
		}
		if d := t.Sub(prev); d < iv-iv/10-time.Millisecond || d > iv+iv/10+time.Millisecond {
			c.Fatalf("ping-interval", "%s: ping %d comes %v after the previous", desc, i, d)
		}
		prev = t
	}
	if mode < 2 {
		if len(closed) > 0 && closed[0].Sub(last) < P {
			c.Fatalf("closed-early", "%s: the client ended %v after a packet of the server's", desc, closed[0].Sub(last))
		}
		if len(closed) > 0 {
			c.Fatalf("closed-early", "%s: the client ended %v after Dial although it was answered", desc, closed[0].Sub(t0))
		}
		if w.Ended() {
			c.Fatalf("closed-early", "%s: the client has dropped the connection", desc)
		}
		c.Count("clients kept connected", 1)
	} else {
		if len(closed) != 1 {
			c.Fatalf("not-closed", "%s: %d close events, the server fell silent %v ago", desc, len(closed), time.Since(last))
		}
		if d := closed[0].Sub(last); d < P || d > P+P/4+time.Millisecond {
			c.Fatalf("closed-when", "%s: closed %v after the server's last packet", desc, d)
		}
		if !w.Ended() {
			c.Fatalf("not-ended", "%s: the connection is still there", desc)
		}
		c.Count("silent servers left in time", 1)
	}
	c.Count("pings of a client timed", len(pings))
	c.Sample(map[string]interface{}{"client": desc, "pings": len(pings)})
	c.Sig("client %s %d", desc, len(pings))
}

// c13Pings: pings amid traffic, on the real network, across upgrades.
func c13Pings(c *Ctx) {
	r := c.R
	how := c.Perturb("server.reader.handle", "emitter.submit", "emitter.dequeued", "emitter.write", "polling.read", "polling.readout", "polling.write", "polling.post", "websocket.write", "socket.read")
	es := c.NewEngine(40*time.Second, 60*time.Second, nil)
	es.onMsg = func(so *engine.Socket, p EP) { so.Send("echo " + string(p.Data)) }
	mode := r.Intn(4)
	var u *upPeer
	var in *Inbox
	var send func(ps []EP) error
	var sid string
	if mode == 3 {
		w := c.MustWS(es.Addr)
		in, sid = w.Inbox, w.Open.SID
		send = func(ps []EP) error {
			for _, p := range ps {
				if err := w.Send(p); err != nil {
					return err
				}
			}
			return nil
		}
	} else {
		p := c.MustPoll(es.Addr, mode)
		p.Start()
		u = &upPeer{Poll: p}
		in, sid = p.Inbox, p.Open.SID
		send = func(ps []EP) error { return u.sendEPs(ps, nil) }
	}
	so := es.WaitSock(sid)
	// other traffic
	others := 0
	var wg Group
	for g := r.Intn(3); g > 0; g-- {
		k := r.Intn(30)
		others += k
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < k; i++ {
				so.Send("other")
			}
		}()
	}
	n := 1 + r.Intn(30)
	upAt := -1
	if u != nil && r.Intn(3) == 0 {
		upAt = r.Intn(n)
	}
	c.Sample(map[string]interface{}{"transport": []string{"xhr2", "base64", "jsonp", "websocket"}[mode], "packets": n, "upgrade": upAt >= 0, "delays": how})
	var want, beats []EP
	for i := 0; i < n; {
		if upAt >= 0 && i >= upAt {
			u.upgrade(c, 0, false)
			upAt = -1
		}
		var ps []EP
		for k := 1 + r.Intn(4); k > 0 && i < n; k-- {
			if r.Intn(3) == 0 {
				d := []byte(fmt.Sprint("m", i))
				ps = append(ps, EP{Type: 4, Data: d})
				want = append(want, EP{Type: 4, Data: append([]byte("echo "), d...)})
			} else {
				p := EP{Type: 2, Bin: r.Intn(4) == 0}
				if r.Intn(5) > 0 {
					d := genSize(r, 3000)
					if p.Bin {
						p.Data = genBytes(r, d)
					} else {
						p.Data = []byte(genText(r, d))
					}
				}
				if r.Intn(5) == 0 { // a pong of the client's: nothing to answer
					p.Type = 3
					ps, beats = append(ps, p), append(beats, p)
				} else {
					ps, beats = append(ps, p), append(beats, p)
					p.Type = 3
					want = append(want, p)
				}
			}
			i++
		}
		if err := send(ps); err != nil {
			c.Fatalf("ended", "sending fails: %v", err)
		}
	}
	var got []EP
	c.MustAwait("pong-missing", "every ping and message is answered", func() bool {
		got = got[:0]
		o := 0
		for _, f := range in.All() {
			switch {
			case f.Type == 4 && string(f.Data) == "other":
				o++
			case f.Type == 3 || f.Type == 4:
				got = append(got, f)
			}
		}
		for i, f := range got {
			if i >= len(want) || !f.equal(want[i]) {
				w := "nothing"
				if i < len(want) {
					w = want[i].String()
				}
				c.Fatalf("pong", "answer %d is %v, want %s", i, f, w)
			}
		}
		return len(got) == len(want) && o == others && done(&wg)
	})
	time.Sleep(300 * time.Microsecond)
	if k := in.Len(3); k != countType(want, 3) {
		c.Fatalf("pong", "%d pongs for %d pings", k, countType(want, 3))
	}
	c.MustAwait("ping-event", "the ping and pong events of what was received", func() bool { return len(es.Beats(sid)) >= len(beats) })
	bs := es.Beats(sid)
	for i, b := range bs {
		if i >= len(beats) || !b.equal(beats[i]) {
			w := "nothing"
			if i < len(beats) {
				w = beats[i].String()
			}
			c.Fatalf("ping-event", "ping or pong event %d of the server has %v, received was %s", i, b, w)
		}
	}
	c.Count("ping and pong events", len(bs))
	c.Count("pings answered", in.Len(3))
	c.Sig("pings %d %d %d %x", mode, n, others, interleaving())
}

func countType(ps []EP, t byte) (n int) {
	for _, p := range ps {
		n += b2i(p.Type == t)
	}
	return
}

// c13Real: the same on the real clock, with bounds that no load can upset.
func c13Real(c *Ctx) {
	r := c.R
	iv, to := time.Duration(50+r.Intn(100))*time.Millisecond, time.Duration(50+r.Intn(150))*time.Millisecond
	P := iv + to
	c.Sample(map[string]interface{}{"real clock": true, "interval": iv.String(), "timeout": to.String()})
	if r.Intn(2) == 0 { // a silent peer of the server
		es := c.NewEngine(iv, to, nil)
		var t time.Time
		var sid string
		if r.Intn(2) == 0 {
			before := time.Now()
			w := c.MustWS(es.Addr)
			sid, t = w.Open.SID, before
			if r.Intn(2) == 0 && w.Send(EP{Type: 2}) == nil && c.Soon(P/2, func() bool { return w.Len(3) > 0 }) {
				t = before // the ping arrived at some time after
			}
		} else {
			before := time.Now()
			p := c.MustPoll(es.Addr, modeXHR2)
			p.Start()
			sid, t = p.Open.SID, before
		}
		c.MustAwait("not-closed", "a silent session is closed", func() bool { return es.Events(sid, "close") > 0 })
		if d := time.Since(t); d < P {
			c.Fatalf("closed-early", "interval %v, timeout %v: a session is closed %v after its handshake began", iv, to, d)
		}
		c.Count("silent sessions closed in time", 1)
		c.Sig("real server %v %v", iv, to)
		return
	}
	t := time.Now()
	rs := c.NewRawServer(func(p *RawPeer) {
		p.Send(openPacket("r", int(iv/time.Millisecond), int(to/time.Millisecond)))
		p.StartReading()
	})
	ended := make(chan struct{})
	cl, err := engine.Dial("ws://"+rs.Addr+"/", nil, engine.WebsocketTransport, func(cl *engine.Client) {
		cl.On(engine.EventClose, engine.Callback(func(*engine.Socket, engine.MessageType, []byte) { close(ended) }))
	})
	if err != nil {
		c.Fatalf("dial", "Dial: %v", err)
	}
	c.Cleanup(func() { cl.Close() })
	c.MustAwait("not-closed", "a client ends when the server is silent", func() bool {
		select {
		case <-ended:
			return true
		default:
			return false
		}
	})
	if d := time.Since(t); d < P {
		c.Fatalf("closed-early", "interval %v, timeout %v: a client ends %v after its handshake began", iv, to, d)
	}
	c.Count("silent servers left in time", 1)
	c.Sig("real client %v %v", iv, to)
}

var _ net.Conn
