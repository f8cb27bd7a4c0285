package main

import (
	randv2 "math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"
)

// Scheduling points compiled into the library with -tags verif. A point that no longer exists is never hit.
var allPoints = []string{
	"emitter.submit", "emitter.dequeued", "emitter.write", "emitter.flush",
	"socket.read", "socket.close", "socket.close.conn",
	"server.opened", "server.reader.start", "server.reader.handle", "server.onopen", "server.accepted", "server.session",
	"upgrade.probed", "upgrade.pause", "upgrade.paused", "upgrade.confirmed", "upgrade.closed", "upgrade.flushed", "upgrade.swapped",
	"polling.read", "polling.readout", "polling.write", "polling.post", "websocket.write",
	"client.reader.start", "client.reader.handle", "client.dialed",
	"server.open", "server.open.connected", "server.open.registered", "server.close.removed", "server.process",
	"client.dial.engine", "client.process", "ack.found", "socket.emit", "socket.emit.frame", "socket.detachall",
}

type slow struct {
	delay time.Duration
	prob  float64
}

type perturbation struct {
	slow  map[string]slow
	yield float64
	hits  map[string]*atomic.Int64
	mu    sync.Mutex
	seq   uint64
	n     int
}

var currentPerturb *perturbation

func (p *perturbation) hook(point string) {
	if !raceEnabled { // no synchronisation of our own under the race detector
		if h := p.hits[point]; h != nil {
			h.Add(1)
			p.mu.Lock()
			if p.n < 4096 {
				p.n++
				for i := 0; i < len(point); i++ {
					p.seq = (p.seq ^ uint64(point[i])) * 1099511628211
				}
			}
			p.mu.Unlock()
		}
	}
	if s, ok := p.slow[point]; ok && (s.prob >= 1 || randv2.Float64() < s.prob) {
		time.Sleep(s.delay)
	} else if p.yield > 0 && randv2.Float64() < p.yield {
		runtime.Gosched()
	}
}

func perturbInstall(p *perturbation) {
	p.hits = make(map[string]*atomic.Int64, len(allPoints))
	for _, n := range allPoints {
		p.hits[n] = new(atomic.Int64)
	}
	p.seq = 14695981039346656037
	currentPerturb = p
	engine.SetVerifHook(p.hook)
	socketio.SetVerifHook(p.hook)
}

func perturbReset() {
	if currentPerturb == nil || currentPerturb.slow != nil || currentPerturb.yield > 0 {
		perturbKeep(&perturbation{})
	}
}

// perturbKeep installs p but leaves the counters of the case visible.
func perturbKeep(p *perturbation) {
	old := currentPerturb
	perturbInstall(p)
	if old != nil {
		p.hits, p.seq, p.n = old.hits, old.seq, old.n
	}
}

func perturbHits() map[string]int64 {
	m := map[string]int64{}
	if currentPerturb != nil {
		for k, v := range currentPerturb.hits {
			if n := v.Swap(0); n > 0 {
				m[k] = n
			}
		}
	}
	return m
}

// interleaving is a hash of the order in which scheduling points were passed in this case.
func interleaving() uint64 {
	p := currentPerturb
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.seq
}

var delays = []time.Duration{50 * time.Microsecond, 300 * time.Microsecond, time.Millisecond, 4 * time.Millisecond, 15 * time.Millisecond}

// Perturb picks, for this case, which scheduling points are slowed down and by how much.
func (c *Ctx) Perturb(focus ...string) string {
	p := &perturbation{slow: map[string]slow{}}
	desc := ""
	if c.R.Intn(5) > 0 {
		n := 1 + c.R.Intn(3)
		for i := 0; i < n; i++ {
			var name string
			if len(focus) > 0 && c.R.Intn(3) > 0 {
				name = focus[c.R.Intn(len(focus))]
			} else {
				name = allPoints[c.R.Intn(len(allPoints))]
			}
			s := slow{delay: delays[c.R.Intn(len(delays))], prob: []float64{1, 1, 0.3, 0.05}[c.R.Intn(4)]}
			if _, hot := hotPoints[name]; hot && s.delay > time.Millisecond {
				s.prob = 0.05
			}
			p.slow[name] = s
			desc += name + "=" + s.delay.String() + " "
		}
	}
	p.yield = []float64{0, 0.1, 0.5}[c.R.Intn(3)]
	perturbInstall(p)
	c.Tracef("perturb: %s yield=%v", desc, p.yield)
	return desc
}

// SlowPoints installs the given delays for this case.
func (c *Ctx) SlowPoints(m map[string]slow, yield float64) {
	perturbInstall(&perturbation{slow: m, yield: yield})
}

// hotPoints are passed once or more per packet; long delays there only slow the run down.
var hotPoints = map[string]bool{
	"emitter.submit": true, "emitter.dequeued": true, "emitter.write": true, "socket.read": true,
	"server.reader.handle": true, "polling.read": true, "polling.readout": true, "polling.write": true, "polling.post": true,
	"websocket.write": true, "client.reader.handle": true, "server.process": true, "client.process": true,
	"socket.emit": true, "socket.emit.frame": true, "ack.found": true, "server.session": true,
}
