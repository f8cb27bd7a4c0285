package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"net/http"
	"sync"
	"sync/atomic"
	"time"
)

// brokenWriter is the response to a request that is lost: from some byte on, or once its client has gone, nothing can be
// written, and writers are told so.
type brokenWriter struct {
	http.ResponseWriter
	mu      sync.Mutex
	left    int // bytes that go through; negative for all of them
	begun   bool
	gone    bool
	refused bool
}

var errBroken = errors.New("write: broken pipe")

func (b *brokenWriter) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.begun = true
	if b.gone {
		b.refused = true
		return 0, errBroken
	}
	if b.left >= 0 && len(p) > b.left {
		n, _ := b.ResponseWriter.Write(p[:b.left])
		b.left, b.gone, b.refused = 0, true, true
		return n, errBroken
	}
	if b.left >= 0 {
		b.left -= len(p)
	}
	return b.ResponseWriter.Write(p)
}

// leave makes the client go away, unless it is being answered.
func (b *brokenWriter) leave() bool {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.gone = b.gone || !b.begun
	return b.gone
}

// c05Lost: polls whose responses cannot be written, or whose clients go away before they are answered. The peer polls
// again: it must get everything, or find the session ended.
func c05Lost(c *Ctx, how string) {
	r := c.R
	es := c.newEngineBare(40*time.Second, 60*time.Second, nil)
	var polls, lost atomic.Int64
	var calm atomic.Bool // requests are left alone
	var rmu sync.Mutex
	pct := []int{3, 20, 60}[r.Intn(3)]
	es.Front = c.Serve(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		if req.Method != "GET" || req.URL.Query().Get("sid") == "" {
			es.Server.ServeHTTP(w, req)
			return
		}
		polls.Add(1)
		defer polls.Add(-1)
		rmu.Lock()
		hit, kind, k, d := r.Intn(100) < pct, r.Intn(3), r.Intn(1+r.Intn(200)), time.Duration(r.Intn(2000))*time.Microsecond
		rmu.Unlock()
		if !hit || calm.Load() {
			es.Server.ServeHTTP(w, req)
			return
		}
		ctx, cancel := context.WithCancel(req.Context())
		defer cancel()
		b := &brokenWriter{ResponseWriter: w, left: -1}
		switch kind {
		case 0:
			b.left = k
		case 1:
			b.gone = true
			cancel()
		default:
			t := time.AfterFunc(d, func() {
				if b.leave() {
					cancel()
				}
			})
			defer t.Stop()
		}
		es.Server.ServeHTTP(b, req.WithContext(ctx))
		b.mu.Lock()
		refused := b.refused
		b.mu.Unlock()
		if refused {
			lost.Add(1)
			panic(http.ErrAbortHandler)
		}
	}))
	c.Cleanup(func() { es.Server.Close() })
	p := c.MustPoll(es.Addr, r.Intn(3))
	so := es.WaitSock(p.Open.SID)
	quiet := r.Intn(3) == 0
	l := &lane{c: c, name: "server to peer", got: p.Msgs, emit: func(x EP, style int, buf []byte) error { return engineEmit(so, x, style, buf) }}
	k, n, max := 1+r.Intn(3), 1+r.Intn(25), []int{40, 3000, 200000}[r.Intn(3)]
	c.Sample(map[string]interface{}{"connection": fmt.Sprintf("polling mode %d, %d%% of the polls lost", p.Mode, pct), "quiet": quiet, "senders": k, "messages": n, "delays": how})
	c.Tracef("mode %d, %d%% lost, quiet %v, %d senders of %d messages up to %d bytes", p.Mode, pct, quiet, k, n, max)
	var ended atomic.Bool
	var stop atomic.Bool
	halt := make(chan struct{})
	c.Cleanup(func() { close(halt) })
	// poll polls once, and reports whether the session is there
	poll := func(ctx context.Context) {
		ps, err := p.get(ctx)
		var se *statusError
		if errors.As(err, &se) {
			ended.Store(true)
			return
		}
		if err == nil {
			for _, x := range ps {
				p.add(x, 'p')
			}
		}
	}
	var wg Group
	if quiet { // clients that go while there is nothing to be sent
		calm.Store(true)
		l.sent, l.next, l.index = make([][]EP, 1), make([]int, 1), map[string][2]int{}
		rr := rand.New(rand.NewSource(r.Int63()))
		for round := 1 + r.Intn(5); round > 0 && !ended.Load(); round-- {
			for i := 1 + rr.Intn(3); i > 0; i-- {
				ctx, cancel := context.WithCancel(context.Background())
				var g sync.WaitGroup
				g.Add(1)
				go func() { defer g.Done(); poll(ctx) }()
				c.MustAwait("poll-stall", "the poll is taken up", func() bool { return polls.Load() > 0 || ended.Load() })
				time.Sleep(time.Duration(rr.Intn(300)) * time.Microsecond)
				cancel()
				g.Wait()
				c.MustAwait("poll-stall", "a poll whose client has gone ends", func() bool { return polls.Load() == 0 })
				lost.Add(1)
			}
			m := 1 + rr.Intn(5)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for ; m > 0; m-- {
					x := c5payload(rr, 0, len(l.sent[0]), max, false)
					l.add(0, x)
					if engineEmit(so, x, 2, nil) != nil {
						l.drop(0)
						return
					}
				}
			}()
			c.MustAwait("gap", "after polls whose clients have gone, everything arrives or the session ends", func() bool {
				if done(&wg) && l.check() >= l.total() || ended.Load() {
					return true
				}
				ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
				defer cancel()
				poll(ctx)
				return false
			})
		}
	} else {
		l.run(&wg, k, n, max, &stop, []time.Duration{0, 300 * time.Microsecond, 3 * time.Millisecond}[r.Intn(3)])
		if r.Intn(4) == 0 { // before anyone polls
			c.Soon(2*time.Millisecond, func() bool { return done(&wg) })
		}
		var over Group
		over.Add(1)
		ctx, cancel := context.WithCancel(context.Background())
		go func() {
			defer over.Done()
			for !ended.Load() && ctx.Err() == nil {
				poll(ctx)
			}
		}()
		c.MustAwait("gap", "a session whose polls get lost ends, or delivers everything in the end", func() bool {
			return ended.Load() || done(&wg) && l.check() >= l.total()
		})
		stop.Store(true)
		cancel()
		c.MustAwait("emit-stall", "emits return", func() bool { return done(&wg) && (done(&over) || c.Failed()) })
	}
	l.check()
	c.Stop()
	c.Count("messages delivered and checked", l.seen)
	c.Count("polls lost", int(lost.Load()))
	if ended.Load() {
		c.MustAwait("close-event", "the session has ended", func() bool { return es.Events(p.Open.SID, "close") == 1 })
		c.Count("connections ended with a poll lost", 1)
	} else {
		c.Count("connections that lost polls and delivered everything", 1)
	}
	c.Sig("lost %d %d %v %d %d %d %x", p.Mode, pct, quiet, k, l.total(), lost.Load(), interleaving())
}
