package main

import (
	"context"
	"errors"
	"fmt"
	"net"
	"net/http"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
)

// childVirtual runs the cases of a suite on a virtual clock (testing/synctest): time advances only when every goroutine
// of the case is blocked, so timers are exact and the machine's load does not show. Connections are in memory. Cases
// that want the real clock and network say so with realTime.
func childVirtual(s *Suite, out *os.File) {
	startCanary()
	var since atomic.Int64 // start of the current case, on the real clock
	var current atomic.Int64
	go func() { // not in a bubble
		for {
			time.Sleep(time.Second)
			if t := since.Load(); t != 0 && s.Extra && !s.realTime(int(current.Load())) && time.Now().UnixNano()-t > int64(20*time.Second) {
				report(out, record{Kind: "stuck", Case: int(current.Load())})
				os.Exit(0)
			} else if t != 0 && time.Now().UnixNano()-t > int64(100*time.Second) {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				report(out, record{Kind: "inconclusive", Case: int(current.Load()), Msg: "the case does not end:\n" + string(buf)})
				report(out, record{Kind: "end"})
				os.Exit(0)
			}
		}
	}()
	body := func(t *testing.T) {
		for n := *fFrom; n < *fCases; n += *fStep {
			current.Store(int64(n))
			since.Store(time.Now().UnixNano())
			ok := true
			if *fReal && !s.realTime(n) {
				continue
			}
			if s.realTime(n) {
				ok = runCase(&Suite{ID: s.ID, Run: s.Run}, *fTier, *fSeed, n, out)
			} else {
				func() {
					defer func() {
						e := recover()
						if e != nil && s.Extra {
							report(out, record{Kind: "stuck", Case: n})
							os.Exit(0)
						}
						if e != nil { // goroutines remain blocked after the case: no matter here
							report(out, record{Kind: "inconclusive", Case: n, Msg: fmt.Sprint(e) + bubbled()})
						}
					}()
					synctest.Test(t, func(*testing.T) { ok = runCase(s, *fTier, *fSeed, n, out) })
				}()
			}
			since.Store(0)
			if !ok && !*fKeep {
				break
			}
		}
		report(out, record{Kind: "end"})
		os.Exit(0)
	}
	os.Args = os.Args[:1]
	testing.Main(func(pat, str string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: s.ID, F: body}}, nil, nil)
}

// bubbled returns the stacks of the goroutines on a virtual clock.
func bubbled() (out string) {
	for _, g := range goroutines() {
		if first, _, _ := strings.Cut(g, "\n"); strings.Contains(first, "synctest bubble") {
			out += "\n\n" + g
		}
	}
	return
}

// pipeListener is a network in memory.
type pipeListener struct {
	conns chan net.Conn
	done  chan struct{}
	once  sync.Once
	mu    sync.Mutex
	all   []net.Conn
}

func newPipeListener() *pipeListener {
	return &pipeListener{conns: make(chan net.Conn), done: make(chan struct{})}
}

func (l *pipeListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.conns:
		return c, nil
	case <-l.done:
		return nil, errors.New("listener closed")
	}
}

func (l *pipeListener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *pipeListener) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1} }

func (l *pipeListener) Dial() (net.Conn, error) {
	a, b := net.Pipe()
	select {
	case l.conns <- b:
		l.mu.Lock()
		l.all = append(l.all, a, b)
		l.mu.Unlock()
		return a, nil
	case <-l.done:
		return nil, errors.New("connection refused")
	}
}

// vnet is an HTTP server in memory.
type vnet struct {
	*pipeListener
	c  *Ctx
	hs *http.Server
}

// settle lets what the case has started end before the case does.
func (c *Ctx) settle(P time.Duration) {
	c.Cleanup(func() {
		time.Sleep(10*P + time.Minute)
		synctest.Wait()
	})
}

func (c *Ctx) virtualServe(h http.Handler) *vnet {
	v := &vnet{pipeListener: newPipeListener(), c: c}
	var inflight atomic.Int64
	v.hs = &http.Server{Handler: c.guard(h, &inflight)}
	go v.hs.Serve(v.pipeListener)
	c.Cleanup(func() {
		v.hs.Close()
		v.mu.Lock()
		defer v.mu.Unlock()
		for _, x := range v.all {
			x.Close()
		}
	})
	return v
}

func (v *vnet) ws(query string, in *Inbox) (*WS, error) {
	w, _, err := dialWS("pipe", query, nil, in, func(string, string) (net.Conn, error) { return v.Dial() })
	if err == nil {
		v.c.Cleanup(w.Close)
	}
	return w, err
}

func (v *vnet) poll(mode int) *Poll {
	p := newPoll("pipe", mode, nil)
	p.tr.DialContext = func(context.Context, string, string) (net.Conn, error) { return v.Dial() }
	p.tr.MaxIdleConnsPerHost = 4
	v.c.Cleanup(p.Close)
	return p
}

func (v *vnet) status(query string) int {
	tr := &http.Transport{DisableKeepAlives: true, DialContext: func(context.Context, string, string) (net.Conn, error) { return v.Dial() }}
	defer tr.CloseIdleConnections()
	resp, err := (&http.Client{Transport: tr}).Get("http://pipe/engine.io/?" + query)
	if err != nil {
		return 0
	}
	resp.Body.Close()
	return resp.StatusCode
}
