package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	randv2 "math/rand/v2"
	"net"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Suite is the machinery that decides one property.
type Suite struct {
	ID       string
	Rule     string
	Quick    int              // cases in the quick tier
	Deep     int              // cases in the thorough tier
	Shards   int              // worker processes (0: twice the CPUs)
	Race     bool             // built with the race detector
	Virtual  bool             // cases run on a virtual clock (testing/synctest)
	realTime func(n int) bool // but for these
	Extra    bool             // the suite also decides its property without the cases on the virtual clock
	MinNT    int              // least number of distinct nontrivial cases a quick run must observe
	NoMem    bool             // no address-space limit
	Run      func(c *Ctx)
}

var suites = map[string]*Suite{}

func register(s *Suite) { suites[s.ID] = s }

// record is one line a worker reports to the orchestrator.
type record struct {
	Kind     string           `json:"k"` // start, done, fail, inconclusive
	Case     int              `json:"c"`
	Key      string           `json:"key,omitempty"`
	Msg      string           `json:"m,omitempty"`
	Counters map[string]int64 `json:"n,omitempty"`
	Sigs     []string         `json:"s,omitempty"`
	Sample   interface{}      `json:"x,omitempty"`
	Points   map[string]int64 `json:"p,omitempty"`
}

// Ctx is one case of a suite.
type Ctx struct {
	S    *Suite
	Tier string
	Seed int64
	Case int
	R    *rand.Rand

	mu       sync.Mutex
	counters map[string]int64
	sigs     []string
	sample   interface{}
	fails    []record
	incon    string
	failed   atomic.Bool
	trace    []string
	cleanup  []func()
	final    []func()
}

type abort struct{}

// Count adds to a counter of observed events.
func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	c.counters[name] += int64(n)
	c.mu.Unlock()
}

// Sig records a signature of something distinct and nontrivial that this case observed.
func (c *Ctx) Sig(format string, a ...interface{}) {
	h := fnv.New64a()
	fmt.Fprintf(h, format, a...)
	c.mu.Lock()
	c.sigs = append(c.sigs, fmt.Sprintf("%016x", h.Sum64()))
	c.mu.Unlock()
}

// Sample keeps a written-out description of the case.
func (c *Ctx) Sample(v interface{}) {
	c.mu.Lock()
	c.sample = v
	c.mu.Unlock()
}

// Tracef records a line of the history of the case, written out when it fails.
func (c *Ctx) Tracef(format string, a ...interface{}) {
	c.mu.Lock()
	if len(c.trace) < 4000 {
		c.trace = append(c.trace, fmt.Sprintf(format, a...))
	}
	c.mu.Unlock()
}

// Failf records a violation. key identifies what is violated.
func (c *Ctx) Failf(key, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	if len(msg) > 4000 {
		msg = msg[:4000] + "..."
	}
	c.mu.Lock()
	if len(c.fails) < 5 {
		t := c.trace
		if len(t) > 200 {
			t = t[len(t)-200:]
		}
		if len(t) > 0 {
			msg += "\n--- history ---\n" + strings.Join(t, "\n")
		}
		c.fails = append(c.fails, record{Kind: "fail", Case: c.Case, Key: key, Msg: msg})
	}
	c.mu.Unlock()
	c.failed.Store(true)
}

// Failed tells whether a violation was recorded in this case.
func (c *Ctx) Failed() bool { return c.failed.Load() }

// Fatalf records a violation and ends the case; only from the goroutine that runs the case.
func (c *Ctx) Fatalf(key, format string, a ...interface{}) {
	c.Failf(key, format, a...)
	panic(abort{})
}

// Stop ends the case if a violation was recorded.
func (c *Ctx) Stop() {
	if c.Failed() {
		panic(abort{})
	}
}

// Inconclusive ends the case without a verdict.
func (c *Ctx) Inconclusive(format string, a ...interface{}) {
	c.mu.Lock()
	c.incon = fmt.Sprintf(format, a...)
	c.mu.Unlock()
	panic(abort{})
}

// Must is for the harness's own plumbing: an error there decides nothing.
func (c *Ctx) Must(err error, what string) {
	if err != nil {
		c.Inconclusive("%s: %v", what, err)
	}
}

// Cleanup registers f to run when the case ends, last first.
func (c *Ctx) Cleanup(f func()) {
	c.mu.Lock()
	c.cleanup = append(c.cleanup, f)
	c.mu.Unlock()
}

// Final registers f to run when the case has run and before its cleanups: a last look at what was kept.
func (c *Ctx) Final(f func()) {
	c.mu.Lock()
	c.final = append(c.final, f)
	c.mu.Unlock()
}

// Sleep pauses; a rand-free helper to make intent visible.
func (c *Ctx) Sleep(d time.Duration) { time.Sleep(d) }

const (
	stallTime  = 12 * time.Second
	stallSteps = 1000
)

// Await waits until cond holds. It is the bounded-progress oracle: what is awaited must happen before an
// independent echo over the loopback network has completed stallSteps round trips (and stallTime has passed).
// A machine too slow for the echo therefore yields no verdict.
func (c *Ctx) Await(key, what string, cond func() bool) bool {
	if c.await(cond, stallTime, stallSteps) {
		return true
	}
	if !c.Failed() {
		c.Failf(key, "no progress: %s\n%s", what, libStacks())
	}
	return false
}

// MustAwait is Await that ends the case on failure.
func (c *Ctx) MustAwait(key, what string, cond func() bool) {
	if !c.Await(key, what, cond) {
		panic(abort{})
	}
}

// Soon waits for cond only a short while and gives no verdict.
func (c *Ctx) Soon(d time.Duration, cond func() bool) bool {
	return c.await(cond, d, 0)
}

func (c *Ctx) await(cond func() bool, limit time.Duration, steps int64) bool {
	start := time.Now()
	s0 := canarySteps.Load()
	d := 20 * time.Microsecond
	for {
		if cond() {
			return true
		}
		if c.Failed() {
			return cond()
		}
		el := time.Since(start)
		if el > limit && canarySteps.Load()-s0 >= steps {
			return cond()
		}
		if el > 10*time.Minute {
			c.Inconclusive("machine too slow: canary made %d steps", canarySteps.Load()-s0)
		}
		time.Sleep(d)
		if d < 2*time.Millisecond {
			d += d / 4
		}
	}
}

// Within runs f on its own goroutine and requires it to return (bounded progress).
func (c *Ctx) Within(key, what string, f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(20 * time.Millisecond):
	}
	return c.Await(key, what, func() bool {
		select {
		case <-done:
			return true
		default:
			return false
		}
	})
}

var canarySteps atomic.Int64

// listen listens on some loopback address. Many connections are made, and a port stays taken for a minute after its
// connection has ended; with addresses of 127.0.0.0/8 of their own, listeners do not run out of them.
func listen() (l net.Listener, err error) {
	for i := 0; i < 5; i++ {
		a := fmt.Sprintf("127.%d.%d.%d:0", 1+randv2.IntN(250), randv2.IntN(256), 1+randv2.IntN(254))
		if l, err = net.Listen("tcp", a); err == nil {
			return
		}
	}
	return net.Listen("tcp", "127.0.0.1:0")
}

func startCanary() {
	l, err := listen()
	if err != nil {
		fmt.Fprintln(os.Stderr, "canary:", err)
		os.Exit(2)
	}
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				b := make([]byte, 1)
				for {
					if _, err := conn.Read(b); err != nil {
						return
					}
					ch := make(chan byte)
					go func() { ch <- b[0] }()
					if _, err := conn.Write([]byte{<-ch}); err != nil {
						return
					}
				}
			}()
		}
	}()
	conn, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		fmt.Fprintln(os.Stderr, "canary:", err)
		os.Exit(2)
	}
	go func() {
		b := make([]byte, 1)
		for {
			if _, err := conn.Write([]byte{1}); err != nil {
				return
			}
			if _, err := conn.Read(b); err != nil {
				return
			}
			canarySteps.Add(1)
			time.Sleep(5 * time.Millisecond)
		}
	}()
}

const libPath = "github.com/zyxar/socketio"

// goroutines returns the stacks of all goroutines.
func goroutines() []string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	return strings.Split(string(buf), "\n\n")
}

// libStacks returns the stacks of goroutines that are inside the library.
func libStacks() string {
	var out []string
	for _, g := range goroutines() {
		if strings.Contains(g, libPath) {
			if len(g) > 1500 {
				g = g[:1500]
			}
			out = append(out, g)
		}
		if len(out) == 12 {
			break
		}
	}
	return strings.Join(out, "\n\n")
}

func caseRand(id string, seed int64, n int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", id, seed, n)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

var outMu sync.Mutex

func report(w *os.File, r record) {
	b, err := json.Marshal(r)
	if err != nil {
		b, _ = json.Marshal(record{Kind: r.Kind, Case: r.Case, Key: r.Key, Msg: r.Msg, Counters: r.Counters, Sigs: r.Sigs})
	}
	outMu.Lock()
	w.Write(append(b, '\n'))
	outMu.Unlock()
}

// runCase runs one case and reports it. It returns whether the worker should go on.
func runCase(s *Suite, tier string, seed int64, n int, w *os.File) bool {
	report(w, record{Kind: "start", Case: n})
	if s.Race {
		fmt.Fprintf(os.Stderr, "%s%d\n", caseMark, n)
	}
	c := &Ctx{S: s, Tier: tier, Seed: seed, Case: n, R: caseRand(s.ID, seed, n), counters: map[string]int64{}}
	perturbReset()
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(abort); ok {
					return
				}
				st := string(debug.Stack())
				if inLibrary(st) {
					c.Failf("panic", "panic: %v\n%s", e, st)
					return
				}
				fmt.Fprintf(os.Stderr, "harness panic in case %d: %v\n%s\n", n, e, st)
				os.Exit(3)
			}
		}()
		s.Run(c)
	}()
	for _, f := range c.final {
		if !c.Failed() && c.incon == "" {
			f()
		}
	}
	perturbReset()
	func() {
		for i := len(c.cleanup) - 1; i >= 0; i-- {
			f := c.cleanup[i]
			done := make(chan struct{})
			go func() { defer close(done); f() }()
			if s.Virtual {
				<-done
				continue
			}
			select {
			case <-done:
			case <-time.After(5 * time.Second): // a cleanup decides nothing
			}
		}
	}()
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, f := range c.fails {
		report(w, f)
	}
	if c.incon != "" && len(c.fails) == 0 {
		report(w, record{Kind: "inconclusive", Case: n, Msg: c.incon})
	}
	report(w, record{Kind: "done", Case: n, Counters: c.counters, Sigs: c.sigs, Sample: c.sample, Points: perturbHits()})
	return len(c.fails) == 0
}

// inLibrary tells whether the panicking goroutine's stack runs through library code called from the case.
func inLibrary(stack string) bool {
	i := strings.Index(stack, "panic(")
	if i < 0 {
		i = 0
	}
	first := stack[i:]
	if j := strings.Index(first, "\n\n"); j >= 0 {
		first = first[:j]
	}
	return strings.Contains(first, libPath)
}
