package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

var (
	fSuite    = flag.String("suite", "", "property id")
	fTier     = flag.String("tier", "quick", "quick or thorough")
	fSeed     = flag.Int64("seed", 1, "seed")
	fChild    = flag.Bool("child", false, "worker process")
	fFrom     = flag.Int("from", 0, "first case")
	fStep     = flag.Int("step", 1, "case stride")
	fCases    = flag.Int("cases", 0, "number of cases (0: by tier)")
	fEvidence = flag.String("evidence", "", "evidence file")
	fKnown    = flag.String("known", "", "known-findings file")
	fReal     = flag.Bool("real", false, "only cases on the real clock")
	fReplay   = flag.String("replay", "", "replay file")
	fKeep     = flag.Bool("k", false, "go on after a violation")
	fShards   = flag.Int("shards", 0, "worker processes")
	fVerbose  = flag.Bool("v", false, "verbose")
)

func main() {
	flag.Parse()
	s := suites[*fSuite]
	if s == nil {
		fmt.Fprintln(os.Stderr, "unknown suite", *fSuite)
		os.Exit(2)
	}
	if *fChild {
		child(s)
		return
	}
	os.Exit(orchestrate(s))
}

func child(s *Suite) {
	log.SetOutput(io.Discard)
	debug.SetTraceback("all")
	if !s.Race && !s.NoMem {
		// a runaway allocation must end the worker, not the sandbox
		lim := &syscall.Rlimit{Cur: 24 << 30, Max: 24 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, lim)
	}
	out := os.NewFile(3, "report")
	go func() { // end with the orchestrator
		io.Copy(io.Discard, os.Stdin)
		os.Exit(4)
	}()
	perturbInstall(&perturbation{})
	if s.Virtual {
		childVirtual(s, out)
		return
	}
	startCanary()
	for n := *fFrom; n < *fCases; n += *fStep {
		if !runCase(s, *fTier, *fSeed, n, out) && !*fKeep {
			break
		}
	}
	report(out, record{Kind: "end"})
	os.Exit(0)
}

type outcome struct {
	mu        sync.Mutex
	done      int
	counters  map[string]int64
	points    map[string]int64
	sigs      map[string]bool
	samples   []interface{}
	fails     []record
	incon     []record
	harness   []string
	stop      chan struct{}
	once      sync.Once
	unclean   int
	stuck     int // cases on the virtual clock whose clock does not run
	known     map[string]string
	knownSeen map[string]string
}

func orchestrate(s *Suite) int {
	start := time.Now()
	cases := *fCases
	if cases == 0 {
		cases = s.Quick
		if *fTier == "thorough" {
			cases = s.Deep
		}
	}
	shards := s.Shards
	if shards == 0 {
		shards = 2 * runtime.NumCPU()
	}
	if *fShards > 0 {
		shards = *fShards
	}
	from, step := 0, 1
	if *fReplay != "" {
		b, err := os.ReadFile(*fReplay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		var rp struct {
			Seed int64  `json:"seed"`
			Case int    `json:"case"`
			Tier string `json:"tier"`
		}
		if err := json.Unmarshal(b, &rp); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		*fSeed, *fTier = rp.Seed, rp.Tier
		from, step, cases = rp.Case, 1<<30, rp.Case+1
		shards = 10 // the schedule is not replayed, so try several times
	}
	if shards > cases && *fReplay == "" {
		shards = cases
	}
	o := &outcome{counters: map[string]int64{}, points: map[string]int64{}, sigs: map[string]bool{}, stop: make(chan struct{}),
		known: loadKnown(*fKnown, s.ID), knownSeen: map[string]string{}}
	watchdog := 6 * time.Minute
	if *fTier == "thorough" {
		watchdog = 13 * time.Minute
	}
	timer := time.AfterFunc(watchdog, func() {
		o.mu.Lock()
		o.harness = append(o.harness, "watchdog: the run did not finish in "+watchdog.String())
		o.mu.Unlock()
		o.once.Do(func() { close(o.stop) })
	})
	defer timer.Stop()
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			f, st := i, shards
			if *fReplay != "" {
				f, st = from, step
			}
			// a worker that crashes on a known finding is restarted after the case it crashed in
			for f < cases {
				next := worker(o, s, f, st, cases, i)
				if next < 0 {
					return
				}
				f = next
			}
		}(i)
	}
	wg.Wait()
	return o.finish(s, cases, time.Since(start))
}

func worker(o *outcome, s *Suite, from, step, cases, idx int) int {
	select {
	case <-o.stop:
		return -1
	default:
	}
	args := []string{"-child", "-suite", s.ID, "-tier", *fTier, "-seed", strconv.FormatInt(*fSeed, 10),
		"-from", strconv.Itoa(from), "-step", strconv.Itoa(step), "-cases", strconv.Itoa(cases)}
	if *fKeep || len(o.known) > 0 {
		args = append(args, "-k")
	}
	o.mu.Lock()
	if o.stuck > 0 {
		args = append(args, "-real")
	}
	o.mu.Unlock()
	cmd := exec.Command(os.Args[0], args...)
	pr, pw, err := os.Pipe()
	if err != nil {
		o.addHarness("pipe: " + err.Error())
		return -1
	}
	cmd.ExtraFiles = []*os.File{pw}
	procs := []int{8, 4, 2, 1, 8, 3, 2, 6}[idx%8]
	cmd.Env = append(os.Environ(), "GOMAXPROCS="+strconv.Itoa(procs), "GORACE=halt_on_error=0 history_size=3 atexit_sleep_ms=0")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	stdin, err := cmd.StdinPipe()
	if err != nil {
		o.addHarness("stdin: " + err.Error())
		return -1
	}
	defer stdin.Close()
	var stderr tailBuffer
	cmd.Stderr = &stderr
	cmd.Stdout = &stderr
	runtime.LockOSThread() // Pdeathsig is tied to the thread
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		o.addHarness("start: " + err.Error())
		return -1
	}
	pw.Close()
	exited := make(chan struct{})
	go func() {
		select {
		case <-o.stop:
			cmd.Process.Kill()
		case <-exited:
		}
	}()
	last, ended, stuck := -1, false, false
	sc := bufio.NewScanner(pr)
	sc.Buffer(make([]byte, 1<<20), 64<<20)
	for sc.Scan() {
		var r record
		if json.Unmarshal(sc.Bytes(), &r) != nil {
			continue
		}
		o.mu.Lock()
		switch r.Kind {
		case "start":
			last = r.Case
		case "end":
			ended = true
		case "stuck":
			stuck = true
			o.stuck++
			o.counters["cases whose virtual clock does not run"]++
		case "done":
			o.done++
			for k, v := range r.Counters {
				o.counters[k] += v
			}
			for k, v := range r.Points {
				o.points[k] += v
			}
			for _, g := range r.Sigs {
				o.sigs[g] = true
			}
			if r.Sample != nil && len(o.samples) < 3 {
				o.samples = append(o.samples, r.Sample)
			}
		case "inconclusive":
			o.incon = append(o.incon, r)
		case "fail":
			o.addFail(r)
		}
		o.mu.Unlock()
	}
	pr.Close()
	err = cmd.Wait()
	close(exited)
	select {
	case <-o.stop:
		return -1
	default:
	}
	text := stderr.String()
	o.mu.Lock()
	defer o.mu.Unlock()
	if s.Race {
		for _, r := range raceReports(text) {
			if r.Case < 0 {
				r.Case = last
			}
			o.addFail(r)
		}
	}
	if stuck {
		return last + step
	}
	if ended {
		return -1
	}
	if isCrash(text) {
		if crashInLibrary(text) {
			o.addFail(record{Kind: "fail", Case: last, Key: "crash", Msg: "the process crashed:\n" + clip(crashText(text), 6000)})
			return last + step
		}
		o.harness = append(o.harness, fmt.Sprintf("case %d: harness crash: %s", last, clip(crashText(text), 3000)))
	} else {
		o.harness = append(o.harness, fmt.Sprintf("case %d: worker ended: %v: %s", last, err, clip(text, 3000)))
	}
	return -1
}

func (o *outcome) addHarness(m string) {
	o.mu.Lock()
	o.harness = append(o.harness, m)
	o.mu.Unlock()
}

// addFail is called with o.mu held.
func (o *outcome) addFail(r record) {
	if what, ok := o.known[r.Key]; ok {
		o.knownSeen[r.Key] = what
		return
	}
	o.fails = append(o.fails, r)
	if !*fKeep {
		o.once.Do(func() { close(o.stop) })
	}
}

func (o *outcome) finish(s *Suite, cases int, wall time.Duration) int {
	o.mu.Lock()
	defer o.mu.Unlock()
	rate := s.Rule
	cov := map[string]interface{}{
		"evaluations": o.done, "distinct_nontrivial": len(o.sigs), "rule": rate,
		"samples": o.samples, "events": o.counters, "scheduling_points_hit": o.points, "inconclusive": len(o.incon),
	}
	if o.samples == nil {
		cov["samples"] = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": s.ID, "tier": *fTier, "seed": *fSeed, "level": "exploration", "coverage": cov,
		"wall_s": float64(int(wall.Seconds()*100)) / 100, "violations": len(o.fails),
		"assumptions": []string{"decides only the executions produced by this run"},
	}
	if *fEvidence != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(*fEvidence), 0o755)
		if err := os.WriteFile(*fEvidence, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Printf("%s %s seed=%d: %d of %d cases, %d distinct nontrivial, %d inconclusive, %.1fs, events %v\n",
		s.ID, *fTier, *fSeed, o.done, cases, len(o.sigs), len(o.incon), wall.Seconds(), o.counters)
	if *fVerbose {
		fmt.Println("points", o.points)
		for _, r := range o.incon {
			fmt.Println("inconclusive:", r.Case, r.Msg)
		}
	}
	for k, what := range o.knownSeen {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", s.ID, k, what)
	}
	if len(o.fails) > 0 {
		sort.SliceStable(o.fails, func(i, j int) bool { return o.fails[i].Case < o.fails[j].Case })
		if *fKeep {
			keys := map[string]int{}
			for _, r := range o.fails {
				keys[r.Key]++
			}
			fmt.Println("violations by key:", keys)
		}
		seen := map[string]bool{}
		for _, r := range o.fails {
			if seen[r.Key] {
				continue
			}
			seen[r.Key] = true
			path := *fEvidence
			if path == "" {
				path = filepath.Join(os.TempDir(), s.ID)
			}
			path = strings.TrimSuffix(path, ".json") + ".replay.json"
			b, _ := json.MarshalIndent(map[string]interface{}{"property": s.ID, "seed": *fSeed, "tier": *fTier, "case": r.Case, "key": r.Key, "what": r.Msg}, "", " ")
			os.WriteFile(path, b, 0o644)
			fmt.Printf("case %d: %s: %s\n", r.Case, r.Key, r.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", s.ID, path)
			if len(seen) > 4 {
				break
			}
		}
		return 1
	}
	for _, h := range o.harness {
		fmt.Fprintln(os.Stderr, "ERROR:", h)
	}
	if len(o.harness) > 0 {
		return 2
	}
	if *fReplay == "" {
		if 10*len(o.incon) > o.done {
			fmt.Fprintf(os.Stderr, "ERROR: %d of %d cases inconclusive: %s\n", len(o.incon), o.done, o.incon[0].Msg)
			return 2
		}
		if *fCases == 0 && len(o.sigs) < s.MinNT/10 {
			fmt.Fprintf(os.Stderr, "ERROR: observed only %d distinct nontrivial cases\n", len(o.sigs))
			return 2
		}
	}
	return 0
}

func loadKnown(path, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C01 key=<key> <what fails>
		f := strings.Fields(l)
		if len(f) >= 4 && f[0] == "known:" && f[1] == "property="+id && strings.HasPrefix(f[2], "key=") {
			m[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
		}
	}
	return m
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func isCrash(t string) bool {
	return strings.Contains(t, "panic: ") || strings.Contains(t, "fatal error: ") || strings.Contains(t, "[signal ") || strings.Contains(t, "runtime: ")
}

func crashText(t string) string {
	best := -1
	for _, m := range []string{"panic: ", "fatal error: ", "runtime: "} {
		if i := strings.Index(t, m); i >= 0 && (best < 0 || i < best) {
			best = i
		}
	}
	if best < 0 {
		return t
	}
	return t[best:]
}

// crashInLibrary looks at the first goroutine of the dump, the one that crashed.
func crashInLibrary(t string) bool {
	t = crashText(t)
	i := strings.Index(t, "\ngoroutine ")
	if i < 0 {
		return strings.Contains(t, libPath)
	}
	head, g := t[:i], t[i+1:]
	if j := strings.Index(g, "\n\n"); j >= 0 {
		g = g[:j]
	}
	if strings.Contains(g, libPath) {
		return true
	}
	// running out of memory or stack is reported wherever it hits
	return (strings.Contains(head, "out of memory") || strings.Contains(head, "stack overflow")) && strings.Contains(t, libPath)
}

// tailBuffer keeps the beginning and the end of what is written to it.
type tailBuffer struct {
	mu   sync.Mutex
	head bytes.Buffer
	tail []byte
}

func (b *tailBuffer) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.head.Len() < 4<<20 {
		b.head.Write(p)
	} else {
		b.tail = append(b.tail, p...)
		if len(b.tail) > 2<<20 {
			b.tail = append([]byte(nil), b.tail[len(b.tail)-1<<20:]...)
		}
	}
	return len(p), nil
}

func (b *tailBuffer) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.head.String() + string(b.tail)
}

const caseMark = "=== CASE "

// raceReports extracts the data races in which library code (or code it calls) makes at least one of the conflicting
// accesses, deduplicated by the pair of innermost library frames. The harness gives the library only memory that it
// may own (and mutates buffers only after the call they were passed to has returned), so such a race is the library's.
func raceReports(text string) (out []record) {
	seen := map[string]bool{}
	at := -1
	for _, blk := range strings.Split(text, "==================\n") {
		if !strings.HasPrefix(blk, "WARNING: DATA RACE") {
			if i := strings.LastIndex(blk, caseMark); i >= 0 { // what follows happened in this case
				fmt.Sscan(blk[i+len(caseMark):], &at)
			}
			continue
		}
		secs := strings.Split(blk, "\n\n")
		if len(secs) < 2 {
			continue
		}
		a, b := libFrame(secs[0]), libFrame(secs[1])
		if a == "" && b == "" {
			continue
		}
		if b < a {
			a, b = b, a
		}
		key := "race:" + a + "|" + b
		if seen[key] {
			continue
		}
		seen[key] = true
		out = append(out, record{Kind: "fail", Case: at, Key: key, Msg: clip(blk, 5000)})
	}
	return
}

// libFrame returns the innermost frame of a stack that belongs to the library, if it comes before any frame of the
// harness (an access made by the harness is the harness's).
func libFrame(sec string) string {
	for _, l := range strings.Split(sec, "\n") {
		if !strings.HasPrefix(l, "  ") || strings.HasPrefix(l, "   ") {
			continue
		}
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, libPath) {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return strings.ReplaceAll(strings.TrimPrefix(l, libPath), " ", "")
		}
		if strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "verif/") {
			return ""
		}
	}
	return ""
}
