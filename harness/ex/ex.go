// Package ex explores the executions of concurrent code: every scenario runs
// in a synctest bubble (virtual time, one processor, no preemption), every
// statement of the instrumented sources, every select with several cases and
// every operation on a simulated connection is a choice point, and all choice
// sequences with at most a given number of deviations from the default schedule
// are executed (delay-bounded exploration).
//
// The work is spread over worker processes; a worker that dies (a panic in a
// goroutine of the code under test, a data race in race mode) is a violation
// with the schedule it was executing.
package ex

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing/synctest"
	"time"

	"verif.local/harness/pt"
	"verif.local/harness/vk"
)

// Scenario is one closed system: the code under test, its environment and the
// oracle.
type Scenario struct {
	Group string        // for the statistics
	Input func() any    // written-out scenario
	Bound int           // number of deviations explored
	Leaky bool          // goroutines may remain when the body returns
	Clean bool          // Leaky only if the body found a violation
	Max   int           // cap on executions (0: none)
	Fixed []Dev         // with Options.Fresh: the schedule
	Long  time.Duration // when set, a further alternative at every statement: starve the goroutine this long
	Body  func(x *X) string
}

// Dev is one deviation from the default schedule.
type Dev struct {
	Pos int `json:"pos"`
	Alt int `json:"alt"`
}

// X is what a scenario's body gets.
type X struct {
	mu    sync.Mutex
	start time.Time
	log   []string
	h     uint64
	hs    []uint64
}

// T is the virtual time since the start of the execution.
func (x *X) T() time.Duration { return time.Since(x.start) }

// Log records an observation.
func (x *X) Log(f string, a ...any) {
	s := fmt.Sprintf("%v ", x.T()) + fmt.Sprintf(f, a...)
	x.mu.Lock()
	x.log = append(x.log, s)
	for i := 0; i < len(s); i++ {
		x.h = (x.h ^ uint64(s[i])) * 1099511628211
	}
	x.h *= 0x9e3779b97f4a7c15
	x.hs = append(x.hs, x.h)
	x.mu.Unlock()
}

// Lines returns the observations.
func (x *X) Lines() []string { x.mu.Lock(); defer x.mu.Unlock(); return append([]string{}, x.log...) }

// --- the schedule -----------------------------------------------------------

const maxChoices = 1 << 20

var (
	active  bool
	arity   [maxChoices]uint8
	siteOf  [maxChoices]int32
	nch     int
	dev     [16]Dev
	ndev    int
	nextDev int
	masked  []bool
	over    bool
	long    time.Duration
	quiet   bool
	noisy   int
	ended   bool // the scenario is over: goroutines that are left end at their next statement
)

// Quiet declares that from now on no statement of the instrumented code may
// run; Noisy returns the first that did.
//
//go:norace
func Quiet() { quiet, noisy = true, -1 }

//go:norace
func Noisy() string {
	if !quiet || noisy < 0 {
		return ""
	}
	if noisy < len(sites) {
		return fmt.Sprintf("%s:%d", sites[noisy].F, sites[noisy].L)
	}
	return "?"
}

// choose is the next choice of n alternatives (0 is the default).
//
//go:norace
func choose(n int, site int32) int {
	if nch >= maxChoices {
		over = true
		panic("verif: livelock: the execution does not come to rest")
	}
	arity[nch], siteOf[nch] = uint8(n), site
	r := 0
	if nextDev < ndev && dev[nextDev].Pos == nch {
		r = dev[nextDev].Alt
		nextDev++
	}
	nch++
	return r
}

//go:norace
func hook(site int) {
	if !active || !runtime.VerifInBubble() {
		return
	}
	if ended {
		runtime.Goexit()
	}
	if quiet && noisy < 0 {
		noisy = site
	}
	if site < len(masked) && masked[site] {
		return
	}
	if long == 0 {
		if choose(2, int32(site)) == 1 {
			time.Sleep(1)
		}
		return
	}
	switch choose(3, int32(site)) {
	case 1:
		time.Sleep(1)
	case 2:
		time.Sleep(long)
	}
}

//go:norace
func selHook(n int) int {
	if !active {
		return 0
	}
	return choose(n, -1)
}

// Point is a choice point of the environment.
//
//go:norace
func Point() {
	if active && ended && runtime.VerifInBubble() {
		runtime.Goexit()
	}
	if active && runtime.VerifInBubble() && choose(2, -2) == 1 {
		time.Sleep(1)
	}
}

// Choice is a data choice of the environment.
//
//go:norace
func Choice(n int) int {
	if !active {
		return 0
	}
	return choose(n, -3)
}

type site struct {
	F string `json:"f"`
	L int    `json:"l"`
}

var sites []site

func loadSites(files []string) {
	b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_SCRATCH"), "sites.json"))
	if err != nil {
		return
	}
	json.Unmarshal(b, &sites)
	masked = make([]bool, len(sites))
	for i, s := range sites {
		for _, f := range files {
			if s.F == f {
				masked[i] = true
			}
		}
	}
}

func describe(ds []Dev) []string {
	var out []string
	for _, d := range ds {
		w := "?"
		if d.Pos < nch {
			switch s := siteOf[d.Pos]; {
			case s >= 0 && int(s) < len(sites):
				w = fmt.Sprintf("delay before %s:%d", sites[s].F, sites[s].L)
				if d.Alt == 2 {
					w = "long " + w
				}
			case s == -1:
				w = fmt.Sprintf("select looks at case %d first", d.Alt)
			case s == -2:
				w = "delay at a socket operation"
			case s == -3:
				w = fmt.Sprintf("environment choice %d", d.Alt)
			}
		}
		out = append(out, fmt.Sprintf("choice %d: %s", d.Pos, w))
	}
	return out
}

//go:norace
func setEnded(s *Scenario, verdict string) { ended = s.Leaky && !(s.Clean && verdict == "") }

// run executes one scenario under one schedule.
func run(s *Scenario, ds []Dev) (verdict string, x *X) {
	nch, nextDev, ndev = 0, 0, copy(dev[:], ds)
	long, quiet, noisy, ended = s.Long, false, -1, false
	runtime.VerifResetTimers()
	leak := false
	func() {
		defer func() {
			active = false
			if r := recover(); r != nil {
				if e, ok := r.(error); ok && strings.Contains(e.Error(), "deadlock") {
					leak = true
					return
				}
				verdict = fmt.Sprintf("panic: %v", r)
			}
		}()
		synctest.VerifRun(func() {
			x = &X{start: time.Now(), h: 14695981039346656037}
			defer func() {
				if r := recover(); r != nil {
					verdict = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
				}
			}()
			active = true
			verdict = s.Body(x)
			setEnded(s, verdict)
		})
	}()
	if leak && verdict == "" && (!s.Leaky || s.Clean) {
		verdict = "leak: goroutines remain blocked: " + blocked()
	}
	return verdict, x
}

// blocked describes the repository's goroutines that are left.
func blocked() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	gs := strings.Split(string(buf), "\n\n")
	for i := len(gs) - 1; i >= 0; i-- {
		g := gs[i]
		if strings.Contains(g, "synctest bubble") && strings.Contains(g, "SKAARHOJ") {
			ls := strings.Split(g, "\n")
			for _, l := range ls {
				if strings.Contains(l, "SKAARHOJ") && strings.HasPrefix(l, "\t") {
					if k := strings.LastIndex(l, "/"); k >= 0 {
						l = l[k+1:]
					}
					return ls[0] + " at " + l
				}
			}
		}
	}
	return "of the scenario"
}

// --- worker -------------------------------------------------------------------

type result struct {
	Scenario int      `json:"s"`
	Group    string   `json:"g"`
	Execs    int      `json:"e"`
	Trans    int      `json:"t"`
	Points   int      `json:"p"`
	Depth    int      `json:"d"`
	Capped   bool     `json:"c,omitempty"`
	Expired  bool     `json:"x,omitempty"`
	NonDet   bool     `json:"n,omitempty"`
	Verdict  string   `json:"v,omitempty"`
	Schedule []string `json:"sch,omitempty"`
	Devs     []Dev    `json:"devs,omitempty"`
	Log      []string `json:"log,omitempty"`
	Reruns   int      `json:"rr,omitempty"`
	Fails    int      `json:"rf,omitempty"`
	Sample   []string `json:"smp,omitempty"`
}

// Options configure an exploration.
type Options struct {
	Mask  []string // files whose statements are not choice points
	Setup func()   // run once per worker outside of any bubble
	Race  bool     // execute with the race detector
	Fresh bool     // a process of its own for every scenario; each executes one schedule
	Done  func(scenario, points int)
}

func worker(c *vk.Check, scs []*Scenario, o Options) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1 << 30)
	debug.SetMaxStack(64 << 20)
	loadSites(o.Mask)
	if o.Setup != nil {
		o.Setup()
	}
	pt.Hook = hook
	runtime.VerifSetSelectHook(selHook)
	status := statusFile(os.Getenv("VERIF_STATUS"))
	in := bufio.NewReader(os.Stdin)
	out := bufio.NewWriter(os.Stdout)
	states := map[uint64]struct{}{}
	nexec := 0
	one := func(idx int, s *Scenario, ds []Dev) (string, *X) {
		setStatus(status, idx, ds)
		nexec++
		if nexec%300 == 0 {
			runtime.GC()
		}
		v, x := run(s, ds)
		if x != nil {
			for _, h := range x.hs {
				if len(states) < 3_000_000 {
					states[h] = struct{}{}
				}
			}
		}
		return v, x
	}
	sampled := map[string]int{}
	for {
		line, err := in.ReadString('\n')
		if err != nil {
			break
		}
		idx, err := strconv.Atoi(strings.TrimSpace(line))
		if err != nil {
			break
		}
		s := scs[idx]
		r := result{Scenario: idx, Group: s.Group}
		fail := func(v string, ds []Dev, x *X) {
			r.Verdict, r.Devs, r.Schedule = v, append([]Dev{}, ds...), describe(ds)
			if x != nil {
				r.Log = x.Lines()
				if len(r.Log) > 60 {
					r.Log = append(r.Log[:30:30], append([]string{"..."}, r.Log[len(r.Log)-29:]...)...)
				}
			}
			for i := 0; i < 5 && !o.Fresh; i++ {
				r.Reruns++
				if v, _ := run(s, ds); v != "" {
					r.Fails++
				}
			}
		}
		type node struct {
			ds []Dev
		}
		v, x := one(idx, s, s.Fixed)
		r.Execs, r.Trans, r.Points = 1, nch, nch
		if sampled[s.Group] < 1 && x != nil {
			sampled[s.Group]++
			r.Sample = x.Lines()
			if len(r.Sample) > 12 {
				r.Sample = r.Sample[:12]
			}
		}
		if v != "" {
			fail(v, s.Fixed, x)
		} else if !o.Fresh {
			h0 := x.h
			n0 := nch
			ar := append([]uint8{}, arity[:nch]...)
			if _, x2 := one(idx, s, nil); x2 == nil || x2.h != h0 || nch != n0 {
				r.NonDet = true
				if os.Getenv("VERIF_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "nondeterministic", idx, n0, nch, strings.Join(x.Lines(), "\n"), "-----\n", strings.Join(x2.Lines(), "\n"))
				}
			}
			level := []struct {
				ds []Dev
				ar []uint8
			}{{nil, ar}}
		search:
			for d := 1; d <= s.Bound; d++ {
				r.Depth = d
				var next []struct {
					ds []Dev
					ar []uint8
				}
				for _, nd := range level {
					from := 0
					if len(nd.ds) > 0 {
						from = nd.ds[len(nd.ds)-1].Pos + 1
					}
					for p := from; p < len(nd.ar); p++ {
						for a := 1; a < int(nd.ar[p]); a++ {
							ds := append(append([]Dev{}, nd.ds...), Dev{p, a})
							v, x := one(idx, s, ds)
							r.Execs++
							r.Trans += nch
							if v != "" {
								fail(v, ds, x)
								break search
							}
							if d < s.Bound {
								next = append(next, struct {
									ds []Dev
									ar []uint8
								}{ds, append([]uint8{}, arity[:nch]...)})
							}
							if s.Max > 0 && r.Execs >= s.Max {
								r.Capped = true
								break search
							}
							if r.Execs&31 == 0 && c.Expired() {
								r.Expired = true
								break search
							}
						}
					}
				}
				level = next
			}
		}
		b, _ := json.Marshal(r)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
	if p := os.Getenv("VERIF_STATES"); p != "" {
		b := make([]byte, 0, 8*len(states))
		for h := range states {
			b = binary.LittleEndian.AppendUint64(b, h)
		}
		os.WriteFile(p, b, 0o644)
	}
	os.Exit(0)
}

func statusFile(p string) []byte {
	f, err := os.OpenFile(p, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return nil
	}
	f.Truncate(4096)
	m, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil
	}
	return m
}

func setStatus(m []byte, idx int, ds []Dev) {
	if m == nil {
		return
	}
	binary.LittleEndian.PutUint64(m[0:], uint64(time.Now().UnixNano()))
	binary.LittleEndian.PutUint32(m[8:], uint32(idx))
	binary.LittleEndian.PutUint32(m[12:], uint32(len(ds)))
	for i, d := range ds {
		binary.LittleEndian.PutUint32(m[16+8*i:], uint32(d.Pos))
		binary.LittleEndian.PutUint32(m[20+8*i:], uint32(d.Alt))
	}
}

func readStatus(p string) (t time.Time, idx int, ds []Dev) {
	m, err := os.ReadFile(p)
	if err != nil || len(m) < 16 {
		return time.Now(), -1, nil
	}
	t = time.Unix(0, int64(binary.LittleEndian.Uint64(m)))
	idx = int(binary.LittleEndian.Uint32(m[8:]))
	n := int(binary.LittleEndian.Uint32(m[12:]))
	for i := 0; i < n && i < 16; i++ {
		ds = append(ds, Dev{int(binary.LittleEndian.Uint32(m[16+8*i:])), int(binary.LittleEndian.Uint32(m[20+8*i:]))})
	}
	return
}

// --- parent -------------------------------------------------------------------

var workerSet string

// Worker reports whether this process is a worker for the exploration named
// set; several explorations of one check have different names.
func isWorker(set string) bool {
	return os.Getenv("VERIF_WORKER_SET") == set && set != ""
}

// InWorker reports whether this process is a worker of any exploration.
func InWorker() bool { return os.Getenv("VERIF_WORKER_SET") != "" }

// Explore runs all scenarios. In the parent process it returns when all are
// explored; in a worker process it does not return.
func Explore(c *vk.Check, set string, gen func() []*Scenario, o Options) {
	if InWorker() {
		if isWorker(set) {
			worker(c, gen(), o)
		}
		return
	}
	c.Phase(set, func() { explore(c, set, gen(), o) })
}

func explore(c *vk.Check, set string, scs []*Scenario, o Options) {
	exe, _ := os.Executable()
	if o.Race {
		exe = os.Getenv("VERIF_RACE_EXE")
		if exe == "" {
			c.Cap("no race build: the race executions were skipped")
			return
		}
	}
	scratch := os.Getenv("VERIF_SCRATCH")
	nw := runtime.NumCPU()
	if nw > len(scs) {
		nw = len(scs)
	}
	var mu sync.Mutex
	next := 0
	type stat struct{ scen, execs, points, capped, nondet, expired int }
	groups := map[string]*stat{}
	total := result{}
	crashes := 0
	viol := 0
	sampled := map[string]bool{}
	take := func() int {
		mu.Lock()
		defer mu.Unlock()
		if next >= len(scs) || c.Expired() || viol > 40 || crashes >= 6 {
			return -1
		}
		next++
		return next - 1
	}
	handle := func(r result) {
		mu.Lock()
		defer mu.Unlock()
		g := groups[r.Group]
		if g == nil {
			g = &stat{}
			groups[r.Group] = g
		}
		g.scen++
		g.execs += r.Execs
		g.points = max(g.points, r.Points)
		if r.Capped {
			g.capped++
		}
		if r.Expired {
			g.expired++
		}
		if r.NonDet {
			g.nondet++
		}
		total.Execs += r.Execs
		if o.Done != nil && r.Verdict == "" {
			o.Done(r.Scenario, r.Points)
		}
		c.Trace(r.Execs)
		c.Trans(r.Trans)
		if len(r.Sample) > 0 && !sampled[r.Group] {
			sampled[r.Group] = true
			c.Sample(r.Group, map[string]any{"scenario": scs[r.Scenario].Input(), "default_schedule": r.Sample})
		}
		if r.Verdict != "" {
			viol++
			what := r.Verdict
			class := what
			if i := strings.Index(what, ":"); i > 0 {
				class = what[:i]
			}
			k := 0
			c.Fail(class, what, map[string]any{"scenario": scs[r.Scenario].Input(), "group": r.Group, "index": r.Scenario, "schedule": r.Schedule, "devs": r.Devs, "observations": r.Log},
				func() string {
					k++
					if k <= r.Fails || r.Reruns == 0 {
						return "failed again"
					}
					return ""
				})
		}
	}
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for gen := 0; ; gen++ {
				st := filepath.Join(scratch, fmt.Sprintf("status-%s-%d-%d", safe(set), w, gen))
				states := filepath.Join(scratch, fmt.Sprintf("states-%s-%d-%d", safe(set), w, gen))
				cmd := exec.Command(exe)
				cmd.Env = append(os.Environ(), "VERIF_WORKER_SET="+set, "VERIF_STATUS="+st, "VERIF_STATES="+states,
					"GODEBUG=asyncpreemptoff=1", "GORACE=halt_on_error=1 atexit_sleep_ms=0 exitcode=66 history_size=2", "LOG=panic",
					"VERIF_BUDGET_S="+strconv.Itoa(int(c.Left().Seconds())))
				if o.Race {
					cmd.Env = append(cmd.Env, "VERIF_RACE=1")
				}
				stdin, _ := cmd.StdinPipe()
				stdout, _ := cmd.StdoutPipe()
				var errb tail
				cmd.Stderr = &errb
				if err := cmd.Start(); err != nil {
					c.Cap("worker: " + err.Error())
					return
				}
				done := make(chan struct{})
				hung := false
				go func() { // watchdog
					for {
						select {
						case <-done:
							return
						case <-time.After(2 * time.Second):
							if t, idx, _ := readStatus(st); idx >= 0 && time.Since(t) > 90*time.Second {
								hung = true
								cmd.Process.Kill()
								return
							}
						}
					}
				}()
				rd := bufio.NewReaderSize(stdout, 1<<20)
				cur := -1
				ok, again := true, false
				for {
					if again = o.Fresh && cur >= 0; again {
						break
					}
					cur = take()
					if cur < 0 {
						break
					}
					fmt.Fprintf(stdin, "%d\n", cur)
					line, err := rd.ReadString('\n')
					if err != nil {
						ok = false
						break
					}
					var r result
					if json.Unmarshal([]byte(line), &r) != nil {
						ok = false
						break
					}
					handle(r)
				}
				stdin.Close()
				io.Copy(io.Discard, rd)
				err := cmd.Wait()
				close(done)
				if b, e := os.ReadFile(states); e == nil {
					for i := 0; i+8 <= len(b); i += 8 {
						c.StateBytes(b[i : i+8])
					}
				}
				if again && ok {
					os.Remove(st)
					os.Remove(states)
					continue
				}
				if ok {
					return
				}
				// The worker died while executing a schedule.
				_, idx, ds := readStatus(st)
				if idx < 0 || idx >= len(scs) {
					idx = cur
				}
				what := crashText(errb.String(), hung, err)
				mu.Lock()
				crashes++
				mu.Unlock()
				if os.Getenv("VERIF_DEBUG") != "" {
					fmt.Println(errb.String())
				}
				r := result{Scenario: idx, Group: scs[idx].Group, Verdict: what, Devs: ds, Log: strings.Split(errb.String(), "\n")}
				if len(r.Log) > 60 {
					r.Log = r.Log[:60]
				}
				if strings.HasPrefix(what, "error:") {
					// Not attributable to the code under test.
					fmt.Fprintln(os.Stderr, "worker failed:", what, "\n", errb.String())
					c.Broken(what)
					return
				}
				handle(r)
			}
		}()
	}
	wg.Wait()
	if next < len(scs) && viol == 0 {
		c.Cap(fmt.Sprintf("%s: deadline after %d of %d scenarios", set, next, len(scs)))
	}
	var names []string
	for k := range groups {
		names = append(names, k)
	}
	sort.Strings(names)
	gs := []map[string]any{}
	for _, k := range names {
		g := groups[k]
		m := map[string]any{"group": k, "scenarios": g.scen, "executions": g.execs, "longest_default_schedule": g.points}
		if g.capped > 0 {
			m["scenarios_capped"] = g.capped
			c.Cap(fmt.Sprintf("%s/%s: %d scenarios stopped at their cap of executions", set, k, g.capped))
		}
		if g.expired > 0 {
			c.Cap(fmt.Sprintf("%s/%s: deadline inside %d scenarios", set, k, g.expired))
		}
		if g.nondet > 0 {
			m["scenarios_with_differing_replay"] = g.nondet
		}
		fmt.Printf("  %-44s scenarios %6d executions %8d longest %5d nondet %d capped %d\n", k, g.scen, g.execs, g.points, g.nondet, g.capped)
		gs = append(gs, m)
	}
	c.Extra("exploration: "+set, gs)
}

func safe(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, s)
}

// crashText classifies the end of a worker.
func crashText(e string, hung bool, err error) string {
	if hung {
		return "hang: an execution did not end within 90 s of real time"
	}
	if strings.Contains(e, "WARNING: DATA RACE") {
		if w := raceSites(e); w != "" {
			return "race: data race " + w
		}
		return "error: data race inside the check"
	}
	for _, l := range strings.Split(e, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
			if strings.Contains(l, "verif: livelock") {
				return "livelock: the execution does not come to rest"
			}
			if strings.Contains(e, "SKAARHOJ/rawpanel-lib") {
				return "crash: " + l
			}
			return "error: " + l
		}
	}
	return fmt.Sprintf("error: worker ended: %v", err)
}

func raceSites(e string) string {
	_, e, _ = strings.Cut(e, "WARNING: DATA RACE")
	e, _, _ = strings.Cut(e, "\nGoroutine ")
	var out []string
	for _, stack := range strings.Split(e, "\nPrevious ") {
		for _, l := range strings.Split(stack, "\n") {
			if i := strings.LastIndex(l, "/repo/"); i >= 0 {
				out = append(out, strings.Fields(l[i+6:])[0])
				break
			}
		}
	}
	return strings.Join(out, " and ")
}

// tail keeps the first and the last part of a worker's standard error.
type tail struct {
	mu   sync.Mutex
	head []byte
	end  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	n := len(p)
	if len(t.head) < 20000 {
		k := min(len(p), 20000-len(t.head))
		t.head = append(t.head, p[:k]...)
		p = p[k:]
	}
	t.end = append(t.end, p...)
	if len(t.end) > 8000 {
		t.end = t.end[len(t.end)-4000:]
	}
	return n, nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.head) + string(t.end)
}
