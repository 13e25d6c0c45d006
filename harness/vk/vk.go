// Package vk is the small framework every check shares: counting of states,
// transitions and replayed traces, violation bookkeeping (minimal first,
// deduplicated by class, re-run before being believed), known findings, replay
// artefacts and the evidence file.
package vk

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check is one run of one property's check.
type Check struct {
	ID    string
	Tier  string
	Seed  int64
	Root  string // /verif
	start time.Time
	dl    time.Time

	trans  atomic.Int64
	traces atomic.Int64
	execs  atomic.Int64
	seed   maphash.Seed

	states [256]struct {
		sync.Mutex
		m map[uint64]struct{}
	}

	mu        sync.Mutex
	samples   []any
	sampleK   map[string]int
	extra     map[string]any
	phases    []map[string]any
	assume    []string
	viol      map[string]*Violation
	capped    []string
	known     map[string]string
	knownHit  map[string]string
	exhaust   bool
	broken    bool
	watch     []*watchSlot
	slots     *sync.Pool
	longest   atomic.Int64
	Technique string
}

// Violation is the first (simplest) counterexample of one class.
type Violation struct {
	Class  string `json:"class"`
	What   string `json:"what"`
	Input  any    `json:"input"`
	Fails  int    `json:"failures_on_rerun"`
	Reruns int    `json:"reruns"`
	Count  int    `json:"occurrences"`
	// The failure was seen in a case that needs no schedule: it counts even if
	// it does not recur when the case runs alone.
	Sure  bool   `json:"-"`
	Note  string `json:"note,omitempty"`
	tries int
}

type box struct{ v any }

type watchSlot struct {
	since atomic.Int64
	desc  atomic.Value
}

// New reads the environment the runner sets.
func New(id string) *Check {
	c := &Check{ID: id, start: time.Now(), viol: map[string]*Violation{}, extra: map[string]any{},
		sampleK: map[string]int{}, known: map[string]string{}, knownHit: map[string]string{}, exhaust: true, seed: maphash.MakeSeed()}
	c.Tier = os.Getenv("VERIF_TIER")
	if c.Tier != "thorough" {
		c.Tier = "quick"
	}
	c.Seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if c.Seed == 0 {
		c.Seed = 1
	}
	c.Root = os.Getenv("VERIF_ROOT")
	if c.Root == "" {
		c.Root = "/verif"
	}
	budget := 240 * time.Second
	if c.Tier == "thorough" {
		budget = 700 * time.Second
	}
	if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	c.dl = c.start.Add(budget)
	for i := range c.states {
		c.states[i].m = map[uint64]struct{}{}
	}
	c.loadKnown()
	return c
}

// Thorough reports the tier.
func (c *Check) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func Pick[T any](c *Check, q, t T) T {
	if c.Thorough() {
		return t
	}
	return q
}

// Expired reports whether the internal deadline has passed. The caller stops
// its enumeration and records the cap with Cap.
func (c *Check) Expired() bool { return time.Now().After(c.dl) }

// Cap records that an enumeration was cut short.
func (c *Check) Cap(what string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.exhaust = false
	c.capped = append(c.capped, what)
}

func (c *Check) loadKnown() {
	f, err := os.Open(filepath.Join(c.Root, "known_findings.jsonl"))
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var k struct{ Property, Class, What, Status string }
		if json.Unmarshal([]byte(l), &k) == nil && k.Property == c.ID && k.Status == "known" {
			c.known[k.Class] = k.What
		}
	}
}

// maxStates bounds the memory of the distinct-state count; beyond it the count
// is a lower bound.
const maxStates = 40_000_000

// State counts a distinct model state by its canonical text.
func (c *Check) State(canon string) bool { return c.addState(maphash.String(c.seed, canon)) }

func (c *Check) addState(h uint64) bool {
	s := &c.states[h&255]
	s.Lock()
	_, ok := s.m[h]
	if !ok && len(s.m) < maxStates/256 {
		s.m[h] = struct{}{}
	}
	s.Unlock()
	return !ok
}

// StateBytes is State for bytes.
func (c *Check) StateBytes(b []byte) bool { return c.addState(maphash.Bytes(c.seed, b)) }

// NumStates returns the number of distinct states so far.
func (c *Check) NumStates() int {
	n := 0
	for i := range c.states {
		c.states[i].Lock()
		n += len(c.states[i].m)
		c.states[i].Unlock()
	}
	return n
}

// Trans counts model transitions, Trace counts histories replayed on the
// implementation and compared with the model.
func (c *Check) Trans(n int) { c.trans.Add(int64(n)) }
func (c *Check) Trace(n int) { c.traces.Add(int64(n)) }

// Traces returns the number of traces so far.
func (c *Check) Traces() int64 { return c.traces.Load() }

// Sample keeps up to three written-out cases per kind.
func (c *Check) Sample(kind string, v any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.sampleK[kind] >= 2 || len(c.samples) > 40 {
		return
	}
	c.sampleK[kind]++
	c.samples = append(c.samples, map[string]any{"kind": kind, "case": trunc(v)})
}

// WantSample avoids building samples nobody keeps.
func (c *Check) WantSample(kind string) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.sampleK[kind] < 2
}

func trunc(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		b = []byte(fmt.Sprintf("%q", fmt.Sprint(v)))
	}
	if len(b) > 700 {
		return string(b[:700]) + "..."
	}
	return json.RawMessage(b)
}

// Extra stores a further measured number in the coverage.
func (c *Check) Extra(k string, v any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.extra[k] = v
}

// AddExtra adds to a numeric coverage entry.
func (c *Check) AddExtra(k string, n int64) {
	c.mu.Lock()
	defer c.mu.Unlock()
	o, _ := c.extra[k].(int64)
	c.extra[k] = o + n
}

// Assume records an assumption.
func (c *Check) Assume(s ...string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.assume = append(c.assume, s...)
}

// Phase runs one enumeration and logs how much it covered.
func (c *Check) Phase(name string, f func()) {
	t0, tr0, x0 := time.Now(), c.traces.Load(), c.trans.Load()
	s0 := c.NumStates()
	f()
	c.mu.Lock()
	c.phases = append(c.phases, map[string]any{"phase": name, "traces": c.traces.Load() - tr0, "transitions": c.trans.Load() - x0, "wall_s": round(time.Since(t0).Seconds())})
	c.mu.Unlock()
	fmt.Printf("phase %-46s traces %9d  transitions %9d  new states %8d  %6.1fs\n", name, c.traces.Load()-tr0, c.trans.Load()-x0, c.NumStates()-s0, time.Since(t0).Seconds())
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

// Fail reports a violation of the given class. rerun (may be nil) executes the
// same case again and returns "" or a description; it is run five times.
func (c *Check) Fail(class, what string, input any, rerun func() string) {
	c.fail(class, what, input, rerun, false)
}

func (c *Check) fail(class, what string, input any, rerun func() string, sure bool) {
	c.mu.Lock()
	first := c.viol[class]
	if first != nil {
		first.Count++
		// One that never failed again gives way to one that does.
		if first.Reruns == 0 || first.Fails > 0 || first.tries == 0 || first.tries > 100 || rerun == nil {
			c.mu.Unlock()
			return
		}
		first.tries++
	}
	v := &Violation{Class: class, What: what, Input: input, Count: 1, Sure: sure}
	if first == nil {
		c.viol[class] = v
	}
	c.mu.Unlock()
	if rerun == nil {
		return
	}
	fails := 0
	for i := 0; i < 5; i++ {
		if Safe(rerun) != "" {
			fails++
		}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	v.Reruns, v.Fails, v.tries = 5, fails, 1
	if first != nil && fails > 0 && first.Fails == 0 {
		v.Count = first.Count
		c.viol[class] = v
	}
}

// NumViolations is the number of violation classes so far.
func (c *Check) NumViolations() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viol)
}

// Run executes one case: f returns "" or "class: description". A panic is a
// violation of class "panic".
func (c *Check) Run(input any, f func() string) bool {
	var what string
	if c.slots != nil {
		sl := c.slots.Get().(*slot)
		sl.begin(input)
		t0 := time.Now()
		what = Safe(f)
		if d := int64(time.Since(t0)); d > c.longest.Load() {
			c.longest.Store(d)
		}
		sl.end()
		c.slots.Put(sl)
	} else {
		what = Safe(f)
	}
	if what == "" {
		return true
	}
	class := what
	if i := strings.Index(what, ":"); i > 0 {
		class = what[:i]
	}
	if fn, ok := input.(func() any); ok {
		input = fn()
	}
	c.fail(class, what, input, f, true)
	return false
}

// Safe runs f and turns a panic into a result.
func Safe(f func() string) (res string) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			res = fmt.Sprintf("panic%s: %v", panicSite(st), r)
		}
	}()
	return f()
}

// panicSite names the repository function that panicked (for deduplication).
func panicSite(st string) string {
	lines := strings.Split(st, "\n")
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if seen && strings.Contains(l, "SKAARHOJ/rawpanel-lib") && !strings.HasPrefix(l, "\t") {
			if i := strings.LastIndex(l, "/"); i >= 0 {
				l = l[i+1:]
			}
			for _, cut := range []string{"({", "(0x", "(...)", "(nil"} {
				if i := strings.Index(l, cut); i > 0 {
					l = l[:i]
				}
			}
			return " in " + l
		}
	}
	return ""
}

// Parallel splits indices 0..n-1 over the cores in chunks, in order.
func (c *Check) Parallel(n int, f func(i int)) {
	w := runtime.GOMAXPROCS(0)
	if w > n {
		w = n
	}
	if w < 1 {
		return
	}
	chunk := n / (w * 16)
	if chunk < 1 {
		chunk = 1
	}
	if chunk > 4096 {
		chunk = 4096
	}
	var next atomic.Int64
	var stop atomic.Bool
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() {
				a := int(next.Add(int64(chunk))) - chunk
				if a >= n {
					return
				}
				if c.Expired() {
					stop.Store(true)
					return
				}
				for i := a; i < a+chunk && i < n; i++ {
					f(i)
				}
			}
		}()
	}
	wg.Wait()
	if stop.Load() {
		c.Cap(fmt.Sprintf("deadline reached inside an enumeration of %d cases, about %d done", n, next.Load()))
	}
}

// Limit makes Run report a case that does not return within d as a hang.
func (c *Check) Limit(d time.Duration) {
	c.slots = &sync.Pool{New: func() any {
		b, e := c.Watch(d)
		return &slot{b, e}
	}}
}

// Longest is the longest time one case took under Limit.
func (c *Check) Longest() time.Duration { return time.Duration(c.longest.Load()) }

type slot struct {
	begin func(any)
	end   func()
}

// Watch registers a hang monitor slot for one worker: call begin before a call
// into the library and end after it. A call that takes longer than limit is
// reported as a hang.
func (c *Check) Watch(limit time.Duration) (begin func(desc any), end func()) {
	s := &watchSlot{}
	c.mu.Lock()
	first := len(c.watch) == 0
	c.watch = append(c.watch, s)
	c.mu.Unlock()
	if first {
		go func() {
			// Ticks, not the clock: a suspended machine is no hang.
			type seen struct {
				token int64
				n     int
			}
			ticks := map[*watchSlot]seen{}
			for {
				time.Sleep(500 * time.Millisecond)
				c.mu.Lock()
				ws := append([]*watchSlot{}, c.watch...)
				c.mu.Unlock()
				for _, s := range ws {
					t := s.since.Load()
					if k := ticks[s]; t != 0 && k.token == t {
						ticks[s] = seen{t, k.n + 1}
					} else {
						ticks[s] = seen{t, 0}
					}
					if t != 0 && time.Duration(ticks[s].n)*500*time.Millisecond > limit {
						d := s.desc.Load().(box).v
						if f, ok := d.(func() any); ok {
							d = f()
						}
						c.Fail("hang", fmt.Sprintf("hang: the call did not return within %v", limit), d, nil)
						os.Exit(c.Finish())
					}
				}
			}
		}()
	}
	return func(desc any) { s.desc.Store(box{desc}); s.since.Store(time.Now().UnixNano()) }, func() { s.since.Store(0) }
}

// Finish writes the evidence, prints the verdict and returns the exit code.
func (c *Check) Finish() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	var classes []string
	for k := range c.viol {
		classes = append(classes, k)
	}
	sort.Strings(classes)
	code := 0
	nviol := 0
	var findings []string
	for _, k := range classes {
		v := c.viol[k]
		if w, ok := c.known[k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, oneLine(w))
			findings = append(findings, k)
			continue
		}
		if v.Reruns > 0 && v.Fails == 0 && v.Sure {
			// The case is a function of its input, so one wrong result is
			// enough: it depends on the calls before it or beside it.
			v.Note = "did not fail again when run alone: it depends on the calls before it or at the same time"
		} else if v.Reruns > 0 && v.Fails == 0 {
			// The same case did not fail again five times: nondeterminism the
			// check does not own. Not believed, recorded.
			fmt.Printf("note: unreproducible %s: %s\n", k, oneLine(v.What))
			c.extra["unreproducible"] = v
			continue
		}
		nviol++
		code = 1
		dir := filepath.Join(c.Root, "replay")
		os.MkdirAll(dir, 0o755)
		p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.ID, nviol))
		b, _ := json.MarshalIndent(map[string]any{"property": c.ID, "tier": c.Tier, "seed": c.Seed, "violation": v,
			"how_to_replay": "VERIF_TIER=" + c.Tier + " ./run.sh " + c.ID + " re-enumerates this case first-found; 'input' is the complete case"}, "", " ")
		os.WriteFile(p, b, 0o644)
		fmt.Printf("  %s\n", oneLine(v.What))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
		if nviol >= 12 {
			break
		}
	}
	ns := 0
	for i := range c.states {
		ns += len(c.states[i].m)
	}
	cov := map[string]any{
		"states": ns, "transitions": c.trans.Load(), "traces_validated_against_impl": c.traces.Load(),
		"samples": c.samples, "exhaustive": c.exhaust, "phases": c.phases,
	}
	if ns > maxStates*98/100 {
		cov["states_note"] = "lower bound: the table of distinct states is full"
	}
	if len(c.capped) > 0 {
		cov["caps"] = c.capped
	}
	if len(findings) > 0 {
		cov["known_findings"] = findings
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	ev := map[string]any{"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": "model_checking",
		"coverage": cov, "assumptions": c.assume, "wall_s": round(time.Since(c.start).Seconds()), "violations": nviol}
	b, _ := json.MarshalIndent(ev, "", " ")
	if len(b) > 60000 {
		cov["samples"] = c.samples[:min(4, len(c.samples))]
		b, _ = json.MarshalIndent(ev, "", " ")
	}
	os.MkdirAll(filepath.Join(c.Root, "evidence"), 0o755)
	os.WriteFile(filepath.Join(c.Root, "evidence", c.ID+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s %s: states=%d transitions=%d traces=%d exhaustive=%v violations=%d wall=%.1fs\n", c.ID, c.Tier, ns, c.trans.Load(), c.traces.Load(), c.exhaust, nviol, time.Since(c.start).Seconds())
	if c.broken && code == 0 {
		return 3
	}
	return code
}

func oneLine(s string) string {
	q := strconv.QuoteToASCII(s)
	s = strings.ReplaceAll(q[1:len(q)-1], `\"`, `"`)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

// Main wraps a check body.
func Main(id string, body func(c *Check)) {
	c := New(id)
	debug.SetMemoryLimit(16 << 30) // collect more often before memory runs out
	body(c)
	os.Exit(c.Finish())
}

// Left is the time until the internal deadline.
func (c *Check) Left() time.Duration { return time.Until(c.dl) }

// Broken ends the check as an error of its own (exit 3).
func (c *Check) Broken(what string) {
	fmt.Fprintln(os.Stderr, "check broken:", what)
	c.mu.Lock()
	defer c.mu.Unlock()
	c.broken = true
}
