// Package ex is a small bounded model checker for real Go code: it enumerates,
// exhaustively within declared bounds, the executions of a harness body (Enum)
// or the reachable states of a system under a finite operation alphabet (BFS).
package ex

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Violation is raised (by panic) from a harness body.
type Violation struct {
	Msg  string
	Sig  string // stable identity of the failing input/history
	Hist []string
}

func (v *Violation) Error() string { return v.Msg }

// Ctl drives one execution: every source of choice is asked of it.
type Ctl struct {
	prefix  []int
	choices []int
	counts  []int
	costs   []bool // this point's alternatives cost a deviation
	pos     int
	log     []string
	logging bool
	steps   int64
	r       *Run
	sigCtx  []string
	infeas  bool
}

// Choose returns a value in [0,n); every value is explored.
func (c *Ctl) Choose(n int) int { return c.choose(n, false) }

// Deviate is Choose where any value other than 0 spends one unit of the
// deviation bound (an environment answer other than the default).
func (c *Ctl) Deviate(n int) int { return c.choose(n, true) }

func (c *Ctl) choose(n int, cost bool) int {
	if n <= 0 {
		panic(fmt.Sprintf("ex: choose of %d", n))
	}
	v := 0
	if c.pos < len(c.prefix) {
		v = c.prefix[c.pos]
		if v >= n {
			panic(fmt.Sprintf("ex: replay diverged: choice %d of %d at point %d", v, n, c.pos))
		}
	}
	c.pos++
	c.choices = append(c.choices, v)
	c.counts = append(c.counts, n)
	c.costs = append(c.costs, cost)
	return v
}

// Bool is Choose(2)==1.
func (c *Ctl) Bool() bool { return c.Choose(2) == 1 }

// Skip abandons the current execution as not a case of the scenario.
func (c *Ctl) Skip() { panic(skipExec{}) }

type skipExec struct{}

// Panicked carries a panic of the code under test from another goroutine.
type Panicked struct {
	Val   any
	Stack string
}

// IsControl tells whether a recovered value is the explorer's own.
func IsControl(p any) bool {
	if _, ok := p.(skipExec); ok {
		return true
	}
	s, ok := p.(string)
	return ok && strings.HasPrefix(s, "ex:")
}

// Sched records which goroutine was let run.
func (c *Ctl) Sched(id int, what string) {
	if c.logging {
		c.log = append(c.log, fmt.Sprintf("    g%d %s", id, what))
	}
}

// Logf records one step of the execution (shown for counterexamples).
func (c *Ctl) Logf(f string, a ...any) {
	c.steps++
	if c.logging {
		c.log = append(c.log, fmt.Sprintf(f, a...))
	}
}

// Step counts a transition executed on the implementation.
func (c *Ctl) Step() { c.steps++ }

// State records an observed state fingerprint.
func (c *Ctl) State(fp Fp) { c.r.addState(fp) }

// Outcome records an observed outcome class (for the evidence).
func (c *Ctl) Outcome(s string) { c.r.Outcome(s) }

// Failf reports a violation.
func (c *Ctl) Failf(f string, a ...any) { panic(&Violation{Msg: fmt.Sprintf(f, a...)}) }

// FailSig is Failf with an explicit signature.
func (c *Ctl) FailSig(sig, f string, a ...any) {
	panic(&Violation{Msg: fmt.Sprintf(f, a...), Sig: sig})
}

// Run is one check run: counters shared by all its scenarios.
type Run struct {
	Property       string
	Tier           string
	Deadline       time.Time
	slice          time.Time
	Workers        int
	Known          map[string]string // signature -> description
	ReplayScenario string
	ReplayChoices  []int
	Verbose        bool

	mu         sync.Mutex
	shards     [64]stateShard
	Trans      atomic.Int64
	Execs      atomic.Int64
	Traces     atomic.Int64
	outcomes   map[string]int64
	samples    []any
	scenarios  []ScenarioStat
	capped     []string
	viol       *Failure
	knownHit   map[string]string
	notes      map[string]any
	diverged   int
	survey     int
	surveySeen map[string]bool
}

type stateShard struct {
	mu sync.Mutex
	m  map[Fp]struct{}
}

// ScenarioStat summarises one explored scenario.
type ScenarioStat struct {
	Name       string  `json:"name"`
	Executions int64   `json:"executions"`
	Bound      string  `json:"bound,omitempty"`
	Complete   bool    `json:"complete"`
	MaxDepth   int     `json:"max_depth,omitempty"`
	States     int64   `json:"states,omitempty"`
	WallS      float64 `json:"wall_s"`
}

// Failure is a confirmed violation.
type Failure struct {
	Scenario string   `json:"scenario"`
	Choices  []int    `json:"choices"`
	Msg      string   `json:"message"`
	Sig      string   `json:"signature"`
	Trace    []string `json:"trace"`
}

func (r *Run) addState(fp Fp) bool {
	s := &r.shards[fp[0]%64]
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.m == nil {
		s.m = map[Fp]struct{}{}
	}
	if _, ok := s.m[fp]; ok {
		return false
	}
	if len(s.m) < 400000 {
		s.m[fp] = struct{}{}
	}
	return true
}

// States is the number of distinct state fingerprints seen.
func (r *Run) States() int64 {
	var n int64
	for i := range r.shards {
		r.shards[i].mu.Lock()
		n += int64(len(r.shards[i].m))
		r.shards[i].mu.Unlock()
	}
	return n
}

func (r *Run) Outcome(s string) {
	r.mu.Lock()
	if r.outcomes == nil {
		r.outcomes = map[string]int64{}
	}
	if _, ok := r.outcomes[s]; ok || len(r.outcomes) < 4000 {
		r.outcomes[s]++
	}
	r.mu.Unlock()
}

func (r *Run) Sample(s any) {
	r.mu.Lock()
	if len(r.samples) < 12 {
		r.samples = append(r.samples, s)
	}
	r.mu.Unlock()
}

func (r *Run) Note(k string, v any) {
	r.mu.Lock()
	if r.notes == nil {
		r.notes = map[string]any{}
	}
	r.notes[k] = v
	r.mu.Unlock()
}

func (r *Run) Expired() bool {
	now := time.Now()
	return !r.Deadline.IsZero() && now.After(r.Deadline) || !r.slice.IsZero() && now.After(r.slice)
}

// Share gives the next scenarios at most k times their equal share of the time
// left, when left of them (this one included) remain. Zero left ends the limit.
func (r *Run) Share(left int, k float64) {
	if left <= 0 || r.Deadline.IsZero() {
		r.slice = time.Time{}
		return
	}
	rest := time.Until(r.Deadline)
	r.slice = time.Now().Add(time.Duration(float64(rest) * k / float64(left)))
}

func (r *Run) Failed() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.viol != nil
}

// Thorough reports whether this is the deep tier.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

func (r *Run) cap(s string) {
	r.mu.Lock()
	r.capped = append(r.capped, s)
	r.mu.Unlock()
}

// Body is a harness body: one execution driven by c.
type Body func(c *Ctl)

// Opt bounds an enumeration.
type Opt struct {
	Deviations int   // bound on the sum of deviations (Deviate answers != 0)
	MaxExecs   int64 // 0: none
	Serial     bool
}

// exec runs body once under prefix and classifies what happened.
func (r *Run) exec(name string, body Body, prefix []int, logging bool) (c *Ctl, v *Violation) {
	c = &Ctl{prefix: prefix, r: r, logging: logging}
	wid := theWatch.begin(name, func() []int { return append([]int{}, c.choices...) })
	defer theWatch.end(wid)
	func() {
		defer func() {
			if e := recover(); e != nil {
				switch e := e.(type) {
				case *Violation:
					v = e
				case skipExec:
					c.infeas = true
				default:
					st := ""
					if p, ok := e.(*Panicked); ok {
						e, st = p.Val, p.Stack
					}
					s := fmt.Sprint(e)
					if strings.HasPrefix(s, "ex:") {
						r.diverge(name, s)
						c.infeas = true
						return
					}
					if st == "" {
						st = string(debug.Stack())
					}
					if PanicIsHarness(st) {
						v = &Violation{Msg: "the result could not be interpreted by the oracle (oracle panic): " + s + "\n" + st, Sig: "oracle-panic"}
						return
					}
					v = &Violation{Msg: "panic: " + s + "\n" + trimStack(st), Sig: "panic"}
				}
			}
		}()
		body(c)
	}()
	if os.Getenv("MC_DIVERGE") != "" && !logging { // development aid
		var ls [2]*Ctl
		for i := range ls {
			ls[i] = &Ctl{prefix: c.choices, r: r, logging: true}
			func() { defer func() { ls[i].log = append(ls[i].log, fmt.Sprint("end: ", recover())) }(); body(ls[i]) }()
		}
		if strings.Join(ls[0].log, "\n") != strings.Join(ls[1].log, "\n") {
			fmt.Fprintln(os.Stderr, "DIVERGE", prefix, ls[0].choices, ls[1].choices)
			for i := 0; i < len(ls[0].log) || i < len(ls[1].log); i++ {
				g := func(l []string) string {
					if i < len(l) {
						return l[i]
					}
					return "-"
				}
				fmt.Fprintf(os.Stderr, "%-50s %s\n", g(ls[0].log), g(ls[1].log))
			}
			os.Exit(9)
		}
	}
	if v == nil && !c.infeas && c.pos < len(prefix) {
		r.diverge(name, fmt.Sprintf("consumed %d of %d choices", c.pos, len(prefix)))
		c.infeas = true
	}
	return c, v
}

// diverge records that replaying a prefix did not reproduce its execution: the
// code shows nondeterminism the harness does not own. The execution is dropped
// and the scenario is no longer exhaustive.
func (r *Run) diverge(name, s string) {
	fmt.Fprintf(os.Stderr, "NOTE: %s: replay diverged: %s\n", name, s)
	r.mu.Lock()
	r.diverged++
	n := r.diverged
	r.mu.Unlock()
	r.Note("diverged_replays", n)
	if n == 1 {
		r.cap(name + " (replay diverged)")
	}
}

// PanicIsHarness tells whether the innermost non-runtime frame of a panic is
// the harness's own code rather than the code under test or its libraries.
func PanicIsHarness(stack string) bool {
	lines := strings.Split(stack, "\n")
	// skip to after the panic frame
	start := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			start = i + 2
		}
	}
	for _, l := range lines[start:] {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "goroutine") || l == "" {
			continue
		}
		if strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "runtime/") || strings.HasPrefix(l, "bytes.") || strings.HasPrefix(l, "reflect.") || strings.Contains(l, "zzverif/zz.") || strings.HasPrefix(l, "created by") {
			continue
		}
		return strings.Contains(l, "go-unixfs/zzverif")
	}
	return false
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "go-unixfs") && !strings.Contains(l, "zzverif/ex") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Enum explores every execution of body (within the deviation bound).
func (r *Run) Enum(name string, opt Opt, body Body) {
	if r.ReplayScenario != "" {
		if r.ReplayScenario == name {
			r.replay(name, body)
		}
		return
	}
	if r.Failed() {
		return
	}
	t0 := time.Now()
	workers := r.Workers
	if workers <= 0 {
		workers = runtime.NumCPU()
	}
	if opt.Serial {
		workers = 1
	}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	stack := [][]int{{}}
	busy := 0
	var execs int64
	complete := true
	stop := false
	maxDepth := 0
	var wg sync.WaitGroup
	sampled := 0
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var local [][]int
			for {
				var p []int
				if len(local) > 0 {
					p = local[len(local)-1]
					local = local[:len(local)-1]
					// share surplus
					if len(local) > 4 {
						mu.Lock()
						if len(stack) < workers*2 {
							half := len(local) / 2
							stack = append(stack, local[:half]...)
							local = append([][]int{}, local[half:]...)
							cond.Broadcast()
						}
						if stop {
							mu.Unlock()
							mu.Lock()
							busy--
							cond.Broadcast()
							mu.Unlock()
							return
						}
						mu.Unlock()
					}
				} else {
					mu.Lock()
					for len(stack) == 0 && busy > 0 && !stop {
						cond.Wait()
					}
					if stop || len(stack) == 0 {
						cond.Broadcast()
						mu.Unlock()
						return
					}
					p = stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					busy++
					mu.Unlock()
				}
				n := atomic.AddInt64(&execs, 1)
				wantLog := n <= 2
				c, v := r.exec(name, body, p, wantLog)
				r.Execs.Add(1)
				r.Trans.Add(c.steps)
				if !c.infeas {
					r.Traces.Add(1)
				}
				if wantLog && sampled < 1 && len(c.log) > 0 {
					sampled++
					lg := c.log
					if len(lg) > 14 {
						lg = lg[:14]
					}
					r.Sample(map[string]any{"scenario": name, "choices": c.choices, "trace": lg})
				}
				halt := false
				if v != nil {
					halt = r.report(name, body, c, v)
				}
				if r.Expired() || (opt.MaxExecs > 0 && n >= opt.MaxExecs) {
					halt = true
					mu.Lock()
					complete = false
					mu.Unlock()
				}
				if halt {
					mu.Lock()
					stop = true
					busy--
					cond.Broadcast()
					mu.Unlock()
					return
				}
				// alternatives
				spent := 0
				for i := 0; i < len(p) && i < len(c.choices); i++ {
					if c.costs[i] && c.choices[i] != 0 {
						spent++
					}
				}
				var alts [][]int
				for i := len(p); i < len(c.choices); i++ {
					if c.costs[i] && spent+1 > opt.Deviations {
						continue
					}
					for a := c.counts[i] - 1; a >= 1; a-- {
						np := make([]int, i+1)
						copy(np, c.choices[:i])
						np[i] = a
						alts = append(alts, np)
					}
				}
				local = append(local, alts...)
				if len(local) == 0 {
					mu.Lock()
					busy--
					if len(c.choices) > maxDepth {
						maxDepth = len(c.choices)
					}
					cond.Broadcast()
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	if !complete {
		r.cap(name)
	}
	b := ""
	if opt.Deviations > 0 {
		b = fmt.Sprintf("deviations<=%d", opt.Deviations)
	}
	r.mu.Lock()
	r.scenarios = append(r.scenarios, ScenarioStat{Name: name, Executions: execs, Bound: b, Complete: complete, MaxDepth: maxDepth, WallS: time.Since(t0).Seconds()})
	r.mu.Unlock()
}

// report confirms a violation by re-running it and records it; it returns
// whether exploration should stop.
func (r *Run) report(name string, body Body, c *Ctl, v *Violation) bool {
	// Confirm: the same choices must fail again. The harness owns every choice,
	// so a failure that recurs in at least 2 of 40 re-runs is the code's own.
	var first *Violation
	var trace []string
	hits := 0
	for i := 0; i < 40 && hits < 5 && !(i >= 5 && hits == i); i++ {
		c2, v2 := r.exec(name, body, c.choices, true)
		if v2 == nil {
			continue
		}
		hits++
		first = v2
		trace = c2.log
		if v2.Hist != nil {
			trace = v2.Hist
		}
	}
	if hits < 2 {
		fmt.Fprintf(os.Stderr, "NOTE: %s: %s: not reproducible (%d of 40 re-runs): %s; dropped\n", r.Property, name, hits, v.Msg)
		r.Note("unreproducible", name+": "+v.Msg)
		return false
	}
	sig := name + "|" + first.Sig
	if first.Sig == "" {
		var hist []string
		for _, l := range trace {
			if !strings.HasPrefix(l, "    ") {
				hist = append(hist, l)
			}
		}
		sig = name + "|" + strings.Join(hist, ";")
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if d, ok := r.Known[sig]; ok {
		if r.knownHit == nil {
			r.knownHit = map[string]string{}
		}
		r.knownHit[sig] = d
		return false
	}
	if os.Getenv("MC_SURVEY") != "" { // development aid: list distinct failures and go on
		if r.surveySeen == nil {
			r.surveySeen = map[string]bool{}
		}
		key := strings.Map(func(x rune) rune {
			if x >= '0' && x <= '9' {
				return -1
			}
			return x
		}, first.Msg)
		if len(key) > 60 {
			key = key[:60]
		}
		if r.surveySeen[key] {
			return false
		}
		r.surveySeen[key] = true
		r.survey++
		if r.survey < 60 {
			m := first.Msg
			if len(m) > 600 {
				m = m[:600]
			}
			fmt.Printf("SURVEY %s\n    %s\n", sig, m)
		}
		return false
	}
	if r.viol == nil || len(c.choices) < len(r.viol.Choices) {
		r.viol = &Failure{Scenario: name, Choices: append([]int{}, c.choices...), Msg: first.Msg, Sig: sig, Trace: trace}
	}
	return true
}

func (r *Run) replay(name string, body Body) {
	c, v := r.exec(name, body, r.ReplayChoices, true)
	for _, l := range c.log {
		fmt.Println("  ", l)
	}
	if v != nil {
		for _, l := range v.Hist {
			fmt.Println("  ", l)
		}
		fmt.Println("REPRODUCED:", v.Msg)
		r.viol = &Failure{Scenario: name, Choices: r.ReplayChoices, Msg: v.Msg}
	} else {
		fmt.Println("no violation on this replay")
	}
}

// Mark is the number of choices made so far.
func (c *Ctl) Mark() int { return c.pos }

// Again runs f, which must make exactly the choices made since mark, with the
// same answers.
func (c *Ctl) Again(mark int, f func()) {
	old := c.prefix
	all := append([]int{}, c.choices...)
	c.prefix = all
	c.pos = mark
	c.choices, c.counts, c.costs = c.choices[:mark], c.counts[:mark], c.costs[:mark]
	f()
	c.prefix = old
}
