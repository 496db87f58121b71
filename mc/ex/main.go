package ex

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check is one registered property check.
type Check struct {
	ID              string
	Level           string
	Run             func(r *Run)
	Quick, Thorough time.Duration // internal deadlines
	Assumptions     []string
	Serial          bool
}

var registry = map[string]*Check{}

// Register adds a check.
func Register(c *Check) { registry[c.ID] = c }

// KnownFinding is one line of /verif/known_findings.jsonl.
type KnownFinding struct {
	Property  string `json:"property"`
	Signature string `json:"signature"`
	What      string `json:"what"`
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func loadKnown(id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.jsonl"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		var k KnownFinding
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			fmt.Fprintln(os.Stderr, "bad known finding:", l, err)
			os.Exit(3)
		}
		if k.Property == id {
			m[k.Signature] = k.What
		}
	}
	return m
}

type watch struct {
	mu   sync.Mutex
	runs map[int64]*watchEntry
	next int64
}
type watchEntry struct {
	scenario string
	choices  func() []int
	start    time.Time
}

var theWatch = &watch{runs: map[int64]*watchEntry{}}

// HangLimit is how long a single execution (normally well under a second) may
// take before it is treated as non-terminating.
var HangLimit = 150 * time.Second

func (w *watch) begin(name string, choices func() []int) int64 {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.next++
	w.runs[w.next] = &watchEntry{name, choices, time.Now()}
	return w.next
}
func (w *watch) end(id int64) {
	w.mu.Lock()
	delete(w.runs, id)
	w.mu.Unlock()
}

// Main runs `mc run <id>` / `mc replay <id> <file>`.
func Main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: mc run ID | mc replay FILE")
		os.Exit(2)
	}
	if os.Args[1] == "replay" {
		doReplay(os.Args[2])
		return
	}
	id := os.Args[2]
	if id == "selfcheck" {
		fmt.Println("checks:", len(registry))
		return
	}
	chk := registry[id]
	if chk == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(2)
	}
	if os.Getenv("MC_CHILD") == "" {
		os.Exit(parent(id))
	}
	os.Exit(child(chk))
}

func replayPath(id string) string {
	d := filepath.Join(verifDir(), "replays")
	_ = os.MkdirAll(d, 0o755)
	return filepath.Join(d, id+".json")
}

// parent runs the check in a child process so that a crash of the code under
// test (in any goroutine) is a verdict and not the end of the check.
func parent(id string) int {
	self, _ := os.Executable()
	cmd := exec.Command(self, os.Args[1:]...)
	cmd.Env = append(os.Environ(), "MC_CHILD=1", "GOTRACEBACK=single")
	var errb bytes.Buffer
	cmd.Stdout = os.Stdout
	cmd.Stderr = io.MultiWriter(&limited{w: &errb, n: 1 << 22}, &limited{w: os.Stderr, n: 1 << 16})
	err := cmd.Run()
	if err == nil {
		if b := os.Getenv("MC_RACE_BIN"); b != "" {
			return racePass(id, b)
		}
		return 0
	}
	ee, ok := err.(*exec.ExitError)
	if !ok {
		fmt.Fprintln(os.Stderr, "cannot run child:", err)
		return 3
	}
	code := ee.ExitCode()
	if code == 1 || code == 3 || code == 5 {
		return code
	}
	st := errb.String()
	crash := ""
	for _, m := range []string{"panic: ", "fatal error: "} {
		if i := strings.Index(st, m); i >= 0 {
			crash = st[i:]
			break
		}
	}
	if crash == "" || strings.Contains(crash, "out of memory") || strings.Contains(crash, "ex: ") {
		fmt.Fprintf(os.Stderr, "child ended with %v and no crash report\n", err)
		return 3
	}
	// First frame that is neither runtime nor library must be code under test.
	blame := false
	for _, l := range strings.Split(crash, "\n") {
		if strings.Contains(l, "github.com/ipfs/go-unixfs/") && !strings.HasPrefix(l, "\t") {
			blame = !strings.Contains(l, "go-unixfs/zzverif")
			break
		}
	}
	if !blame {
		fmt.Fprintln(os.Stderr, "child crashed outside the code under test")
		return 3
	}
	p := replayPath(id)
	if len(crash) > 6000 {
		crash = crash[:6000]
	}
	b, _ := json.MarshalIndent(map[string]any{"property": id, "crash": strings.Split(crash, "\n")}, "", " ")
	_ = os.WriteFile(p, b, 0o644)
	writeEvidenceCrash(registry[id])
	fmt.Printf("process crash in the code under test: %s\n", strings.SplitN(crash, "\n", 2)[0])
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
	return 1
}

type limited struct {
	w io.Writer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.n > 0 {
		q := p
		if len(q) > l.n {
			q = q[:l.n]
		}
		l.n -= len(q)
		_, _ = l.w.Write(q)
	}
	return len(p), nil
}

func tier() string {
	if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		return t
	}
	return "quick"
}

func seed() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return n
}

func newRun(chk *Check) *Run {
	r := &Run{Property: chk.ID, Tier: tier(), Known: loadKnown(chk.ID), Workers: runtime.NumCPU()}
	if chk.Serial {
		r.Workers = 1
	}
	d := chk.Quick
	if d == 0 {
		d = 240 * time.Second
	}
	if r.Tier == "thorough" {
		d = chk.Thorough
		if d == 0 {
			d = 60 * time.Minute
		}
	}
	if n, err := strconv.Atoi(os.Getenv("MC_DEADLINE")); err == nil { // development aid: seconds
		d = time.Duration(n) * time.Second
	}
	r.Deadline = time.Now().Add(d)
	return r
}

func child(chk *Check) int {
	r := newRun(chk)
	t0 := time.Now()
	go func() {
		for {
			time.Sleep(2 * time.Second)
			theWatch.mu.Lock()
			for _, e := range theWatch.runs {
				if time.Since(e.start) > HangLimit {
					hangExit(r, e)
				}
			}
			theWatch.mu.Unlock()
		}
	}()
	if f := os.Getenv("MC_PROF"); f != "" {
		w, _ := os.Create(f)
		_ = pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	chk.Run(r)
	viol := 0
	if r.viol != nil {
		viol = 1
	}
	writeEvidence(chk, r, time.Since(t0).Seconds(), viol)
	var sigs []string
	for s := range r.knownHit {
		sigs = append(sigs, s)
	}
	sort.Strings(sigs)
	for _, s := range sigs {
		fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", chk.ID, r.knownHit[s], s)
	}
	for _, s := range r.scenarios {
		fmt.Printf("  scenario %-58s executions=%-8d states=%-7d %s complete=%v %.1fs\n", s.Name, s.Executions, s.States, s.Bound, s.Complete, s.WallS)
	}
	fmt.Printf("%s tier=%s executions=%d states=%d transitions=%d complete=%v wall=%.1fs\n", chk.ID, r.Tier, r.Execs.Load(), r.States(), r.Trans.Load(), len(r.capped) == 0, time.Since(t0).Seconds())
	if r.viol != nil {
		return emit(chk.ID, r.viol)
	}
	return 0
}

var hangOnce atomic.Bool

func hangExit(r *Run, e *watchEntry) {
	if !hangOnce.CompareAndSwap(false, true) {
		return
	}
	f := &Failure{Scenario: e.scenario, Choices: e.choices(), Msg: fmt.Sprintf("one execution did not finish within %v (such executions take milliseconds)", HangLimit), Sig: "hang"}
	buf := make([]byte, 1<<16)
	n := runtime.Stack(buf, true)
	f.Trace = strings.Split(string(buf[:n]), "\n")
	if len(f.Trace) > 200 {
		f.Trace = f.Trace[:200]
	}
	chk := registry[r.Property]
	writeEvidence(chk, r, HangLimit.Seconds(), 1)
	os.Exit(emit(r.Property, f))
}

func emit(id string, f *Failure) int {
	p := replayPath(id)
	b, _ := json.MarshalIndent(map[string]any{"property": id, "scenario": f.Scenario, "choices": f.Choices, "message": f.Msg, "signature": f.Sig, "trace": f.Trace}, "", " ")
	_ = os.WriteFile(p, b, 0o644)
	fmt.Printf("counterexample in scenario %s: %s\n", f.Scenario, f.Msg)
	for i, l := range f.Trace {
		if i > 60 {
			break
		}
		fmt.Println("   ", l)
	}
	fmt.Printf("SIGNATURE %s\n", f.Sig)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
	return 1
}

func doReplay(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var f struct {
		Property, Scenario string
		Choices            []int
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	chk := registry[f.Property]
	if chk == nil {
		os.Exit(2)
	}
	r := newRun(chk)
	r.ReplayScenario = f.Scenario
	r.ReplayChoices = f.Choices
	chk.Run(r)
	if r.viol != nil {
		os.Exit(1)
	}
}

func evidencePath(id string) string {
	d := filepath.Join(verifDir(), "evidence")
	_ = os.MkdirAll(d, 0o755)
	return filepath.Join(d, id+".json")
}

func writeEvidenceCrash(chk *Check) {
	ev := map[string]any{"property": chk.ID, "tier": tier(), "seed": seed(), "level": chk.Level, "wall_s": 0.0, "violations": 1,
		"coverage": map[string]any{"explanation": "the code under test crashed the process; see the replay file", "exhaustive": false, "states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 0, "distinct_nontrivial": 0, "rule": "crash", "samples": []any{}}}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(evidencePath(chk.ID), b, 0o644)
}

func writeEvidence(chk *Check, r *Run, wall float64, viol int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	cov := map[string]any{
		"exhaustive":        len(r.capped) == 0 && viol == 0,
		"scenarios":         r.scenarios,
		"distinct_outcomes": len(r.outcomes),
		"samples":           r.samples,
	}
	if len(r.outcomes) > 0 && len(r.outcomes) <= 40 {
		cov["outcomes"] = r.outcomes
	}
	if len(r.capped) > 0 {
		cov["capped_scenarios"] = r.capped
	}
	for k, v := range r.notes {
		cov[k] = v
	}
	var n int64
	for i := range r.shards {
		n += int64(len(r.shards[i].m))
	}
	switch chk.Level {
	case "model_checking":
		cov["states"] = n
		cov["transitions"] = r.Trans.Load()
		cov["traces_validated_against_impl"] = r.Traces.Load()
	default:
		cov["evaluations"] = r.Execs.Load()
		cov["distinct_nontrivial"] = n
		cov["transitions"] = r.Trans.Load()
		cov["rule"] = "every choice sequence of each scenario within its bound; distinct = distinct observed state/outcome fingerprints"
	}
	if r.samples == nil {
		cov["samples"] = []any{}
	}
	ev := map[string]any{"property": chk.ID, "tier": r.Tier, "seed": seed(), "level": chk.Level, "coverage": cov, "wall_s": wall, "violations": viol}
	if len(chk.Assumptions) > 0 {
		ev["assumptions"] = chk.Assumptions
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(3)
	}
	_ = os.WriteFile(evidencePath(chk.ID), b, 0o644)
}
