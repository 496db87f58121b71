package ex

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

// System is a real object under test together with its reference model.
// Apply runs operation op on both and panics with *Violation on disagreement.
type System interface {
	Apply(c *Ctl, op int)
	Fingerprint() Fp
	// Observe compares everything observable; it may disturb the object, which
	// is discarded afterwards.
	Observe(c *Ctl)
}

// BFS explores, breadth first, every reachable state of the systems built by
// mk under nOps operations up to depth, merging states with equal fingerprints.
// The state is reached by replaying its history on a fresh object.
func (r *Run) BFS(name string, nOps, depth int, maxStates int, mk func(c *Ctl) System) {
	body := func(c *Ctl) {
		s := mk(c)
		for i := 0; i < len(c.prefix); i++ {
			s.Apply(c, c.Choose(nOps))
		}
		s.Observe(c)
	}
	if r.ReplayScenario != "" {
		if r.ReplayScenario == name {
			r.replay(name, body)
		}
		return
	}
	if r.Failed() {
		return
	}
	t0 := time.Now()
	workers := r.Workers
	if workers <= 0 {
		workers = runtime.NumCPU()
	}
	var seenMu [64]sync.Mutex
	var seen [64]map[Fp]struct{}
	for i := range seen {
		seen[i] = map[Fp]struct{}{}
	}
	var nStates, execs atomic.Int64
	isNew := func(fp Fp) bool {
		i := fp[0] % 64
		seenMu[i].Lock()
		defer seenMu[i].Unlock()
		if _, ok := seen[i][fp]; ok {
			return false
		}
		seen[i][fp] = struct{}{}
		nStates.Add(1)
		return true
	}
	frontier := [][]int{nil}
	complete := true
	reached := 0
	// depth 0 observation
	level := func(cands [][]int) [][]int {
		var next [][]int
		var mu sync.Mutex
		var idx atomic.Int64
		var wg sync.WaitGroup
		var stop atomic.Bool
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var mine [][]int
				for !stop.Load() {
					k := int(idx.Add(1)) - 1
					if k >= len(cands) {
						break
					}
					if r.Expired() || (maxStates > 0 && nStates.Load() > int64(maxStates)) {
						stop.Store(true)
						mu.Lock()
						complete = false
						mu.Unlock()
						break
					}
					h := cands[k]
					n := execs.Add(1)
					fresh := false
					first := func(c *Ctl) {
						s := mk(c)
						for i := 0; i < len(h); i++ {
							s.Apply(c, c.Choose(nOps))
						}
						fp := s.Fingerprint()
						fresh = isNew(fp)
						if fresh {
							r.addState(fp)
							s.Observe(c)
						}
					}
					c, v := r.exec(name, first, h, n <= 1 || (n == 3000))
					r.Execs.Add(1)
					r.Trans.Add(c.steps)
					if !c.infeas {
						r.Traces.Add(1)
					}
					if len(c.log) > 0 {
						r.Sample(map[string]any{"scenario": name, "history": c.log})
					}
					if v != nil {
						if r.report(name, body, c, v) {
							stop.Store(true)
							break
						}
						continue
					}
					if fresh {
						mine = append(mine, h)
					}
				}
				mu.Lock()
				next = append(next, mine...)
				mu.Unlock()
			}()
		}
		wg.Wait()
		return next
	}
	frontier = level(frontier)
	for d := 1; d <= depth && complete && !r.Failed(); d++ {
		cands := make([][]int, 0, len(frontier)*nOps)
		for _, h := range frontier {
			for op := 0; op < nOps; op++ {
				nh := make([]int, len(h)+1)
				copy(nh, h)
				nh[len(h)] = op
				cands = append(cands, nh)
			}
		}
		frontier = level(cands)
		if complete {
			reached = d
		}
		if len(frontier) == 0 {
			break
		}
	}
	if !complete {
		r.cap(fmt.Sprintf("%s (depth %d fully covered)", name, reached))
	}
	r.mu.Lock()
	r.scenarios = append(r.scenarios, ScenarioStat{Name: name, Executions: execs.Load(), Bound: fmt.Sprintf("depth<=%d over %d operations", depth, nOps), Complete: complete, MaxDepth: reached, States: nStates.Load(), WallS: time.Since(t0).Seconds()})
	r.mu.Unlock()
}
