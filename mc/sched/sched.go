// Package sched enumerates goroutine schedules: it runs a body inside a
// synctest bubble, lets exactly one goroutine run between two points, and asks
// the explorer which one goes on.
package sched

import (
	"fmt"
	"runtime/debug"
	"strings"
	_ "testing/synctest"
	_ "unsafe"

	"github.com/ipfs/go-unixfs/zzverif/ex"
	"github.com/ipfs/go-unixfs/zzverif/zz"
)

//go:linkname synRun internal/synctest.Run
func synRun(f func())

//go:linkname synWait internal/synctest.Wait
func synWait()

// Opt configures a controlled run.
type Opt struct {
	// FreeSwitch: choosing among goroutines when the running one blocked costs
	// no deviation (preemption bounding); otherwise every departure from the
	// default order costs one (delay bounding).
	FreeSwitch bool
	MaxSteps   int
	Fine       bool // every statement is a point
	Fixed      bool // always the default order (store calls come in a reproducible order)
	// OnStep is called before each step; it tells whether it did something.
	OnStep func(step int) bool
	// AtEnd is called after the body is done and nothing can run any more.
	AtEnd func()
}

// Result of a controlled run.
type Result struct {
	Steps    int
	Deadlock bool // the body did not finish and nothing can run
	Livelock bool // MaxSteps reached
	Leak     string
}

// distinct leaves out all but the first of interchangeable goroutines: which of
// them goes on is immaterial.
func distinct(ps []*zz.Ticket) []*zz.Ticket {
	seen := map[string]bool{}
	out := ps[:0]
	for _, t := range ps {
		if t.Sym != "" {
			if seen[t.Sym] {
				continue
			}
			seen[t.Sym] = true
		}
		out = append(out, t)
	}
	return out
}

// Run executes body under the explorer's schedule.
func Run(c *ex.Ctl, o Opt, body func()) (res Result) {
	if o.MaxSteps == 0 {
		o.MaxSteps = 20000
	}
	var pan any
	var panStack []byte
	func() {
		defer func() {
			if p := recover(); p != nil {
				if s := fmt.Sprint(p); strings.Contains(s, "deadlock: main bubble goroutine has exited") {
					res.Leak = s
					return
				}
				if pan == nil {
					panic(p)
				}
			}
		}()
		synRun(func() {
			defer func() {
				if p := recover(); p != nil && pan == nil {
					pan, panStack = p, debug.Stack()
				}
			}()
			e := zz.Begin()
			defer e.End()
			e.FineGrained = o.Fine
			e.Pick = func(n int) (k int) {
				defer func() {
					if p := recover(); p != nil && pan == nil {
						pan, panStack = p, debug.Stack()
					}
				}()
				if o.Fixed {
					return 0
				}
				return c.Deviate(n)
			}
			done := false
			go func() {
				defer func() {
					done = true
					if p := recover(); p != nil && pan == nil {
						pan, panStack = p, debug.Stack()
					}
				}()
				zz.Start("start")
				body()
			}()
			last := -1
			for {
				synWait()
				if pan == nil && e.Panic != nil {
					pan, panStack = e.Panic, e.PanicStack
				}
				if pan != nil {
					e.Free()
					return
				}
				if o.OnStep != nil {
					if o.OnStep(res.Steps) {
						synWait()
					}
				}
				ps := distinct(e.Parked())
				if len(ps) == 0 {
					if !done {
						res.Deadlock = true
						e.Free()
						return
					}
					break
				}
				if res.Steps++; res.Steps > o.MaxSteps {
					res.Livelock = true
					e.Free()
					return
				}
				// canonical order: the running goroutine first
				running := false
				for i, t := range ps {
					if t.ID == last {
						copy(ps[1:i+1], ps[:i])
						ps[0] = t
						running = true
						break
					}
				}
				k := 0
				if len(ps) > 1 && !o.Fixed && !(running && ps[0].Quiet) {
					if running || !o.FreeSwitch {
						k = c.Deviate(len(ps))
					} else {
						k = c.Choose(len(ps))
					}
				}
				t := ps[k]
				last = t.ID
				c.Step()
				c.Sched(t.ID, t.What)
				e.Release(t)
			}
			if o.AtEnd != nil {
				o.AtEnd()
			}
		})
	}()
	if pan != nil {
		if v, ok := pan.(*ex.Violation); ok {
			panic(v)
		}
		if ex.IsControl(pan) {
			panic(pan)
		}
		panic(&ex.Panicked{Val: pan, Stack: string(panStack)})
	}
	return res
}
