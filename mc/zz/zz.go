// Package zz is the runtime of controlled executions. Code under the control
// of the explorer calls Point before every step another goroutine could
// observe; it then waits for the explorer to let it go on. Outside a
// controlled execution every function behaves like the plain operation.
//
// It is imported by instrumented copies of the code under test, so it imports
// nothing but the standard library.
package zz

import (
	"reflect"
	"runtime/debug"
	_ "runtime/pprof"
	"strconv"
	"sync"
	"sync/atomic"
	"unsafe"
)

//go:linkname runtimeGetProfLabel runtime/pprof.runtime_getProfLabel
func runtimeGetProfLabel() unsafe.Pointer

//go:linkname runtimeSetProfLabel runtime/pprof.runtime_setProfLabel
func runtimeSetProfLabel(unsafe.Pointer)

// Exec is one controlled execution.
type Exec struct {
	mu     sync.Mutex
	parked *Ticket // list, so that no runtime helper with race hooks is needed
	nextID int
	// Pick answers which of n equally possible outcomes to try first.
	Pick func(n int) int
	// FineGrained makes every statement of finely instrumented code a point.
	FineGrained bool
	free        atomic.Bool
	// Panic of a goroutine of the code under test.
	Panic      any
	PanicStack []byte
}

// member is what a goroutine of an execution carries as its profiler label:
// labels are inherited by the goroutines it starts. Its head reads as an empty
// label set.
type member struct {
	_  [4]uintptr
	e  *Exec
	id int

	// For telling interchangeable goroutines: hist is where it was started and
	// what it passed, empty once it saw anything that could set it apart.
	hist string
	last string // last point passed
	run  int    // changes when the last point does
}

// Ticket is a goroutine waiting at a point.
type Ticket struct {
	ID   int
	What string
	// Quiet: the goroutine only confirms that it is running again; when it is
	// the one that was let run, nothing needs to be decided.
	Quiet bool
	// Sym: goroutines with equal non-empty Sym are interchangeable: started in
	// one loop of one goroutine, they have done nothing but wait for a channel
	// to deliver or be closed.
	Sym  string
	gate chan struct{}
	next *Ticket
}

var active atomic.Int64

// Begin makes the calling goroutine, and those it starts, part of a new
// controlled execution.
func Begin() *Exec {
	e := &Exec{}
	runtimeSetProfLabel(unsafe.Pointer(&member{e: e, id: -1}))
	active.Add(1)
	return e
}

// End leaves the execution; goroutines still at a point stay there.
func (e *Exec) End() {
	active.Add(-1)
	runtimeSetProfLabel(nil)
}

func curm() *member {
	if active.Load() == 0 {
		return nil
	}
	return (*member)(runtimeGetProfLabel())
}

func cur() *Exec {
	if m := curm(); m != nil {
		return m.e
	}
	return nil
}

// Active tells whether the caller is in a controlled execution.
func Active() bool { return cur() != nil }

// Start is the first point of a goroutine.
func Start(what string) {
	Hide()
	defer Show()
	p := curm()
	if p == nil || p.e.free.Load() {
		return
	}
	e := p.e
	e.mu.Lock()
	m := &member{e: e, id: e.nextID, hist: strconv.Itoa(p.id) + "." + strconv.Itoa(p.run) + " " + what}
	e.nextID++
	e.mu.Unlock()
	runtimeSetProfLabel(unsafe.Pointer(m))
	e.parkT(&Ticket{What: what, Sym: m.hist})
}

// Range is a Point before (another round of) a range loop.
func Range(what string) {
	Hide()
	defer Show()
	e := cur()
	if e == nil || e.free.Load() {
		return
	}
	e.parkSym("range "+what, false)
}

// Ended is a Woke after a range loop.
func Ended(what string) {
	Hide()
	defer Show()
	e := cur()
	if e == nil || e.free.Load() {
		return
	}
	e.parkSym("ended "+what, true)
}

func (e *Exec) parkSym(what string, quiet bool) {
	m := curm()
	if m.hist != "" {
		m.hist += ";" + what
	}
	e.parkT(&Ticket{What: what, Quiet: quiet, Sym: m.hist})
}

// Recover keeps a panic of a goroutine of the code under test for the
// explorer; deferred first thing in instrumented goroutines.
func Recover() {
	e := cur()
	if e == nil {
		return
	}
	if p := recover(); p != nil {
		e.mu.Lock()
		if e.Panic == nil {
			e.Panic, e.PanicStack = p, debug.Stack()
		}
		e.mu.Unlock()
	}
}

// GoFn gives a function started with x.Go(f) a starting point.
func GoFn[F any](what string, f F) F {
	switch g := any(f).(type) {
	case func() error:
		return any(func() (err error) {
			defer Recover()
			Start(what)
			return g()
		}).(F)
	case func():
		return any(func() {
			defer Recover()
			Start(what)
			g()
		}).(F)
	}
	return f
}

// Point lets the explorer run other goroutines first.
func Point(what string) {
	Hide()
	defer Show()
	e := cur()
	if e == nil || e.free.Load() {
		return
	}
	e.park(what, false)
}

// Woke follows an operation that may have blocked: a goroutine another one
// made runnable waits here for its turn.
func Woke() {
	Hide()
	defer Show()
	e := cur()
	if e == nil || e.free.Load() {
		return
	}
	e.park("woke", true)
}

// W is Woke after evaluating v.
func W[T any](v T) T {
	Woke()
	return v
}

// Pick asks the explorer for one of n outcomes (0 is the default).
func Pick(n int) int {
	Hide()
	defer Show()
	e := cur()
	if e == nil || e.free.Load() || e.Pick == nil {
		return 0
	}
	curm().hist = ""
	return e.Pick(n)
}

// Fine is a Point that only counts in fine-grained executions.
func Fine(what string) {
	Hide()
	defer Show()
	if active.Load() == 0 {
		return
	}
	e := cur()
	if e == nil || !e.FineGrained || e.free.Load() {
		return
	}
	e.park(what, false)
}

func (e *Exec) park(what string, quiet bool) {
	curm().hist = ""
	e.parkT(&Ticket{What: what, Quiet: quiet})
}

func (e *Exec) parkT(t *Ticket) {
	m := curm()
	t.ID, t.gate = m.id, make(chan struct{})
	e.mu.Lock()
	t.next = e.parked
	e.parked = t
	e.mu.Unlock()
	<-t.gate
	// Only here, when nothing else runs: goroutines just started read it.
	if !t.Quiet && t.What != m.last {
		m.last = t.What
		m.run++
	}
}

// Free lets every goroutine run without further points.
func (e *Exec) Free() {
	Hide()
	defer Show()
	e.free.Store(true)
	e.mu.Lock()
	ps := e.parked
	e.parked = nil
	e.mu.Unlock()
	for ps != nil {
		t := ps
		ps = t.next
		close(t.gate)
	}
}

// Parked lists waiting goroutines in a canonical order.
func (e *Exec) Parked() []*Ticket {
	Hide()
	defer Show()
	e.mu.Lock()
	defer e.mu.Unlock()
	var ps []*Ticket
	for t := e.parked; t != nil; t = t.next {
		ps = append(ps, t)
		for i := len(ps) - 1; i > 0 && ps[i].ID < ps[i-1].ID; i-- {
			ps[i], ps[i-1] = ps[i-1], ps[i]
		}
	}
	return ps
}

// Release lets t run.
func (e *Exec) Release(t *Ticket) {
	Hide()
	defer Show()
	e.mu.Lock()
	for p := &e.parked; *p != nil; p = &(*p).next {
		if *p == t {
			*p = t.next
			break
		}
	}
	e.mu.Unlock()
	close(t.gate)
}

// ---- what instrumented code calls ----

// Mutex is a mutex whose waiting the explorer can see.
type Mutex struct {
	mu    sync.Mutex
	owned bool
	wait  []chan struct{}
}

func (m *Mutex) Lock() {
	Point("Lock")
	m.mu.Lock()
	if !m.owned {
		m.owned = true
		m.mu.Unlock()
		return
	}
	c := make(chan struct{})
	m.wait = append(m.wait, c)
	m.mu.Unlock()
	<-c
	Woke()
}

func (m *Mutex) TryLock() bool {
	Point("TryLock")
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.owned {
		return false
	}
	m.owned = true
	return true
}

func (m *Mutex) Unlock() {
	m.mu.Lock()
	if !m.owned {
		m.mu.Unlock()
		panic("sync: unlock of unlocked mutex")
	}
	if len(m.wait) > 0 {
		c := m.wait[0]
		m.wait = m.wait[1:]
		m.mu.Unlock()
		close(c)
		return
	}
	m.owned = false
	m.mu.Unlock()
}

// RWMutex is a reader-writer mutex whose waiting the explorer can see.
type RWMutex struct {
	mu      sync.Mutex
	writer  bool
	readers int
	wait    chan struct{} // closed when something changes
}

func (m *RWMutex) block(ok func() bool, take func()) {
	for {
		m.mu.Lock()
		if ok() {
			take()
			m.mu.Unlock()
			return
		}
		if m.wait == nil {
			m.wait = make(chan struct{})
		}
		c := m.wait
		m.mu.Unlock()
		<-c
		Woke()
	}
}

func (m *RWMutex) change(f func()) {
	m.mu.Lock()
	f()
	if m.wait != nil {
		close(m.wait)
		m.wait = nil
	}
	m.mu.Unlock()
}

func (m *RWMutex) Lock() {
	Point("Lock")
	m.block(func() bool { return !m.writer && m.readers == 0 }, func() { m.writer = true })
}
func (m *RWMutex) RLock() {
	Point("RLock")
	m.block(func() bool { return !m.writer }, func() { m.readers++ })
}
func (m *RWMutex) Unlock()  { m.change(func() { m.writer = false }) }
func (m *RWMutex) RUnlock() { m.change(func() { m.readers-- }) }

// RLocker mirrors sync.RWMutex.
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Case is one case of a select statement.
type Case struct {
	Dir  reflect.SelectDir
	Chan any
	Send reflect.Value
}

// Recv makes a receive case.
func Recv(ch any) Case { return Case{Dir: reflect.SelectRecv, Chan: ch} }

// Send makes a send case.
func Send[T any](ch chan<- T, v T) Case {
	return Case{Dir: reflect.SelectSend, Chan: ch, Send: reflect.ValueOf(&v).Elem()}
}

// Select runs a select over cases; with hasDefault it returns -1 when none is
// ready. Which ready case is taken is the explorer's choice.
func Select(hasDefault bool, cases ...Case) (int, reflect.Value, bool) {
	rc := make([]reflect.SelectCase, len(cases))
	for i, c := range cases {
		rc[i] = reflect.SelectCase{Dir: c.Dir}
		if c.Chan != nil {
			v := reflect.ValueOf(c.Chan)
			if !v.IsNil() {
				rc[i].Chan = v
				if c.Dir == reflect.SelectSend {
					rc[i].Send = c.Send
				}
			}
		}
	}
	e := cur()
	if e != nil && !e.free.Load() {
		Point("select")
		first := 0
		if len(rc) > 1 && e.Pick != nil && !e.free.Load() {
			first = Pick(len(rc))
		}
		for k := range rc {
			i := (first + k) % len(rc)
			if !rc[i].Chan.IsValid() {
				continue
			}
			j, v, ok := reflect.Select([]reflect.SelectCase{rc[i], {Dir: reflect.SelectDefault}})
			if j == 0 {
				return i, v, ok
			}
		}
		if hasDefault {
			return -1, reflect.Value{}, false
		}
	}
	if hasDefault {
		i, v, ok := reflect.Select(append(rc, reflect.SelectCase{Dir: reflect.SelectDefault}))
		if i == len(rc) {
			i = -1
		}
		return i, v, ok
	}
	i, v, ok := reflect.Select(rc)
	Woke()
	return i, v, ok
}

// Val converts what Select received from ch.
func Val[T any](ch <-chan T, v reflect.Value) T {
	var z T
	if !v.IsValid() {
		return z
	}
	reflect.ValueOf(&z).Elem().Set(v)
	return z
}
