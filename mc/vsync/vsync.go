// Package vsync is a cooperative scheduler for model checking the concurrency
// of real code, and drop-in replacements for the locks of package sync.
//
// While a schedule is being executed exactly one controlled goroutine runs at
// a time; at every Point (inserted before each statement of the code under
// test), lock and unlock the scheduler decides which goroutine runs next,
// following a prescribed list of choices. All scheduler state is touched only
// by functions excluded from race instrumentation, and goroutines hand over by
// spinning on plain memory: the scheduler therefore adds no happens-before
// edges, and the race detector judges the code under test by its own
// synchronisation alone (each shim lock also takes a real lock).
package vsync

import (
	"runtime"
	"sync"
)

const (
	MaxThreads = 8
	MaxSteps   = 1 << 14
)

const (
	unused int8 = iota
	runnable
	waiting  // for a lock
	finished //
	detached // blocked outside the scheduler's control
)

const (
	idle    = -1 // nobody can run
	aborted = -2
)

var (
	active  bool
	turn    int
	n       int
	state   [MaxThreads]int8
	gid     [MaxThreads]uint64
	waitW   [MaxThreads]*Mutex
	waitRW  [MaxThreads]*RWMutex
	waitRd  [MaxThreads]bool
	fresh   [MaxThreads]bool // has not passed a point since its start
	asked   [MaxThreads]bool // the last thing the goroutine did was to pass a point
	points  int              // points passed, for progress detection
	steps   int              // decisions taken
	want    [MaxSteps]int8
	nWant   int
	chosen  [MaxSteps]int8
	enabled [MaxSteps]uint8
	running [MaxSteps]int8 // who ran before the decision, -1: it cannot go on
)

// Abort unwinds controlled goroutines after a deadlock.
type Abort struct{}

func (Abort) Error() string { return "vsync: aborted" }

// Decision is one recorded choice between several enabled goroutines.
type Decision struct {
	Chosen  int
	Enabled uint8
	Running int
}

//go:norace
//go:noinline
func self() int {
	if !active {
		return -1
	}
	g := goid()
	for i := 0; i < n; i++ {
		if gid[i] == g && state[i] != finished {
			return i
		}
	}
	return -1
}

//go:norace
func mask() uint8 {
	var m uint8
	for i := 0; i < n; i++ {
		switch state[i] {
		case runnable:
			m |= 1 << uint(i)
		case waiting:
			free := true
			if l := waitW[i]; l != nil {
				free = !l.held
			} else if l := waitRW[i]; l != nil {
				free = !l.w && (waitRd[i] || l.r == 0)
			}
			if free {
				m |= 1 << uint(i)
			}
		}
	}
	return m
}

// decide hands the processor to the next goroutine; cur is the one giving it up.
//
//go:norace
//go:noinline
func decide(cur int) {
	m := mask()
	if m == 0 {
		turn = idle
		return
	}
	def := -1
	if cur >= 0 && m&(1<<uint(cur)) != 0 {
		def = cur
	} else {
		for i := 0; i < n; i++ {
			if m&(1<<uint(i)) != 0 {
				def = i
				break
			}
		}
	}
	pick := def
	if m&(m-1) != 0 && steps < MaxSteps {
		if steps < nWant {
			if w := int(want[steps]); w >= 0 && m&(1<<uint(w)) != 0 {
				pick = w
			}
		}
		chosen[steps], enabled[steps] = int8(pick), m
		running[steps] = -1
		if cur >= 0 && m&(1<<uint(cur)) != 0 {
			running[steps] = int8(cur)
		}
		steps++
	}
	turn = pick
}

//go:norace
//go:noinline
func await(t int) {
	for turn != t {
		if turn == aborted {
			panic(Abort{})
		}
		runtime.Gosched()
	}
}

//go:norace
//go:noinline
func pass(t int, st int8) {
	points++
	back := state[t] == detached
	state[t] = st
	if turn == t && !back {
		decide(t)
	}
	await(t)
	state[t] = runnable
	waitW[t], waitRW[t] = nil, nil
}

// Point is a place where the scheduler may switch.
//
//go:norace
//go:noinline
func Point() {
	if !active {
		return
	}
	if t := self(); t >= 0 {
		if turn == aborted {
			panic(Abort{})
		}
		if asked[t] && state[t] == runnable && turn == t && fresh[t] {
			fresh[t] = false // its start was the point
			return
		}
		fresh[t] = false
		pass(t, runnable)
		asked[t] = true
	}
}

// Go starts a goroutine under the scheduler's control.
func Go(f func()) {
	t := newThread()
	if t < 0 {
		go f()
		return
	}
	go func() {
		enter(t)
		defer leave(t)
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(Abort); !ok {
					panic(p)
				}
			}
		}()
		begin(t)
		f()
	}()
	Point()
}

//go:norace
//go:noinline
func newThread() int {
	if !active || self() < 0 || n >= MaxThreads {
		return -1
	}
	n++
	state[n-1], gid[n-1] = runnable, 0
	return n - 1
}

//go:norace
//go:noinline
func enter(t int) { gid[t] = goid() }

//go:norace
//go:noinline
func begin(t int) {
	await(t)
	state[t], fresh[t], asked[t] = runnable, true, true
}

//go:norace
//go:noinline
func leave(t int) {
	points++
	was := turn == t
	state[t] = finished
	if was {
		decide(-1)
	}
}

// ------------------------------------------------------------------ driver

//go:norace
//go:noinline
func setup(k int, choices []int8) {
	n, turn, points, steps = k, -3, 0, 0
	for i := range state {
		state[i], gid[i], waitW[i], waitRW[i] = unused, 0, nil, nil
	}
	for i := 0; i < k; i++ {
		state[i] = runnable
	}
	nWant = len(choices)
	for i := 0; i < nWant; i++ {
		want[i] = choices[i]
	}
	active = true
}

//go:norace
//go:noinline
func ready(k int) bool {
	for i := 0; i < k; i++ {
		if gid[i] == 0 {
			return false
		}
	}
	return true
}

//go:norace
//go:noinline
func allDone() bool {
	for i := 0; i < n; i++ {
		if state[i] != finished {
			return false
		}
	}
	return true
}

//go:norace
//go:noinline
func start() { decide(-1) }

//go:norace
//go:noinline
func look() (t, p int) { return turn, points }

//go:norace
//go:noinline
func rouse() bool {
	if turn == idle && mask() != 0 {
		decide(-1)
		return true
	}
	return false
}

//go:norace
//go:noinline
func detach(t, p int) {
	if turn == t && points == p && t >= 0 && state[t] == runnable {
		state[t] = detached
		decide(-1)
	}
}

//go:norace
//go:noinline
func abort() { turn = aborted }

//go:norace
//go:noinline
func stop() { active = false }

//go:norace
//go:noinline
func anyDetached() bool {
	for i := 0; i < n; i++ {
		if state[i] == detached {
			return true
		}
	}
	return false
}

// Run executes the functions concurrently under the given choices (-1: keep
// the default) and returns the decisions taken. clock returns real time in
// milliseconds; patience is how long a goroutine may go without reaching a
// point before it is considered blocked outside the scheduler's control.
func Run(fs []func(), choices []int8, clock func() int64, patience int64) (ds []Decision, passed int, deadlock bool, lost int) {
	setup(len(fs), choices)
	var wg sync.WaitGroup
	for i := range fs {
		i, f := i, fs[i]
		wg.Add(1)
		go func() {
			defer wg.Done()
			enter(i)
			defer leave(i)
			defer func() {
				if p := recover(); p != nil {
					if _, ok := p.(Abort); !ok {
						panic(p)
					}
				}
			}()
			begin(i)
			f()
		}()
	}
	for !ready(len(fs)) {
		runtime.Gosched()
	}
	start()
	lastT, lastP := look()
	since := clock()
	for !allDone() {
		runtime.Gosched()
		t, p := look()
		if t != lastT || p != lastP || rouse() {
			lastT, lastP, since = t, p, clock()
			continue
		}
		if now := clock(); now-since > patience {
			if t >= 0 {
				detach(t, p)
				lost++
			} else if !anyDetached() || now-since > 5*patience {
				deadlock = true
				abort()
				break
			}
			if t >= 0 {
				since = now
			}
		}
	}
	if deadlock && anyDetached() {
		return decisions(), lastP, deadlock, lost // some goroutines can never be joined
	}
	wg.Wait()
	_, passed = look()
	ds = decisions()
	stop()
	return ds, passed, deadlock, lost
}

//go:norace
//go:noinline
func decisions() []Decision {
	ds := make([]Decision, steps)
	for i := 0; i < steps; i++ {
		ds[i] = Decision{int(chosen[i]), enabled[i], int(running[i])}
	}
	return ds
}

// ------------------------------------------------------------------- shims

type (
	Locker    = sync.Locker
	Once      = sync.Once
	WaitGroup = sync.WaitGroup
	Map       = sync.Map
	Pool      = sync.Pool
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond               { return sync.NewCond(l) }
func OnceFunc(f func()) func()             { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T { return sync.OnceValue(f) }
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	return sync.OnceValues(f)
}

// Mutex replaces sync.Mutex.
type Mutex struct {
	mu   sync.Mutex
	held bool
}

//go:norace
//go:noinline
func (m *Mutex) setHeld(v bool) { m.held = v }

//go:norace
//go:noinline
func gone() bool { return active && turn == aborted }

//go:norace
//go:noinline
func (m *Mutex) wait(t int) {
	was := asked[t]
	asked[t], fresh[t] = false, false
	if was && !m.held && turn == t && state[t] == runnable {
		points++
		return // others could have run just before
	}
	waitW[t] = m
	pass(t, waiting)
}

func (m *Mutex) Lock() {
	if t := self(); t >= 0 {
		if gone() {
			panic(Abort{})
		}
		m.wait(t)
	}
	m.setHeld(true)
	m.mu.Lock()
}

func (m *Mutex) TryLock() bool {
	Point()
	if m.mu.TryLock() {
		m.setHeld(true)
		return true
	}
	return false
}

func (m *Mutex) Unlock() {
	if gone() {
		return
	}
	m.setHeld(false)
	m.mu.Unlock()
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	mu sync.RWMutex
	w  bool
	r  int
}

//go:norace
//go:noinline
func (m *RWMutex) setW(v bool) { m.w = v }

//go:norace
//go:noinline
func (m *RWMutex) addR(d int) { m.r += d }

//go:norace
//go:noinline
func (m *RWMutex) wait(t int, rd bool) {
	was := asked[t]
	asked[t], fresh[t] = false, false
	if was && !m.w && (rd || m.r == 0) && turn == t && state[t] == runnable {
		points++
		return
	}
	waitRW[t], waitRd[t] = m, rd
	pass(t, waiting)
}

func (m *RWMutex) Lock() {
	if t := self(); t >= 0 {
		if gone() {
			panic(Abort{})
		}
		m.wait(t, false)
	}
	m.setW(true)
	m.mu.Lock()
}

func (m *RWMutex) Unlock() {
	if gone() {
		return
	}
	m.setW(false)
	m.mu.Unlock()
}

func (m *RWMutex) RLock() {
	if t := self(); t >= 0 {
		if gone() {
			panic(Abort{})
		}
		m.wait(t, true)
	}
	m.addR(1)
	m.mu.RLock()
}

func (m *RWMutex) RUnlock() {
	if gone() {
		return
	}
	m.addR(-1)
	m.mu.RUnlock()
}

func (m *RWMutex) TryLock() bool {
	Point()
	if m.mu.TryLock() {
		m.setW(true)
		return true
	}
	return false
}

func (m *RWMutex) TryRLock() bool {
	Point()
	if m.mu.TryRLock() {
		m.addR(1)
		return true
	}
	return false
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }
