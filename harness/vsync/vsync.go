// Package vsync replaces package sync in natively replayed code: it follows a
// recorded schedule. The handover between goroutines is invisible to the race
// detector, so replays built with -race still report the races of the code.
package vsync

import (
	"runtime"
	"sync"
	"sync/atomic"
)

type Locker = sync.Locker
type Pool = sync.Pool
type Map = sync.Map

// Deadlock is reported through this hook.
var OnDeadlock func(msg string)

type gor struct {
	id   int
	done bool
	wait func() bool
}

var (
	managed bool
	gs      []*gor
	turn    int
	sched   []int
	spos    int
	nlive   int
	wg      *sync.WaitGroup
	panics  []any
	pmu     sync.Mutex
)

//go:norace
func Start(s []int) {
	sched = s
	spos = 0
	managed = true
	gs = []*gor{{id: 0}}
	turn = 0
	nlive = 1
	wg = &sync.WaitGroup{}
	panics = nil
	runtime.GOMAXPROCS(1)
}

//go:norace
func me() *gor { return gs[turn] }

//go:norace
func waitTurn(id int) {
	for i := 0; turn != id; i++ {
		runtime.Gosched()
	}
}

// schedule picks the next goroutine; g is the one at the decision point.
//
//go:norace
func schedule(g *gor) {
	var rs []*gor
	curOK := false
	if !g.done && (g.wait == nil || g.wait()) {
		rs = append(rs, g)
		curOK = true
	}
	for _, o := range gs {
		if o != g && !o.done && (o.wait == nil || o.wait()) {
			rs = append(rs, o)
		}
	}
	_ = curOK
	if len(rs) == 0 {
		OnDeadlock("deadlock: no goroutine can run")
		select {}
	}
	n := rs[0]
	if spos < len(sched) {
		for _, o := range rs {
			if o.id == sched[spos] {
				n = o
			}
		}
		spos++
	}
	n.wait = nil
	turn = n.id
}

//go:norace
func point(g *gor) {
	if nlive <= 1 {
		return
	}
	schedule(g)
	waitTurn(g.id)
}

//go:norace
func block(g *gor, ready func() bool) {
	for !ready() {
		g.wait = ready
		schedule(g)
		waitTurn(g.id)
	}
}

//go:norace
func end(g *gor) {
	g.done = true
	nlive--
	schedule(g)
}

//go:norace
func Go(f func()) {
	g := &gor{id: len(gs)}
	gs = append(gs, g)
	nlive++
	wg.Add(1)
	w := wg
	go func() {
		waitTurn(g.id)
		defer func() {
			if r := recover(); r != nil {
				pmu.Lock()
				panics = append(panics, r)
				pmu.Unlock()
			}
			w.Done()
			end(g)
		}()
		f()
	}()
}

//go:norace
func WaitAll() {
	g := gs[0]
	block(g, func() bool { return nlive == 1 })
	wg.Wait()
	gs = gs[:1]
	pmu.Lock()
	defer pmu.Unlock()
	if len(panics) > 0 {
		panic(panics[0])
	}
}

// Panics lists what goroutines panicked with.
func Panics() []any {
	pmu.Lock()
	defer pmu.Unlock()
	return panics
}

// Gosched yields.
func Gosched() {
	if !managed {
		runtime.Gosched()
		return
	}
	point(me())
}

type Mutex struct {
	mu   sync.Mutex
	held bool
}

//go:norace
func (m *Mutex) Lock() {
	if managed {
		g := me()
		point(g)
		block(g, func() bool { return !m.held })
		m.held = true
	}
	m.mu.Lock()
}

//go:norace
func (m *Mutex) TryLock() bool {
	if managed {
		point(me())
		if m.held {
			return false
		}
		m.held = true
		m.mu.Lock()
		return true
	}
	return m.mu.TryLock()
}

//go:norace
func (m *Mutex) Unlock() {
	if managed {
		if !m.held {
			panic("fatal error: sync: unlock of unlocked mutex")
		}
		m.held = false
	}
	m.mu.Unlock()
}

type RWMutex struct {
	mu      sync.RWMutex
	w       bool
	r       int
	pending []int
}

//go:norace
func (m *RWMutex) Lock() {
	if managed {
		g := me()
		point(g)
		if m.w || m.r > 0 {
			m.pending = append(m.pending, g.id)
		}
		block(g, func() bool { return !m.w && m.r == 0 })
		for i, id := range m.pending {
			if id == g.id {
				m.pending = append(m.pending[:i:i], m.pending[i+1:]...)
				break
			}
		}
		m.w = true
	}
	m.mu.Lock()
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if managed {
		point(me())
		if m.w || m.r > 0 {
			return false
		}
		m.w = true
		m.mu.Lock()
		return true
	}
	return m.mu.TryLock()
}

//go:norace
func (m *RWMutex) Unlock() {
	if managed {
		if !m.w {
			panic("fatal error: sync: unlock of unlocked mutex")
		}
		m.w = false
	}
	m.mu.Unlock()
}

//go:norace
func (m *RWMutex) rfree(g *gor) bool {
	if m.w {
		return false
	}
	for _, id := range m.pending {
		if id != g.id {
			return false
		}
	}
	return true
}

//go:norace
func (m *RWMutex) RLock() {
	if managed {
		g := me()
		point(g)
		block(g, func() bool { return m.rfree(g) })
		m.r++
	}
	m.mu.RLock()
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if managed {
		g := me()
		point(g)
		if !m.rfree(g) {
			return false
		}
		m.r++
		m.mu.RLock()
		return true
	}
	return m.mu.TryRLock()
}

//go:norace
func (m *RWMutex) RUnlock() {
	if managed {
		if m.r == 0 {
			panic("fatal error: sync: RUnlock of unlocked RWMutex")
		}
		m.r--
	}
	m.mu.RUnlock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct {
	n  int
	wg sync.WaitGroup
}

//go:norace
func (w *WaitGroup) Add(d int) { w.n += d; w.wg.Add(d) }

//go:norace
func (w *WaitGroup) Done() { w.n--; w.wg.Done() }

//go:norace
func (w *WaitGroup) Wait() {
	if managed {
		g := me()
		point(g)
		block(g, func() bool { return w.n == 0 })
	}
	w.wg.Wait()
}

type Once struct {
	done atomic.Uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done.Load() == 0 {
		o.m.Lock()
		defer o.m.Unlock()
		if o.done.Load() == 0 {
			defer o.done.Store(1)
			f()
		}
	}
}

// OnceFunc mirrors sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue mirrors sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}
