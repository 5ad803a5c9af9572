package main

// Path exploration by re-execution: a path is the sequence of its decisions.

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"
)

type entKind uint8

const (
	eBranch entKind = iota
	eChoice
	eAssume
)

type entry struct {
	kind     entKind
	implied  bool // the other side is infeasible: nothing asserted
	asserted bool // solver has a level for it
	hasAlt   bool
	val, n   int
	aux      uint64
	alt      Model // model of the other side (branch), or of the prefix (choice)
}

type pathAbort struct{ why string } // assumption not satisfiable, or path cut

// Violation is a candidate found by the solver on one path.
type Violation struct {
	Kind   string // assert, panic, deadlock, race, hang
	Msg    string
	Model  Model
	Inputs []InputVal
	Sched  []int
	Stack  string
	Native string
}

type InputVal struct {
	Name string `json:"n"`
	Val  uint64 `json:"v"`
}

type task struct {
	ents  []entry
	base  int // entries below base are not ours to flip
	model Model
}

type Stats struct {
	Paths, Completed, Pruned, Branches, Implied, Choices int64
	Asserts, AssertsFolded, AssertQueries                int64
	Unknown, StepLimit, Steps                            int64
	Reached                                              int64 // asserts reached (vacuity guard)
	MaxDepth                                             int64
	Queries                                              int64
	SolverNS                                             int64
}

func (a *Stats) add(b *Stats) {
	atomic.AddInt64(&a.Paths, b.Paths)
	atomic.AddInt64(&a.Completed, b.Completed)
	atomic.AddInt64(&a.Pruned, b.Pruned)
	atomic.AddInt64(&a.Branches, b.Branches)
	atomic.AddInt64(&a.Implied, b.Implied)
	atomic.AddInt64(&a.Choices, b.Choices)
	atomic.AddInt64(&a.Asserts, b.Asserts)
	atomic.AddInt64(&a.AssertsFolded, b.AssertsFolded)
	atomic.AddInt64(&a.AssertQueries, b.AssertQueries)
	atomic.AddInt64(&a.Unknown, b.Unknown)
	atomic.AddInt64(&a.StepLimit, b.StepLimit)
	atomic.AddInt64(&a.Steps, b.Steps)
	atomic.AddInt64(&a.Queries, b.Queries)
	atomic.AddInt64(&a.SolverNS, b.SolverNS)
	atomic.AddInt64(&a.Reached, b.Reached)
	for {
		o := atomic.LoadInt64(&a.MaxDepth)
		if b.MaxDepth <= o || atomic.CompareAndSwapInt64(&a.MaxDepth, o, b.MaxDepth) {
			break
		}
	}
}

// explorer holds the decision state of one worker.
type explorer struct {
	tb     *Table
	sol    *Solver
	trace  []entry
	pos    int
	base   int
	model  Model
	st     Stats
	levels int // number of asserted entries == solver depth
	f      facts
}

// maxDecisions bounds the decisions of one path that the inputs leave open; a
// longer path is beyond the bound and is counted, not explored.
const maxDecisions = 1200

func (x *explorer) inPrefix() bool { return x.pos < len(x.trace) }

func (x *explorer) pushAssert(t *Term) {
	x.sol.Push()
	x.sol.Assert(t)
	x.levels++
}

func (x *explorer) sat(t *Term) (SatRes, Model) {
	x.sol.Push()
	x.sol.Assert(t)
	r := x.sol.CheckSat()
	var m Model
	if r == Sat {
		m = x.sol.GetModel()
	}
	x.sol.Pop(1)
	return r, m
}

func (x *explorer) branch(c *Term, aux uint64) bool {
	if v, ok := x.f.decide(c); ok {
		return v
	}
	v := x.branch1(c, aux)
	x.f.learn(c, v)
	return v
}

func (x *explorer) branch1(c *Term, aux uint64) bool {
	if x.pos < len(x.trace) {
		e := &x.trace[x.pos]
		x.pos++
		if e.kind != eBranch {
			panic(fmt.Sprintf("nondeterministic re-execution: branch meets %d", e.kind))
		}
		if !e.implied && !e.asserted {
			x.pushAssert(x.side(c, e.val == 1))
			e.asserted = true
		}
		return e.val == 1
	}
	if x.levels > maxDecisions {
		panic(pathAbort{"depth"})
	}
	v := x.tb.Eval(c, x.model) == 1
	r, m := x.sat(x.side(c, !v))
	e := entry{kind: eBranch, val: b2i(v), aux: aux}
	switch r {
	case Sat:
		e.hasAlt = true
		e.alt = m
		x.st.Branches++
	case Unsat:
		e.implied = true
		x.st.Implied++
	case Unknown:
		x.st.Unknown++
	}
	if !e.implied {
		x.pushAssert(x.side(c, v))
		e.asserted = true
	}
	x.trace = append(x.trace, e)
	x.pos++
	return v
}

func (x *explorer) side(c *Term, v bool) *Term {
	if v {
		return c
	}
	return x.tb.Not(c)
}

func (x *explorer) choice(n int) int {
	if n <= 1 {
		return 0
	}
	if x.pos < len(x.trace) {
		e := &x.trace[x.pos]
		x.pos++
		if e.kind != eChoice {
			panic("nondeterministic re-execution: choice")
		}
		return e.val
	}
	x.st.Choices++
	x.trace = append(x.trace, entry{kind: eChoice, n: n, alt: x.model})
	x.pos++
	return 0
}

func (x *explorer) assume(c *Term) {
	if v, ok := x.f.decide(c); ok {
		if !v {
			panic(pathAbort{"assume"})
		}
		return
	}
	x.assume1(c)
	x.f.learn(c, true)
}

func (x *explorer) assume1(c *Term) {
	if x.pos < len(x.trace) {
		e := &x.trace[x.pos]
		x.pos++
		if e.kind != eAssume {
			panic("nondeterministic re-execution: assume")
		}
		if !e.asserted {
			x.pushAssert(c)
			e.asserted = true
		}
		return
	}
	x.pushAssert(c)
	if x.tb.Eval(c, x.model) != 1 {
		switch x.sol.CheckSat() {
		case Sat:
			x.model = x.sol.GetModel()
		case Unsat:
			x.sol.Pop(1)
			x.levels--
			panic(pathAbort{"assume"})
		case Unknown:
			x.st.Unknown++
			x.sol.Pop(1)
			x.levels--
			panic(pathAbort{"unknown"})
		}
	}
	x.trace = append(x.trace, entry{kind: eAssume, asserted: true})
	x.pos++
}

// check decides an assertion on the current path; a model is returned when it can fail.
func (x *explorer) check(c *Term) (bool, Model) {
	if x.pos < len(x.trace) {
		// decided on an earlier path with this very prefix; what is learned must
		// be what was learned then
		if !c.isConst() {
			if _, ok := x.f.decide(c); !ok {
				x.f.learn(c, true)
			}
		}
		return true, nil
	}
	x.st.Asserts++
	if c.isConst() {
		x.st.AssertsFolded++
		if c.val == 1 {
			return true, nil
		}
		return false, x.model
	}
	if v, ok := x.f.decide(c); ok {
		x.st.AssertsFolded++
		return v, x.model
	}
	if x.tb.Eval(c, x.model) == 0 {
		return false, x.model
	}
	x.st.AssertQueries++
	r, m := x.sat(x.tb.Not(c))
	switch r {
	case Unsat:
		x.f.learn(c, true)
		return true, nil
	case Sat:
		return false, m
	}
	x.st.Unknown++
	x.f.learn(c, true)
	return true, nil
}

// concretize picks a value for t and explores the others as alternatives.
func (x *explorer) concretize(t *Term) uint64 {
	for i := 0; ; i++ {
		if t.isConst() {
			return t.val
		}
		if r := x.f.rng(t); r.lo == r.hi {
			return r.lo
		}
		// every round leaves an entry, so that a replay picks the same values
		if x.pos < len(x.trace) {
			v := x.trace[x.pos].aux
			c := x.tb.Eq(t, x.tb.Const(t.w, v))
			y := x.branch1(c, v)
			x.f.learn(c, y)
			if y {
				return v
			}
		} else {
			v := x.tb.Eval(t, x.model)
			c := x.tb.Eq(t, x.tb.Const(t.w, v))
			if y, ok := x.f.decide(c); ok && y {
				x.trace = append(x.trace, entry{kind: eBranch, implied: true, val: 1, aux: v})
				x.pos++
				x.f.learn(c, y)
				return v
			}
			y := x.branch1(c, v)
			x.f.learn(c, y)
			if y {
				return v
			}
		}
		if i > 4096 {
			unsup("concretisation of a term with more than 4096 values")
		}
	}
}

// backtrack prepares the next path; false when the task is exhausted.
func (x *explorer) backtrack() bool {
	for i := len(x.trace) - 1; i >= x.base; i-- {
		e := &x.trace[i]
		ok := false
		switch e.kind {
		case eBranch:
			ok = e.hasAlt
		case eChoice:
			ok = e.val+1 < e.n
		}
		if !ok {
			continue
		}
		x.cut(i)
		e = &x.trace[i]
		if e.kind == eBranch {
			e.val = 1 - e.val
			e.hasAlt = false
		} else {
			e.val++
		}
		x.model = e.alt
		x.pos = 0
		return true
	}
	return false
}

// cut drops entries after i and the solver levels from i on.
func (x *explorer) cut(i int) {
	n := 0
	for j := i; j < len(x.trace); j++ {
		if x.trace[j].asserted {
			n++
			x.trace[j].asserted = false
		}
	}
	x.sol.Pop(n)
	x.levels -= n
	x.trace = x.trace[:i+1]
}

// donate gives away the shallowest open alternative.
func (x *explorer) donate() *task {
	for i := x.base; i < len(x.trace); i++ {
		e := &x.trace[i]
		if e.kind == eBranch && e.hasAlt {
			t := &task{ents: append([]entry{}, x.trace[:i+1]...), base: i + 1, model: e.alt}
			l := &t.ents[i]
			l.val = 1 - l.val
			l.hasAlt = false
			e.hasAlt = false
			t.clean()
			return t
		}
		if e.kind == eChoice && e.val+1 < e.n {
			t := &task{ents: append([]entry{}, x.trace[:i+1]...), base: i, model: e.alt}
			t.ents[i].val++
			e.n = e.val + 1
			t.clean()
			return t
		}
	}
	return nil
}

func (t *task) clean() {
	for i := range t.ents {
		t.ents[i].asserted = false
		if i < t.base {
			t.ents[i].hasAlt = false
		}
	}
}

func (x *explorer) load(t *task) {
	if x.levels > 0 {
		x.sol.Pop(x.levels)
		x.levels = 0
	}
	x.trace = append(x.trace[:0], t.ents...)
	x.base = t.base
	x.model = t.model
	x.pos = 0
}

// ---- harness run over a pool of workers ----

type Harness struct {
	Name   string
	Func   string
	Params map[string]int64
	Bound  string
}

type HarnessResult struct {
	Solver    string
	Harness   *Harness
	Stats     Stats
	Viol      *Violation
	Err       string
	TimedOut  bool
	PathLimit bool
	Wall      time.Duration
	Samples   []PathSample
	Funcs     map[string]int64 // functions of the module executed symbolically
	Reached   map[string]bool
}

type PathSample struct {
	Inputs []InputVal `json:"inputs"`
	Obs    []InputVal `json:"obs"`
	Sched  []int      `json:"sched,omitempty"`
}

type pool struct {
	mu    sync.Mutex
	cond  *sync.Cond
	queue []*task
	idle  int
	n     int
	stop  bool
	want  int32
}

func (p *pool) get() *task {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.idle++
	atomic.StoreInt32(&p.want, int32(p.idle-len(p.queue)))
	for {
		if p.stop {
			return nil
		}
		if len(p.queue) > 0 {
			t := p.queue[len(p.queue)-1]
			p.queue = p.queue[:len(p.queue)-1]
			p.idle--
			atomic.StoreInt32(&p.want, int32(p.idle-len(p.queue)))
			return t
		}
		if p.idle == p.n {
			p.stop = true
			p.cond.Broadcast()
			return nil
		}
		p.cond.Wait()
	}
}

func (p *pool) put(t *task) {
	p.mu.Lock()
	p.queue = append(p.queue, t)
	atomic.StoreInt32(&p.want, int32(p.idle-len(p.queue)))
	p.cond.Signal()
	p.mu.Unlock()
}

func (p *pool) halt() {
	p.mu.Lock()
	p.stop = true
	p.cond.Broadcast()
	p.mu.Unlock()
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
