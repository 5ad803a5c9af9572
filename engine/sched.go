package main

// Goroutines, scheduling choice points, locks, channels and the
// happens-before race check.
//
// A path explores one schedule. Scheduling points are the acquiring
// operations (Lock, RLock, TryLock, Wait, atomics, channel operations), the
// end of a goroutine and every block. Between two such points code of one
// goroutine runs without interruption; this loses no behaviour because every
// memory access is checked for a happens-before race, and race-free code
// cannot tell where between two synchronisation operations it is preempted.

import (
	"fmt"
	"strings"
)

type vclock []int32

func (v *vclock) join(o vclock) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func (v vclock) at(i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v vclock) clone() vclock { return append(vclock{}, v...) }

type raceMeta struct {
	wg, wc int32 // last write
	rd     []int32
	where  string
	rwhere string
	gen    int32
}

type lockState struct {
	writer  int // goroutine+1, 0 none
	readers map[int]int
	nread   int
	pending map[int]bool
	vc, rvc vclock
	count   int64 // WaitGroup
}

func (vm *VM) lock(p *Value) *lockState {
	if p == nil {
		nilDeref()
	}
	l := vm.locks[p]
	if l == nil {
		l = &lockState{readers: map[int]int{}, pending: map[int]bool{}}
		vm.locks[p] = l
	}
	return l
}

func (vm *VM) multi() bool {
	n := 0
	for _, g := range vm.gs {
		if !g.done {
			n++
		}
	}
	return n > 1
}

// schedule decides who runs next; g is the goroutine at the decision point.
func (vm *VM) schedule(g *Goro) *Goro {
	var rs []*Goro
	curOK := false
	if !g.done && (g.wait == nil || g.wait()) {
		rs = append(rs, g)
		curOK = true
	}
	for _, o := range vm.gs {
		if o != g && !o.done && (o.wait == nil || o.wait()) {
			rs = append(rs, o)
		}
	}
	if len(rs) == 0 {
		var sb strings.Builder
		for _, o := range vm.gs {
			if !o.done {
				fmt.Fprintf(&sb, "goroutine %d blocked: %s\n%s", o.id, o.why, vm.stack(o))
			}
		}
		vm.fail("deadlock", "deadlock: no goroutine can run", sb.String(), vm.x.model)
	}
	i := 0
	if curOK && vm.preempt >= 0 && vm.ctxUsed >= vm.preempt {
		i = 0
	} else {
		i = vm.x.choice(len(rs))
	}
	if curOK && i > 0 {
		vm.ctxUsed++
	}
	n := rs[i]
	vm.sched = append(vm.sched, n.id)
	n.wait = nil
	return n
}

// point is a scheduling point before an acquiring operation of g. It reports
// true when another goroutine was chosen (the operation must be retried).
func (vm *VM) point(g *Goro) bool {
	if g.passed || !vm.multi() {
		return false
	}
	g.passed = true
	if n := vm.schedule(g); n != g {
		vm.cur = n
		return true
	}
	return false
}

func (vm *VM) block(g *Goro, why string, ready func() bool) {
	g.wait = ready
	g.why = why
}

func (vm *VM) spawn(g *Goro, f Value, args []Value) {
	n := &Goro{id: len(vm.gs)}
	if len(vm.gs) > 16 {
		unsup("more than 16 goroutines")
	}
	n.vc = g.vc.clone()
	for len(n.vc) <= n.id {
		n.vc = append(n.vc, 0)
	}
	n.vc[n.id] = 1
	g.vc[g.id]++
	vm.gs = append(vm.gs, n)
	vm.raceOn = true
	_, a := vm.invoke(n, f, args, -1, nil)
	if a != aPushed {
		n.done = true
	}
}

func (vm *VM) goroEnd(g *Goro) {}

func (vm *VM) raceCell(p *Value, write bool) {
	switch v := (*p).(type) {
	case *StructV:
		for i := range v.f {
			vm.raceCell(&v.f[i], write)
		}
		return
	case *ArrayV:
		for i := range v.e {
			vm.raceCell(&v.e[i], write)
		}
		return
	}
	m := vm.races[p]
	if m == nil {
		m = &raceMeta{}
		vm.races[p] = m
	}
	vm.raceAccess(m, write, "memory")
}

func (vm *VM) raceAccess(m *raceMeta, write bool, what string) {
	if m.gen != vm.raceGen {
		*m = raceMeta{gen: vm.raceGen}
	}
	g := vm.cur
	if m.wc > 0 && int(m.wg) != g.id && g.vc.at(int(m.wg)) < m.wc {
		kind := "read"
		if write {
			kind = "write"
		}
		vm.fail("race", fmt.Sprintf("data race on %s: %s after an unsynchronised write by goroutine %d", what, kind, m.wg), vm.stack(g)+"-- previous write:\n"+m.where, vm.x.model)
	}
	if write {
		for i, c := range m.rd {
			if i != g.id && c > 0 && g.vc.at(i) < c {
				vm.fail("race", fmt.Sprintf("data race on %s: write after an unsynchronised read by goroutine %d", what, i), vm.stack(g)+"-- previous read:\n"+m.rwhere, vm.x.model)
			}
		}
		m.wg, m.wc = int32(g.id), g.vc.at(g.id)
		m.where = ""
		m.rd = m.rd[:0]
		return
	}
	for len(m.rd) <= g.id {
		m.rd = append(m.rd, 0)
	}
	m.rd[g.id] = g.vc.at(g.id)
}

func (vm *VM) release(g *Goro, vc *vclock) {
	vc.join(g.vc)
	g.vc[g.id]++
}

type lockKind uint8

const (
	lkLock lockKind = iota
	lkRLock
	lkUnlock
	lkRUnlock
	lkTry
	lkTryR
)

func lockIntr(kind lockKind, rw bool) intrinsic {
	return func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		key, ok := args[0].(*Value)
		if !ok {
			unsup("lock through %T", args[0])
		}
		if key == nil {
			nilDeref()
		}
		switch kind {
		case lkLock, lkRLock, lkTry, lkTryR:
			if vm.point(g) {
				return nil, aBlocked
			}
		}
		l := vm.lock(key)
		wfree := func() bool { return l.writer == 0 && l.nread == 0 }
		rfree := func() bool {
			if l.writer != 0 {
				return false
			}
			for id := range l.pending {
				if id != g.id {
					return false
				}
			}
			return true
		}
		switch kind {
		case lkLock, lkTry:
			if !wfree() {
				if kind == lkTry {
					g.passed = false
					return vm.tb.F, aDone
				}
				l.pending[g.id] = true
				vm.block(g, "Lock", wfree)
				return nil, aBlocked
			}
			g.passed = false
			delete(l.pending, g.id)
			l.writer = g.id + 1
			g.vc.join(l.vc)
			g.vc.join(l.rvc)
			if kind == lkTry {
				return vm.tb.T, aDone
			}
		case lkRLock, lkTryR:
			if !rfree() {
				if kind == lkTryR {
					g.passed = false
					return vm.tb.F, aDone
				}
				vm.block(g, "RLock", rfree)
				return nil, aBlocked
			}
			g.passed = false
			l.nread++
			g.vc.join(l.vc)
			if kind == lkTryR {
				return vm.tb.T, aDone
			}
		case lkUnlock:
			if l.writer == 0 {
				vm.fail("panic", "fatal error: sync: unlock of unlocked mutex", vm.stack(g), vm.x.model)
			}
			l.writer = 0
			vm.release(g, &l.vc)
		case lkRUnlock:
			if l.nread == 0 {
				vm.fail("panic", "fatal error: sync: RUnlock of unlocked RWMutex", vm.stack(g), vm.x.model)
			}
			l.nread--
			vm.release(g, &l.rvc)
		}
		return nil, aDone
	}
}

func wgAdd(done bool) intrinsic {
	return func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		l := vm.lock(args[0].(*Value))
		d := int64(-1)
		if !done {
			t := args[1].(*Term)
			d = int64(vm.x.concretize(t))
		}
		l.count += d
		if l.count < 0 {
			panic(goPanic{rt: "sync: negative WaitGroup counter"})
		}
		vm.release(g, &l.vc)
		return nil, aDone
	}
}

func wgWait(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
	if vm.point(g) {
		return nil, aBlocked
	}
	l := vm.lock(args[0].(*Value))
	if l.count > 0 {
		vm.block(g, "WaitGroup.Wait", func() bool { return l.count == 0 })
		return nil, aBlocked
	}
	g.passed = false
	g.vc.join(l.vc)
	return nil, aDone
}

// ndWait joins all other goroutines.
func ndWait(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
	all := func() bool {
		for _, o := range vm.gs {
			if o != g && !o.done {
				return false
			}
		}
		return true
	}
	if !all() {
		vm.block(g, "nd.Wait", all)
		return nil, aBlocked
	}
	for _, o := range vm.gs {
		g.vc.join(o.vc)
	}
	g.passed = false
	vm.raceOn = false
	vm.raceGen++
	vm.gs = vm.gs[:1]
	return nil, aDone
}

func (vm *VM) chanSend(g *Goro, c *ChanV, v Value) bool {
	if c == nil {
		vm.block(g, "send on nil channel", func() bool { return false })
		return true
	}
	if vm.point(g) {
		return true
	}
	if c.closed {
		g.passed = false
		panic(goPanic{rt: "send on closed channel"})
	}
	lim := c.cap
	if lim == 0 {
		lim = c.recvq
	}
	if len(c.buf) >= lim {
		vm.block(g, "channel send", func() bool { return c.closed || len(c.buf) < c.cap || c.cap == 0 && len(c.buf) < c.recvq })
		return true
	}
	g.passed = false
	c.buf = append(c.buf, copyVal(v))
	var vc vclock
	vm.release(g, &vc)
	c.vcs = append(c.vcs, vc)
	return false
}

func (vm *VM) chanRecv(g *Goro, c *ChanV) (v Value, ok, blocked bool) {
	if c == nil {
		vm.block(g, "receive from nil channel", func() bool { return false })
		return nil, false, true
	}
	if vm.point(g) {
		return nil, false, true
	}
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = c.buf[1:]
		g.vc.join(c.vcs[0])
		c.vcs = c.vcs[1:]
		g.passed = false
		if g.waiting == c {
			g.waiting = nil
			c.recvq--
		}
		return v, true, false
	}
	if c.closed {
		g.vc.join(c.cvc)
		g.passed = false
		if g.waiting == c {
			g.waiting = nil
			c.recvq--
		}
		return nil, false, false
	}
	if c.cap == 0 && g.waiting != c {
		g.waiting = c
		c.recvq++
	}
	vm.block(g, "channel receive", func() bool { return len(c.buf) > 0 || c.closed })
	return nil, false, true
}

func (vm *VM) chanClose(g *Goro, c *ChanV) {
	if c == nil {
		panic(goPanic{rt: "close of nil channel"})
	}
	if c.closed {
		panic(goPanic{rt: "close of closed channel"})
	}
	c.closed = true
	vm.release(g, &c.cvc)
}

// atomicSync orders an atomic operation on p with all others on p.
func (vm *VM) atomicSync(g *Goro, p *Value) bool {
	if p == nil {
		nilDeref()
	}
	if vm.point(g) {
		return true
	}
	g.passed = false
	if vm.raceOn {
		l := vm.lock(p)
		g.vc.join(l.vc)
		vm.release(g, &l.vc)
	}
	return false
}
