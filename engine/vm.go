package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"sync/atomic"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type act uint8

const (
	aDone    act = iota // value is the result
	aBlocked            // re-execute the call when rescheduled
	aPushed             // a frame was pushed that will deliver the result
	aInterp             // not handled: interpret the function's body
)

type callInfo struct {
	instr ssa.CallInstruction
	fr    *Frame
}

type intrinsic func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act)

type goPanic struct {
	val Iface
	rt  string // run-time error text
	tr  string // where it was raised
}

type deferred struct {
	fn   Value // *Closure
	args []Value
}

type Frame struct {
	fi      *fnInfo
	regs    []Value
	block   int
	prev    int
	pc      int
	defers  []deferred
	dst     int // slot of the caller receiving the result (-1: discard)
	pan     *goPanic
	recov   bool
	running bool   // unwinding defers because of a panic
	defOf   *Frame // frame whose deferred call this is
	onRet   func(v Value)
	lazy    bool // initialiser of a package outside the module
	called  bool // pc is past a call in progress
}

type Goro struct {
	id      int
	frames  []*Frame
	done    bool
	wait    func() bool // nil: runnable; else runnable when it returns true
	why     string
	vc      vclock
	passed  bool // the scheduling point before the current sync op was taken
	waiting *ChanV
}

type VM struct {
	p     *Program
	tb    *Table
	x     *explorer
	infos map[*ssa.Function]*fnInfo

	// per path
	globals  map[*ssa.Global]*Value
	initDone map[*ssa.Package]bool
	gs       []*Goro
	cur      *Goro
	steps    int64
	maxSteps int64
	inputs   []pathInput
	obs      []pathObs
	sched    []int
	nvar     int
	params   map[string]int64
	mapOrder int
	asserted bool
	locks    map[*Value]*lockState
	races    map[*Value]*raceMeta
	raceOn   bool
	raceGen  int32
	preempt  int
	ctxUsed  int
	reached  map[string]bool
	stop     *atomic.Bool
	uniqK    []uniqEnt
	decs     []decText
	noteCnt  map[string]int64
	notes    map[string]int64
	bigs     map[*Value]any
	errSeq   int
	stepLim  bool
	allow    bool
}

type pathInput struct {
	name string
	t    *Term // nil: concrete choice
	v    uint64
}
type pathObs struct {
	name string
	t    *Term
}

type uniqEnt struct {
	t types.Type
	v Value
	p *Value
}

// vmStop ends the path with a verdict.
type vmStop struct{ v *Violation }

func (vm *VM) branch(c *Term) bool { return vm.x.branch(c, 0) }

func (vm *VM) reset() {
	vm.globals = map[*ssa.Global]*Value{}
	vm.initDone = map[*ssa.Package]bool{}
	vm.gs = nil
	vm.steps = 0
	vm.inputs = vm.inputs[:0]
	vm.obs = vm.obs[:0]
	vm.sched = vm.sched[:0]
	vm.nvar = 0
	vm.mapOrder = int(vm.params["maporder"])
	vm.locks = map[*Value]*lockState{}
	vm.races = map[*Value]*raceMeta{}
	vm.raceOn = false
	vm.ctxUsed = 0
	vm.uniqK = nil
	vm.decs = nil
	vm.errSeq = 0
	vm.raceGen++
	vm.preempt = -1
	if p, ok := vm.params["preempt"]; ok {
		vm.preempt = int(p)
	}
	vm.stepLim = false
}

func (vm *VM) global(g *ssa.Global) *Value {
	if p, ok := vm.globals[g]; ok {
		return p
	}
	v := vm.zero(g.Type().Underlying().(*types.Pointer).Elem())
	p := new(Value)
	*p = v
	vm.globals[g] = p
	return p
}

func (vm *VM) newFrame(fn *ssa.Function, args []Value, env []Value, dst int) *Frame {
	fi := vm.info(fn)
	fi.count++
	if len(args) != fi.nparam {
		panic(fmt.Sprintf("call of %s with %d args, want %d", fn, len(args), fi.nparam))
	}
	fr := &Frame{fi: fi, regs: make([]Value, fi.nslots), dst: dst}
	copy(fr.regs, args)
	copy(fr.regs[fi.nparam:], env)
	return fr
}

func (vm *VM) op(fr *Frame, o *opnd) Value {
	switch o.k {
	case oSlot:
		return fr.regs[o.idx]
	case oConst:
		if u, ok := o.v.(unsupported); ok {
			panic(u)
		}
		switch v := o.v.(type) {
		case *StructV, *ArrayV:
			return copyVal(v)
		}
		return o.v
	case oGlobal:
		return vm.global(o.g)
	}
	return o.v
}

// RunMain executes fn to the end on goroutine 0 under the scheduler.
func (vm *VM) RunMain(fn *ssa.Function) {
	g := &Goro{id: 0}
	vm.gs = []*Goro{g}
	g.vc = vclock{1}
	vm.cur = g
	g.frames = []*Frame{vm.newFrame(fn, nil, nil, -1)}
	// package initialisers of the module, in dependency order: the first on top
	for i := len(vm.p.inits) - 1; i >= 0; i-- {
		vm.ensureInit(g, vm.p.inits[i])
	}
	vm.loop()
}

// ensureInit pushes the initialiser frame of a package if it has not run. It
// reports whether a frame was pushed.
func (vm *VM) ensureInit(g *Goro, p *ssa.Package) bool {
	if vm.initDone[p] {
		return false
	}
	vm.initDone[p] = true
	ini := p.Func("init")
	if ini == nil || ini.Blocks == nil {
		return false
	}
	fr := vm.newFrame(ini, nil, nil, -1)
	fr.lazy = !vm.p.isMod(p.Pkg.Path())
	g.frames = append(g.frames, fr)
	return true
}

func (vm *VM) loop() {
	g := vm.gs[0]
	for {
		if g.done || g.wait != nil {
			if vm.gs[0].done {
				return // main finished
			}
			g = vm.schedule(g)
			vm.cur = g
		}
		vm.runSlice(g)
		if vm.cur != g {
			g = vm.cur
		}
	}
}

// runSlice executes g until it ends, blocks or another goroutine is chosen.
func (vm *VM) runSlice(g *Goro) {
	for !g.done && g.wait == nil && vm.cur == g {
		fr := g.frames[len(g.frames)-1]
		vm.steps++
		if vm.steps > vm.maxSteps {
			vm.stepLim = true
			panic(pathAbort{"steps"})
		}
		vm.stepSafe(g, fr)
	}
}

func (vm *VM) stepSafe(g *Goro, fr *Frame) {
	defer func() {
		if r := recover(); r != nil {
			if p, ok := r.(goPanic); ok {
				if p.tr == "" {
					p.tr = vm.stack(g)
				}
				top := g.frames[len(g.frames)-1]
				top.pan = &p
				top.recov = false
				top.running = true
				return
			}
			if u, ok := r.(unsupported); ok && vm.poison(g, u) {
				return
			}
			panic(r)
		}
	}()
	if fr.running {
		vm.unwind(g, fr)
		return
	}
	if vm.stop.Load() {
		panic(stopped{})
	}
	// run a burst within one recover scope
	for i := 0; i < 2000; i++ {
		if !vm.step(g, fr) {
			return
		}
		if len(g.frames) == 0 || g.done || g.wait != nil || vm.cur != g {
			return
		}
		fr = g.frames[len(g.frames)-1]
		if fr.running {
			return
		}
		vm.steps++
		if vm.steps > vm.maxSteps {
			vm.stepLim = true
			panic(pathAbort{"steps"})
		}
	}
}

// poison lets the initialiser of a package outside the module continue past
// something the engine cannot execute: the value it computes becomes unusable.
func (vm *VM) poison(g *Goro, u unsupported) bool {
	for i := len(g.frames) - 1; i >= 0; i-- {
		fr := g.frames[i]
		if !fr.lazy {
			continue
		}
		g.frames = g.frames[:i+1]
		// pc of a frame that has called is already past the call
		ins := fr.fi.blocks[fr.block].ins
		c := &ins[fr.pc]
		if fr.called {
			c = &ins[fr.pc-1]
		} else {
			fr.pc++
		}
		if c.dst >= 0 {
			fr.regs[c.dst] = u
		}
		fr.called = false
		return true
	}
	return false
}

func (vm *VM) stack(g *Goro) string {
	var sb strings.Builder
	for i := len(g.frames) - 1; i >= 0 && i > len(g.frames)-14; i-- {
		f := g.frames[i]
		pos := ""
		if f.block < len(f.fi.blocks) && f.pc < len(f.fi.blocks[f.block].ins) {
			in := f.fi.blocks[f.block].ins[f.pc].in
			if in.Pos() != token.NoPos {
				pp := vm.p.prog.Fset.Position(in.Pos())
				pos = fmt.Sprintf(" %s:%d", pp.Filename, pp.Line)
			}
		}
		fmt.Fprintf(&sb, "%s%s\n", f.fi.fn.String(), pos)
	}
	return sb.String()
}

// unwind runs the deferred calls of a panicking frame, then continues.
func (vm *VM) unwind(g *Goro, fr *Frame) {
	if fr.recov {
		// the panic was recovered; remaining defers run, then the function
		// returns normally through its recover block
		if n := len(fr.defers); n > 0 {
			vm.runDefer(g, fr)
			return
		}
		fr.running = false
		fr.pan = nil
		fr.recov = false
		if rb := fr.fi.fn.Recover; rb != nil {
			fr.prev = fr.block
			fr.block = rb.Index
			fr.pc = 0
			return
		}
		vm.ret(g, fr, vm.zeroResults(fr.fi.fn))
		return
	}
	if len(fr.defers) > 0 {
		vm.runDefer(g, fr)
		return
	}
	// propagate
	p := fr.pan
	g.frames = g.frames[:len(g.frames)-1]
	if len(g.frames) == 0 {
		vm.uncaught(g, p)
		return
	}
	up := g.frames[len(g.frames)-1]
	up.pan = p
	up.recov = false
	up.running = true
}

func (vm *VM) zeroResults(fn *ssa.Function) Value {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return vm.zero(rs.At(0).Type())
	}
	return vm.zero(rs)
}

func (vm *VM) runDefer(g *Goro, fr *Frame) {
	d := fr.defers[len(fr.defers)-1]
	n := len(g.frames)
	_, a := vm.invoke(g, d.fn, d.args, -1, nil)
	if a == aBlocked {
		return
	}
	fr.defers = fr.defers[:len(fr.defers)-1]
	if a == aPushed && len(g.frames) > n {
		g.frames[len(g.frames)-1].defOf = fr
	}
}

func (vm *VM) panicText(p *goPanic) string {
	if p.rt != "" {
		return p.rt
	}
	if p.val.t == nil {
		return "nil"
	}
	switch v := p.val.v.(type) {
	case string:
		return v
	case *Term:
		if v.isConst() {
			return fmt.Sprint(v.val)
		}
	case *Value:
		if v != nil {
			if s, ok := (*v).(*StructV); ok && len(s.f) > 0 {
				if t, ok := s.f[0].(string); ok {
					return p.val.t.String() + ": " + t
				}
			}
		}
	}
	return p.val.t.String()
}

func (vm *VM) uncaught(g *Goro, p *goPanic) {
	vm.fail("panic", "panic: "+vm.panicText(p), p.tr, vm.x.model)
}

func (vm *VM) fail(kind, msg, stack string, m Model) {
	if len(vm.decs) > 0 && kind != "assert" {
		r, m2 := vm.refine(vm.tb.T, m)
		if r != Sat {
			panic(pathAbort{"text"})
		}
		m = m2
	}
	v := &Violation{Kind: kind, Msg: msg, Model: m, Stack: stack, Sched: append([]int{}, vm.sched...)}
	for _, in := range vm.inputs {
		if in.t == nil {
			v.Inputs = append(v.Inputs, InputVal{in.name, in.v})
		} else {
			v.Inputs = append(v.Inputs, InputVal{in.name, vm.tb.Eval(in.t, m)})
		}
	}
	panic(vmStop{v})
}

// invoke calls a function value. With aPushed the callee's frame delivers its
// result into slot dst of the frame that is on top now.
func (vm *VM) invoke(g *Goro, f Value, args []Value, dst int, ci *callInfo) (Value, act) {
	cl, ok := f.(*Closure)
	if !ok {
		unsup("call of %T", f)
	}
	if cl == nil {
		panic(goPanic{rt: "runtime error: invalid memory address or nil pointer dereference (nil func)"})
	}
	if cl.b != nil {
		return vm.builtin(g, cl.b, args, ci), aDone
	}
	fi := vm.info(cl.fn)
	if fi.intr != nil {
		v, a := fi.intr(vm, g, args, ci)
		if a != aInterp {
			fi.count++
			return v, a
		}
		if len(fi.blocks) == 0 {
			unsup("function without Go body: %s", fi.name)
		}
	}
	fn := cl.fn
	if fi.model != nil {
		fn = fi.model
	}
	if p := fn.Pkg; p != nil && fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Parent() == nil && p.Func("init") == fn {
		// initialisers of imported packages run lazily
		return nil, aDone
	}
	fr := vm.newFrame(fn, args, cl.env, dst)
	if len(g.frames) > 4000 {
		panic(goPanic{rt: "stack overflow (more than 4000 frames)"})
	}
	g.frames = append(g.frames, fr)
	return nil, aPushed
}

func (vm *VM) ret(g *Goro, fr *Frame, v Value) {
	g.frames = g.frames[:len(g.frames)-1]
	if fr.onRet != nil {
		fr.onRet(v)
	}
	if len(g.frames) == 0 {
		g.done = true
		vm.goroEnd(g)
		return
	}
	up := g.frames[len(g.frames)-1]
	up.called = false
	if fr.dst >= 0 {
		up.regs[fr.dst] = v
	}
}

func (vm *VM) jump(fr *Frame, from int, to int) {
	fr.prev = from
	fr.block = to
	fr.pc = 0
	cb := &fr.fi.blocks[to]
	if len(cb.phis) == 0 {
		return
	}
	// position of from among the predecessors
	preds := fr.fi.fn.Blocks[to].Preds
	pi := -1
	for i, p := range preds {
		if p.Index == from {
			pi = i
			break
		}
	}
	var tmp [8]Value
	vals := tmp[:0]
	for i := range cb.phis {
		vals = append(vals, vm.op(fr, &cb.phiOp[i][pi]))
	}
	for i, v := range vals {
		fr.regs[cb.phiD[i]] = v
	}
}

func nilDeref() {
	panic(goPanic{rt: "runtime error: invalid memory address or nil pointer dereference"})
}

func (vm *VM) load(p Value) Value {
	switch p := p.(type) {
	case *Value:
		if p == nil {
			nilDeref()
		}
		if vm.raceOn {
			vm.raceCell(p, false)
		}
		return copyVal(*p)
	case *SymPtr:
		if vm.raceOn {
			for i := range p.base {
				vm.raceCell(&p.base[i], false)
			}
		}
		return vm.symLoad(p)
	}
	unsup("load through %T", p)
	return nil
}

func (vm *VM) symLoad(p *SymPtr) Value {
	tb := vm.tb
	n := len(p.base)
	lo, hi := int(min(p.idx.lo, uint64(n-1))), int(min(p.idx.hi, uint64(n-1)))
	// table of left masks: base[i] == ^(allones >> i)
	if n > 4 {
		e0, ok := p.base[0].(*Term)
		if ok && e0.w > 1 {
			isL, isLo := true, true
			for i := lo; i <= hi; i++ {
				e := p.base[i].(*Term)
				if !e.isConst() {
					isL, isLo = false, false
					break
				}
				var sh uint64
				if i < 64 {
					sh = mask(e.w) >> uint(i)
				}
				if e.val != ^sh&mask(e.w) {
					isL = false
				}
				if e.val != sh {
					isLo = false
				}
			}
			if isL || isLo {
				w := e0.w
				ix := p.idx
				if ix.w > w {
					ix = tb.Extract(ix, w)
				} else {
					ix = tb.ZExt(ix, w)
				}
				// indices <= n-1 <= 2^w - 1 for every table of this shape
				if uint64(n-1) <= mask(w) {
					s := tb.Bin(OpLShr, tb.Const(w, mask(w)), ix)
					if isL {
						return tb.BNot(s)
					}
					return s
				}
			}
		}
	}
	r := p.base[hi].(*Term)
	for i := hi - 1; i >= lo; i-- {
		r = tb.Ite(tb.Eq(p.idx, tb.Const(p.idx.w, uint64(i))), p.base[i].(*Term), r)
	}
	return r
}

func (vm *VM) store(p Value, v Value) {
	switch p := p.(type) {
	case *Value:
		if p == nil {
			nilDeref()
		}
		if vm.raceOn {
			vm.raceCell(p, true)
		}
		storeInto(p, v)
	case *SymPtr:
		t := v.(*Term)
		for i := range p.base {
			if vm.raceOn {
				vm.raceCell(&p.base[i], true)
			}
			p.base[i] = vm.tb.Ite(vm.tb.Eq(p.idx, vm.tb.Const(p.idx.w, uint64(i))), t, p.base[i].(*Term))
		}
	default:
		unsup("store through %T", p)
	}
}

// index64 widens an index operand to 64 bits according to its type.
func (vm *VM) index64(v Value, t types.Type) *Term {
	x := v.(*Term)
	_, signed, _ := intWidth(t)
	if x.w == 64 {
		return x
	}
	if signed {
		return vm.tb.SExt(x, 64)
	}
	return vm.tb.ZExt(x, 64)
}

// bounds checks 0 <= i < n.
func (vm *VM) bounds(i *Term, n int) {
	if !vm.branch(vm.tb.Cmp(OpUlt, i, vm.tb.Const(64, uint64(n)))) {
		s := "?"
		if i.isConst() {
			s = fmt.Sprint(int64(i.val))
		}
		panic(goPanic{rt: fmt.Sprintf("runtime error: index out of range [%s] with length %d", s, n)})
	}
}

func (vm *VM) elemAddr(base []Value, i *Term, elem types.Type) Value {
	vm.bounds(i, len(base))
	if i.isConst() {
		return &base[i.val]
	}
	if isScalar(elem) && len(base) <= 1024 {
		return &SymPtr{base: base, idx: i}
	}
	return &base[vm.x.concretize(i)]
}

// step executes one instruction; false asks the caller to re-examine the goroutine.
func (vm *VM) step(g *Goro, fr *Frame) bool {
	c := &fr.fi.blocks[fr.block].ins[fr.pc]
	for _, gl := range c.glob {
		if !vm.initDone[gl.Pkg] {
			if vm.ensureInit(g, gl.Pkg) {
				return false
			}
		}
	}
	tb := vm.tb
	switch in := c.in.(type) {
	case *ssa.BinOp:
		fr.regs[c.dst] = vm.binop(c.aux.(*binAux), vm.op(fr, &c.ops[0]), vm.op(fr, &c.ops[1]), in)
	case *ssa.UnOp:
		x := vm.op(fr, &c.ops[0])
		switch in.Op {
		case token.MUL:
			fr.regs[c.dst] = vm.load(x)
		case token.NOT:
			fr.regs[c.dst] = tb.Not(x.(*Term))
		case token.SUB:
			switch x := x.(type) {
			case *Term:
				fr.regs[c.dst] = tb.Neg(x)
			case float64:
				fr.regs[c.dst] = -x
			default:
				unsup("negation of %T", x)
			}
		case token.XOR:
			fr.regs[c.dst] = tb.BNot(x.(*Term))
		case token.ARROW:
			v, ok, blocked := vm.chanRecv(g, x.(*ChanV))
			if blocked {
				return false
			}
			if in.CommaOk {
				fr.regs[c.dst] = Tuple{vm.orZero(v, in.X.Type().Underlying().(*types.Chan).Elem()), tb.Bool(ok)}
			} else {
				fr.regs[c.dst] = vm.orZero(v, in.X.Type().Underlying().(*types.Chan).Elem())
			}
		default:
			unsup("unary %s", in.Op)
		}
	case *ssa.Call:
		return vm.doCall(g, fr, c, in)
	case *ssa.If:
		cond := vm.op(fr, &c.ops[0]).(*Term)
		b := fr.fi.fn.Blocks[fr.block]
		if vm.branch(cond) {
			vm.jump(fr, fr.block, b.Succs[0].Index)
		} else {
			vm.jump(fr, fr.block, b.Succs[1].Index)
		}
		return true
	case *ssa.Jump:
		vm.jump(fr, fr.block, fr.fi.fn.Blocks[fr.block].Succs[0].Index)
		return true
	case *ssa.Return:
		var v Value
		switch len(c.ops) {
		case 0:
		case 1:
			v = vm.op(fr, &c.ops[0])
		default:
			t := make(Tuple, len(c.ops))
			for i := range c.ops {
				t[i] = vm.op(fr, &c.ops[i])
			}
			v = t
		}
		vm.ret(g, fr, v)
		return true
	case *ssa.RunDefers:
		if len(fr.defers) > 0 {
			vm.runDefer(g, fr)
			return true
		}
	case *ssa.Panic:
		panic(goPanic{val: vm.op(fr, &c.ops[0]).(Iface), tr: vm.stack(g)})
	case *ssa.Store:
		vm.store(vm.op(fr, &c.ops[0]), vm.op(fr, &c.ops[1]))
	case *ssa.Alloc:
		p := new(Value)
		*p = vm.zero(c.aux.(types.Type))
		fr.regs[c.dst] = p
	case *ssa.FieldAddr:
		switch p := vm.op(fr, &c.ops[0]).(type) {
		case *Value:
			if p == nil {
				nilDeref()
			}
			s, ok := (*p).(*StructV)
			if !ok {
				unsup("field address in %T", *p)
			}
			fr.regs[c.dst] = &s.f[in.Field]
		default:
			unsup("field address through %T", p)
		}
	case *ssa.Field:
		fr.regs[c.dst] = vm.op(fr, &c.ops[0]).(*StructV).f[in.Field]
	case *ssa.IndexAddr:
		x := vm.op(fr, &c.ops[0])
		i := vm.index64(vm.op(fr, &c.ops[1]), in.Index.Type())
		switch x := x.(type) {
		case SliceV:
			fr.regs[c.dst] = vm.elemAddr(x.a, i, in.Type().Underlying().(*types.Pointer).Elem())
		case *Value:
			if x == nil {
				nilDeref()
			}
			fr.regs[c.dst] = vm.elemAddr((*x).(*ArrayV).e, i, in.Type().Underlying().(*types.Pointer).Elem())
		default:
			unsup("index address of %T", x)
		}
	case *ssa.Index:
		x := vm.op(fr, &c.ops[0])
		i := vm.index64(vm.op(fr, &c.ops[1]), in.Index.Type())
		switch x := x.(type) {
		case *ArrayV:
			fr.regs[c.dst] = vm.load(vm.elemAddr(x.e, i, in.Type()))
		default:
			fr.regs[c.dst] = vm.strIndex(x, i)
		}
	case *ssa.Lookup:
		x := vm.op(fr, &c.ops[0])
		if m, ok := x.(*MapV); ok {
			if vm.raceOn && m != nil {
				vm.raceAccess(&m.race, false, "map")
			}
			k := vm.op(fr, &c.ops[1])
			e := vm.mapFind(m, k)
			var v Value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = vm.zero(in.X.Type().Underlying().(*types.Map).Elem())
			}
			if in.CommaOk {
				fr.regs[c.dst] = Tuple{v, tb.Bool(e != nil)}
			} else {
				fr.regs[c.dst] = v
			}
		} else {
			fr.regs[c.dst] = vm.strIndex(x, vm.index64(vm.op(fr, &c.ops[1]), in.Index.Type()))
		}
	case *ssa.MapUpdate:
		m := vm.op(fr, &c.ops[0]).(*MapV)
		if vm.raceOn && m != nil {
			vm.raceAccess(&m.race, true, "map")
		}
		vm.mapSet(m, vm.op(fr, &c.ops[1]), vm.op(fr, &c.ops[2]))
	case *ssa.Extract:
		fr.regs[c.dst] = vm.op(fr, &c.ops[0]).(Tuple)[in.Index]
	case *ssa.MakeInterface:
		x := vm.op(fr, &c.ops[0])
		fr.regs[c.dst] = Iface{t: c.aux.(types.Type), v: copyVal(x)}
	case *ssa.ChangeInterface, *ssa.ChangeType:
		fr.regs[c.dst] = vm.op(fr, &c.ops[0])
	case *ssa.Convert:
		fr.regs[c.dst] = vm.convert(vm.op(fr, &c.ops[0]), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		fr.regs[c.dst] = vm.convert(vm.op(fr, &c.ops[0]), in.X.Type(), in.Type())
	case *ssa.TypeAssert:
		fr.regs[c.dst] = vm.typeAssert(in, vm.op(fr, &c.ops[0]).(Iface))
	case *ssa.MakeClosure:
		cl := &Closure{fn: in.Fn.(*ssa.Function)}
		for i := 1; i < len(c.ops); i++ {
			cl.env = append(cl.env, vm.op(fr, &c.ops[i]))
		}
		fr.regs[c.dst] = cl
	case *ssa.MakeSlice:
		ln := vm.makeLen(vm.op(fr, &c.ops[0]), in.Len.Type(), "len")
		cp := vm.makeLen(vm.op(fr, &c.ops[1]), in.Cap.Type(), "cap")
		if ln > cp {
			panic(goPanic{rt: "runtime error: makeslice: cap out of range"})
		}
		a := make([]Value, cp)
		et := c.aux.(types.Type)
		if isScalar(et) {
			z := vm.zero(et)
			for i := range a {
				a[i] = z
			}
		} else {
			for i := range a {
				a[i] = vm.zero(et)
			}
		}
		fr.regs[c.dst] = SliceV{a: a[:ln]}
	case *ssa.MakeMap:
		fr.regs[c.dst] = newMap()
	case *ssa.MakeChan:
		n := vm.makeLen(vm.op(fr, &c.ops[0]), in.Size.Type(), "chan")
		fr.regs[c.dst] = &ChanV{cap: n}
	case *ssa.Slice:
		fr.regs[c.dst] = vm.slice(in, fr, c)
	case *ssa.SliceToArrayPointer:
		s := vm.op(fr, &c.ops[0]).(SliceV)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s.a) < n {
			panic(goPanic{rt: "runtime error: cannot convert slice to array pointer: length too short"})
		}
		if s.isNil {
			fr.regs[c.dst] = (*Value)(nil)
		} else {
			p := new(Value)
			*p = &ArrayV{e: s.a[:n:n]}
			fr.regs[c.dst] = p
		}
	case *ssa.Range:
		x := vm.op(fr, &c.ops[0])
		switch x := x.(type) {
		case *MapV:
			it := &mapIter{m: x}
			mt := in.X.Type().Underlying().(*types.Map)
			it.kt, it.vt = mt.Key(), mt.Elem()
			if x != nil {
				if vm.raceOn {
					vm.raceAccess(&x.race, false, "map")
				}
				it.ents = append(it.ents, x.ents...)
				if len(it.ents) > 1 {
					switch vm.mapOrder {
					case 1:
						it.reverse = vm.x.choice(2) == 1
					case 2:
						it.perm = true
					}
				}
			}
			fr.regs[c.dst] = it
		default:
			fr.regs[c.dst] = &strIter{s: x}
		}
	case *ssa.Next:
		fr.regs[c.dst] = vm.next(in, vm.op(fr, &c.ops[0]))
	case *ssa.Defer:
		f, args := vm.callee(fr, c, &in.Call)
		fr.pc++
		tgt := fr
		if in.DeferStack != nil {
			tgt = vm.op(fr, &c.ops[len(c.ops)-1]).(*Frame)
		}
		tgt.defers = append(tgt.defers, deferred{f, args})
		return true
	case *ssa.Go:
		f, args := vm.callee(fr, c, &in.Call)
		fr.pc++
		vm.spawn(g, f, args)
		return true
	case *ssa.Send:
		if vm.chanSend(g, vm.op(fr, &c.ops[0]).(*ChanV), vm.op(fr, &c.ops[1])) {
			return false
		}
	case *ssa.Select:
		unsup("select statement")
	default:
		unsup("instruction %T", in)
	}
	fr.pc++
	return true
}

func (vm *VM) orZero(v Value, t types.Type) Value {
	if v == nil {
		return vm.zero(t)
	}
	return v
}

func (vm *VM) makeLen(v Value, t types.Type, what string) int {
	n := vm.index64(v, t)
	if !n.isConst() {
		if !vm.branch(vm.tb.Cmp(OpUlt, n, vm.tb.Const(64, 1<<16))) {
			// negative or huge
			if vm.branch(vm.tb.Cmp(OpSlt, n, vm.tb.Const(64, 0))) {
				panic(goPanic{rt: "runtime error: makeslice: " + what + " out of range"})
			}
			unsup("make with a symbolic size of 2^16 or more")
		}
		return int(vm.x.concretize(n))
	}
	if int64(n.val) < 0 || n.val > 1<<40 {
		panic(goPanic{rt: "runtime error: makeslice: " + what + " out of range"})
	}
	if n.val > 1<<22 {
		unsup("make of %d elements", n.val)
	}
	return int(n.val)
}

func (vm *VM) strIndex(x Value, i *Term) Value {
	b := vm.strBytes(x)
	vm.bounds(i, len(b))
	if i.isConst() {
		return b[i.val]
	}
	vals := make([]Value, len(b))
	for j := range b {
		vals[j] = b[j]
	}
	return vm.symLoad(&SymPtr{base: vals, idx: i})
}

func (vm *VM) callee(fr *Frame, c *cins, cc *ssa.CallCommon) (Value, []Value) {
	// operand order of CallCommon.Operands: Value, Args...
	if cc.IsInvoke() {
		recv, ok := vm.op(fr, &c.ops[0]).(Iface)
		if !ok {
			unsup("invoke on %T", vm.op(fr, &c.ops[0]))
		}
		if recv.t == nil {
			nilDeref()
		}
		fn := vm.method(recv.t, cc.Method)
		args := make([]Value, 0, len(c.ops))
		args = append(args, copyVal(recv.v))
		for i := 1; i <= len(cc.Args); i++ {
			args = append(args, vm.op(fr, &c.ops[i]))
		}
		return &Closure{fn: fn}, args
	}
	args := make([]Value, 0, len(c.ops))
	for i := 1; i <= len(cc.Args); i++ {
		args = append(args, vm.op(fr, &c.ops[i]))
	}
	return vm.op(fr, &c.ops[0]), args
}

type mkey struct {
	t types.Type
	m *types.Func
}

func (vm *VM) method(t types.Type, m *types.Func) *ssa.Function {
	k := mkey{t, m}
	if f, ok := vm.p.msCache.Load(k); ok {
		return f.(*ssa.Function)
	}
	sel := vm.p.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		unsup("no method %s on %s", m.Name(), t)
	}
	f := vm.p.prog.MethodValue(sel)
	vm.p.msCache.Store(k, f)
	return f
}

func (vm *VM) doCall(g *Goro, fr *Frame, c *cins, in *ssa.Call) bool {
	f, args := vm.callee(fr, c, &in.Call)
	ci := &callInfo{instr: in, fr: fr}
	v, a := vm.invoke(g, f, args, c.dst, ci)
	switch a {
	case aBlocked:
		return false
	case aPushed:
		fr.pc++
		fr.called = true
		return true
	}
	fr.regs[c.dst] = v
	fr.pc++
	return true
}

func (vm *VM) typeAssert(in *ssa.TypeAssert, x Iface) Value {
	ok := false
	var v Value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if x.t != nil && vm.implements(x.t, it) {
			ok, v = true, x
		}
	} else if x.t != nil && types.Identical(x.t, in.AssertedType) {
		ok, v = true, copyVal(x.v)
	}
	if in.CommaOk {
		if !ok {
			v = vm.zero(in.AssertedType)
		}
		return Tuple{v, vm.tb.Bool(ok)}
	}
	if !ok {
		d := "nil"
		if x.t != nil {
			d = x.t.String()
		}
		panic(goPanic{rt: fmt.Sprintf("interface conversion: interface is %s, not %s", d, in.AssertedType)})
	}
	return v
}

type ikey struct {
	t types.Type
	i *types.Interface
}

var implCache = newSyncMap()

func (vm *VM) implements(t types.Type, it *types.Interface) bool {
	k := ikey{t, it}
	if r, ok := implCache.Load(k); ok {
		return r.(bool)
	}
	r := types.Implements(t, it)
	implCache.Store(k, r)
	return r
}

func (vm *VM) next(in *ssa.Next, x Value) Value {
	tb := vm.tb
	switch it := x.(type) {
	case *mapIter:
		if it.m != nil && vm.raceOn {
			vm.raceAccess(&it.m.race, false, "map")
		}
	scan:
		for len(it.ents) > 0 {
			i := 0
			if it.reverse {
				i = len(it.ents) - 1
			} else if it.perm {
				// choose among the live remaining entries
				var live []int
				for j, e := range it.ents {
					if e.alive {
						live = append(live, j)
					}
				}
				if len(live) == 0 {
					break scan
				}
				i = live[vm.x.choice(len(live))]
			}
			e := it.ents[i]
			it.ents = append(append([]*mapEntry{}, it.ents[:i]...), it.ents[i+1:]...)
			if !e.alive {
				continue
			}
			return Tuple{tb.T, copyVal(e.k), copyVal(e.v)}
		}
		var kz, vz Value
		kz, vz = vm.zero(it.kt), vm.zero(it.vt)
		return Tuple{tb.F, kz, vz}
	case *strIter:
		switch s := it.s.(type) {
		case string:
			if it.i >= len(s) {
				return Tuple{tb.F, tb.Const(64, 0), tb.Const(32, 0)}
			}
			r, n := utf8.DecodeRuneInString(s[it.i:])
			i := it.i
			it.i += n
			return Tuple{tb.T, tb.Const(64, uint64(i)), tb.Const(32, uint64(uint32(r)))}
		case *SymStr:
			if it.i >= len(s.b) {
				return Tuple{tb.F, tb.Const(64, 0), tb.Const(32, 0)}
			}
			i := it.i
			r, n := vm.decodeRune(s.b[i:])
			it.i += n
			return Tuple{tb.T, tb.Const(64, uint64(i)), r}
		}
	}
	unsup("range over %T", x)
	return nil
}

// decodeRune decodes the first rune of a text of symbolic bytes as the language
// does, deciding the shape of its encoding.
func (vm *VM) decodeRune(b []*Term) (*Term, int) {
	tb := vm.tb
	in := func(t *Term, lo, hi uint64) bool {
		if lo > 0 && !vm.branch(tb.Cmp(OpUle, tb.Const(8, lo), t)) {
			return false
		}
		return hi == 255 || vm.branch(tb.Cmp(OpUle, t, tb.Const(8, hi)))
	}
	if in(b[0], 0, 0x7f) {
		return tb.ZExt(b[0], 32), 1
	}
	bad := tb.Const(32, 0xfffd)
	if !in(b[0], 0xc2, 0xf4) {
		return bad, 1
	}
	bits := func(t *Term, m uint64, sh int) *Term {
		x := tb.Bin(OpAnd, tb.ZExt(t, 32), tb.Const(32, m))
		return tb.Bin(OpShl, x, tb.Const(32, uint64(sh)))
	}
	n, lo, hi := 2, uint64(0x80), uint64(0xbf)
	if in(b[0], 0xe0, 0xf4) {
		n = 3
		if in(b[0], 0xf0, 0xf4) {
			n = 4
		}
		is := func(v uint64) bool { return vm.branch(tb.Eq(b[0], tb.Const(8, v))) }
		switch {
		case n == 3 && is(0xe0):
			lo = 0xa0
		case n == 3 && is(0xed):
			hi = 0x9f
		case n == 4 && is(0xf0):
			lo = 0x90
		case n == 4 && is(0xf4):
			hi = 0x8f
		}
	}
	if len(b) < n || !in(b[1], lo, hi) {
		return bad, 1
	}
	for _, c := range b[2:n] {
		if !in(c, 0x80, 0xbf) {
			return bad, 1
		}
	}
	r := bits(b[0], [5]uint64{0, 0, 0x1f, 0x0f, 0x07}[n], 6*(n-1))
	for i, c := range b[1:n] {
		r = tb.Bin(OpOr, r, bits(c, 0x3f, 6*(n-2-i)))
	}
	return r, n
}

func (vm *VM) slice(in *ssa.Slice, fr *Frame, c *cins) Value {
	// operands: X, Low, High, Max (nil operands are kept as constants)
	ops := map[ssa.Value]Value{}
	_ = ops
	get := func(v ssa.Value, i int) *Term {
		if v == nil {
			return nil
		}
		return vm.index64(vm.op(fr, &c.ops[i]), v.Type())
	}
	x := vm.op(fr, &c.ops[0])
	i := 1
	var lo, hi, mx *Term
	// Operands() always lists all four
	lo = get(in.Low, i)
	hi = get(in.High, i+1)
	mx = get(in.Max, i+2)
	conc := func(t *Term, def int, limit int) int {
		if t == nil {
			return def
		}
		if !vm.branch(vm.tb.Cmp(OpUle, t, vm.tb.Const(64, uint64(limit)))) {
			s := "?"
			if t.isConst() {
				s = fmt.Sprint(int64(t.val))
			}
			panic(goPanic{rt: fmt.Sprintf("runtime error: slice bounds out of range [%s] with limit %d", s, limit)})
		}
		return int(vm.x.concretize(t))
	}
	switch x := x.(type) {
	case string, *SymStr, *TagStr:
		if t, ok := x.(*TagStr); ok {
			if lo == nil && hi == nil {
				return t
			}
		}
		b := vm.strBytes(x)
		h := conc(hi, len(b), len(b))
		l := conc(lo, 0, h)
		if s, ok := x.(string); ok {
			return s[l:h]
		}
		return mkStr(b[l:h])
	case SliceV:
		m := conc(mx, cap(x.a), cap(x.a))
		h := conc(hi, len(x.a), m)
		l := conc(lo, 0, h)
		if x.isNil {
			return x
		}
		return SliceV{a: x.a[l:h:m]}
	case *Value:
		if x == nil {
			nilDeref()
		}
		a := (*x).(*ArrayV).e
		m := conc(mx, len(a), len(a))
		h := conc(hi, len(a), m)
		l := conc(lo, 0, h)
		return SliceV{a: a[l:h:m]}
	}
	unsup("slice of %T", x)
	return nil
}
