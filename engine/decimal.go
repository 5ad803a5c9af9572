package main

// The base-10 text of a symbolic number: its digits are variables tied to the
// number. strconv's printing functions use it; its parsing functions are
// interpreted, or (parameter dec) recognise the text of a number.

import (
	"fmt"
	"maps"
)

type decText struct {
	v   *Term
	b   []*Term
	tie *Term // the digits make up the number; asserted unless dec is set
	pad bool
}

// With dec, most paths never look at digits: they stay free (which only adds
// behaviours), and are tied to the number when a violation shows up.

// ties is what the free digits still have to satisfy.
func (vm *VM) ties() *Term {
	r := vm.tb.T
	for _, d := range vm.decs {
		r = vm.tb.And(r, d.tie)
	}
	return r
}

// refine looks for a model of the path, c and the ties.
func (vm *VM) refine(c *Term, m Model) (SatRes, Model) {
	t := vm.ties()
	if t == vm.tb.T || vm.tb.Eval(t, m) == 1 {
		return Sat, m
	}
	r, m2 := vm.x.sat(vm.tb.And(t, c))
	if r == Unknown {
		vm.x.st.Unknown++
	}
	return r, m2
}

var pow10 = func() (p [20]uint64) {
	p[0] = 1
	for i := 1; i < 20; i++ {
		p[i] = p[i-1] * 10
	}
	return
}()

// decimal returns the text of v, splitting the path on the number of digits,
// or (pad) with zeros before it, 20 digits long.
func (vm *VM) decimal(v *Term, pad bool) Value {
	tb := vm.tb
	if v.w < 64 {
		v = tb.ZExt(v, 64)
	}
	for _, d := range vm.decs {
		if d.v == v && d.pad == pad {
			return mkStr(d.b)
		}
	}
	n := 1
	if pad {
		n = 20
	}
	for n < 20 && vm.branch(tb.Cmp(OpUle, tb.Const(64, pow10[n]), v)) {
		n++
	}
	ds := make([]*Term, n)
	for i := range ds {
		vm.nvar++
		ds[i] = tb.Var("dec."+itoa(vm.nvar), 4)
	}
	if !vm.x.inPrefix() {
		m := maps.Clone(vm.x.model)
		if m == nil {
			m = Model{}
		}
		u := tb.Eval(v, vm.x.model)
		for i := n - 1; i >= 0; i-- {
			m[ds[i].name] = u % 10
			u /= 10
		}
		vm.x.model = m
	}
	for i, d := range ds {
		vm.x.assume(tb.Cmp(OpUle, d, tb.Const(4, 9)))
		if i == 0 && n > 1 && !pad {
			vm.x.assume(tb.Cmp(OpUle, tb.Const(4, 1), d))
		}
	}
	tie := tb.T
	if n == 20 { // 20 digits fit when the first is 1 and the rest does not wrap
		h := tb.Const(64, 0)
		for _, d := range ds[1:] {
			h = tb.Bin(OpAdd, tb.Bin(OpMul, h, tb.Const(64, 10)), tb.ZExt(d, 64))
		}
		small := tb.Cmp(OpUle, h, tb.Const(64, ^uint64(0)-pow10[19]))
		tie = tb.And(tb.Eq(ds[0], tb.Const(4, 1)), small)
		if pad {
			tie = tb.Or(tb.Eq(ds[0], tb.Const(4, 0)), tie)
		}
	}
	h := tb.Const(64, 0)
	b := make([]*Term, n)
	for i, d := range ds {
		c := tb.Bin(OpAdd, tb.ZExt(d, 8), tb.Const(8, '0'))
		b[i] = c
		// the same shape as strconv's parser builds
		h = tb.Bin(OpAdd, tb.Bin(OpMul, h, tb.Const(64, 10)), tb.ZExt(tb.Bin(OpSub, c, tb.Const(8, '0')), 64))
	}
	tie = tb.And(tie, tb.Eq(h, v))
	if vm.params["dec"] == 0 {
		vm.x.assume(tie)
		tie = tb.T
	}
	vm.decs = append(vm.decs, decText{v, b, tie, pad})
	return mkStr(b)
}

func itoa(n int) string {
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}

// decOf returns the number a text was printed from.
func (vm *VM) decOf(s Value) *Term {
	x, ok := s.(*SymStr)
	if !ok {
		return nil
	}
next:
	for _, d := range vm.decs {
		if len(d.b) != len(x.b) {
			continue
		}
		for i := range d.b {
			if d.b[i] != x.b[i] {
				continue next
			}
		}
		return d.v
	}
	return nil
}

func init() {
	dec := func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		return one(vm.decimal(args[0].(*Term), false))
	}
	intrinsics[ndPkg+"Padded"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		if !hasSym(args[0]) {
			return one(fmt.Sprintf("%020d", args[0].(*Term).val))
		}
		return one(vm.decimal(args[0].(*Term), true))
	}
	intrinsics[ndPkg+"Decimal"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		if !hasSym(args[0]) {
			return one(fmt.Sprint(args[0].(*Term).val))
		}
		return dec(vm, g, args, ci)
	}
	signed := func(vm *VM, t *Term) Value {
		tb := vm.tb
		if vm.branch(tb.Cmp(OpSlt, t, tb.Const(64, 0))) {
			d := vm.decimal(tb.Bin(OpSub, tb.Const(64, 0), t), false)
			return mkStr(append([]*Term{tb.Const(8, '-')}, vm.strBytes(d)...))
		}
		return vm.decimal(t, false)
	}
	base10 := func(v Value) bool { t, ok := v.(*Term); return ok && t.isConst() && t.val == 10 }
	intrinsics["strconv.FormatUint"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		if hasSym(args[0]) && base10(args[1]) {
			return one(vm.decimal(args[0].(*Term), false))
		}
		return nil, aInterp
	}
	intrinsics["strconv.FormatInt"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		if hasSym(args[0]) && base10(args[1]) {
			return one(signed(vm, args[0].(*Term)))
		}
		return nil, aInterp
	}
	intrinsics["strconv.Itoa"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		if hasSym(args[0]) {
			return one(signed(vm, args[0].(*Term)))
		}
		return nil, aInterp
	}
	app := func(f func(vm *VM, t *Term) Value) intrinsic {
		return func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
			if !hasSym(args[1]) || !base10(args[2]) {
				return nil, aInterp
			}
			s := args[0].(SliceV)
			out := SliceV{a: append([]Value{}, s.a...)}
			for _, b := range vm.strBytes(f(vm, args[1].(*Term))) {
				out.a = append(out.a, b)
			}
			return one(out)
		}
	}
	intrinsics["strconv.AppendUint"] = app(func(vm *VM, t *Term) Value { return vm.decimal(t, false) })
	intrinsics["strconv.AppendInt"] = app(signed)
	intrinsics["strconv.ParseUint"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		if vm.params["dec"] == 0 {
			return nil, aInterp
		}
		v := vm.decOf(args[0])
		bits, ok := args[2].(*Term)
		if v == nil || !base10(args[1]) || !ok || !bits.isConst() || bits.val > 64 {
			return nil, aInterp
		}
		if bits.val != 0 && bits.val < 64 && !vm.branch(vm.tb.Cmp(OpUle, v, vm.tb.Const(64, 1<<bits.val-1))) {
			return nil, aInterp
		}
		return one(Tuple{v, Iface{}})
	}
}
