package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func newSyncMap() *sync.Map { return &sync.Map{} }

func (vm *VM) binop(a *binAux, x, y Value, in *ssa.BinOp) Value {
	tb := vm.tb
	switch a.op {
	case token.EQL:
		return vm.eqTyped(x, y, in)
	case token.NEQ:
		return tb.Not(vm.eqTyped(x, y, in))
	}
	if xt, ok := x.(*Term); ok {
		yt := y.(*Term)
		if xt.w == 0 {
			switch a.op {
			case token.AND, token.LAND:
				return tb.And(xt, yt)
			case token.OR, token.LOR:
				return tb.Or(xt, yt)
			case token.XOR:
				return tb.Not(tb.Eq(xt, yt))
			}
			unsup("boolean %s", a.op)
		}
		switch a.op {
		case token.ADD:
			return tb.Bin(OpAdd, xt, yt)
		case token.SUB:
			return tb.Bin(OpSub, xt, yt)
		case token.MUL:
			return tb.Bin(OpMul, xt, yt)
		case token.QUO, token.REM:
			if !vm.branch(tb.Not(tb.Eq(yt, tb.Const(yt.w, 0)))) {
				panic(goPanic{rt: "runtime error: integer divide by zero"})
			}
			op := OpUDiv
			switch {
			case a.op == token.QUO && a.signed:
				op = OpSDiv
			case a.op == token.REM && a.signed:
				op = OpSRem
			case a.op == token.REM:
				op = OpURem
			}
			return tb.Bin(op, xt, yt)
		case token.AND:
			return tb.Bin(OpBAnd, xt, yt)
		case token.OR:
			return tb.Bin(OpBOr, xt, yt)
		case token.XOR:
			return tb.Bin(OpBXor, xt, yt)
		case token.AND_NOT:
			return tb.Bin(OpBAnd, xt, tb.BNot(yt))
		case token.SHL, token.SHR:
			return vm.shift(a, xt, yt)
		case token.LSS:
			return tb.Cmp(cmpOp(a.signed, false), xt, yt)
		case token.LEQ:
			return tb.Cmp(cmpOp(a.signed, true), xt, yt)
		case token.GTR:
			return tb.Cmp(cmpOp(a.signed, false), yt, xt)
		case token.GEQ:
			return tb.Cmp(cmpOp(a.signed, true), yt, xt)
		}
		unsup("integer %s", a.op)
	}
	if xf, ok := x.(float64); ok {
		yf := y.(float64)
		r := func(f float64) Value {
			if a.f32 {
				return float64(float32(f))
			}
			return f
		}
		switch a.op {
		case token.ADD:
			return r(xf + yf)
		case token.SUB:
			return r(xf - yf)
		case token.MUL:
			return r(xf * yf)
		case token.QUO:
			return r(xf / yf)
		case token.LSS:
			return tb.Bool(xf < yf)
		case token.LEQ:
			return tb.Bool(xf <= yf)
		case token.GTR:
			return tb.Bool(xf > yf)
		case token.GEQ:
			return tb.Bool(xf >= yf)
		}
		unsup("float %s", a.op)
	}
	switch x.(type) {
	case string, *SymStr, *TagStr:
		switch a.op {
		case token.ADD:
			if s, ok := x.(string); ok {
				if t, ok := y.(string); ok {
					return s + t
				}
				if s == "" {
					return y
				}
			}
			if t, ok := y.(string); ok && t == "" {
				return x
			}
			return mkStr(append(append([]*Term{}, vm.strBytes(x)...), vm.strBytes(y)...))
		case token.LSS:
			return vm.ltStr(x, y)
		case token.GTR:
			return vm.ltStr(y, x)
		case token.LEQ:
			return tb.Not(vm.ltStr(y, x))
		case token.GEQ:
			return tb.Not(vm.ltStr(x, y))
		}
	}
	unsup("binary %s on %T", a.op, x)
	return nil
}

func cmpOp(signed, eq bool) Op {
	switch {
	case signed && eq:
		return OpSle
	case signed:
		return OpSlt
	case eq:
		return OpUle
	}
	return OpUlt
}

func (vm *VM) eqTyped(x, y Value, in *ssa.BinOp) *Term {
	// comparison of an interface with a concrete value cannot occur in SSA
	// (both operands have been converted); nil constants may differ in shape
	if s, ok := x.(SliceV); ok {
		if t, ok := y.(SliceV); ok {
			return vm.tb.Bool(s.isNil && t.isNil || (s.isNil == t.isNil && !s.isNil && false))
		}
	}
	if f, ok := x.(*Closure); ok {
		g := y.(*Closure)
		return vm.tb.Bool(f == nil && g == nil)
	}
	return vm.eq(x, y)
}

// shift implements Go's shifts: an unsigned count of any width, saturating.
func (vm *VM) shift(a *binAux, x, y *Term) Value {
	tb := vm.tb
	if a.ysig {
		if !vm.branch(tb.Not(tb.Cmp(OpSlt, y, tb.Const(y.w, 0)))) {
			panic(goPanic{rt: "runtime error: negative shift amount"})
		}
	}
	w := x.w
	op := OpShl
	if a.op == token.SHR {
		op = OpLShr
		if a.signed {
			op = OpAShr
		}
	}
	var cnt *Term
	if y.w <= w {
		cnt = tb.ZExt(y, w)
		return tb.Bin(op, x, cnt)
	}
	// wider count: saturate
	if y.hi <= mask(w) {
		return tb.Bin(op, x, tb.Extract(y, w))
	}
	big := tb.Cmp(OpUle, tb.Const(y.w, uint64(w)), y)
	cnt = tb.Extract(y, w)
	var over *Term
	if op == OpAShr {
		over = tb.Bin(OpAShr, x, tb.Const(w, uint64(w)-1))
	} else {
		over = tb.Const(w, 0)
	}
	return tb.Ite(big, over, tb.Bin(op, x, cnt))
}

func (vm *VM) convert(x Value, from, to types.Type) Value {
	tb := vm.tb
	tu, fu := to.Underlying(), from.Underlying()
	switch t := tu.(type) {
	case *types.Basic:
		if t.Info()&types.IsInteger != 0 {
			w, _, _ := intWidth(t)
			switch v := x.(type) {
			case *Term:
				_, signed, _ := intWidth(fu)
				if w <= v.w {
					return tb.Extract(v, w)
				}
				if signed {
					return tb.SExt(v, w)
				}
				return tb.ZExt(v, w)
			case float64:
				_, signed, _ := intWidth(t)
				if signed {
					return tb.Const(w, uint64(int64(v)))
				}
				return tb.Const(w, uint64(v))
			case *Value:
				unsup("pointer to integer conversion")
			}
		}
		if t.Info()&types.IsFloat != 0 {
			var f float64
			switch v := x.(type) {
			case *Term:
				if !v.isConst() {
					unsup("conversion of a symbolic integer to float")
				}
				if _, signed, _ := intWidth(fu); signed {
					f = float64(sext64(v.val, v.w))
				} else {
					f = float64(v.val)
				}
			case float64:
				f = v
			}
			if t.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		}
		if t.Info()&types.IsString != 0 {
			switch v := x.(type) {
			case string, *SymStr, *TagStr:
				return v
			case SliceV:
				el := fu.(*types.Slice).Elem()
				if w, _, _ := intWidth(el); w == 8 {
					b := make([]*Term, len(v.a))
					for i := range v.a {
						if vm.raceOn {
							vm.raceCell(&v.a[i], false)
						}
						b[i] = v.a[i].(*Term)
					}
					return mkStr(b)
				}
				rs := make([]rune, len(v.a))
				for i := range v.a {
					e := v.a[i].(*Term)
					if !e.isConst() {
						unsup("symbolic rune to string")
					}
					rs[i] = rune(int32(e.val))
				}
				return string(rs)
			case *Term:
				if v.isConst() {
					return string(rune(sext64(v.val, v.w)))
				}
				if v.hi < 0x80 {
					return &SymStr{b: []*Term{tb.Extract(tb.ZExt(v, 64), 8)}}
				}
				unsup("symbolic rune to string")
			}
		}
		if t.Kind() == types.UnsafePointer {
			return x
		}
	case *types.Slice:
		switch x.(type) {
		case string, *SymStr:
			if w, _, _ := intWidth(t.Elem()); w == 8 {
				b := vm.strBytes(x)
				a := make([]Value, len(b))
				for i := range b {
					a[i] = b[i]
				}
				return SliceV{a: a}
			}
			s, ok := x.(string)
			if !ok {
				bs := vm.strBytes(x)
				var a []Value
				for len(bs) > 0 {
					r, n := vm.decodeRune(bs)
					a = append(a, r)
					bs = bs[n:]
				}
				return SliceV{a: a}
			}
			var a []Value
			for _, r := range s {
				a = append(a, tb.Const(32, uint64(uint32(r))))
			}
			return SliceV{a: a}
		case SliceV:
			return x
		}
	case *types.Pointer:
		return x // from unsafe.Pointer
	case *types.Array:
		if s, ok := x.(SliceV); ok {
			n := int(t.Len())
			if len(s.a) < n {
				panic(goPanic{rt: "runtime error: cannot convert slice to array: length too short"})
			}
			return copyVal(&ArrayV{e: s.a[:n]})
		}
	case *types.Map, *types.Chan, *types.Signature, *types.Struct, *types.Interface:
		return x
	}
	unsup("conversion of %T from %s to %s", x, from, to)
	return nil
}

// growCap follows the runtime's growth rule (without size classes).
func growCap(old, need int) int {
	if need > 2*old {
		return need
	}
	if old < 256 {
		return 2 * old
	}
	n := old
	for n < need {
		n += (n + 3*256) / 4
	}
	return n
}

func (vm *VM) builtin(g *Goro, b *ssa.Builtin, args []Value, ci *callInfo) Value {
	tb := vm.tb
	c64 := func(n int) Value { return tb.Const(64, uint64(n)) }
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case SliceV:
			return c64(len(x.a))
		case *MapV:
			if x == nil {
				return c64(0)
			}
			if vm.raceOn {
				vm.raceAccess(&x.race, false, "map")
			}
			return c64(x.n)
		case *ArrayV:
			return c64(len(x.e))
		case *Value:
			return c64(len((*x).(*ArrayV).e))
		case *ChanV:
			return c64(len(x.buf))
		}
		return c64(vm.strLen(args[0]))
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return c64(cap(x.a))
		case *ArrayV:
			return c64(len(x.e))
		case *Value:
			return c64(len((*x).(*ArrayV).e))
		case *ChanV:
			return c64(x.cap)
		}
	case "append":
		s := args[0].(SliceV)
		var add []Value
		switch y := args[1].(type) {
		case SliceV:
			add = y.a
			if vm.raceOn {
				for i := range add {
					vm.raceCell(&add[i], false)
				}
			}
		default:
			for _, t := range vm.strBytes(y) {
				add = append(add, t)
			}
		}
		if len(add) == 0 {
			return s
		}
		n := len(s.a)
		need := n + len(add)
		// snapshot: source and destination may overlap
		cp := make([]Value, len(add))
		for i := range add {
			cp[i] = copyVal(add[i])
		}
		if need <= cap(s.a) {
			a := s.a[:need]
			for i := range cp {
				if vm.raceOn {
					vm.raceCell(&a[n+i], true)
				}
				storeInto(&a[n+i], cp[i])
			}
			return SliceV{a: a}
		}
		a := make([]Value, need, growCap(cap(s.a), need))
		for i := range s.a {
			if vm.raceOn {
				vm.raceCell(&s.a[i], false)
			}
			a[i] = copyVal(s.a[i])
		}
		copy(a[n:], cp)
		full := a[:cap(a)]
		if cap(a) > need {
			var et types.Type
			if ci != nil {
				if st, ok := ci.instr.Common().Args[0].Type().Underlying().(*types.Slice); ok {
					et = st.Elem()
				}
			}
			for i := need; i < cap(a); i++ {
				if et != nil {
					full[i] = vm.zero(et)
				}
			}
		}
		return SliceV{a: a}
	case "copy":
		d := args[0].(SliceV)
		var src []Value
		switch y := args[1].(type) {
		case SliceV:
			src = y.a
		default:
			for _, t := range vm.strBytes(y) {
				src = append(src, t)
			}
		}
		n := min(len(d.a), len(src))
		cp := make([]Value, n)
		for i := 0; i < n; i++ {
			if vm.raceOn {
				vm.raceCell(&src[i], false)
				vm.raceCell(&d.a[i], true)
			}
			cp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			storeInto(&d.a[i], cp[i])
		}
		return c64(n)
	case "delete":
		m := args[0].(*MapV)
		if vm.raceOn && m != nil {
			vm.raceAccess(&m.race, true, "map")
		}
		vm.mapDelete(m, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				if vm.raceOn {
					vm.raceAccess(&x.race, true, "map")
				}
				for _, e := range x.ents {
					e.alive = false
				}
				x.ents, x.sym, x.n = nil, nil, 0
				x.cidx = map[ckey]*mapEntry{}
			}
			return nil
		case SliceV:
			et := ci.instr.Common().Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x.a {
				if vm.raceOn {
					vm.raceCell(&x.a[i], true)
				}
				storeInto(&x.a[i], vm.zero(et))
			}
			return nil
		}
	case "min", "max":
		r := args[0]
		_, signed, isInt := intWidth(b.Type().(*types.Signature).Params().At(0).Type())
		for _, y := range args[1:] {
			var less *Term // y < r
			switch {
			case isInt:
				less = tb.Cmp(cmpOp(signed, false), y.(*Term), r.(*Term))
				if b.Name() == "max" {
					less = tb.Cmp(cmpOp(signed, false), r.(*Term), y.(*Term))
				}
				r = tb.Ite(less, y.(*Term), r.(*Term))
			default:
				switch rv := r.(type) {
				case float64:
					if b.Name() == "min" {
						r = math.Min(rv, y.(float64))
					} else {
						r = math.Max(rv, y.(float64))
					}
				default:
					less = vm.ltStr(y, r)
					if b.Name() == "max" {
						less = vm.ltStr(r, y)
					}
					if vm.branch(less) {
						r = y
					}
				}
			}
		}
		return r
	case "panic":
		panic(goPanic{val: args[0].(Iface), tr: vm.stack(g)})
	case "recover":
		return vm.doRecover(g)
	case "ssa:deferstack":
		return g.frames[len(g.frames)-1]
	case "print", "println":
		return nil
	case "close":
		vm.chanClose(g, args[0].(*ChanV))
		return nil
	case "ssa:wrapnilchk":
		p := args[0].(*Value)
		if p == nil {
			panic(goPanic{rt: fmt.Sprintf("value method %v.%v called using nil pointer", args[1], args[2])})
		}
		return p
	case "String": // unsafe.String
		n := vm.index64(args[1], types.Typ[types.Int])
		k := int(vm.x.concretize(n))
		if k == 0 {
			return ""
		}
		return mkStr(vm.bytesAt(args[0], k))
	case "StringData":
		bs := vm.strBytes(args[0])
		if len(bs) == 0 {
			return (*Value)(nil)
		}
		return &SymPtr{base: termVals(bs), idx: tb.Const(64, 0)}
	case "SliceData":
		s := args[0].(SliceV)
		if s.isNil {
			return (*Value)(nil)
		}
		return &SymPtr{base: s.a[:cap(s.a)], idx: tb.Const(64, 0)}
	case "Slice": // unsafe.Slice
		k := int(vm.x.concretize(vm.index64(args[1], types.Typ[types.Int])))
		if p, ok := args[0].(*SymPtr); ok && p.idx.isConst() {
			o := int(p.idx.val)
			return SliceV{a: p.base[o : o+k : o+k]}
		}
		if k == 0 {
			return SliceV{}
		}
	}
	unsup("builtin %s", b.Name())
	return nil
}

func termVals(b []*Term) []Value {
	r := make([]Value, len(b))
	for i := range b {
		r[i] = b[i]
	}
	return r
}

func (vm *VM) bytesAt(p Value, n int) []*Term {
	if sp, ok := p.(*SymPtr); ok && sp.idx.isConst() {
		o := int(sp.idx.val)
		r := make([]*Term, n)
		for i := range r {
			r[i] = sp.base[o+i].(*Term)
		}
		return r
	}
	if cp, ok := p.(*Value); ok && n == 1 && cp != nil {
		return []*Term{(*cp).(*Term)}
	}
	unsup("unsafe.String on %T", p)
	return nil
}

func (vm *VM) doRecover(g *Goro) Value {
	// called directly by a deferred function of a panicking frame
	fr := g.frames[len(g.frames)-1]
	d := fr.defOf
	if d == nil || !d.running || d.pan == nil || d.recov {
		return Iface{}
	}
	d.recov = true
	p := d.pan
	if p.rt != "" {
		return Iface{t: vm.p.rtErrType(), v: vm.rtErrVal(p.rt)}
	}
	return p.val
}
