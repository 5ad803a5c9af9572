package main

// Run-time values of the symbolic interpreter.
//
//   bool, integers      *Term
//   floats              float64 / complex128 (concrete only)
//   string              string | *SymStr | *TagStr
//   struct, array       *StructV, *ArrayV (value semantics: copied on load/store)
//   pointer             *Value | *SymPtr
//   slice               SliceV
//   map                 *MapV
//   interface           Iface
//   func                *Closure
//   chan                *ChanV
//   tuple               Tuple

import (
	"fmt"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Value any

type StructV struct{ f []Value }
type ArrayV struct{ e []Value }
type Tuple []Value

type SymStr struct{ b []*Term }

// TagStr is an opaque string that stands for another value (see AddrString).
type TagStr struct{ v Value }

type SymPtr struct {
	base []Value
	idx  *Term // 64 bit, proven in range
}

type SliceV struct {
	a     []Value // host len and cap are the Go len and cap
	isNil bool
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
	b   *ssa.Builtin
}

type mapEntry struct {
	k, v  Value
	alive bool
}

type ckey struct {
	w uint8
	v uint64
	s string
}

type MapV struct {
	ents []*mapEntry
	cidx map[ckey]*mapEntry
	sym  []*mapEntry
	n    int
	race raceMeta
}

type mapIter struct {
	m       *MapV
	ents    []*mapEntry
	reverse bool
	perm    bool
	kt, vt  types.Type
}

type strIter struct {
	s Value
	i int
}

type ChanV struct {
	buf    []Value
	vcs    []vclock
	cap    int
	closed bool
	recvq  int // goroutines waiting to receive (unbuffered handoff)
	cvc    vclock
}

type unsupported struct{ msg string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func newMap() *MapV { return &MapV{cidx: map[ckey]*mapEntry{}} }

func concKey(k Value) (ckey, bool) {
	switch k := k.(type) {
	case *Term:
		if k.isConst() {
			return ckey{w: k.w + 1, v: k.val}, true
		}
	case string:
		return ckey{s: k}, true
	}
	return ckey{}, false
}

func intWidth(t types.Type) (w uint8, signed, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.UntypedInt, types.UntypedRune:
		return 64, true, true
	}
	return 0, false, false
}

func isScalar(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	return b.Info()&(types.IsInteger|types.IsBoolean) != 0
}

func (vm *VM) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return vm.tb.F
		case u.Info()&types.IsInteger != 0:
			w, _, _ := intWidth(u)
			return vm.tb.Const(w, 0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case u.Kind() == types.UntypedNil:
			return Iface{}
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return SliceV{isNil: true}
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := &StructV{f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = vm.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := u.Len()
		if n > 1<<20 {
			unsup("array of %d elements", n)
		}
		a := &ArrayV{e: make([]Value, n)}
		for i := range a.e {
			a.e[i] = vm.zero(u.Elem())
		}
		return a
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = vm.zero(u.At(i).Type())
		}
		return tp
	}
	unsup("zero value of %s", t)
	return nil
}

func (vm *VM) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return vm.zero(c.Type())
	}
	t := c.Type()
	if tp, ok := t.(*types.TypeParam); ok {
		unsup("constant of type parameter %s", tp)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		unsup("constant %s of type %s", c, t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return vm.tb.Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		w, signed, _ := intWidth(b)
		v := constant.ToInt(c.Value)
		if signed {
			x, _ := constant.Int64Val(v)
			return vm.tb.Const(w, uint64(x))
		}
		x, _ := constant.Uint64Val(v)
		return vm.tb.Const(w, x)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		x, _ := constant.Int64Val(c.Value)
		return string(rune(x))
	case b.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(re, im)
	}
	unsup("constant %s of type %s", c, t)
	return nil
}

// copyVal gives aggregates value semantics.
func copyVal(v Value) Value {
	switch v := v.(type) {
	case *StructV:
		n := &StructV{f: make([]Value, len(v.f))}
		for i, x := range v.f {
			n.f[i] = copyVal(x)
		}
		return n
	case *ArrayV:
		n := &ArrayV{e: make([]Value, len(v.e))}
		for i, x := range v.e {
			n.e[i] = copyVal(x)
		}
		return n
	}
	return v
}

// storeInto keeps the identity of the cells of aggregates, so pointers to
// fields and elements stay valid.
func storeInto(dst *Value, v Value) {
	switch v := v.(type) {
	case *StructV:
		if d, ok := (*dst).(*StructV); ok && len(d.f) == len(v.f) {
			for i := range v.f {
				storeInto(&d.f[i], v.f[i])
			}
			return
		}
		*dst = copyVal(v)
		return
	case *ArrayV:
		if d, ok := (*dst).(*ArrayV); ok && len(d.e) == len(v.e) {
			for i := range v.e {
				storeInto(&d.e[i], v.e[i])
			}
			return
		}
		*dst = copyVal(v)
		return
	}
	*dst = v
}

func (vm *VM) strBytes(v Value) []*Term {
	switch v := v.(type) {
	case string:
		r := make([]*Term, len(v))
		for i := 0; i < len(v); i++ {
			r[i] = vm.tb.Const(8, uint64(v[i]))
		}
		return r
	case *SymStr:
		return v.b
	case *TagStr:
		unsup("inspecting the text of an opaque string")
	}
	unsup("string value %T", v)
	return nil
}

func mkStr(b []*Term) Value {
	all := true
	for _, t := range b {
		if !t.isConst() {
			all = false
			break
		}
	}
	if all {
		s := make([]byte, len(b))
		for i, t := range b {
			s[i] = byte(t.val)
		}
		return string(s)
	}
	return &SymStr{b: append([]*Term{}, b...)}
}

func (vm *VM) strLen(v Value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SymStr:
		return len(v.b)
	case *TagStr:
		unsup("length of an opaque string")
	}
	unsup("string value %T", v)
	return 0
}

// eq returns the boolean term a == b for two values of the same static type.
func (vm *VM) eq(a, b Value) *Term {
	tb := vm.tb
	switch x := a.(type) {
	case *Term:
		return tb.Eq(x, b.(*Term))
	case float64:
		return tb.Bool(x == b.(float64))
	case complex128:
		return tb.Bool(x == b.(complex128))
	case string:
		switch y := b.(type) {
		case string:
			return tb.Bool(x == y)
		case *SymStr:
			return vm.eqStr(a, b)
		case *TagStr:
			return tb.F
		}
	case *SymStr:
		if _, ok := b.(*TagStr); ok {
			return tb.F
		}
		return vm.eqStr(a, b)
	case *TagStr:
		y, ok := b.(*TagStr)
		if !ok {
			return tb.F
		}
		return vm.eq(x.v, y.v)
	case *Value:
		y, ok := b.(*Value)
		return tb.Bool(ok && x == y)
	case *SymPtr:
		unsup("comparing a symbolically indexed pointer")
	case SliceV:
		y := b.(SliceV)
		if x.isNil || y.isNil {
			return tb.Bool(x.isNil && y.isNil)
		}
		unsup("comparing slices")
	case *MapV:
		return tb.Bool(x == b.(*MapV))
	case *ChanV:
		return tb.Bool(x == b.(*ChanV))
	case *Closure:
		y := b.(*Closure)
		return tb.Bool(x == nil && y == nil || x == y && x == nil)
	case *StructV:
		y := b.(*StructV)
		r := tb.T
		for i := range x.f {
			r = tb.And(r, vm.eq(x.f[i], y.f[i]))
			if r == tb.F {
				return r
			}
		}
		return r
	case *ArrayV:
		y := b.(*ArrayV)
		r := tb.T
		for i := range x.e {
			r = tb.And(r, vm.eq(x.e[i], y.e[i]))
			if r == tb.F {
				return r
			}
		}
		return r
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			unsup("comparing interface with %T", b)
		}
		if x.t == nil || y.t == nil {
			return tb.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return tb.F
		}
		if !types.Comparable(x.t) {
			panic(goPanic{rt: "runtime error: comparing uncomparable type " + x.t.String()})
		}
		return vm.eq(x.v, y.v)
	case nil:
		return tb.Bool(b == nil)
	}
	unsup("comparison of %T and %T", a, b)
	return nil
}

// deepEq is reflect.DeepEqual on values of the same static type.
func (vm *VM) deepEq(a, b Value) *Term {
	tb := vm.tb
	all := func(x, y []Value) *Term {
		if len(x) != len(y) {
			return tb.F
		}
		r := tb.T
		for i := range x {
			if r = tb.And(r, vm.deepEq(x[i], y[i])); r == tb.F {
				break
			}
		}
		return r
	}
	switch x := a.(type) {
	case *Value:
		y, ok := b.(*Value)
		if !ok || x == nil || y == nil || x == y {
			return tb.Bool(ok && x == y)
		}
		return vm.deepEq(*x, *y)
	case SliceV:
		y := b.(SliceV)
		if x.isNil != y.isNil {
			return tb.F
		}
		return all(x.a, y.a)
	case *StructV:
		return all(x.f, b.(*StructV).f)
	case *ArrayV:
		return all(x.e, b.(*ArrayV).e)
	case *Closure:
		return tb.Bool(x == nil && b.(*Closure) == nil)
	case *MapV:
		y := b.(*MapV)
		if x == nil || y == nil || x == y {
			return tb.Bool(x == y)
		}
		if vm.raceOn {
			vm.raceAccess(&x.race, false, "map")
			vm.raceAccess(&y.race, false, "map")
		}
		if x.n != y.n {
			return tb.F
		}
		r := tb.T
		for _, e := range x.ents {
			f := vm.mapFind(y, e.k)
			if f == nil {
				return tb.F
			}
			r = tb.And(r, vm.deepEq(e.v, f.v))
		}
		return r
	case Iface:
		y := b.(Iface)
		if x.t == nil || y.t == nil {
			return tb.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return tb.F
		}
		return vm.deepEq(x.v, y.v)
	}
	return vm.eq(a, b)
}

func (vm *VM) eqStr(a, b Value) *Term {
	x, y := vm.strBytes(a), vm.strBytes(b)
	if len(x) != len(y) {
		return vm.tb.F
	}
	r := vm.tb.T
	for i := range x {
		r = vm.tb.And(r, vm.tb.Eq(x[i], y[i]))
	}
	return r
}

// ltStr returns a < b on strings.
func (vm *VM) ltStr(a, b Value) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return vm.tb.Bool(x < y)
		}
	}
	x, y := vm.strBytes(a), vm.strBytes(b)
	n := min(len(x), len(y))
	r := vm.tb.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = vm.tb.Or(vm.tb.Cmp(OpUlt, x[i], y[i]), vm.tb.And(vm.tb.Eq(x[i], y[i]), r))
	}
	return r
}

// ---- maps ----

func (vm *VM) mapFind(m *MapV, k Value) *mapEntry {
	if m == nil {
		vm.hashable(k)
		return nil
	}
	vm.hashable(k)
	ck, conc := concKey(k)
	if conc {
		if e := m.cidx[ck]; e != nil {
			return e
		}
		for _, e := range m.sym {
			if e.alive && vm.branch(vm.eq(e.k, k)) {
				return e
			}
		}
		return nil
	}
	// identical first
	for _, e := range m.sym {
		if e.alive {
			if t := vm.eq(e.k, k); t.isConst() && t.val == 1 {
				return e
			}
		}
	}
	for _, e := range m.ents {
		if e.alive && vm.branch(vm.eq(e.k, k)) {
			return e
		}
	}
	return nil
}

func (vm *VM) hashable(k Value) {
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		panic(goPanic{rt: "runtime error: hash of unhashable type " + i.t.String()})
	}
}

func (vm *VM) mapSet(m *MapV, k, v Value) {
	if m == nil {
		panic(goPanic{rt: "assignment to entry in nil map"})
	}
	if e := vm.mapFind(m, k); e != nil {
		e.v = copyVal(v)
		return
	}
	e := &mapEntry{k: copyVal(k), v: copyVal(v), alive: true}
	m.ents = append(m.ents, e)
	m.n++
	if ck, ok := concKey(k); ok {
		m.cidx[ck] = e
	} else {
		m.sym = append(m.sym, e)
	}
}

func (vm *VM) mapDelete(m *MapV, k Value) {
	if m == nil {
		vm.hashable(k)
		return
	}
	e := vm.mapFind(m, k)
	if e == nil {
		return
	}
	m.remove(e)
}

func (m *MapV) remove(e *mapEntry) {
	e.alive = false
	m.n--
	if ck, ok := concKey(e.k); ok {
		delete(m.cidx, ck)
	}
	out := m.ents[:0:0]
	for _, x := range m.ents {
		if x.alive {
			out = append(out, x)
		}
	}
	m.ents = out
	out = m.sym[:0:0]
	for _, x := range m.sym {
		if x.alive {
			out = append(out, x)
		}
	}
	m.sym = out
}
