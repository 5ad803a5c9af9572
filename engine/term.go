package main

// Hash-consed bit-vector / boolean terms with local simplification.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot // bool
	OpAnd
	OpOr
	OpEq
	OpIte
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpShl
	OpLShr
	OpAShr
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpExtract // val = hi<<8|lo
	OpZExt
	OpSExt
)

var opNames = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem",
	OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpBNot: "bvnot", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr",
	OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle"}

// Term is immutable. w == 0 means Bool, otherwise a bit-vector of w bits.
type Term struct {
	op      Op
	w       uint8
	id      int32
	val     uint64 // constant value, extract bounds
	lo, hi  uint64 // unsigned bounds (bit-vectors)
	a, b, c *Term
	name    string
}

func (t *Term) isConst() bool { return t.op == OpConst }

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

type tkey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c int32
}

type Table struct {
	all    []*Term
	m      map[tkey]*Term
	vars   map[string]*Term
	consts map[tkey]*Term
	small  [65][256]*Term
	T, F   *Term

	evalGen int32
	evalSt  []int32
	evalVal []uint64
}

func NewTable() *Table {
	t := &Table{m: map[tkey]*Term{}, vars: map[string]*Term{}, consts: map[tkey]*Term{}}
	t.F = t.Const(0, 0)
	t.T = t.Const(0, 1)
	return t
}

func (tb *Table) add(t *Term) *Term {
	t.id = int32(len(tb.all))
	tb.all = append(tb.all, t)
	return t
}

func (tb *Table) Const(w uint8, v uint64) *Term {
	if w == 0 {
		v &= 1
	} else {
		v &= mask(w)
	}
	if v < 256 {
		if t := tb.small[w][v]; t != nil {
			return t
		}
		t := tb.add(&Term{op: OpConst, w: w, val: v, lo: v, hi: v})
		tb.small[w][v] = t
		return t
	}
	k := tkey{w: w, val: v}
	if t, ok := tb.consts[k]; ok {
		return t
	}
	t := tb.add(&Term{op: OpConst, w: w, val: v, lo: v, hi: v})
	tb.consts[k] = t
	return t
}

func (tb *Table) Bool(b bool) *Term {
	if b {
		return tb.T
	}
	return tb.F
}

func (tb *Table) Var(name string, w uint8) *Term {
	if t, ok := tb.vars[name]; ok {
		if t.w != w {
			panic(fmt.Sprintf("variable %s redeclared with width %d (was %d)", name, w, t.w))
		}
		return t
	}
	t := tb.add(&Term{op: OpVar, w: w, name: name, hi: mask(w)})
	tb.vars[name] = t
	return t
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (tb *Table) mk(op Op, w uint8, val uint64, a, b, c *Term) *Term {
	k := tkey{op, w, val, tid(a), tid(b), tid(c)}
	if t, ok := tb.m[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, val: val, a: a, b: b, c: c}
	t.lo, t.hi = bounds(t)
	if w > 0 && t.lo == t.hi {
		r := tb.Const(w, t.lo)
		tb.m[k] = r
		return r
	}
	tb.m[k] = tb.add(t)
	return t
}

func bounds(t *Term) (uint64, uint64) {
	m := mask(t.w)
	if t.w == 0 {
		return 0, 1
	}
	switch t.op {
	case OpIte:
		return min(t.b.lo, t.c.lo), max(t.b.hi, t.c.hi)
	case OpZExt:
		return t.a.lo, t.a.hi
	case OpBAnd:
		return 0, min(t.a.hi, t.b.hi)
	case OpBOr:
		h := t.a.hi | t.b.hi
		n := bits.Len64(h)
		return max(t.a.lo, t.b.lo), mask(uint8(n))
	case OpBXor:
		h := t.a.hi | t.b.hi
		return 0, mask(uint8(bits.Len64(h)))
	case OpURem:
		if t.b.lo > 0 {
			return 0, min(t.a.hi, t.b.hi-1)
		}
	case OpUDiv:
		if t.b.lo > 0 {
			return t.a.lo / t.b.hi, t.a.hi / t.b.lo
		}
	case OpLShr:
		if t.b.isConst() && t.b.val < 64 {
			return t.a.lo >> t.b.val, t.a.hi >> t.b.val
		}
		return 0, t.a.hi
	case OpAdd:
		s, c := bits.Add64(t.a.hi, t.b.hi, 0)
		if c == 0 && s <= m {
			return t.a.lo + t.b.lo, s
		}
	case OpSub:
		if t.a.lo >= t.b.hi {
			return t.a.lo - t.b.hi, t.a.hi - t.b.lo
		}
	case OpMul:
		h, l := bits.Mul64(t.a.hi, t.b.hi)
		if h == 0 && l <= m {
			return t.a.lo * t.b.lo, l
		}
	case OpShl:
		if t.b.isConst() && t.b.val < 64 {
			if t.a.hi<<t.b.val>>t.b.val == t.a.hi && t.a.hi<<t.b.val <= m {
				return t.a.lo << t.b.val, t.a.hi << t.b.val
			}
		}
	case OpExtract:
		if t.val&0xff == 0 && t.a.hi <= m {
			return t.a.lo, t.a.hi
		}
	}
	return 0, m
}

func foldBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m, true
	case OpSub:
		return (x - y) & m, true
	case OpMul:
		return (x * y) & m, true
	case OpUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OpURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OpSDiv:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1, true
			}
			return m, true
		}
		if sy == -1 {
			return uint64(-sx) & m, true
		}
		return uint64(sx/sy) & m, true
	case OpSRem:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & m, true
	case OpBAnd:
		return x & y, true
	case OpBOr:
		return x | y, true
	case OpBXor:
		return x ^ y, true
	case OpShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OpLShr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OpAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext64(x, w)>>y) & m, true
	}
	return 0, false
}

func commut(op Op) bool {
	switch op {
	case OpAdd, OpMul, OpBAnd, OpBOr, OpBXor, OpEq, OpAnd, OpOr:
		return true
	}
	return false
}

// Bin builds a bit-vector operation.
func (tb *Table) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch in %s: %d %d", opNames[op], a.w, b.w))
	}
	w := a.w
	if a.isConst() && b.isConst() {
		v, _ := foldBin(op, w, a.val, b.val)
		return tb.Const(w, v)
	}
	if commut(op) && (a.isConst() || (!b.isConst() && a.id > b.id)) {
		a, b = b, a
	}
	if b.isConst() {
		switch op {
		case OpAdd, OpSub, OpBOr, OpBXor, OpShl, OpLShr, OpAShr:
			if b.val == 0 {
				return a
			}
			if (op == OpShl || op == OpLShr) && b.val >= uint64(w) {
				return tb.Const(w, 0)
			}
			if op == OpBOr && b.val == mask(w) {
				return b
			}
			if op == OpBXor && b.val == mask(w) {
				return tb.BNot(a)
			}
		case OpMul:
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		case OpUDiv, OpSDiv:
			if b.val == 1 {
				return a
			}
			if op == OpUDiv && b.val&(b.val-1) == 0 && b.val != 0 {
				return tb.Bin(OpLShr, a, tb.Const(w, uint64(bits.TrailingZeros64(b.val))))
			}
		case OpURem:
			if b.val == 1 {
				return tb.Const(w, 0)
			}
			if b.val != 0 && b.val&(b.val-1) == 0 {
				return tb.Bin(OpBAnd, a, tb.Const(w, b.val-1))
			}
		case OpBAnd:
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			// mask that keeps every possibly set bit
			if b.val&(b.val+1) == 0 && a.hi <= b.val {
				return a
			}
		}
		// (x + c1) + c2, (x - c1) + c2
		if op == OpSub {
			return tb.Bin(OpAdd, a, tb.Const(w, -b.val))
		}
		if op == OpAdd && a.op == OpAdd && a.b.isConst() {
			return tb.Bin(OpAdd, a.a, tb.Const(w, a.b.val+b.val))
		}
		if (op == OpBAnd || op == OpBOr || op == OpBXor) && a.op == op && a.b.isConst() {
			v, _ := foldBin(op, w, a.b.val, b.val)
			return tb.Bin(op, a.a, tb.Const(w, v))
		}
		// push constants into ite with constant leaves
		if a.op == OpIte && (a.b.isConst() && a.c.isConst()) {
			return tb.Ite(a.a, tb.Bin(op, a.b, b), tb.Bin(op, a.c, b))
		}
	}
	if a.isConst() {
		switch op {
		case OpShl, OpLShr, OpUDiv, OpURem:
			if a.val == 0 && op != OpUDiv && op != OpURem {
				return a
			}
		}
	}
	if a == b {
		switch op {
		case OpSub, OpBXor:
			return tb.Const(w, 0)
		case OpBAnd, OpBOr:
			return a
		}
	}
	if op == OpSub {
		// (x + y) - x = y
		if a.op == OpAdd {
			if a.a == b {
				return a.b
			}
			if a.b == b {
				return a.a
			}
		}
	}
	if op == OpAdd {
		// x + (y - x) = y
		if b.op == OpSub && b.b == a {
			return b.a
		}
		if a.op == OpSub && a.b == b {
			return a.a
		}
	}
	return tb.mk(op, w, 0, a, b, nil)
}

func (tb *Table) BNot(a *Term) *Term {
	if a.isConst() {
		return tb.Const(a.w, ^a.val)
	}
	if a.op == OpBNot {
		return a.a
	}
	return tb.mk(OpBNot, a.w, 0, a, nil, nil)
}

func (tb *Table) Neg(a *Term) *Term { return tb.Bin(OpSub, tb.Const(a.w, 0), a) }

func (tb *Table) Not(a *Term) *Term {
	if a.isConst() {
		return tb.Bool(a.val == 0)
	}
	switch a.op {
	case OpNot:
		return a.a
	case OpUlt:
		return tb.Cmp(OpUle, a.b, a.a)
	case OpUle:
		return tb.Cmp(OpUlt, a.b, a.a)
	case OpSlt:
		return tb.Cmp(OpSle, a.b, a.a)
	case OpSle:
		return tb.Cmp(OpSlt, a.b, a.a)
	}
	return tb.mk(OpNot, 0, 0, a, nil, nil)
}

func (tb *Table) And(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		return tb.And(b, a)
	}
	if a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return tb.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OpAnd, 0, 0, a, b, nil)
}

func (tb *Table) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		return tb.Or(b, a)
	}
	if a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return tb.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OpOr, 0, 0, a, b, nil)
}

func (tb *Table) Eq(a, b *Term) *Term {
	if a == b {
		return tb.T
	}
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch in =: %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return tb.Bool(a.val == b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.val == 1 {
				return a
			}
			return tb.Not(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return tb.mk(OpEq, 0, 0, a, b, nil)
	}
	if a.hi < b.lo || b.hi < a.lo {
		return tb.F
	}
	if b.isConst() {
		switch a.op {
		case OpZExt:
			if b.val > mask(a.a.w) {
				return tb.F
			}
			return tb.Eq(a.a, tb.Const(a.a.w, b.val))
		case OpAdd:
			if a.b.isConst() {
				return tb.Eq(a.a, tb.Const(a.w, b.val-a.b.val))
			}
		case OpBXor:
			if a.b.isConst() {
				return tb.Eq(a.a, tb.Const(a.w, b.val^a.b.val))
			}
			if b.val == 0 {
				return tb.Eq(a.a, a.b)
			}
		case OpSub:
			if b.val == 0 {
				return tb.Eq(a.a, a.b)
			}
		case OpIte:
			if a.b.isConst() || a.c.isConst() {
				x, y := tb.Eq(a.b, b), tb.Eq(a.c, b)
				if x.isConst() || y.isConst() {
					return tb.Ite(a.a, x, y)
				}
			}
		case OpBNot:
			return tb.Eq(a.a, tb.Const(a.w, ^b.val))
		}
	}
	if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
		return tb.Eq(a.a, b.a)
	}
	if a.op == OpAdd && b.op == OpAdd {
		if a.a == b.a {
			return tb.Eq(a.b, b.b)
		}
		if a.b == b.b {
			return tb.Eq(a.a, b.a)
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OpEq, 0, 0, a, b, nil)
}

func (tb *Table) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == OpNot {
		return tb.Ite(c.a, b, a)
	}
	if a.w == 0 {
		if a.isConst() {
			if a.val == 1 {
				return tb.Or(c, b)
			}
			return tb.And(tb.Not(c), b)
		}
		if b.isConst() {
			if b.val == 1 {
				return tb.Or(tb.Not(c), a)
			}
			return tb.And(c, a)
		}
	}
	if a.op == OpIte && a.a == c {
		a = a.b
	}
	if b.op == OpIte && b.a == c {
		b = b.c
	}
	if a == b {
		return a
	}
	return tb.mk(OpIte, a.w, 0, c, a, b)
}

// Cmp builds OpUlt/OpUle/OpSlt/OpSle.
func (tb *Table) Cmp(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch in %s: %d %d", opNames[op], a.w, b.w))
	}
	w := a.w
	if a.isConst() && b.isConst() {
		switch op {
		case OpUlt:
			return tb.Bool(a.val < b.val)
		case OpUle:
			return tb.Bool(a.val <= b.val)
		case OpSlt:
			return tb.Bool(sext64(a.val, w) < sext64(b.val, w))
		case OpSle:
			return tb.Bool(sext64(a.val, w) <= sext64(b.val, w))
		}
	}
	if a == b {
		return tb.Bool(op == OpUle || op == OpSle)
	}
	half := uint64(1) << (w - 1)
	if op == OpSlt || op == OpSle {
		// both known non-negative: unsigned comparison
		if a.hi < half && b.hi < half {
			if op == OpSlt {
				op = OpUlt
			} else {
				op = OpUle
			}
		} else {
			if a.hi < half && b.lo >= half {
				return tb.F
			}
			if b.hi < half && a.lo >= half {
				return tb.T
			}
		}
	}
	switch op {
	case OpUlt:
		if a.hi < b.lo {
			return tb.T
		}
		if a.lo >= b.hi {
			return tb.F
		}
		if b.isConst() && b.val == 1 {
			return tb.Eq(a, tb.Const(w, 0))
		}
	case OpUle:
		if a.hi <= b.lo {
			return tb.T
		}
		if a.lo > b.hi {
			return tb.F
		}
		if b.isConst() && b.val == 0 {
			return tb.Eq(a, b)
		}
		if a.isConst() && a.val == 1 {
			return tb.Not(tb.Eq(b, tb.Const(w, 0)))
		}
	}
	if op == OpUlt || op == OpUle {
		if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
			return tb.Cmp(op, a.a, b.a)
		}
		if a.op == OpZExt && b.isConst() && b.val <= mask(a.a.w) {
			return tb.Cmp(op, a.a, tb.Const(a.a.w, b.val))
		}
		if b.op == OpZExt && a.isConst() && a.val <= mask(b.a.w) {
			return tb.Cmp(op, tb.Const(b.a.w, a.val), b.a)
		}
	}
	if a.op == OpIte && a.b.isConst() && a.c.isConst() && b.isConst() {
		return tb.Ite(a.a, tb.Cmp(op, a.b, b), tb.Cmp(op, a.c, b))
	}
	if b.op == OpIte && b.b.isConst() && b.c.isConst() && a.isConst() {
		return tb.Ite(b.a, tb.Cmp(op, a, b.b), tb.Cmp(op, a, b.c))
	}
	return tb.mk(op, 0, 0, a, b, nil)
}

func (tb *Table) Extract(a *Term, w uint8) *Term { return tb.ExtractAt(a, 0, w) }

func (tb *Table) ExtractAt(a *Term, lo, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if a.isConst() {
		return tb.Const(w, a.val>>lo)
	}
	switch a.op {
	case OpZExt:
		if lo == 0 {
			if w == a.a.w {
				return a.a
			}
			if w < a.a.w {
				return tb.ExtractAt(a.a, 0, w)
			}
			return tb.ZExt(a.a, w)
		}
		if lo >= a.a.w {
			return tb.Const(w, 0)
		}
		if lo+w <= a.a.w {
			return tb.ExtractAt(a.a, lo, w)
		}
		return tb.ZExt(tb.ExtractAt(a.a, lo, a.a.w-lo), w)
	case OpSExt:
		if lo == 0 && w <= a.a.w {
			return tb.ExtractAt(a.a, 0, w)
		}
	case OpExtract:
		return tb.ExtractAt(a.a, lo+uint8(a.val&0xff), w)
	case OpLShr:
		if a.b.isConst() && uint64(lo)+a.b.val+uint64(w) <= uint64(a.w) {
			return tb.ExtractAt(a.a, lo+uint8(a.b.val), w)
		}
	case OpIte:
		if a.b.isConst() && a.c.isConst() {
			return tb.Ite(a.a, tb.ExtractAt(a.b, lo, w), tb.ExtractAt(a.c, lo, w))
		}
	case OpBAnd, OpBOr, OpBXor:
		x, y := tb.ExtractAt(a.a, lo, w), tb.ExtractAt(a.b, lo, w)
		return tb.Bin(a.op, x, y)
	}
	return tb.mk(OpExtract, w, uint64(lo+w-1)<<8|uint64(lo), a, nil, nil)
}

func (tb *Table) ZExt(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.isConst() {
		return tb.Const(w, a.val)
	}
	if a.op == OpZExt {
		return tb.ZExt(a.a, w)
	}
	if a.op == OpIte && a.b.isConst() && a.c.isConst() {
		return tb.Ite(a.a, tb.ZExt(a.b, w), tb.ZExt(a.c, w))
	}
	return tb.mk(OpZExt, w, 0, a, nil, nil)
}

func (tb *Table) SExt(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.isConst() {
		return tb.Const(w, uint64(sext64(a.val, a.w)))
	}
	if a.hi < 1<<(a.w-1) {
		return tb.ZExt(a, w)
	}
	return tb.mk(OpSExt, w, 0, a, nil, nil)
}

// B2I turns a bool term into a bit-vector 0/1.
func (tb *Table) B2I(a *Term, w uint8) *Term { return tb.Ite(a, tb.Const(w, 1), tb.Const(w, 0)) }

// LeadingZeros as an ite chain over the top set bit (binary-search form).
func (tb *Table) LeadingZeros(x *Term, rw uint8) *Term {
	w := x.w
	if x.isConst() {
		return tb.Const(rw, uint64(bits.LeadingZeros64(x.val)-(64-int(w))))
	}
	r := tb.Const(rw, uint64(w))
	for i := uint8(0); i < w; i++ {
		// x < 2^(i+1) and x >= 2^i -> w-1-i ; from low to high, the highest wins
		r = tb.Ite(tb.Cmp(OpUle, tb.Const(w, 1<<i), x), tb.Const(rw, uint64(w-1-i)), r)
	}
	return r
}

func (tb *Table) TrailingZeros(x *Term, rw uint8) *Term {
	w := x.w
	if x.isConst() {
		if x.val == 0 {
			return tb.Const(rw, uint64(w))
		}
		return tb.Const(rw, uint64(bits.TrailingZeros64(x.val)))
	}
	r := tb.Const(rw, uint64(w))
	for i := int(w) - 1; i >= 0; i-- {
		r = tb.Ite(tb.Eq(tb.ExtractAt(x, uint8(i), 1), tb.Const(1, 1)), tb.Const(rw, uint64(i)), r)
	}
	return r
}

func (tb *Table) OnesCount(x *Term, rw uint8) *Term {
	r := tb.Const(rw, 0)
	for i := uint8(0); i < x.w; i++ {
		r = tb.Bin(OpAdd, r, tb.ZExt(tb.ExtractAt(x, i, 1), rw))
	}
	return r
}

// ---- evaluation under a model ----

type Model map[string]uint64

func (tb *Table) Eval(t *Term, m Model) uint64 {
	tb.evalGen++
	return tb.eval(t, m)
}

func (tb *Table) eval(t *Term, m Model) uint64 {
	if t.op == OpConst {
		return t.val
	}
	if int(t.id) >= len(tb.evalSt) {
		n := len(tb.all)*2 + 64
		st := make([]int32, n)
		copy(st, tb.evalSt)
		tb.evalSt = st
		v := make([]uint64, n)
		copy(v, tb.evalVal)
		tb.evalVal = v
	}
	if tb.evalSt[t.id] == tb.evalGen {
		return tb.evalVal[t.id]
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OpVar:
		r = m[t.name] & mask(max(t.w, 1))
	case OpNot:
		r = 1 - tb.eval(t.a, m)
	case OpAnd:
		if tb.eval(t.a, m) == 1 {
			r = tb.eval(t.b, m)
		}
	case OpOr:
		r = 1
		if tb.eval(t.a, m) == 0 {
			r = tb.eval(t.b, m)
		}
	case OpEq:
		r = b2u(tb.eval(t.a, m) == tb.eval(t.b, m))
	case OpIte:
		if tb.eval(t.a, m) == 1 {
			r = tb.eval(t.b, m)
		} else {
			r = tb.eval(t.c, m)
		}
	case OpUlt:
		r = b2u(tb.eval(t.a, m) < tb.eval(t.b, m))
	case OpUle:
		r = b2u(tb.eval(t.a, m) <= tb.eval(t.b, m))
	case OpSlt:
		r = b2u(sext64(tb.eval(t.a, m), t.a.w) < sext64(tb.eval(t.b, m), t.a.w))
	case OpSle:
		r = b2u(sext64(tb.eval(t.a, m), t.a.w) <= sext64(tb.eval(t.b, m), t.a.w))
	case OpBNot:
		r = ^tb.eval(t.a, m) & mask(t.w)
	case OpExtract:
		r = tb.eval(t.a, m) >> (t.val & 0xff) & mask(t.w)
	case OpZExt:
		r = tb.eval(t.a, m)
	case OpSExt:
		r = uint64(sext64(tb.eval(t.a, m), t.a.w)) & mask(t.w)
	default:
		r, _ = foldBin(t.op, t.w, tb.eval(t.a, m), tb.eval(t.b, m))
	}
	tb.evalSt[t.id] = tb.evalGen
	tb.evalVal[t.id] = r
	return r
}

// ---- printing ----

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(t *Term) string {
	if t.w == 0 {
		if t.val == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
}

func refStr(t *Term) string {
	switch t.op {
	case OpConst:
		return constStr(t)
	case OpVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

// bodyStr prints one node with references to its children.
func bodyStr(t *Term) string {
	switch t.op {
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.val>>8, t.val&0xff, refStr(t.a))
	case OpZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, refStr(t.a))
	case OpSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, refStr(t.a))
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opNames[t.op])
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(refStr(x))
		}
	}
	sb.WriteByte(')')
	return sb.String()
}
