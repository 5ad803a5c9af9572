package main

import "math/bits"

// Facts already fixed on the current path: they answer most branch questions
// without the solver. Everything here follows from the path condition.

type rng struct{ lo, hi uint64 }

type facts struct {
	lit map[int32]bool
	rg  map[int32]rng
	ord order
}

func (f *facts) reset() {
	f.ord.reset()
	if f.lit == nil {
		f.lit = map[int32]bool{}
		f.rg = map[int32]rng{}
		return
	}
	clear(f.lit)
	clear(f.rg)
}

func (f *facts) rng(t *Term) rng { return f.rngN(t, 64) }

// rngN descends at most n levels.
func (f *facts) rngN(t *Term, n int) rng {
	if t.op == OpConst {
		return rng{t.val, t.val}
	}
	r := rng{t.lo, t.hi}
	if x, ok := f.rg[t.id]; ok {
		r.lo, r.hi = max(r.lo, x.lo), min(r.hi, x.hi)
	}
	if n <= 0 || r.lo == r.hi {
		return r
	}
	switch t.op {
	case OpZExt:
		y := f.rngN(t.a, n-1)
		r.lo, r.hi = max(r.lo, y.lo), min(r.hi, y.hi)
	case OpAdd, OpSub, OpMul:
		m := n - 1
		if t.a.op != OpConst && t.b.op != OpConst {
			m = min(m, 3)
		}
		x, y := f.rngN(t.a, n-1), f.rngN(t.b, m)
		lim := mask(t.w)
		switch t.op {
		case OpAdd:
			if c, h := x.hi+y.hi, x.hi+y.hi < x.hi; !h && c <= lim {
				r.lo, r.hi = max(r.lo, x.lo+y.lo), min(r.hi, c)
			} else if y.lo == y.hi && x.lo+y.lo > lim-0 && t.w < 64 || t.w == 64 && y.lo == y.hi && x.lo+y.lo < x.lo {
				// a constant that always wraps: a subtraction
				r.lo, r.hi = max(r.lo, (x.lo+y.lo)&lim), min(r.hi, (x.hi+y.hi)&lim)
			}
		case OpSub:
			if x.lo >= y.hi {
				r.lo, r.hi = max(r.lo, x.lo-y.hi), min(r.hi, x.hi-y.lo)
			}
		case OpMul:
			if h, c := bits.Mul64(x.hi, y.hi); h == 0 && c <= lim {
				r.lo, r.hi = max(r.lo, x.lo*y.lo), min(r.hi, c)
			}
		}
	}
	return r
}

func (f *facts) decide(c *Term) (v, ok bool) {
	if c.isConst() {
		return c.val == 1, true
	}
	if v, ok := f.lit[c.id]; ok {
		return v, true
	}
	switch c.op {
	case OpNot:
		v, ok := f.decide(c.a)
		return !v, ok
	case OpAnd:
		x, k := f.decide(c.a)
		y, l := f.decide(c.b)
		if k && !x || l && !y {
			return false, true
		}
		return true, k && l
	case OpOr:
		x, k := f.decide(c.a)
		y, l := f.decide(c.b)
		if k && x || l && y {
			return true, true
		}
		return false, k && l
	case OpEq:
		if c.a.w == 0 {
			x, k := f.decide(c.a)
			y, l := f.decide(c.b)
			return x == y, k && l
		}
		a, b := f.rng(c.a), f.rng(c.b)
		if a.hi < b.lo || b.hi < a.lo {
			return false, true
		}
		if a.lo == a.hi && b.lo == b.hi {
			return a.lo == b.lo, true
		}
		x, k := f.diff(c.a, c.b)
		y, l := f.diff(c.b, c.a)
		if k && x < 0 || l && y < 0 {
			return false, true
		}
		if k && l && x <= 0 && y <= 0 {
			return true, true
		}
	case OpUlt:
		a, b := f.rng(c.a), f.rng(c.b)
		if a.hi < b.lo {
			return true, true
		}
		if a.lo >= b.hi {
			return false, true
		}
		if x, k := f.diff(c.a, c.b); k && x < 0 {
			return true, true
		}
		if x, k := f.diff(c.b, c.a); k && x <= 0 {
			return false, true
		}
	case OpUle:
		a, b := f.rng(c.a), f.rng(c.b)
		if a.hi <= b.lo {
			return true, true
		}
		if a.lo > b.hi {
			return false, true
		}
		if x, k := f.diff(c.a, c.b); k && x <= 0 {
			return true, true
		}
		if x, k := f.diff(c.b, c.a); k && x < 0 {
			return false, true
		}
	}
	return false, false
}

func (f *facts) bound(t *Term, r rng) {
	if t.op == OpConst {
		return
	}
	o := f.rng(t)
	r.lo, r.hi = max(r.lo, o.lo), min(r.hi, o.hi)
	if r.lo > r.hi {
		return
	}
	f.rg[t.id] = r
	if t.op == OpZExt {
		f.bound(t.a, r)
	}
}

func (f *facts) learn(c *Term, v bool) {
	if c.isConst() {
		return
	}
	f.lit[c.id] = v
	switch c.op {
	case OpNot:
		f.learn(c.a, !v)
	case OpAnd:
		if v {
			f.learn(c.a, true)
			f.learn(c.b, true)
		}
	case OpOr:
		if !v {
			f.learn(c.a, false)
			f.learn(c.b, false)
		}
	case OpEq:
		if c.a.w == 0 {
			return
		}
		a, b := f.rng(c.a), f.rng(c.b)
		if v {
			r := rng{max(a.lo, b.lo), min(a.hi, b.hi)}
			f.bound(c.a, r)
			f.bound(c.b, r)
			f.atMost(c.a, c.b, 0)
			f.atMost(c.b, c.a, 0)
			f.tie()
			return
		}
		// different and ordered: strictly ordered
		if x, k := f.diff(c.a, c.b); k && x == 0 {
			f.atMost(c.a, c.b, -1)
		}
		if x, k := f.diff(c.b, c.a); k && x == 0 {
			f.atMost(c.b, c.a, -1)
		}
		// an excluded boundary value
		for _, p := range [2][2]*Term{{c.a, c.b}, {c.b, c.a}} {
			x, y := f.rng(p[0]), f.rng(p[1])
			if y.lo == y.hi && x.lo < x.hi {
				if x.lo == y.lo {
					f.bound(p[0], rng{x.lo + 1, x.hi})
				} else if x.hi == y.lo {
					f.bound(p[0], rng{x.lo, x.hi - 1})
				}
			}
		}
		f.tie()
	case OpUlt, OpUle:
		x, y := c.a, c.b
		strict := c.op == OpUlt
		if !v {
			x, y = y, x
			strict = !strict
		}
		// x < y or x <= y
		a, b := f.rng(x), f.rng(y)
		if strict {
			if b.hi > 0 {
				f.bound(x, rng{0, b.hi - 1})
			}
			if a.lo < mask(y.w) {
				f.bound(y, rng{a.lo + 1, mask(y.w)})
			}
			f.atMost(x, y, -1)
		} else {
			f.bound(x, rng{0, b.hi})
			f.bound(y, rng{a.lo, mask(y.w)})
			f.atMost(x, y, 0)
		}
		f.tie()
	}
}
