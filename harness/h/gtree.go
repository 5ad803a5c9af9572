package h

import (
	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/id16"
	"github.com/henderiw/idxtable/pkg/tree/id32"
	"github.com/henderiw/idxtable/pkg/tree/id64"
	"github.com/henderiw/idxtable/verifx/nd"
)

func init() {
	All["C12_Multi"] = C12_Multi
	All["C12_Shape"] = C12_Shape
}

func newGeneric(w int) *tree.Tree[int] {
	switch w {
	case 16:
		return tree.NewTree[int]("t", id16.IsLeftBitSet, id16.IDBitSize)
	case 32:
		return tree.NewTree[int]("t", id32.IsLeftBitSet, id32.IDBitSize)
	}
	return tree.NewTree[int]("t", id64.IsLeftBitSet, id64.IDBitSize)
}

// mnode is what a prefix should hold; values are in no order.
type mnode struct {
	v    uint64 // masked
	l    uint8
	vals []int
}

type mtree []*mnode

// at returns the node of a prefix, making one if there is none.
func (m *mtree) at(v uint64, l uint8) *mnode {
	for _, n := range *m {
		if nd.And(n.l == l, n.v == v) {
			return n
		}
	}
	n := &mnode{v: v, l: l}
	*m = append(*m, n)
	return n
}

func class(v int) int { return v >> 8 }

func sameClass(a, b int) bool { return class(a) == class(b) }

// check compares a walk over the tree with the model.
func (m mtree) check(t *tree.Tree[int]) {
	var want int
	for _, n := range m {
		if len(n.vals) > 0 {
			want++
		}
	}
	seen := map[*mnode]bool{}
	it := t.Iterate()
	for it.Next() {
		vals := it.Vals()
		nd.Assert(len(vals) > 0, "the walk visits a prefix without values")
		var at *mnode
		for _, n := range m {
			for _, v := range n.vals {
				if v == vals[0] {
					at = n
				}
			}
		}
		nd.Assert(at != nil, "the walk finds a value that was never put there, or was deleted")
		nd.Assert(!seen[at], "the walk visits a prefix twice")
		seen[at] = true
		nd.Assert(len(at.vals) == len(vals), "a prefix holds another number of values")
		for _, v := range at.vals {
			c := 0
			for _, u := range vals {
				if u == v {
					c++
				}
			}
			nd.Assert(c == 1, "a prefix does not hold a value that was put there")
			nd.Observe("val", uint64(v))
		}
	}
	nd.Assert(len(seen) == want, "the walk misses a prefix that holds values")
}

// prefixes draws prefixes: any at all, or those of a window, which share their
// first s bits and are at most win bits longer.
type prefixes struct {
	w, s, win int
	hi        uint64
	stray     bool
}

func newPrefixes(w int) *prefixes {
	p := &prefixes{w: w, win: nd.Param("win", 0), stray: nd.Param("stray", 1) > 0}
	if p.win == 0 {
		return p
	}
	if at := nd.Param("at", 0); at > 0 { // some positions only
		pos := []int{0, w - p.win, w/2 - 1, 1}
		p.s = pos[nd.Choice("window", at)]
	} else {
		p.s = nd.Choice("window", w-p.win+1)
	}
	if p.s > 0 && scafOn() {
		p.hi = scafID(w) & maskBits(w, uint8(p.s))
	} else if p.s > 0 {
		p.hi = uw("hi", w) & maskBits(w, uint8(p.s))
	}
	return p
}

func (p *prefixes) any() (uint64, uint8) {
	if p.win == 0 {
		return uw("id", p.w), anyLen("length", p.w)
	}
	var l uint8
	if nd.Param("clen", 0) > 0 {
		l = uint8(p.s + nd.Choice("length", p.win+1))
	} else {
		l = nd.U8("length")
		nd.Assume(nd.And(uint8(p.s) <= l, l <= uint8(p.s+p.win)))
	}
	v := uw("id", p.w)
	if p.stray {
		v = v&lowBits(p.w, uint8(p.s)) | p.hi
	} else {
		sh := uint(p.w - p.s - p.win)
		v = v>>sh&(1<<uint(p.win)-1)<<sh | p.hi
		v &= maskBits(p.w, l)
	}
	return v, l
}

// C12_Multi: k operations on any prefixes, stray bits included.
func C12_Multi() {
	w := width()
	t := newGeneric(w)
	var m mtree
	kinds := nd.Param("kinds", 15)
	k := nd.Param("k", 3)
	ps := newPrefixes(w)
	nc := nd.Param("classes", 2)
	for i, x := range scaffold(w, lowBits(w, 0)) {
		inc, cnt := t.Add(newID(w, x.v, x.l), 1<<16+i, nil)
		nd.Assert(nd.And(inc, cnt == 1), "Add reports a wrong number of values")
		m = append(m, &mnode{v: x.v, l: x.l, vals: []int{1<<16 + i}})
	}
	for i := 0; i < k; i++ {
		op := nd.Choice("op", 4)
		if kinds>>uint(op)&1 == 0 {
			nd.Assume(false)
		}
		v, l := ps.any()
		id := newID(w, v, l)
		n := m.at(v&maskBits(w, l), l)
		val := nd.Choice("class", nc)<<8 | i
		has := false
		for _, x := range n.vals {
			has = has || sameClass(x, val)
		}
		switch op {
		case 0: // add, no uniqueness
			inc, cnt := t.Add(id, val, nil)
			n.vals = append(n.vals, val)
			nd.Assert(inc, "Add does not report that the number of values grew")
			nd.Assert(cnt == len(n.vals), "Add reports a wrong number of values")
		case 1: // add unless there is one of the class
			inc, cnt := t.Add(id, val, sameClass)
			if !has {
				n.vals = append(n.vals, val)
			}
			nd.Assert(inc == !has, "Add does not report whether the number of values grew")
			nd.Assert(cnt == len(n.vals), "Add reports a wrong number of values")
		case 2: // set the single value
			nd.Assume(len(n.vals) <= 1)
			inc, cnt := t.Set(id, val)
			nd.Assert(inc == (len(n.vals) == 0), "Set does not report whether the number of values grew")
			nd.Assert(cnt == 1, "Set reports a wrong number of values")
			n.vals = []int{val}
		case 3:
			var keep []int
			for _, x := range n.vals {
				if !sameClass(x, val) {
					keep = append(keep, x)
				}
			}
			cnt := t.Delete(id, sameClass, val)
			nd.Assert(cnt == len(n.vals)-len(keep), "Delete reports a wrong number of values")
			n.vals = keep
		}
		if nd.Param("every", 0) > 0 {
			m.check(t)
		}
	}
	m.check(t)
}

// C12_Shape: m different prefixes are added, then d of them deleted or added to.
func C12_Shape() {
	w := width()
	t := newGeneric(w)
	var m mtree
	ps := newPrefixes(w)
	n := nd.Param("m", 3)
	var ids []tree.ID
	for i, x := range scaffold(w, lowBits(w, 0)) {
		ids = append(ids, newID(w, x.v, x.l))
		inc, cnt := t.Add(ids[i], 1<<16+i, nil)
		nd.Assert(nd.And(inc, cnt == 1), "Add reports a wrong number of values")
		m = append(m, &mnode{v: x.v, l: x.l, vals: []int{1<<16 + i}})
	}
	for i := 0; i < n; i++ {
		v, l := ps.any()
		mv := v & maskBits(w, l)
		for _, x := range m {
			nd.Assume(!nd.And(x.v == mv, x.l == l))
		}
		id := newID(w, v, l)
		ids = append(ids, id)
		inc, cnt := t.Add(id, i, nil)
		nd.Assert(nd.And(inc, cnt == 1), "Add reports a wrong number of values")
		m = append(m, &mnode{v: mv, l: l, vals: []int{i}})
	}
	for i := 0; i < nd.Param("d", 2); i++ {
		at := nd.Choice("at", len(ids))
		x := m[at]
		if nd.Param("only", 0) > 0 || nd.Choice("what", 2) == 0 {
			cnt := t.Delete(ids[at], func(a, b int) bool { return true }, 0)
			nd.Assert(cnt == len(x.vals), "Delete reports a wrong number of values")
			x.vals = nil
		} else {
			inc, cnt := t.Add(ids[at], n+i, nil)
			x.vals = append(x.vals, n+i)
			nd.Assert(inc, "Add does not report that the number of values grew")
			nd.Assert(cnt == len(x.vals), "Add reports a wrong number of values")
		}
		m.check(t)
	}
	// every prefix is still found where it is
	for i, x := range m {
		inc, cnt := t.Add(ids[i], 100+i, nil)
		x.vals = append(x.vals, 100+i)
		nd.Assert(inc, "Add does not report that the number of values grew")
		nd.Assert(cnt == len(x.vals), "a prefix is not found any more")
	}
	m.check(t)
}
