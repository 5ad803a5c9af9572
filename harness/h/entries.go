package h

import (
	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/verifx/nd"
	"k8s.io/apimachinery/pkg/labels"
)

func init() {
	All["C29_Equal"] = C29_Equal
	All["C29_Labels"] = C29_Labels
	All["C29_Derive"] = C29_Derive
}

// anyLabels is nil, or a set over two keys whose values are texts of up to n
// arbitrary bytes; has and val describe it.
type anyLabels struct {
	set labels.Set
	has [2]bool
	val [2][]byte
}

var labelKeys = [2]string{"a", "b"}

func chooseLabels(n int) anyLabels {
	var r anyLabels
	c := nd.Choice("keys", 5)
	if c == 4 {
		return r
	}
	r.set = labels.Set{}
	for i, k := range labelKeys {
		if c&(1<<i) == 0 {
			continue
		}
		r.has[i] = true
		l := nd.Choice("vlen", n+1)
		for j := 0; j < l; j++ {
			r.val[i] = append(r.val[i], nd.U8("v"))
		}
		r.set[k] = string(r.val[i])
	}
	return r
}

func (a anyLabels) equal(b anyLabels) bool {
	r := a.has == b.has && len(a.val[0]) == len(b.val[0]) && len(a.val[1]) == len(b.val[1])
	if !r {
		return false
	}
	for i := range a.val {
		for j := range a.val[i] {
			r = nd.And(r, a.val[i][j] == b.val[i][j])
		}
	}
	return r
}

// reports tells whether an entry has exactly these labels.
func (a anyLabels) reports(s labels.Set) bool {
	n := 0
	r := true
	for i, k := range labelKeys {
		v, ok := s[k]
		if ok != a.has[i] {
			return false
		}
		if ok {
			n++
			r = nd.And(r, v == string(a.val[i]))
		}
	}
	return nd.And(r, len(s) == n)
}

// C29_Equal: any two ids; equal, different, absent and empty label sets.
func C29_Equal() {
	w := width()
	sets := []labels.Set{nil, {}, {"a": "x"}, {"a": "y"}, {"b": "x"}, {"a": "x", "b": "x"}, {"a": "x,b=x"}, {"a=x,b": "x"}, {"": ""}, {"a": ""}}
	class := func(i int) int { // nil and the empty set agree
		if i == 0 {
			return 1
		}
		return i
	}
	x, y := nd.Choice("x", len(sets)), nd.Choice("y", len(sets))
	va, la := uw("a", w), nd.U8("la")
	vb, lb := uw("b", w), nd.U8("lb")
	e1 := tree.NewEntry(newID(w, va, la), sets[x])
	e2 := tree.NewEntry(newID(w, vb, lb), sets[y])
	nd.Assert(isID(e1.ID(), va, la), "an entry does not report its id and length")
	nd.Assert(labels.Equals(e1.Labels(), sets[x]), "an entry does not report its labels")
	want := nd.And(class(x) == class(y), va == vb, la == lb)
	nd.Assert(e1.Equal(e2) == want, "two entries are not equal exactly when id, length and labels agree")
	nd.Assert(e2.Equal(e1) == want, "equality of entries is not symmetric")
	nd.Assert(e1.Equal(e1), "an entry is not equal to itself")
	nd.Observe("eq", nd.Ite(e1.Equal(e2), 1, 0))
}

// C29_Labels: one id, label values of arbitrary bytes.
func C29_Labels() {
	w := width()
	n := nd.Param("n", 2)
	a, b := chooseLabels(n), chooseLabels(nd.Param("m", n))
	v, l := uw("a", w), nd.U8("la")
	e1 := tree.NewEntry(newID(w, v, l), a.set)
	e2 := tree.NewEntry(newID(w, v, l), b.set)
	nd.Assert(a.reports(e1.Labels()), "an entry does not report its labels")
	nd.Assert(b.reports(e2.Labels()), "an entry does not report its labels")
	want := a.equal(b)
	nd.Assert(e1.Equal(e2) == want, "two entries of one id are not equal exactly when their labels agree")
	nd.Assert(e2.Equal(e1) == want, "equality of entries is not symmetric")
	nd.Assert(e1.Equal(e1), "an entry is not equal to itself")
	nd.Observe("eq", nd.Ite(e1.Equal(e2), 1, 0))
}

// derive makes every id that derives from id.
func derive(id tree.ID, bits uint8) {
	nd.Observe("next", id.Next().ID())
	nd.Observe("prev", id.Prev().ID())
	if m, err := id.Mask(bits); err == nil {
		m.ShiftLeft(1)
		m.Next()
	}
	id.Masked().Next()
	s := id.ShiftLeft(bits)
	s.Next()
	s.ShiftLeft(1)
	c := id.Copy()
	c.Next()
	c.ShiftLeft(1)
	id.Overlaps(c)
	id.Matches(0)
	id.Compare(c)
}

// C29_Derive: ids made directly, taken from ranges, entries, tables and trees;
// whatever is derived from them, they and their holders stay as they are.
func C29_Derive() {
	w := width()
	bits := nd.U8("bits")
	var v uint64
	var l uint8
	var id tree.ID
	keep := func() {}
	switch nd.Choice("from", 5) {
	case 0: // an id and entries that hold it
		v, l = uw("id", w), anyLen("len", w)
		id = newID(w, v, l)
		e := tree.NewEntry(id, labelOf(1))
		c := id.Copy()
		keep = func() {
			nd.Assert(isID(e.ID(), v, l), "an entry changes with an id derived from the one it holds")
			nd.Assert(isID(c, v, l), "a copy changes with an id derived from the original")
		}
	case 1: // an id an entry gives out
		v, l = uw("id", w), anyLen("len", w)
		e := tree.NewEntry(newID(w, v, l), labelOf(1))
		id = e.ID()
		keep = func() { nd.Assert(isID(e.ID(), v, l), "an entry changes with an id derived from its own") }
	case 2: // the bounds of a range, and its prefixes
		v, l = uw("id", w), uint8(w)
		r := rangeFrom(w, v, v)
		id = r.From()
		ps := r.IDs()
		nd.Assert(len(ps) == 1, "a range of one id has not one prefix")
		e := tree.NewEntry(ps[0], labelOf(1))
		derive(ps[0], bits)
		derive(r.To(), bits)
		keep = func() {
			nd.Assert(isID(ps[0], v, l), "a prefix of a range changes with an id derived from it")
			nd.Assert(isID(r.From(), v, l), "a range changes with an id derived from its bound")
			nd.Assert(isID(r.To(), v, l), "a range changes with an id derived from its bound")
			nd.Assert(isID(e.ID(), v, l), "an entry changes with an id derived from the one it holds")
		}
	case 3: // a table's entry
		v, l = uw("id", w), uint8(w)
		t := newTable(w, v, v)
		nd.Assert(t.Claim(v, labelOf(1)) == nil, "Claim of an unclaimed id of the range fails")
		e, err := t.Get(v)
		nd.Assert(err == nil, "Get of a claimed id fails")
		id = e.ID()
		keep = func() {
			x, err := t.Get(v)
			nd.Assert(err == nil, "Get of a claimed id fails")
			nd.Assert(isID(x.ID(), v, l), "an entry of a table changes with an id derived from its own")
		}
	case 4: // a tree's entry
		v, l = uint64(nd.Choice("v", 4)), uint8(w)
		t := newTree(w, 2)
		given := newID(w, v, l)
		nd.Assert(t.ClaimID(given, labelOf(1)) == nil, "claiming an id of the tree fails")
		derive(given, bits)
		es := t.GetAll()
		nd.Assert(len(es) == 1, "a tree of one entry does not list one")
		id = es[0].ID()
		keep = func() {
			x, err := t.Get(newID(w, v, l))
			nd.Assert(err == nil, "Get of a claimed prefix fails")
			nd.Assert(isID(x.ID(), v, l), "an entry of a tree changes with an id derived from its own")
			nd.Assert(isID(es[0].ID(), v, l), "a listed entry changes with an id derived from its own")
		}
	}
	nd.Assert(isID(id.Copy(), v, l), "a copy of an id is not equal to it")
	nd.Assert(id.Copy().Compare(id) == 0, "a copy of an id is not equal to it")
	derive(id, bits)
	nd.Assert(isID(id, v, l), "a derived id changed the original")
	keep()
}
