package h

import (
	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/id16"
	"github.com/henderiw/idxtable/pkg/tree/id32"
	"github.com/henderiw/idxtable/pkg/tree/id64"
	"github.com/henderiw/idxtable/verifx/nd"
)

func init() {
	All["C21_Arith"] = C21_Arith
	All["C21_Order"] = C21_Order
	All["C26_Relations"] = C26_Relations
	All["C26_Prefix"] = C26_Prefix
	All["C27_Join"] = C27_Join
}

func rangeFrom(w int, a, b uint64) tree.Range {
	switch w {
	case 16:
		return id16.RangeFrom(uint16(a), uint16(b))
	case 32:
		return id32.RangeFrom(uint32(a), uint32(b))
	}
	return id64.RangeFrom(a, b)
}

func rangeOfID(w int, id tree.ID) tree.Range {
	switch w {
	case 16:
		return id16.RangeOfID(id)
	case 32:
		return id32.RangeOfID(id)
	}
	return id64.RangeOfID(id)
}

func lastID(w int, id tree.ID) tree.ID {
	switch w {
	case 16:
		return id16.LastID(id)
	case 32:
		return id32.LastID(id)
	}
	return id64.LastID(id)
}

func isLeftBitSet(w int) tree.IsLeftBitSetFn {
	switch w {
	case 16:
		return id16.IsLeftBitSet
	case 32:
		return id32.IsLeftBitSet
	}
	return id64.IsLeftBitSet
}

// maskBits has the first n of w bits set.
func maskBits(w int, n uint8) uint64 {
	return nd.Ite(n == 0, 0, maxOf(w)&^((1<<uint64(uint8(w)-n))-1))
}

// lowBits has the bits after the first n of w bits set.
func lowBits(w int, n uint8) uint64 { return maxOf(w) &^ maskBits(w, n) }

func anyLen(name string, w int) uint8 {
	l := nd.U8(name)
	nd.Assume(l <= uint8(w))
	return l
}

// isID tells whether an id has the given parts.
func isID(i tree.ID, id uint64, l uint8) bool {
	return i != nil && nd.And(i.ID() == id, i.Length() == l)
}

// C21_Arith: every id and length.
func C21_Arith() {
	w := width()
	v, l := uw("id", w), anyLen("len", w)
	id := newID(w, v, l)
	nd.Assert(isID(id, v, l), "an id does not report its value and length")
	nd.Assert(isID(id.Copy(), v, l), "a copy of an id is different")
	max := maxOf(w)
	n := id.Next()
	nd.Observe("next", n.ID())
	if v == max {
		nd.Assert(isID(n, 0, 0), "the successor of the largest id is not the zero id")
	} else {
		nd.Assert(isID(n, v+1, l), "the successor is not one more, at the same length")
	}
	p := id.Prev()
	nd.Observe("prev", p.ID())
	if v == 0 {
		nd.Assert(isID(p, 0, 0), "the predecessor of the smallest id is not the zero id")
	} else {
		nd.Assert(isID(p, v-1, l), "the predecessor is not one less, at the same length")
	}
	nd.Assert(isID(id.Masked(), v&maskBits(w, l), l), "Masked does not clear exactly the bits after the length")
	b := nd.U8("bits")
	m, err := id.Mask(b)
	nd.Assert((err == nil) == (b <= uint8(w)), "Mask does not fail exactly above the width")
	if err == nil {
		nd.Assert(isID(m, v&maskBits(w, b), b), "Mask does not clear exactly the bits after the first n, with length n")
		nd.Observe("mask", m.ID())
	}
	if b <= l {
		s := id.ShiftLeft(b)
		nd.Assert(isID(s, v<<uint64(b)&max, l-b), "ShiftLeft does not drop the first n bits")
	}
	nd.Assert(id.IsLeftBitSet() == (v>>uint64(w-1) == 1), "IsLeftBitSet does not tell the first bit")
	nd.Assert(isLeftBitSet(w)(v) == (v>>uint64(w-1) == 1), "IsLeftBitSet does not tell the first bit")
	nd.Assert(isID(id, v, l), "a derived id changed the original")
}

// C21_Order: every pair and triple of ids.
func C21_Order() {
	w := width()
	va, la := uw("a", w), anyLen("la", w)
	vb, lb := uw("b", w), anyLen("lb", w)
	a, b := newID(w, va, la), newID(w, vb, lb)
	min := uint8(nd.Ite(la < lb, uint64(la), uint64(lb)))
	nd.Assert(a.Overlaps(b) == ((va^vb)&maskBits(w, min) == 0), "Overlaps does not tell whether the first bits agree")
	nd.Assert(a.Overlaps(b) == b.Overlaps(a), "Overlaps is not symmetric")
	c := a.Compare(b)
	nd.Observe("cmp", uint64(int64(c)))
	lt := nd.Or(la < lb, nd.And(la == lb, va < vb))
	gt := nd.Or(la > lb, nd.And(la == lb, va > vb))
	if lt {
		nd.Assert(c == -1, "Compare is not -1 for a smaller id")
	} else if gt {
		nd.Assert(c == 1, "Compare is not 1 for a larger id")
	} else {
		nd.Assert(c == 0, "Compare is not 0 for equal ids")
	}
	nd.Assert(b.Compare(a) == -c, "Compare is not antisymmetric")
	nd.Assert(a.Less(b) == (c < 0), "Less and Compare disagree")
	nd.Assert((c == 0) == (a == b), "Compare is 0 for different ids, or not for equal ones")
	vc, lc := uw("c", w), anyLen("lc", w)
	d := newID(w, vc, lc)
	if a.Less(b) && b.Less(d) {
		nd.Assert(a.Less(d), "Less is not transitive")
	}
	x := va ^ vb
	want := uint8(w)
	for i := 0; i < w; i++ {
		want = uint8(nd.Ite(x>>uint64(i)&1 == 1, uint64(w-1-i), uint64(want)))
	}
	nd.Assert(a.Matches(vb) == want, "Matches does not count the leading bits in common")
	nd.Observe("matches", uint64(a.Matches(vb)))
}

// C26_Relations: every pair of valid ranges.
func C26_Relations() {
	w := width()
	af, at := uw("af", w), uw("at", w)
	bf, bt := uw("bf", w), uw("bt", w)
	a := rangeFrom(w, af, at)
	nd.Assert(a.IsValid() == (af <= at), "a range is not valid exactly when from <= to")
	nd.Assert(!a.IsZero(), "a range made from bounds is the zero range")
	nd.Assume(af <= at)
	nd.Assume(bf <= bt)
	b := rangeFrom(w, bf, bt)
	f := uint8(w)
	nd.Assert(isID(a.From(), af, f), "From is not the lower bound")
	nd.Assert(isID(a.To(), at, f), "To is not the upper bound")
	nd.Assert(a.EntirelyBefore(b) == (at < bf), "EntirelyBefore is wrong")
	nd.Assert(a.CoveredBy(b) == nd.And(bf <= af, at <= bt), "CoveredBy is wrong")
	nd.Assert(a.InMiddleOf(b) == nd.And(bf < af, at < bt), "InMiddleOf is wrong")
	// as documented: overlaps the start of other entirely, but not all of other
	nd.Assert(a.OverlapsStartOf(b) == nd.And(af <= bf, at < bt), "OverlapsStartOf is wrong")
	nd.Assert(a.OverlapsEndOf(b) == nd.And(bf < af, bt <= at), "OverlapsEndOf is wrong")
	nd.Assert(a.Less(b) == nd.Or(af < bf, nd.And(af == bf, at > bt)), "Less does not order by start, then longer first")
	x := uw("x", w)
	c := a.SetFrom(newID(w, x, f))
	nd.Assert(isID(c.From(), x, f), "SetFrom does not set the lower bound")
	nd.Assert(isID(c.To(), at, f), "SetFrom changes the other bound")
	d := a.SetTo(newID(w, x, f))
	nd.Assert(isID(d.To(), x, f), "SetTo does not set the upper bound")
	nd.Assert(isID(d.From(), af, f), "SetTo changes the other bound")
	nd.Assert(isID(a.From(), af, f), "changing a bound changes the original")
	nd.Assert(isID(a.To(), at, f), "changing a bound changes the original")
	nd.Observe("valid", nd.Ite(c.IsValid(), 1, 0))
	nd.Assert(c.IsValid() == (x <= at), "a range is not valid exactly when from <= to")
}

// C26_Prefix: every prefix, stray bits included.
func C26_Prefix() {
	w := width()
	v, l := uw("id", w), uint8(nd.Choice("len", w+1))
	id := newID(w, v, l)
	r := rangeOfID(w, id)
	first := v & maskBits(w, l)
	last := v | lowBits(w, l)
	nd.Assert(isID(r.From(), first, uint8(w)), "the range of a prefix does not start at its first id")
	nd.Assert(isID(r.To(), last, uint8(w)), "the range of a prefix does not end at its last id")
	nd.Assert(r.IsValid(), "the range of a prefix is invalid")
	nd.Assert(isID(lastID(w, id), last, uint8(w)), "LastID has not exactly the free bits set")
	nd.Observe("last", lastID(w, id).ID())
	nd.Assert(isID(id, v, l), "the prefix was changed")
}

// C27_Join: every label, length and split point; stray bits anywhere.
func C27_Join() {
	w := width()
	v, n := uw("id", w), anyLen("n", w)
	s := nd.U8("split")
	nd.Assume(s <= n)
	head := v&maskBits(w, s) | uw("stray1", w)&lowBits(w, s)
	tail := (v<<uint64(s))&maskBits(w, n-s) | uw("stray2", w)&lowBits(w, n-s)
	tail &= maxOf(w)
	var j uint64
	var l uint8
	switch w {
	case 16:
		x, y := tree.MergeID16(uint16(head), s, uint16(tail), n-s)
		j, l = uint64(x), y
	case 32:
		x, y := tree.MergeID32(uint32(head), s, uint32(tail), n-s)
		j, l = uint64(x), y
	case 64:
		j, l = tree.MergeID64(head, s, tail, n-s)
	}
	nd.Assert(l == n, "the joined length is not the sum of the parts")
	nd.Assert(j == v&maskBits(w, n), "the joined label is not the split one")
	nd.Observe("join", j)
}
