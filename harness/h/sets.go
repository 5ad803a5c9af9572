package h

import (
	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/id16"
	"github.com/henderiw/idxtable/pkg/tree/id32"
	"github.com/henderiw/idxtable/pkg/tree/id64"
	"github.com/henderiw/idxtable/verifx/nd"
)

func init() {
	All["C23_Ops"] = C23_Ops
	All["C24_Take"] = C24_Take
}

// iset and ibuilder give the three widths one face.
type iset struct {
	w   int
	s16 *id16.IDSet
	s32 *id32.IDSet
	s64 *id64.IDSet
}

func (s iset) ranges() []tree.Range {
	switch s.w {
	case 16:
		return s.s16.Ranges()
	case 32:
		return s.s32.Ranges()
	}
	return s.s64.Ranges()
}

func (s iset) ids() []tree.ID {
	switch s.w {
	case 16:
		return s.s16.IDs()
	case 32:
		return s.s32.IDs()
	}
	return s.s64.IDs()
}

func (s iset) take(n uint8) (tree.ID, iset, bool) {
	r := iset{w: s.w}
	var id tree.ID
	var ok bool
	switch s.w {
	case 16:
		id, r.s16, ok = s.s16.RemoveFreePrefix(n)
	case 32:
		id, r.s32, ok = s.s32.RemoveFreePrefix(n)
	default:
		id, r.s64, ok = s.s64.RemoveFreePrefix(n)
	}
	return id, r, ok
}

type ibuilder struct {
	w   int
	b16 id16.IDSetBuilder
	b32 id32.IDSetBuilder
	b64 id64.IDSetBuilder
}

func (b *ibuilder) addRange(r tree.Range) {
	switch b.w {
	case 16:
		b.b16.AddRange(r)
	case 32:
		b.b32.AddRange(r)
	default:
		b.b64.AddRange(r)
	}
}

func (b *ibuilder) removeRange(r tree.Range) {
	switch b.w {
	case 16:
		b.b16.RemoveRange(r)
	case 32:
		b.b32.RemoveRange(r)
	default:
		b.b64.RemoveRange(r)
	}
}

func (b *ibuilder) addID(i tree.ID) {
	switch b.w {
	case 16:
		b.b16.AddId(i)
	case 32:
		b.b32.AddId(i)
	default:
		b.b64.AddId(i)
	}
}

func (b *ibuilder) removeID(i tree.ID) {
	switch b.w {
	case 16:
		b.b16.RemoveId(i)
	case 32:
		b.b32.RemoveId(i)
	default:
		b.b64.RemoveId(i)
	}
}

func (b *ibuilder) addSet(s iset) {
	switch b.w {
	case 16:
		b.b16.AddSet(s.s16)
	case 32:
		b.b32.AddSet(s.s32)
	default:
		b.b64.AddSet(s.s64)
	}
}

func (b *ibuilder) build() (iset, error) {
	r := iset{w: b.w}
	var err error
	switch b.w {
	case 16:
		r.s16, err = b.b16.IPSet()
	case 32:
		r.s32, err = b.b32.IPSet()
	default:
		r.s64, err = b.b64.IPSet()
	}
	return r, err
}

// span is a reference range; spans are in the order they were applied.
type span struct {
	a, b uint64
	add  bool
}

func within(x, a, b uint64) bool { return nd.And(a <= x, x <= b) }

func member(ops []span, x uint64) bool {
	in := false
	for _, o := range ops {
		in = nd.IteB(within(x, o.a, o.b), o.add, in)
	}
	return in
}

func inRanges(rs []tree.Range, x uint64) bool {
	in := false
	for _, r := range rs {
		in = nd.Or(in, within(x, r.From().ID(), r.To().ID()))
	}
	return in
}

// normal asserts that ranges are ascending, valid and apart.
func normal(w int, rs []tree.Range) {
	for i, r := range rs {
		nd.Assert(nd.And(r.From().Length() == uint8(w), r.To().Length() == uint8(w)), "a range of a set has bounds of another length")
		nd.Assert(r.From().ID() <= r.To().ID(), "a range of a set is not valid")
		if i > 0 {
			p := rs[i-1].To().ID()
			nd.Assert(nd.And(p < r.From().ID(), p+1 < r.From().ID()), "the ranges of a set are not ascending and apart")
		}
	}
}

func sameRanges(a, b []tree.Range) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = nd.And(ok, a[i].From().ID() == b[i].From().ID(), a[i].To().ID() == b[i].To().ID())
	}
	return ok
}

// C23_Ops: k operations with any bounds, in any order.
func C23_Ops() {
	w := width()
	b := &ibuilder{w: w}
	var ops []span
	kinds := nd.Param("kinds", 7)
	bad := false
	built := false
	var snap iset
	var snapOps []span
	var added []iset
	var addedRanges [][]tree.Range
	for k := nd.Param("k", 3); k > 0; k-- {
		op := nd.Choice("op", 7)
		if kinds>>uint(op)&1 == 0 {
			nd.Assume(false)
		}
		switch op {
		case 0, 1: // add or remove a range
			x, y := uw("from", w), uw("to", w)
			if nd.Param("bad", 0) > 0 {
				if x > y {
					bad = true
				} else {
					ops = append(ops, span{x, y, op == 0})
				}
			} else {
				nd.Assume(x <= y)
				ops = append(ops, span{x, y, op == 0})
			}
			if op == 0 {
				b.addRange(rangeFrom(w, x, y))
			} else {
				b.removeRange(rangeFrom(w, x, y))
			}
		case 2: // build in between; the set must not change later
			s, err := b.build()
			nd.Assert((err != nil) == bad, "an error is not reported exactly when a range was invalid")
			bad = false
			snap, built = s, true
			snapOps = append([]span{}, ops...)
		case 3, 4: // a prefix, stray bits included
			lens := []int{0, w, w / 2, 1, w - 1}
			l := uint8(lens[nd.Choice("len", nd.Param("lens", 5))])
			v := uw("id", w)
			id := newID(w, v, l)
			first, last := v&maskBits(w, l), v|lowBits(w, l)
			ops = append(ops, span{first, last, op == 3})
			if op == 3 {
				b.addID(id)
			} else {
				b.removeID(id)
			}
		case 5: // a set of up to two ranges
			o := &ibuilder{w: w}
			for i := 1 + nd.Choice("members", 2); i > 0; i-- {
				x, y := uw("from", w), uw("to", w)
				nd.Assume(x <= y)
				o.addRange(rangeFrom(w, x, y))
				ops = append(ops, span{x, y, true})
				nd.Assume(len(ops) <= nd.Param("max", 9))
			}
			s, err := o.build()
			nd.Assert(err == nil, "building a set of valid ranges fails")
			added, addedRanges = append(added, s), append(addedRanges, s.ranges())
			b.addSet(s)
		case 6:
			b.addSet(iset{w: w}) // no set
		}
	}
	nd.Assume(len(ops) <= nd.Param("max", 9))
	s, err := b.build()
	nd.Assert((err != nil) == bad, "an error is not reported exactly when a range was invalid")
	rs := s.ranges()
	normal(w, rs)
	x := uw("x", w)
	nd.Assert(inRanges(rs, x) == member(ops, x), "an id is not in the set exactly when the last operation covering it added it")
	s2, err := b.build()
	nd.Assert(err == nil, "an error is reported twice")
	nd.Assert(sameRanges(rs, s2.ranges()), "building again gives another set")
	if built {
		normal(w, snap.ranges())
		nd.Assert(inRanges(snap.ranges(), x) == member(snapOps, x), "a set built earlier changed")
	}
	for i, a := range added {
		nd.Assert(sameRanges(addedRanges[i], a.ranges()), "a set added to a builder changed")
	}
	nd.Observe("n", uint64(len(rs)))
	for _, r := range rs {
		nd.Observe("from", r.From().ID())
		nd.Observe("to", r.To().ID())
	}
}

// C24_Take: a set of up to k ranges with bounds on the multiples of a unit,
// anywhere; any prefix length.
func C24_Take() {
	w, k, win := width(), nd.Param("k", 2), nd.Param("win", 3)
	sh := nd.Choice("shift", w-win+1)
	low := uint64(1)<<uint(sh) - 1
	var hi uint64
	if sh+win < w {
		hi = uw("hi", w) >> uint(sh+win) << uint(sh+win)
	}
	b := &ibuilder{w: w}
	n := 1 << uint(win)
	have := make([]bool, n)
	from := 0
	for i := 0; i < k && from < n; i++ {
		// ascending, apart
		f := from + nd.Choice("from", n-from+1)
		if f >= n {
			break
		}
		t := f + nd.Choice("to", n-f)
		b.addRange(rangeFrom(w, hi|uint64(f)<<uint(sh), hi|uint64(t)<<uint(sh)|low))
		for j := f; j <= t; j++ {
			have[j] = true
		}
		from = t + 2
	}
	s, err := b.build()
	nd.Assert(err == nil, "building a set of valid ranges fails")
	// lengths around the unit, and the extremes
	lens := []int{0, w}
	for j := w - sh - win - 1; j <= w-sh+1; j++ {
		if j > 0 && j < w {
			lens = append(lens, j)
		}
	}
	l := uint8(lens[nd.Choice("len", len(lens))])
	before := s.ranges()
	// does the set contain an aligned block of that size?
	want := false
	if int(l) > w-sh { // smaller than a unit
		for _, h := range have {
			want = want || h
		}
	} else if d := w - sh - int(l); d <= win { // a block of 2^d units
		for i := 0; i < n; i += 1 << uint(d) {
			all := true
			for j := i; j < i+1<<uint(d); j++ {
				all = all && have[j]
			}
			want = want || all
		}
	}
	id, rest, ok := s.take(l)
	nd.Assert(ok == want, "taking a prefix does not succeed exactly when the set contains such a block")
	nd.Assert(sameRanges(before, s.ranges()), "taking a prefix modified the set")
	rs := rest.ranges()
	if !ok {
		nd.Assert(sameRanges(before, rs), "another set is returned though no prefix was taken")
		return
	}
	nd.Assert(id != nil, "no prefix is returned")
	v := id.ID()
	nd.Assert(id.Length() == l, "a prefix of another length is returned")
	nd.Assert(v&lowBits(w, l) == 0, "the prefix is not aligned")
	last := v | lowBits(w, l)
	inside := false
	for _, r := range before {
		inside = nd.Or(inside, nd.And(r.From().ID() <= v, last <= r.To().ID()))
	}
	nd.Assert(inside, "the prefix is not contained in the set")
	normal(w, rs)
	x := uw("x", w)
	nd.Assert(inRanges(rs, x) == nd.And(inRanges(before, x), !within(x, v, last)), "the remaining set is not exactly the rest")
	nd.Observe("id", v)
}
