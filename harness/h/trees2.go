package h

import (
	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/gtree"
	"github.com/henderiw/idxtable/verifx/nd"
)

func init() {
	All["C16_Free"] = C16_Free
	All["C16_Small"] = C16_Small
	All["C17_Range"] = C17_Range
	All["C17_Small"] = C17_Small
	All["C17_Text"] = C17_Text
}

// covered tells whether a claimed prefix covers x.
func (m *gtm) covered(x uint64) bool {
	r := false
	for _, n := range m.n {
		r = nd.Or(r, nd.And(n.on, x&maskBits(m.w, n.l) == n.v))
	}
	return r
}

// claimFree claims a free id and checks the outcome.
func (m *gtm) claimFree(t gtree.GTree) {
	m.next++
	e, err := t.ClaimFree(labelOf(m.next))
	if err != nil {
		x := uw("x", m.w)
		nd.Assert(nd.Or(x > m.max, m.covered(x)), "a free claim fails though an id is not covered")
		nd.Observe("full", 1)
		return
	}
	nd.Assert(e != nil, "a free claim returns no entry")
	v := e.ID().ID()
	nd.Assert(v <= m.max, "a free claim returns an id outside the tree")
	nd.Assert(e.ID().Length() == uint8(m.w), "a free claim returns an id that is not of full length")
	nd.Assert(!m.covered(v), "a free claim returns an id that a claimed prefix covers")
	nd.Assert(labelNo(e.Labels()) == m.next, "a free claim returns other labels")
	nd.Observe("id", v)
	m.put(v, uint8(m.w), m.next)
}

// near is a prefix of the tree whose bits vary in win places: at the top, in
// the middle or at the bottom of the tree; the bits before them are all 0 or
// all 1. It ends there, or is an id of full length that goes on with 0s or 1s.
func (m *gtm) near(win int) (uint64, uint8) {
	w, top := m.w, m.w-int(m.l)
	win = min(win, int(m.l))
	s := []int{top, w - win, top + (w-win-top)/2}[nd.Choice("window", nd.Param("at", 3))]
	var v uint64
	if s > top && nd.Choice("before", 2) == 1 {
		v = lowBits(w, uint8(top)) & maskBits(w, uint8(s))
	}
	sh := uint(w - s - win)
	v |= uw("id", w) >> sh & (1<<uint(win) - 1) << sh
	l := uint8(s + nd.Choice("length", win+1))
	if tail := nd.Choice("tail", 3); tail == 0 {
		v &= maskBits(w, l)
	} else {
		v &= maskBits(w, l)
		if tail == 2 {
			v |= lowBits(w, l)
		}
		nd.Assume(int(l) < w)
		l = uint8(w)
	}
	return v, l
}

// C16_Free: claims of near prefixes, some released, then free claims.
func C16_Free() {
	w := width()
	ls := []int{w, w - 1, w/2 + 1, 3}
	l := uint8(ls[nd.Choice("treelen", nd.Param("lens", len(ls)))])
	m := &gtm{w: w, l: l, max: lowBits(w, uint8(w)-l), next: -1}
	t := newTree(w, l)
	win := nd.Param("win", 2)
	for k := nd.Param("k", 1); k > 0; k-- {
		m.next++
		v, pl := m.near(win)
		nd.Assert(t.ClaimID(newID(w, v, pl), labelOf(m.next)) == nil, "claiming a prefix of the tree fails")
		m.put(v, pl, m.next)
	}
	if nd.Param("d", 0) > 0 && nd.Choice("release", 2) == 1 {
		x := &m.n[nd.Choice("which", len(m.n))]
		nd.Assert(t.ReleaseID(newID(w, x.v, x.l)) == nil, "releasing a prefix of the tree fails")
		x.on = false
	}
	for i := nd.Param("free", 1); i > 0; i-- {
		m.claimFree(t)
	}
	m.listed(t.GetAll(), every)
}

// C16_Small: a tree of few ids; any of them claimed, prefixes too, until full.
func C16_Small() {
	w := width()
	l := uint8(nd.Choice("treelen", nd.Param("maxlen", 2)+1))
	m := &gtm{w: w, l: l, max: lowBits(w, uint8(w)-l), next: -1}
	t := newTree(w, l)
	for d := int(l); d >= 0; d-- { // every prefix of the tree
		for i := 0; i < 1<<(int(l)-d); i++ {
			if nd.Choice("claim", 2) == 1 {
				m.next++
				v, pl := uint64(i)<<uint(d), uint8(w-d)
				nd.Assert(t.ClaimID(newID(w, v, pl), labelOf(m.next)) == nil, "claiming a prefix of the tree fails")
				m.n = append(m.n, gnode{v, pl, m.next, true, 0})
			}
		}
	}
	for i := nd.Param("free", 2); i > 0; i-- {
		if len(m.n) > 0 && nd.Choice("release", 2) == 1 {
			x := &m.n[nd.Choice("which", len(m.n))]
			nd.Assume(x.on)
			nd.Assert(t.ReleaseID(newID(w, x.v, x.l)) == nil, "releasing a prefix of the tree fails")
			x.on = false
		}
		m.claimFree(t)
	}
	m.listed(t.GetAll(), every)
}

// claimsRange checks what a range claim of a..b did to a tree; before are the
// entries it had.
func (m *gtm) claimsRange(t gtree.GTree, a, b uint64, err error, label int) {
	nd.Assert((err == nil) == nd.And(a <= b, b <= m.max), "a range claim is not rejected exactly for ranges out of order or outside the tree")
	if err != nil {
		m.listed(t.GetAll(), every)
		return
	}
	var mine, others tree.Entries
	for _, e := range t.GetAll() {
		if labelNo(e.Labels()) == label {
			mine = append(mine, e)
		} else {
			others = append(others, e)
		}
	}
	// the prefixes are disjoint, and cover exactly a..b
	x := uw("x", m.w)
	in := false
	for i, e := range mine {
		v, l := e.ID().ID(), e.ID().Length()
		last := v | lowBits(m.w, l)
		nd.Assert(nd.And(l <= uint8(m.w), v&lowBits(m.w, l) == 0), "a range is claimed with a malformed prefix")
		nd.Assert(nd.And(a <= v, last <= b), "a range claim takes an id outside the range")
		in = nd.Or(in, within(x, v, last))
		for _, o := range mine[:i] {
			ol := o.ID().ID() | lowBits(m.w, o.ID().Length())
			nd.Assert(nd.Or(last < o.ID().ID(), ol < v), "a range is claimed with overlapping prefixes")
		}
		nd.Observe("id", v)
		nd.Observe("len", uint64(l))
	}
	nd.Assert(in == within(x, a, b), "a range claim does not cover exactly the range")
	// the others are as before, but for those that are prefixes of the range
	for i := range m.n {
		n := &m.n[i]
		for _, e := range mine {
			if nd.And(e.ID().ID() == n.v, e.ID().Length() == n.l) {
				n.on = false
			}
		}
	}
	m.listed(others, every)
	for _, e := range mine {
		m.n = append(m.n, gnode{e.ID().ID(), e.ID().Length(), label, true, 0})
	}
}

func rangeText(a, b uint64) string {
	if nd.Param("pad", 0) > 0 {
		return nd.Padded(a) + "-" + nd.Padded(b)
	}
	return nd.Decimal(a) + "-" + nd.Decimal(b)
}

// C17_Range: any claimed prefixes, then a claim of any range whose bounds vary
// in win bits at any position; then free claims.
func C17_Range() {
	w := width()
	t, m := newGtm(w)
	var a, b uint64
	if win := nd.Param("bits", 2); win > 0 {
		s := nd.Choice("shift", w-win+1)
		a, b = uw("a", w), uw("b", w)
		low := uint64(1)<<uint(s) - 1
		nd.Assume(a>>uint(s+win-1)>>1 == b>>uint(s+win-1)>>1)
		nd.Assume(nd.And(a&low == 0, b&low == low, a <= b))
	} else { // bounds that are never a range of the tree
		a, b = uw("a", w), uw("b", w)
		nd.Assume(nd.Or(a > b, b > m.max))
	}
	if win := nd.Param("near", 0); win > 0 {
		for k := nd.Param("k", 1); k > 0; k-- {
			m.next++
			v, l := m.near(win)
			nd.Assert(t.ClaimID(newID(w, v, l), labelOf(m.next)) == nil, "claiming a prefix of the tree fails")
			m.put(v, l, m.next)
		}
	} else {
		m.populate(t, nd.Param("k", 1), 0)
	}
	m.next++
	label := m.next
	err := t.ClaimRange(rangeText(a, b), labelOf(label))
	m.claimsRange(t, a, b, err, label)
	for i := nd.Param("free", 0); i > 0; i-- {
		m.claimFree(t)
	}
}

// C17_Small: a tree of few ids, any claimed, any range of it; free claims.
func C17_Small() {
	w := width()
	l := uint8(nd.Choice("treelen", nd.Param("maxlen", 3)+1))
	m := &gtm{w: w, l: l, max: lowBits(w, uint8(w)-l), next: -1}
	t := newTree(w, l)
	m.ps = newPrefixes(w)
	for k := nd.Param("k", 1); k > 0; k-- {
		d := nd.Choice("size", int(l)+1)
		v, pl := uint64(nd.Choice("claim", 1<<(int(l)-d)))<<uint(d), uint8(w-d)
		m.next++
		nd.Assert(t.ClaimID(newID(w, v, pl), labelOf(m.next)) == nil, "claiming a prefix of the tree fails")
		m.put(v, pl, m.next)
	}
	a, b := uw("a", w), uw("b", w)
	nd.Assume(nd.And(a <= m.max, b <= m.max+1))
	m.next++
	label := m.next
	err := t.ClaimRange(rangeText(a, b), labelOf(label))
	m.claimsRange(t, a, b, err, label)
	for i := nd.Param("free", 2); i > 0; i-- {
		m.claimFree(t)
	}
}

// C17_Text: a text of up to n bytes that is not a range of numbers.
func C17_Text() {
	w := width()
	t, m := newGtm(w)
	m.populate(t, nd.Param("k", 1), 0)
	text := anyBytes(nd.Choice("len", nd.Param("n", 4)+1))
	at := -1
	for i, c := range text {
		if c == '-' {
			at = i
			break
		}
	}
	if at >= 0 {
		_, aok := number(text[:at], w)
		_, bok := number(text[at+1:], w)
		nd.Assume(!nd.And(aok, bok))
	}
	m.next++
	err := t.ClaimRange(string(text), labelOf(m.next))
	nd.Assert(err != nil, "a malformed range is claimed")
	m.listed(t.GetAll(), every)
}
