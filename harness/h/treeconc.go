package h

import (
	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/gtree"
	"github.com/henderiw/idxtable/verifx/nd"
	"k8s.io/apimachinery/pkg/labels"
)

func init() {
	All["C20_Pairs"] = C20_Pairs
}

const (
	tcClaim = iota
	tcRelease
	tcFree
	tcRange
	tcUpdate
	tcRelLabel
	tcGet
	tcAll
	tcByLabel
	tcSize
	tcChildren
	tcParents
	tcClone
	tcKinds
)

type tcall struct {
	kind  int
	v     uint64
	l     uint8
	text  string
	a, b  uint64 // the range of text
	label int
	sel   labels.Selector
	yes   []bool
}

func entries(es tree.Entries) lres {
	r := succ()
	for _, e := range es {
		r.v = append(r.v, e.ID().ID(), uint64(e.ID().Length()), uint64(labelNo(e.Labels())))
	}
	return r
}

func (c tcall) run(t gtree.GTree, w int) lres {
	switch c.kind {
	case tcClaim:
		return lres{ok: t.ClaimID(newID(w, c.v, c.l), labelOf(c.label)) == nil}
	case tcRelease:
		return lres{ok: t.ReleaseID(newID(w, c.v, c.l)) == nil}
	case tcFree:
		e, err := t.ClaimFree(labelOf(c.label))
		if err != nil {
			return fail()
		}
		return entries(tree.Entries{e})
	case tcRange:
		return lres{ok: t.ClaimRange(c.text, labelOf(c.label)) == nil}
	case tcUpdate:
		return lres{ok: t.Update(newID(w, c.v, c.l), labelOf(c.label)) == nil}
	case tcRelLabel:
		return lres{ok: t.ReleaseByLabel(c.sel) == nil}
	case tcGet:
		e, err := t.Get(newID(w, c.v, c.l))
		if err != nil {
			return fail()
		}
		return entries(tree.Entries{e})
	case tcAll:
		return entries(t.GetAll())
	case tcByLabel:
		return entries(t.GetByLabel(c.sel))
	case tcSize:
		return succ(uint64(t.Size()))
	case tcChildren:
		return entries(t.Children(newID(w, c.v, c.l)))
	case tcParents:
		return entries(t.Parents(newID(w, c.v, c.l)))
	case tcClone:
		return entries(t.Clone().GetAll())
	}
	return fail()
}

// lists tells whether the triples are exactly the claimed prefixes want picks.
func (m *gtm) lists(r lres, want func(n gnode) bool) bool {
	good := r.ok
	n := 0
	for _, x := range m.n {
		if !x.on || !want(x) {
			continue
		}
		n++
		found := false
		for i := 0; i+2 < len(r.v); i += 3 {
			found = nd.Or(found, nd.And(r.v[i] == x.v, r.v[i+1] == uint64(x.l), r.v[i+2] == uint64(x.label)))
		}
		good = nd.And(good, found)
	}
	return nd.And(good, len(r.v) == 3*n)
}

// apply changes the reference as the call does, and judges its outcome.
func (c tcall) apply(m *gtm, got lres) bool {
	switch c.kind {
	case tcClaim, tcUpdate:
		m.put(c.v, c.l, c.label)
		return got.ok
	case tcRelease:
		m.drop(c.v, c.l)
		return got.ok
	case tcFree:
		if !got.ok {
			r := true
			for x := uint64(0); x <= m.max; x++ {
				r = nd.And(r, m.covered(x))
			}
			return r
		}
		v := got.v[0]
		r := nd.And(v <= m.max, got.v[1] == uint64(m.w), got.v[2] == uint64(c.label), !m.covered(v))
		m.put(v, uint8(m.w), c.label)
		return r
	case tcRange:
		for _, id := range rangeFrom(m.w, c.a, c.b).IDs() {
			m.put(id.ID(), id.Length(), c.label)
		}
		return got.ok
	case tcRelLabel:
		for i := range m.n {
			if m.n[i].on && c.yes[m.n[i].label] {
				m.n[i].on = false
			}
		}
		return got.ok
	case tcGet:
		at := m.find(c.v, c.l)
		if at < 0 || !m.n[at].on {
			return !got.ok
		}
		return nd.And(got.ok, len(got.v) == 3) && nd.And(got.v[0] == c.v, got.v[1] == uint64(c.l), got.v[2] == uint64(m.n[at].label))
	case tcAll, tcClone:
		return m.lists(got, every)
	case tcByLabel:
		return m.lists(got, func(n gnode) bool { return c.yes[n.label] })
	case tcSize:
		return got.v[0] == uint64(m.size())
	case tcChildren:
		return m.lists(got, func(n gnode) bool { return nd.And(m.inside(n.v, n.l, c.v, c.l), n.l != c.l) })
	case tcParents:
		return m.lists(got, func(n gnode) bool { return nd.And(m.inside(c.v, c.l, n.v, n.l), n.l != c.l) })
	}
	return false
}

// C20_Pairs: threads of one or two calls each on a tree of 2^L ids with some
// prior claims. Kinds, prefixes and labels are arbitrary.
func C20_Pairs() {
	w := width()
	l := uint8(nd.Param("L", 1))
	m := &gtm{w: w, l: l, max: lowBits(w, uint8(w)-l), next: -1}
	t := newTree(w, l)
	claim := func(v uint64, pl uint8) {
		m.next++
		nd.Assert(t.ClaimID(newID(w, v, pl), labelOf(m.next)) == nil, "claiming a prefix of the tree fails")
		m.put(v, pl, m.next)
	}
	if nd.Param("prefix", 0) > 0 && nd.Choice("prefix", 2) == 1 {
		claim(0, uint8(w)-l) // the whole tree
	}
	for x := uint64(0); x <= m.max; x++ {
		if nd.Choice("occ", 2) == 1 {
			claim(x, uint8(w))
		}
	}
	th := nd.Param("threads", 2)
	total := 16
	var lens []int
	var calls [][]tcall
	last := 0
	for i := 0; i < th; i++ {
		n := nd.Param("calls", 1)
		if i > 0 {
			n = nd.Param("calls2", n)
		}
		lens = append(lens, n)
		var cs []tcall
		for j := 0; j < n; j++ {
			k := pickKind("kind", tcKinds)
			if i > 0 && n == 1 && lens[i-1] == 1 {
				nd.Assume(k >= last) // symmetric threads
			}
			last = k
			c := tcall{kind: k, label: 8 + 2*i + j, l: uint8(w)}
			switch k {
			case tcClaim, tcRelease, tcUpdate, tcGet, tcParents:
				c.v = uw("id", w)
				nd.Assume(c.v <= m.max)
				if nd.Param("prefix", 0) > 0 && nd.Choice("short", 2) == 1 {
					c.v, c.l = 0, uint8(w)-l
				}
			case tcChildren:
				c.v, c.l = 0, uint8(w)-l
			case tcRange:
				c.a, c.b, c.text = 0, m.max, nd.Decimal(0)+"-"+nd.Decimal(m.max)
				if m.max > 1 && nd.Choice("range", 2) == 1 {
					c.a, c.text = 1, nd.Decimal(1)+"-"+nd.Decimal(m.max)
				}
			case tcRelLabel, tcByLabel:
				// everything, the entries of before, or those of the calls
				what := nd.Choice("sel", 3)
				for x := 0; x < total; x++ {
					y := what == 0 || (x < 8) == (what == 1)
					c.yes = append(c.yes, y)
				}
				c.sel = selOf(c.yes)
			}
			cs = append(cs, c)
		}
		calls = append(calls, cs)
	}
	explain(lens,
		func(th, i int) lres { return calls[th][i].run(t, w) },
		func() (func(th, i int, got lres) bool, func() bool) {
			mm := m.copy()
			return func(th, i int, got lres) bool { return calls[th][i].apply(mm, got) },
				func() bool { return mm.lists(entries(t.GetAll()), every) }
		}, "the concurrent calls have no sequential explanation")
}
