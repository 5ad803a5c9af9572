package h

import (
	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/gtree"
	"github.com/henderiw/idxtable/pkg/tree/tree16"
	"github.com/henderiw/idxtable/pkg/tree/tree32"
	"github.com/henderiw/idxtable/pkg/tree/tree64"
	"github.com/henderiw/idxtable/verifx/nd"
)

func init() {
	All["C13_Map"] = C13_Map
	All["C14_List"] = C14_List
	All["C15_Kin"] = C15_Kin
	All["C18_Labels"] = C18_Labels
	All["C19_Clone"] = C19_Clone
}

func newTree(w int, l uint8) gtree.GTree {
	var t gtree.GTree
	var err error
	switch w {
	case 16:
		t, err = tree16.New("t", l)
	case 32:
		t, err = tree32.New("t", l)
	default:
		t, err = tree64.New("t", l)
	}
	nd.Assert(err == nil, "a tree of a valid length is not created")
	return t
}

// gtm is the reference of a tree: claimed prefixes with the number of their labels.
type gtm struct {
	w    int
	l    uint8
	max  uint64
	ps   *prefixes
	n    []gnode
	next int // label number used last
}

type gnode struct {
	v     uint64 // without bits beyond the length
	l     uint8
	label int
	on    bool
	host  uint64 // the bits beyond the length it was claimed with
}

// treeLen picks the length of the tree: a fixed one, or any.
func treeLen(w int) uint8 {
	switch l := nd.Param("L", w); {
	case l >= 0:
		return uint8(l)
	case l == -1:
		return anyLen("treelen", w)
	default: // -n: the last n lengths
		return uint8(w + l + 1 + nd.Choice("treelen", -l))
	}
}

func newGtm(w int) (gtree.GTree, *gtm) {
	l := treeLen(w)
	m := &gtm{w: w, l: l, max: lowBits(w, uint8(w)-l), next: -1}
	t := newTree(w, l)
	m.ps = newPrefixes(w)
	for _, x := range scaffold(w, m.max) {
		m.next++
		nd.Assert(t.ClaimID(newID(w, x.v, x.l), labelOf(m.next)) == nil, "claiming a prefix of the tree fails")
		m.n = append(m.n, gnode{x.v, x.l, m.next, true, 0})
	}
	return t, m
}

// prefix is any canonical prefix, not necessarily one the tree accepts.
func (m *gtm) prefix() (tree.ID, uint64, uint8) {
	v, l := m.ps.any()
	if m.ps.win == 0 || m.ps.stray {
		v &= maskBits(m.w, l)
	}
	return newID(m.w, v, l), v, l
}

func (m *gtm) find(v uint64, l uint8) int {
	for i, n := range m.n {
		if nd.And(n.l == l, n.v == v) {
			return i
		}
	}
	return -1
}

// size is the number of claimed prefixes.
func (m *gtm) size() int {
	n := 0
	for _, x := range m.n {
		if x.on {
			n++
		}
	}
	return n
}

func (m *gtm) put(v uint64, l uint8, label int) {
	if i := m.find(v, l); i >= 0 {
		m.n[i].label, m.n[i].on, m.n[i].host = label, true, 0
	} else {
		m.n = append(m.n, gnode{v, l, label, true, 0})
	}
}

func (m *gtm) drop(v uint64, l uint8) {
	if i := m.find(v, l); i >= 0 {
		m.n[i].on = false
	}
}

// step is one claim, update or release with any prefix.
func (m *gtm) step(t gtree.GTree, op int) {
	id, v, l := m.prefix()
	ok := v <= m.max
	switch op {
	case 0, 1:
		m.next++
		var err error
		if op == 0 {
			err = t.ClaimID(id, labelOf(m.next))
		} else {
			err = t.Update(id, labelOf(m.next))
		}
		nd.Assert((err == nil) == ok, "a claim or update is not rejected exactly for ids above the largest of the tree")
		if ok {
			m.put(v, l, m.next)
		}
	case 2:
		err := t.ReleaseID(id)
		nd.Assert((err == nil) == ok, "a release is not rejected exactly for ids above the largest of the tree")
		if ok {
			m.drop(v, l)
		}
	}
}

// populate claims k different prefixes the tree accepts, and releases up to d
// of them again.
func (m *gtm) populate(t gtree.GTree, k, d int) {
	host := nd.Param("host", 0) > 0
	for i := 0; i < k; i++ {
		id, v, l := m.prefix()
		var h uint64
		if host { // any bits beyond the length
			h = uw("host", m.w) &^ maskBits(m.w, l)
			id = newID(m.w, v|h, l)
		}
		nd.Assume(v|h <= m.max)
		for _, x := range m.n {
			nd.Assume(!nd.And(x.v == v, x.l == l))
		}
		m.next++
		nd.Assert(t.ClaimID(id, labelOf(m.next)) == nil, "claiming a prefix of the tree fails")
		m.n = append(m.n, gnode{v, l, m.next, true, h})
	}
	for i := 0; i < d && len(m.n) > 0; i++ {
		at := nd.Choice("release", len(m.n)+1)
		if at == 0 {
			break
		}
		x := &m.n[at-1]
		nd.Assert(t.ReleaseID(newID(m.w, x.v|x.host, x.l)) == nil, "releasing a prefix of the tree fails")
		x.on = false
	}
}

func (m *gtm) isEntry(e tree.Entry, n gnode) {
	nd.Assert(e != nil, "an entry is missing")
	nd.Assert(e.ID().ID() == n.v|n.host, "an entry carries another id than was claimed")
	nd.Assert(e.ID().Length() == n.l, "an entry carries another length than was claimed")
	nd.Assert(labelNo(e.Labels()) == n.label, "an entry does not carry the labels last given")
}

// listed asserts that es holds exactly the claimed prefixes that want picks.
func (m *gtm) listed(es tree.Entries, want func(n gnode) bool) {
	used := make([]bool, len(es))
	for _, n := range m.n {
		at := -1
		for i, e := range es {
			if n.on && labelNo(e.Labels()) == n.label {
				nd.Assert(at < 0, "a prefix is listed twice")
				at = i
			}
		}
		if at >= 0 {
			m.isEntry(es[at], n)
			used[at] = true
		}
		nd.Assert((at >= 0) == nd.And(n.on, want(n)), "not exactly the right prefixes are listed")
	}
	for i := range es {
		nd.Assert(used[i], "a prefix is listed that is not claimed")
	}
	nd.Observe("listed", uint64(len(es)))
}

func every(gnode) bool { return true }

func list(it *gtree.GTreeIterator) tree.Entries {
	var es tree.Entries
	for it.Next() {
		es = append(es, it.Entry())
	}
	return es
}

// same compares the whole tree with the model.
func (m *gtm) same(t gtree.GTree) {
	m.listed(t.GetAll(), every)
	for _, n := range m.n {
		e, err := t.Get(newID(m.w, n.v|n.host, n.l))
		nd.Assert((err == nil) == n.on, "Get does not succeed exactly for claimed prefixes")
		if n.on {
			m.isEntry(e, n)
		}
	}
}

// C13_Map: k claims, updates and releases of any prefixes; any prefix looked up.
func C13_Map() {
	t, m := newGtm(width())
	kinds := nd.Param("kinds", 7)
	for k := nd.Param("k", 2); k > 0; k-- {
		op := nd.Choice("op", 3)
		if kinds>>uint(op)&1 == 0 {
			nd.Assume(false)
		}
		m.step(t, op)
	}
	for _, n := range m.n {
		e, err := t.Get(newID(m.w, n.v|n.host, n.l))
		nd.Assert((err == nil) == n.on, "Get does not succeed exactly for claimed prefixes")
		if n.on {
			m.isEntry(e, n)
		}
	}
	if nd.Param("probe", 1) > 0 {
		id, v, l := m.prefix()
		e, err := t.Get(id)
		at := m.find(v, l)
		nd.Assert((err == nil) == (at >= 0 && m.n[at].on), "Get does not succeed exactly for claimed prefixes")
		if err == nil {
			m.isEntry(e, m.n[at])
		}
	}
	nd.Observe("size", uint64(t.Size()))
}

// C14_List: any claimed prefixes, some released again.
func C14_List() {
	t, m := newGtm(width())
	m.populate(t, nd.Param("k", 2), nd.Param("d", 1))
	if nd.Param("upd", 0) > 0 {
		if at := nd.Choice("update", len(m.n)+1); at > 0 {
			x := &m.n[at-1]
			m.next++
			nd.Assert(t.Update(newID(m.w, x.v|x.host, x.l), labelOf(m.next)) == nil, "updating a prefix of the tree fails")
			x.label, x.on = m.next, true
		}
	}
	for i := 0; i < 2; i++ {
		var es tree.Entries
		if i == 0 {
			es = t.GetAll()
		} else {
			es = list(t.Iterate())
		}
		m.listed(es, every)
		for j := 1; j < len(es); j++ {
			a, b := es[j-1].ID(), es[j].ID()
			av, bv := a.ID()&maskBits(m.w, a.Length()), b.ID()&maskBits(m.w, b.Length())
			nd.Assert(nd.Or(av < bv, nd.And(av == bv, a.Length() < b.Length())), "entries are not in ascending order")
		}
	}
	nd.Assert(t.Size() == m.size(), "the size is not the number of claimed prefixes")
}

// inside tells whether prefix v/l lies inside q/ql (or is the same).
func (m *gtm) inside(v uint64, l uint8, q uint64, ql uint8) bool {
	return nd.And(l >= ql, v&maskBits(m.w, ql) == q)
}

// C15_Kin: any claimed prefixes and any queried prefix.
func C15_Kin() {
	t, m := newGtm(width())
	m.populate(t, nd.Param("k", 2), nd.Param("d", 0))
	id, q, ql := m.prefix()
	if nd.Param("host", 0) > 0 {
		id = newID(m.w, q|uw("host", m.w)&^maskBits(m.w, ql), ql)
	}
	m.listed(t.Children(id), func(n gnode) bool {
		return nd.And(m.inside(n.v, n.l, q, ql), n.l != ql)
	})
	m.listed(t.Parents(id), func(n gnode) bool {
		return nd.And(m.inside(q, ql, n.v, n.l), n.l != ql)
	})
}

// C18_Labels: any claimed prefixes with any of a few labels, any selector.
func C18_Labels() {
	t, m := newGtm(width())
	nl := nd.Param("labels", 2)
	m.populate(t, nd.Param("k", 2), nd.Param("d", 0))
	class := make([]int, len(m.n))
	for i := range m.n {
		x := &m.n[i]
		if scafOn() {
			class[i] = i % nl
		} else {
			class[i] = nd.Choice("label", nl)
		}
		if x.on {
			nd.Assert(t.Update(newID(m.w, x.v|x.host, x.l), labelOf(class[i])) == nil, "updating a prefix of the tree fails")
		}
	}
	sel, yes := chooseSel(nl)
	check := func(es tree.Entries, want func(i int) bool) {
		used := make([]bool, len(es))
		for i, n := range m.n {
			c := 0
			for j, e := range es {
				if nd.And(n.on, e.ID().ID() == n.v|n.host, e.ID().Length() == n.l) {
					c++
					used[j] = true
					nd.Assert(labelNo(e.Labels()) == class[i], "an entry does not carry the labels last given")
				}
			}
			w := 0
			if n.on && want(i) {
				w = 1
			}
			nd.Assert(c == w, "not exactly the right prefixes are selected")
		}
		for j := range es {
			nd.Assert(used[j], "a prefix is selected that is not claimed")
		}
		nd.Observe("n", uint64(len(es)))
	}
	check(t.GetByLabel(sel), func(i int) bool { return yes[class[i]] })
	nd.Assert(t.ReleaseByLabel(sel) == nil, "releasing by label fails")
	check(t.GetAll(), func(i int) bool { return !yes[class[i]] })
	check(t.GetByLabel(sel), func(i int) bool { return false })
	for i, n := range m.n {
		e, err := t.Get(newID(m.w, n.v|n.host, n.l))
		keep := n.on && !yes[class[i]]
		nd.Assert((err == nil) == keep, "a release by label does not remove exactly the matching entries")
		if keep {
			nd.Assert(labelNo(e.Labels()) == class[i], "an entry does not carry the labels last given")
		}
	}
}

func (m *gtm) copy() *gtm {
	c := *m
	c.n = append([]gnode{}, m.n...)
	return &c
}

// C19_Clone: any claimed prefixes; operations on clone and original.
func C19_Clone() {
	t, m := newGtm(width())
	m.populate(t, nd.Param("k", 2), nd.Param("d", 0))
	c, cm := t.Clone(), m.copy()
	cm.same(c)
	kinds := nd.Param("kinds", 7)
	for k := nd.Param("after", 1); k > 0; k-- {
		op := nd.Choice("op", 3)
		if kinds>>uint(op)&1 == 0 {
			nd.Assume(false)
		}
		if nd.Choice("side", 2) == 0 {
			m.next = 1000 + k
			m.step(t, op)
		} else {
			cm.next = 2000 + k
			cm.step(c, op)
		}
		m.same(t)
		cm.same(c)
	}
}
