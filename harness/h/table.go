package h

import (
	"github.com/henderiw/idxtable/pkg/table"
	"github.com/henderiw/idxtable/pkg/table/table16"
	"github.com/henderiw/idxtable/pkg/table/table32"
	"github.com/henderiw/idxtable/pkg/table/table64"
	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/id16"
	"github.com/henderiw/idxtable/pkg/tree/id32"
	"github.com/henderiw/idxtable/pkg/tree/id64"
	"github.com/henderiw/idxtable/verifx/nd"
	"k8s.io/apimachinery/pkg/labels"
)

func init() {
	All["C07_Seq"] = C07_Seq
	All["C07_Full"] = C07_Full
	All["C08_Entries"] = C08_Entries
	All["C09_Free"] = C09_Free
}

// width is the bit width of the harness run.
func width() int { return nd.Param("w", 16) }

func maxOf(w int) uint64 { return ^uint64(0) >> uint(64-w) }

// uint of the given width, as 64 bit value.
func uw(name string, w int) uint64 {
	switch w {
	case 8:
		return uint64(nd.U8(name))
	case 16:
		return uint64(nd.U16(name))
	case 32:
		return uint64(nd.U32(name))
	}
	return nd.U64(name)
}

func newID(w int, id uint64, l uint8) tree.ID {
	switch w {
	case 16:
		return id16.NewID(uint16(id), l)
	case 32:
		return id32.NewID(uint32(id), l)
	}
	return id64.NewID(id, l)
}

func newTable(w int, start, end uint64) table.Table {
	switch w {
	case 16:
		return table16.New(uint16(start), uint16(end))
	case 32:
		return table32.New(uint32(start), uint32(end))
	}
	return table64.New(start, end)
}

// labelOf makes distinguishable label sets; number 0 is that of no labels.
func labelOf(n int) labels.Set {
	if n == 0 {
		return nil
	}
	return labels.Set{"k": string([]byte{byte('a' + n%26), byte('a' + n/26)})}
}

// labelNo is the number of a label set made by labelOf, -1 for any other.
func labelNo(s labels.Set) int {
	if len(s) == 0 {
		return 0
	}
	v := s["k"]
	if len(s) != 1 || len(v) != 2 {
		return -1
	}
	return int(v[0]-'a') + 26*int(v[1]-'a')
}

// anySel is an arbitrary selector: a subset of the label sets in use.
type anySel struct {
	labels.Selector
	yes map[string]bool
}

func (s anySel) Matches(l labels.Labels) bool { return s.yes[l.Get("k")] }
func (s anySel) Empty() bool                  { return false }
func (s anySel) String() string               { return "any" }

func (s anySel) RequiresExactMatch(label string) (string, bool) {
	n, only := 0, ""
	for v, y := range s.yes {
		if y {
			n, only = n+1, v
		}
	}
	if label != "k" || n != 1 || only == "" {
		return "", false
	}
	return only, true
}

// selOf is the selector of the label sets i with yes[i], among those in use.
func selOf(yes []bool) labels.Selector {
	s := anySel{yes: map[string]bool{}}
	n := 0
	for i, y := range yes {
		s.yes[labelOf(i)["k"]] = y
		if y {
			n++
		}
	}
	switch n {
	case 0:
		return labels.Nothing()
	case len(yes):
		return labels.Everything()
	}
	return s
}

// chooseSel explores every subset of the n first label sets.
func chooseSel(n int) (labels.Selector, []bool) {
	b := make([]bool, n)
	for i := range b {
		b[i] = nd.Choice("sel", 2) == 1
	}
	return selOf(b), b
}

// tmodel is the reference of an offset table.
type tmodel struct {
	w          int
	start, end uint64
	m          *imodel // data is the label number
}

func (m *tmodel) in(id uint64) bool { return nd.And(m.start <= id, id <= m.end) }

func checkEntry(e tree.Entry, w int, id uint64, label int) {
	nd.Assert(e != nil, "an entry is missing")
	i := e.ID()
	nd.Assert(i.ID() == id, "an entry carries another id than was claimed")
	nd.Assert(i.Length() == uint8(w), "an entry's id has not the bit width of the table")
	nd.Assert(labelNo(e.Labels()) == label, "an entry does not carry the labels last given")
}

func (m *tmodel) probe(t table.Table, q uint64) {
	at := m.m.find(q)
	e, err := t.Get(q)
	nd.Assert((err == nil) == (at >= 0), "Get does not succeed exactly when the id is claimed")
	nd.Assert(t.Has(q) == (at >= 0), "Has is not true exactly for claimed ids")
	nd.Assert(t.IsFree(q) == (at < 0 && m.in(q)), "IsFree is not true exactly for unclaimed ids of the range")
	nd.Assert(t.Size() == len(m.m.ids), "Size is not the number of claimed ids")
	if at >= 0 {
		nd.Assert(labelNo(e.Labels()) == int(m.m.data[at]), "Get returns other labels than last given")
	}
}

func (m *tmodel) step(t table.Table, op int, id uint64, label int) {
	at := m.m.find(id)
	switch op {
	case 0:
		err := t.Claim(id, labelOf(label))
		obsErr("claim", err)
		ok := at < 0 && m.in(id)
		nd.Assert((err == nil) == ok, "Claim does not succeed exactly when the id is in the range and unclaimed")
		if ok {
			m.m.set(id, uint64(label))
		}
	case 1:
		err := t.Update(id, labelOf(label))
		obsErr("update", err)
		nd.Assert((err == nil) == (at >= 0), "Update does not succeed exactly when the id is claimed")
		if at >= 0 {
			m.m.set(id, uint64(label))
		}
	case 2:
		err := t.Release(id)
		obsErr("release", err)
		ok := m.in(id)
		nd.Assert((err == nil) == ok, "Release does not succeed exactly when the id is in the range")
		if ok {
			m.m.del(id)
		}
	}
	nd.Assert(t.Size() == len(m.m.ids), "Size is not the number of claimed ids")
}

// C07_Seq: any bounds, k calls with any 64-bit ids, any id looked up.
func C07_Seq() {
	w := width()
	start, end := uw("start", w), uw("end", w)
	nd.Assume(start <= end)
	if w == 64 {
		nd.Assume(end-start < 1<<64-1)
	}
	c07(w, start, end)
}

// C07_Full: the whole range of the type.
func C07_Full() {
	w := width()
	c07(w, 0, maxOf(w))
}

func c07(w int, start, end uint64) {
	t := newTable(w, start, end)
	m := &tmodel{w: w, start: start, end: end, m: &imodel{}}
	for k := nd.Param("k", 2); k > 0; k-- {
		m.step(t, nd.Choice("op", 3), nd.U64("id"), k)
	}
	for _, id := range m.m.ids {
		m.probe(t, id)
	}
	m.probe(t, nd.U64("q"))
	nd.Observe("size", uint64(t.Size()))
}

// smallRange is a table of 1..n ids that starts anywhere, with arbitrary
// occupancy; labels are numbered from 0 below nl.
func smallRange(nl int) (table.Table, *tmodel, int) {
	w := width()
	n := 1 + nd.Choice("n", nd.Param("n", 3))
	var start uint64
	switch nd.Choice("at", 3) {
	case 0:
		start = 0
	case 1:
		start = maxOf(w) - uint64(n-1)
	case 2:
		start = uw("start", w)
		nd.Assume(start <= maxOf(w)-uint64(n-1))
	}
	m := &tmodel{w: w, start: start, end: start + uint64(n-1), m: &imodel{}}
	t := newTable(w, m.start, m.end)
	for j := 0; j < n; j++ {
		i := j
		if nd.Param("down", 0) > 0 {
			i = n - 1 - j
		}
		id := start + uint64(i)
		c := nd.Choice("occ", 2+nd.Param("upd", 0))
		if c == 0 {
			continue
		}
		l := nd.Choice("label", nl)
		nd.Assert(t.Claim(id, labelOf(l)) == nil, "Claim of an unclaimed id of the range fails")
		if c == 2 {
			l = (l + 1) % nl
			nd.Assert(t.Update(id, labelOf(l)) == nil, "Update of a claimed id fails")
		}
		m.m.set(id, uint64(l))
	}
	return t, m, n
}

// same compares the table with the model on every id of the range.
func (m *tmodel) same(t table.Table, n int) {
	for i := 0; i < n; i++ {
		m.probe(t, m.start+uint64(i))
	}
}

func checkEntries(es tree.Entries, m *tmodel, n int, pick func(label int) bool) {
	j := 0
	for i := 0; i < n; i++ {
		id := m.start + uint64(i)
		at := m.m.find(id)
		if at < 0 || !pick(int(m.m.data[at])) {
			continue
		}
		nd.Assert(j < len(es), "a claimed entry is not listed")
		checkEntry(es[j], m.w, id, int(m.m.data[at]))
		nd.Observe("id", es[j].ID().ID())
		j++
	}
	nd.Assert(j == len(es), "an entry too many is listed")
}

// C08_Entries: any occupancy with labels and updates; all four ways to get entries.
func C08_Entries() {
	nl := nd.Param("labels", 2)
	t, m, n := smallRange(nl)
	for i := 0; i < n; i++ {
		id := m.start + uint64(i)
		e, err := t.Get(id)
		if at := m.m.find(id); at >= 0 {
			nd.Assert(err == nil, "Get of a claimed id fails")
			checkEntry(e, m.w, id, int(m.m.data[at]))
		}
	}
	checkEntries(t.GetAll(), m, n, func(int) bool { return true })
	sel, yes := chooseSel(nl)
	checkEntries(t.GetByLabel(sel), m, n, func(l int) bool { return yes[l] })
	if len(m.m.ids) < n {
		e, err := t.ClaimFree(labelOf(5))
		nd.Assert(err == nil, "ClaimFree fails though an id is free")
		id := m.lowest(n)
		checkEntry(e, m.w, id, 5)
		m.m.set(id, 5)
		e, err = t.Get(id)
		nd.Assert(err == nil, "Get of a claimed id fails")
		checkEntry(e, m.w, id, 5)
		checkEntries(t.GetAll(), m, n, func(int) bool { return true })
	}
}

func (m *tmodel) lowest(n int) uint64 {
	for i := 0; i < n; i++ {
		if m.m.find(m.start+uint64(i)) < 0 {
			return m.start + uint64(i)
		}
	}
	panic("full")
}

// C09_Free: any occupancy, then k free claims with a release before each.
func C09_Free() {
	t, m, n := smallRange(1)
	for k := nd.Param("k", 2); k > 0; k-- {
		full := len(m.m.ids) == n
		id, err := t.FindFree()
		obsErr("find", err)
		nd.Assert((err == nil) == !full, "FindFree does not fail exactly when the range is full")
		if !full {
			nd.Assert(id == m.lowest(n), "FindFree does not return the lowest free id")
		}
		m.same(t, n)
		e, err := t.ClaimFree(labelOf(k))
		obsErr("claim", err)
		nd.Assert((err == nil) == !full, "ClaimFree does not fail exactly when the range is full")
		if !full {
			nd.Assert(e.ID().ID() == m.lowest(n), "ClaimFree does not return the lowest free id")
			nd.Assert(labelNo(e.Labels()) == k, "ClaimFree returns other labels")
			nd.Observe("id", e.ID().ID())
			m.m.set(m.lowest(n), uint64(k))
		}
		m.same(t, n)
		if k > 1 {
			id := m.start + uint64(nd.Choice("rel", n))
			if nd.Choice("how", 2) == 0 {
				nd.Assert(t.Release(id) == nil, "Release of an id of the range fails")
				m.m.del(id)
			} else {
				ok := m.m.find(id) < 0
				nd.Assert((t.Claim(id, labelOf(7)) == nil) == ok, "Claim does not succeed exactly when the id is unclaimed")
				if ok {
					m.m.set(id, 7)
				}
			}
		}
	}
}
