package h

import (
	"github.com/henderiw/idxtable/pkg/idxtable"
	"github.com/henderiw/idxtable/verifx/nd"
)

func init() {
	All["C02_Any"] = C02_Any
	All["C03_Any"] = C03_Any
	All["C04_Any"] = C04_Any
	All["C05_Any"] = C05_Any
}

// anyTable is a table of any size up to max (any 64-bit size if max is 0) after
// k claims, updates and releases of arbitrary ids with arbitrary data.
func anyTable(max uint64) (idxtable.Table[uint64], *imodel) {
	size := nd.U64("size")
	if max > 0 {
		nd.Assume(size <= max)
	}
	t := idxtable.NewTable[uint64](size)
	m := &imodel{size: size}
	for k := nd.Param("k", 2); k > 0; k-- {
		anyCall(t, m)
	}
	return t, m
}

func anyCall(t idxtable.Table[uint64], m *imodel) {
	id, d := nd.U64("id"), nd.U64("data")
	nd.Assume(id < m.size)
	at := m.find(id)
	switch {
	case at < 0:
		nd.Assert(t.Claim(id, d) == nil, "Claim of an unclaimed id of the table fails")
		m.set(id, d)
	case nd.Choice("op", 2) == 0:
		nd.Assert(t.Release(id) == nil, "Release of a claimed id fails")
		m.del(id)
	default:
		nd.Assert(t.Update(id, d) == nil, "Update of a claimed id fails")
		m.set(id, d)
	}
}

// has tells whether an id is claimed, without splitting the path.
func (m *imodel) has(id uint64) bool {
	r := false
	for _, x := range m.ids {
		r = nd.Or(r, x == id)
	}
	return r
}

// isLowest tells whether id is the lowest free one: claimed are all before it.
func (m *imodel) isLowest(id uint64) bool {
	x := nd.U64("x")
	return nd.And(id < m.size, !m.has(id), nd.Or(x >= id, m.has(x)))
}

// full tells whether an arbitrary id of the table is claimed.
func (m *imodel) full() bool {
	x := nd.U64("x")
	return nd.Or(x >= m.size, m.has(x))
}

// kept probes every claimed id and an arbitrary other one.
func kept(t idxtable.Table[uint64], m *imodel) {
	for _, id := range m.ids {
		probe(t, m, id)
	}
	probe(t, m, nd.U64("q"))
}

// C02_Any: any size up to n, any history of k calls, then rounds of dynamic
// claims with a call between.
func C02_Any() {
	t, m := anyTable(uint64(nd.Param("n", 4)))
	for r := nd.Param("r", 1); r > 0; r-- {
		id, err := t.FindFree()
		obsErr("find", err)
		if err == nil {
			nd.Assert(m.isLowest(id), "FindFree does not return the lowest free id")
		} else {
			nd.Assert(m.full(), "FindFree fails though an id is free")
		}
		nd.Assert(t.Size() == len(m.ids), "finding a free id changes the table")
		d := nd.U64("d")
		e, err := t.ClaimDynamic(d)
		obsErr("dynamic", err)
		if err == nil {
			nd.Assert(m.isLowest(e.ID()), "ClaimDynamic does not return the lowest free id")
			nd.Assert(e.Data() == d, "ClaimDynamic returns other data")
			nd.Observe("id", e.ID())
			m.set(e.ID(), d)
		} else {
			nd.Assert(m.full(), "ClaimDynamic fails though an id is free")
		}
		kept(t, m)
		if r > 1 && m.size > 0 {
			anyCall(t, m)
		}
	}
}

// C03_Any: any 64-bit size and history; a range of up to c ids, or any that
// does not fit.
func C03_Any() {
	t, m := anyTable(0)
	for r := nd.Param("r", 1); r > 0; r-- {
		start, cnt, d := nd.U64("start"), nd.U64("count"), nd.U64("d")
		nd.Assume(cnt > 0)
		fits := nd.And(cnt <= m.size, start <= m.size-cnt)
		nd.Assume(nd.Or(!fits, cnt <= uint64(nd.Param("c", 3))))
		ok := fits
		for _, x := range m.ids {
			ok = nd.And(ok, nd.Or(x < start, x-start >= cnt))
		}
		ids, err := t.FindFreeRange(start, cnt)
		obsErr("find", err)
		nd.Assert((err == nil) == ok, "FindFreeRange does not succeed exactly when the range fits and is free")
		if err == nil {
			nd.Assert(uint64(len(ids)) == cnt, "FindFreeRange returns another number of ids")
			for i, id := range ids {
				nd.Assert(id == start+uint64(i), "FindFreeRange does not return the ids of the range in order")
			}
		}
		nd.Assert(t.Size() == len(m.ids), "finding a free range changes the table")
		err = t.ClaimRange(start, cnt, d)
		obsErr("claim", err)
		nd.Assert((err == nil) == ok, "ClaimRange does not succeed exactly when the range fits and is free")
		if err == nil {
			for i := range ids {
				m.set(start+uint64(i), d)
			}
		}
		kept(t, m)
	}
}

// C04_Any: any size up to n, any history of k calls, any count.
func C04_Any() {
	t, m := anyTable(uint64(nd.Param("n", 4)))
	for r := nd.Param("r", 1); r > 0; r-- {
		cnt, d := nd.U64("count"), nd.U64("d")
		nd.Assume(cnt > 0)
		ok := cnt <= m.size-uint64(len(m.ids))
		ids, err := t.FindFreeSize(cnt)
		obsErr("find", err)
		nd.Assert((err == nil) == ok, "FindFreeSize does not succeed exactly when enough ids are free")
		nd.Assert(t.Size() == len(m.ids), "finding free ids changes the table")
		es, err := t.ClaimSize(cnt, d)
		obsErr("claim", err)
		nd.Assert((err == nil) == ok, "ClaimSize does not succeed exactly when enough ids are free")
		if err == nil {
			nd.Assert(uint64(len(es)) == cnt, "ClaimSize returns another number of entries")
			nd.Assert(len(ids) == len(es), "FindFreeSize returns another number of ids")
			for i, e := range es {
				nd.Assert(m.isLowest(e.ID()), "ClaimSize does not claim the lowest free ids in order")
				nd.Assert(ids[i] == e.ID(), "FindFreeSize does not return the ids ClaimSize claims")
				nd.Assert(e.Data() == d, "ClaimSize returns other data")
				nd.Observe("id", e.ID())
				m.ids, m.data = append(m.ids, e.ID()), append(m.data, d)
			}
		}
		kept(t, m)
		if r > 1 && m.size > 0 {
			anyCall(t, m)
		}
	}
}

// visits checks that a walk yields exactly the claimed ids of m, ascending.
func visits(it *idxtable.Iterator[uint64], m *imodel) {
	var last uint64
	for i := range m.ids {
		nd.Assert(it.Next(), "the iterator ends early")
		id := it.ID()
		nd.Assert(nd.Or(i == 0, last < id), "the iterator does not visit the ids in ascending order")
		e := it.Value()
		nd.Assert(e != nil, "the iterator has no value for an id")
		nd.Assert(e.ID() == id, "the iterator's value has another id")
		found := false
		for j, x := range m.ids {
			found = nd.Or(found, nd.And(x == id, e.Data() == m.data[j]))
		}
		nd.Assert(found, "the iterator visits an unclaimed id, or with other data")
		nd.Assert(it.IsConsecutive() == nd.And(i > 0, last+1 == id), "IsConsecutive does not tell whether the id follows the previous one")
		last = id
		nd.Observe("it", id)
	}
	nd.Assert(!it.Next(), "the iterator yields too many ids")
}

// C05_Any: any 64-bit size and history; an iterator obtained before further
// calls of any kind, and one obtained after; free ids if the size is at most n.
func C05_Any() {
	nd.MapOrder(nd.Param("order", 1))
	n := uint64(nd.Param("n", 0))
	t, m := anyTable(n)
	it, old := t.Iterate(), m.clone()
	var fr *idxtable.Iterator[uint64]
	if n > 0 {
		fr = t.IterateFree()
	}
	for k := nd.Param("after", 1); k > 0; k-- {
		anyCall(t, m)
	}
	visits(it, old)
	if n > 0 {
		rest := old.clone() // what was free is added to it, lowest first
		for first, last := true, uint64(0); fr.Next(); first = false {
			id := fr.ID()
			nd.Assert(rest.isLowest(id), "the iterator of free ids does not visit the unclaimed ids in ascending order")
			nd.Assert(fr.IsConsecutive() == nd.And(!first, last+1 == id), "IsConsecutive does not tell whether the id follows the previous one")
			rest.ids, last = append(rest.ids, id), id
			nd.Observe("free", id)
		}
		nd.Assert(rest.full(), "the iterator of free ids misses one")
	}
	visits(t.Iterate(), m)
	es := t.GetAll()
	nd.Assert(len(es) == len(m.ids), "GetAll does not list every claimed id once")
	for i, e := range es {
		found := false
		for j, x := range m.ids {
			found = nd.Or(found, nd.And(x == e.ID(), e.Data() == m.data[j]))
		}
		nd.Assert(found, "GetAll lists an unclaimed id, or other data")
		nd.Assert(i == 0 || es[i-1].ID() < e.ID(), "GetAll is not in ascending order")
	}
}
