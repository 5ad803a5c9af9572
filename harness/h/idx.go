package h

import (
	"github.com/henderiw/idxtable/pkg/idxtable"
	"github.com/henderiw/idxtable/verifx/nd"
)

func init() {
	All["C01_Seq"] = C01_Seq
	All["C01_Mixed"] = C01_Mixed
	All["C02_Dynamic"] = C02_Dynamic
	All["C03_Range"] = C03_Range
	All["C04_Size"] = C04_Size
	All["C05_Iter"] = C05_Iter
	All["C05_Snapshot"] = C05_Snapshot
}

// imodel is the reference: an association list.
type imodel struct {
	size uint64
	ids  []uint64
	data []uint64
}

func (m *imodel) find(id uint64) int {
	for i, x := range m.ids {
		if x == id {
			return i
		}
	}
	return -1
}

func (m *imodel) set(id, d uint64) {
	if i := m.find(id); i >= 0 {
		m.data[i] = d
		return
	}
	m.ids = append(m.ids, id)
	m.data = append(m.data, d)
}

func (m *imodel) del(id uint64) {
	i := m.find(id)
	if i < 0 {
		return
	}
	m.ids = append(append([]uint64{}, m.ids[:i]...), m.ids[i+1:]...)
	m.data = append(append([]uint64{}, m.data[:i]...), m.data[i+1:]...)
}

func (m *imodel) clone() *imodel {
	return &imodel{m.size, append([]uint64{}, m.ids...), append([]uint64{}, m.data...)}
}

// free lists the unclaimed ids in ascending order (small sizes).
func (m *imodel) free() []uint64 {
	var r []uint64
	for i := uint64(0); i < m.size; i++ {
		if m.find(i) < 0 {
			r = append(r, i)
		}
	}
	return r
}

// probe compares what the table says about one id with the model.
func probe(t idxtable.Table[uint64], m *imodel, q uint64) {
	i := m.find(q)
	e, err := t.Get(q)
	if i >= 0 {
		nd.Assert(err == nil, "Get fails for a claimed id")
		nd.Assert(e.ID() == q, "Get returns an entry with another id")
		nd.Assert(e.Data() == m.data[i], "Get returns other data than last claimed or updated")
		nd.Assert(t.Has(q), "Has is false for a claimed id")
		nd.Assert(!t.IsFree(q), "IsFree is true for a claimed id")
	} else {
		nd.Assert(err != nil, "Get succeeds for an unclaimed id")
		nd.Assert(!t.Has(q), "Has is true for an unclaimed id")
		if q < m.size {
			nd.Assert(t.IsFree(q), "IsFree is false for an unclaimed id")
		}
	}
	nd.Assert(t.Size() == len(m.ids), "Size is not the number of claimed ids")
}

// same compares a table with its model on every id below its size.
func same(t idxtable.Table[uint64], m *imodel) {
	for q := uint64(0); q < m.size; q++ {
		probe(t, m, q)
	}
	nd.Assert(t.Size() == len(m.ids), "Size is not the number of claimed ids")
}

func obsErr(name string, err error) {
	v := uint64(0)
	if err != nil {
		v = 1
	}
	nd.Observe(name, v)
}

// C01_Seq: any table size, k single-id calls with any arguments, from empty.
func C01_Seq() {
	size := nd.U64("size")
	t := idxtable.NewTable[uint64](size)
	m := &imodel{size: size}
	for k := nd.Param("k", 2); k > 0; k-- {
		op := nd.Choice("op", 3)
		id := nd.U64("id")
		d := nd.U64("d")
		at := m.find(id)
		switch op {
		case 0:
			err := t.Claim(id, d)
			obsErr("claim", err)
			ok := at < 0 && id < size
			nd.Assert((err == nil) == ok, "Claim does not succeed exactly when the id is below the size and unclaimed")
			if ok {
				m.set(id, d)
			}
		case 1:
			err := t.Update(id, d)
			obsErr("update", err)
			nd.Assert((err == nil) == (at >= 0), "Update does not succeed exactly when the id is claimed")
			if at >= 0 {
				m.set(id, d)
			}
		case 2:
			err := t.Release(id)
			obsErr("release", err)
			ok := id < size
			nd.Assert((err == nil) == ok, "Release does not succeed exactly when the id is below the size")
			if ok {
				m.del(id)
			}
		}
		nd.Assert(t.Size() == len(m.ids), "Size is not the number of claimed ids")
	}
	for _, id := range m.ids {
		probe(t, m, id)
	}
	q := nd.U64("q")
	probe(t, m, q)
	nd.Observe("size", uint64(t.Size()))
}

// occupy claims an arbitrary subset of the ids (any order when "shuffle" is set).
func occupy(t idxtable.Table[uint64], m *imodel) {
	n := int(m.size)
	down := n > 1 && nd.Param("shuffle", 0) > 0 && nd.Choice("down", 2) == 1
	for i := 0; i < n; i++ {
		id := uint64(i)
		if down {
			id = uint64(n - 1 - i)
		}
		switch nd.Choice("occ", 2+nd.Param("hist", 0)) {
		case 1:
			d := nd.U64("data")
			nd.Assert(t.Claim(id, d) == nil, "Claim of an unclaimed id fails")
			m.set(id, d)
		case 2: // claimed once, free now
			nd.Assert(t.Claim(id, 7) == nil, "Claim of an unclaimed id fails")
			nd.Assert(t.Release(id) == nil, "Release of a claimed id fails")
		}
	}
}

func smallTable() (idxtable.Table[uint64], *imodel) {
	n := nd.Choice("n", nd.Param("n", 3)+1)
	size := uint64(n)
	t := idxtable.NewTable[uint64](size)
	m := &imodel{size: size}
	occupy(t, m)
	return t, m
}

func dynamic(t idxtable.Table[uint64], m *imodel) {
	d := nd.U64("d")
	free := m.free()
	id, err := t.FindFree()
	obsErr("findfree", err)
	nd.Assert((err == nil) == (len(free) > 0), "FindFree does not fail exactly when the table is full")
	if err == nil {
		nd.Assert(id == free[0], "FindFree does not return the lowest free id")
	}
	same(t, m)
	e, err := t.ClaimDynamic(d)
	obsErr("dynamic", err)
	nd.Assert((err == nil) == (len(free) > 0), "ClaimDynamic does not fail exactly when the table is full")
	if err == nil {
		nd.Assert(e.ID() == free[0], "ClaimDynamic does not return the lowest free id")
		nd.Assert(e.Data() == d, "ClaimDynamic returns other data")
		m.set(free[0], d)
		nd.Observe("id", e.ID())
	}
	same(t, m)
}

// C02_Dynamic: any occupancy of a table of up to n ids, then k dynamic claims.
func C02_Dynamic() {
	t, m := smallTable()
	for k := nd.Param("k", 1); k > 0; k-- {
		if k > 1 && m.size > 0 {
			id := uint64(nd.Choice("rel", int(m.size)))
			if t.Release(id) == nil {
				m.del(id)
			}
		}
		dynamic(t, m)
	}
	nd.Reach("end")
}

// C03_Range: any occupancy, any 64-bit start and positive size.
func C03_Range() {
	t, m := smallTable()
	for k := nd.Param("k", 1); k > 0; k-- {
		rangeOp(t, m)
	}
}

func rangeOp(t idxtable.Table[uint64], m *imodel) {
	start, cnt, d := nd.U64("start"), nd.U64("count"), nd.U64("d")
	nd.Assume(cnt > 0)
	ok := nd.And(start < m.size, cnt <= m.size, start <= m.size-cnt)
	var want []uint64
	if ok {
		for i := uint64(0); i < cnt; i++ {
			if m.find(start+i) >= 0 {
				ok = false
				break
			}
			want = append(want, start+i)
		}
	}
	ids, err := t.FindFreeRange(start, cnt)
	obsErr("find", err)
	nd.Assert((err == nil) == ok, "FindFreeRange does not succeed exactly when the range fits and is free")
	if ok {
		nd.Assert(len(ids) == len(want), "FindFreeRange returns another number of ids")
		for i := range want {
			nd.Assert(ids[i] == want[i], "FindFreeRange does not return the ids of the range in order")
		}
	}
	same(t, m)
	err = t.ClaimRange(start, cnt, d)
	obsErr("claim", err)
	nd.Assert((err == nil) == ok, "ClaimRange does not succeed exactly when the range fits and is free")
	if ok {
		for _, id := range want {
			m.set(id, d)
		}
	}
	same(t, m)
}

// C04_Size: any occupancy, any 64-bit positive count.
func C04_Size() {
	t, m := smallTable()
	for k := nd.Param("k", 1); k > 0; k-- {
		sizeOp(t, m)
	}
}

func sizeOp(t idxtable.Table[uint64], m *imodel) {
	cnt, d := nd.U64("count"), nd.U64("d")
	nd.Assume(cnt > 0)
	free := m.free()
	ok := cnt <= uint64(len(free))
	ids, err := t.FindFreeSize(cnt)
	obsErr("find", err)
	nd.Assert((err == nil) == ok, "FindFreeSize does not succeed exactly when enough ids are free")
	if err == nil {
		nd.Assert(uint64(len(ids)) == cnt, "FindFreeSize returns another number of ids")
		for i := range ids {
			nd.Assert(ids[i] == free[i], "FindFreeSize does not return the lowest free ids in order")
		}
	}
	same(t, m)
	es, err := t.ClaimSize(cnt, d)
	obsErr("claim", err)
	nd.Assert((err == nil) == ok, "ClaimSize does not succeed exactly when enough ids are free")
	if err == nil {
		nd.Assert(uint64(len(es)) == cnt, "ClaimSize returns another number of entries")
		for i, e := range es {
			nd.Assert(e.ID() == free[i], "ClaimSize does not claim the lowest free ids in order")
			nd.Assert(e.Data() == d, "ClaimSize returns other data")
			m.set(free[i], d)
		}
	}
	same(t, m)
}

// C01_Mixed: histories of all kinds of calls on a small table, any arguments.
func C01_Mixed() {
	n := nd.Choice("n", nd.Param("n", 2)+1)
	size := uint64(n)
	t := idxtable.NewTable[uint64](size)
	m := &imodel{size: size}
	for k := nd.Param("k", 3); k > 0; k-- {
		switch nd.Choice("op", 6) {
		case 0:
			id, d := nd.U64("id"), nd.U64("d")
			at := m.find(id)
			err := t.Claim(id, d)
			ok := at < 0 && id < size
			nd.Assert((err == nil) == ok, "Claim does not succeed exactly when the id is below the size and unclaimed")
			if ok {
				m.set(id, d)
			}
		case 1:
			id, d := nd.U64("id"), nd.U64("d")
			at := m.find(id)
			err := t.Update(id, d)
			nd.Assert((err == nil) == (at >= 0), "Update does not succeed exactly when the id is claimed")
			if at >= 0 {
				m.set(id, d)
			}
		case 2:
			id := nd.U64("id")
			err := t.Release(id)
			ok := id < size
			nd.Assert((err == nil) == ok, "Release does not succeed exactly when the id is below the size")
			if ok {
				m.del(id)
			}
		case 3:
			dynamic(t, m)
		case 4:
			rangeOp(t, m)
		case 5:
			sizeOp(t, m)
		}
		same(t, m)
	}
	probe(t, m, nd.U64("q"))
	nd.Observe("size", uint64(t.Size()))
}

// walk checks an iterator against the model it was obtained from.
func walk(it *idxtable.Iterator[uint64], m *imodel, vals bool) {
	var want []uint64
	for i := uint64(0); i < m.size; i++ {
		if (m.find(i) >= 0) == vals {
			want = append(want, i)
		}
	}
	for i, id := range want {
		nd.Assert(it.Next(), "the iterator ends early")
		nd.Assert(it.ID() == id, "the iterator does not visit the ids in ascending order")
		if vals {
			e := it.Value()
			nd.Assert(e != nil, "the iterator has no value for an id")
			nd.Assert(e.ID() == id, "the iterator's value has another id")
			nd.Assert(e.Data() == m.data[m.find(id)], "the iterator's value has other data")
		}
		nd.Assert(it.IsConsecutive() == (i > 0 && want[i-1]+1 == id), "IsConsecutive does not tell whether the id follows the previous one")
		nd.Observe("it", it.ID())
	}
	nd.Assert(!it.Next(), "the iterator yields too many ids")
}

func all(t idxtable.Table[uint64], m *imodel) {
	es := t.GetAll()
	nd.Assert(len(es) == len(m.ids), "GetAll does not list every claimed id once")
	j := 0
	for i := uint64(0); i < m.size; i++ {
		if at := m.find(i); at >= 0 {
			nd.Assert(es[j].ID() == i, "GetAll is not in ascending order")
			nd.Assert(es[j].Data() == m.data[at], "GetAll reports other data")
			j++
		}
	}
}

// C05_Iter: any occupancy, any map order.
func C05_Iter() {
	nd.MapOrder(nd.Param("order", 2))
	t, m := smallTable()
	walk(t.Iterate(), m, true)
	walk(t.IterateFree(), m, false)
	all(t, m)
}

// C05_Snapshot: iterators obtained first, then changes, then the walk.
func C05_Snapshot() {
	t, m := smallTable()
	it, fr := t.Iterate(), t.IterateFree()
	old := m.clone()
	adv := 0
	for k := nd.Param("k", 1); k > 0; k-- {
		if m.size == 0 {
			break
		}
		id := uint64(nd.Choice("id", int(m.size)))
		d := nd.U64("d")
		switch nd.Choice("op", 3) {
		case 0:
			if t.Claim(id, d) == nil {
				m.set(id, d)
			}
		case 1:
			if t.Update(id, d) == nil {
				m.set(id, d)
			}
		case 2:
			if t.Release(id) == nil {
				m.del(id)
			}
		}
		_ = adv
	}
	walk(it, old, true)
	walk(fr, old, false)
	walk(t.Iterate(), m, true)
	all(t, m)
}
