package h

import (
	"github.com/henderiw/idxtable/pkg/idxtable"
	"github.com/henderiw/idxtable/verifx/nd"
)

// Larger structures: concrete contents, changed at any place, then any call.

func init() {
	All["C02_Large"] = C02_Large
	All["C03_Large"] = C03_Large
	All["C04_Large"] = C04_Large
	All["C05_Large"] = C05_Large
	All["C09_Large"] = C09_Large
}

type bigTab struct {
	t  idxtable.Table[uint64]
	on []bool
}

// bigTable is a table of lo..hi ids that is empty, full or half full but for
// any k ids.
func bigTable() *bigTab {
	lo, hi := nd.Param("lo", 64), nd.Param("hi", 65)
	n := lo + nd.Choice("n", hi-lo+1)
	b := &bigTab{idxtable.NewTable[uint64](uint64(n)), make([]bool, n)}
	first := 0
	if nd.Param("only", -1) < 0 {
		first = nd.Choice("pattern", 3)
	} else {
		first = nd.Param("only", -1)
	}
	for i := n - 1; i >= 0; i-- {
		if first == 1 || first == 2 && i%2 == 1 {
			nd.Assert(b.t.Claim(uint64(i), uint64(i)+7) == nil, "a free id cannot be claimed")
			b.on[i] = true
		}
	}
	for k := nd.Param("k", 1); k > 0; k-- {
		id := nd.U64("id")
		nd.Assume(id < uint64(n))
		id = nd.Concrete(id)
		if b.on[id] {
			nd.Assert(b.t.Release(id) == nil, "a claimed id cannot be released")
		} else {
			nd.Assert(b.t.Claim(id, id+7) == nil, "a free id cannot be claimed")
		}
		b.on[id] = !b.on[id]
	}
	return b
}

func (b *bigTab) free() []uint64 {
	var r []uint64
	for i, on := range b.on {
		if !on {
			r = append(r, uint64(i))
		}
	}
	return r
}

// probe compares what the table says about every id, and its size.
func (b *bigTab) probe() {
	n := 0
	for i, on := range b.on {
		nd.Assert(b.t.Has(uint64(i)) == on, "Has is not true exactly for claimed ids")
		if on {
			n++
		}
	}
	nd.Assert(b.t.Size() == n, "Size is not the number of claimed ids")
}

// C02_Large: dynamic claims in larger tables.
func C02_Large() {
	b := bigTable()
	for r := nd.Param("r", 2); r > 0; r-- {
		free := b.free()
		id, err := b.t.FindFree()
		nd.Assert((err == nil) == (len(free) > 0), "FindFree does not fail exactly when the table is full")
		if err == nil {
			nd.Assert(id == free[0], "FindFree does not return the lowest free id")
		}
		e, err := b.t.ClaimDynamic(3)
		nd.Assert((err == nil) == (len(free) > 0), "ClaimDynamic does not fail exactly when the table is full")
		if err == nil {
			nd.Assert(e.ID() == free[0] && e.Data() == 3, "ClaimDynamic does not claim the lowest free id with the data given")
			b.on[free[0]] = true
		}
		obsErr("claim", err)
	}
	b.probe()
}

// C03_Large: any range in larger tables.
func C03_Large() {
	b := bigTable()
	n := uint64(len(b.on))
	start, cnt := nd.U64("start"), nd.U64("count")
	nd.Assume(cnt > 0)
	if c := nd.Param("c", 0); c > 0 {
		nd.Assume(cnt <= uint64(c))
	}
	ok := nd.And(start < n, cnt <= n, start <= n-cnt)
	if ok {
		start, cnt = nd.Concrete(start), nd.Concrete(cnt)
		for i := start; i < start+cnt; i++ {
			ok = ok && !b.on[i]
		}
	}
	ids, err := b.t.FindFreeRange(start, cnt)
	nd.Assert((err == nil) == ok, "FindFreeRange does not succeed exactly when the range fits and is free")
	if ok {
		nd.Assert(uint64(len(ids)) == cnt, "FindFreeRange returns another number of ids")
		for i, id := range ids {
			nd.Assert(id == start+uint64(i), "FindFreeRange does not return the ids of the range in order")
		}
	}
	err = b.t.ClaimRange(start, cnt, 5)
	obsErr("claim", err)
	nd.Assert((err == nil) == ok, "ClaimRange does not succeed exactly when the range fits and is free")
	if ok {
		for i := range ids {
			b.on[start+uint64(i)] = true
		}
	}
	b.probe()
}

// C04_Large: any count in larger tables.
func C04_Large() {
	b := bigTable()
	cnt := nd.U64("count")
	nd.Assume(cnt > 0)
	free := b.free()
	ok := cnt <= uint64(len(free))
	if ok {
		cnt = nd.Concrete(cnt)
	}
	ids, err := b.t.FindFreeSize(cnt)
	nd.Assert((err == nil) == ok, "FindFreeSize does not succeed exactly when enough ids are free")
	es, err2 := b.t.ClaimSize(cnt, 5)
	obsErr("claim", err2)
	nd.Assert((err2 == nil) == ok, "ClaimSize does not succeed exactly when enough ids are free")
	if ok {
		nd.Assert(uint64(len(ids)) == cnt && uint64(len(es)) == cnt, "another number of ids is found or claimed")
		for i := range ids {
			nd.Assert(ids[i] == free[i], "FindFreeSize does not return the lowest free ids in order")
			nd.Assert(es[i].ID() == free[i] && es[i].Data() == 5, "ClaimSize does not claim the lowest free ids in order")
			b.on[free[i]] = true
		}
	}
	b.probe()
}

// C05_Large: enumerations of larger tables, in insertion order and its reverse.
func C05_Large() {
	nd.MapOrder(1)
	b := bigTable()
	it, fr := b.t.Iterate(), b.t.IterateFree()
	es := b.t.GetAll()
	j := 0
	var last, lastF int = -2, -2
	for i, on := range b.on {
		if on {
			nd.Assert(it.Next() && it.ID() == uint64(i) && it.Value().ID() == uint64(i) && it.Value().Data() == uint64(i)+7, "the iterator does not visit the claimed ids in ascending order")
			nd.Assert(it.IsConsecutive() == (last == i-1), "IsConsecutive does not tell whether the id follows the previous one")
			nd.Assert(j < len(es) && es[j].ID() == uint64(i), "GetAll is not in ascending order")
			j++
			last = i
		} else {
			nd.Assert(fr.Next() && fr.ID() == uint64(i), "the iterator does not visit the free ids in ascending order")
			nd.Assert(fr.IsConsecutive() == (lastF == i-1), "IsConsecutive does not tell whether the id follows the previous one")
			lastF = i
		}
	}
	nd.Assert(!it.Next() && !fr.Next() && j == len(es), "too many ids are listed")
	nd.Observe("n", uint64(j))
}

// C09_Large: free claims in larger offset tables at either end of the type.
func C09_Large() {
	w := width()
	lo, hi := nd.Param("lo", 64), nd.Param("hi", 65)
	n := uint64(lo + nd.Choice("n", hi-lo+1))
	start := uint64(1000)
	if nd.Choice("end", 2) == 1 {
		start = maskBits(w, uint8(w)) - n + 1
	}
	t := newTable(w, start, start+n-1)
	hole := nd.U64("hole")
	nd.Assume(hole < n)
	hole = nd.Concrete(hole)
	for i := uint64(0); i < n; i++ {
		if i != hole {
			nd.Assert(t.Claim(start+i, labelOf(1)) == nil, "a free id cannot be claimed")
		}
	}
	id, err := t.FindFree()
	nd.Assert(err == nil && id == start+hole, "FindFree does not return the only free id")
	e, err := t.ClaimFree(labelOf(2))
	nd.Assert(err == nil && e.ID().ID() == start+hole && labelNo(e.Labels()) == 2, "ClaimFree does not claim the only free id")
	_, err = t.ClaimFree(labelOf(2))
	nd.Assert(err != nil, "ClaimFree succeeds in a full table")
	es := t.GetAll()
	nd.Assert(uint64(len(es)) == n, "GetAll does not list every claimed id once")
	for i, e := range es {
		nd.Assert(e.ID().ID() == start+uint64(i), "GetAll is not in ascending order")
	}
	nd.Observe("id", id)
}
