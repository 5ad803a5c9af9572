package h

import (
	"github.com/henderiw/idxtable/pkg/idxtable"
	"github.com/henderiw/idxtable/verifx/nd"
)

func init() {
	All["C06_Pairs"] = C06_Pairs
}

type icall struct {
	kind int
	a, b uint64
	d    uint64
}

const (
	icClaim = iota
	icRelease
	icUpdate
	icDynamic
	icRange
	icSize
	icGet
	icAll
	icWalk
	icFree
	icWalkOld
	icFindFree
	icFindRange
	icFindSize
	icHas
	icKinds
)

// run performs the call; old is an iterator obtained before.
func (c icall) run(t idxtable.Table[uint64], old *idxtable.Iterator[uint64]) lres {
	switch c.kind {
	case icClaim:
		return lres{ok: t.Claim(c.a, c.d) == nil}
	case icRelease:
		return lres{ok: t.Release(c.a) == nil}
	case icUpdate:
		return lres{ok: t.Update(c.a, c.d) == nil}
	case icDynamic:
		e, err := t.ClaimDynamic(c.d)
		if err != nil {
			return fail()
		}
		return succ(e.ID(), e.Data())
	case icRange:
		return lres{ok: t.ClaimRange(c.a, c.b, c.d) == nil}
	case icSize:
		es, err := t.ClaimSize(c.b, c.d)
		if err != nil {
			return fail()
		}
		r := succ()
		for _, e := range es {
			r.v = append(r.v, e.ID(), e.Data())
		}
		return r
	case icGet:
		e, err := t.Get(c.a)
		if err != nil {
			return fail()
		}
		return succ(e.ID(), e.Data())
	case icAll:
		r := succ()
		for _, e := range t.GetAll() {
			r.v = append(r.v, e.ID(), e.Data())
		}
		return r
	case icWalk, icWalkOld:
		it := old
		if c.kind == icWalk {
			it = t.Iterate()
		}
		r := succ()
		for it.Next() {
			e := it.Value()
			if e == nil {
				r.v = append(r.v, 1<<40)
				continue
			}
			r.v = append(r.v, e.ID(), e.Data())
		}
		return r
	case icFree:
		it := t.IterateFree()
		r := succ()
		for it.Next() {
			r.v = append(r.v, it.ID())
		}
		return r
	case icFindFree:
		id, err := t.FindFree()
		if err != nil {
			return fail()
		}
		return succ(id)
	case icFindRange:
		ids, err := t.FindFreeRange(c.a, c.b)
		if err != nil {
			return fail()
		}
		return succ(ids...)
	case icFindSize:
		ids, err := t.FindFreeSize(c.b)
		if err != nil {
			return fail()
		}
		return succ(ids...)
	case icHas:
		r := succB(t.Has(c.a))
		r.v = append(r.v, succB(t.IsFree(c.a)).v...)
		if nd.Param("size", 1) > 0 {
			r.v = r.v[:1]
		}
		return r
	}
	return fail()
}

func (m *imodel) list() []uint64 {
	var r []uint64
	for i := uint64(0); i < m.size; i++ {
		if at := m.find(i); at >= 0 {
			r = append(r, i, m.data[at])
		}
	}
	return r
}

func (m *imodel) rangeIDs(a, b uint64) ([]uint64, bool) {
	if b > m.size || a > m.size-b {
		return nil, false
	}
	var r []uint64
	for i := a; i < a+b; i++ {
		if m.find(i) >= 0 {
			return nil, false
		}
		r = append(r, i)
	}
	return r, true
}

// apply is the sequential meaning of the call; old is the initial state.
func (c icall) apply(m, old *imodel) lres {
	switch c.kind {
	case icClaim:
		if c.a >= m.size || m.find(c.a) >= 0 {
			return fail()
		}
		m.set(c.a, c.d)
		return succ()
	case icRelease:
		if c.a >= m.size {
			return fail()
		}
		m.del(c.a)
		return succ()
	case icUpdate:
		if c.a >= m.size || m.find(c.a) < 0 {
			return fail()
		}
		m.set(c.a, c.d)
		return succ()
	case icDynamic:
		f := m.free()
		if len(f) == 0 {
			return fail()
		}
		m.set(f[0], c.d)
		return succ(f[0], c.d)
	case icRange:
		ids, ok := m.rangeIDs(c.a, c.b)
		if !ok {
			return fail()
		}
		for _, id := range ids {
			m.set(id, c.d)
		}
		return succ()
	case icSize, icFindSize:
		f := m.free()
		if uint64(len(f)) < c.b {
			return fail()
		}
		r := succ()
		for _, id := range f[:c.b] {
			if c.kind == icFindSize {
				r.v = append(r.v, id)
				continue
			}
			m.set(id, c.d)
			r.v = append(r.v, id, c.d)
		}
		return r
	case icGet:
		i := m.find(c.a)
		if i < 0 {
			return fail()
		}
		return succ(c.a, m.data[i])
	case icAll, icWalk:
		return succ(m.list()...)
	case icWalkOld:
		return succ(old.list()...)
	case icFree:
		return succ(m.free()...)
	case icFindFree:
		f := m.free()
		if len(f) == 0 {
			return fail()
		}
		return succ(f[0])
	case icFindRange:
		ids, ok := m.rangeIDs(c.a, c.b)
		if !ok {
			return fail()
		}
		return succ(ids...)
	case icHas:
		return succB(m.find(c.a) >= 0)
	}
	return fail()
}

// kinds restricts a call to a set given as a bit mask parameter.
func pickKind(name string, n int) int {
	mask := nd.Param(name, 1<<n-1)
	var ks []int
	for i := 0; i < n; i++ {
		if mask&(1<<i) != 0 {
			ks = append(ks, i)
		}
	}
	return ks[nd.Choice(name, len(ks))]
}

// C06_Pairs: threads of one or two calls each on a table of n ids with any
// prior contents. The calls' kinds, ids and data are arbitrary.
func C06_Pairs() {
	n := nd.Param("n", 2)
	size := uint64(n)
	t := idxtable.NewTable[uint64](size)
	m := &imodel{size: size}
	for i := uint64(0); i < size; i++ {
		if nd.Choice("occ", 2) == 1 {
			if t.Claim(i, 50+i) == nil {
				m.set(i, 50+i)
			}
		}
	}
	th := nd.Param("threads", 2)
	var lens []int
	var calls [][]icall
	last := 0
	for i := 0; i < th; i++ {
		l := nd.Param("calls", 1)
		if i > 0 {
			l = nd.Param("calls2", l)
		}
		lens = append(lens, l)
		var cs []icall
		for j := 0; j < l; j++ {
			name := "kind"
			if i > 0 && nd.Param("kind2", 0) > 0 {
				name = "kind2"
			}
			k := pickKind(name, icKinds)
			if i > 0 && l == 1 && lens[i-1] == 1 {
				// symmetric threads: order the kinds
				nd.Assume(k >= last)
			}
			last = k
			c := icall{kind: k, d: uint64(100 + 10*i + j)}
			switch k {
			case icClaim, icRelease, icUpdate, icGet, icHas:
				c.a = nd.U64("id")
				nd.Assume(c.a < size)
			case icRange, icFindRange:
				c.a, c.b = nd.U64("id"), nd.U64("cnt")
				nd.Assume(c.a < size)
				nd.Assume(c.b > 0)
				nd.Assume(c.b <= size)
			case icSize, icFindSize:
				c.b = nd.U64("cnt")
				nd.Assume(c.b > 0)
				nd.Assume(c.b <= size)
			}
			cs = append(cs, c)
		}
		calls = append(calls, cs)
	}
	var olds []*idxtable.Iterator[uint64]
	for range lens {
		olds = append(olds, t.Iterate())
	}
	linearize(lens,
		func(th, i int) lres { return calls[th][i].run(t, olds[th]) },
		func() (func(th, i int) lres, func() bool) {
			mm := m.clone()
			return func(th, i int) lres { return calls[th][i].apply(mm, m) },
				func() bool {
					es := t.GetAll()
					want := mm.list()
					if len(es)*2 != len(want) {
						return false
					}
					r := true
					for i, e := range es {
						r = nd.And(r, e.ID() == want[2*i], e.Data() == want[2*i+1])
					}
					return r
				}
		}, "the concurrent calls have no sequential explanation")
}
