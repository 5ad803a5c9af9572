package h

import (
	rtable "github.com/hansthienpondt/nipam/pkg/table"
	"github.com/henderiw/idxtable/pkg/iptable"
	"github.com/henderiw/idxtable/pkg/table"
	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/verifx/nd"
	"k8s.io/apimachinery/pkg/labels"
)

func init() {
	All["C28_Table"] = C28_Table
	All["C28_IP"] = C28_IP
}

const (
	scClaim = iota
	scRelease
	scUpdate
	scGet
	scHas
	scFree
	scAll
	scByLabel
	scSize
	scFindFree
	scKinds
)

type scall struct {
	kind  int
	i     uint64 // slot, counted from the start of the range
	label int
	sel   labels.Selector
	yes   []bool
}

// slots is the reference: the label of every slot, -1 for an unclaimed one,
// and every label a slot was ever given.
type slots struct {
	lab  []int
	ever [][]int
}

func (s *slots) copy() *slots {
	return &slots{lab: append([]int{}, s.lab...), ever: s.ever}
}

func (s *slots) set(i uint64, l int) { s.lab[i] = l }

// listing: every listed slot was given that label by some call, no slot is
// listed twice, and slots no call touches are listed exactly when they match.
func (s *slots) listing(got lres, touched []bool, pick func(l int) bool) bool {
	r := true
	for i := range s.lab {
		n := uint64(0)
		for j := 0; j+1 < len(got.v); j += 2 {
			here := got.v[j] == uint64(i)
			n += nd.Ite(here, 1, 0)
			known := false
			for _, l := range s.ever[i] {
				known = nd.Or(known, pick(l) && got.v[j+1] == uint64(l))
			}
			r = nd.And(r, nd.Or(!here, known))
		}
		r = nd.And(r, n <= 1)
		if !touched[i] {
			on := s.lab[i] >= 0 && pick(s.lab[i])
			r = nd.And(r, (n == 1) == on)
		}
	}
	for j := 0; j+1 < len(got.v); j += 2 {
		r = nd.And(r, got.v[j] < uint64(len(s.lab)))
	}
	return r
}

// apply changes the reference as the call does, and judges its outcome. A free
// claim may also fail when others claim at the same time, and then need not
// yield the lowest slot.
func (c scall) apply(s *slots, got lres, touched []bool, rivals bool) bool {
	on := s.lab[c.i] >= 0
	switch c.kind {
	case scClaim:
		if on {
			return !got.ok
		}
		s.set(c.i, c.label)
		return got.ok
	case scRelease:
		s.set(c.i, -1)
		return got.ok
	case scUpdate:
		if !on {
			return !got.ok
		}
		s.set(c.i, c.label)
		return got.ok
	case scGet:
		if !on {
			return !got.ok
		}
		return got.ok && nd.And(got.v[0] == c.i, got.v[1] == uint64(s.lab[c.i]))
	case scHas:
		return nd.And(got.v[0] == nd.Ite(on, 1, 0))
	case scFree:
		full := true
		for _, l := range s.lab {
			full = full && l >= 0
		}
		if !got.ok {
			return full || rivals
		}
		for i, l := range s.lab {
			if got.v[0] == uint64(i) { // a path for every slot
				if l >= 0 {
					return false
				}
				s.set(uint64(i), c.label)
				return got.v[1] == uint64(c.label)
			}
		}
		return false
	case scAll:
		return s.listing(got, touched, func(int) bool { return true })
	case scByLabel:
		return s.listing(got, touched, func(l int) bool { return c.yes[l] })
	case scSize:
		n := 0
		for _, l := range s.lab {
			if l >= 0 {
				n++
			}
		}
		return got.v[0] == uint64(n)
	case scFindFree:
		for i, l := range s.lab {
			if l < 0 {
				return got.ok && got.v[0] == uint64(i)
			}
		}
		return !got.ok
	}
	return false
}

// c28 runs the threads; claim sets up a slot, run performs a call and all
// lists the slots.
func c28(n int, claim func(i uint64, l int) bool, run func(c scall) lres) {
	s := &slots{lab: make([]int, n), ever: make([][]int, n)}
	for i := range s.lab {
		s.lab[i] = -1
		if nd.Choice("occ", 2) == 1 {
			nd.Assert(claim(uint64(i), 0), "claiming an unclaimed slot fails")
			s.lab[i] = 0
			s.ever[i] = append(s.ever[i], 0)
		}
	}
	th := nd.Param("threads", 2)
	touched := make([]bool, n)
	total := 1 + 2*th
	claims := 0
	var lens []int
	var calls [][]scall
	last := 0
	for i := 0; i < th; i++ {
		l := nd.Param("calls", 1)
		if i > 0 {
			l = nd.Param("calls2", l)
		}
		lens = append(lens, l)
		var cs []scall
		for j := 0; j < l; j++ {
			k := pickKind("kind", scKinds)
			if i > 0 && l == 1 && lens[i-1] == 1 {
				nd.Assume(k >= last) // symmetric threads
			}
			last = k
			c := scall{kind: k, label: 1 + 2*i + j%2}
			switch k {
			case scClaim, scRelease, scUpdate, scGet, scHas:
				c.i = uint64(nd.Choice("slot", n))
			case scByLabel:
				// everything, the entries of before, or those of the calls
				what := nd.Choice("sel", 3)
				for x := 0; x < total; x++ {
					y := what == 0 || (x < 1) == (what == 1)
					c.yes = append(c.yes, y)
				}
				c.sel = selOf(c.yes)
			}
			switch k {
			case scClaim, scUpdate:
				s.ever[c.i] = append(s.ever[c.i], c.label)
				touched[c.i] = true
			case scRelease:
				touched[c.i] = true
			case scFree:
				for x := range s.ever {
					s.ever[x] = append(s.ever[x], c.label)
					touched[x] = touched[x] || s.lab[x] < 0
				}
			}
			if k == scClaim || k == scFree {
				claims++
			}
			cs = append(cs, c)
		}
		calls = append(calls, cs)
	}
	explain(lens,
		func(th, i int) lres { return run(calls[th][i]) },
		func() (func(th, i int, got lres) bool, func() bool) {
			ss := s.copy()
			return func(th, i int, got lres) bool {
					return calls[th][i].apply(ss, got, touched, claims > 1)
				}, func() bool {
					none := make([]bool, n)
					return ss.listing(run(scall{kind: scAll}), none, func(int) bool { return true })
				}
		}, "the concurrent calls have no sequential explanation")
}

// C28_Table: calls of threads on an offset table of n ids that starts anywhere.
func C28_Table() {
	w := width()
	n := nd.Param("n", 2)
	start := uw("start", w)
	nd.Assume(start <= maxOf(w)-uint64(n-1))
	t := newTable(w, start, start+uint64(n-1))
	c28(n, func(i uint64, l int) bool { return t.Claim(start+i, labelOf(l)) == nil },
		func(c scall) lres { return c.table(t, start) })
}

func (c scall) table(t table.Table, start uint64) lres {
	switch c.kind {
	case scClaim:
		return lres{ok: t.Claim(start+c.i, labelOf(c.label)) == nil}
	case scRelease:
		return lres{ok: t.Release(start+c.i) == nil}
	case scUpdate:
		return lres{ok: t.Update(start+c.i, labelOf(c.label)) == nil}
	case scGet:
		e, err := t.Get(start + c.i)
		if err != nil {
			return fail()
		}
		return succ(e.ID().ID()-start, uint64(labelNo(e.Labels())))
	case scHas:
		return succB(t.Has(start + c.i))
	case scFree:
		e, err := t.ClaimFree(labelOf(c.label))
		if err != nil {
			return fail()
		}
		return succ(e.ID().ID()-start, uint64(labelNo(e.Labels())))
	case scAll, scByLabel:
		var es tree.Entries
		if c.kind == scAll {
			es = t.GetAll()
		} else {
			es = t.GetByLabel(c.sel)
		}
		r := succ()
		for _, e := range es {
			r.v = append(r.v, e.ID().ID()-start, uint64(labelNo(e.Labels())))
		}
		return r
	case scSize:
		return succ(uint64(t.Size()))
	case scFindFree:
		id, err := t.FindFree()
		if err != nil {
			return fail()
		}
		return succ(id - start)
	}
	return fail()
}

// C28_IP: calls of threads on an IP table of n addresses that starts anywhere.
// There is no free claim: finding a free address and claiming it are two calls.
func C28_IP() {
	fam := nd.Param("fam", 4)
	n := nd.Param("n", 2)
	from := anyIP("from", fam)
	if fam == 4 {
		nd.Assume(from.lo <= 1<<32-uint64(n))
	} else {
		nd.Assume(nd.Or(from.hi < 1<<64-1, from.lo <= -uint64(n)))
	}
	if nd.Param("hi", 0) > 0 { // keeps the number of words of an address fixed
		nd.Assume(nd.And(from.hi != 0, from.hi < 1<<64-1, from.lo < 1<<63))
	}
	t := iptable.New(from.addr(), from.plus(uint64(n-1)).addr())
	var text []string
	for i := 0; i < n; i++ {
		text = append(text, nd.AddrString(from.plus(uint64(i)).addr()))
	}
	c28(n, func(i uint64, l int) bool { return t.Claim(text[i], routeN(int(i), l)) == nil },
		func(c scall) lres { return c.ip(t, from, n, text) })
}

// routeID tells slot and label of a route made by routeN.
func routeID(r rtable.Route) (uint64, uint64) {
	return uint64(r.Prefix().Addr().As4()[2]), uint64(labelNo(r.Labels()))
}

func (c scall) ip(t iptable.IPTable, from ipa, n int, text []string) lres {
	switch c.kind {
	case scClaim:
		return lres{ok: t.Claim(text[c.i], routeN(int(c.i), c.label)) == nil}
	case scRelease:
		return lres{ok: t.Release(text[c.i]) == nil}
	case scUpdate:
		return lres{ok: t.Update(text[c.i], routeN(int(c.i), c.label)) == nil}
	case scGet:
		e, err := t.Get(text[c.i])
		if err != nil {
			return fail()
		}
		return succ(routeID(e))
	case scHas:
		return succB(t.Has(text[c.i]))
	case scFree: // find, then claim
		a, err := t.FindFree()
		if err != nil {
			return fail()
		}
		for i := 0; i < n; i++ {
			if a == from.plus(uint64(i)).addr() {
				if t.Claim(nd.AddrString(a), routeN(i, c.label)) != nil {
					return fail()
				}
				return succ(uint64(i), uint64(c.label))
			}
		}
		return succ(uint64(n), 0)
	case scAll, scByLabel:
		var es rtable.Routes
		if c.kind == scAll {
			es = t.GetAll()
		} else {
			es = t.GetByLabel(c.sel)
		}
		r := succ()
		for _, e := range es {
			i, l := routeID(e)
			r.v = append(r.v, i, l)
		}
		return r
	case scSize:
		return succ(uint64(t.Size()))
	case scFindFree:
		a, err := t.FindFree()
		if err != nil {
			return fail()
		}
		for i := 0; i < n; i++ {
			if a == from.plus(uint64(i)).addr() {
				return succ(uint64(i))
			}
		}
		return succ(uint64(n))
	}
	return fail()
}
