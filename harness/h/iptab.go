package h

import (
	"net/netip"

	"github.com/hansthienpondt/nipam/pkg/table"
	"github.com/henderiw/idxtable/pkg/iptable"
	"github.com/henderiw/idxtable/verifx/nd"
)

func init() {
	All["C10_Seq"] = C10_Seq
	All["C11_Lists"] = C11_Lists
}

// ipa is an address: family 4 has hi = 0 and lo below 2^32.
type ipa struct {
	fam    int
	hi, lo uint64
}

func (a ipa) addr() netip.Addr {
	if a.fam == 4 {
		return netip.AddrFrom4([4]byte{byte(a.lo >> 24), byte(a.lo >> 16), byte(a.lo >> 8), byte(a.lo)})
	}
	var b [16]byte
	for i := 0; i < 8; i++ {
		b[i] = byte(a.hi >> uint(56-8*i))
		b[8+i] = byte(a.lo >> uint(56-8*i))
	}
	return netip.AddrFrom16(b)
}

func (a ipa) le(b ipa) bool {
	return nd.Or(a.hi < b.hi, nd.And(a.hi == b.hi, a.lo <= b.lo))
}

func (a ipa) eq(b ipa) bool { return nd.And(a.fam == b.fam, a.hi == b.hi, a.lo == b.lo) }

// plus adds a small number.
func (a ipa) plus(n uint64) ipa {
	r := a
	r.lo += n
	if a.fam == 6 {
		r.hi += nd.Ite(r.lo < a.lo, 1, 0)
	}
	return r
}

func anyIP(name string, fam int) ipa {
	if fam == 4 {
		return ipa{fam: 4, lo: uint64(nd.U32(name))}
	}
	return ipa{fam: 6, hi: nd.U64(name + "hi"), lo: nd.U64(name + "lo")}
}

type ipmodel struct {
	from, to ipa
	at       []ipa
	label    []int
}

func (m *ipmodel) in(a ipa) bool {
	return a.fam == m.from.fam && nd.And(m.from.le(a), a.le(m.to))
}

func (m *ipmodel) find(a ipa) int {
	for i, x := range m.at {
		if x.eq(a) {
			return i
		}
	}
	return -1
}

func (m *ipmodel) set(a ipa, l int) {
	if i := m.find(a); i >= 0 {
		m.label[i] = l
		return
	}
	m.at = append(m.at, a)
	m.label = append(m.label, l)
}

func (m *ipmodel) del(a ipa) {
	if i := m.find(a); i >= 0 {
		m.at = append(append([]ipa{}, m.at[:i]...), m.at[i+1:]...)
		m.label = append(append([]int{}, m.label[:i]...), m.label[i+1:]...)
	}
}

func routeN(i, l int) table.Route {
	return table.NewRoute(netip.PrefixFrom(netip.AddrFrom4([4]byte{10, byte(l), byte(i), 0}), 24), labelOf(l), nil)
}

func route(l int) table.Route { return routeN(0, l) }

func isRouteN(r table.Route, i, l int) bool {
	return labelNo(r.Labels()) == l && r.Prefix() == routeN(i, l).Prefix()
}

func isRoute(r table.Route, l int) bool { return isRouteN(r, 0, l) }

func (m *ipmodel) probe(t iptable.IPTable, a ipa) {
	s := nd.AddrString(a.addr())
	at := m.find(a)
	r, err := t.Get(s)
	nd.Assert((err == nil) == (at >= 0), "Get does not succeed exactly when the address is claimed")
	if at >= 0 {
		nd.Assert(isRoute(r, m.label[at]), "Get returns another route than last stored")
	}
	nd.Assert(t.Has(s) == (at >= 0), "Has is not true exactly for claimed addresses")
	nd.Assert(t.IsFree(s) == (at < 0 && m.in(a)), "IsFree is not true exactly for unclaimed addresses of the range")
	nd.Assert(t.Size() == len(m.at), "Size is not the number of claimed addresses")
}

func (m *ipmodel) step(t iptable.IPTable, op int, a ipa, l int) {
	s := nd.AddrString(a.addr())
	at := m.find(a)
	switch op {
	case 0:
		err := t.Claim(s, route(l))
		obsErr("claim", err)
		ok := at < 0 && m.in(a)
		nd.Assert((err == nil) == ok, "Claim does not succeed exactly when the address is in the range and unclaimed")
		if ok {
			m.set(a, l)
		}
	case 1:
		err := t.Update(s, route(l))
		obsErr("update", err)
		nd.Assert((err == nil) == (at >= 0), "Update does not succeed exactly when the address is claimed")
		if at >= 0 {
			m.set(a, l)
		}
	case 2:
		err := t.Release(s)
		obsErr("release", err)
		ok := m.in(a)
		nd.Assert((err == nil) == ok, "Release does not succeed exactly when the address is in the range")
		if ok {
			m.del(a)
		}
	}
	nd.Assert(t.Size() == len(m.at), "Size is not the number of claimed addresses")
}

var badAddrs = []string{"", "10.0.0", "x", "fe80::1%eth0", "10.0.0.256", "1"}

// C10_Seq: any range of a family, k calls with any address of either family.
func C10_Seq() {
	fam := nd.Param("fam", 4)
	from, to := anyIP("from", fam), anyIP("to", fam)
	nd.Assume(from.le(to))
	if fam == 6 {
		d := to.lo - from.lo
		nd.Assume(to.hi-from.hi == nd.Ite(to.lo < from.lo, 1, 0))
		nd.Assume(d < 1<<63-1)
	}
	if nd.Param("hi", 0) > 0 { // keeps the number of words of an address fixed
		nd.Assume(nd.And(from.hi != 0, to.hi != 0))
	}
	t := iptable.New(from.addr(), to.addr())
	m := &ipmodel{from: from, to: to}
	for k := nd.Param("k", 2); k > 0; k-- {
		f := fam
		if nd.Param("other", 0) > 0 && nd.Choice("fam", 2) == 1 {
			f = 10 - fam
		}
		m.step(t, nd.Choice("op", 3), anyIP("ip", f), k)
	}
	for _, a := range m.at {
		m.probe(t, a)
	}
	f := fam
	switch nd.Choice("fam", 3) {
	case 1:
		f = 10 - fam
	case 2:
		s := badAddrs[nd.Choice("bad", len(badAddrs))]
		_, err := t.Get(s)
		nd.Assert(err != nil, "Get of an unparsable address succeeds")
		nd.Assert(t.Claim(s, route(9)) != nil, "Claim of an unparsable address succeeds")
		nd.Assert(t.Update(s, route(9)) != nil, "Update of an unparsable address succeeds")
		nd.Assert(t.Release(s) != nil, "Release of an unparsable address succeeds")
		nd.Assert(!t.Has(s), "Has is true for an unparsable address")
		nd.Assert(!t.IsFree(s), "IsFree is true for an unparsable address")
		nd.Assert(t.Size() == len(m.at), "Size is not the number of claimed addresses")
		return
	}
	m.probe(t, anyIP("q", f))
	nd.Observe("size", uint64(t.Size()))
}

// C11_Lists: a range of 1..n addresses that starts anywhere, any occupancy.
func C11_Lists() {
	fam := nd.Param("fam", 4)
	n := 1 + nd.Choice("n", nd.Param("n", 3))
	var from ipa
	switch nd.Choice("at", 4) {
	case 0:
		from = ipa{fam: fam}
	case 1: // ends at the last address
		from = ipa{fam: 4, lo: 1<<32 - uint64(n)}
		if fam == 6 {
			from = ipa{fam: 6, hi: ^uint64(0), lo: -uint64(n)}
		}
	case 2: // a carry into the upper half, the IPv4-mapped block
		from = ipa{fam: 4, lo: 1<<24 - 1}
		if fam == 6 {
			from = ipa{fam: 6, hi: 0, lo: ^uint64(0)}
			if nd.Choice("mapped", 2) == 1 {
				from = ipa{fam: 6, hi: 0, lo: 0xffff_0a00_00ff}
			}
		}
	case 3:
		from = anyIP("from", fam)
		if fam == 4 {
			nd.Assume(from.lo <= 1<<32-uint64(n))
		} else {
			nd.Assume(nd.Or(from.hi < 1<<64-1, from.lo <= -uint64(n)))
		}
	}
	m := &ipmodel{from: from, to: from.plus(uint64(n - 1))}
	t := iptable.New(from.addr(), m.to.addr())
	nl := nd.Param("labels", 2)
	lab := make([]int, n)
	for j := 0; j < n; j++ {
		i := j
		if nd.Param("down", 0) > 0 {
			i = n - 1 - j
		}
		lab[i] = -1
		if nd.Choice("occ", 2) == 0 {
			continue
		}
		l := nd.Choice("label", nl)
		a := from.plus(uint64(i))
		nd.Assert(t.Claim(nd.AddrString(a.addr()), routeN(i, l)) == nil, "Claim of an unclaimed address of the range fails")
		lab[i] = l
	}
	free := -1
	for i, l := range lab {
		if l < 0 {
			free = i
			break
		}
	}
	a, err := t.FindFree()
	obsErr("free", err)
	nd.Assert((err == nil) == (free >= 0), "FindFree does not fail exactly when the range is full")
	if free >= 0 {
		nd.Assert(a == from.plus(uint64(free)).addr(), "FindFree does not return the lowest free address in the family of the range")
	}
	listed(t.GetAll(), lab, func(l int) bool { return true })
	sel, yes := chooseSel(nl)
	listed(t.GetByLabel(sel), lab, func(l int) bool { return yes[l] })
	if free >= 0 { // what was found can be claimed, and then another one is found
		s := nd.AddrString(a)
		nd.Assert(t.Claim(s, routeN(free, 5)) == nil, "the free address found cannot be claimed")
		lab[free] = 5
		b, err := t.FindFree()
		next := -1
		for i, l := range lab {
			if l < 0 {
				next = i
				break
			}
		}
		nd.Assert((err == nil) == (next >= 0), "FindFree does not fail exactly when the range is full")
		if next >= 0 {
			nd.Assert(b == from.plus(uint64(next)).addr(), "FindFree does not return the lowest free address")
		}
		listed(t.GetAll(), lab, func(l int) bool { return true })
	}
}

func listed(rs table.Routes, lab []int, pick func(l int) bool) {
	j := 0
	for i, l := range lab {
		if l < 0 || !pick(l) {
			continue
		}
		nd.Assert(j < len(rs), "a route is not listed")
		nd.Assert(isRouteN(rs[j], i, l), "the routes are not listed in address order")
		j++
	}
	nd.Assert(j == len(rs), "a route too many is listed")
}
