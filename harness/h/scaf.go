package h

import (
	"github.com/henderiw/idxtable/verifx/nd"
)

// scafBase is the id the concrete prior contents of a tree lie around.
const scafBase = 0xA53C69F00F96C35A

type vl struct {
	v uint64
	l uint8
}

func scafOn() bool { return nd.Param("scaf", 0) > 0 }

func scafID(w int) uint64 { return scafBase & lowBits(w, 0) }

// scaffold is the concrete contents a tree starts with, in either order:
// 1 every prefix of one id, 2 all prefixes of up to 3 bits, 3 all prefixes of
// the last 3 bits, 4 all prefixes of 3 bits in the middle, 5 16 neighbouring
// ids, 6 the branches off one id.
func scaffold(w int, max uint64) []vl {
	kind := nd.Param("scaf", 0)
	if kind == 0 {
		return nil
	}
	base := scafID(w) & max
	var r []vl
	full := func(at int) { // all prefixes of at..at+3 bits
		for d := 0; d <= 3; d++ {
			for i := uint64(0); i < 1<<uint(d); i++ {
				l := uint8(at + d)
				v := base & maskBits(w, uint8(at))
				if d > 0 {
					v |= i << uint(w-at-d)
				}
				r = append(r, vl{v, l})
			}
		}
	}
	switch kind {
	case 1:
		for l := 0; l <= w; l++ {
			r = append(r, vl{base & maskBits(w, uint8(l)), uint8(l)})
		}
	case 2:
		full(0)
	case 3:
		full(w - 3)
	case 4:
		full(w/2 - 1)
	case 5:
		for i := uint64(0); i < 16; i++ {
			r = append(r, vl{base&^15 | i, uint8(w)})
		}
	case 6:
		for l := 1; l <= w; l++ {
			r = append(r, vl{base&maskBits(w, uint8(l)) ^ 1<<uint(w-l), uint8(l)})
		}
	}
	if nd.Choice("order", 2) == 1 {
		for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
			r[i], r[j] = r[j], r[i]
		}
	}
	return r
}

func init() { All["C16_Hole"] = C16_Hole }

// C16_Hole: a tree of which prefixes cover every id but one; it is claimed
// free, then one of the prefixes released and an id claimed free in it.
func C16_Hole() {
	w := width()
	ls := []int{w, w - 1, w/2 + 1, 3}
	l := uint8(ls[nd.Choice("treelen", nd.Param("lens", len(ls)))])
	m := &gtm{w: w, l: l, max: lowBits(w, uint8(w)-l), next: -1}
	t := newTree(w, l)
	top, win := w-int(l), min(nd.Param("win", 2), int(l))
	hole := []uint64{scafID(w), 0, maxOf(w)}[nd.Choice("pattern", 3)] & m.max
	sh := uint([]int{0, int(l) - win, (int(l) - win) / 2}[nd.Choice("window", 3)])
	bits := nd.Concrete(uw("bits", w) & (1<<uint(win) - 1))
	hole = hole&^((1<<uint(win)-1)<<sh) | bits<<sh
	up := nd.Choice("order", 2) == 1
	for i := top + 1; i <= w; i++ {
		pl := i
		if up {
			pl = w + top + 1 - i
		}
		m.next++
		v := hole&maskBits(w, uint8(pl)) ^ 1<<uint(w-pl)
		nd.Assert(t.ClaimID(newID(w, v, uint8(pl)), labelOf(m.next)) == nil, "claiming a prefix of the tree fails")
		m.n = append(m.n, gnode{v, uint8(pl), m.next, true, 0})
	}
	m.claimFree(t)
	nd.Assert(m.covered(hole), "a free claim does not take the only free id")
	m.claimFree(t)
	x := &m.n[[]int{0, len(m.n) / 2, len(m.n) - 1, len(m.n) - 2}[nd.Choice("which", 4)]]
	nd.Assert(t.ReleaseID(newID(w, x.v, x.l)) == nil, "releasing a prefix of the tree fails")
	x.on = false
	k := len(m.n)
	m.claimFree(t)
	if len(m.n) > k { // what was released may have been the id itself
		x = &m.n[k]
	}
	nd.Assert(x.on, "no id is claimed though one is free")
	m.listed(t.GetAll(), every)
}
