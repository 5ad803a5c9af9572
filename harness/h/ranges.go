package h

import (
	"math/bits"

	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/verifx/nd"
)

func init() {
	All["C22_Few"] = C22_Few
	All["C22_Window"] = C22_Window
}

// decomposes asserts that ids are the minimal aligned prefixes of a..b.
func decomposes(w int, ids []tree.ID, a, b uint64) {
	max := maxOf(w)
	nd.Assert(len(ids) > 0, "a range has no prefixes")
	pos := a
	var pl uint8
	var pv uint64
	for i, id := range ids {
		v, l := id.ID(), id.Length()
		nd.Assert(l <= uint8(w), "a prefix is longer than the width")
		nd.Assert(v == pos, "a prefix does not start where it should")
		nd.Assert(v&lowBits(w, l) == 0, "a prefix is not aligned")
		last := v | lowBits(w, l)
		if i > 0 && l > 0 {
			// the two halves of a larger aligned prefix
			bit := uint64(1) << uint64(uint8(w)-l)
			nd.Assert(!nd.And(pl == l, pv^v == bit), "two neighbours could be one prefix")
		}
		if i == len(ids)-1 {
			nd.Assert(last == b, "the last prefix does not end at the end of the range")
		} else {
			nd.Assert(nd.And(last < b, last < max), "a prefix reaches beyond the range")
		}
		pos = last + 1
		pl, pv = l, v
		nd.Observe("id", v)
		nd.Observe("len", uint64(l))
	}
}

// sizeOf is a number of 1..half (a power of two) with at most k bits set.
func sizeOf(name string, half uint64, k int) (uint64, int) {
	top := bits.TrailingZeros64(half)
	// half itself, or bits below it
	p := nd.Choice(name, top+1)
	if p == 0 {
		return half, 1
	}
	v, n := uint64(1)<<uint(p-1), 1
	for p > 1 && n < k {
		p = nd.Choice(name, p)
		if p == 0 {
			break
		}
		v |= 1 << uint(p-1)
		n++
	}
	return v, n
}

// C22_Few: every range that needs at most k prefixes: a..b first differ at bit
// c-1, a is left below the middle between them and b right above it.
func C22_Few() {
	w, k := width(), nd.Param("k", 3)
	c := nd.Choice("common", w+1)
	var a, b uint64
	n := 1
	if c == 0 {
		a = uw("a", w)
		b = a
	} else {
		half := uint64(1) << uint(c-1)
		left, nl := sizeOf("left", half, k-1)
		right, nr := sizeOf("right", half, k-nl)
		n = nl + nr
		if left == half && right == half {
			n = 1
		}
		var hi uint64
		if c < w {
			hi = uw("hi", w) >> uint(c) << uint(c)
		}
		a, b = hi|(half-left), hi|(half+(right-1))
	}
	ids := rangeFrom(w, a, b).IDs()
	decomposes(w, ids, a, b)
	nd.Assert(len(ids) == n, "a range is not split into the least number of prefixes")
	if nd.Param("append", 1) > 0 {
		x, l := uw("x", w), anyLen("lx", w)
		dst := append(make([]tree.ID, 0, 1+2*(c%2)), newID(w, x, l))
		out := rangeFrom(w, a, b).AppendIDs(dst)
		nd.Assert(len(out) == n+1, "appending does not keep what was there")
		nd.Assert(isID(out[0], x, l), "appending does not keep what was there")
		decomposes(w, out[1:], a, b)
	}
}

// C22_Window: every range whose bounds vary in win bits at any position.
func C22_Window() {
	w, win := width(), nd.Param("win", 3)
	s := nd.Choice("shift", w-win+1)
	a, b := uw("a", w), uw("b", w)
	low := uint64(1)<<uint(s) - 1
	nd.Assume(a>>uint(s+win-1)>>1 == b>>uint(s+win-1)>>1)
	nd.Assume(nd.And(a&low == 0, b&low == low, a <= b))
	ids := rangeFrom(w, a, b).IDs()
	decomposes(w, ids, a, b)
}
