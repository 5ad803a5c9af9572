package main

// Difference bounds over the unsigned values of terms: d[i][j] is the least
// known upper bound of value(i)-value(j). Node 0 is the number zero. Together
// with the ranges this answers most comparisons of bounds without the solver.

const noBound = int64(1) << 62

type order struct {
	node map[int32]int
	term []*Term
	d    [][]int64
	link []int // nodes of the form x+const not yet tied to x
}

func (o *order) reset() {
	o.node = map[int32]int{}
	o.term = o.term[:0]
	o.d = o.d[:0]
	o.link = o.link[:0]
	o.grow(nil)
}

func (o *order) grow(t *Term) int {
	n := len(o.term)
	o.term = append(o.term, t)
	for i := range o.d {
		o.d[i] = append(o.d[i], noBound)
	}
	row := make([]int64, n+1)
	for i := range row {
		row[i] = noBound
	}
	row[n] = 0
	o.d = append(o.d, row)
	return n
}

// at is the node of t (-1: none) and a constant to add to it.
func (f *facts) at(t *Term) (int, int64) {
	for t.op == OpZExt {
		t = t.a
	}
	if t.op == OpConst {
		if t.val < uint64(noBound)/4 {
			return 0, int64(t.val)
		}
		return -1, 0
	}
	o := &f.ord
	if n, ok := o.node[t.id]; ok {
		return n, 0
	}
	if len(o.term) > 60 {
		return -1, 0
	}
	n := o.grow(t)
	o.node[t.id] = n
	o.add(0, n, 0)
	if t.op == OpAdd && (t.b.op == OpConst || t.a.op == OpConst) {
		o.link = append(o.link, n)
		f.tie()
	}
	return n, 0
}

// add records value(i)-value(j) <= c and closes.
func (o *order) add(i, j int, c int64) {
	if c >= noBound/4 || c <= -noBound/4 || o.d[i][j] <= c {
		return
	}
	n := len(o.term)
	for x := 0; x < n; x++ {
		p := o.d[x][i]
		if p == noBound {
			continue
		}
		for y := 0; y < n; y++ {
			q := o.d[j][y]
			if q == noBound {
				continue
			}
			if s := p + c + q; s < o.d[x][y] && s > -noBound/4 && s < noBound/4 {
				o.d[x][y] = s
			}
		}
	}
}

// tie connects x+const to x once it is known not to wrap around.
func (f *facts) tie() {
	o := &f.ord
	for i := 0; i < len(o.link); i++ {
		t := o.term[o.link[i]]
		x, k := t.a, t.b
		if x.op == OpConst {
			x, k = k, x
		}
		m := mask(t.w)
		c := k.val
		ok, off := false, int64(0)
		if c <= m/2 { // x + c
			ok = f.rng(x).hi <= m-c || f.rng(t).lo >= c && c > 0
			off = int64(c)
		} else { // x - (2^w - c)
			c = m - c + 1
			ok = f.rng(x).lo >= c || f.rng(t).hi <= m-c
			off = -int64(c)
		}
		if !ok || off >= noBound/4 || off <= -noBound/4 {
			continue
		}
		n := o.link[i]
		o.link = append(o.link[:i:i], o.link[i+1:]...)
		xn, xc := f.at(x)
		if xn >= 0 {
			o.add(n, xn, off+xc)
			o.add(xn, n, -off-xc)
		}
		i = -1 // the list may have changed
	}
}

// diff is an upper bound of a-b.
func (f *facts) diff(a, b *Term) (int64, bool) {
	i, ci := f.at(a)
	j, cj := f.at(b)
	if i < 0 || j < 0 || f.ord.d[i][j] == noBound {
		return 0, false
	}
	return f.ord.d[i][j] + ci - cj, true
}

// atMost records a-b <= c.
func (f *facts) atMost(a, b *Term, c int64) {
	i, ci := f.at(a)
	j, cj := f.at(b)
	if i >= 0 && j >= 0 {
		f.ord.add(i, j, c-ci+cj)
	}
}
