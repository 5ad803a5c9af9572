package h

import "github.com/henderiw/idxtable/verifx/nd"

// lres is the outcome of one call.
type lres struct {
	ok bool
	v  []uint64
}

func fail() lres            { return lres{} }
func succ(v ...uint64) lres { return lres{ok: true, v: v} }
func succB(b bool) lres {
	if b {
		return succ(1)
	}
	return succ(0)
}

// eqRes compares outcomes without splitting the path on their values.
func eqRes(a, b lres) bool {
	if a.ok != b.ok || len(a.v) != len(b.v) {
		return false
	}
	r := true
	for i := range a.v {
		r = nd.And(r, a.v[i] == b.v[i])
	}
	return r
}

// orders lists all merges of threads with the given numbers of calls.
func orders(lens []int) [][]int {
	total := 0
	for _, n := range lens {
		total += n
	}
	if total == 0 {
		return [][]int{nil}
	}
	var out [][]int
	for t, n := range lens {
		if n == 0 {
			continue
		}
		rest := append([]int{}, lens...)
		rest[t]--
		for _, o := range orders(rest) {
			out = append(out, append([]int{t}, o...))
		}
	}
	return out
}

// linearize runs threads[t] (lists of calls) concurrently and asserts that the
// outcomes and the final state are those of some sequential order.
// run performs call (t,i) on the real object; model returns a fresh reference
// and final compares it with the real object at the end.
func linearize(lens []int, run func(t, i int) lres, model func() (apply func(t, i int) lres, final func() bool), what string) {
	explain(lens, run, func() (func(t, i int, got lres) bool, func() bool) {
		apply, final := model()
		return func(t, i int, got lres) bool { return eqRes(apply(t, i), got) }, final
	}, what)
}

// explain is linearize with a reference that judges the outcome of a call.
func explain(lens []int, run func(t, i int) lres, model func() (apply func(t, i int, got lres) bool, final func() bool), what string) {
	got := make([][]lres, len(lens))
	for t := range lens {
		got[t] = make([]lres, lens[t])
	}
	for t := range lens {
		t := t
		nd.Go(func() {
			for i := 0; i < lens[t]; i++ {
				got[t][i] = run(t, i)
			}
		})
	}
	nd.Wait()
	ok := false
	for _, o := range orders(lens) {
		apply, final := model()
		pos := make([]int, len(lens))
		good := true
		for _, t := range o {
			i := pos[t]
			pos[t]++
			good = nd.And(good, apply(t, i, got[t][i]))
		}
		good = nd.And(good, final())
		ok = nd.Or(ok, good)
	}
	nd.Assert(ok, what)
	for t := range got {
		for _, r := range got[t] {
			if r.ok {
				nd.Observe("r", uint64(len(r.v))+1)
				for _, v := range r.v {
					nd.Observe("v", v)
				}
			} else {
				nd.Observe("r", 0)
			}
		}
	}
}
