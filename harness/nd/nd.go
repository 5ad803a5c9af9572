// Package nd supplies the nondeterministic inputs of a harness. The symbolic
// engine intercepts every function here; the bodies below replay recorded
// values against the natively compiled code.
package nd

import (
	"fmt"
	"net/netip"
	"strconv"

	"github.com/henderiw/idxtable/verifx/vsync"
)

type Input struct {
	N string `json:"n"`
	V uint64 `json:"v"`
}

type Run struct {
	Harness string           `json:"harness"`
	Params  map[string]int64 `json:"params"`
	Inputs  []Input          `json:"inputs"`
	Sched   []int            `json:"sched"`
	Obs     []Input          `json:"obs"`
}

// AssertFailed, AssumeFailed and Mismatch are panicked with by a native run.
type AssertFailed struct{ Msg string }
type AssumeFailed struct{}
type Mismatch struct{ Msg string }

var cur *Run
var pos int
var obs []Input

// Start prepares a native run.
func Start(r *Run) {
	cur, pos, obs = r, 0, nil
	vsync.Start(r.Sched)
}

func Observed() []Input { return obs }

func next(name string) uint64 {
	if cur == nil || pos >= len(cur.Inputs) {
		panic(Mismatch{"no recorded value for input " + name})
	}
	i := cur.Inputs[pos]
	pos++
	if i.N != name {
		panic(Mismatch{fmt.Sprintf("input %q is recorded as %q", name, i.N)})
	}
	return i.V
}

func U8(name string) uint8   { return uint8(next(name)) }
func U16(name string) uint16 { return uint16(next(name)) }
func U32(name string) uint32 { return uint32(next(name)) }
func U64(name string) uint64 { return next(name) }
func Bool(name string) bool  { return next(name) != 0 }

// Choice is a concrete value below n; every value is explored on a path of its own.
func Choice(name string, n int) int { return int(next(name)) }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(AssumeFailed{})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		panic(AssertFailed{msg})
	}
}

// Reach marks a point every harness run must be able to get to.
func Reach(name string) {}

// Observe records a value compared between engine and native run.
func Observe(name string, v uint64) { obs = append(obs, Input{name, v}) }

func Param(name string, def int) int {
	if v, ok := cur.Params[name]; ok {
		return int(v)
	}
	return def
}

// MapOrder selects the map iteration orders explored: 0 insertion order,
// 1 that and its reverse, 2 all.
func MapOrder(mode int) int { return 0 }

// Concrete splits the path on the value of v.
func Concrete(v uint64) uint64 { return v }

// And, Or, Ite and IteB evaluate without splitting the path.
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}

func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

func Ite(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

func IteB(c, a, b bool) bool {
	if c {
		return a
	}
	return b
}

// Go starts f as a goroutine under the explored schedule; Wait joins all.
func Go(f func()) { vsync.Go(f) }
func Wait()       { vsync.WaitAll() }

// AddrString is the text of an address.
func AddrString(a netip.Addr) string { return a.String() }

// Decimal is the base-10 text of a number.
func Decimal(v uint64) string { return strconv.FormatUint(v, 10) }

// Padded is that text with zeros before it, 20 digits long.
func Padded(v uint64) string { return fmt.Sprintf("%020d", v) }
