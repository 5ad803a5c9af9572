package h

import (
	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/id16"
	"github.com/henderiw/idxtable/pkg/tree/id32"
	"github.com/henderiw/idxtable/pkg/tree/id64"
	"github.com/henderiw/idxtable/verifx/nd"
)

func init() {
	All["C25_Text"] = C25_Text
	All["C25_Parts"] = C25_Parts
	All["C25_Round"] = C25_Round
}

func parseRange(w int, s string) (tree.Range, error) {
	switch w {
	case 16:
		return id16.ParseRange(s)
	case 32:
		return id32.ParseRange(s)
	}
	return id64.ParseRange(s)
}

// number is the value of a text and whether it is a plain decimal number that
// fits the width.
func number(b []byte, w int) (uint64, bool) {
	max := maxOf(w)
	ok := len(b) > 0
	var v uint64
	for _, c := range b {
		d := uint64(c - '0')
		digit := nd.And('0' <= c, c <= '9')
		next := v*10 + d
		fits := next <= max
		if w == 64 {
			fits = nd.And(v <= max/10, next >= v*10)
		}
		ok = nd.And(ok, digit, fits)
		v = next
	}
	return v, ok
}

// parsed asserts what parsing a text gives.
func parsed(w int, text []byte) {
	r, err := parseRange(w, string(text))
	at := -1
	for i, c := range text {
		if c == '-' {
			at = i
			break
		}
	}
	if at < 0 {
		nd.Assert(err != nil, "text without a hyphen is not rejected")
		nd.Observe("bad", 1)
		return
	}
	a, aok := number(text[:at], w)
	b, bok := number(text[at+1:], w)
	nd.Assert((err == nil) == nd.And(aok, bok), "a text is not rejected exactly when a part is no number of the width")
	if err != nil {
		nd.Observe("bad", 2)
		return
	}
	nd.Assert(nd.And(r.From().ID() == a, r.To().ID() == b), "a parsed range has other bounds")
	nd.Assert(nd.And(r.From().Length() == uint8(w), r.To().Length() == uint8(w)), "a parsed range is not of full length")
	nd.Assert(r.IsValid() == (a <= b), "a parsed range is not valid exactly when its bounds are in order")
	nd.Observe("from", r.From().ID())
	nd.Observe("to", r.To().ID())
}

// anyBytes are n arbitrary bytes.
func anyBytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = nd.U8("byte")
	}
	return b
}

// C25_Text: any text of up to n bytes.
func C25_Text() {
	w := width()
	parsed(w, anyBytes(nd.Choice("len", nd.Param("n", 5)+1)))
}

// C25_Parts: any texts of alo..ahi and blo..bhi bytes around a hyphen.
func C25_Parts() {
	w := width()
	pick := func(p string) int {
		lo, hi := nd.Param(p+"lo", 1), nd.Param(p+"hi", 1)
		return lo + nd.Choice(p, hi-lo+1)
	}
	la, lb := pick("a"), pick("b")
	a, b := anyBytes(la), anyBytes(lb)
	if nd.Param("digits", 0) > 0 {
		for _, c := range append(append([]byte{}, a...), b...) {
			nd.Assume(nd.And('0' <= c, c <= '9'))
		}
	}
	t := append(append(append([]byte{}, a...), '-'), b...)
	parsed(w, t)
}

// C25_Round: printing any range and parsing the text.
func C25_Round() {
	w := width()
	a, b := uw("a", w), uw("b", w)
	s := rangeFrom(w, a, b).String()
	r, err := parseRange(w, s)
	nd.Assert(err == nil, "the text of a range is rejected")
	nd.Assert(nd.And(r.From().ID() == a, r.To().ID() == b), "the text of a range has other bounds")
	nd.Assert(nd.And(r.From().Length() == uint8(w), r.To().Length() == uint8(w)), "a parsed range is not of full length")
	nd.Assert(r.IsValid() == (a <= b), "a parsed range is not valid exactly when its bounds are in order")
	nd.Observe("len", uint64(len(s)))
}
