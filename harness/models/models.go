// Package models holds Go stand-ins for standard library functions that are
// written in assembly or rely on reflection. Only the symbolic engine uses it.
package models

import (
	"io"
	"strconv"
)

func swapElems(x any, i, j int)
func comparable_(x any) bool
func kind(x any) int
func intOf(x any) uint64
func strOf(x any) string
func boolOf(x any) bool
func typeName(x any) string
func opaque(x any) string
func isOpaque(s string) bool

func swapperImpl(x any) func(i, j int) { return func(i, j int) { swapElems(x, i, j) } }

// RtErr is a run-time error.
type RtErr string

func (e RtErr) Error() string { return string(e) }
func (e RtErr) RuntimeError() {}

func IndexByte(b []byte, c byte) int {
	for i, x := range b {
		if x == c {
			return i
		}
	}
	return -1
}

func IndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func Count(b []byte, c byte) int {
	n := 0
	for _, x := range b {
		if x == c {
			n++
		}
	}
	return n
}

func CountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

func Compare(a, b []byte) int { return CompareString(string(a), string(b)) }

func CompareString(a, b string) int {
	if a == b {
		return 0
	}
	if a < b {
		return -1
	}
	return 1
}

func Equal(a, b []byte) bool { return string(a) == string(b) }

func Index(a, b []byte) int { return IndexString(string(a), string(b)) }

func IndexString(a, b string) int {
	for i := 0; i+len(b) <= len(a); i++ {
		if a[i:i+len(b)] == b {
			return i
		}
	}
	return -1
}

func LastIndexByte(b []byte, c byte) int {
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func LastIndexByteString(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func MakeNoZero(n int) []byte { return make([]byte, n) }
func Clone(s string) string    { return s }
func Zero32() uint32           { return 0 }

// ---- fmt ----

type stringer interface{ String() string }

func str(verb byte, plus, sharp bool, width int, zero bool, a any) string {
	s := ""
	if verb == 'T' {
		return typeName(a)
	}
	if a == nil {
		if verb == 'v' {
			return "<nil>"
		}
		return "%!" + string(rune(verb)) + "(<nil>)"
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		if e, ok := a.(error); ok {
			s = e.Error()
			if verb == 'q' {
				s = strconv.Quote(s)
			}
			return s
		}
		if e, ok := a.(stringer); ok && !sharp {
			s = e.String()
			if verb == 'q' {
				s = strconv.Quote(s)
			}
			return s
		}
	}
	switch kind(a) {
	case 1, 2:
		neg := false
		u := intOf(a)
		if kind(a) == 1 && int64(u) < 0 {
			neg = true
			u = -u
		}
		base := 10
		switch verb {
		case 'x', 'X':
			base = 16
		case 'b':
			base = 2
		case 'o':
			base = 8
		case 'c':
			return string(rune(u))
		case 'd', 'v':
		default:
			return opaque(a)
		}
		s = strconv.FormatUint(u, base)
		if verb == 'X' {
			b := []byte(s)
			for i := range b {
				if b[i] >= 'a' {
					b[i] -= 32
				}
			}
			s = string(b)
		}
		if zero {
			for len(s) < width {
				s = "0" + s
			}
		}
		if neg {
			s = "-" + s
		} else if plus {
			s = "+" + s
		}
	case 3:
		s = strOf(a)
		if verb == 'q' || sharp {
			s = strconv.Quote(s)
		} else if verb != 's' && verb != 'v' {
			return opaque(a)
		}
	case 4:
		s = "false"
		if boolOf(a) {
			s = "true"
		}
	default:
		return opaque(a)
	}
	if isOpaque(s) {
		return s
	}
	for width > 0 && len(s) < width {
		s = " " + s
	}
	return s
}

// cat joins pieces; text that contains an opaque piece is opaque itself.
type pieces struct{ p [16]any }

func cat(parts []string) string {
	op := false
	for _, p := range parts {
		if isOpaque(p) {
			op = true
		}
	}
	if !op {
		s := ""
		for _, p := range parts {
			s += p
		}
		return s
	}
	if len(parts) == 1 {
		return parts[0]
	}
	var t pieces
	for i, p := range parts {
		if i < len(t.p) {
			t.p[i] = p
		}
	}
	return opaque(t)
}

func Sprintf(f string, args ...any) string {
	var out []string
	ai := 0
	lit := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		if i > lit {
			out = append(out, f[lit:i])
		}
		i++
		plus, sharp, zero := false, false, false
		width := 0
		for i < len(f) && (f[i] == '+' || f[i] == '#' || f[i] == '-' || f[i] == ' ' || f[i] == '0' && width == 0) {
			plus = plus || f[i] == '+'
			sharp = sharp || f[i] == '#'
			zero = zero || f[i] == '0'
			i++
		}
		for i < len(f) && f[i] >= '0' && f[i] <= '9' {
			width = width*10 + int(f[i]-'0')
			i++
		}
		if i < len(f) && f[i] == '.' {
			i++
			for i < len(f) && f[i] >= '0' && f[i] <= '9' {
				i++
			}
		}
		if i >= len(f) {
			out = append(out, "%!(NOVERB)")
			lit = i
			break
		}
		v := f[i]
		lit = i + 1
		if v == '%' {
			out = append(out, "%")
			continue
		}
		if ai >= len(args) {
			out = append(out, "%!"+string(rune(v))+"(MISSING)")
			continue
		}
		if v == 'w' {
			v = 'v'
		}
		out = append(out, str(v, plus, sharp, width, zero, args[ai]))
		ai++
	}
	if lit < len(f) {
		out = append(out, f[lit:])
	}
	return cat(out)
}

func Sprint(args ...any) string {
	var out []string
	for i, a := range args {
		if i > 0 && kind(a) != 3 && kind(args[i-1]) != 3 {
			out = append(out, " ")
		}
		out = append(out, str('v', false, false, 0, false, a))
	}
	return cat(out)
}

func Sprintln(args ...any) string {
	var out []string
	for i, a := range args {
		if i > 0 {
			out = append(out, " ")
		}
		out = append(out, str('v', false, false, 0, false, a))
	}
	return cat(append(out, "\n"))
}

// Err formats its text only when asked.
type Err struct {
	f    string
	args []any
	w    error
}

func (e *Err) Error() string { return Sprintf(e.f, e.args...) }
func (e *Err) Unwrap() error { return e.w }

func Errorf(f string, args ...any) error {
	e := &Err{f: f, args: args}
	ai := 0
	for i := 0; i+1 < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i+1 < len(f) && (f[i] == '+' || f[i] == '#') {
			i++
		}
		if f[i] == '%' {
			continue
		}
		if f[i] == 'w' && ai < len(args) {
			if w, ok := args[ai].(error); ok && e.w == nil {
				e.w = w
			}
		}
		ai++
	}
	return e
}

func Printf(f string, args ...any) (int, error)               { return 0, nil }
func Print(args ...any) (int, error)                          { return 0, nil }
func Fprintf(w io.Writer, f string, args ...any) (int, error) { return put(w, Sprintf(f, args...)) }
func Fprint(w io.Writer, args ...any) (int, error)            { return put(w, Sprint(args...)) }
func Fprintln(w io.Writer, args ...any) (int, error)          { return put(w, Sprintln(args...)) }

func put(w io.Writer, s string) (int, error) {
	if isOpaque(s) || typeName(w) == "*os.File" {
		return 0, nil
	}
	return w.Write([]byte(s))
}

func ErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	cmp := comparable_(target)
	for {
		if cmp && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}
