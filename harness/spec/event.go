// Package spec is the reference model: an independent, deliberately plain restatement of what rtcg's
// formats and stages mean. It shares no code with the repository.
package spec

import (
	"strings"
	"unicode"
	"unicode/utf8"
)

// Directions.
const (
	In   = 0
	Out  = 1
	Call = 2
)

var kindNames = []string{"in", "out", "call"}

// KindName is the canonical text of a direction.
func KindName(k int) string { return kindNames[k] }

// Val is an optional value.
type Val struct {
	Present bool
	IsInt   bool
	Int     int64
	Str     string
}

// Ev is an event.
type Ev struct {
	Chan string
	Kind int
	Val  Val
}

// None, IntV and EnumV make values.
func None() Val          { return Val{} }
func IntV(i int64) Val   { return Val{Present: true, IsInt: true, Int: i} }
func EnumV(s string) Val { return Val{Present: true, Str: s} }

// ParseInt10 reads a base-10 signed 64-bit integer: an optional sign, then digits only, in range.
func ParseInt10(s string) (int64, bool) {
	neg := false
	if s != "" && (s[0] == '+' || s[0] == '-') {
		neg = s[0] == '-'
		s = s[1:]
	}
	if s == "" {
		return 0, false
	}
	var mag uint64
	const limit = uint64(1) << 63
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c < '0' || '9' < c {
			return 0, false
		}
		d := uint64(c - '0')
		if mag > (limit-d)/10 {
			return 0, false
		}
		mag = mag*10 + d
	}
	if !neg && mag == limit {
		return 0, false
	}
	if neg {
		return -int64(mag-1*b2u(mag > 0)) - b2i(mag > 0), true
	}
	return int64(mag), true
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// FormatInt10 is the canonical text of an integer.
func FormatInt10(i int64) string {
	if i == 0 {
		return "0"
	}
	neg := i < 0
	var digits []byte
	for i != 0 {
		d := i % 10
		if d < 0 {
			d = -d
		}
		digits = append(digits, byte('0'+d))
		i /= 10
	}
	if neg {
		digits = append(digits, '-')
	}
	for a, b := 0, len(digits)-1; a < b; a, b = a+1, b-1 {
		digits[a], digits[b] = digits[b], digits[a]
	}
	return string(digits)
}

// Trim removes leading and trailing white space.
func Trim(s string) string {
	for s != "" {
		r, n := utf8.DecodeRuneInString(s)
		if !unicode.IsSpace(r) {
			break
		}
		s = s[n:]
	}
	for s != "" {
		r, n := utf8.DecodeLastRuneInString(s)
		if !unicode.IsSpace(r) {
			break
		}
		s = s[:len(s)-n]
	}
	return s
}

func trimLeft(s string) string {
	for s != "" {
		r, n := utf8.DecodeRuneInString(s)
		if !unicode.IsSpace(r) {
			break
		}
		s = s[n:]
	}
	return s
}

// ParseVal reads the text of a present value.
func ParseVal(s string) Val {
	s = Trim(s)
	if i, ok := ParseInt10(s); ok {
		return IntV(i)
	}
	return EnumV(s)
}

// ParseEvent reads "channel.direction" or "channel.direction.value".
func ParseEvent(text string) (Ev, bool) {
	var ev Ev
	dot := strings.IndexByte(text, '.')
	if dot < 0 {
		return ev, false
	}
	ev.Chan = Trim(text[:dot])
	rest := text[dot+1:]
	dir, val, hasVal := rest, "", false
	if dot = strings.IndexByte(rest, '.'); dot >= 0 {
		dir, val, hasVal = rest[:dot], rest[dot+1:], true
	}
	if ev.Chan == "" {
		return Ev{}, false
	}
	switch asciiLower(Trim(dir)) {
	case "in":
		ev.Kind = In
	case "out":
		ev.Kind = Out
	case "call":
		ev.Kind = Call
	default:
		return Ev{}, false
	}
	if hasVal {
		ev.Val = ParseVal(val)
	}
	return ev, true
}

func asciiLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'A' <= c && c <= 'Z' {
			b[i] = c + 'a' - 'A'
		}
	}
	return string(b)
}

// Text is the canonical text of the value (it must be present).
func (v Val) Text() string {
	if v.IsInt {
		return FormatInt10(v.Int)
	}
	return v.Str
}

// Text is the canonical text of an event.
func (e Ev) Text() string {
	s := e.Chan + "." + kindNames[e.Kind]
	if e.Val.Present {
		s += "." + e.Val.Text()
	}
	return s
}
