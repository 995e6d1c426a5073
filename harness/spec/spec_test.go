package spec

import (
	"math"
	"strconv"
	"testing"
)

func TestInts(t *testing.T) {
	for _, s := range []string{"", "0", "-0", "+7", "007", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "1_0", "0x1", "--1", "+", "-", "99999999999999999999", " 1", "1 ", "18446744073709551617", "9223372036854775806", "9223372036854775799"} {
		w, err := strconv.ParseInt(s, 10, 64)
		g, ok := ParseInt10(s)
		if ok != (err == nil) || (ok && g != w) {
			t.Errorf("%q %v %v %v", s, g, ok, w)
		}
		if ok && FormatInt10(g) != strconv.FormatInt(g, 10) {
			t.Error(s)
		}
	}
	_ = math.MaxInt64
}
