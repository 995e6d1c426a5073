// P20: identifier and topic naming follows its rules for every name.
package main

import (
	"fmt"
	"strings"
	"sync/atomic"
	"text/template"
	"unicode"
	"unicode/utf8"

	"github.com/UoY-RoboStar/rtcg/internal/gen/cpp"
	"github.com/UoY-RoboStar/rtcg/internal/gen/templating"
	"github.com/UoY-RoboStar/rtcg/internal/strmanip"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/mc"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/words"
)

// lowerUnderscored is the reference: it looks at neighbouring pairs of characters only.
func lowerUnderscored(s string) string {
	rs := []rune(s)
	var out []rune
	for i, c := range rs {
		if i > 0 && unicode.IsLower(rs[i-1]) && unicode.IsUpper(c) {
			out = append(out, '_')
		}
		out = append(out, unicode.ToLower(c))
	}
	return string(out)
}

func upcase(s string) string {
	if s == "" {
		return ""
	}
	c, n := utf8.DecodeRuneInString(s)
	return string(unicode.ToUpper(c)) + s[n:]
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + fmt.Sprintf("...(%d)", len(s))
	}
	return s
}

func hasStubbornUpper(s string) bool {
	for _, c := range s {
		if unicode.IsUpper(unicode.ToLower(c)) {
			return true
		}
	}
	return false
}

type counters struct{ evals, split, changed atomic.Int64 }

func check(r *mc.R, c *counters, s string) {
	var low, twice, up string
	if p := mc.Catch(func() {
		low = strmanip.ToLowerUnderscored(s)
		twice = strmanip.ToLowerUnderscored(low)
		up = strmanip.UpcaseFirst(s)
	}); p != "" {
		r.Violate("convert "+clip(fmt.Sprintf("%q", s)), "panic: "+p, nil)
		return
	}
	c.evals.Add(1)
	want := lowerUnderscored(s)
	if low != want {
		r.Violate("lower-underscore "+clip(fmt.Sprintf("%q", s)), fmt.Sprintf("gives %q, should be %q", clip(low), clip(want)), nil)
	}
	if twice != low && !hasStubbornUpper(s) {
		r.Violate("lower-underscore twice "+clip(fmt.Sprintf("%q", s)), fmt.Sprintf("gives %q then %q", clip(low), clip(twice)), nil)
	}
	if want := upcase(s); up != want {
		r.Violate("upper-case the first letter of "+clip(fmt.Sprintf("%q", s)), fmt.Sprintf("gives %q, should be %q", clip(up), clip(want)), nil)
	}
	if len(want) > len(s) {
		c.split.Add(1)
	}
	if want != s {
		c.changed.Add(1)
	}
}

// derived checks the names derived from a channel, state or test name.
func derived(r *mc.R, s string, tmpls map[string]*template.Template) {
	U, T := upcase(s), strings.ToUpper(s)
	for _, d := range []struct {
		what, want string
		got        func() string
	}{
		{"callback", s + "Callback", func() string { return cpp.CallbackName(s) }},
		{"message type", U + "Msg", func() string { return cpp.ChannelMsgType(s) }},
		{"value type", U + "Val", func() string { return cpp.ChannelValueType(s) }},
		{"conversion to", "to" + U, func() string { return cpp.ConvertTo(s) }},
		{"conversion from", "from" + U, func() string { return cpp.ConvertFrom(s) }},
		{"state entry", "enter" + U, func() string { return cpp.StateEntry(testlang.NodeID(s)) }},
		{"state enumerator", "State::" + T, func() string { return cpp.StateEnum(testlang.NodeID(s)) }},
		{"test enumerator", "Test::" + T, func() string { return cpp.TestEnum(s) }},
		{"enumerator", T, func() string { return cpp.EnumField(s) }},
		{"enumerator of an identifier", T, func() string { return cpp.EnumField(testlang.NodeID(s)) }},
	} {
		var g string
		if p := mc.Catch(func() { g = d.got() }); p != "" || g != d.want {
			r.Violate(d.what+" name of "+clip(fmt.Sprintf("%q", s)), fmt.Sprintf("is %q %s, should be %q", clip(g), p, clip(d.want)), nil)
		}
	}
	for fn, t := range tmpls {
		want := map[string]string{"toUpper": T, "upcaseFirst": U, "toLowerUnderscored": lowerUnderscored(s), "cppCallbackName": s + "Callback",
			"cppChannelMsgType": U + "Msg", "cppChannelValueType": U + "Val", "cppConvertFrom": "from" + U, "cppConvertTo": "to" + U,
			"cppEnumField": T, "cppTestEnum": "Test::" + T}[fn]
		var b strings.Builder
		var err error
		if p := mc.Catch(func() { err = t.Execute(&b, s) }); p != "" || err != nil || b.String() != want {
			r.Violate("template function "+fn+" on "+clip(fmt.Sprintf("%q", s)), fmt.Sprintf("gives %q (%v %s), should be %q", clip(b.String()), err, p, clip(want)), nil)
		}
	}
}

func main() { mc.Main("P20", run) }

func run(r *mc.R) {
	var c counters
	tmpls := map[string]*template.Template{}
	for _, fn := range []string{"toUpper", "upcaseFirst", "toLowerUnderscored", "cppCallbackName", "cppChannelMsgType", "cppChannelValueType",
		"cppConvertFrom", "cppConvertTo", "cppEnumField", "cppTestEnum"} {
		t, err := templating.Funcs(template.New(fn)).Funcs(cpp.Funcs()).Parse("{{ " + fn + " . }}")
		if err != nil {
			r.Violate("template function "+fn, err.Error(), nil)
			continue
		}
		tmpls[fn] = t
	}
	// 1. Every short string over an alphabet with every sort of character.
	alpha := []string{"a", "B", "_", "7", "é", "É", "中", "ǅ", "-"}
	depth := mc.Pick(r, 6, 7)
	var derivedRuns atomic.Int64
	for n := 0; n <= depth; n++ {
		count := mc.Pow(len(alpha), n)
		mc.Par(64, func(w int) {
			seq := make([]int, n)
			for x := w; x < count && !r.Full(); x += 64 {
				mc.Decode(x, len(alpha), seq)
				var b strings.Builder
				for _, s := range seq {
					b.WriteString(alpha[s])
				}
				check(r, &c, b.String())
				if n <= 4 {
					derived(r, b.String(), tmpls)
					derivedRuns.Add(1)
				}
			}
		})
	}
	// Longer ones over the letters that matter most.
	core := []string{"a", "B", "_"}
	for n := depth + 1; n <= mc.Pick(r, 12, 14); n++ {
		count := mc.Pow(len(core), n)
		mc.Par(64, func(w int) {
			seq := make([]int, n)
			for x := w; x < count && !r.Full(); x += 64 {
				mc.Decode(x, len(core), seq)
				var b strings.Builder
				for _, s := range seq {
					b.WriteString(core[s])
				}
				check(r, &c, b.String())
			}
		})
	}
	// 2. Every Unicode character in every context of a lower-case, upper-case or other neighbour.
	var runes atomic.Int64
	mc.Par(0x110, func(w int) {
		for x := w << 12; x < (w+1)<<12; x++ {
			if x >= 0xD800 && x < 0xE000 || r.Full() {
				continue
			}
			ch := string(rune(x))
			runes.Add(1)
			check(r, &c, ch)
			for _, l := range []string{"", "a", "B", "_", "aB", "Ba"} {
				for _, t := range []string{"a", "B", "_", "Ba"} {
					check(r, &c, l+ch+t)
				}
			}
			check(r, &c, ch+ch)
			check(r, &c, "a"+ch)
			check(r, &c, "B"+ch)
			if x < 0x2000 || r.Thorough() {
				derived(r, ch, nil)
				derived(r, ch+"x", nil)
				derived(r, "x"+ch, nil)
				derivedRuns.Add(3)
			}
		}
	})
	// 3. Long names.
	for _, unit := range []string{"aB", "ABc", "fooBar", "a_B", "éÉ", "a7B", "_", "A", "a"} {
		for _, n := range []int{10, 31, 32, 33, 100, 1000, 30000} {
			s := strings.Repeat(unit, n)
			check(r, &c, s)
			check(r, &c, s+"Z")
			check(r, &c, "z"+s)
			if n <= 1000 {
				derived(r, s, tmpls)
				derivedRuns.Add(1)
			}
		}
	}
	// The words of the sources, alone and together with others.
	dict, _ := words.Source(r)
	mc.Par(len(dict), func(i int) {
		for _, d := range []string{dict[i], upcase(dict[i]), strings.ToUpper(dict[i]), strings.ToLower(dict[i])} {
			for _, s := range []string{d, d + "X", d + "x", "x" + d, "X" + d, "x_" + d, d + "_x", d + d} {
				check(r, &c, s)
				derived(r, s, tmpls)
				derivedRuns.Add(1)
			}
		}
	})
	// 4. The outcome enumerators are those of the run-time library.
	for o, want := range map[testlang.Outcome]string{testlang.OutcomeUnset: "rtcg::Outcome::UNSET", testlang.OutcomeInc: "rtcg::Outcome::INC",
		testlang.OutcomePass: "rtcg::Outcome::PASS", testlang.OutcomeFail: "rtcg::Outcome::FAIL"} {
		if g := cpp.OutcomeEnum(o); g != want {
			r.Violate(fmt.Sprintf("outcome enumerator of %s", o), fmt.Sprintf("is %s, should be %s", g, want), nil)
		}
	}
	r.States.Store(c.evals.Load() + derivedRuns.Load())
	r.Transitions.Store(3*c.evals.Load() + 10*derivedRuns.Load())
	r.Evaluations.Store(c.evals.Load() + derivedRuns.Load())
	r.Validated.Store(r.Evaluations.Load())
	r.Nontrivial.Store(c.changed.Load())
	r.OutcomeN("names converted", c.evals.Load())
	r.OutcomeN("names split", c.split.Load())
	r.OutcomeN("names changed", c.changed.Load())
	r.OutcomeN("names derived from", derivedRuns.Load())
	r.OutcomeN("Unicode characters", runes.Load())
	r.Sample("%q -> %q", "fooBarÉa", lowerUnderscored("fooBarÉa"))
	r.Note("bounds", "all strings to length 6 (7) over nine characters and to 12 (14) over three; every Unicode character in 27 contexts")
}
