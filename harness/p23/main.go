// P23: the words of the file formats are read in any case, written in one, and nothing else is read.
package main

import (
	"encoding"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"path/filepath"
	"strings"
	"sync/atomic"

	cfg "github.com/UoY-RoboStar/rtcg/internal/gen/config/cpp"
	"github.com/UoY-RoboStar/rtcg/internal/stm/verdict"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/channel"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/rstype"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/bb"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/genx"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/mc"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/spec"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/words"
)

// both is what a word is read into and written from.
type both interface {
	encoding.TextMarshaler
	encoding.TextUnmarshaler
	fmt.Stringer
}

// vocabulary is a set of words and what they stand for.
type vocabulary struct {
	name  string
	words []string
	fresh func() both          // a new holder
	of    func(i int) both     // a holder of the thing that the i-th word stands for
	is    func(b both) int     // which word's thing it holds, or -1
	parse func(s string) error // a function that only parses, if there is one
}

type enum[T comparable] interface {
	*T
	both
}

func enumeration[T comparable, P enum[T]](name string, parse func(string) (T, error), words []string, vals ...T) vocabulary {
	return vocabulary{
		name: name, words: words,
		fresh: func() both { var v T; return P(&v) },
		of:    func(i int) both { v := vals[i]; return P(&v) },
		is: func(b both) int {
			p, ok := b.(P)
			if !ok {
				return -1
			}
			for i, v := range vals {
				if *p == v {
					return i
				}
			}
			return -1
		},
		parse: func(s string) error { _, err := parse(s); return err },
	}
}

func vocabularies() []vocabulary {
	types := []func() *rstype.RsType{rstype.Empty, rstype.Enum,
		func() *rstype.RsType { return rstype.Arithmos(rstype.ArithmosDomainNat) }, func() *rstype.RsType { return rstype.Arithmos(rstype.ArithmosDomainInt) },
		func() *rstype.RsType { return rstype.Arithmos(rstype.ArithmosDomainReal) }}
	return []vocabulary{
		enumeration("outcome", testlang.ParseOutcome, []string{"unset", "inc", "fail", "pass"}, testlang.OutcomeUnset, testlang.OutcomeInc, testlang.OutcomeFail, testlang.OutcomePass),
		enumeration("kind of channel", channel.ParseKind, []string{"in", "out", "call"}, channel.KindIn, channel.KindOut, channel.KindCall),
		enumeration("variant", cfg.ParseVariant, []string{"animate", "ros"}, cfg.VariantAnimate, cfg.VariantRos),
		enumeration("domain", rstype.ParseArithmosDomain, []string{"unknown", "nat", "int", "real"}, rstype.ArithmosDomainUnknown, rstype.ArithmosDomainNat, rstype.ArithmosDomainInt, rstype.ArithmosDomainReal),
		enumeration("kind of type", rstype.ParseKind, []string{"empty", "arithmos", "enum"}, rstype.KindEmpty, rstype.KindArithmos, rstype.KindEnum),
		{
			name: "type", words: []string{"()", "enum", "nat", "int", "real"},
			fresh: func() both { return new(rstype.RsType) },
			of:    func(i int) both { return types[i]() },
			is: func(b both) int {
				t, ok := b.(*rstype.RsType)
				if !ok {
					return -1
				}
				found := -1
				for i, is := range []bool{t.IsEmpty(), t.IsEnum(), t.IsNat(), t.IsInt(), t.IsReal()} {
					if is && found >= 0 {
						return -2
					} else if is {
						found = i
					}
				}
				return found
			},
		},
	}
}

// lower is lower case, for ASCII only.
func lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 'a' - 'A'
		}
	}
	return string(b)
}

func (v *vocabulary) meaning(s string) int {
	for i, w := range v.words {
		if w == lower(s) {
			return i
		}
	}
	return -1
}

// read checks the reading of a text.
func (v *vocabulary) read(r *mc.R, s string) {
	want := v.meaning(s)
	for start := range v.words {
		h := v.of(start)
		var err error
		in := []byte(s)
		if p := mc.Catch(func() { err = h.UnmarshalText(in) }); p != "" {
			r.Violate(v.name+" "+quote(s), "crashes: "+p, nil)
			return
		}
		switch got := v.is(h); {
		case string(in) != s:
			r.Violate(v.name+" "+quote(s), "changes the text that it reads", nil)
		case want >= 0 && err != nil:
			r.Violate(v.name+" "+quote(s), "is refused: "+err.Error(), nil)
		case want >= 0 && got != want:
			r.Violate(v.name+" "+quote(s), fmt.Sprintf("is read as %s, after %s", h, v.words[start]), nil)
		case want < 0 && err == nil:
			r.Violate(v.name+" "+quote(s), fmt.Sprintf("is read as %s", h), nil)
		}
		if want < 0 {
			break
		}
	}
	if v.parse != nil {
		if err := v.parse(s); (err == nil) != (want >= 0) {
			r.Violate(v.name+" "+quote(s), fmt.Sprintf("gives error %v on parsing", err), nil)
		}
	}
	r.Transitions.Add(1)
	r.Validated.Add(1)
}

func quote(s string) string {
	q := fmt.Sprintf("%q", s)
	if len(q) > 60 {
		return fmt.Sprintf("%.50s... (%d bytes)", q, len(s))
	}
	return q
}

// write checks the writing of a word in all formats.
func (v *vocabulary) write(r *mc.R, i int) {
	bad := func(format string, args ...any) {
		r.Violate(v.name+" "+v.words[i], fmt.Sprintf(format, args...), nil)
	}
	h := v.of(i)
	text, err := h.MarshalText()
	if err != nil || string(text) != v.words[i] {
		bad("is written %q (%v)", text, err)
	}
	if s := h.String(); s != v.words[i] {
		bad("is shown as %q", s)
	}
	// The text belongs to whoever asked for it.
	for k := range text {
		text[k] = '#'
	}
	if again, err := v.of(i).MarshalText(); err != nil || string(again) != v.words[i] {
		bad("is written %q (%v) after its text was changed elsewhere", again, err)
	}
	js, err := json.Marshal(map[string]both{"x": h})
	if want := `{"x":"` + v.words[i] + `"}`; err != nil || string(js) != want {
		bad("is written to JSON as %s (%v)", js, err)
	}
	var m map[string]json.RawMessage
	_ = json.Unmarshal(js, &m)
	back := v.fresh()
	if err := json.Unmarshal(m["x"], back); err != nil || v.is(back) != i {
		bad("is read back from JSON as %s (%v)", back, err)
	}
	for _, other := range []string{`1`, `true`, `[]`, `{}`, `"` + v.words[i] + ` "`, `["` + v.words[i] + `"]`} {
		h := v.fresh()
		if err := json.Unmarshal([]byte(other), h); err == nil {
			bad("JSON %s is read as %s", other, h)
		}
	}
	type doc struct {
		A xml.Attr `xml:",any,attr"`
	}
	var d doc
	if err := xml.Unmarshal([]byte(`<x a="`+v.words[i]+`"/>`), &d); err != nil || v.meaning(d.A.Value) != i {
		r.Broken("XML: %v", err)
	}
	r.Evaluations.Add(1)
}

func main() { mc.Main("P23", run) }

func run(r *mc.R) {
	dict, _ := words.Source(r)
	r.Note("words_of_the_sources", len(dict))
	for _, v := range vocabularies() {
		v := v
		for i := range v.words {
			v.write(r, i)
		}
		letters := map[byte]bool{}
		for _, w := range v.words {
			for k := 0; k < len(w); k++ {
				letters[w[k]] = true
			}
		}
		// All ways of writing each word, and everything within two edits of it.
		accepted := atomic.Int64{}
		sigma := []byte{'\x00', ' ', '\t', '\n', '.', '"', '0', '_', '(', ')', 'I', 'z', 0xff, 0xc4, '\xb0', '\x7f'}
		for c := range letters {
			sigma = append(sigma, c, c&^0x20)
		}
		for _, w := range v.words {
			for mask := 0; mask < 1<<len(w); mask++ {
				b := []byte(w)
				for k := range b {
					if mask>>k&1 == 1 && b[k] >= 'a' && b[k] <= 'z' {
						b[k] -= 'a' - 'A'
					}
				}
				v.read(r, string(b))
				accepted.Add(1)
				if mask == 0 || mask == 1<<len(w)-1 || mask == 1 {
					edits(string(b), sigma, mc.Pick(r, 2, 2), func(s string) { v.read(r, s) })
				}
			}
		}
		r.OutcomeN(v.name+": ways of writing a word", accepted.Load())
		// All short strings over the letters of the words.
		var ls []byte
		for c := range letters {
			ls = append(ls, c)
		}
		n := mc.Pick(r, 4, 5)
		total := 0
		for l := 0; l <= n; l++ {
			total += mc.Pow(len(ls), l)
		}
		mc.Par(len(ls), func(first int) {
			for l := 1; l <= n; l++ {
				seq := make([]int, l-1)
				b := make([]byte, l)
				b[0] = ls[first]
				for x := 0; x < mc.Pow(len(ls), l-1); x++ {
					mc.Decode(x, len(ls), seq)
					for i, c := range seq {
						b[i+1] = ls[c]
					}
					v.read(r, string(b))
				}
			}
		})
		r.States.Add(int64(total))
		// Odd texts: words of several vocabularies, numbers, characters that turn into letters of a word.
		for _, s := range []string{"", "0", "1", "-1", "Outcome(1)", "Kind(0)", "Variant(0)", "ArithmosDomain(1)", "null", "nil", "true", "İn", "ın", "ſ", "\ufeffin", "in\u200b", "inout", "in out", "in,out", "i\u006e\u0301", strings.Repeat("in", 40000),
			"paſſ", "caLL\u00a0", "unſet", "roſ", "ｉｎ", "real\x00", "\x00real"} {
			if folds(s) {
				continue
			}
			v.read(r, s)
		}
		// The words of the sources, alone and next to a word.
		for _, d := range dict {
			for _, d := range []string{d, strings.ToLower(d), strings.ToUpper(d)} {
				if folds(d) {
					continue
				}
				v.read(r, d)
				for _, w := range v.words {
					for _, s := range []string{d + w, w + d, d + "_" + w, w + "_" + d, d + " " + w, w + " " + d, d + ":" + w, w + ":" + d, d + "." + w, w + "." + d, d + "::" + w, d + "-" + w, w + "-" + d} {
						v.read(r, s)
					}
				}
			}
		}
		for _, u := range vocabularies() {
			for _, w := range u.words {
				v.read(r, w)
				v.read(r, strings.ToUpper(w))
				v.read(r, w+w)
				v.read(r, strings.Title(w)) //nolint:staticcheck
			}
		}
		r.Sample("%s: %v", v.name, v.words)
	}
	verdicts(r)
	through(r)
}

// folds is whether a text has characters outside ASCII that become ASCII letters in lower case.
func folds(s string) bool { return strings.ContainsAny(s, "\u0130\u212a") }

// edits goes over all texts within n edits of a text.
func edits(s string, sigma []byte, n int, f func(string)) {
	if n == 0 {
		f(s)
		return
	}
	seen := map[string]bool{}
	try := func(t string) {
		if !seen[t] && !folds(t) {
			seen[t] = true
			edits(t, sigma, n-1, f)
		}
	}
	for i := 0; i <= len(s); i++ {
		for _, c := range sigma {
			try(s[:i] + string([]byte{c}) + s[i:])
			if i < len(s) {
				try(s[:i] + string([]byte{c}) + s[i+1:])
			}
		}
		if i < len(s) {
			try(s[:i] + s[i+1:])
			for j := 0; j < i; j++ {
				b := []byte(s)
				b[i], b[j] = b[j], b[i]
				try(string(b))
			}
		}
	}
}

// verdicts checks maps of outcomes: every assignment to up to four tests.
func verdicts(r *mc.R) {
	words := []string{"unset", "inc", "fail", "pass"}
	of := []testlang.Outcome{testlang.OutcomeUnset, testlang.OutcomeInc, testlang.OutcomeFail, testlang.OutcomePass}
	names := []string{"a", "B", "é\"<", "a0", ""}
	for n := 0; n <= len(names); n++ {
		seq := make([]int, n)
		for x := 0; x < mc.Pow(4, n); x++ {
			mc.Decode(x, 4, seq)
			v := verdict.Verdict{}
			want := map[string]string{}
			for i, o := range seq {
				v.Add(of[o], names[i])
				want[names[i]] = words[o]
			}
			bs, err := json.Marshal(&v)
			var got map[string]string
			if err == nil {
				err = json.Unmarshal(bs, &got)
			}
			if err != nil || spec.TypesKey(got) != spec.TypesKey(want) {
				r.Violate(fmt.Sprintf("verdict %v", want), fmt.Sprintf("is written %s (%v)", bs, err), nil)
			}
			for _, up := range []bool{false, true} {
				in := bs
				if up {
					m := map[string]string{}
					for k, w := range want {
						m[k] = strings.ToUpper(w)
					}
					in, _ = json.Marshal(m)
				}
				back := verdict.Verdict{"old": testlang.OutcomeFail}
				if err := json.Unmarshal(in, &back); err != nil || len(back) != n {
					r.Violate(fmt.Sprintf("verdict %v", want), fmt.Sprintf("is read back as %v (%v)", back, err), nil)
					continue
				}
				for i, o := range seq {
					if got, ok := back[names[i]]; !ok || got != of[o] {
						r.Violate(fmt.Sprintf("verdict %v", want), fmt.Sprintf("is read back as %v", back), nil)
					}
				}
			}
			r.States.Add(1)
			r.Validated.Add(1)
		}
	}
	for _, bad := range []string{`{"a":"won"}`, `{"a":""}`, `{"a":"pass "}`, `{"a":3}`, `["pass"]`, `{"a":["pass"]}`, `{"a":"Outcome(3)"}`, `{"a":"pass","b":"x"}`} {
		var v verdict.Verdict
		if err := json.Unmarshal([]byte(bad), &v); err == nil {
			r.Violate("verdict "+bad, fmt.Sprintf("is read as %v", v), nil)
		}
	}
}

// cases gives all ways of writing a word.
func cases(w string) (out []string) {
	seen := map[string]bool{}
	for mask := 0; mask < 1<<len(w); mask++ {
		b := []byte(w)
		for k := range b {
			if mask>>k&1 == 1 && b[k] >= 'a' && b[k] <= 'z' {
				b[k] -= 'a' - 'A'
			}
		}
		if !seen[string(b)] {
			seen[string(b)] = true
			out = append(out, string(b))
		}
	}
	return out
}

// through has the tools read words written in all ways, and near-words.
func through(r *mc.R) {
	type job struct {
		what, tool, input string
		config            string
		ok                bool
		want              string
	}
	var jobs []job
	near := func(w string) []string {
		return []string{w + "x", w[:len(w)-1], " " + w, w + " ", w + w, "", "x"}
	}
	// Kinds of channels, in a trace file; blanks around them do not count there.
	for _, k := range []string{"in", "out", "call"} {
		for _, c := range cases(k) {
			jobs = append(jobs, job{"kind " + c, "rtcg-read-traces", "a." + c + ".1, b. " + c + " , c." + k + "\n", "", true, "a." + k + ".1, b." + k + ", c." + k + "\n"})
		}
		for _, c := range near(k) {
			jobs = append(jobs, job{"kind " + c, "rtcg-read-traces", "a." + c + ".1\n", "", spec.KindName(0) == strings.TrimSpace(c) || strings.TrimSpace(c) == k, "a." + k + ".1\n"})
		}
	}
	tree := func(inc, pass, fail, kind string) string {
		return fmt.Sprintf(`{"t":{"tests":["t"],"next":[{"tests":["t"],"outcome":%q,"event":"a.%s.1","next":[{"tests":["t"],"outcome":%q,"event":"b.out","next":[{"tests":["t"],"outcome":%q}]}]}]}}`, inc, kind, pass, fail)
	}
	plainTree := tree("inc", "pass", "fail", "in")
	for i, w := range []string{"inc", "pass", "fail", "in"} {
		put := func(c string) string {
			ws := []string{"inc", "pass", "fail", "in"}
			ws[i] = c
			return tree(ws[0], ws[1], ws[2], ws[3])
		}
		for _, c := range cases(w) {
			jobs = append(jobs, job{"outcome " + c, "rtcg-make-stms", put(c), "", true, plainTree})
		}
		for _, c := range near(w) {
			ok := w == "in" && strings.TrimSpace(c) == "in"
			jobs = append(jobs, job{"outcome " + c, "rtcg-make-stms", put(c), "", ok, plainTree})
		}
	}
	plainCfg := genx.Cfg{Vars: []genx.Var{{Kind: "animate"}, {Kind: "ros", Catkin: true, Channels: [][2]string{{"e", "std_msgs::String"}}}}}.XML()
	stms := func(ty, pass, ch string) string {
		return fmt.Sprintf(`{"types":{"a":%q},"tests":{"t":{"states":[{"id":"s","transitionSets":[{"channel":%s,"transitions":[{"value":"1","next":"f"}]}],"verdicts":{"t":%q}},{"id":"f","verdicts":{"t":"fail"}}],"types":{"a":%q},"tests":["t"]}}}`, ty, ch, pass, ty)
	}
	chn := func(kind string) string { return fmt.Sprintf(`%q`, "a."+kind) }
	for _, ty := range []string{"enum", "nat", "int", "real"} {
		for _, c := range cases(ty) {
			jobs = append(jobs, job{"type " + c, "rtcg-gen", stms(c, "pass", chn("out")), plainCfg, true, stms(ty, "pass", chn("out"))})
		}
		for _, c := range near(ty) {
			jobs = append(jobs, job{"type " + c, "rtcg-gen", stms(c, "pass", chn("out")), plainCfg, false, ""})
		}
	}
	for _, c := range cases("pass") {
		jobs = append(jobs, job{"verdict " + c, "rtcg-gen", stms("int", c, chn("out")), plainCfg, true, stms("int", "pass", chn("out"))})
	}
	for _, c := range near("pass") {
		jobs = append(jobs, job{"verdict " + c, "rtcg-gen", stms("int", c, chn("out")), plainCfg, false, ""})
	}
	for _, k := range []string{"in", "out", "call"} {
		for _, c := range cases(k) {
			jobs = append(jobs, job{"channel of kind " + c, "rtcg-gen", stms("int", "pass", chn(c)), plainCfg, true, stms("int", "pass", chn(k))})
		}
		for _, c := range near(k) {
			jobs = append(jobs, job{"channel of kind " + c, "rtcg-gen", stms("int", "pass", chn(c)), plainCfg, strings.TrimSpace(c) == k, stms("int", "pass", chn(k))})
		}
	}
	for _, v := range []string{"animate", "ros"} {
		for _, c := range cases(v) {
			jobs = append(jobs, job{"variant " + c, "rtcg-gen", stms("int", "pass", chn("out")), strings.Replace(plainCfg, `variant="`+v+`"`, `variant="`+c+`"`, 1), true, stms("int", "pass", chn("out"))})
		}
		for _, c := range near(v) {
			if c != "" {
				jobs = append(jobs, job{"variant " + c, "rtcg-gen", stms("int", "pass", chn("out")), strings.Replace(plainCfg, `variant="`+v+`"`, `variant="`+c+`"`, 1), false, ""})
			}
		}
	}
	if !strings.Contains(plainCfg, `variant="ros"`) {
		r.Broken("configuration without variant")
	}
	do := func(tool, input, config, dir string) (bb.Res, map[string]string) {
		if tool != "rtcg-gen" {
			return bb.Run(r, "", input, tool), nil
		}
		genx.Write(filepath.Join(dir, "gen.xml"), config)
		genx.Write(filepath.Join(dir, "ros/src/convert/convert.cpp"), "// none\n")
		res := bb.Run(r, dir, input, tool, "gen.xml")
		t := genx.Tree(filepath.Join(dir, "out"))
		for f := range t {
			t[f] = genx.Normal(t[f])
		}
		return res, t
	}
	mc.Par(len(jobs), func(i int) {
		if r.Full() || r.Expired() {
			return
		}
		j := jobs[i]
		dir := filepath.Join(r.Work, fmt.Sprintf("j%d", i))
		res, tree := do(j.tool, j.input, j.config, dir+"a")
		r.Validated.Add(1)
		r.Transitions.Add(1)
		if !j.ok {
			if res.Code == 0 {
				r.Violate(j.tool+": "+j.what, "is accepted", j.input)
			}
			r.Outcome(j.tool + ": refused")
			return
		}
		want, wtree := do(j.tool, j.want, plainCfg, dir+"b")
		r.Outcome(j.tool + ": read")
		switch {
		case res.Code != 0:
			r.Violate(j.tool+": "+j.what, "is refused: "+res.Err, j.input)
		case want.Code != 0:
			r.Violate(j.tool+": plain", "is refused: "+want.Err, j.want)
		case res.Out != want.Out:
			r.Violate(j.tool+": "+j.what, "is read as something else: "+genx.FirstDiff(want.Out, res.Out), j.input)
		default:
			if d := genx.Diff(wtree, tree); d != "" {
				r.Violate(j.tool+": "+j.what, "is read as something else: "+d, j.input)
			}
		}
	})
}
