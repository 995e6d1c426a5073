// P16: bad or truncated inputs are refused cleanly by every tool.
package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"unicode/utf8"

	"github.com/UoY-RoboStar/rtcg/internal/zzverif/bb"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/genx"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/mc"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/spec"
)

// refusal says what is wrong with a run that did not succeed, or "".
func refusal(res bb.Res) string {
	switch {
	case res.TimedOut:
		return "does not end"
	case res.Crashed():
		return fmt.Sprintf("crashes (status %d): %s", res.Code, clip(res.Err))
	case strings.TrimSpace(res.Err) == "":
		return fmt.Sprintf("fails with status %d but no diagnostic", res.Code)
	case res.Out != "":
		return fmt.Sprintf("fails with status %d (%s) but writes %q to standard output", res.Code, clip(res.Err), clip(res.Out))
	}
	return ""
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300]
	}
	return s
}

// judgeTraces judges a run of rtcg-read-traces.
func judgeTraces(text string, res bb.Res) string {
	if res.Code != 0 {
		return refusal(res)
	}
	suite, err := spec.DecodeTrees([]byte(res.Out))
	if err != nil {
		return "succeeds with malformed output: " + err.Error()
	}
	if !utf8.ValidString(text) {
		return ""
	}
	want, ok := spec.ParseTraces(text)
	if !ok {
		return "succeeds on a file that is malformed"
	}
	if len(suite) != len(want) {
		return fmt.Sprintf("succeeds with %d tests, the file has %d", len(suite), len(want))
	}
	return ""
}

// names gives the names of the tests of a JSON suite (as the last member of a name stands).
func names(text string) ([]string, bool) {
	var m map[string]any
	if err := json.NewDecoder(strings.NewReader(text)).Decode(&m); err != nil {
		return nil, false
	}
	var ns []string
	for n := range m {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns, true
}

// judgeStms judges a run of rtcg-make-stms.
func judgeStms(text string, res bb.Res) string {
	if res.Code != 0 {
		return refusal(res)
	}
	ms, err := spec.DecodeStms([]byte(res.Out))
	if err != nil {
		return "succeeds with malformed output: " + err.Error()
	}
	want, ok := names(text)
	if !ok {
		return "succeeds on something that is not a JSON object"
	}
	var got []string
	for n := range ms.Tests {
		got = append(got, n)
	}
	sort.Strings(got)
	if strings.Join(got, "\x00") != strings.Join(want, "\x00") {
		return fmt.Sprintf("succeeds with tests %q, the input has %q", got, want)
	}
	for n, m := range ms.Tests {
		if what := whole(ms, m); what != "" {
			return fmt.Sprintf("succeeds, but in test %q %s", n, what)
		}
	}
	if trees, err := spec.DecodeTrees([]byte(text)); err == nil {
		for n, t := range trees {
			if !spec.Valid(t) {
				return fmt.Sprintf("succeeds although test %q is malformed", n)
			}
			if !spec.IDsClash(t) && !spec.VerdictsClash(t) {
				if what := spec.Mirror(t, ms.Tests[n]); what != "" {
					return fmt.Sprintf("succeeds, but test %q has %s", n, what)
				}
			}
		}
	}
	return ""
}

// whole says what a machine lacks, or "".
func whole(ms *spec.MSuite, m *spec.Machine) string {
	ids := map[string]bool{}
	for _, s := range m.States {
		if s.ID == "" || ids[s.ID] {
			return fmt.Sprintf("state identifier %q is empty or double", s.ID)
		}
		ids[s.ID] = true
	}
	if len(ids) == 0 {
		return "there are no states"
	}
	for _, s := range m.States {
		for _, set := range s.Sets {
			if m.Types[set.Chan] == "" || ms.Types[set.Chan] == "" {
				return fmt.Sprintf("channel %q has no type", set.Chan)
			}
			for _, t := range set.Trs {
				if !ids[t.Next] {
					return fmt.Sprintf("there is no state %q to go to", t.Next)
				}
			}
		}
	}
	return ""
}

// xcfg is a reading of a configuration.
type xcfg struct {
	XMLName xml.Name `xml:"rtcg-gen"`
	Cpps    []struct {
		Variant  string    `xml:"variant,attr"`
		Makefile *struct{} `xml:"makefile"`
		Catkin   *struct{} `xml:"catkin"`
		Channels []struct {
			Name string `xml:"name,attr"`
		} `xml:"channel"`
	} `xml:"cpp"`
}

// judgeGen judges a run of rtcg-gen whose output is in out.
func judgeGen(cfg, text, out string, res bb.Res, each func(variant, test string)) string {
	if res.Code != 0 {
		return refusal(res)
	}
	var c xcfg
	if err := xml.NewDecoder(strings.NewReader(cfg)).Decode(&c); err != nil {
		return "succeeds on a configuration that is malformed: " + err.Error()
	}
	var m struct {
		Tests map[string]any `json:"tests"`
	}
	if err := json.NewDecoder(strings.NewReader(text)).Decode(&m); err != nil {
		return "succeeds on something that is not a suite of state machines: " + err.Error()
	}
	plain := ordinary(text)
	for _, v := range c.Cpps {
		v.Variant = strings.ToLower(v.Variant)
		if v.Variant == "" { // not said
			v.Variant = "animate"
		}
		src := filepath.Join(out, v.Variant, "src")
		need := []string{src + "/rtcg/rtcg.h", src + "/rtcg/rtcg.cpp", src + "/convert/convert.h"}
		if v.Makefile != nil {
			need = append(need, filepath.Join(out, v.Variant, "Makefile"))
		}
		for t := range m.Tests {
			need = append(need, filepath.Join(src, t, "src/main.cpp"))
			if v.Catkin != nil {
				need = append(need, filepath.Join(src, t, "package.xml"), filepath.Join(src, t, "CMakeLists.txt"))
			}
		}
		for _, f := range need {
			b, err := os.ReadFile(f)
			rel, _ := filepath.Rel(out, f)
			if err != nil {
				return "succeeds without making " + rel
			}
			t := string(b)
			if t == "" || strings.Contains(t, "<no value>") || strings.Contains(t, "%!") {
				return "succeeds with a malformed " + rel
			}
			if plain && (strings.HasSuffix(f, ".cpp") || strings.HasSuffix(f, ".h")) {
				if strings.Count(t, "{") != strings.Count(t, "}") || strings.Count("\n"+t, "\n#if") != strings.Count("\n"+t, "\n#endif") {
					return "succeeds with an incomplete " + rel
				}
			}
		}
		for t := range m.Tests {
			each(v.Variant, t)
		}
	}
	return ""
}

const (
	tracesText = "# a comment\nfoo: goTo.in.3, \"y.out.-5\",batteryStatus.out.Ok\n\n callMe.call ,w.out.a\nfoo: y.OUT.7\n"
	treesText  = `{"a":{"tests":["a"],"next":[{"tests":["a"],"outcome":"inc","event":"goTo.in.3","next":[{"id":"two","tests":["a"],"outcome":"pass","event":"y.out.-5","next":[{"tests":["a"],"outcome":"fail"}]}]}]},` +
		`"b":{"id":"r","tests":["b","c"],"next":[{"tests":["b"],"outcome":"pass","event":"w.call","next":[{"tests":["b"],"outcome":"fail"}]},{"tests":["c"],"outcome":"pass","event":"s.out.Ok","next":[{"tests":["c"],"outcome":"fail"}]}]}}`
	smallTree = `{"a":{"tests":["a"],"next":[{"tests":["a"],"outcome":"pass","event":"y.out.5","next":[{"tests":["a"],"outcome":"fail"}]}]}}`
)

// configuration for the state machines.
func config(many bool) genx.Cfg {
	c := genx.Cfg{Vars: []genx.Var{{Kind: "animate", Makefile: true}}}
	if many {
		c.Vars[0].Channels = [][2]string{{"y", "long"}}
		c.Vars[0].Includes = []genx.Inc{{Src: "cstdint", System: true}, {Src: "string.h"}}
		c.Vars = append(c.Vars, genx.Var{Kind: "ros", Catkin: true, Includes: []genx.Inc{{Src: "std_msgs/Int32.h"}},
			Pkg: &genx.Pkg{Name: "p_${NAME}", Email: "a@b", Maintainer: "M", Depends: []string{"roscpp"}, BuildtoolDepends: []string{"catkin"}}})
	}
	return c
}

func stms(trees string) string {
	ts, err := spec.DecodeTrees([]byte(trees))
	if err != nil {
		panic(err)
	}
	return string(spec.EncodeStms(spec.BuildSuite(ts)))
}

func compact(s string) string {
	var b bytes.Buffer
	if err := json.Compact(&b, []byte(s)); err != nil {
		panic(err)
	}
	return b.String()
}

type input struct{ what, text string }

func truncations(text string) (out []input) {
	for i := 0; i <= len(text); i++ {
		out = append(out, input{fmt.Sprintf("cut after %d bytes", i), text[:i]})
	}
	return out
}

// bytesChanged is the text with one byte lost, doubled or replaced at every place.
func bytesChanged(text, menu string) (out []input) {
	for i := 0; i < len(text); i++ {
		out = append(out, input{fmt.Sprintf("byte %d lost", i), text[:i] + text[i+1:]}, input{fmt.Sprintf("byte %d twice", i), text[:i+1] + text[i:]})
		for j := 0; j < len(menu); j++ {
			if menu[j] != text[i] {
				out = append(out, input{fmt.Sprintf("byte %d is %q", i, menu[j]), text[:i] + menu[j:j+1] + text[i+1:]},
					input{fmt.Sprintf("%q before byte %d", menu[j], i), text[:i] + menu[j:j+1] + text[i:]})
			}
		}
	}
	return out
}

func damaged(text string, pairs bool) (out []input) {
	seen := map[string]bool{}
	add := func(what, t string) {
		if !seen[t] {
			seen[t] = true
			out = append(out, input{what, t})
		}
	}
	root := parse(text)
	damage(root, false, func(what string, d *doc) { add(what, d.String()) })
	if pairs {
		damage(root, true, func(w1 string, d1 *doc) {
			if d1.lit != "" {
				return
			}
			damage(parse(d1.String()), true, func(w2 string, d2 *doc) { add(w1+", "+w2, d2.String()) })
		})
	}
	return out
}

// junk is inputs that are something else altogether.
func junk() []input {
	var out []input
	for i, s := range []string{"", " ", "\n", "null", "0", `"x"`, "[]", "[{}]", "true", "{}", "{", "}", "{}{}", "{} x", "null null", `{"a":null}`, `{"a":{}}`, `{"a":[]}`, "\xff\xfe", "\x00", "\ufeff{}",
		"<x/>", "<rtcg-gen/>", "<rtcg-gen></rtcg-gen>", "<rtcg-gen>", "<?xml version=\"1.0\"?>", "nothing", "a.in,b.out", strings.Repeat("[", 20000), strings.Repeat(`{"a":`, 20000),
		`{"tests":null}`, `{"tests":{"a":null}}`, `{"tests":{"a":{}}}`, `{"tests":[]}`, `{"types":{"a":null}}`, `{"types":{"a":"q"}}`, strings.Repeat("x", 1<<20)} {
		out = append(out, input{fmt.Sprintf("junk %d", i), s})
	}
	return out
}

func main() { mc.Main("P16", run) }

func run(r *mc.R) {
	traces(r)
	trees(r)
	machines(r)
	configs(r)
	arguments(r)
	script(r)
}

func feed(r *mc.R, tool string, ins []input, judge func(text string, res bb.Res) string) {
	r.States.Add(int64(len(ins)))
	mc.Par(len(ins), func(i int) {
		if r.Full() || r.Expired() {
			return
		}
		in := ins[i]
		res := bb.Run(r, "", in.text, tool)
		r.Transitions.Add(1)
		r.Validated.Add(1)
		if res.Code == 0 {
			r.Outcome(tool + " succeeds")
		} else {
			r.Outcome(tool + " refuses")
		}
		if what := judge(in.text, res); what != "" {
			r.Violate(fmt.Sprintf("%s %q", tool, in.text), in.what+": "+what, in.text)
		}
	})
}

func traces(r *mc.R) {
	ins := append(junk(), truncations(tracesText)...)
	ins = append(ins, truncations(strings.ReplaceAll(tracesText, "\n", "\r\n"))...)
	ins = append(ins, bytesChanged(tracesText, ".,:\"\n\r\x00\xff #\t{")...)
	if r.Thorough() {
		for _, a := range bytesChanged("f:a.in.1,\"b.out\"\n", ".,:\"\n\xff #") {
			ins = append(ins, bytesChanged(a.text, ".,:\"\n\xff #")...)
		}
	}
	feed(r, "rtcg-read-traces", ins, judgeTraces)
}

func trees(r *mc.R) {
	var pretty bytes.Buffer
	_ = json.Indent(&pretty, []byte(treesText), "", "\t")
	ins := append(junk(), truncations(treesText)...)
	ins = append(ins, truncations(pretty.String())...)
	ins = append(ins, bytesChanged(smallTree, "\"{}[],:.\x00\xff\\ne0")...)
	ins = append(ins, damaged(treesText, r.Thorough())...)
	ins = append(ins, damaged(smallTree, true)...)
	for _, a := range ins {
		if a.what == "cut after 100 bytes" {
			r.Sample("rtcg-make-stms, %s: %q", a.what, a.text)
		}
	}
	feed(r, "rtcg-make-stms", ins, judgeStms)
}

func machines(r *mc.R) {
	big, small := stms(treesText), stms(smallTree)
	both := filepath.Join(r.Work, "gen-both")
	one := filepath.Join(r.Work, "gen-one")
	cfgBoth := config(true).Project(both, map[string]string{"animate": "long toY(const int v) { return v; }\nint fromY(const long m) { return (int)m; }\n"})
	cfgOne := config(false).Project(one, nil)
	type job struct {
		input
		cfg string
	}
	var jobs []job
	addAll := func(cfg string, ins []input) {
		for _, in := range ins {
			jobs = append(jobs, job{in, cfg})
		}
	}
	addAll(cfgBoth, junk())
	addAll(cfgBoth, truncations(compact(big)))
	addAll(cfgOne, truncations(small))
	addAll(cfgOne, bytesChanged(compact(small), "\"{}[],:.\x00\xff\\n0"))
	addAll(cfgBoth, damaged(big, r.Thorough()))
	addAll(cfgOne, damaged(small, true))
	r.States.Add(int64(len(jobs)))
	texts := map[string]string{cfgBoth: config(true).XML(), cfgOne: config(false).XML()}
	var seq atomic.Int64
	sy := newSyntax(r)
	mc.Par(len(jobs), func(i int) {
		if r.Full() || r.Expired() {
			return
		}
		j := jobs[i]
		dir := filepath.Join(r.Work, fmt.Sprintf("m%d", seq.Add(1)))
		_ = os.Mkdir(dir, 0o755)
		defer os.RemoveAll(dir)
		res := bb.Run(r, dir, j.text, "rtcg-gen", j.cfg)
		r.Transitions.Add(1)
		r.Validated.Add(1)
		if res.Code == 0 {
			r.Outcome("rtcg-gen succeeds on machines")
		} else {
			r.Outcome("rtcg-gen refuses machines")
		}
		sig := fmt.Sprintf("rtcg-gen %s %q", filepath.Base(filepath.Dir(j.cfg)), j.text)
		if what := judgeGen(texts[j.cfg], j.text, filepath.Join(dir, "out"), res, func(variant, test string) {
			if variant == "animate" && ordinary(j.text) {
				if what := sy.check(filepath.Join(dir, "out", variant, "src"), test); what != "" {
					r.Violate(sig, fmt.Sprintf("%s: the program of test %q does not compile: %s", j.what, test, what), j.text)
				}
			}
		}); what != "" {
			r.Violate(sig, j.what+": "+what, j.text)
		}
	})
	r.Note("programs_checked_by_the_compiler", sy.count())
}

var word = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9_]*$`)

// typed reports whether a value is of a type.
func typed(t string, v spec.Val) bool {
	switch strings.ToLower(t) {
	case "int":
		return v.Present && v.IsInt && v.Int < 1<<31 && v.Int >= -1<<31
	case "nat":
		return v.Present && v.IsInt && v.Int < 1<<32 && v.Int >= 0
	case "enum":
		return v.Present && !v.IsInt
	}
	return !v.Present
}

// ordinary reports whether all names of a suite of machines make ordinary, distinct names of a program, and all
// values are of the types said.
func ordinary(text string) bool {
	ms, err := spec.DecodeStms([]byte(text))
	if err != nil {
		return false
	}
	seen := map[string]bool{}
	fine := func(kind, s string) bool {
		k := kind + strings.ToUpper(s)
		if !word.MatchString(s) || seen[k] {
			return false
		}
		seen[k] = true
		return true
	}
	for n, m := range ms.Tests {
		if !fine("name:", n) {
			return false
		}
		for _, s := range m.States {
			if !fine("state"+n+":", s.ID) {
				return false
			}
			for _, set := range s.Sets {
				for _, t := range set.Trs {
					if !typed(m.Types[set.Chan], t.Val) || !typed(ms.Types[set.Chan], t.Val) {
						return false
					}
				}
			}
		}
		for c := range m.Types {
			if !fine("chan"+n+":", c) {
				return false
			}
		}
		for _, t := range m.Tests {
			if !fine("test"+n+":", t) {
				return false
			}
		}
	}
	return true
}

// syntax asks the compiler about distinct programs.
type syntax struct {
	r    *mc.R
	pre  string
	mu   sync.Mutex
	seen map[string]string
}

func newSyntax(r *mc.R) *syntax {
	s := &syntax{r: r, pre: filepath.Join(r.Work, "pre.h"), seen: map[string]string{}}
	genx.Write(s.pre, "#include <string>\n#include <iostream>\n")
	if out, err := exec.Command("g++", "-std=c++17", "-x", "c++-header", s.pre, "-o", s.pre+".gch").CombinedOutput(); err != nil {
		r.Broken("precompiled header: %s", out)
	}
	return s
}

func (s *syntax) count() int { return len(s.seen) }

func (s *syntax) check(src, test string) string {
	main, _ := os.ReadFile(filepath.Join(src, test, "src/main.cpp"))
	conv, _ := os.ReadFile(filepath.Join(src, "convert/convert.h"))
	key := genx.Normal(string(main)) + string(conv)
	s.mu.Lock()
	what, ok := s.seen[key]
	s.mu.Unlock()
	if ok {
		return what
	}
	out, err := exec.Command("g++", "-std=c++17", "-w", "-include", s.pre, "-fsyntax-only", "-I"+filepath.Join(src, "rtcg"), "-I"+filepath.Join(src, "convert"),
		filepath.Join(src, test, "src/main.cpp")).CombinedOutput()
	if err != nil {
		what = clip(string(out))
	}
	s.mu.Lock()
	s.seen[key] = what
	s.mu.Unlock()
	return what
}

func configs(r *mc.R) {
	suite := stms(smallTree)
	full := config(true).XML()
	var ins []input
	ins = append(ins, junk()...)
	ins = append(ins, truncations(full)...)
	ins = append(ins, bytesChanged(config(false).XML(), "<>/\"= \x00\xff&a")...)
	ins = append(ins, elements(full)...)
	r.States.Add(int64(len(ins)))
	var seq atomic.Int64
	mc.Par(len(ins), func(i int) {
		if r.Full() || r.Expired() {
			return
		}
		in := ins[i]
		dir := filepath.Join(r.Work, fmt.Sprintf("c%d", seq.Add(1)))
		genx.Write(filepath.Join(dir, "gen.xml"), in.text)
		genx.Write(filepath.Join(dir, "animate/src/convert/convert.cpp"), "// converts\n")
		defer os.RemoveAll(dir)
		res := bb.Run(r, dir, suite, "rtcg-gen", "gen.xml")
		r.Transitions.Add(1)
		r.Validated.Add(1)
		if res.Code == 0 {
			r.Outcome("rtcg-gen succeeds on configuration")
		} else {
			r.Outcome("rtcg-gen refuses configuration")
		}
		if what := judgeGen(in.text, suite, filepath.Join(dir, "out"), res, func(string, string) {}); what != "" {
			r.Violate(fmt.Sprintf("configuration %q", in.text), in.what+": "+what, in.text)
		}
	})
}

// elements is a configuration with each line taken out, doubled or exchanged, each element renamed, and each
// attribute taken out or given another value.
func elements(text string) (out []input) {
	lines := strings.SplitAfter(text, "\n")
	for i := range lines {
		for j := i; j <= len(lines) && j <= i+3; j++ {
			out = append(out, input{fmt.Sprintf("without lines %d to %d", i, j), strings.Join(lines[:i], "") + strings.Join(lines[j:], "")})
		}
		out = append(out, input{fmt.Sprintf("line %d twice", i), strings.Join(lines[:i+1], "") + strings.Join(lines[i:], "")})
		if i+1 < len(lines) {
			out = append(out, input{fmt.Sprintf("lines %d and %d exchanged", i, i+1), strings.Join(lines[:i], "") + lines[i+1] + lines[i] + strings.Join(lines[i+2:], "")})
		}
	}
	for _, name := range []string{"rtcg-gen", "cpp", "include", "channel", "makefile", "catkin", "package", "name", "maintainer", "depend"} {
		for _, to := range []string{"zz", strings.ToUpper(name), "x:" + name, ""} {
			t := strings.NewReplacer("<"+name+">", "<"+to+">", "<"+name+" ", "<"+to+" ", "<"+name+"/", "<"+to+"/", "</"+name+">", "</"+to+">").Replace(text)
			out = append(out, input{name + " renamed " + to, t})
		}
	}
	for _, attr := range []string{"variant", "src", "system", "name", "type", "email"} {
		rest := text
		base := 0
		for {
			at := strings.Index(rest, " "+attr+"=\"")
			if at < 0 {
				break
			}
			end := at + len(attr) + 3 + strings.Index(rest[at+len(attr)+3:], "\"") + 1
			for _, to := range []string{"", " " + attr + `=""`, " " + attr + `="zz"`, " " + attr + `="ROS"`, " " + attr + `="5"`, " " + attr + `="` + strings.Repeat("z", 5000) + `"`, " zz" + rest[at+1:end]} {
				out = append(out, input{fmt.Sprintf("attribute %s at %d is %s", attr, base+at, clip(to)), text[:base+at] + to + text[base+end:]})
			}
			base += end
			rest = rest[end:]
		}
	}
	return out
}

func arguments(r *mc.R) {
	dir := filepath.Join(r.Work, "args")
	good := map[string]string{"rtcg-read-traces": tracesText, "rtcg-make-stms": treesText, "rtcg-gen": stms(smallTree)}
	genx.Write(filepath.Join(dir, "empty"), "")
	genx.Write(filepath.Join(dir, "dir/x"), "")
	genx.Write(filepath.Join(dir, "bad"), "{\"")
	genx.Write(filepath.Join(dir, "gen.xml"), config(false).XML())
	for tool, text := range good {
		tool, text := tool, text
		genx.Write(filepath.Join(dir, tool+".in"), text)
		genx.Write(filepath.Join(dir, "sub", tool, "-"), text)
		menu := []string{tool + ".in", "-", "missing", "missing/missing", "dir", "", "bad", "empty", "gen.xml", "-zz", "--"}
		most := mc.Pick(r, 3, 4)
		var jobs [][]string
		for n := 0; n <= most; n++ {
			mc.Sequences(len(menu), n, func(seq []int) bool {
				var args []string
				for _, s := range seq {
					args = append(args, menu[s])
				}
				jobs = append(jobs, args)
				return true
			})
		}
		r.States.Add(int64(len(jobs) * 2))
		fine := func(name, stdin string) bool {
			switch name {
			case "-":
				return stdin == text
			case tool + ".in":
				return true
			case "empty":
				return tool == "rtcg-read-traces" // no rows, no tests
			}
			return false
		}
		want := bb.Run(r, dir, text, tool, map[string][]string{"rtcg-gen": {"-output", filepath.Join(r.Work, "ref"), "gen.xml"}}[tool]...)
		if want.Code != 0 {
			r.Violate("arguments "+tool, "fails on a good input: "+want.Err, nil)
			return
		}
		mc.Par(len(jobs)*2, func(i int) {
			if r.Full() || r.Expired() {
				return
			}
			args := jobs[i/2]
			stdin := text
			if i%2 == 1 {
				stdin = "{"
				if tool == "rtcg-read-traces" {
					stdin = "nonsense"
				}
			}
			work := filepath.Join(r.Work, fmt.Sprintf("args-%s-%d", tool, i))
			_ = os.Mkdir(work, 0o755)
			defer os.RemoveAll(work)
			for _, f := range []string{"empty", "bad", "gen.xml", "dir", tool + ".in"} {
				_ = os.Symlink(filepath.Join(dir, f), filepath.Join(work, f))
			}
			res := bb.Run(r, work, stdin, tool, args...)
			r.Transitions.Add(1)
			r.Validated.Add(1)
			rest := args
			ok := true
			if tool == "rtcg-gen" {
				if len(rest) > 0 && rest[0] == "--" {
					rest = rest[1:]
				} else if len(rest) > 0 && rest[0] == "-zz" {
					ok = false
				}
				if len(rest) == 0 || rest[0] != "gen.xml" {
					ok = false
				} else {
					rest = rest[1:]
				}
			}
			switch len(rest) {
			case 0:
				ok = ok && fine("-", stdin)
			case 1:
				ok = ok && fine(rest[0], stdin)
			default:
				ok = false
			}
			sig := fmt.Sprintf("arguments %s %q stdin %d", tool, args, i%2)
			if ok {
				r.Outcome(tool + " with good arguments")
				empty := len(rest) == 1 && rest[0] == "empty"
				if res.Code != 0 {
					r.Violate(sig, "should succeed: "+res.Err, nil)
				} else if res.Out != want.Out && !empty {
					r.Violate(sig, "succeeds with another result: "+clip(res.Out), nil)
				} else if tool == "rtcg-gen" {
					if d := genx.Diff(genx.Tree(filepath.Join(r.Work, "ref")), genx.Tree(filepath.Join(work, "out"))); d != "" {
						r.Violate(sig, "makes another project: "+d, nil)
					}
				}
				return
			}
			r.Outcome(tool + " with bad arguments")
			if res.Code == 0 {
				r.Violate(sig, "should fail, but succeeds with "+clip(res.Out), nil)
			} else if what := refusal(res); what != "" {
				r.Violate(sig, what, nil)
			}
		})
	}
}

// script runs the pipeline script with every combination of good and failing stages.
func script(r *mc.R) {
	text, err := os.ReadFile(filepath.Join(r.Repo, "rtcg.sh"))
	if err != nil {
		r.Broken("%v", err)
		return
	}
	tools := []string{"rtcg-read-traces", "rtcg-make-stms", "rtcg-gen"}
	// A stage is the real tool, or fails at once, after reading everything, by a signal, or after half of its output.
	kinds := []string{"real", "exit 1", "cat >/dev/null; echo oops >&2; exit 3", "kill -9 $$", "half", "absent", "exit 255"}
	ins := []input{{"good", tracesText}, {"malformed", "foo: a.b.c\n"}, {"bad quotes", "\"a.in\n"}, {"ill-typed", "a.in.1,a.in.x\n"}, {"no channel", ".in.3\n"}, {"unusable name", "a/b: y.out.1\n"}, {"empty", ""}}
	cfgs := []string{"gen.xml", "missing.xml", "bad.xml"}
	type job struct {
		kind [3]int
		in   int
		cfg  int
		file int
	}
	var jobs []job
	for a := range kinds {
		for b := range kinds {
			for c := range kinds {
				for in := range ins {
					for cfg := range cfgs {
						if (a > 0 || b > 0 || c > 0) && (in > 1 || cfg > 0) {
							continue
						}
						for file := 0; file < 3; file++ {
							jobs = append(jobs, job{[3]int{a, b, c}, in, cfg, file})
						}
					}
				}
			}
		}
	}
	r.States.Add(int64(len(jobs)))
	mc.Par(len(jobs), func(i int) {
		if r.Full() || r.Expired() {
			return
		}
		j := jobs[i]
		dir := filepath.Join(r.Work, fmt.Sprintf("sh%d", i))
		defer os.RemoveAll(dir)
		genx.Write(filepath.Join(dir, "rtcg.sh"), string(text))
		genx.Write(filepath.Join(dir, "gen.xml"), config(false).XML())
		genx.Write(filepath.Join(dir, "bad.xml"), "<rtcg-gen>")
		genx.Write(filepath.Join(dir, "traces"), ins[j.in].text)
		failing := ins[j.in].what != "good" && ins[j.in].what != "empty" || j.cfg > 0
		for k, tool := range tools {
			path := filepath.Join(dir, "bin", tool)
			switch kind := kinds[j.kind[k]]; kind {
			case "real":
				_ = os.MkdirAll(filepath.Dir(path), 0o755)
				_ = os.Symlink(filepath.Join(r.Bin, tool), path)
				continue
			case "absent":
			case "half":
				genx.Write(path, fmt.Sprintf("#!/bin/sh\nx=$(%s \"$@\")\nprintf '%%s' \"$x\" | head -c 20\nexit 1\n", filepath.Join(r.Bin, tool)))
			default:
				genx.Write(path, "#!/bin/sh\n"+kind+"\n")
			}
			_ = os.Chmod(path, 0o755)
			failing = true
		}
		args := []string{"rtcg.sh", cfgs[j.cfg]}
		stdin := ins[j.in].text
		switch j.file {
		case 1:
			args = append(args, "traces")
			stdin = "junk"
		case 2:
			args = append(args, "nowhere")
			failing = true
		}
		res := bb.RunEnv(r, dir, nil, strings.NewReader(stdin), "/bin/sh", args...)
		r.Transitions.Add(3)
		r.Validated.Add(1)
		sig := fmt.Sprintf("rtcg.sh stages %v input %s %s %d", j.kind, ins[j.in].what, cfgs[j.cfg], j.file)
		switch {
		case failing && res.Code == 0:
			r.Violate(sig, "succeeds although a stage fails: "+clip(res.Err), nil)
		case failing:
			r.Outcome("rtcg.sh fails with its stage")
		case res.Code != 0:
			r.Violate(sig, "fails although no stage does: "+clip(res.Err), nil)
		default:
			r.Outcome("rtcg.sh succeeds")
		}
	})
	{
		for _, args := range [][]string{{"rtcg.sh"}, {"rtcg.sh", "gen.xml", "traces", "more"}} {
			dir := filepath.Join(r.Work, "shargs")
			genx.Write(filepath.Join(dir, "rtcg.sh"), string(text))
			_ = os.Symlink(r.Bin, filepath.Join(dir, "bin"))
			genx.Write(filepath.Join(dir, "gen.xml"), config(false).XML())
			genx.Write(filepath.Join(dir, "traces"), tracesText)
			res := bb.RunEnv(r, dir, nil, strings.NewReader(tracesText), "/bin/sh", args...)
			if res.Code == 0 || res.Err == "" {
				r.Violate(fmt.Sprintf("rtcg.sh arguments %q", args[1:]), "succeeds with a wrong number of arguments", nil)
			}
		}
	}
}
