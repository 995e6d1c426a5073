// P14: generated projects are complete and honour their configuration.
package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/UoY-RoboStar/rtcg/internal/zzverif/genx"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/mc"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/spec"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/words"
)

func ev(s string) spec.Ev {
	e, ok := spec.ParseEvent(s)
	if !ok {
		panic(s)
	}
	return e
}

func linear(name string, events ...string) *spec.Node {
	t := spec.Trace{}
	for i, e := range events {
		if i == len(events)-1 {
			t.Forbid = ev(e)
		} else {
			t.Prefix = append(t.Prefix, ev(e))
		}
	}
	return spec.Expand(t, name)
}

// suite is a suite and the channels it uses.
type suite struct {
	name  string
	tests []string
	s     *spec.MSuite
	chans map[string]bool
}

func mk(name string, tests map[string]*spec.Node) suite {
	u := suite{name: name, s: spec.BuildSuite(tests), chans: map[string]bool{}}
	for t := range tests {
		u.tests = append(u.tests, t)
	}
	sort.Strings(u.tests)
	for c := range u.s.Types {
		u.chans[c] = true
	}
	return u
}

func suites() []suite {
	return []suite{
		mk("empty", nil),
		mk("one output", map[string]*spec.Node{"alpha": linear("alpha", "y.out.3")}),
		mk("in and out", map[string]*spec.Node{"alpha": linear("alpha", "x.in.1", "y.out.-3", "z.out.Go")}),
		mk("two", map[string]*spec.Node{"alpha": linear("alpha", "x.in.1", "y.out.3"), "b_2": linear("b_2", "z.out.Go", "z.out.Stop")}),
		mk("three", map[string]*spec.Node{"alpha": linear("alpha", "x.in.1", "y.out.3"), "B3": linear("B3", "v.in", "z.out.Stop"), "c": linear("c", "y.out.1", "y.out.2", "w.call")}),
		mk("valueless", map[string]*spec.Node{"alpha": linear("alpha", "v.in", "w.out")}),
		mk("roots", map[string]*spec.Node{"alpha": {Tests: []string{"alpha"}}, "b_2": linear("b_2", "x.in.1", "z.out.Go"), "c": {Tests: []string{"c", "other"}}}),
		mk("branches", map[string]*spec.Node{"alpha": branches("alpha"), "B3": linear("B3", "z.out.Go")}),
		mk("other channels", map[string]*spec.Node{"delta": linear("delta", "p.in.on", "q.out.7")}),
	}
}

// branches is a tree with inputs and outputs side by side, on channels that return further down.
func branches(name string) *spec.Node {
	one := func(a string) *spec.Node { return spec.Expand(spec.Trace{Forbid: ev(a)}, name).Next[0] }
	inc := func(a string, next ...*spec.Node) *spec.Node {
		e := ev(a)
		return &spec.Node{Tests: []string{name}, Outcome: spec.Inc, Ev: &e, Next: next}
	}
	return &spec.Node{Tests: []string{name}, Next: []*spec.Node{
		inc("x.in.1", one("y.out.3"), inc("z.out.Go", one("x.in.2")), one("w.call")), one("z.out.Stop"), inc("v.in", one("y.out.3"), one("y.out.4"))}}
}

// opts are the options of a variant.
type opts struct{ make, catkin, inc, over int }

const (
	nInc  = 4
	nOver = 6
)

func allOpts() []opts {
	var out []opts
	for m := 0; m < 2; m++ {
		for c := 0; c < 3; c++ {
			for i := 0; i < nInc; i++ {
				for o := 0; o < nOver; o++ {
					out = append(out, opts{m, c, i, o})
				}
			}
		}
	}
	return out
}

// variant makes the variant's configuration; every name in it is marked with the variant.
func variant(kind string, o opts) genx.Var {
	v := genx.Var{Kind: kind, Makefile: o.make == 1, Catkin: o.catkin > 0}
	if o.catkin == 2 {
		v.Pkg = &genx.Pkg{Name: "pkg_${NAME}_" + kind, Depends: []string{"dep_" + kind}}
	}
	sys := genx.Inc{Src: kind + "_sys/a b-c.hpp", System: true}
	loc := genx.Inc{Src: kind + "_local/d.h"}
	v.Includes = [][]genx.Inc{nil, {sys}, {loc}, {loc, sys, {Src: kind + "3.h"}, {Src: loc.Src, System: true}, {Src: sys.Src}, loc}}[o.inc]
	t := func(n int) string { return fmt.Sprintf("%s_ns::Type%d<int, '%d'>", kind, n, n) }
	v.Channels = [][][2]string{nil, {{"x", t(1)}}, {{"nosuch", t(2)}}, {{"y", t(3)}, {"nosuch", t(4)}}, {{"z", t(5)}, {"x", t(6)}}, {{"p", t(7)}, {"w", t(8)}, {"v", t(9)}}}[o.over]
	return v
}

func userSource(kind string) string {
	return "// The user's conversions for " + kind + "\r\n\tint unused_" + kind + ";" + strings.Repeat(" // long", 5000) + "\n\n// no final newline"
}

// converted is whether the configuration overrides the type of a channel of the suite.
func converted(v genx.Var, u suite) bool {
	for _, c := range v.Channels {
		if u.chans[c[0]] {
			return true
		}
	}
	return false
}

var includeLine = regexp.MustCompile(`(?m)^\s*#\s*include\s*(<[^>\n]*>|"[^"\n]*")`)

func includes(text string) map[string]bool {
	out := map[string]bool{}
	for _, m := range includeLine.FindAllStringSubmatch(text, -1) {
		out[m[1]] = true
	}
	return out
}

// judgeVariant says what is wrong with a variant's files (t: relative to the variant's directory), or "".
func judgeVariant(v genx.Var, other string, u suite, t map[string]string) string {
	need := map[string]bool{"src/convert/convert.h": true, "src/rtcg/rtcg.h": true, "src/rtcg/rtcg.cpp": true}
	may := map[string]bool{"src/convert/convert.cpp": true}
	if converted(v, u) {
		need["src/convert/convert.cpp"] = true
	}
	if v.Makefile {
		need["Makefile"] = true
	}
	for _, n := range u.tests {
		need["src/"+n+"/src/main.cpp"] = true
		if v.Catkin {
			need["src/"+n+"/package.xml"] = true
			need["src/"+n+"/CMakeLists.txt"] = true
		}
	}
	for p := range need {
		if _, ok := t[p]; !ok {
			return "there is no " + p
		}
	}
	dirs := map[string]bool{}
	for p := range need {
		for d := path.Dir(p); d != "."; d = path.Dir(d) {
			dirs[d+"/"] = true
		}
	}
	for _, n := range u.tests {
		dirs["src/"+n+"/include/"] = true
	}
	for p, text := range t {
		switch {
		case strings.HasSuffix(p, "/"):
			if !dirs[p] {
				return "there is a directory " + p
			}
		case !need[p] && !may[p]:
			return "there is a file " + p
		case strings.Contains(text, other+"_ns::") || strings.Contains(text, other+"_sys") || strings.Contains(text, other+"_local") ||
			strings.Contains(text, "unused_"+other) || strings.Contains(text, "dep_"+other):
			return p + " has something of the other variant"
		}
	}
	for d := range dirs {
		if _, ok := t[d]; !ok {
			return "there is no directory " + d
		}
	}
	if converted(v, u) && t["src/convert/convert.cpp"] != userSource(v.Kind) {
		return "convert.cpp is not the user's: " + genx.FirstDiff(t["src/convert/convert.cpp"], userSource(v.Kind))
	}
	header := t["src/convert/convert.h"]
	texts := map[string]string{"src/convert/convert.h": header}
	for _, n := range u.tests {
		texts["src/"+n+"/src/main.cpp"] = t["src/"+n+"/src/main.cpp"]
	}
	for p, text := range texts {
		have := includes(text)
		for _, i := range v.Includes {
			want := `"` + i.Src + `"`
			if i.System {
				want = "<" + i.Src + ">"
			}
			// The compiler looks for exactly what is between the brackets.
			if !have[want] {
				return fmt.Sprintf("%s does not include %s (it includes %v)", p, want, keys(have))
			}
		}
		for i := range have {
			if strings.Contains(i, v.Kind+"_sys") || strings.Contains(i, v.Kind+"_local") || i == `"`+v.Kind+`3.h"` {
				known := false
				for _, k := range v.Includes {
					known = known || strings.Contains(i, k.Src)
				}
				if !known {
					return p + " includes " + i
				}
			}
		}
	}
	for _, c := range v.Channels {
		if has := strings.Contains(header, c[1]); has != u.chans[c[0]] {
			return fmt.Sprintf("the header names type %s: %v, should be %v", c[1], has, u.chans[c[0]])
		}
	}
	return named(v, u, t)
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// named checks that whatever the build files name is there.
func named(v genx.Var, u suite, t map[string]string) string {
	exists := func(base, p string) bool {
		p = path.Join(base, p)
		_, f := t[p]
		_, d := t[p+"/"]
		return f || d
	}
	if v.Catkin {
		for _, n := range u.tests {
			cmds, ok := genx.CMake(t["src/"+n+"/CMakeLists.txt"])
			if !ok {
				return "CMakeLists.txt of " + n + " does not parse"
			}
			main := false
			for _, c := range cmds {
				switch c.Name {
				case "add_library", "add_executable":
					for _, a := range c.Args[1:] {
						if !exists("src/"+n, a) {
							return fmt.Sprintf("CMakeLists.txt of %s names %s, which is not there", n, a)
						}
						main = main || c.Name == "add_executable" && path.Join("src", n, a) == "src/"+n+"/src/main.cpp"
					}
				case "include_directories":
					for _, a := range c.Args {
						if !strings.Contains(a, "$") && !exists("src/"+n, a) {
							return fmt.Sprintf("CMakeLists.txt of %s names the directory %s, which is not there", n, a)
						}
					}
				}
			}
			if !main {
				return "CMakeLists.txt of " + n + " does not build its main.cpp"
			}
		}
	}
	if v.Makefile {
		for _, w := range strings.Fields(t["Makefile"]) {
			w = strings.TrimPrefix(w, "-I")
			if strings.HasPrefix(w, "src/") && !exists("", w) {
				return "the Makefile names " + w + ", which is not there"
			}
		}
		for _, n := range u.tests {
			if !strings.Contains(t["Makefile"], n) {
				return "the Makefile does not mention " + n
			}
		}
	}
	return ""
}

func sub(t map[string]string, dir string) map[string]string {
	out := map[string]string{}
	for p, x := range t {
		if strings.HasPrefix(p, dir+"/") && p != dir+"/" {
			out[strings.TrimPrefix(p, dir+"/")] = x
		}
	}
	return out
}

var serial atomic.Int64

// generate runs the tool; it returns the tree of the output directory, or nil.
func generate(r *mc.R, c genx.Cfg, u suite, sig string, sources bool) map[string]string {
	dir := filepath.Join(r.Work, fmt.Sprint("g", serial.Add(1)))
	defer os.RemoveAll(dir)
	conv := map[string]string{}
	for _, v := range c.Vars {
		conv[v.Kind] = userSource(v.Kind)
	}
	base := dir
	if c.Directory != "" {
		base = filepath.Join(dir, c.Directory)
	}
	c.Project(dir, nil)
	for k, text := range conv {
		if !sources {
			break
		}
		genx.Write(filepath.Join(base, k, "src/convert/convert.cpp"), text)
	}
	res := genx.Gen(r, dir, "gen.xml", u.s)
	r.Evaluations.Add(1)
	if res.Code != 0 || res.Crashed() || res.TimedOut {
		r.Violate(sig, fmt.Sprintf("exit status %d: %s", res.Code, res.Err), nil)
		return nil
	}
	return genx.Tree(filepath.Join(dir, "out"))
}

var otherKind = map[string]string{"animate": "ros", "ros": "animate"}

func check(r *mc.R, c genx.Cfg, u suite) map[string]string { return checkWith(r, c, u, true) }

// checkWith is check with or without conversion sources of the user's.
func checkWith(r *mc.R, c genx.Cfg, u suite, sources bool) map[string]string {
	sig := fmt.Sprintf("suite %q configuration %s", u.name, c.XML())
	if !sources {
		sig += " without conversion sources"
	}
	t := generate(r, c, u, sig, sources)
	if t == nil {
		return nil
	}
	for _, v := range c.Vars {
		if bad := judgeVariant(v, otherKind[v.Kind], u, sub(t, v.Kind)); bad != "" {
			r.Violate(sig, v.Kind+": "+bad, nil)
			return nil
		}
	}
	for p := range t {
		top, _, _ := strings.Cut(p, "/")
		ok := p == "./"
		for _, v := range c.Vars {
			ok = ok || top == v.Kind
		}
		if !ok && p != "!error" {
			r.Violate(sig, "there is "+p, nil)
			return nil
		}
	}
	r.States.Add(1)
	return t
}

func main() { mc.Main("P14", run) }

func run(r *mc.R) {
	all := allOpts()
	us := suites()
	kinds := []string{"animate", "ros"}
	// 1. Every single-variant configuration with every suite.
	type one struct {
		kind string
		o    opts
		u    int
	}
	single := make(map[one]map[string]string)
	var ones []one
	for _, k := range kinds {
		for _, o := range all {
			for u := range us {
				ones = append(ones, one{k, o, u})
			}
		}
	}
	trees := make([]map[string]string, len(ones))
	mc.Par(len(ones), func(i int) {
		if !r.Full() && !r.Expired() {
			c := genx.Cfg{Vars: []genx.Var{variant(ones[i].kind, ones[i].o)}}
			trees[i] = check(r, c, us[ones[i].u])
			// The user need not have conversions when no channel of the suite is overridden.
			if ones[i].o.inc%3 == 0 && !converted(c.Vars[0], us[ones[i].u]) {
				checkWith(r, c, us[ones[i].u], false)
			}
		}
	})
	for i := range ones {
		if trees[i] != nil {
			single[ones[i]] = sub(trees[i], ones[i].kind)
		}
	}
	singles := r.States.Load()
	check(r, genx.Cfg{}, us[2])
	check(r, genx.Cfg{Directory: "in/put", Vars: []genx.Var{variant("animate", opts{1, 1, 1, 1}), variant("ros", opts{0, 1, 3, 4})}}, us[3])
	// 2. Pairs of variants: the files of each are those it has alone.
	pairSuites := mc.Pick(r, []int{3}, []int{3, 4, 5})
	step := mc.Pick(r, 5, 1)
	var pairs [][3]int
	for a := range all {
		for b := range all {
			if step > 1 && (a*7+b*3)%step != 0 && all[a].over+all[b].over > 0 && !(all[a].over > 0 && all[b].over > 0 && all[a].make == 1 && all[b].catkin > 0) {
				continue
			}
			for _, u := range pairSuites {
				pairs = append(pairs, [3]int{a, b, u})
			}
		}
	}
	if !r.Thorough() { // in the quick tier, a covering part of the pairs: every option of one with every option of the other
		var few [][3]int
		seen := map[string]bool{}
		for _, p := range pairs {
			a, b := all[p[0]], all[p[1]]
			fresh := false
			for _, k := range []string{fmt.Sprint("oo", a.over, b.over, a.catkin, b.catkin), fmt.Sprint("mc", a.make, a.catkin, b.make, b.catkin), fmt.Sprint("ii", a.inc, b.inc, a.over, b.over),
				fmt.Sprint("mo", a.make, b.over, a.inc), fmt.Sprint("om", a.over, b.make, b.inc)} {
				if !seen[k] {
					seen[k] = true
					fresh = true
				}
			}
			if fresh {
				few = append(few, p)
			}
		}
		pairs = few
	}
	mc.Par(len(pairs), func(i int) {
		if r.Full() || r.Expired() {
			return
		}
		a, b, u := all[pairs[i][0]], all[pairs[i][1]], pairs[i][2]
		c := genx.Cfg{Vars: []genx.Var{variant("animate", a), variant("ros", b)}}
		if i%2 == 1 {
			c.Vars[0], c.Vars[1] = c.Vars[1], c.Vars[0]
		}
		t := check(r, c, us[u])
		if t == nil {
			return
		}
		for k, o := range map[string]opts{"animate": a, "ros": b} {
			if alone := single[one{k, o, u}]; alone != nil {
				if d := genx.Diff(alone, sub(t, k)); d != "" {
					r.Violate("suite "+us[u].name+" configuration "+c.XML(), k+" differs from what it is alone: "+d, nil)
				}
			}
		}
	})
	// 3. A test's own files do not depend on the build options.
	for i, a := range ones {
		if a.o.make == 0 && a.o.catkin == 0 && single[a] != nil {
			for m := 0; m < 2; m++ {
				for c := 0; c < 3; c++ {
					o := a
					o.o.make, o.o.catkin = m, c
					for p, text := range single[a] {
						if other, ok := single[o][p]; single[o] != nil && (!ok || genx.Normal(other) != genx.Normal(text)) {
							r.Violate(fmt.Sprintf("suite %q variant %+v", us[a.u].name, o), p+" differs from what it is without build files", nil)
						}
					}
				}
			}
		}
		_ = i
	}
	built := build(r, us)
	// 4. Large suites.
	for _, n := range append([]int{10, 60, 300}, words.Sizes(r, mc.Pick(r, 150, 400))...) {
		tests := map[string]*spec.Node{}
		for i := 0; i < n; i++ {
			nm := fmt.Sprint("test", i)
			tests[nm] = linear(nm, fmt.Sprintf("x.in.%d", i), "y.out.3", fmt.Sprintf("z%d.out.Go", i%40))
		}
		check(r, genx.Cfg{Vars: []genx.Var{variant("animate", opts{1, 2, 3, 3}), variant("ros", opts{1, 2, 3, 4})}}, mk(fmt.Sprint(n, " tests"), tests))
	}
	// 5. The words of the sources, as tests, channels, constants, types, files to include and packages; one at a time, and all together.
	dict, _ := words.Source(r)
	var ids []string
	for _, d := range dict {
		if identifier.MatchString(d) && len(d) > 1 {
			ids = append(ids, d)
		}
	}
	mc.Par(len(ids), func(i int) {
		if r.Full() || r.Expired() {
			return
		}
		d := ids[i]
		c := genx.Cfg{}
		for k, v := range []genx.Var{variant("animate", opts{1, 2, 3, 3}), variant("ros", opts{1, 2, 3, 3})} {
			taken := false
			for _, c := range v.Channels {
				taken = taken || c[0] == d
			}
			if i%3 != 2 && !taken {
				v.Channels = append(v.Channels, [2]string{d, d}, [2]string{"u", d + "::" + d})
			}
			v.Includes = append(v.Includes, genx.Inc{Src: d}, genx.Inc{Src: d + "/" + d + ".h", System: true})
			v.Pkg = &genx.Pkg{Name: d, Depends: []string{d, "x" + d}}
			v.Makefile = (i+k)%2 == 0
			c.Vars = append(c.Vars, v)
		}
		check(r, c, mk("word "+d, map[string]*spec.Node{d: linear(d, "x.in.1", d+".out."+d), "t" + d: linear("t"+d, d+".out."+d, "u.out.3"), "u": linear("u", "y.out.3")}))
	})
	// 6. Tests and channels with names that are alike, one or both channels configured.
	long := strings.Repeat("n", 100)
	alike := []string{"speed", "Speed", "SPEED", "speed_", "speed__", "_speed", "spee", "speed1", "speeds", "sp_eed", "speed_in", "deeps", "max_speed", "maxSpeed", long, long + "1", long + "2", "N" + long[1:], long + long}
	mc.Par(len(alike)*len(alike)*2, func(i int) {
		a, b, two := alike[i/2/len(alike)], alike[i/2%len(alike)], i%2
		if a == b || r.Full() || r.Expired() {
			return
		}
		c := genx.Cfg{}
		for _, k := range kinds {
			v := variant(k, opts{1, 1, 0, 0})
			v.Channels = append(v.Channels, [2]string{a, k + "_ns::First"}, [2]string{b, k + "_ns::Second"})[:1+two]
			c.Vars = append(c.Vars, v)
		}
		t := check(r, c, mk(a+" and "+b, map[string]*spec.Node{a: linear(a, a+".in.1", b+".out.Go"), b: linear(b, b+".out.Go", a+".in.2")}))
		for _, v := range c.Vars {
			for _, ch := range v.Channels {
				if n := len(regexp.MustCompile(`(?m)^\s*#define\s.*`+ch[1]+`\s*$`).FindAllString(t[v.Kind+"/src/convert/convert.h"], -1)); t != nil && n != 1 {
					r.Violate(fmt.Sprintf("channels %q and %q, type for %q", a, b, v.Channels), fmt.Sprintf("%s: %d channels have the type %s", v.Kind, n, ch[1]), c.XML())
				}
			}
		}
	})
	r.OutcomeN("pairs of names that are alike", int64(len(alike)*(len(alike)-1)*2))
	// 7. Types that go by the name of one that is inferred, or are spelled in other ways: nothing but their spelling may differ.
	types := []string{"int", "unsigned int", "unsigned", "nat", "real", "float", "double", "enum", "string", "std::string", "empty", "arithmos", "unknown", "void", "void*", "void *", "()", "nothing", "bool",
		"char", "char*", "const char *", "long", "INT", "Int", "none", "null", "auto", "rstype", "std_msgs::Int32", "std_msgs::Empty", "std_msgs::String", "std::map<int, std::string>", "A<B, C>&", "struct s", "x", "X", "y", "0", "%d", "$X", "`t`",
		"a.b", "decltype(1 + 1)", "::T", "T...", "override", "User override supplied"}
	mark := "mark_ns::Mark"
	typed := []suite{us[2], us[3], us[5], us[7]}
	mc.Par(len(typed)*2, func(i int) {
		u, kind := typed[i/2], kinds[i%2]
		for _, ch := range keys(u.chans) {
			with := func(ty string) map[string]string {
				v := variant(kind, opts{1, 2, 0, 0})
				v.Channels = [][2]string{{ch, ty}}
				return check(r, genx.Cfg{Vars: []genx.Var{v}}, u)
			}
			plain := with(mark)
			for _, ty := range types {
				if plain == nil || r.Full() || r.Expired() {
					return
				}
				t := with(ty)
				if t == nil {
					return
				}
				want := map[string]string{}
				for p, text := range plain {
					want[p] = strings.ReplaceAll(text, mark, ty)
				}
				if d := genx.Diff(want, t); d != "" {
					r.Violate(fmt.Sprintf("suite %q, %s: channel %s of type %q", u.name, kind, ch, ty), "this differs from what another type gives: "+d, nil)
					return
				}
			}
		}
	})
	r.OutcomeN("types", int64(len(types)))
	everything := map[string]*spec.Node{}
	for _, d := range ids {
		everything[d] = linear(d, "x.in.1", "y.out."+d)
	}
	check(r, genx.Cfg{Vars: []genx.Var{variant("animate", opts{1, 2, 3, 3}), variant("ros", opts{1, 2, 3, 4})}}, mk("all words", everything))
	r.Transitions.Store(r.Evaluations.Load())
	r.Validated.Store(r.Evaluations.Load())
	r.Nontrivial.Store(r.Evaluations.Load())
	r.OutcomeN("single-variant projects", singles)
	r.OutcomeN("two-variant projects", int64(len(pairs)))
	r.OutcomeN("projects built with make", int64(built[0]))
	r.OutcomeN("programs run", int64(built[1]))
	r.Sample("configuration %s", genx.Cfg{Vars: []genx.Var{variant("animate", opts{1, 1, 1, 1})}}.XML())
	r.Note("bounds", "all 144 options of each variant with nine suites; a covering part of (all) the pairs of variants; about 20 (60) projects built and run")
}

var identifier = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9_]*$`)

// build makes projects and runs their programs.
func build(r *mc.R, us []suite) [2]int {
	type job struct {
		u    suite
		v    genx.Var
		conv string
	}
	rt := func(t, f, val string) string { return fmt.Sprintf("%s %s { %s }\n", t, f, val) }
	longX := rt("unsigned int", "fromX(const long msg)", "return (unsigned int)msg;") + rt("long", "toX(const unsigned int value)", "return value;")
	vecY := "#include <vector>\n#include <map>\n" + rt("unsigned int", "fromY(const std::vector<int> msg)", "return (unsigned int)msg.size();") +
		rt("std::vector<int>", "toY(const unsigned int value)", "return std::vector<int>(value);")
	var jobs []job
	incs := [][]genx.Inc{nil, {{Src: "vector", System: true}, {Src: "map"}, {Src: "cmath"}}}
	for ui, u := range us {
		for i, inc := range incs {
			for c := 0; c < 2; c++ {
				if !r.Thorough() && (ui+i+c)%2 == 1 && u.name != "three" {
					continue
				}
				jobs = append(jobs, job{u, genx.Var{Kind: "animate", Makefile: true, Includes: inc, Catkin: c == 1}, ""})
			}
		}
	}
	jobs = append(jobs,
		job{us[3], genx.Var{Kind: "animate", Makefile: true, Channels: [][2]string{{"x", "long"}}}, longX},
		job{us[3], genx.Var{Kind: "animate", Makefile: true, Catkin: true, Includes: incs[1], Channels: [][2]string{{"x", "long"}, {"nosuch", "no such type"}}}, longX},
		job{us[1], genx.Var{Kind: "animate", Makefile: true, Includes: incs[1], Channels: [][2]string{{"y", "std::vector<int>"}}}, vecY},
		job{us[4], genx.Var{Kind: "animate", Makefile: true, Includes: incs[1], Channels: [][2]string{{"x", "long"}, {"y", "std::vector<int>"}}}, longX + vecY},
	)
	same := func(t, x string) string {
		return rt(t, "from"+x+"(const "+t+" msg)", "return msg;") + rt(t, "to"+x+"(const "+t+" value)", "return value;")
	}
	jobs = append(jobs,
		job{us[2], genx.Var{Kind: "animate", Makefile: true, Channels: [][2]string{{"y", "int"}}}, same("int", "Y")},
		job{us[2], genx.Var{Kind: "animate", Makefile: true, Channels: [][2]string{{"x", "unsigned int"}, {"y", "int"}}}, same("unsigned int", "X") + same("int", "Y")},
	)
	jobs = append(jobs, job{us[0], genx.Var{Kind: "animate", Makefile: true, Channels: [][2]string{{"x", "long"}}}, longX})
	var programs atomic.Int64
	mc.Par(len(jobs), func(i int) {
		j := jobs[i]
		if r.Full() || r.Expired() {
			return
		}
		dir := filepath.Join(r.Work, fmt.Sprint("m", i))
		defer os.RemoveAll(dir)
		c := genx.Cfg{Vars: []genx.Var{j.v}}
		sig := fmt.Sprintf("build suite %q configuration %s", j.u.name, c.XML())
		path := c.Project(dir, map[string]string{"animate": j.conv})
		res := genx.Gen(r, dir, filepath.Base(path), j.u.s)
		if res.Code != 0 {
			r.Violate(sig, fmt.Sprintf("exit status %d: %s", res.Code, res.Err), nil)
			return
		}
		proj := filepath.Join(dir, "out/animate")
		for round := 0; round < 2; round++ {
			if out, err := command(proj, 300, "", "make"); err != nil {
				r.Violate(sig, fmt.Sprintf("make fails (%v): %s", err, out), nil)
				return
			}
		}
		r.Evaluations.Add(1)
		var bins []string
		for p := range genx.Tree(filepath.Join(proj, "bin")) {
			if p != "./" {
				bins = append(bins, p)
			}
		}
		sort.Strings(bins)
		if fmt.Sprint(bins) != fmt.Sprint(j.u.tests) {
			r.Violate(sig, fmt.Sprintf("make builds %q, should build %q", bins, j.u.tests), nil)
			return
		}
		for _, b := range bins {
			out, err := command(proj, 20, "timeout\n", "bin/"+b)
			programs.Add(1)
			if err != nil || !strings.Contains(out, b) {
				r.Violate(sig, fmt.Sprintf("program %s fails (%v): %s", b, err, out), nil)
				return
			}
		}
	})
	return [2]int{len(jobs), int(programs.Load())}
}

func command(dir string, seconds int, stdin, name string, args ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(seconds)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	if strings.Contains(name, "/") {
		cmd.Path = filepath.Join(dir, name)
	}
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "CXXFLAGS=", "MAKEFLAGS=", "CCACHE_DISABLE=1")
	cmd.Stdin = strings.NewReader(stdin)
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	s := b.String()
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s, err
}
