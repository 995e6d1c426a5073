// P15: Catkin packages are filled in per test, without leakage.
package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/UoY-RoboStar/rtcg/internal/gen/catkin"
	cfg "github.com/UoY-RoboStar/rtcg/internal/gen/config/catkin"
	"github.com/UoY-RoboStar/rtcg/internal/gen/gencommon"
	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/bb"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/genx"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/maporder"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/mc"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/spec"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/words"
)

// elem is a parsed XML element.
type elem struct {
	name  string
	attrs map[string]string
	text  string
	kids  []*elem
}

func parseXML(text string) (*elem, error) {
	d := xml.NewDecoder(strings.NewReader(text))
	var root *elem
	var stack []*elem
	for {
		tok, err := d.Token()
		if err == io.EOF {
			if root == nil || len(stack) > 0 {
				return nil, fmt.Errorf("no complete document")
			}
			return root, nil
		}
		if err != nil {
			return nil, err
		}
		switch t := tok.(type) {
		case xml.StartElement:
			e := &elem{name: t.Name.Local, attrs: map[string]string{}}
			for _, a := range t.Attr {
				e.attrs[a.Name.Local] = a.Value
			}
			if len(stack) > 0 {
				p := stack[len(stack)-1]
				p.kids = append(p.kids, e)
			} else if root == nil {
				root = e
			} else {
				return nil, fmt.Errorf("two roots")
			}
			stack = append(stack, e)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) > 0 {
				stack[len(stack)-1].text += string(t)
			}
		}
	}
}

// expected manifest of a test.
func expected(p genx.Pkg, test string) genx.Pkg {
	def := func(s *string, d string) {
		if *s == "" {
			*s = d
		}
	}
	def(&p.Name, "${NAME}")
	def(&p.Version, "0.1.0")
	def(&p.Description, "Package for ${NAME}")
	def(&p.Maintainer, "${NAME} Maintainers")
	def(&p.Email, "email@example.com")
	def(&p.License, "Proprietary")
	for _, s := range []*string{&p.Name, &p.Description, &p.Maintainer, &p.Email, &p.License} {
		*s = strings.Join(strings.Split(*s, "${NAME}"), test)
	}
	return p
}

// manifest reads a package.xml back; complaint is "" if it is what a format-2 manifest is.
func manifest(text string) (p genx.Pkg, complaint string) {
	root, err := parseXML(text)
	if err != nil {
		return p, "is not XML: " + err.Error()
	}
	if root.name != "package" || root.attrs["format"] != "2" || len(root.attrs) != 1 || strings.TrimSpace(root.text) != "" {
		return p, fmt.Sprintf("has root %s %v", root.name, root.attrs)
	}
	seen := map[string]int{}
	for _, k := range root.kids {
		seen[k.name]++
		if k.name != "maintainer" && len(k.attrs) > 0 || len(k.kids) > 0 {
			return p, "has an element " + k.name + " with more than text"
		}
		switch k.name {
		case "name":
			p.Name = k.text
		case "version":
			p.Version = k.text
		case "description":
			p.Description = k.text
		case "maintainer":
			p.Maintainer = k.text
			p.Email = k.attrs["email"]
			if len(k.attrs) != 1 {
				return p, fmt.Sprintf("has a maintainer with %v", k.attrs)
			}
		case "license":
			p.License = k.text
		case "buildtool_depend":
			p.BuildtoolDepends = append(p.BuildtoolDepends, k.text)
		case "depend":
			p.Depends = append(p.Depends, k.text)
		default:
			return p, "has an element " + k.name
		}
	}
	for _, n := range []string{"name", "version", "description", "maintainer", "license"} {
		if seen[n] != 1 {
			return p, fmt.Sprintf("has %d elements %s", seen[n], n)
		}
	}
	return p, ""
}

func set(ss []string) []string {
	m := map[string]bool{}
	for _, s := range ss {
		m[s] = true
	}
	out := []string{}
	for s := range m {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

// cmakeIs says what is wrong with a CMake file, or "".
func cmakeIs(text string, want genx.Pkg) string {
	cmds, ok := genx.CMake(text)
	if !ok {
		return "does not split into commands"
	}
	deps := set(append([]string{"roscpp", "std_msgs"}, want.Depends...))
	seen := map[string]int{}
	for _, c := range cmds {
		seen[c.Name]++
		switch c.Name {
		case "project":
			if len(c.Args) < 1 || c.Args[0] != want.Name {
				return fmt.Sprintf("names project %v, should be %q", c.Args, want.Name)
			}
		case "find_package":
			if len(c.Args) < 3 || c.Args[0] != "catkin" || c.Args[1] != "REQUIRED" || c.Args[2] != "COMPONENTS" || !reflect.DeepEqual(set(c.Args[3:]), deps) {
				return fmt.Sprintf("finds packages %v, should be %v", c.Args, deps)
			}
		case "catkin_package":
			if len(c.Args) < 1 || c.Args[0] != "CATKIN_DEPENDS" || !reflect.DeepEqual(set(c.Args[1:]), deps) {
				return fmt.Sprintf("depends on %v, should be %v", c.Args, deps)
			}
		}
	}
	for _, n := range []string{"project", "find_package", "catkin_package", "add_executable"} {
		if seen[n] != 1 {
			return fmt.Sprintf("has %d commands %s", seen[n], n)
		}
	}
	return ""
}

func plainWord(s string) bool {
	for _, c := range strings.ReplaceAll(strings.ReplaceAll(s, "${NAME}", ""), "/", "") {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '-' || c == '.') {
			return false
		}
	}
	return s != ""
}

// judge checks a test's two files.
func judge(r *mc.R, sig, test string, p genx.Pkg, pkgXML, cmakeText string) bool {
	want := expected(p, test)
	got, complaint := manifest(pkgXML)
	if complaint == "" {
		if !reflect.DeepEqual(got, want) {
			complaint = fmt.Sprintf("says %+q, should say %+q", got, want)
		}
	}
	if complaint != "" {
		r.Violate(sig, fmt.Sprintf("package.xml of %q %s", test, complaint), pkgXML)
		return false
	}
	words := plainWord(want.Name)
	for _, d := range want.Depends {
		words = words && plainWord(d)
	}
	if words {
		if c := cmakeIs(cmakeText, want); c != "" {
			r.Violate(sig, fmt.Sprintf("CMakeLists.txt of %q %s", test, c), cmakeText)
			return false
		}
	}
	return true
}

func real(p *genx.Pkg) *cfg.Config {
	if p == nil {
		return &cfg.Config{}
	}
	return &cfg.Config{Package: &cfg.Package{Name: p.Name, Version: p.Version, Description: p.Description,
		Maintainer: cfg.Maintainer{Email: p.Email, Name: p.Maintainer}, License: p.License,
		BuildtoolDepends: append([]string(nil), p.BuildtoolDepends...), Depends: append([]string(nil), p.Depends...)}}
}

func realSuite(tests []string) *stm.Suite {
	s := &stm.Suite{Tests: map[string]*stm.Stm{}}
	for _, t := range tests {
		s.Tests[t] = &stm.Stm{}
	}
	return s
}

// gen runs the real generator in process for a number of suites in turn; it gives each suite's directory.
func gen(dir string, p *genx.Pkg, suites [][]string, run func(func())) ([]string, error) {
	var dirs []string
	var g *catkin.Generator
	var err error
	for i, tests := range suites {
		d := filepath.Join(dir, "out")
		for _, t := range append([]string{"."}, tests...) {
			if err := os.MkdirAll(filepath.Join(d, "src", t), 0o755); err != nil {
				panic(err)
			}
		}
		if g == nil {
			if g, err = catkin.New(real(p), gencommon.DirSet{Input: dir, Output: d}); err != nil {
				return nil, err
			}
		}
		run(func() { err = g.OnSuite(realSuite(tests)).Generate() })
		if err != nil {
			return nil, err
		}
		keep := filepath.Join(dir, fmt.Sprint("kept", i))
		if err := os.Rename(filepath.Join(d, "src"), keep); err != nil {
			return nil, err
		}
		dirs = append(dirs, keep)
	}
	return dirs, nil
}

var serial atomic.Int64

// inProcess generates and judges.
func inProcess(r *mc.R, p *genx.Pkg, suites [][]string, run func(func()), what string) {
	sig := fmt.Sprintf("package %+q tests %q%s", p, suites, what)
	if p == nil {
		sig = fmt.Sprintf("no package, tests %q%s", suites, what)
		p = &genx.Pkg{}
	}
	dir := filepath.Join(r.Work, fmt.Sprint("g", serial.Add(1)))
	defer os.RemoveAll(dir)
	var dirs []string
	var err error
	if c := mc.Catch(func() { dirs, err = gen(dir, p, suites, run) }); c != "" || err != nil {
		r.Violate(sig, fmt.Sprintf("fails: %v %s", err, c), nil)
		return
	}
	for i, d := range dirs {
		for _, t := range suites[i] {
			x, err1 := os.ReadFile(filepath.Join(d, t, "package.xml"))
			c, err2 := os.ReadFile(filepath.Join(d, t, "CMakeLists.txt"))
			if err1 != nil || err2 != nil {
				r.Violate(sig, fmt.Sprintf("files of %q: %v %v", t, err1, err2), nil)
				return
			}
			if !judge(r, sig, t, *p, string(x), string(c)) {
				return
			}
			r.Evaluations.Add(1)
		}
	}
	r.States.Add(1)
}

func plain(f func()) { f() }

func main() { mc.Main("P15", run) }

func run(r *mc.R) {
	field := func(k int, lit string) string {
		switch k {
		case 1:
			return lit
		case 2:
			return "x-${NAME}"
		case 3:
			return "${NAME}.${NAME}" + lit
		case 4:
			return " <" + lit + "> & \"${NAME}\"\t'é'\n]]> "
		case 5:
			return "${NAME"
		}
		return ""
	}
	pkg := func(k [6]int) *genx.Pkg {
		return &genx.Pkg{Name: field(k[0], "n"), Version: field(k[1], "1.2.3"), Description: field(k[2], "d"), Email: field(k[3], "e@x"),
			Maintainer: field(k[4], "m"), License: field(k[5], "l")}
	}
	two := [][]string{{"alpha", "b_2"}}
	// 1. Every combination of what the six fields hold.
	inProcess(r, nil, [][]string{{"t"}, {"u", "t"}}, plain, "")
	kinds := mc.Pick(r, 4, 5)
	count := mc.Pow(kinds, 6)
	mc.Par(64, func(w int) {
		seq := make([]int, 6)
		for x := w; x < count && !r.Full() && !r.Expired(); x += 64 {
			mc.Decode(x, kinds, seq)
			var k [6]int
			copy(k[:], seq)
			p := pkg(k)
			if x%3 == 0 {
				p.Depends, p.BuildtoolDepends = []string{"d1", "d2"}, []string{"catkin"}
			}
			inProcess(r, p, two, plain, "")
		}
	})
	combos := r.States.Load()
	// Pairs of fields over all sorts of content.
	type pairCase struct{ k [6]int }
	var pcs []pairCase
	for a := 0; a < 6; a++ {
		for b := a + 1; b < 6; b++ {
			for x := 1; x <= 5; x++ {
				for y := 1; y <= 5; y++ {
					var k [6]int
					k[a], k[b] = x, y
					pcs = append(pcs, pairCase{k})
				}
			}
		}
	}
	mc.Par(len(pcs), func(i int) {
		inProcess(r, pkg(pcs[i].k), two, plain, "")
	})
	// 2. Every pair of dependency lists of up to three.
	items := []string{"roscpp", "d1", "${NAME}_2", "alpha/d"}
	var lists [][]string
	for n := 0; n <= 3; n++ {
		mc.Sequences(len(items), n, func(seq []int) bool {
			var l []string
			for _, s := range seq {
				l = append(l, items[s])
			}
			lists = append(lists, l)
			return true
		})
	}
	mc.Par(len(lists)*len(lists), func(i int) {
		if r.Full() || r.Expired() {
			return
		}
		inProcess(r, &genx.Pkg{Name: "p-${NAME}", Depends: lists[i/len(lists)], BuildtoolDepends: lists[i%len(lists)]}, two, plain, "")
	})
	// Long ones.
	var long []string
	for i := 0; i < 310; i++ {
		long = append(long, fmt.Sprint("dep", i))
	}
	var tests []string
	for i := 0; i < 310; i++ {
		tests = append(tests, fmt.Sprint("test", i))
	}
	inProcess(r, &genx.Pkg{Name: strings.Repeat("${NAME}_", 50), Description: strings.Repeat("<${NAME}>", 2000), Depends: long, BuildtoolDepends: long}, [][]string{tests[:50]}, plain, "")
	for _, n := range append([]int{1, 2, 7, 8, 9, 16, 17, 33}, words.Sizes(r, 300)...) {
		inProcess(r, &genx.Pkg{Depends: long[:n], BuildtoolDepends: long[:n]}, [][]string{tests[:n]}, plain, "")
	}
	// The words of the sources, as fields, parameters, dependencies and tests.
	dict, _ := words.Source(r)
	mc.Par(len(dict), func(i int) {
		if r.Full() || r.Expired() {
			return
		}
		d := dict[i]
		for _, f := range []string{d, "${" + d + "}", "$" + d + " ${NAME} $(" + d + ") {" + d + "}", d + "${NAME}" + d} {
			inProcess(r, &genx.Pkg{Name: f, Version: d, Description: f, Email: f, Maintainer: f, License: f, Depends: []string{d, f}, BuildtoolDepends: []string{"x", d}}, two, plain, "")
		}
		if !strings.ContainsAny(d, "/\x00") && d != "." && d != ".." {
			inProcess(r, pkg([6]int{2, 1, 3, 0, 4, 2}), [][]string{{d, "t"}, {"a", d + "2"}}, plain, "")
		}
	})
	// 3. Histories: one generator on up to three suites in turn.
	suites := [][]string{{}, {"a"}, {"b"}, {"a", "b"}, {"a", "b", "${NAME}"}, {"a&<b>", "NAME"}}
	var hs [][][]string
	for n := 1; n <= 3; n++ {
		mc.Sequences(len(suites), n, func(seq []int) bool {
			var h [][]string
			for _, s := range seq {
				h = append(h, append([]string{}, suites[s]...))
			}
			hs = append(hs, h)
			return true
		})
	}
	mc.Par(len(hs)*3, func(i int) {
		h := append([][]string{{"first"}}, hs[i/3]...)
		p := []*genx.Pkg{nil, {Name: "p${NAME}", Maintainer: "of ${NAME}", Depends: items}, {License: "${NAME}", Email: "${NAME}@x", Description: "lit"}}[i%3]
		inProcess(r, p, h, plain, "")
	})
	// 4. Every order of iteration over the tests of a suite.
	orders := 0
	for _, p := range []*genx.Pkg{{}, {Name: "p-${NAME}", Depends: items}} {
		for _, suite := range [][]string{{"a", "b"}, {"a", "b", "c"}, {"a", "b", "c", "d"}} {
			maporder.Explore(1, 4, func(plan []maporder.Choice) (log []int, ok bool) {
				inProcess(r, p, [][]string{suite}, func(f func()) { log = maporder.InProcess(0, plan, f) }, fmt.Sprintf(" map order %v", plan))
				orders++
				return log, !r.Full() && !r.Expired()
			})
		}
	}
	if !maporder.Works() {
		r.Broken("the order of maps is not under control")
	}
	// 5. Every XML character in every field.
	var chars atomic.Int64
	valid := func(c rune) bool {
		return c == 9 || c == 10 || c == 13 || c >= 0x20 && c <= 0xD7FF || c >= 0xE000 && c <= 0xFFFD || c >= 0x10000
	}
	limit := mc.Pick(r, 0x30000, 0x110000)
	mc.Par(limit>>10, func(w int) {
		for x := w << 10; x < (w+1)<<10 && !r.Full() && !r.Expired(); x++ {
			c := rune(x)
			if !valid(c) {
				continue
			}
			s := string(c)
			p := genx.Pkg{Name: s, Version: "v" + s, Description: s + "${NAME}" + s + s, Email: s + "@", Maintainer: "m" + s + "m", License: s + "l",
				Depends: []string{s, "d"}, BuildtoolDepends: []string{"b" + s}}
			var b bytes.Buffer
			pk := *real(&p).Package
			var err error
			if pn := mc.Catch(func() { pk.Autofill(); pk.Expand("t"); err = pk.Write(&b) }); pn != "" || err != nil {
				r.Violate(fmt.Sprintf("character %U", c), fmt.Sprintf("fails: %v %s", err, pn), nil)
				continue
			}
			got, complaint := manifest(b.String())
			if want := expected(p, "t"); complaint != "" || !reflect.DeepEqual(got, want) {
				r.Violate(fmt.Sprintf("character %U", c), fmt.Sprintf("manifest %s says %+q, should say %+q", complaint, got, want), nil)
			}
			chars.Add(1)
		}
	})
	r.Evaluations.Add(chars.Load())
	r.States.Add(chars.Load())
	// 6. Through the tool and a configuration file, with one and two variants.
	var toolRuns atomic.Int64
	var pkgs []*genx.Pkg
	pkgs = append(pkgs, nil, &genx.Pkg{})
	for k := 1; k <= 5; k++ {
		for f := 0; f < 6; f++ {
			var ks [6]int
			ks[f] = k
			p := pkg(ks)
			p.Depends = lists[(k*7+f)%len(lists)]
			p.BuildtoolDepends = lists[(k*5+f*3)%len(lists)]
			pkgs = append(pkgs, p)
		}
		pkgs = append(pkgs, pkg([6]int{k, k, k, k, k, k}))
	}
	ev := func(s string) spec.Ev { e, _ := spec.ParseEvent(s); return e }
	machine := func(name string) *spec.Node {
		return spec.Expand(spec.Trace{Prefix: []spec.Ev{ev("i.in.1")}, Forbid: ev("o.out.x")}, name)
	}
	msuite := func(names []string) *spec.MSuite {
		m := map[string]*spec.Node{}
		for _, n := range names {
			m[n] = machine(n)
		}
		return spec.BuildSuite(m)
	}
	names := [][]string{{"a"}, {"a", "b"}, {"a", "b", "c3"}}
	none := &genx.Pkg{}
	mc.Par(len(pkgs)*len(names), func(i int) {
		if r.Full() || r.Expired() {
			return
		}
		p, ns := pkgs[i/len(names)], names[i%len(names)]
		q := pkgs[(i*11+5)%len(pkgs)]
		dir := filepath.Join(r.Work, fmt.Sprint("t", i))
		defer os.RemoveAll(dir)
		c := genx.Cfg{Vars: []genx.Var{{Kind: "ros", Catkin: true, Pkg: p}}}
		if i%2 == 1 {
			c.Vars = append(c.Vars, genx.Var{Kind: "animate", Catkin: true, Makefile: true, Pkg: q})
		}
		path := c.Project(dir, nil)
		sig := fmt.Sprintf("configuration %s tests %q", c.XML(), ns)
		var res bb.Res
		for round := 0; round < 2; round++ {
			res = genx.Gen(r, dir, filepath.Base(path), msuite(ns))
		}
		toolRuns.Add(1)
		if res.Code != 0 || res.Crashed() {
			r.Violate(sig, fmt.Sprintf("exit status %d: %s", res.Code, res.Err), nil)
			return
		}
		t := genx.Tree(filepath.Join(dir, "out"))
		for _, v := range c.Vars {
			pp := v.Pkg
			if pp == nil {
				pp = none
			}
			for _, n := range ns {
				x, ok1 := t[v.Kind+"/src/"+n+"/package.xml"]
				cm, ok2 := t[v.Kind+"/src/"+n+"/CMakeLists.txt"]
				if !ok1 || !ok2 {
					r.Violate(sig, "no package.xml or CMakeLists.txt for "+v.Kind+" "+n, nil)
					return
				}
				judge(r, sig, n, *pp, x, cm)
				r.Evaluations.Add(1)
			}
		}
	})
	// 7. Other ways of writing the same package: its format, the order of its elements, comments, CDATA and references in them.
	esc := func(s string) string {
		var b bytes.Buffer
		_ = xml.EscapeText(&b, []byte(s))
		return b.String()
	}
	ways := []struct {
		name string
		text func(s string) string
	}{
		{"as ever", esc},
		{"CDATA", func(s string) string { return "<![CDATA[" + strings.ReplaceAll(s, "]]>", "]]]]><![CDATA[>") + "]]>" }},
		{"references", func(s string) string {
			var b strings.Builder
			for _, c := range s {
				fmt.Fprintf(&b, "&#x%X;", c)
			}
			return b.String()
		}},
		{"comments", func(s string) string {
			return "<!-- ${NAME} -->" + strings.ReplaceAll(esc(s), "N", "<!-- - -->N") + "<?pi ${NAME}?>"
		}},
	}
	formats := []string{"", ` format="2"`, ` format="1"`, ` format="3"`, ` format="0"`, ` format="-2"`, ` format="2" other="3"`}
	forms := []*genx.Pkg{{}, pkg([6]int{1, 1, 1, 1, 1, 1}), pkg([6]int{2, 2, 3, 0, 4, 4}), pkg([6]int{3, 0, 4, 2, 2, 3})}
	mc.Par(len(ways)*len(formats)*len(forms)*2, func(i int) {
		if r.Full() || r.Expired() {
			return
		}
		back := i%2 == 1
		w, f, p := ways[i/2%len(ways)], formats[i/2/len(ways)%len(formats)], *forms[i/2/len(ways)/len(formats)]
		p.Depends, p.BuildtoolDepends = []string{"d1", "d2"}, []string{"catkin"}
		var els []string
		el := func(n, attr, s string) {
			if s != "" || attr != "" {
				els = append(els, "<"+n+attr+">"+w.text(s)+"</"+n+">")
			}
		}
		el("name", "", p.Name)
		el("version", "", p.Version)
		el("description", "", p.Description)
		mail := ""
		if p.Email != "" {
			mail = ` email="` + esc(p.Email) + `"`
		}
		el("maintainer", mail, p.Maintainer)
		el("license", "", p.License)
		el("url", "", "http://x")
		el("depend", "", "d1")
		el("depend", "", "d2")
		el("buildtool_depend", "", "catkin")
		if back {
			p.Depends = []string{"d2", "d1"}
			for a, b := 0, len(els)-1; a < b; a, b = a+1, b-1 {
				els[a], els[b] = els[b], els[a]
			}
		}
		text := "<rtcg-gen><cpp variant=\"ros\"><catkin><package" + f + ">\n  " + strings.Join(els, "\n  ") + "\n</package></catkin></cpp></rtcg-gen>\n"
		dir := filepath.Join(r.Work, fmt.Sprint("w", i))
		defer os.RemoveAll(dir)
		genx.Write(filepath.Join(dir, "gen.xml"), text)
		sig := fmt.Sprintf("configuration %s (%s)", text, w.name)
		res := genx.Gen(r, dir, "gen.xml", msuite(names[1]))
		toolRuns.Add(1)
		if res.Code != 0 || res.Crashed() {
			r.Violate(sig, fmt.Sprintf("exit status %d: %s", res.Code, res.Err), nil)
			return
		}
		t := genx.Tree(filepath.Join(dir, "out"))
		for _, n := range names[1] {
			judge(r, sig, n, p, t["ros/src/"+n+"/package.xml"], t["ros/src/"+n+"/CMakeLists.txt"])
			r.Evaluations.Add(1)
		}
	})
	r.States.Add(toolRuns.Load())
	r.Transitions.Store(r.Evaluations.Load())
	r.Validated.Store(r.Evaluations.Load())
	r.Nontrivial.Store(r.Evaluations.Load())
	r.OutcomeN("combinations of fields", combos)
	r.OutcomeN("histories", int64(3*len(hs)))
	r.OutcomeN("map orders", int64(orders))
	r.OutcomeN("characters", chars.Load())
	r.OutcomeN("tool runs", toolRuns.Load())
	r.Sample("%+q -> %+q", *pkg([6]int{1, 2, 3, 4, 5, 0}), expected(*pkg([6]int{1, 2, 3, 4, 5, 0}), "t"))
	r.Note("bounds", "six fields each of four (five) sorts in every combination, and of five in pairs; dependency lists up to three of four items; histories of up to four suites; all orders of up to four tests; every XML character to U+2FFFF (U+10FFFF)")
}
