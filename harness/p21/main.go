// P21: from a trace file to programs that fail exactly on their forbidden traces, through the whole pipeline.
package main

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/UoY-RoboStar/rtcg/internal/zzverif/bb"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/cpprun"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/genx"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/mc"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/progs"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/spec"
)

// tsim is a run of a test, straight from its forbidden trace.
type tsim struct {
	evs     []spec.Ev // the prefix and the forbidden event
	at      int       // how many have happened
	status  int
	outcome string
	sent    []spec.Ev
}

func newSim(t spec.Trace) *tsim {
	s := &tsim{evs: append(append([]spec.Ev{}, t.Prefix...), t.Forbid), outcome: spec.Unset}
	if s.evs[0].Kind == spec.In {
		s.status = progs.WaitStart
	} else {
		s.enter()
	}
	return s
}

func (s *tsim) enter() {
	switch n := len(s.evs); {
	case s.at == n:
		s.outcome, s.status = spec.Fail, progs.Failed
		return
	case s.at == n-1:
		s.outcome = spec.Pass
	default:
		s.outcome = spec.Inc
	}
	if s.evs[s.at].Kind == spec.In {
		s.sent = append(s.sent, s.evs[s.at])
		s.status = progs.WaitIn
	} else {
		s.status = progs.WaitOut
	}
}

func (s *tsim) running() bool { return s.status <= progs.WaitOut }

func (s *tsim) output(e spec.Ev) {
	if s.status == progs.WaitOut && s.evs[s.at] == e {
		s.at++
		s.enter()
	} else {
		s.status = progs.OffScript
	}
}

func (s *tsim) accept() {
	if s.status == progs.WaitIn {
		s.at++
		s.enter()
	} else {
		s.status = progs.Bug
	}
}

// cmd is something that happens to a test: the end of the initial delay, a time-out, an acknowledgement, an output.
type cmd struct {
	act         byte // d, t, a, o
	ev          spec.Ev
	typed, wire string
}

func (c cmd) apply(s *tsim, ros bool) {
	if !s.running() {
		return
	}
	switch c.act {
	case 'd':
		if s.status == progs.WaitStart {
			s.enter()
		}
	case 't':
		s.status = progs.Timeout
	case 'a':
		if ros || s.status == progs.WaitIn {
			s.accept()
		}
	case 'o':
		s.output(c.ev)
	}
}

func topic(name string) string {
	var b strings.Builder
	for i := 0; i < len(name); i++ {
		c := name[i]
		if c >= 'A' && c <= 'Z' {
			if i > 0 && name[i-1] >= 'a' && name[i-1] <= 'z' {
				b.WriteByte('_')
			}
			c += 'a' - 'A'
		}
		b.WriteByte(c)
	}
	return b.String()
}

// alphabet is all that can happen to a test: events on the channels of its outputs, with all values used in the file.
func alphabet(p *project, t spec.Trace) []cmd {
	cs := []cmd{{act: 'd', typed: "ready", wire: "d"}, {act: 't', typed: "timeout", wire: "t"}}
	var outs []string
	hasIn := false
	for _, e := range append(append([]spec.Ev{}, t.Prefix...), t.Forbid) {
		if e.Kind == spec.In {
			hasIn = true
			continue
		}
		known := false
		for _, o := range outs {
			known = known || o == e.Chan
		}
		if !known {
			outs = append(outs, e.Chan)
		}
	}
	if hasIn {
		cs = append(cs, cmd{act: 'a', typed: "accept", wire: "m:input_accepted:1"})
	}
	for _, o := range outs {
		vs := p.values[o]
		if p.fewVals {
			vs = vs[len(vs)-1:]
			for _, e := range append(append([]spec.Ev{}, t.Prefix...), t.Forbid) {
				if e.Chan == o {
					vs = append(vs[:len(vs):len(vs)], e.Val)
				}
			}
		}
		for _, v := range vs {
			e := spec.Ev{Chan: o, Kind: p.kinds[o], Val: v}
			c := cmd{act: 'o', ev: e, typed: o, wire: "m:" + topic(o) + ":" + v.Text()}
			if v.Present {
				c.typed += " " + v.Text()
			}
			cs = append(cs, c)
		}
	}
	return cs
}

// project is a trace file with a configuration.
type project struct {
	name   string
	text   string // the trace file
	cfg    string
	files  map[string]string
	wired  bool // whether the values published are compared
	traces map[string]spec.Trace
	names  []string
	values map[string][]spec.Val // by output channel
	kinds  map[string]int
	depth  int

	only    map[string]bool // the programs to compile, if not all
	fewVals bool            // whether the values of other tests are left out, but for one
}

func (p *project) prepare(r *mc.R) {
	ts, ok := spec.ParseTraces(p.text)
	if !ok {
		r.Broken("the trace file %s is not one", p.name)
		return
	}
	given := make([]string, len(ts))
	for i, t := range ts {
		given[i] = t.Name
	}
	p.names = spec.Names(given)
	p.traces = map[string]spec.Trace{}
	p.values = map[string][]spec.Val{}
	p.kinds = map[string]int{}
	for i, n := range p.names {
		p.traces[n] = ts[i]
		for _, e := range append(append([]spec.Ev{}, ts[i].Prefix...), ts[i].Forbid) {
			if e.Kind == spec.In {
				continue
			}
			p.kinds[e.Chan] = e.Kind
			known := false
			for _, v := range p.values[e.Chan] {
				known = known || v == e.Val
			}
			if !known {
				p.values[e.Chan] = append(p.values[e.Chan], e.Val)
			}
		}
	}
	// And one value per channel that no test has.
	for c, vs := range p.values {
		switch {
		case !vs[0].Present:
		case vs[0].IsInt:
			p.values[c] = append(vs, spec.IntV(77777))
		default:
			p.values[c] = append(vs, spec.EnumV(vs[0].Str+"x"))
		}
	}
}

// render writes traces in the various styles that the format allows.
func render(traces [][]spec.Ev, names func(i int) string, eol string) string {
	var b strings.Builder
	for i, t := range traces {
		name := names(i)
		var cells []string
		for _, e := range t {
			cells = append(cells, e.Text())
		}
		switch i % 7 {
		case 1:
			b.WriteString("# a comment, with \"quotes\" and goTo.in.3" + eol + eol)
		case 2:
			for j := range cells {
				cells[j] = "  " + strings.Join(strings.Split(cells[j], "."), " . ") + "\t"
			}
		case 3:
			for j := range cells {
				cells[j] = strings.Replace(strings.Replace(strings.Replace(cells[j], ".in", ".IN", 1), ".out", ".Out", 1), ".call", ".cALL", 1)
			}
		}
		if name != "" {
			cells[0] = name + ": " + cells[0]
		}
		sep := ", "
		for j, c := range cells {
			if i%7 == 5 || strings.Contains(c, `"`) {
				cells[j] = `"` + strings.ReplaceAll(strings.TrimSpace(c), `"`, `""`) + `"`
				sep = ","
			}
		}
		line := strings.Join(cells, sep)
		b.WriteString(line + eol)
	}
	return b.String()
}

func all(events []spec.Ev, length int) (traces [][]spec.Ev) {
	for n := 1; n <= length; n++ {
		mc.Sequences(len(events), n, func(seq []int) bool {
			t := make([]spec.Ev, n)
			for i, e := range seq {
				t[i] = events[e]
			}
			traces = append(traces, t)
			return true
		})
	}
	return traces
}

// rosConvert is the conversions of channels of numbers for ROS: as they are, in 64 bits.
func rosConvert(chans [][2]string) string {
	var b strings.Builder
	b.WriteString("#include \"std_msgs/Int64.h\"\n")
	for _, c := range chans {
		up := strings.ToUpper(c[0][:1]) + c[0][1:]
		fmt.Fprintf(&b, "%s from%s(const std_msgs::Int64::ConstPtr& msg) { return (%s)msg->data; }\n", c[1], up, c[1])
		fmt.Fprintf(&b, "std_msgs::Int64 to%s(const %s value) { std_msgs::Int64 m; m.data = value; return m; }\n", up, c[1])
	}
	return b.String()
}

func config(nums [][2]string) (string, map[string]string) {
	ros := genx.Var{Kind: "ros", Catkin: true, Includes: []genx.Inc{{Src: "std_msgs/Int64.h"}}}
	for _, c := range nums {
		ros.Channels = append(ros.Channels, [2]string{c[0], "std_msgs::Int64"})
	}
	return genx.Cfg{Vars: []genx.Var{{Kind: "animate", Makefile: true}, ros}}.XML(), map[string]string{"ros": rosConvert(nums)}
}

func projects(r *mc.R) (ps []*project) {
	ev := func(ch string, k int, v spec.Val) spec.Ev { return spec.Ev{Chan: ch, Kind: k, Val: v} }
	mk := func(name, text string, depth int, nums ...[2]string) *project {
		c, f := config(nums)
		p := &project{name: name, text: text, cfg: c, files: f, wired: true, depth: depth}
		ps = append(ps, p)
		return p
	}
	// Every trace over events of all sorts.
	base := []spec.Ev{
		ev("goTo", spec.In, spec.IntV(3)), ev("go", spec.In, spec.None()), ev("batteryStatus", spec.Out, spec.EnumV("Ok")),
		ev("batteryStatus", spec.Out, spec.EnumV("OkOk")), ev("level", spec.Out, spec.IntV(5)), ev("land", spec.Call, spec.None()),
	}
	given := []string{"", "", "a", "", "take_off", "a", "a0", "", "Test_9", "test", "", "b", "test3"}
	mk("traces", render(all(base, 3), func(i int) string { return given[i%len(given)] }, "\n"), mc.Pick(r, 3, 4),
		[2]string{"goTo", "unsigned int"}, [2]string{"level", "unsigned int"})
	if r.Thorough() {
		mk("longer", render(all([]spec.Ev{base[0], base[2], base[3], base[5]}, 5), func(i int) string { return "" }, "\n"), 3, [2]string{"goTo", "unsigned int"})
	}
	// Types that only the whole file decides; line ends of the other sort, and no last one.
	types := [][]spec.Ev{
		{ev("y", spec.Out, spec.IntV(5))},
		{ev("y", spec.Out, spec.IntV(-3)), ev("y", spec.Out, spec.IntV(0))},
		{ev("x", spec.In, spec.IntV(7)), ev("y", spec.Out, spec.IntV(5))},
		{ev("x", spec.In, spec.IntV(-7)), ev("x", spec.In, spec.IntV(7)), ev("y", spec.Out, spec.IntV(-3))},
		{ev("big", spec.Out, spec.IntV(4294967295)), ev("big", spec.Out, spec.IntV(2147483648))},
		{ev("bigIn", spec.In, spec.IntV(4294967295)), ev("big", spec.Out, spec.IntV(1))},
		{ev("low", spec.Call, spec.IntV(-2147483648)), ev("low", spec.Call, spec.IntV(2147483647))},
		{ev("e", spec.Out, spec.EnumV("1e5")), ev("e", spec.Out, spec.EnumV("-")), ev("e", spec.Out, spec.EnumV("1.5"))},
		{ev("e", spec.Out, spec.EnumV("<&>")), ev("e", spec.Out, spec.EnumV(`"`))},
		{ev("e", spec.Out, spec.EnumV(`\`)), ev("e", spec.Out, spec.EnumV("é→"))},
		{ev("eIn", spec.In, spec.EnumV(`<"&\>`)), ev("e", spec.Out, spec.EnumV("a:b")), ev("eIn", spec.In, spec.EnumV("{{.}}"))},
		{ev("n", spec.Out, spec.None()), ev("n", spec.Out, spec.None()), ev("n", spec.Out, spec.None()), ev("n", spec.Out, spec.None())},
	}
	text := render(types, func(i int) string { return []string{"n", "N1", "", "y", "xY", "", ""}[i%7] }, "\r\n")
	text += "zeros: y.out.007,y.out.08,x.in.010,y.out.-0,h.out.0x7,h.out.0b1,h.out.1_0\r\n:f.out.a:b\r\ncolon:f.out.c:d:e,f.out.::\r\nf.out.x,f.out.a:b,f.out.:c\r\ny.out.1,f.out.y:out.1:,y.out.-2\r\n"
	mk("types", strings.TrimSuffix(text, "\r\n"), mc.Pick(r, 3, 4), [2]string{"y", "int"}, [2]string{"x", "int"}, [2]string{"big", "unsigned int"},
		[2]string{"bigIn", "unsigned int"}, [2]string{"low", "int"})
	// A large file: traces of one name, nameless ones and comments, over a megabyte; some of its programs are compiled.
	var many strings.Builder
	for i := 0; i < 2300; i++ {
		if i%100 == 7 {
			many.WriteString("#" + strings.Repeat(" comment,", 6000) + "\n")
		}
		fmt.Fprintf(&many, "%slevel.out.%d, batteryStatus.out.C%d\n", []string{"a: ", "", "a: ", "b: "}[i%4], i, i%90)
	}
	p := mk("many", many.String(), 1, [2]string{"level", "unsigned int"})
	p.only = map[string]bool{"a": true, "a0": true, "a999": true, "a1000": true, "a1148": true, "test1": true, "test574": true, "b": true, "b573": true}
	p.fewVals = true
	// One long trace by itself.
	var long []spec.Ev
	for i := 0; i < 70; i++ {
		long = append(long, base[(i*i+i/3)%len(base)])
	}
	mk("long", render([][]spec.Ev{long}, func(int) string { return "long_one" }, "\n"), 2, [2]string{"goTo", "unsigned int"}, [2]string{"level", "unsigned int"})
	// The example that comes with rtcg, as it is.
	ex := filepath.Join(r.Repo, "examples/bmon")
	read := func(f string) string {
		b, err := os.ReadFile(filepath.Join(ex, f))
		if err != nil {
			r.Broken("%v", err)
		}
		return string(b)
	}
	ps = append(ps, &project{name: "bmon", text: read("traces"), cfg: read("gen.xml"), depth: mc.Pick(r, 3, 5),
		files: map[string]string{"animate": read("animate/src/convert/convert.cpp"), "ros": read("ros/src/convert/convert.cpp")}})
	for _, p := range ps {
		p.prepare(r)
	}
	return ps
}

// scripts enumerates what can happen: everything to a depth, and everything of length 2 after each point of the trace.
func scripts(p *project, t spec.Trace, cs []cmd, ros bool, f func(cmds []cmd)) (situations int) {
	play := func(cmds []cmd) *tsim {
		s := newSim(t)
		for _, c := range cmds {
			c.apply(s, ros)
		}
		return s
	}
	key := func(s *tsim) string { return fmt.Sprint(s.at, s.status, s.outcome) }
	seen := map[string]bool{}
	emit := func(cmds []cmd) *tsim {
		var k strings.Builder
		for _, c := range cmds {
			k.WriteString(c.wire + ";")
		}
		s := play(cmds)
		if !seen[k.String()] {
			seen[k.String()] = true
			out := append([]cmd{}, cmds...)
			if s.running() {
				out = append(out, cs[1])
			}
			f(append(out, cs[len(cs)-1], cs[0])) // after the end, nothing counts
		}
		return s
	}
	var rec func(prefix []cmd, n int)
	rec = func(prefix []cmd, n int) {
		if s := emit(prefix); !s.running() || n == 0 {
			return
		}
		for _, c := range cs {
			rec(append(append([]cmd{}, prefix...), c), n-1)
		}
	}
	rec(nil, p.depth)
	states := map[string]bool{key(play(nil)): true}
	queue := [][]cmd{nil}
	for len(queue) > 0 {
		path := queue[0]
		queue = queue[1:]
		if len(path) > 0 {
			rec(path, 1)
		}
		for _, c := range cs {
			q := append(append([]cmd{}, path...), c)
			if s := play(q); !states[key(s)] {
				states[key(s)] = true
				if s.running() {
					queue = append(queue, q)
				} else {
					emit(q)
				}
			}
		}
	}
	return len(states)
}

var (
	outcome   = regexp.MustCompile(`(?m)^\[info\]\s+(\S+) = (\S+)$`)
	announced = regexp.MustCompile(`(?m)sends (.*) to SUT on ([^;\s]+);`)
)

func judge(p *project, name string, cmds []cmd, ros bool, rep cpprun.Reply) string {
	if rep.Died != "" {
		return "it died or never ended: " + rep.Died
	}
	s := newSim(p.traces[name])
	for _, c := range cmds {
		c.apply(s, ros)
	}
	if want := progs.Exit(s.status); rep.Code != want {
		return fmt.Sprintf("exit status %d, should be %d (%s)", rep.Code, want, progs.Explain[s.status])
	}
	at := strings.LastIndex(rep.Err, "Final outcomes")
	if at < 0 {
		return "no final outcomes"
	}
	var got []string
	for _, o := range outcome.FindAllStringSubmatch(rep.Err[at:], -1) {
		got = append(got, o[1]+"="+o[2])
	}
	if g, want := strings.Join(got, " "), name+"="+progs.Words[s.outcome]; g != want {
		return fmt.Sprintf("final outcomes %q, should be %q", g, want)
	}
	var sent, want []string
	if ros {
		for _, l := range strings.Split(rep.Out, "\n") {
			if f := strings.Fields(l); len(f) > 0 && f[0] == "publish" {
				if !p.wired {
					f = f[:2]
				}
				sent = append(sent, strings.Join(f[1:], " "))
			}
		}
		for _, e := range s.sent {
			w := topic(e.Chan)
			if p.wired && e.Val.Present {
				w += " " + e.Val.Text()
			}
			want = append(want, w)
		}
	} else {
		for _, a := range announced.FindAllStringSubmatch(rep.Err, -1) {
			sent = append(sent, strings.TrimSpace(a[2]+" "+a[1]))
		}
		for _, e := range s.sent {
			want = append(want, strings.TrimSpace(e.Chan+" "+e.Val.Text()))
		}
	}
	if g, w := strings.Join(sent, ", "), strings.Join(want, ", "); g != w {
		return fmt.Sprintf("sends %q, should send %q", g, w)
	}
	return ""
}

func line(cmds []cmd, ros bool) string {
	var ws []string
	for _, c := range cmds {
		if ros {
			ws = append(ws, c.wire)
		} else {
			ws = append(ws, c.typed)
		}
	}
	return strings.Join(ws, " ")
}

func main() { mc.Main("P21", run) }

func run(r *mc.R) {
	script := filepath.Join(r.Repo, "rtcg.sh")
	for _, p := range projects(r) {
		if r.Full() || r.Expired() || r.Failed() {
			return
		}
		one(r, script, p)
	}
}

// pipeline runs the script in a directory of its own, on a file or on standard input, and returns that directory.
func pipeline(r *mc.R, script string, p *project, stdin bool) (dir string, res bb.Res) {
	dir = filepath.Join(r.Work, p.name)
	args := []string{script, "gen.xml", "traces.txt"}
	in := ""
	if stdin {
		dir += "-stdin"
		args = args[:2]
		in = p.text
	}
	genx.Write(filepath.Join(dir, "gen.xml"), p.cfg)
	for v, f := range p.files {
		genx.Write(filepath.Join(dir, v, "src/convert/convert.cpp"), f)
	}
	if !stdin {
		genx.Write(filepath.Join(dir, "traces.txt"), p.text)
	}
	if err := os.Symlink(r.Bin, filepath.Join(dir, "bin")); err != nil {
		r.Broken("%v", err)
	}
	return dir, bb.Run(r, dir, in, "/bin/sh", args...)
}

func one(r *mc.R, script string, p *project) {
	dir, res := pipeline(r, script, p, false)
	if res.Code != 0 {
		r.Violate(p.name+": pipeline", fmt.Sprintf("exit status %d: %s", res.Code, res.Err), nil)
		return
	}
	dir2, res := pipeline(r, script, p, true)
	if res.Code != 0 {
		r.Violate(p.name+": pipeline on standard input", fmt.Sprintf("exit status %d: %s", res.Code, res.Err), nil)
		return
	}
	t1, t2 := genx.Tree(filepath.Join(dir, "out")), genx.Tree(filepath.Join(dir2, "out"))
	for _, t := range []map[string]string{t1, t2} {
		for f := range t {
			t[f] = genx.Normal(t[f])
		}
	}
	if d := genx.Diff(t1, t2); d != "" {
		r.Violate(p.name+": standard input", "gives something else than the file: "+d, nil)
	}
	// By the steps of the README.
	s1 := bb.Run(r, dir2, "", "rtcg-read-traces", filepath.Join(dir, "traces.txt"))
	s2 := bb.Run(r, dir2, s1.Out, "rtcg-make-stms")
	genx.Write(filepath.Join(dir2, "stms.json"), s2.Out)
	s3 := bb.Run(r, dir2, "", "rtcg-gen", "-output", "steps", "gen.xml", "stms.json")
	if s1.Code != 0 || s2.Code != 0 || s3.Code != 0 {
		r.Violate(p.name+": single steps", s1.Err+s2.Err+s3.Err, nil)
	} else {
		t3 := genx.Tree(filepath.Join(dir2, "steps"))
		for f := range t3 {
			t3[f] = genx.Normal(t3[f])
		}
		if d := genx.Diff(t1, t3); d != "" {
			r.Violate(p.name+": single steps", "give something else than the script: "+d, nil)
		}
	}
	r.Evaluations.Add(3)

	names := append([]string{}, p.names...)
	sort.Slice(names, func(i, j int) bool {
		if len(names[i]) != len(names[j]) {
			return len(names[i]) < len(names[j])
		}
		return names[i] < names[j]
	})
	for _, variant := range []string{"animate", "ros"} {
		ros := variant == "ros"
		src := filepath.Join(dir, "out", variant, "src")
		// Exactly one program for each test.
		ents, _ := os.ReadDir(src)
		have := map[string]bool{}
		for _, e := range ents {
			have[e.Name()] = true
		}
		for _, n := range names {
			if !have[n] {
				r.Violate(p.name+": "+variant+": "+n, "there is no such test", nil)
			}
			delete(have, n)
		}
		delete(have, "rtcg")
		delete(have, "convert")
		for n := range have {
			r.Violate(p.name+": "+variant+": "+n, "there is no trace for this directory", nil)
		}
		if r.Full() {
			return
		}
		chosen := names
		if p.only != nil {
			var some []string
			for _, n := range names {
				if p.only[n] {
					some = append(some, n)
				}
			}
			if chosen = some; len(chosen) != len(p.only) {
				r.Broken("the tests chosen are not there")
				return
			}
		}
		set := &cpprun.Set{Src: src, Objects: []string{filepath.Join(src, "rtcg/rtcg.cpp")}, Tests: chosen, Size: 33}
		if c := filepath.Join(src, "convert/convert.cpp"); exists(c) {
			set.Objects = append(set.Objects, c)
		}
		driver := cpprun.Animate
		if ros {
			driver = cpprun.Ros
			set.Incs = []string{filepath.Join(r.Opts["verif"], "harness/cpprun/ros")}
		}
		for _, b := range set.Build(r, filepath.Join(r.Work, p.name+"-"+variant), driver) {
			r.Violate(p.name+": compile "+variant+" "+b.Test, "does not compile: "+b.Text, nil)
		}
		r.OutcomeN(variant+" programs", int64(len(chosen)))
		if r.Full() {
			return
		}
		var mu sync.Mutex
		exes := map[string]string{}
		mc.Par(len(set.Groups), func(gi int) {
			g := set.Groups[gi]
			if r.Full() || r.Expired() {
				return
			}
			todo := make([][][]cmd, len(g.Tests))
			lines := make([][]string, len(g.Tests))
			for i, n := range g.Tests {
				t := p.traces[n]
				cs := alphabet(p, t)
				r.States.Add(int64(scripts(p, t, cs, ros, func(cmds []cmd) {
					todo[i] = append(todo[i], cmds)
					lines[i] = append(lines[i], line(cmds, ros))
				})))
			}
			pos := make([]int, len(g.Tests))
			err := g.Run(lines, func(t int, l string, rep cpprun.Reply) {
				cmds := todo[t][pos[t]]
				pos[t]++
				r.Transitions.Add(int64(len(cmds)))
				r.Validated.Add(1)
				n := g.Tests[t]
				what := judge(p, n, cmds, ros, rep)
				if what == "" || r.Full() {
					return
				}
				mu.Lock()
				exe := exes[n]
				if exe == "" {
					var out string
					var err error
					if exe, out, err = set.Alone(n); err != nil {
						mu.Unlock()
						r.Violate(p.name+": compile "+variant+" "+n, "does not compile: "+out, nil)
						return
					}
					exes[n] = exe
				}
				mu.Unlock()
				if what = judge(p, n, cmds, ros, alone(exe, l)); what != "" {
					r.Violate(fmt.Sprintf("%s: %s: %s: %q", variant, p.name, p.traces[n].Key(), l), what, map[string]any{"test": n, "script": l})
				}
			})
			if err != nil {
				r.Broken("driver %d: %v", gi, err)
			}
		})
	}
	// With the project's own Makefile: its programs run as a user would run them.
	adir := filepath.Join(dir, "out/animate")
	if len(names) > 40 {
		return
	}
	if b := bb.Run(r, adir, "", "/usr/bin/make", "-s", "-j8", "CXXFLAGS=-std=c++11 -O0"); b.Code != 0 {
		r.Violate(p.name+": make", b.Out+b.Err, nil)
		return
	}
	mc.Par(len(names), func(i int) {
		n := names[i]
		t := p.traces[n]
		cs := alphabet(p, t)
		// Along the trace, to each of its points.
		var path []cmd
		if t.Prefix == nil && t.Forbid.Kind == spec.In || t.Prefix != nil && t.Prefix[0].Kind == spec.In {
			path = append(path, cs[0])
		}
		for k, e := range append(append([]spec.Ev{}, t.Prefix...), t.Forbid) {
			full := append(append([]cmd{}, path...), cs[1])
			if what := judge(p, n, full, false, alone(filepath.Join(adir, "bin", n), line(full, false))); what != "" {
				r.Violate(fmt.Sprintf("%s: made %s to %d", p.name, n, k), what, nil)
			}
			r.Evaluations.Add(1)
			for _, c := range cs {
				if e.Kind == spec.In && c.act == 'a' || c.act == 'o' && c.ev == e {
					path = append(path, c)
					break
				}
			}
		}
		if what := judge(p, n, path, false, alone(filepath.Join(adir, "bin", n), line(path, false))); what != "" {
			r.Violate(fmt.Sprintf("%s: made %s to the end", p.name, n), what, nil)
		}
	})
	for _, n := range names[:1] {
		cs := alphabet(p, p.traces[n])
		scripts(p, p.traces[n], cs, false, func(cmds []cmd) {
			s := newSim(p.traces[n])
			for _, c := range cmds {
				c.apply(s, false)
			}
			r.Sample("%s: %s: %q -> %s, %s", p.name, p.traces[n].Key(), line(cmds, false), progs.Explain[s.status], s.outcome)
			r.Outcome(progs.Explain[s.status])
		})
	}
}

func exists(path string) bool {
	_, err := os.Stat(path)
	return err == nil
}

// alone runs a program by itself, on what is typed or (with the stand-in for ROS) delivered.
func alone(exe, l string) cpprun.Reply {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, exe)
	c.Dir = filepath.Dir(exe)
	c.Env = append(os.Environ(), "MC_SCRIPT="+l)
	c.Stdin = strings.NewReader(strings.ReplaceAll(l, " ", "\n") + "\n")
	var o, e limited
	c.Stdout, c.Stderr = &o, &e
	err := c.Run()
	rep := cpprun.Reply{Out: string(o), Err: string(e)}
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() >= 0 {
		rep.Code = ee.ExitCode()
	} else if err != nil {
		rep.Died = err.Error()
	}
	return rep
}

type limited []byte

func (l *limited) Write(p []byte) (int, error) {
	if len(*l) > 1<<20 {
		return 0, os.ErrInvalid
	}
	*l = append(*l, p...)
	return len(p), nil
}
