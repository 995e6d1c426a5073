// P12: a generated animate test program executes its test faithfully.
package main

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/UoY-RoboStar/rtcg/internal/zzverif/cpprun"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/genx"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/mc"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/progs"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/spec"
)

// The users' conversions: see progs.Menu.  As in the example, a channel of naturals has unsigned integers.
const convert = `
#include <string>
long toOv(const unsigned int value) { return (long)value + 1000; }
unsigned int fromOv(const long msg) { return (unsigned int)(msg - 1000); }
int toOvE(const std::string value) { return (int)value.size(); }
std::string fromOvE(const int msg) { return std::string(msg, 'x'); }
long toOOv(const unsigned int value) { return (long)value + 1000; }
unsigned int fromOOv(const long msg) { return (unsigned int)(msg - 1000); }
int toOOvE(const std::string value) { return atoi(value.c_str() + 1); }
std::string fromOOvE(const int msg) { return "k" + std::to_string(msg); }
`

// cmd is something typed at a program.
type cmd struct {
	words []string
	out   *spec.Ev // the output it stands for
}

func (c cmd) apply(s *progs.Sim) {
	switch {
	case c.out != nil:
		s.Output(*c.out)
	case c.words[0] == "ready":
		s.Delay()
	case c.words[0] == "accept" && s.Status == progs.WaitIn:
		s.Accept()
	case c.words[0] == "timeout":
		s.Timeout()
	}
}

func alphabet(menu []*progs.Chan, m *spec.Machine) []cmd {
	cs := []cmd{{words: []string{"ready"}}, {words: []string{"accept"}}, {words: []string{"timeout"}}, {words: []string{"Accept"}}}
	in, out := progs.Used(menu, m)
	if len(in) > 0 && in[0].Name != "bothWays" && in[0].Name != "inCall" {
		cs = append(cs, cmd{words: []string{in[0].Name}})
	}
	for _, c := range out {
		for _, v := range append(append([]spec.Val{}, c.Vals...), c.Extra...) {
			ev := spec.Ev{Chan: c.Name, Kind: c.Kind, Val: v}
			w := []string{c.Name}
			if v.Present {
				w = append(w, v.Text())
			}
			cs = append(cs, cmd{words: w, out: &ev})
		}
		if c.Vals[0].IsInt {
			cs = append(cs, cmd{words: []string{c.Name, "junk"}})
		}
	}
	return cs
}

type script struct {
	cmds []cmd
}

func (s script) words() (ws []string) {
	for _, c := range s.cmds {
		ws = append(ws, c.words...)
	}
	return ws
}

// run plays a script on the reference; it returns the run and the number of words read.
func play(m *spec.Machine, cmds []cmd) (*progs.Sim, int) {
	s := progs.NewSim(m)
	n := 0
	for _, c := range cmds {
		if !s.Running() {
			break
		}
		n += len(c.words)
		c.apply(s)
	}
	return s, n
}

// trailer is what is typed after the end of a test, where nothing may be read any more.
var trailer = []cmd{{words: []string{"accept"}}, {words: []string{"ready"}}, {words: []string{"timeout"}}}

// scripts enumerates all sequences of commands to the depth, and all of length after from every situation that
// can be reached.
func scripts(m *spec.Machine, cs []cmd, depth, after int, f func(cmds []cmd)) (situations int) {
	seen := map[string]bool{}
	emit := func(cmds []cmd) *progs.Sim {
		s, _ := play(m, cmds)
		full := append([]cmd{}, cmds...)
		if !s.Running() {
			full = append(full, trailer...)
		}
		key := ""
		for _, c := range full {
			key += strings.Join(c.words, " ") + ";"
		}
		if !seen[key] {
			seen[key] = true
			f(full)
		}
		return s
	}
	var rec func(prefix []cmd, n int)
	rec = func(prefix []cmd, n int) {
		if s := emit(prefix); !s.Running() || n == 0 {
			return
		}
		for _, c := range cs {
			rec(append(append([]cmd{}, prefix...), c), n-1)
		}
	}
	rec(nil, depth)
	// Breadth first over the situations of the reference.
	type item struct{ path []cmd }
	states := map[string]bool{}
	queue := []item{{nil}}
	states[progs.NewSim(m).Key()] = true
	for len(queue) > 0 {
		it := queue[0]
		queue = queue[1:]
		if len(it.path) > 0 {
			rec(it.path, after)
		}
		for _, c := range cs {
			p := append(append([]cmd{}, it.path...), c)
			s, _ := play(m, p)
			if k := s.Key(); !states[k] {
				states[k] = true
				if s.Running() {
					queue = append(queue, item{p})
				} else {
					emit(p)
				}
			}
		}
	}
	return len(states)
}

var (
	finished  = regexp.MustCompile(`Test (\S+) finished: (.*)\.`)
	outcome   = regexp.MustCompile(`(?m)^\[info\]\s+(\S+) = (\S+)$`)
	announced = regexp.MustCompile(`(?m)sends (.*) to SUT on ([^;\s]+);`)
	converted = regexp.MustCompile(`(?m)received by SUT on (\S+) after conversion: (.*)\)$`)
)

// sentAs is the converted value of an input, as the program shows it.
func sentAs(menu map[string]*progs.Chan, ev spec.Ev) (string, bool) {
	switch c := menu[ev.Chan]; {
	case !ev.Val.Present:
		return "", false
	case c.Override != "" && ev.Val.IsInt:
		return strconv.FormatInt(ev.Val.Int+1000, 10), true
	case c.Override != "":
		return strconv.Itoa(len(ev.Val.Str)), true
	}
	return ev.Val.Text(), true
}

// judge compares what a program did with the reference; it returns what is wrong, or "".
func judge(menu map[string]*progs.Chan, name string, m *spec.Machine, cmds []cmd, rep cpprun.Reply, alone bool) string {
	s, read := play(m, cmds)
	if s.Running() {
		s.Timeout() // the end of the script
	}
	if rep.Died != "" {
		return "the program died or never ended: " + rep.Died
	}
	if want := progs.Exit(s.Status); rep.Code != want {
		return fmt.Sprintf("exit status %d, should be %d (%s)", rep.Code, want, progs.Explain[s.Status])
	}
	f := finished.FindAllStringSubmatch(rep.Err, -1)
	if len(f) != 1 || f[0][1] != name || f[0][2] != progs.Explain[s.Status] {
		return fmt.Sprintf("finished as %q, should be %q", f, progs.Explain[s.Status])
	}
	at := strings.LastIndex(rep.Err, "Final outcomes")
	if at < 0 {
		return "no final outcomes"
	}
	var got []string
	for _, o := range outcome.FindAllStringSubmatch(rep.Err[at:], -1) {
		got = append(got, o[1]+"="+o[2])
	}
	sort.Strings(got)
	if g := strings.Join(got, " "); g != s.Verdicts() {
		return fmt.Sprintf("final outcomes %q, should be %q", g, s.Verdicts())
	}
	ann := announced.FindAllStringSubmatch(rep.Err, -1)
	conv := converted.FindAllStringSubmatch(rep.Err, -1)
	if len(ann) != len(s.Sent) || len(conv) != len(s.Sent) {
		return fmt.Sprintf("announces inputs %q, conversions %q, should be %v", ann, conv, s.Sent)
	}
	for i, ev := range s.Sent {
		if ann[i][2] != ev.Chan || conv[i][1] != ev.Chan || ev.Val.Present && ann[i][1] != ev.Val.Text() {
			return fmt.Sprintf("input %d is announced as %q and %q, should be %s", i, ann[i][0], conv[i][0], ev.Text())
		}
		if want, ok := sentAs(menu, ev); ok && conv[i][2] != want {
			return fmt.Sprintf("input %s is converted to %q, should be %q", ev.Text(), conv[i][2], want)
		}
	}
	if !alone && rep.Consumed != read {
		return fmt.Sprintf("%d words were read, should be %d", rep.Consumed, read)
	}
	return ""
}

func main() { mc.Main("P12", run) }

func run(r *mc.R) {
	menu := progs.Menu()
	byName := map[string]*progs.Chan{}
	cfg := genx.Cfg{Vars: []genx.Var{{Kind: "animate"}}}
	for _, c := range menu {
		if c.Override != "" {
			cfg.Vars[0].Channels = append(cfg.Vars[0].Channels, [2]string{c.Name, c.Override})
		}
	}
	ms := spec.BuildSuite(progs.Suite(menu, mc.Pick(r, 6, 8), r.Thorough()))
	menu = append(menu, progs.Odd()...)
	for _, c := range menu {
		byName[c.Name] = c
	}
	for name, m := range progs.Loops(progs.Menu()) {
		ms.Tests[name] = m
	}
	names := make([]string, 0, len(ms.Tests))
	for n, m := range ms.Tests {
		if !progs.Deterministic(m) {
			r.Broken("machine %s is not deterministic", n)
		}
		names = append(names, n)
	}
	sort.Slice(names, func(i, j int) bool {
		if len(names[i]) != len(names[j]) {
			return len(names[i]) < len(names[j])
		}
		return names[i] < names[j]
	})
	dir := filepath.Join(r.Work, "p12")
	path := cfg.Project(dir, map[string]string{"animate": "#include <cstdlib>\n" + convert})
	if res := genx.Gen(r, dir, path, ms); res.Code != 0 {
		r.Violate("generate", "rtcg-gen failed: "+res.Err, nil)
		return
	}
	src := filepath.Join(dir, "out/animate/src")
	set := &cpprun.Set{Src: src, Objects: []string{filepath.Join(src, "rtcg/rtcg.cpp"), filepath.Join(src, "convert/convert.cpp")},
		Tests: names, Size: 30}
	for _, b := range set.Build(r, filepath.Join(r.Work, "p12b"), cpprun.Animate) {
		m := ms.Tests[b.Test]
		key := b.Test
		if m != nil {
			key = m.Key()
		}
		r.Violate("compile "+key, "the program does not compile: "+b.Text, key)
	}
	r.OutcomeN("programs", int64(len(names)))
	r.Note("programs", len(names))
	if r.Full() {
		return
	}

	// A channel that is used both for outputs and for calls.
	tdir := filepath.Join(r.Work, "twice")
	tpath := genx.Cfg{Vars: []genx.Var{{Kind: "animate"}}}.Project(tdir, nil)
	if res := genx.Gen(r, tdir, tpath, progs.Twice()); res.Code != 0 {
		r.Violate("out and call on one channel", "rtcg-gen failed: "+res.Err, nil)
		return
	}
	tset := &cpprun.Set{Src: filepath.Join(tdir, "out/animate/src"), Tests: []string{"twice"}}
	for _, b := range tset.Build(r, filepath.Join(r.Work, "twiceb"), cpprun.Animate) {
		r.Violate("out and call on one channel", "the program does not compile: "+b.Text, nil)
	}

	depth := mc.Pick(r, 3, 4)
	after := mc.Pick(r, 2, 3)
	var mu sync.Mutex
	exes := map[string]string{}
	mc.Par(len(set.Groups), func(gi int) {
		g := set.Groups[gi]
		if r.Full() || r.Expired() {
			return
		}
		all := make([][][]cmd, len(g.Tests))
		lines := make([][]string, len(g.Tests))
		for i, name := range g.Tests {
			m := ms.Tests[name]
			cs := alphabet(menu, m)
			d, a := depth, after
			if len(cs) > 16 {
				d, a = depth-1, after-1
			}
			if len(m.States) > 50 {
				a = 1
			}
			n := scripts(m, cs, d, a, func(cmds []cmd) {
				all[i] = append(all[i], cmds)
				lines[i] = append(lines[i], strings.Join(script{cmds}.words(), " "))
			})
			r.States.Add(int64(n))
		}
		pos := make([]int, len(g.Tests))
		err := g.Run(lines, func(t int, line string, rep cpprun.Reply) {
			cmds := all[t][pos[t]]
			pos[t]++
			r.Transitions.Add(int64(len(cmds)))
			r.Validated.Add(1)
			name := g.Tests[t]
			m := ms.Tests[name]
			what := judge(byName, name, m, cmds, rep, false)
			if what == "" || r.Full() {
				return
			}
			// The same on the program by itself.
			mu.Lock()
			exe := exes[name]
			if exe == "" {
				var out string
				var err error
				if exe, out, err = set.Alone(name); err != nil {
					mu.Unlock()
					r.Violate("compile "+m.Key(), "the program does not compile: "+out, nil)
					return
				}
				exes[name] = exe
			}
			mu.Unlock()
			if !strings.Contains(what, "words were read") {
				w2 := judge(byName, name, m, cmds, alone(exe, line), true)
				if w2 == "" {
					return // It does right by itself, which is what counts.
				}
				what = w2
			}
			r.Violate(fmt.Sprintf("script %q on %s", line, m.Key()), what, map[string]any{"script": line, "machine": m.Key(), "name": name})
		})
		if err != nil {
			r.Broken("driver %d: %v", gi, err)
		}
	})
	for _, n := range []string{"test1", "loop"} {
		if m := ms.Tests[n]; m != nil {
			scripts(m, alphabet(menu, m), 2, 0, func(cmds []cmd) {
				s, _ := play(m, cmds)
				if s.Running() {
					s.Timeout()
				}
				r.Sample("%s: %q -> %s, %s", n, strings.Join(script{cmds}.words(), " "), progs.Explain[s.Status], s.Verdicts())
				r.Outcome(progs.Explain[s.Status])
			})
		}
	}
	r.Note("script_depth", depth)
	r.Note("depth_after_every_situation", after)
}

// alone runs a program by itself.
func alone(exe, line string) cpprun.Reply {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, exe)
	c.Dir = filepath.Dir(exe)
	c.Stdin = strings.NewReader(strings.ReplaceAll(line, " ", "\n") + "\n")
	var o, e limited
	c.Stdout, c.Stderr = &o, &e
	err := c.Run()
	rep := cpprun.Reply{Out: string(o), Err: string(e)}
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() >= 0 {
		rep.Code = ee.ExitCode()
	} else if err != nil {
		rep.Died = err.Error()
	}
	return rep
}

type limited []byte

func (l *limited) Write(p []byte) (int, error) {
	if len(*l) > 1<<20 {
		return 0, os.ErrInvalid
	}
	*l = append(*l, p...)
	return len(p), nil
}
