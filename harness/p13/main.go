// P13: a generated ROS test node executes its test faithfully.
package main

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/UoY-RoboStar/rtcg/internal/zzverif/cpprun"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/genx"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/mc"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/progs"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/spec"
)

// override gives the message type of a channel: numbers need one in ROS, constants are strings unless overridden.
func override(c *progs.Chan) string {
	switch {
	case c.Vals[0].IsInt:
		return "std_msgs::Int64"
	case c.Override != "":
		return "std_msgs::Int32"
	}
	return ""
}

// convert is the user's conversion source: numbers are sent with 1000 added, overridden constants as their length.
func convert(menu []*progs.Chan) string {
	var b strings.Builder
	b.WriteString("#include <string>\n#include \"std_msgs/Int64.h\"\n#include \"std_msgs/Int32.h\"\n")
	done := map[string]bool{}
	for _, c := range menu {
		if done[c.Name] {
			continue
		}
		done[c.Name] = true
		up := strings.ToUpper(c.Name[:1]) + c.Name[1:]
		switch {
		case c.Vals[0].IsInt:
			ty := "unsigned int"
			for _, v := range c.Vals {
				if v.Int < 0 {
					ty = "int"
				}
			}
			fmt.Fprintf(&b, "%s from%s(const std_msgs::Int64::ConstPtr& msg) { return (%s)(msg->data - 1000); }\n", ty, up, ty)
			fmt.Fprintf(&b, "std_msgs::Int64 to%s(const %s value) { std_msgs::Int64 m; m.data = (int64_t)value + 1000; return m; }\n", up, ty)
		case c.Override != "":
			fmt.Fprintf(&b, "std::string from%s(const std_msgs::Int32::ConstPtr& msg) { return \"k\" + std::to_string(msg->data); }\n", up)
			fmt.Fprintf(&b, "std_msgs::Int32 to%s(const std::string value) { std_msgs::Int32 m; m.data = (int)value.size(); return m; }\n", up)
		}
	}
	return b.String()
}

// topic is the lower-underscored name of a channel (of ASCII letters).
func topic(name string) string {
	var b strings.Builder
	for i := 0; i < len(name); i++ {
		c := name[i]
		if c >= 'A' && c <= 'Z' {
			if i > 0 && name[i-1] >= 'a' && name[i-1] <= 'z' {
				b.WriteByte('_')
			}
			c += 'a' - 'A'
		}
		b.WriteByte(c)
	}
	return b.String()
}

// wire is a value as the messages of its channel carry it: received ones, and sent ones.
func wire(c *progs.Chan, v spec.Val, sent bool) string {
	switch {
	case !v.Present:
		return ""
	case v.IsInt:
		return strconv.FormatInt(v.Int+1000, 10)
	case c.Override != "" && sent:
		return strconv.Itoa(len(v.Str))
	case c.Override != "":
		return v.Str[1:]
	}
	return v.Text()
}

type cmd struct {
	word string
	act  byte // d, t, a, o (output), n (nothing)
	ev   spec.Ev
}

func alphabet(menu []*progs.Chan, m *spec.Machine) []cmd {
	cs := []cmd{{word: "d", act: 'd'}, {word: "t", act: 't'}}
	in, out := progs.Used(menu, m)
	if len(in) > 0 {
		cs = append(cs, cmd{word: "m:input_accepted:1", act: 'a'}, cmd{word: "m:nobody:1", act: 'n'})
	}
	for _, c := range out {
		for _, v := range append(append([]spec.Val{}, c.Vals...), c.Extra...) {
			cs = append(cs, cmd{word: "m:" + topic(c.Name) + ":" + wire(c, v, false), act: 'o', ev: spec.Ev{Chan: c.Name, Kind: c.Kind, Val: v}})
		}
	}
	return cs
}

func (c cmd) apply(s *progs.Sim) {
	if !s.Running() {
		return
	}
	switch c.act {
	case 'd':
		s.Delay()
	case 't':
		s.Timeout()
	case 'a':
		s.Accept()
	case 'o':
		s.Output(c.ev)
	}
}

func line(cmds []cmd) string {
	var ws []string
	for _, c := range cmds {
		ws = append(ws, c.word)
	}
	return strings.Join(ws, " ")
}

// end makes a script final: the time-out comes at last; after the end, everything is delivered once more.
func end(m *spec.Machine, cs, cmds []cmd) []cmd {
	out := append([]cmd{}, cmds...)
	s := progs.NewSim(m)
	for _, c := range cmds {
		c.apply(s)
	}
	if s.Running() {
		return append(out, cs[1], cs[0])
	}
	out = append(out, cs[0])
	if len(cs) > 2 {
		out = append(out, cs[2])
	}
	return append(out, cs[len(cs)-1], cs[1])
}

func scripts(m *spec.Machine, cs []cmd, depth, after int, f func(cmds []cmd)) (situations int) {
	seen := map[string]bool{}
	run := func(cmds []cmd) *progs.Sim {
		s := progs.NewSim(m)
		for _, c := range cmds {
			c.apply(s)
		}
		return s
	}
	emit := func(cmds []cmd) *progs.Sim {
		if k := line(cmds); !seen[k] {
			seen[k] = true
			f(end(m, cs, cmds))
		}
		return run(cmds)
	}
	var rec func(prefix []cmd, n int)
	rec = func(prefix []cmd, n int) {
		if s := emit(prefix); !s.Running() || n == 0 {
			return
		}
		for _, c := range cs {
			rec(append(append([]cmd{}, prefix...), c), n-1)
		}
	}
	rec(nil, depth)
	states := map[string]bool{progs.NewSim(m).Key(): true}
	queue := [][]cmd{nil}
	for len(queue) > 0 {
		path := queue[0]
		queue = queue[1:]
		if len(path) > 0 {
			rec(path, after)
		}
		for _, c := range cs {
			p := append(append([]cmd{}, path...), c)
			s := run(p)
			if k := s.Key(); !states[k] {
				states[k] = true
				if s.Running() {
					queue = append(queue, p)
				} else {
					emit(p)
				}
			}
		}
	}
	return len(states)
}

var (
	finished = regexp.MustCompile(`Test (\S+) finished: (.*)\.`)
	outcome  = regexp.MustCompile(`(?m)^\[info\]\s+(\S+) = (\S+)$`)
)

func judge(menu map[string]*progs.Chan, name string, m *spec.Machine, cmds []cmd, rep cpprun.Reply) string {
	if rep.Died != "" {
		return "the node died or never ended: " + rep.Died
	}
	lines := strings.Split(strings.TrimSpace(rep.Out), "\n")
	adv, sub := map[string]bool{}, map[string]bool{}
	for _, s := range m.States {
		for _, set := range s.Sets {
			switch {
			case len(set.Trs) == 0:
			case set.Kind == spec.In:
				adv[topic(set.Chan)] = true
				sub["input_accepted"] = true
			default:
				sub[topic(set.Chan)] = true
			}
		}
	}
	// What the reference does, step by step.
	s := progs.NewSim(m)
	down := 0
	if !s.Running() {
		down = 1
	}
	var want []string
	sent := 0
	flush := func() {
		for ; sent < len(s.Sent); sent++ {
			ev := s.Sent[sent]
			want = append(want, strings.TrimSpace("publish "+topic(ev.Chan)+" "+wire(menu[ev.Chan], ev.Val, true)))
		}
	}
	flush()
	if down == 1 {
		want = append(want, "shutdown")
	}
	for i, c := range cmds {
		want = append(want, "step "+strconv.Itoa(i))
		was := s.Running()
		c.apply(s)
		flush()
		if was && !s.Running() {
			want = append(want, "shutdown")
		}
	}
	want = append(want, "spun")
	var got []string
	inits := 0
	for _, l := range lines {
		kind, rest, _ := strings.Cut(l, " ")
		switch kind {
		case "advertise":
			if !adv[rest] {
				return "advertises " + rest
			}
			delete(adv, rest)
		case "subscribe":
			if !sub[rest] {
				return "subscribes to " + rest
			}
			delete(sub, rest)
		case "init":
			inits++
			if rest != name {
				return "is called " + rest
			}
		case "bad":
			return rest
		case "spin":
			if len(adv) > 0 || len(sub) > 0 || inits != 1 {
				return fmt.Sprintf("starts without having advertised %v or subscribed to %v", adv, sub)
			}
		default:
			got = append(got, strings.TrimSpace(l))
		}
	}
	for i := 0; i < len(want) || i < len(got); i++ {
		w, g := "nothing", "nothing"
		if i < len(want) {
			w = want[i]
		}
		if i < len(got) {
			g = got[i]
		}
		if w != g {
			return fmt.Sprintf("does %q, should do %q (all: %q)", g, w, got)
		}
	}
	if wantCode := progs.Exit(s.Status); rep.Code != wantCode {
		return fmt.Sprintf("exit status %d, should be %d (%s)", rep.Code, wantCode, progs.Explain[s.Status])
	}
	f := finished.FindAllStringSubmatch(rep.Err, -1)
	if len(f) != 1 || f[0][1] != name || f[0][2] != progs.Explain[s.Status] {
		return fmt.Sprintf("finished as %q, should be %q", f, progs.Explain[s.Status])
	}
	at := strings.LastIndex(rep.Err, "Final outcomes")
	if at < 0 {
		return "no final outcomes"
	}
	var outs []string
	for _, o := range outcome.FindAllStringSubmatch(rep.Err[at:], -1) {
		outs = append(outs, o[1]+"="+o[2])
	}
	sort.Strings(outs)
	if g := strings.Join(outs, " "); g != s.Verdicts() {
		return fmt.Sprintf("final outcomes %q, should be %q", g, s.Verdicts())
	}
	return ""
}

func main() { mc.Main("P13", run) }

func run(r *mc.R) {
	base := progs.Menu()
	menu := append(progs.Menu(), progs.Odd()...)
	byName := map[string]*progs.Chan{}
	v := genx.Var{Kind: "ros", Catkin: true, Includes: []genx.Inc{{Src: "std_msgs/Int64.h"}, {Src: "std_msgs/Int32.h"}}}
	for _, c := range menu {
		if t := override(c); t != "" && byName[c.Name] == nil {
			v.Channels = append(v.Channels, [2]string{c.Name, t})
		}
		byName[c.Name] = c
	}
	ms := spec.BuildSuite(progs.Suite(base, mc.Pick(r, 6, 8), r.Thorough()))
	for name, m := range progs.Loops(base) {
		ms.Tests[name] = m
	}
	names := make([]string, 0, len(ms.Tests))
	for n, m := range ms.Tests {
		if !progs.Deterministic(m) {
			r.Broken("machine %s is not deterministic", n)
		}
		names = append(names, n)
	}
	sort.Slice(names, func(i, j int) bool {
		if len(names[i]) != len(names[j]) {
			return len(names[i]) < len(names[j])
		}
		return names[i] < names[j]
	})
	dir := filepath.Join(r.Work, "p13")
	path := genx.Cfg{Vars: []genx.Var{v}}.Project(dir, map[string]string{"ros": convert(menu)})
	if res := genx.Gen(r, dir, path, ms); res.Code != 0 {
		r.Violate("generate", "rtcg-gen failed: "+res.Err, nil)
		return
	}
	src := filepath.Join(dir, "out/ros/src")
	set := &cpprun.Set{Src: src, Objects: []string{filepath.Join(src, "rtcg/rtcg.cpp"), filepath.Join(src, "convert/convert.cpp")},
		Incs: []string{filepath.Join(r.Opts["verif"], "harness/cpprun/ros")}, Tests: names, Size: 30}
	for _, b := range set.Build(r, filepath.Join(r.Work, "p13b"), cpprun.Ros) {
		key := b.Test
		if m := ms.Tests[b.Test]; m != nil {
			key = m.Key()
		}
		r.Violate("compile "+key, "the node does not compile: "+b.Text, key)
	}
	r.Note("programs", len(names))
	if r.Full() {
		return
	}

	// A channel that is used both for outputs and for calls.
	tdir := filepath.Join(r.Work, "twice")
	tpath := genx.Cfg{Vars: []genx.Var{{Kind: "ros"}}}.Project(tdir, nil)
	if res := genx.Gen(r, tdir, tpath, progs.Twice()); res.Code != 0 {
		r.Violate("out and call on one channel", "rtcg-gen failed: "+res.Err, nil)
		return
	}
	tset := &cpprun.Set{Src: filepath.Join(tdir, "out/ros/src"), Tests: []string{"twice"}, Incs: set.Incs}
	for _, b := range tset.Build(r, filepath.Join(r.Work, "twiceb"), cpprun.Ros) {
		r.Violate("out and call on one channel", "the program does not compile: "+b.Text, nil)
	}

	topics(r, set.Incs)
	depth := mc.Pick(r, 3, 4)
	after := mc.Pick(r, 2, 3)
	var mu sync.Mutex
	exes := map[string]string{}
	mc.Par(len(set.Groups), func(gi int) {
		g := set.Groups[gi]
		if r.Full() || r.Expired() {
			return
		}
		all := make([][][]cmd, len(g.Tests))
		lines := make([][]string, len(g.Tests))
		for i, name := range g.Tests {
			m := ms.Tests[name]
			cs := alphabet(menu, m)
			d, a := depth, after
			if len(cs) > 16 {
				d, a = depth-1, after-1
			}
			if len(m.States) > 50 {
				a = 1
			}
			n := scripts(m, cs, d, a, func(cmds []cmd) {
				all[i] = append(all[i], cmds)
				lines[i] = append(lines[i], line(cmds))
			})
			r.States.Add(int64(n))
		}
		pos := make([]int, len(g.Tests))
		err := g.Run(lines, func(t int, l string, rep cpprun.Reply) {
			cmds := all[t][pos[t]]
			pos[t]++
			r.Transitions.Add(int64(len(cmds)))
			r.Validated.Add(1)
			name := g.Tests[t]
			m := ms.Tests[name]
			if judge(byName, name, m, cmds, rep) == "" || r.Full() {
				return
			}
			mu.Lock()
			exe := exes[name]
			if exe == "" {
				var out string
				var err error
				if exe, out, err = set.Alone(name); err != nil {
					mu.Unlock()
					r.Violate("compile "+m.Key(), "the node does not compile: "+out, nil)
					return
				}
				exes[name] = exe
			}
			mu.Unlock()
			what := judge(byName, name, m, cmds, alone(exe, l))
			if what == "" {
				return // It does right by itself, which is what counts.
			}
			r.Violate(fmt.Sprintf("script %q on %s", l, m.Key()), what, map[string]any{"script": l, "machine": m.Key(), "name": name})
		})
		if err != nil {
			r.Broken("driver %d: %v", gi, err)
		}
	})
	for _, n := range []string{"test1", "loop"} {
		if m := ms.Tests[n]; m != nil {
			scripts(m, alphabet(menu, m), 2, 0, func(cmds []cmd) {
				s := progs.NewSim(m)
				for _, c := range cmds {
					c.apply(s)
				}
				r.Sample("%s: %q -> %s, %s", n, line(cmds), progs.Explain[s.Status], s.Verdicts())
				r.Outcome(progs.Explain[s.Status])
			})
		}
	}
	r.Note("script_depth", depth)
	r.Note("depth_after_every_situation", after)
}

// topics runs nodes with channels of every name of up to four (five) of a few characters, through all their events.
func topics(r *mc.R, incs []string) {
	var names []string
	for n := 0; n <= mc.Pick(r, 3, 4); n++ {
		mc.Sequences(5, n, func(seq []int) bool {
			b := []byte("x")
			for _, s := range seq {
				b = append(b, "aBC1_"[s])
			}
			names = append(names, string(b))
			return true
		})
	}
	// Names of one topic are not in one program.
	var groups []map[string]string
	for _, n := range names {
		i := 0
		for i < len(groups) && (groups[i][topic(n)] != "" || len(groups[i]) >= 20) {
			i++
		}
		if i == len(groups) {
			groups = append(groups, map[string]string{})
		}
		groups[i][topic(n)] = n
	}
	byName := map[string]*progs.Chan{}
	tests := map[string]*spec.Node{}
	cmds := map[string][]cmd{}
	var order []string
	for i, g := range groups {
		name := fmt.Sprint("topics", i)
		order = append(order, name)
		var chans []string
		for _, n := range g {
			chans = append(chans, n)
		}
		sort.Strings(chans)
		var evs []spec.Ev
		for k, n := range chans {
			c := &progs.Chan{Name: n, Kind: []int{spec.In, spec.Out, spec.Call, spec.In, spec.Out}[(k+i)%5], Vals: []spec.Val{spec.EnumV("k" + n)}}
			byName[n] = c
			evs = append(evs, c.Ev(0))
			if c.Kind == spec.In {
				if len(cmds[name]) == 0 && k == 0 {
					cmds[name] = append(cmds[name], cmd{word: "d", act: 'd'})
				}
				cmds[name] = append(cmds[name], cmd{word: "m:input_accepted:1", act: 'a'})
			} else {
				cmds[name] = append(cmds[name], cmd{word: "m:" + topic(n) + ":" + wire(c, c.Vals[0], false), act: 'o', ev: c.Ev(0)})
			}
		}
		tests[name] = progs.Linear(evs, name)
	}
	ms := spec.BuildSuite(tests)
	dir := filepath.Join(r.Work, "topics")
	path := genx.Cfg{Vars: []genx.Var{{Kind: "ros"}}}.Project(dir, nil)
	if res := genx.Gen(r, dir, path, ms); res.Code != 0 {
		r.Violate("channels of all names", "rtcg-gen failed: "+res.Err, nil)
		return
	}
	src := filepath.Join(dir, "out/ros/src")
	set := &cpprun.Set{Src: src, Objects: []string{filepath.Join(src, "rtcg/rtcg.cpp")}, Incs: incs, Tests: order, Size: 8}
	for _, b := range set.Build(r, filepath.Join(r.Work, "topicsb"), cpprun.Ros) {
		r.Violate("channels of all names", fmt.Sprintf("the node for %v does not compile: %s", tests[b.Test].Key(), b.Text), nil)
	}
	if r.Full() {
		return
	}
	mc.Par(len(set.Groups), func(gi int) {
		g := set.Groups[gi]
		lines := make([][]string, len(g.Tests))
		for i, name := range g.Tests {
			for n := range cmds[name] {
				lines[i] = append(lines[i], line(append(append([]cmd{}, cmds[name][:n+1]...), cmd{word: "t", act: 't'})))
			}
		}
		pos := make([]int, len(g.Tests))
		if err := g.Run(lines, func(t int, l string, rep cpprun.Reply) {
			name := g.Tests[t]
			pos[t]++
			cs := append(append([]cmd{}, cmds[name][:pos[t]]...), cmd{word: "t", act: 't'})
			r.Validated.Add(1)
			r.States.Add(1)
			r.Transitions.Add(int64(len(cs)))
			if what := judge(byName, name, ms.Tests[name], cs, rep); what != "" && !r.Full() {
				if exe, out, err := set.Alone(name); err != nil {
					r.Violate("channels of all names", "the node does not compile: "+out, nil)
				} else if what = judge(byName, name, ms.Tests[name], cs, alone(exe, l)); what != "" {
					r.Violate(fmt.Sprintf("script %q on %s", l, ms.Tests[name].Key()), what, map[string]any{"script": l, "machine": ms.Tests[name].Key(), "name": name})
				}
			}
		}); err != nil {
			r.Broken("topics driver: %v", err)
		}
	})
	r.Note("names_of_channels", len(names))
}

// alone runs a node by itself.
func alone(exe, l string) cpprun.Reply {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, exe)
	c.Dir = filepath.Dir(exe)
	c.Env = append(os.Environ(), "MC_SCRIPT="+l)
	var o, e limited
	c.Stdout, c.Stderr = &o, &e
	err := c.Run()
	rep := cpprun.Reply{Out: string(o), Err: string(e)}
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() >= 0 {
		rep.Code = ee.ExitCode()
	} else if err != nil {
		rep.Died = err.Error()
	}
	return rep
}

type limited []byte

func (l *limited) Write(p []byte) (int, error) {
	if len(*l) > 1<<20 {
		return 0, os.ErrInvalid
	}
	*l = append(*l, p...)
	return len(p), nil
}
