// P10: outputs depend only on the inputs.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/validate"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/bb"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/conv"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/genx"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/maporder"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/mc"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/spec"
)

func clip(s string) string {
	if len(s) > 500 {
		return s[:500] + "..."
	}
	return s
}

func ev(c string, k int, v spec.Val) *spec.Ev { return &spec.Ev{Chan: c, Kind: k, Val: v} }

func nd(o string, e *spec.Ev, tests string, next ...*spec.Node) *spec.Node {
	return &spec.Node{Outcome: o, Ev: e, Tests: strings.Split(tests, " "), Next: next}
}

func point(e *spec.Ev, tests string) *spec.Node {
	return nd(spec.Pass, e, tests, nd(spec.Fail, nil, tests))
}

// tests is a menu of tests with many maps to iterate over: several channels, tags and values.
func tests() []*spec.Node {
	i := spec.IntV
	e := spec.EnumV
	return []*spec.Node{
		nd(spec.Unset, nil, "a", point(ev("x", spec.In, i(1)), "a")),
		nd(spec.Unset, nil, "a b c", nd(spec.Inc, ev("x", spec.In, i(1)), "a b c", point(ev("y", spec.Out, e("on")), "a"), point(ev("y", spec.Out, e("off")), "b"), point(ev("z", spec.Out, i(-1)), "c"), nd(spec.Inc, ev("w", spec.Out, spec.None()), "a b", point(ev("x", spec.In, i(4)), "a b")))),
		nd(spec.Unset, nil, "d c b a", point(ev("y", spec.Out, e("on")), "d"), point(ev("z", spec.Out, i(3)), "c"), point(ev("w", spec.Out, spec.None()), "b"), nd(spec.Inc, ev("v", spec.Call, i(3)), "a", point(ev("u", spec.Out, e("k")), "a"))),
		nd(spec.Unset, nil, "q", nd(spec.Inc, ev("w", spec.In, spec.None()), "q", nd(spec.Inc, ev("z", spec.Out, i(0)), "q", nd(spec.Inc, ev("x", spec.In, i(-7)), "q", point(ev("y", spec.Out, e("on")), "q"))))),
		nd(spec.Unset, nil, "t1 t2", nd(spec.Inc, ev("z", spec.Out, i(0)), "t1", point(ev("z", spec.Out, i(0)), "t1")), nd(spec.Inc, ev("u", spec.Out, e("b")), "t2", point(ev("x", spec.In, i(9)), "t2"))),
	}
}

// bads are tests that fail part of the way: ill-typed, or with one identifier twice.
func bads() []*spec.Node {
	dup := nd(spec.Unset, nil, "a", nd(spec.Inc, ev("x", spec.In, spec.IntV(1)), "a", point(ev("y", spec.Out, spec.EnumV("on")), "a")))
	dup.Next[0].ID, dup.Next[0].Next[0].ID = "same", "same"
	// wide ones leave many nodes for later when they are refused
	wide := func(n int) *spec.Node {
		w := nd(spec.Unset, nil, "wide")
		for i := 0; i < n; i++ {
			w.Next = append(w.Next, nd(spec.Inc, ev("x", spec.In, spec.IntV(int64(i))), "wide", point(ev("y", spec.Out, spec.EnumV("on")), "wide")))
		}
		return w
	}
	first, last := wide(5), wide(4)
	first.Next[0].Ev.Val = spec.EnumV("k")
	last.Next[3].Ev.Val = spec.EnumV("k")
	deep := wide(3)
	deep.Next[1].Next[0].Ev.Val = spec.IntV(3)
	return []*spec.Node{
		first, last, deep,
		nd(spec.Unset, nil, "bad", nd(spec.Inc, ev("x", spec.In, spec.IntV(1)), "bad", nd(spec.Inc, ev("n", spec.Out, spec.IntV(1)), "bad", point(ev("x", spec.Out, spec.EnumV("on")), "bad")))),
		dup,
	}
}

func pick(idx ...int) map[string]*spec.Node {
	s := map[string]*spec.Node{}
	for _, i := range idx {
		s[fmt.Sprint("t", i)] = tests()[i]
	}
	return s
}

func both(cat bool) genx.Cfg {
	c := genx.Cfg{Vars: []genx.Var{
		{Kind: "animate", Makefile: true, Channels: [][2]string{{"x", "float"}, {"y", "Mode"}}, Includes: []genx.Inc{{Src: "mode.h"}, {Src: "vector", System: true}}},
		{Kind: "ros", Catkin: true, Includes: []genx.Inc{{Src: "std_msgs/Float32.h"}}, Channels: [][2]string{{"z", "std_msgs::Int32"}, {"v", "std_msgs::Int64"}}},
	}}
	if cat {
		c.Vars[1].Pkg = &genx.Pkg{Name: "p-${NAME}", Depends: []string{"roscpp", "a", "b"}, BuildtoolDepends: []string{"catkin"}}
	} else {
		c.Vars[0].Channels, c.Vars[1].Channels = nil, nil
	}
	return c
}

// repeated is a configuration that says everything more than once.
func repeated() genx.Cfg {
	c := both(true)
	for i := range c.Vars {
		v := &c.Vars[i]
		v.Includes = append(v.Includes, genx.Inc{Src: "a.h"}, genx.Inc{Src: "b.h", System: true})
		v.Includes = append(v.Includes, v.Includes...)
		for _, ch := range v.Channels {
			v.Channels = append(v.Channels, ch, [2]string{ch[0], ch[1] + "_2"})
		}
	}
	p := c.Vars[1].Pkg
	p.Depends, p.BuildtoolDepends = append(p.Depends, "a", "roscpp", "catkin", "b"), append(p.BuildtoolDepends, "a", "catkin")
	return c
}

var converts = map[string]string{"animate": "// animate conversion\n", "ros": "// ros conversion\n"}

func main() { mc.Main("P10", run) }

func run(r *mc.R) {
	var runs atomic.Int64
	dev := mc.Pick(r, 1, 2)
	modes := []int{1, 2, 3, 4, 5}
	mapBin := r.Opts["maporder"]

	// 1. Every stage under every map order with at most dev deviations, and under global reversals and rotations.
	filter := func(tool, input, name string) {
		base := bb.Run(r, "", input, tool)
		n := maporder.ExploreProc(r, dev, 4, modes, func(sh *maporder.Shared, what string) bool {
			got := bb.RunEnv(r, "", []string{sh.Env()}, strings.NewReader(input), filepath.Join(mapBin, tool))
			if got.Code != base.Code || got.Out != base.Out {
				r.Violate(tool+" on "+name, fmt.Sprintf("output depends on the map order (%s): exit status %d against %d; %s", what, got.Code, base.Code, genx.FirstDiff(base.Out, got.Out)), input)
				return false
			}
			return true
		})
		runs.Add(n)
		r.Note("map_orders "+tool+" "+name, n)
		r.Outcome(fmt.Sprintf("%s_status_%d", tool, base.Code))
	}
	files := map[string]string{
		"clashing names": "a: x.in.1, y.out.on\nx.in.2\na: x.in.1\ntest0: z.out.1\nz.out.2, z.out.3\n",
		"eight traces":   "x.in.1\nx.in.2\nx.in.3\nx.in.4\nx.in.5\nx.in.6\nx.in.7\nx.in.8\n",
		"bad file":       "x.in.1\nx.in.2\nx\n",
	}
	for name, text := range files {
		filter("rtcg-read-traces", text, name)
	}
	suites := map[string]map[string]*spec.Node{"1": pick(1), "2": pick(2), "01": pick(0, 1), "123": pick(1, 2, 3), "01234": pick(0, 1, 2, 3, 4), "none": pick(),
		"ill-typed": {"t0": tests()[1], "bad": bads()[3], "ok": tests()[2]}, "clash": {"t0": tests()[1], "bad": bads()[4]}}
	var names []string
	for n := range suites {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		filter("rtcg-make-stms", string(spec.EncodeTrees(suites[n])), "suite "+n)
	}
	var dirs atomic.Int64
	gen := func(bin string, env []string, c genx.Cfg, stms string) (bb.Res, map[string]string) {
		dir := filepath.Join(r.Work, fmt.Sprint("g", dirs.Add(1)))
		defer os.RemoveAll(dir)
		c.Project(dir, converts)
		res := bb.RunEnv(r, dir, env, strings.NewReader(stms), filepath.Join(bin, "rtcg-gen"), "gen.xml")
		return res, genx.Tree(filepath.Join(dir, "out"))
	}
	for _, in := range []struct {
		name string
		c    genx.Cfg
		s    map[string]*spec.Node
	}{{"12 with overrides", both(true), pick(1, 2)}, {"1 with repetitions", repeated(), pick(1)}, {"1", both(false), pick(1)}, {"034", both(true), pick(0, 3, 4)}} {
		stms := string(spec.EncodeStms(spec.BuildSuite(in.s)))
		bres, btree := gen(r.Bin, nil, in.c, stms)
		if bres.Code != 0 || len(genx.Files(btree)) < 8 {
			r.Violate("rtcg-gen on "+in.name, fmt.Sprintf("exit status %d: %s", bres.Code, clip(bres.Err)), nil)
			continue
		}
		d := dev
		if in.name != "1" {
			d = 1
		}
		n := maporder.ExploreProc(r, d, mc.Pick(r, 2, 4), modes, func(sh *maporder.Shared, what string) bool {
			res, tree := gen(mapBin, []string{sh.Env()}, in.c, stms)
			diff := genx.Diff(btree, tree)
			if res.Code != 0 || diff != "" {
				r.Violate("rtcg-gen on "+in.name, fmt.Sprintf("output depends on the map order (%s): exit status %d; %s", what, res.Code, diff), stms)
				return false
			}
			return true
		})
		runs.Add(n)
		r.Note("map_orders rtcg-gen "+in.name, n)
		r.Outcome("rtcg-gen_status_0")
	}

	histories(r)
	independence(r, gen)
	reorder(r, gen)
	overwrite(r)
	// 6. Suites too large for controlled orders: the runtime's own random orders and seeds.
	big := map[string]*spec.Node{}
	for i := 0; i < 40; i++ {
		big[fmt.Sprint("t", i)] = tests()[i%5]
	}
	for i := 0; i < 12; i++ { // names that differ only at the end of something long
		n := nd(spec.Unset, nil, "x")
		n.Tests = nil
		for k := 0; k < 5+i*4; k++ {
			tag := strings.Repeat("long", 5*(i+1)) + fmt.Sprint(k)
			n.Tests = append(n.Tests, tag)
			n.Next = append(n.Next, point(ev(strings.Repeat("c", 10*i+1)+fmt.Sprint(k), spec.Out, spec.IntV(int64(k))), tag))
		}
		big[strings.Repeat("n", 15*(i+1))+fmt.Sprint(i%3)] = n
	}
	bigText := string(spec.EncodeTrees(big))
	bigStms := string(spec.EncodeStms(spec.BuildSuite(big)))
	base := bb.Run(r, "", bigText, "rtcg-make-stms")
	_, baseTree := gen(r.Bin, nil, both(true), bigStms)
	_, repTree := gen(r.Bin, nil, repeated(), bigStms)
	mc.Par(mc.Pick(r, 16, 60), func(i int) {
		if got := bb.Run(r, "", bigText, "rtcg-make-stms"); got.Out != base.Out {
			r.Violate("rtcg-make-stms on 40 tests", genx.FirstDiff(base.Out, got.Out), nil)
		}
		if _, t := gen(r.Bin, nil, both(true), bigStms); genx.Diff(baseTree, t) != "" {
			r.Violate("rtcg-gen on 40 tests", genx.Diff(baseTree, t), nil)
		}
		if _, t := gen(r.Bin, nil, repeated(), bigStms); genx.Diff(repTree, t) != "" {
			r.Violate("rtcg-gen on 40 tests with repetitions in the configuration", genx.Diff(repTree, t), nil)
		}
		runs.Add(2)
	})
	r.OutcomeN("tool_runs_under_map_orders", runs.Load())
	r.Sample("map order plan: e.g. iteration 3 of rtcg-make-stms over 3 entries in order [2 0 1], all others in insertion order")
	r.States.Add(runs.Load())
	r.Transitions.Add(runs.Load())
	r.Validated.Add(runs.Load())
}

// histories: what a builder makes of a test does not depend on what it was given before, and is not changed after.
func histories(r *mc.R) {
	menu := append(tests(), bads()...)
	type outcome struct {
		ok  bool
		key string
	}
	alone := make([]outcome, len(menu))
	get := func(b *stm.Builder, n *spec.Node) (o outcome, m stm.Stm) {
		p := mc.Catch(func() {
			v, err := validate.Full(conv.RealNode(n))
			if err == nil {
				m, err = b.Build(v)
			}
			o.ok = err == nil
		})
		if p != "" {
			return outcome{false, "panic " + p}, m
		}
		if o.ok {
			o.key = conv.Machine(&m).Key()
		}
		return o, m
	}
	for i, n := range menu {
		var b stm.Builder
		alone[i], _ = get(&b, n)
	}
	depth := mc.Pick(r, 4, 6)
	count := int64(0)
	for n := 1; n <= depth; n++ {
		mc.Sequences(len(menu), n, func(seq []int) bool {
			var b stm.Builder
			ms := make([]stm.Stm, n)
			for i, t := range seq {
				var o outcome
				if o, ms[i] = get(&b, menu[t]); o != alone[t] {
					r.Violate(fmt.Sprintf("builder history %v", seq[:i+1]), "the last test becomes "+clip(o.key)+", alone it is "+clip(alone[t].key), nil)
					return false
				}
			}
			for i, t := range seq {
				if alone[t].ok && conv.Machine(&ms[i]).Key() != alone[t].key {
					r.Violate(fmt.Sprintf("builder history %v", seq), fmt.Sprintf("machine %d was changed by later builds", i), nil)
					return false
				}
			}
			count++
			return !r.Full()
		})
	}
	// One builder used for whole suites, one after the other, refused ones in between.
	sets := []map[string]*spec.Node{pick(0), pick(1, 2), pick(3, 4), {"t0": bads()[3], "t1": tests()[1]}, {"t0": tests()[2], "t1": bads()[4]}, {"t0": bads()[0]}, {"t0": bads()[2], "t2": tests()[3]}}
	build := func(b *stm.Builder, s map[string]*spec.Node) (key string) {
		if p := mc.Catch(func() {
			v := validate.Suite{}
			for name, n := range s {
				var err error
				if v[name], err = validate.Full(conv.RealNode(n)); err != nil {
					key = "invalid"
					return
				}
			}
			suite, err := b.BuildSuite(v)
			if err != nil {
				key = "refused"
				return
			}
			key = conv.MSuite(suite).Key()
		}); p != "" {
			key = "panic " + p
		}
		return key
	}
	mc.Sequences(len(sets), 3, func(seq []int) bool {
		var b stm.Builder
		for i, x := range seq {
			var fresh stm.Builder
			if got, want := build(&b, sets[x]), build(&fresh, sets[x]); got != want {
				r.Violate(fmt.Sprintf("suite history %v", seq[:i+1]), genx.FirstDiff(want, got), nil)
			}
		}
		count++
		return !r.Full()
	})
	r.OutcomeN("builder_histories", count)
	r.States.Add(count)
	r.Transitions.Add(count * int64(depth))
	r.Validated.Add(count)
}

func sub(b []byte, test string) string {
	var j struct {
		Tests map[string]json.RawMessage `json:"tests"`
	}
	if json.Unmarshal(b, &j) != nil {
		return "unreadable"
	}
	return string(j.Tests[test])
}

// independence: a test's machine and source do not depend on the other tests of its suite.
func independence(r *mc.R, gen func(string, []string, genx.Cfg, string) (bb.Res, map[string]string)) {
	var subsets [][]int
	mc.Subsets(5, func(mask int) {
		var s []int
		for i := 0; i < 5; i++ {
			if mask>>i&1 == 1 {
				s = append(s, i)
			}
		}
		if len(s) > 1 {
			subsets = append(subsets, s)
		}
	})
	alone := make([]string, 5)
	for i := range alone {
		alone[i] = sub([]byte(bb.Run(r, "", string(spec.EncodeTrees(pick(i))), "rtcg-make-stms").Out), fmt.Sprint("t", i))
	}
	_, all, _ := spec.Types(pick(0, 1, 2, 3, 4))
	mk := func(s []int) string { // suites with the same suite-wide types
		ms := spec.BuildSuite(pick(s...))
		ms.Types = all
		return string(spec.EncodeStms(ms))
	}
	solo := make([]map[string]string, 5)
	for i := range solo {
		_, solo[i] = gen(r.Bin, nil, both(true), mk([]int{i}))
	}
	mc.Par(len(subsets), func(x int) {
		s := subsets[x]
		out := bb.Run(r, "", string(spec.EncodeTrees(pick(s...))), "rtcg-make-stms")
		res, tree := gen(r.Bin, nil, both(true), mk(s))
		if res.Code != 0 {
			r.Violate(fmt.Sprint("gen subset ", s), clip(res.Err), nil)
		}
		for _, i := range s {
			name := fmt.Sprint("t", i)
			if got := sub([]byte(out.Out), name); got != alone[i] || got == "" {
				r.Violate(fmt.Sprintf("machine of %s in suite %v", name, s), "differs from the one it has alone: "+genx.FirstDiff(alone[i], got), nil)
			}
			files := 0
			for p, text := range solo[i] {
				if strings.Contains(p, "Makefile") {
					continue
				}
				files++
				if genx.Normal(tree[p]) != genx.Normal(text) {
					r.Violate(fmt.Sprintf("%s of %s in suite %v", p, name, s), "differs from the one it has alone: "+genx.FirstDiff(genx.Normal(text), genx.Normal(tree[p])), nil)
				}
			}
			if files < 8 {
				r.Violate(fmt.Sprintf("gen of %s alone", name), "too few files", nil)
			}
			r.Outcome("independent_tests")
			r.States.Add(1)
			r.Transitions.Add(1)
			r.Validated.Add(1)
		}
	})
}

// ordered writes the tests of a suite in a given order.
func ordered(text string, order []string) string {
	var j map[string]json.RawMessage
	if err := json.Unmarshal([]byte(text), &j); err != nil {
		panic(err)
	}
	inner, rest := j, ""
	if t, ok := j["tests"]; ok {
		inner = nil
		if err := json.Unmarshal(t, &inner); err != nil {
			panic(err)
		}
		rest = string(j["types"])
	}
	var parts []string
	for _, n := range order {
		parts = append(parts, fmt.Sprintf("%q: %s", n, inner[n]))
	}
	body := "{" + strings.Join(parts, ",\n") + "}"
	if rest != "" {
		return "{\"tests\": " + body + ", \"types\": " + rest + "}\n"
	}
	return body + "\n"
}

// reorder: the order of tests in a file does not matter.
func reorder(r *mc.R, gen func(string, []string, genx.Cfg, string) (bb.Res, map[string]string)) {
	set := []int{0, 1, 2, 3}
	trees := string(spec.EncodeTrees(pick(set...)))
	stms := string(spec.EncodeStms(spec.BuildSuite(pick(set...))))
	base := bb.Run(r, "", trees, "rtcg-make-stms")
	_, btree := gen(r.Bin, nil, both(true), stms)
	rows := []string{"a: x.in.1, y.out.on\n", "b: x.in.2\n", "x: y.out.on\n", "a0: y.out.off, y.out.on\n"}
	baseTr := bb.Run(r, "", strings.Join(rows, ""), "rtcg-read-traces")
	var perms [][]int
	mc.Permutations(4, func(p []int) { perms = append(perms, p) })
	mc.Par(len(perms), func(i int) {
		var names []string
		tr := ""
		for _, k := range perms[i] {
			names = append(names, fmt.Sprint("t", set[k]))
			tr += rows[k]
		}
		if got := bb.Run(r, "", ordered(trees, names), "rtcg-make-stms"); got.Code != 0 || got.Out != base.Out {
			r.Violate(fmt.Sprintf("rtcg-make-stms on tests in order %v", names), genx.FirstDiff(base.Out, got.Out), nil)
		}
		if res, t := gen(r.Bin, nil, both(true), ordered(stms, names)); res.Code != 0 || genx.Diff(btree, t) != "" {
			r.Violate(fmt.Sprintf("rtcg-gen on tests in order %v", names), genx.Diff(btree, t)+clip(res.Err), nil)
		}
		if got := bb.Run(r, "", tr, "rtcg-read-traces"); got.Code != 0 || got.Out != baseTr.Out {
			r.Violate(fmt.Sprintf("rtcg-read-traces on rows in order %v", perms[i]), genx.FirstDiff(baseTr.Out, got.Out), nil)
		}
		r.Outcome("reorderings")
		r.States.Add(3)
		r.Transitions.Add(3)
		r.Validated.Add(3)
	})
}

// overwrite: generating over an earlier output gives every file its contents from this input alone.
func overwrite(r *mc.R) {
	type input struct {
		c genx.Cfg
		s map[string]*spec.Node
		v map[string]string
	}
	inputs := []input{{both(true), pick(0, 1, 2), converts}, {both(false), pick(0), converts}, {both(true), pick(1), converts}, {both(false), pick(1, 3), converts}}
	// Inputs that give files of the same sizes as those of another: other values, other types and dependencies, and the
	// user's source changed and given an old date.
	like, changed := pick(0, 1, 2), map[string]string{}
	for _, t := range like {
		for _, n := range t.Nodes() {
			if n.Ev != nil && n.Ev.Val.IsInt && n.Ev.Val.Int >= 0 {
				n.Ev.Val.Int = (n.Ev.Val.Int + 2) % 10
			}
		}
	}
	for k, text := range converts {
		changed[k] = strings.ToUpper(text)
	}
	inputs = append(inputs, input{both(true), like, converts}, input{both(true), pick(0, 1, 2), changed})
	other := both(true)
	other.Vars[1].Pkg = &genx.Pkg{Name: "r-${NAME}", Depends: []string{"roscpp", "b", "a"}, BuildtoolDepends: []string{"catkim"}}
	other.Vars[0].Channels = [][2]string{{"x", "flaot"}, {"y", "Moed"}}
	inputs = append(inputs, input{other, pick(0, 1, 2), converts})
	run := func(dir string, in input) map[string]string {
		in.c.Project(dir, in.v)
		for k := range changed {
			if in.v["ros"] == changed["ros"] {
				old := time.Unix(1000000000, 0)
				_ = os.Chtimes(filepath.Join(dir, k, "src/convert/convert.cpp"), old, old)
			}
		}
		res := genx.Gen(r, dir, "gen.xml", spec.BuildSuite(in.s))
		if res.Code != 0 {
			r.Violate("generation over earlier output", clip(res.Err), nil)
		}
		return genx.Tree(filepath.Join(dir, "out"))
	}
	mc.Par(len(inputs)*len(inputs)*len(inputs), func(x int) {
		seq := make([]int, 3)
		mc.Decode(x, len(inputs), seq)
		dir := filepath.Join(r.Work, fmt.Sprint("o", x))
		fresh := filepath.Join(r.Work, fmt.Sprint("f", x))
		defer os.RemoveAll(dir)
		defer os.RemoveAll(fresh)
		want := run(fresh, inputs[seq[2]])
		var got map[string]string
		for _, i := range seq {
			got = run(dir, inputs[i])
		}
		for p, text := range want {
			if genx.Normal(got[p]) != genx.Normal(text) {
				r.Violate(fmt.Sprintf("generation history %v", seq), p+" differs from a fresh one: "+genx.FirstDiff(genx.Normal(text), genx.Normal(got[p])), nil)
			}
		}
		r.Outcome("generation_histories")
		r.States.Add(1)
		r.Transitions.Add(3)
		r.Validated.Add(1)
	})
}
