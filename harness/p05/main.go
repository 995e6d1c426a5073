// P05: interchange files carry suites without loss.
package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"testing/iotest"

	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/bb"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/conv"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/genx"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/mc"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/progs"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/spec"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/words"
)

var trees, machines, dressed atomic.Int64

func clip(s string) string {
	if len(s) > 500 {
		return s[:500] + "..."
	}
	return s
}

func suiteKey(s map[string]*spec.Node) string {
	var names []string
	for k := range s {
		names = append(names, k)
	}
	sort.Strings(names)
	var b strings.Builder
	for _, n := range names {
		fmt.Fprintf(&b, "%q: %s\n", n, s[n].Key())
	}
	return b.String()
}

func realSuite(s map[string]*spec.Node) testlang.Suite {
	out := testlang.Suite{}
	for k, n := range s {
		out[k] = conv.RealNode(n)
	}
	return out
}

func specSuite(s testlang.Suite) map[string]*spec.Node {
	out := map[string]*spec.Node{}
	for k, n := range s {
		out[k] = conv.Node(n)
	}
	return out
}

// treesKey and stmsKey read a file independently.
func treesKey(b []byte) string {
	s, err := spec.DecodeTrees(b)
	if err != nil {
		return err.Error()
	}
	return suiteKey(s)
}

func stmsKey(b []byte) string {
	s, err := spec.DecodeStms(b)
	if err != nil {
		return err.Error()
	}
	return s.Key()
}

// tree checks one test suite.
func tree(r *mc.R, s map[string]*spec.Node) {
	trees.Add(1)
	want := suiteKey(s)
	sig := "suite " + clip(want)
	real := realSuite(s)
	var text bytes.Buffer
	var err error
	if p := mc.Catch(func() { err = real.Write(&text) }); p != "" || err != nil {
		r.Violate(sig, fmt.Sprintf("cannot be written: %v %s", err, p), nil)
		return
	}
	// What is in the file, according to an independent reader.
	indep, err := spec.DecodeTrees(text.Bytes())
	if err == nil {
		err = spec.TreeFields(text.Bytes())
	}
	if err != nil || suiteKey(indep) != want {
		r.Violate(sig, fmt.Sprintf("the file does not hold the suite (%v): %s", err, clip(text.String())), nil)
		return
	}
	// What the repository reads back; also byte by byte, and from another writer's layout.
	for i, rd := range []interface{ Read([]byte) (int, error) }{bytes.NewReader(text.Bytes()), iotest.OneByteReader(bytes.NewReader(text.Bytes())), bytes.NewReader(spec.EncodeTrees(s))} {
		if i == 1 && trees.Load()%16 != 0 {
			continue
		}
		back, err := testlang.ReadSuite(rd)
		if err != nil {
			r.Violate(sig, fmt.Sprintf("cannot be read back (%d): %v", i, err), text.String())
			return
		}
		if got := suiteKey(specSuite(back)); got != want {
			r.Violate(sig, fmt.Sprintf("reads back (%d) as %s", i, clip(got)), text.String())
			return
		}
		var again bytes.Buffer
		err = back.Write(&again)
		if same := again.String() == text.String() || i == 2 && treesKey(again.Bytes()) == want; err != nil || !same {
			r.Violate(sig, fmt.Sprintf("is written differently the second time (%v): %s", err, clip(again.String())), text.String())
			return
		}
	}
	if suiteKey(specSuite(real)) != want {
		r.Violate(sig, "writing changed the suite", nil)
	}
	// The same suite in other ways of writing JSON.
	if n := trees.Load(); n%int64(mc.Pick(r, 64, 4)) == 0 || n < 12000 && n%2 == 0 {
		names, others := spec.DressTrees(text.Bytes())
		for i, o := range others {
			dressed.Add(1)
			back, err := testlang.ReadSuite(bytes.NewReader(o))
			if err != nil || suiteKey(specSuite(back)) != want {
				r.Violate(sig+" "+names[i], fmt.Sprintf("reads (%v) as %s", err, clip(suiteKey(specSuite(back)))), string(o))
				return
			}
			var again bytes.Buffer
			if err = back.Write(&again); err != nil || again.String() != text.String() {
				r.Violate(sig+" "+names[i], fmt.Sprintf("is written differently once read from this (%v): %s", err, clip(again.String())), string(o))
				return
			}
		}
	}
}

// machine checks one state machine suite.
func machine(r *mc.R, s *spec.MSuite) {
	machines.Add(1)
	want := s.Key()
	sig := "machines " + clip(want)
	real := conv.RealMSuite(s)
	var text bytes.Buffer
	var err error
	if p := mc.Catch(func() { err = real.Write(&text) }); p != "" || err != nil {
		r.Violate(sig, fmt.Sprintf("cannot be written: %v %s", err, p), nil)
		return
	}
	indep, err := spec.DecodeStms(text.Bytes())
	if err == nil {
		err = spec.StmFields(text.Bytes())
	}
	if err != nil || indep.Key() != want {
		r.Violate(sig, fmt.Sprintf("the file does not hold the suite (%v): %s", err, clip(text.String())), nil)
		return
	}
	for i, rd := range []*bytes.Reader{bytes.NewReader(text.Bytes()), bytes.NewReader(spec.EncodeStms(s))} {
		back, err := stm.ReadSuite(rd)
		if err != nil {
			r.Violate(sig, fmt.Sprintf("cannot be read back (%d): %v", i, err), text.String())
			return
		}
		if got := conv.MSuite(back).Key(); got != want {
			r.Violate(sig, fmt.Sprintf("reads back (%d) as %s", i, clip(got)), text.String())
			return
		}
		var again bytes.Buffer
		err = back.Write(&again)
		if same := again.String() == text.String() || i == 1 && stmsKey(again.Bytes()) == want; err != nil || !same {
			r.Violate(sig, fmt.Sprintf("is written differently the second time (%v): %s", err, clip(again.String())), text.String())
			return
		}
	}
	if conv.MSuite(real).Key() != want {
		r.Violate(sig, "writing changed the suite", nil)
	}
	if n := machines.Load(); n%int64(mc.Pick(r, 64, 4)) == 0 || n < 12000 && n%2 == 0 {
		names, others := spec.DressStms(text.Bytes())
		for i, o := range others {
			dressed.Add(1)
			back, err := stm.ReadSuite(bytes.NewReader(o))
			if err != nil || conv.MSuite(back).Key() != want {
				r.Violate(sig+" "+names[i], fmt.Sprintf("reads (%v) as %s", err, clip(conv.MSuite(back).Key())), string(o))
				return
			}
			var again bytes.Buffer
			if err = back.Write(&again); err != nil || stmsKey(again.Bytes()) != want {
				r.Violate(sig+" "+names[i], fmt.Sprintf("is written differently once read from this (%v): %s", err, clip(again.String())), string(o))
				return
			}
		}
	}
}

// texts are contents a string can have (UTF-8, otherwise anything).
var texts = []string{"a", "A", "x0", "a b", "<b>&'\"", "\\", "\\\"", "\"", "a,b", "{}", "[1]", "null", "true", "é", "日本", "😀", "\u2028", "\u00a0x\u00a0", "\u0000", "\u007f", "\u0001", "tab\there",
	"line\nbreak", "cr\rlf", "${NAME}", "%s%d", "//c", "\ufeff", "\ufffd", "initial", "step0", "pass", "unset", "#", "-1", "0", "1e3", "a:b", strings.Repeat("long ", 300)}

func vals() []spec.Val {
	out := []spec.Val{spec.None(), spec.EnumV("")}
	for _, i := range []int64{0, 1, -1, 9, 10, -10, 1 << 31, -1 << 31, 1<<53 + 1, -(1<<53 + 1), math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, 1000000, 1000000000000000000} {
		out = append(out, spec.IntV(i))
	}
	for _, s := range append(append([]string{}, texts...), "a.b", ".", "..", "a.in", "9223372036854775808", "1.5", "+", "0x1", "1_0", "in") {
		if v := spec.ParseVal(s); !v.IsInt {
			out = append(out, v)
		}
	}
	return out
}

func chans() []string {
	var out []string
	for _, s := range texts {
		if s = spec.Trim(s); s != "" && !strings.Contains(s, ".") {
			out = append(out, s)
		}
	}
	return out
}

func main() { mc.Main("P05", run) }

func run(r *mc.R) {
	vs, cs := vals(), chans()
	// 1. One node at a time: every name, direction and value of its event, every identifier, tag, outcome.
	for _, c := range cs {
		for k := 0; k < 3; k++ {
			mc.Par(len(vs), func(i int) {
				e := spec.Ev{Chan: c, Kind: k, Val: vs[i]}
				tree(r, map[string]*spec.Node{"t": {Tests: []string{"t"}, Outcome: spec.Inc, Ev: &e}})
				machine(r, &spec.MSuite{Types: map[string]string{c: "nat"}, Tests: map[string]*spec.Machine{"t": {States: []*spec.State{{ID: "s", Sets: []spec.TrSet{{Chan: c, Kind: k, Trs: []spec.Tr{{Val: vs[i], Next: "s"}}}}}}}}})
			})
		}
	}
	all := append([]string{""}, texts...)
	outs := []string{spec.Unset, spec.Inc, spec.Pass, spec.Fail}
	types := []string{"()", "nat", "int", "real", "enum"}
	for _, a := range all {
		for _, b := range all {
			if r.Full() {
				return
			}
			for oi, o := range outs {
				tree(r, map[string]*spec.Node{a: {ID: b, Outcome: o}})
				tree(r, map[string]*spec.Node{"t": {ID: a, Outcome: o, Tests: []string{b, a}}, a: {Outcome: outs[3-oi], Tests: []string{b}}})
				machine(r, &spec.MSuite{Types: map[string]string{a: "enum", b: types[oi]}, Tests: map[string]*spec.Machine{
					a: {Tests: []string{b}, Types: map[string]string{b: types[oi+1]}, States: []*spec.State{{ID: b, Verdict: map[string]string{a: o}}}},
					b: {Tests: []string{a, "x"}, States: []*spec.State{{ID: a, Verdict: map[string]string{b: o, "z": spec.Inc}}}}}})
			}
		}
	}
	r.Sample("text menu: %q", texts)
	// The words of the sources at every place.
	dict, _ := words.Source(r)
	mc.Par(len(dict), func(i int) {
		for _, d := range []string{dict[i], strings.ToUpper(dict[i])} {
			e := &spec.Ev{Chan: "c", Kind: i % 3, Val: spec.ParseVal(d)}
			if strings.TrimSpace(d) != d {
				e.Val = spec.IntV(1)
			}
			ch := "c"
			if strings.TrimSpace(d) == d && !strings.Contains(d, ".") {
				ch = d
			}
			f := &spec.Ev{Chan: ch, Kind: (i + 1) % 3, Val: e.Val}
			tree(r, map[string]*spec.Node{"t": {Tests: []string{"t"}, Outcome: spec.Inc, Ev: e, Next: []*spec.Node{{ID: d, Tests: []string{"t"}, Outcome: spec.Pass, Ev: f}}}})
			tree(r, map[string]*spec.Node{d: {Tests: []string{d}, Outcome: spec.Unset, Next: []*spec.Node{{ID: d, Tests: []string{"t", d}, Outcome: spec.Pass, Ev: f}, {Tests: []string{d, d}, Outcome: spec.Fail}}}, "u": {Tests: []string{"u"}, Outcome: spec.Unset}})
			machine(r, &spec.MSuite{Types: map[string]string{ch: types[i%5], "z": "int"}, Tests: map[string]*spec.Machine{d: {Tests: []string{d}, Types: map[string]string{ch: "enum"}, States: []*spec.State{
				{ID: d, Verdict: map[string]string{d: spec.Pass, "t": spec.Inc}, Sets: []spec.TrSet{{Chan: ch, Kind: i % 3, Trs: []spec.Tr{{Val: e.Val, Next: d}, {Next: "x"}}}}}, {ID: "x", Verdict: map[string]string{d: spec.Fail}}}}}})
			machine(r, &spec.MSuite{Types: map[string]string{"c": types[i%5]}, Tests: map[string]*spec.Machine{"t": {Tests: []string{"t", d}, States: []*spec.State{{ID: "x", Sets: []spec.TrSet{{Chan: "c", Trs: []spec.Tr{{Val: e.Val, Next: "x"}, {Val: spec.IntV(2), Next: d}}}}}}}, d: {}}})
		}
	})
	// 2. Every small labelled tree, well formed or not.
	size := mc.Pick(r, 3, 4)
	for n := 1; n <= size+1; n++ {
		per := 4 * 3 * 3
		if n == size+1 {
			per = 4 * 2
		}
		count := mc.Pow(per, n)
		for _, sh := range spec.Shapes(n) {
			mc.Par(64, func(c int) {
				seq := make([]int, n)
				for x := c; x < count; x += 64 {
					mc.Decode(x, per, seq)
					tree(r, map[string]*spec.Node{"t": spec.FromShape(sh, func(i int, nd *spec.Node) {
						nd.Outcome = outs[seq[i]%4]
						switch e := seq[i] / 4 % 3; {
						case e == 1:
							nd.Ev = &spec.Ev{Chan: "c", Kind: i % 3, Val: spec.IntV(int64(i))}
						case e == 2:
							nd.Ev = &spec.Ev{Chan: "d", Kind: i % 3}
						}
						switch tg := seq[i] / 12 % 3; {
						case tg == 1:
							nd.Tests = []string{"t"}
							nd.ID = fmt.Sprint("n", i)
						case tg == 2:
							nd.Tests = []string{"u", "t", "u"}
						}
					})})
					if (x/64)%1024 == 0 && (r.Expired() || r.Full()) {
						return
					}
				}
			})
		}
	}
	r.Note("tree_size", size)
	// 3. Every small machine: states with up to two transition sets of up to two transitions, all verdict and test combinations.
	var setMenu [][]spec.TrSet
	trMenu := [][]spec.Tr{nil, {{Next: "a"}}, {{Val: spec.IntV(-3), Next: "b"}}, {{Val: spec.EnumV("e"), Next: "a"}, {Val: spec.IntV(4), Next: ""}}, {{Next: "b"}, {Next: "b"}}}
	chMenu := []spec.TrSet{{Chan: "p", Kind: spec.In}, {Chan: "p", Kind: spec.Out}, {Chan: "q", Kind: spec.Call}}
	setMenu = append(setMenu, nil)
	for _, c := range chMenu {
		for _, t := range trMenu {
			one := spec.TrSet{Chan: c.Chan, Kind: c.Kind, Trs: t}
			setMenu = append(setMenu, []spec.TrSet{one})
			for _, c2 := range chMenu {
				for _, t2 := range trMenu {
					setMenu = append(setMenu, []spec.TrSet{one, {Chan: c2.Chan, Kind: c2.Kind, Trs: t2}})
				}
			}
		}
	}
	var verdicts []map[string]string
	verdicts = append(verdicts, nil)
	for _, o := range outs {
		verdicts = append(verdicts, map[string]string{"t": o})
		for _, o2 := range outs {
			verdicts = append(verdicts, map[string]string{"t": o, "u": o2})
		}
	}
	mc.Par(len(setMenu), func(i int) {
		for j, v := range verdicts {
			for k := range setMenu {
				if k%mc.Pick(r, 16, 1) != (i+j)%mc.Pick(r, 16, 1) && k > 16 {
					continue
				}
				m := &spec.Machine{Types: map[string]string{"p": types[i%5], "q": types[j%5]}, Tests: []string{"t", "u", "v"}[:j%4]}
				m.States = []*spec.State{{ID: "a", Sets: setMenu[i], Verdict: v}, {ID: "b", Sets: setMenu[k], Verdict: verdicts[(i+k)%len(verdicts)]}}
				if k == 0 {
					m.States = m.States[:1]
				}
				s := &spec.MSuite{Types: map[string]string{"p": types[k%5]}, Tests: map[string]*spec.Machine{"m": m}}
				if k == 1 {
					s.Types = nil
					m.Types = nil
				}
				machine(r, s)
			}
			if r.Expired() || r.Full() {
				return
			}
		}
	})
	// 4. Empty suites, empty machines, and large ones.
	tree(r, map[string]*spec.Node{})
	machine(r, &spec.MSuite{Tests: map[string]*spec.Machine{}})
	machine(r, &spec.MSuite{Types: map[string]string{"a": "()"}, Tests: map[string]*spec.Machine{"e": {}}})
	for _, n := range append([]int{10, 100, 1000, mc.Pick(r, 2500, 5000)}, words.Sizes(r, 1200)...) {
		chain := spec.FromShape(spec.Chain(n), func(i int, nd *spec.Node) {
			nd.ID, nd.Tests, nd.Outcome = fmt.Sprint("id", i), []string{fmt.Sprint("t", i%7), "t"}, spec.Inc
			nd.Ev = &spec.Ev{Chan: "c", Kind: i % 3, Val: spec.IntV(int64(i) - 50)}
		})
		tree(r, map[string]*spec.Node{"t": chain})
		wide := spec.FromShape(spec.Star(n), func(i int, nd *spec.Node) {
			nd.Tests, nd.Outcome, nd.Ev = []string{"t"}, spec.Inc, &spec.Ev{Chan: fmt.Sprint("c", i), Kind: i % 3, Val: spec.IntV(int64(-i))}
		})
		tree(r, map[string]*spec.Node{"t": wide})
		m := &spec.Machine{Types: map[string]string{}, Tests: []string{}}
		suite := map[string]*spec.Node{}
		for i := 0; i < n; i++ {
			m.Types[fmt.Sprint("c", i)] = types[i%5]
			m.Tests = append(m.Tests, fmt.Sprint("t", i))
			st := &spec.State{ID: fmt.Sprint("s", i), Verdict: map[string]string{}}
			for j := 0; j < i%12; j++ {
				st.Verdict[fmt.Sprint("t", j)] = outs[(i+j)%4]
				set := spec.TrSet{Chan: fmt.Sprint("c", j), Kind: j % 3}
				for k := 0; k < (i+j)%4; k++ {
					set.Trs = append(set.Trs, spec.Tr{Val: spec.IntV(int64(i * j * k)), Next: fmt.Sprint("s", k)})
				}
				st.Sets = append(st.Sets, set)
			}
			m.States = append(m.States, st)
			suite[fmt.Sprint("t", i)] = &spec.Node{Tests: []string{fmt.Sprint("t", i)}, Outcome: spec.Unset}
		}
		machine(r, &spec.MSuite{Types: m.Types, Tests: map[string]*spec.Machine{"m": m}})
		tree(r, suite)
	}
	r.OutcomeN("test_suites", trees.Load())
	r.OutcomeN("machine_suites", machines.Load())
	tools(r)
	r.OutcomeN("files in other ways of writing JSON", dressed.Load())
	t := trees.Load() + machines.Load() + dressed.Load()
	r.States.Add(t)
	r.Transitions.Add(4 * t)
	r.Validated.Add(t)
}

// tools checks that the tools make the same of every way of writing a file.
func tools(r *mc.R) {
	all := progs.Suite(append(progs.Menu(), progs.Odd()...), 3, false)
	names := make([]string, 0, len(all))
	for n := range all {
		names = append(names, n)
	}
	sort.Slice(names, func(i, j int) bool {
		return len(names[i]) < len(names[j]) || len(names[i]) == len(names[j]) && names[i] < names[j]
	})
	var suites []map[string]*spec.Node
	suites = append(suites, nil, map[string]*spec.Node{"é\u2028 \"<&/": all[names[3]], "t": {Tests: []string{"t"}, Outcome: spec.Unset}})
	per := mc.Pick(r, 40, 8)
	for i, n := range names {
		if i%per == 0 {
			suites = append(suites, map[string]*spec.Node{})
		}
		suites[len(suites)-1][n] = all[n]
	}
	mc.Par(len(suites), func(i int) {
		if r.Full() || r.Expired() {
			return
		}
		sig := fmt.Sprintf("tools, suite %d", i)
		text := spec.EncodeTrees(suites[i])
		base := bb.Run(r, "", string(text), "rtcg-make-stms")
		if base.Code != 0 {
			r.Violate(sig, "rtcg-make-stms: "+base.Err, string(text))
			return
		}
		styles, others := spec.DressTrees(text)
		for k, o := range others {
			dressed.Add(1)
			if res := bb.Run(r, "", string(o), "rtcg-make-stms"); res.Code != 0 || res.Out != base.Out {
				r.Violate(sig+" "+styles[k], fmt.Sprintf("rtcg-make-stms: status %d %s: %s", res.Code, clip(res.Err), genx.FirstDiff(base.Out, res.Out)), string(o))
				return
			}
		}
		if i == 1 {
			return // names for no program
		}
		var tree map[string]string
		styles, others = spec.DressStms([]byte(base.Out))
		for k, o := range append([][]byte{[]byte(base.Out)}, others...) {
			if k > 0 && i > 2 && (i+k)%mc.Pick(r, 8, 2) != 0 {
				continue
			}
			dir := filepath.Join(r.Work, fmt.Sprintf("d%d-%d", i, k))
			cfg := genx.Cfg{Vars: []genx.Var{{Kind: "animate", Makefile: true}, {Kind: "ros", Catkin: true}}}
			_ = os.MkdirAll(dir, 0o755)
			res := bb.Run(r, dir, string(o), "rtcg-gen", cfg.Project(dir, map[string]string{"ros": "// ours\n"}))
			got := genx.Tree(filepath.Join(dir, "out"))
			_ = os.RemoveAll(dir)
			if k == 0 {
				tree = got
			}
			if res.Code != 0 || genx.Diff(tree, got) != "" {
				name := "plain"
				if k > 0 {
					name = styles[k-1]
				}
				r.Violate(sig+" "+name, fmt.Sprintf("rtcg-gen: status %d %s: %s", res.Code, clip(res.Err), genx.Diff(tree, got)), string(o))
				return
			}
			dressed.Add(1)
		}
	})
}
