// P09: channel types are least upper bounds, independent of order.
package main

import (
	"fmt"
	"math"
	"strings"
	"sync/atomic"

	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/rstype"
	"github.com/UoY-RoboStar/rtcg/internal/validate"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/bb"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/conv"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/maporder"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/mc"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/spec"
	sources "github.com/UoY-RoboStar/rtcg/internal/zzverif/words"
)

var ok, bad, orders atomic.Int64

func clip(s string) string {
	if len(s) > 700 {
		return s[:700] + "..."
	}
	return s
}

// vals is the value menu; the first five are one of each type.
var vals = []spec.Val{spec.None(), spec.IntV(3), spec.IntV(-1), spec.EnumV("e"), spec.IntV(0), spec.IntV(math.MaxInt64), spec.IntV(math.MinInt64), spec.EnumV("f"), spec.EnumV("1.5")}

func key(suite map[string]*spec.Node) string {
	var b strings.Builder
	for i := 0; i < 10; i++ {
		if n := suite[fmt.Sprint("t", i)]; n != nil {
			fmt.Fprintf(&b, "t%d: %s; ", i, n.Key())
		}
	}
	return clip(b.String())
}

func compare(got *spec.MSuite, suite map[string]*spec.Node) string {
	per, all, _ := spec.Types(suite)
	if len(got.Tests) != len(suite) {
		return fmt.Sprintf("%d machines for %d tests", len(got.Tests), len(suite))
	}
	for t, want := range per {
		if got.Tests[t] == nil || !spec.SameTypes(got.Tests[t].Types, want) {
			return fmt.Sprintf("test %s has types %v, should be %s", t, got.Tests[t], spec.TypesKey(want))
		}
	}
	if !spec.SameTypes(got.Types, all) {
		return fmt.Sprintf("the suite has types %s, should be %s", spec.TypesKey(got.Types), spec.TypesKey(all))
	}
	return ""
}

// build runs the real builder on a suite.
func build(suite map[string]*spec.Node) (s *stm.Suite, err error, panicked string) {
	panicked = mc.Catch(func() {
		real := testlang.Suite{}
		for i := 0; i < 10; i++ { // always in the same insertion order
			if n := suite[fmt.Sprint("t", i)]; n != nil {
				real[fmt.Sprint("t", i)] = conv.RealNode(n)
			}
		}
		var v validate.Suite
		if v, err = validate.FullSuite(real); err != nil {
			return
		}
		var b stm.Builder
		s, err = b.BuildSuite(v)
	})
	return s, err, panicked
}

func judge(r *mc.R, suite map[string]*spec.Node, got *stm.Suite, err error, p, how string) bool {
	_, _, want := spec.Types(suite)
	switch {
	case p != "":
		r.Violate("suite "+key(suite), "panic "+how+": "+p, nil)
	case (err == nil) != want:
		r.Violate("suite "+key(suite), fmt.Sprintf("accepted%s: %v (%v), should be %v", how, err == nil, err, want), nil)
	case err == nil:
		ok.Add(1)
		if why := compare(conv.MSuite(got), suite); why != "" {
			r.Violate("suite "+key(suite), why+how, nil)
			return false
		}
		return true
	default:
		bad.Add(1)
		return true
	}
	return false
}

func one(r *mc.R, suite map[string]*spec.Node) {
	got, err, p := build(suite)
	judge(r, suite, got, err, p, "")
}

// ordered runs a suite under controlled map orders.
func ordered(r *mc.R, suite map[string]*spec.Node, deviations int) {
	runs := maporder.Explore(deviations, 4, func(plan []maporder.Choice) ([]int, bool) {
		var (
			got *stm.Suite
			err error
			p   string
		)
		log := maporder.InProcess(0, plan, func() {
			got, err, p = build(suite)
		})
		return log, judge(r, suite, got, err, p, fmt.Sprintf(" with map orders %v", plan))
	})
	orders.Add(int64(runs))
}

// chain is the linear test of a word.
func chain(tag string, evs []spec.Ev) *spec.Node {
	if len(evs) == 0 {
		return &spec.Node{Tests: []string{tag}, Outcome: spec.Unset}
	}
	return spec.Expand(spec.Trace{Prefix: evs[:len(evs)-1], Forbid: evs[len(evs)-1]}, tag)
}

func main() { mc.Main("P09", run) }

func run(r *mc.R) {
	laws(r)
	// 1. Every sequence of values on one channel, and on two, in linear tests, whatever the directions.
	n1, n2 := mc.Pick(r, 5, 6), mc.Pick(r, 4, 5)
	r.Note("length_one_channel", n1)
	r.Note("length_two_channels", n2)
	words := func(k, n int, ev func(s, i int) spec.Ev) {
		for l := 0; l <= n; l++ {
			count := mc.Pow(k, l)
			mc.Par(64, func(c int) {
				seq := make([]int, l)
				for x := c; x < count; x += 64 {
					mc.Decode(x, k, seq)
					evs := make([]spec.Ev, l)
					for i, s := range seq {
						evs[i] = ev(s, i)
					}
					one(r, map[string]*spec.Node{"t0": chain("t", evs)})
					if (x/64)%1024 == 0 && (r.Expired() || r.Full()) {
						return
					}
				}
			})
		}
	}
	words(len(vals), n1, func(s, i int) spec.Ev { return spec.Ev{Chan: "c", Kind: (s + i) % 3, Val: vals[s]} })
	words(2*6, n2, func(s, i int) spec.Ev { return spec.Ev{Chan: []string{"c", "d"}[s%2], Kind: i % 2, Val: vals[s/2]} })
	// The words of the sources as channels and values.
	dict, _ := sources.Source(r)
	mc.Par(len(dict), func(i int) {
		d := dict[i]
		if strings.TrimSpace(d) != d {
			return
		}
		for _, v := range append([]spec.Val{spec.ParseVal(d)}, vals...) {
			one(r, map[string]*spec.Node{"t0": chain("t", []spec.Ev{{Chan: "c", Kind: 1, Val: spec.ParseVal(d)}, {Chan: "c", Kind: 1, Val: v}, {Chan: "b", Val: v}})})
			if !strings.Contains(d, ".") {
				one(r, map[string]*spec.Node{"t0": chain(d, []spec.Ev{{Chan: d, Kind: i % 3, Val: v}, {Chan: "c", Kind: 1}})})
				one(r, map[string]*spec.Node{"t0": chain("t", []spec.Ev{{Chan: "c", Kind: 1}, {Chan: d, Kind: i % 3, Val: spec.IntV(-4)}, {Chan: "b", Val: v}, {Chan: d, Kind: i % 3, Val: v}})})
			}
		}
	})
	// Long tests, the value that decides at one end; many channels.
	for _, n := range append([]int{2, 50, 64, 65, 100, 129, 257, 1000}, sources.Sizes(r, 1000)...) {
		for _, v := range vals[:4] {
			for _, w := range vals[:4] {
				evs := make([]spec.Ev, n)
				for _, at := range []int{0, n / 2, n - 1} {
					for i := range evs {
						evs[i] = spec.Ev{Chan: "c", Kind: i % 3, Val: v}
					}
					evs[at].Val = w
					one(r, map[string]*spec.Node{"t0": chain("t", evs)})
				}
				for i := range evs {
					evs[i] = spec.Ev{Chan: fmt.Sprint("c", i), Kind: i % 3, Val: vals[i%len(vals)]}
				}
				one(r, map[string]*spec.Node{"t0": chain("t", append(append([]spec.Ev{}, evs...), spec.Ev{Chan: "d", Val: v})), "t1": chain("t", append([]spec.Ev{{Chan: "d", Val: w}}, evs...))})
			}
		}
	}
	// 2. Branching tests: every shape and outcome assignment, every choice of four types of value.
	size := mc.Pick(r, 6, 7)
	for n := 2; n <= size; n++ {
		for _, sh := range spec.Shapes(n) {
			spec.ValidOutcomes(sh, func(o []string) {
				out := append([]string{}, o...)
				var live []int
				for i, x := range out {
					if x == spec.Inc || x == spec.Pass {
						live = append(live, i)
					}
				}
				count := mc.Pow(5, len(live))
				mc.Par(8, func(c int) {
					seq := make([]int, len(live))
					for x := c; x < count; x += 8 {
						mc.Decode(x, 5, seq)
						for chans := 1; chans <= 2; chans++ {
							pick := map[int]int{}
							for i, at := range live {
								pick[at] = seq[i]
							}
							one(r, map[string]*spec.Node{"t0": spec.FromShape(sh, func(i int, nd *spec.Node) {
								nd.Outcome, nd.Tests = out[i], []string{"t"}
								if nd.Outcome == spec.Inc || nd.Outcome == spec.Pass {
									nd.Ev = &spec.Ev{Chan: fmt.Sprint("c", i%chans), Kind: i % 3, Val: vals[pick[i]]}
								}
							})})
						}
					}
				})
			})
			if r.Expired() || r.Full() {
				return
			}
		}
	}
	r.Note("branching_size", size)
	// 3. Suites under every map order. A channel of a test carries nothing, or one of the five sorts of value.
	mk := func(c1, c2 int) *spec.Node {
		var evs []spec.Ev
		for i, c := range []int{c1, c2} {
			if c > 0 {
				evs = append(evs, spec.Ev{Chan: []string{"c", "d"}[i], Kind: i, Val: vals[c-1]})
			}
		}
		if len(evs) == 0 {
			evs = append(evs, spec.Ev{Chan: "other", Kind: 1})
		}
		return chain("t", evs)
	}
	const sorts = 5
	for x := 0; x < mc.Pow(sorts, 3); x++ { // three tests, one channel, all orders at once
		seq := make([]int, 3)
		mc.Decode(x, sorts, seq)
		ordered(r, map[string]*spec.Node{"t0": mk(seq[0], 0), "t1": mk(seq[1], 0), "t2": mk(seq[2], 0)}, 99)
		if r.Expired() || r.Full() {
			return
		}
	}
	for x := 0; x < mc.Pow(sorts, 4); x++ { // two tests, two channels, all orders at once
		seq := make([]int, 4)
		mc.Decode(x, sorts, seq)
		ordered(r, map[string]*spec.Node{"t0": mk(seq[0], seq[1]), "t1": mk(seq[2], seq[3])}, 99)
		if r.Expired() || r.Full() {
			return
		}
	}
	for x := 0; x < mc.Pow(sorts, 6); x++ { // three tests, two channels
		seq := make([]int, 6)
		mc.Decode(x, sorts, seq)
		ordered(r, map[string]*spec.Node{"t0": mk(seq[0], seq[1]), "t1": mk(seq[2], seq[3]), "t2": mk(seq[4], seq[5])}, mc.Pick(r, 1, 2))
		if r.Expired() || r.Full() {
			return
		}
	}
	r.OutcomeN("map_orders_run", orders.Load())
	// 4. Through the tool: consistent suites, several at once under different channel names; inconsistent ones alone.
	type suite = map[string]*spec.Node
	var good, wrong []suite
	for x := 0; x < mc.Pow(sorts, 6); x += mc.Pick(r, 7, 1) {
		seq := make([]int, 6)
		mc.Decode(x, sorts, seq)
		s := suite{"t0": mk(seq[0], seq[1]), "t1": mk(seq[2], seq[3]), "t2": mk(seq[4], seq[5])}
		if _, _, ok := spec.Types(s); ok {
			good = append(good, s)
		} else if len(wrong) < mc.Pick(r, 400, 4000) {
			wrong = append(wrong, s)
		}
	}
	const per = 60
	mc.Par((len(good)+per-1)/per, func(c int) {
		big := suite{}
		for i := c * per; i < (c+1)*per && i < len(good); i++ {
			for name, n := range good[i] {
				n = n.Clone()
				for _, nd := range n.Nodes() {
					if nd.Ev != nil {
						nd.Ev.Chan = fmt.Sprintf("%s%d", nd.Ev.Chan, i)
					}
				}
				big[fmt.Sprintf("%s_%d", name, i)] = n
			}
		}
		tool(r, big, c%4)
	})
	mc.Par(len(wrong), func(i int) {
		for mode := 0; mode < 3; mode++ {
			tool(r, wrong[i], mode)
		}
	})
	r.Sample("suite %s", key(good[len(good)/2]))
	r.Sample("refused suite %s", key(wrong[len(wrong)/2]))
	r.OutcomeN("well_typed", ok.Load())
	r.OutcomeN("refused", bad.Load())
	r.States.Add(ok.Load() + bad.Load())
	r.Transitions.Add(ok.Load() + bad.Load())
	r.Validated.Add(ok.Load() + bad.Load())
}

func tool(r *mc.R, suite map[string]*spec.Node, mode int) {
	if r.Expired() || r.Full() {
		return
	}
	text := string(spec.EncodeTrees(suite))
	sh, err := maporder.NewShared(r.Work, fmt.Sprintf("m%d", seq.Add(1)))
	if err != nil {
		r.Broken("shared buffer: %v", err)
		return
	}
	defer sh.Close()
	sh.Buf.Set(mode, nil)
	res := bb.RunEnv(r, "", []string{sh.Env()}, strings.NewReader(text), r.Opts["maporder"]+"/rtcg-make-stms")
	_, _, want := spec.Types(suite)
	if (res.Code == 0) != want || res.Crashed() {
		r.Violate("tool "+clip(text), fmt.Sprintf("exit status %d (%s), should be accepted: %v", res.Code, clip(res.Err), want), text)
		return
	}
	r.Validated.Add(1)
	if !want {
		if res.Out != "" || res.Err == "" {
			r.Violate("tool "+clip(text), "refused with output, or without a diagnostic", text)
		}
		r.Outcome("tool_refused")
		return
	}
	r.Outcome("tool_accepted")
	got, err := spec.DecodeStms([]byte(res.Out))
	if err != nil {
		r.Violate("tool "+clip(text), "output: "+err.Error(), text)
	} else if why := compare(got, suite); why != "" {
		r.Violate("tool "+clip(text), why, text)
	}
}

var seq atomic.Int64

// laws checks unification itself on all pairs and triples of types.
func laws(r *mc.R) {
	names := []string{"<<nil>>", "()", "enum", "nat", "int", "real"}
	lub := func(a, b string) string {
		num := map[string]int{"nat": 1, "int": 2, "real": 3}
		switch {
		case a == "!" || b == "!":
			return "!"
		case a == "<<nil>>":
			return b
		case b == "<<nil>>", a == b:
			return a
		case num[a] > 0 && num[b] > 0:
			if num[a] > num[b] {
				return a
			}
			return b
		}
		return "!"
	}
	unify := func(a, b *rstype.RsType) (*rstype.RsType, string) {
		var (
			t   *rstype.RsType
			err error
		)
		before := conv.Type(a) + conv.Type(b)
		if p := mc.Catch(func() { t, err = rstype.Unify(a, b) }); p != "" {
			return nil, "panic " + p
		}
		if conv.Type(a)+conv.Type(b) != before {
			return t, "changed its arguments"
		}
		if err != nil {
			return nil, "!"
		}
		return t, conv.Type(t)
	}
	for _, a := range names {
		for _, b := range names {
			ta, tb := conv.RealType(a), conv.RealType(b)
			ab, got := unify(ta, tb)
			if want := lub(a, b); got != want {
				r.Violate("unify "+a+" "+b, "gives "+got+", should be "+want, nil)
			}
			r.States.Add(1)
			for _, c := range names {
				if lub(a, b) == "!" {
					continue
				}
				_, got := unify(ab, conv.RealType(c))
				if want := lub(lub(a, b), c); got != want {
					r.Violate("unify ("+a+" "+b+") "+c, "gives "+got+", should be "+want, nil)
				}
				if conv.Type(ta) != a && a != "<<nil>>" || conv.Type(tb) != b && b != "<<nil>>" {
					r.Violate("unify ("+a+" "+b+") "+c, "changes the types it was given", nil)
				}
				r.States.Add(1)
				r.Transitions.Add(2)
			}
		}
	}
}
