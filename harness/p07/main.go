// P07: a generated state machine mirrors its test tree exactly.
package main

import (
	"fmt"
	"strings"
	"sync/atomic"

	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/validate"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/bb"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/conv"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/mc"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/spec"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/words"
)

var built, refused, edges atomic.Int64

func clip(s string) string {
	if len(s) > 700 {
		return s[:700] + "..."
	}
	return s
}

// one builds one tree on b, which may have built others before.
func one(r *mc.R, b *stm.Builder, n *spec.Node) {
	want := !spec.IDsClash(n)
	var (
		m    stm.Stm
		berr error
	)
	p := mc.Catch(func() {
		v, err := validate.Full(conv.RealNode(n))
		if err != nil {
			berr = err
			return
		}
		m, berr = b.Build(v)
	})
	sig := "tree " + clip(n.Key())
	switch {
	case p != "":
		*b = stm.Builder{}
		r.Violate(sig, "panic: "+p, nil)
	case (berr == nil) != want:
		r.Violate(sig, fmt.Sprintf("built: %v (%v), should be %v", berr == nil, berr, want), nil)
	case berr != nil:
		refused.Add(1)
	default:
		got := conv.Machine(&m)
		if bad := spec.Mirror(n, got); bad != "" {
			r.Violate(sig, bad+"; got "+clip(got.Key()), nil)
		}
		built.Add(1)
		for _, s := range got.States {
			for _, t := range s.Sets {
				edges.Add(int64(len(t.Trs)))
			}
		}
	}
}

// events has one value type per channel, so that every tree over it has consistent types.
var events = []spec.Ev{
	{Chan: "a", Kind: spec.In, Val: spec.IntV(1)}, {Chan: "a", Kind: spec.In, Val: spec.IntV(2)}, {Chan: "a", Kind: spec.Out, Val: spec.IntV(1)},
	{Chan: "b", Kind: spec.Out, Val: spec.EnumV("e")}, {Chan: "b", Kind: spec.Out, Val: spec.EnumV("f")}, {Chan: "c", Kind: spec.Out}, {Chan: "c", Kind: spec.In}, {Chan: "b", Kind: spec.Call, Val: spec.EnumV("e")},
}

var tagMenu = [][]string{{"t"}, {"u"}, {"t", "u"}, {"u", "t", "u"}, {"v"}, {""}}

var idMenu = []string{"", "step0", "step1", "initial", "x", "step", "step2", "step00"}

// fill makes a valid tree: picks gives each node its event, tags and identifier.
func fill(sh []int, outcome []string, ev, tag, id func(i int) int) *spec.Node {
	return spec.FromShape(sh, func(i int, n *spec.Node) {
		n.Outcome = outcome[i]
		n.Tests = tagMenu[tag(i)]
		n.ID = idMenu[id(i)]
		if n.Outcome == spec.Inc || n.Outcome == spec.Pass {
			e := events[ev(i)]
			n.Ev = &e
		}
	})
}

type job struct {
	sh  []int
	out []string
}

func jobs(from, to int) []job {
	var js []job
	for n := from; n <= to; n++ {
		for _, sh := range spec.Shapes(n) {
			spec.ValidOutcomes(sh, func(o []string) { js = append(js, job{sh, append([]string{}, o...)}) })
		}
	}
	return js
}

func main() { mc.Main("P07", run) }

func run(r *mc.R) {
	// each enumerates every choice of one attribute (0..k-1 per node that has it), the others derived from it.
	each := func(js []job, k int, has func(o string) bool, mk func(j job, pick []int) *spec.Node) int {
		var count atomic.Int64
		mc.Par(len(js), func(x int) {
			j := js[x]
			var idx []int
			for i, o := range j.out {
				if has(o) {
					idx = append(idx, i)
				}
			}
			var b stm.Builder
			pick := make([]int, len(j.out))
			mc.Sequences(k, len(idx), func(seq []int) bool {
				for i, at := range idx {
					pick[at] = seq[i]
				}
				n := mk(j, pick)
				if n != nil && !spec.VerdictsClash(n) {
					one(r, &b, n)
				}
				return count.Add(1)%4096 != 0 || !(r.Expired() || r.Full())
			})
		})
		return int(count.Load())
	}
	live := func(o string) bool { return o == spec.Inc || o == spec.Pass }
	any := func(o string) bool { return true }
	zero := func(int) int { return 0 }
	// 1. All events on every shape and outcome assignment; tags follow the position.
	ne := mc.Pick(r, 6, 7)
	r.Note("trees_all_events", each(jobs(1, ne), len(events), live, func(j job, p []int) *spec.Node {
		return fill(j.sh, j.out, func(i int) int { return p[i] }, func(i int) int {
			// siblings with different outcomes must not share a test
			switch j.out[i] {
			case spec.Pass:
				return 0
			case spec.Inc:
				return 1
			}
			return 4
		}, zero)
	}))
	r.Note("size_all_events", ne)
	// 2. All tags.
	nt := mc.Pick(r, 6, 7)
	r.Note("trees_all_tags", each(jobs(1, nt), len(tagMenu), any, func(j job, p []int) *spec.Node {
		return fill(j.sh, j.out, func(i int) int { return (i*3 + p[i]) % len(events) }, func(i int) int { return p[i] }, zero)
	}))
	// 3. All identifiers, given or not, the root's and the failing nodes' included.
	ni := mc.Pick(r, 5, 6)
	r.Note("trees_all_identifiers", each(jobs(1, ni), len(idMenu), any, func(j job, p []int) *spec.Node {
		return fill(j.sh, j.out, func(i int) int { return i % len(events) }, func(i int) int {
			if j.out[i] == spec.Pass {
				return 0
			}
			return 1
		}, func(i int) int { return p[i] })
	}))
	// 4. Every larger shape with every outcome assignment.
	ns := mc.Pick(r, 10, 12)
	js := jobs(1, ns)
	tags := func(j job) func(i int) int {
		return func(i int) int {
			if j.out[i] == spec.Pass {
				return 0
			}
			return 1
		}
	}
	mc.Par(64, func(c int) {
		var b stm.Builder
		for x := c; x < len(js); x += 64 {
			j := js[x]
			for rot := 0; rot < 3; rot++ {
				if n := fill(j.sh, j.out, func(i int) int { return (i + rot*3) % len(events) }, tags(j), zero); !spec.VerdictsClash(n) {
					one(r, &b, n)
				}
				if n := fill(j.sh, j.out, func(i int) int { return rot }, tags(j), func(i int) int { return (i % 5) * (i % 2) * rot % len(idMenu) }); !spec.VerdictsClash(n) {
					one(r, &b, n)
				}
			}
			if r.Expired() || r.Full() {
				return
			}
		}
	})
	r.Note("shape_size", ns)
	// 4b. The words of the sources as tags, identifiers, channels and values.
	dict, _ := words.Source(r)
	mc.Par(len(dict), func(x int) {
		d := dict[x]
		var b stm.Builder
		for _, j := range []job{{spec.Chain(4), []string{spec.Unset, spec.Inc, spec.Pass, spec.Fail}}, {spec.Comb(3), spec.SomeOutcomes(spec.Comb(3))}} {
			for what := 0; what < 8; what++ {
				n := fill(j.sh, j.out, func(i int) int { return i % len(events) }, tags(j), zero)
				for i, nd := range n.Nodes() {
					switch {
					case what == 0:
						nd.Tests = []string{d}
					case what == 1:
						nd.Tests = append(nd.Tests, d)
					case what == 2 && i == 1, what == 3 && i == 2:
						nd.ID = d
					case what == 4:
						nd.ID = d + fmt.Sprint(i)
					}
					if nd.Ev != nil && what >= 5 {
						if what != 6 && strings.TrimSpace(d) == d && !strings.Contains(d, ".") {
							nd.Ev.Chan = d
						}
						if what != 5 {
							nd.Ev.Val = spec.ParseVal(strings.TrimSpace(d))
						}
					}
				}
				if !spec.VerdictsClash(n) && !spec.IDsClash(n) {
					one(r, &b, n)
				}
			}
		}
	})
	// 5. Large trees: identifiers past step9, step99, step999; wide branching; given identifiers in the way.
	for _, n := range append([]int{12, 13, 40, 101, 130, 1003, mc.Pick(r, 1100, 4000)}, words.Sizes(r, 1200)...) {
		for _, sh := range [][]int{spec.Chain(n), spec.Star(n / 2), spec.Comb(n / 2)} {
			j := job{sh, spec.SomeOutcomes(sh)}
			var b stm.Builder
			for v := 0; v < 4; v++ {
				tree := fill(sh, j.out, func(i int) int { return (i * (v + 1)) % len(events) }, tags(j), zero)
				nodes := tree.Nodes()
				for i, nd := range nodes {
					switch {
					case v == 1 && i%7 == 3:
						nd.ID = fmt.Sprint("step", i/2)
					case v == 2 && i > 0:
						nd.ID = fmt.Sprint("step", len(nodes)-i)
					case v == 3:
						nd.Tests = append([]string{fmt.Sprint("t", i)}, nd.Tests...)
					}
				}
				if !spec.VerdictsClash(tree) {
					one(r, &b, tree)
				}
			}
		}
	}
	// 5a. More nodes than small counters can count.
	for _, n := range []int{33000, 66000} {
		var b stm.Builder
		tree := &spec.Node{Tests: []string{"t"}}
		for i := 0; i < n; i++ {
			e := events[0]
			e.Val = spec.IntV(int64(i))
			tree.Next = append(tree.Next, &spec.Node{Outcome: spec.Pass, Tests: []string{"t"}, Ev: &e, Next: []*spec.Node{{Outcome: spec.Fail, Tests: []string{"t"}}}})
		}
		one(r, &b, tree)
	}
	// 5c. States with many channels, each of them used again after all the others.
	for _, n := range append([]int{5, 8, 9, 12, 16, 17, 32, 33, 64, 65, 100, 129, 257}, words.Sizes(r, 300)...) {
		for v := 0; v < 6; v++ {
			var b stm.Builder
			tree := &spec.Node{Tests: []string{"t"}}
			for i := 0; i < 2*n+3; i++ {
				c := i % n
				if v%2 == 1 && i >= n { // in the opposite order
					c = n - 1 - i%n
				}
				e := spec.Ev{Chan: fmt.Sprint("c", c), Kind: spec.Out, Val: spec.IntV(int64(i))}
				switch v / 2 {
				case 1:
					e.Chan, e.Kind = fmt.Sprint("c", c/2), []int{spec.In, spec.Out, spec.Call}[c%2]
				case 2:
					e.Chan, e.Kind = fmt.Sprint("c", c/3), []int{spec.In, spec.Out, spec.Call}[c%3]
				}
				tree.Next = append(tree.Next, &spec.Node{Outcome: spec.Pass, Tests: []string{"t"}, Ev: &e, Next: []*spec.Node{{Outcome: spec.Fail, Tests: []string{"t"}}}})
			}
			one(r, &b, tree)
		}
	}
	// 5b. Many tests on one node, on one kind of node at a time or on all; listed repeatedly; shared or each its own.
	for _, n := range append([]int{2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, mc.Pick(r, 1025, 5000)}, words.Sizes(r, 1200)...) {
		for _, j := range []job{{spec.Chain(4), []string{spec.Unset, spec.Inc, spec.Pass, spec.Fail}}, {spec.Comb(3), spec.SomeOutcomes(spec.Comb(3))}, {spec.Star(3), spec.SomeOutcomes(spec.Star(3))}} {
			for who := -1; who < len(j.sh); who++ {
				for v := 0; v < 4; v++ {
					var b stm.Builder
					tree := fill(j.sh, j.out, func(i int) int { return i % len(events) }, tags(j), zero)
					for i, nd := range tree.Nodes() {
						if who >= 0 && i != who {
							continue
						}
						nd.Tests = nil
						for k := 0; k < n; k++ {
							switch v {
							case 0:
								nd.Tests = append(nd.Tests, fmt.Sprint("s", k))
							case 1:
								nd.Tests = append(nd.Tests, fmt.Sprint(nd.Outcome, k))
							case 2:
								nd.Tests = append(nd.Tests, fmt.Sprint(nd.Outcome, i, "-", k/2))
							case 3:
								nd.Tests = append([]string{fmt.Sprint(nd.Outcome, k%(n/2+1))}, nd.Tests...)
							}
						}
					}
					if !spec.VerdictsClash(tree) {
						one(r, &b, tree)
					}
				}
			}
		}
	}
	// 6. Through the tool, many trees per suite.
	var batch []*spec.Node
	step := mc.Pick(r, 7, 1)
	seen := 0
	for x, j := range js {
		if len(j.sh) > 8 {
			break
		}
		if len(j.sh) > 5 && x%step != 0 {
			continue
		}
		for rot := 0; rot < 4; rot++ {
			n := fill(j.sh, j.out, func(i int) int { return (i*(rot%2+1) + rot*3) % len(events) }, tags(j), func(i int) int {
				if rot == 3 && i == len(j.sh)/2 {
					return 1 + x%4
				}
				return 0
			})
			if !spec.VerdictsClash(n) && !spec.IDsClash(n) {
				batch = append(batch, n)
				seen++
			}
		}
	}
	const per = 150
	mc.Par((len(batch)+per-1)/per, func(c int) {
		if r.Expired() || r.Full() {
			return
		}
		part := batch[c*per:]
		if len(part) > per {
			part = part[:per]
		}
		tool(r, part)
	})
	for i := 0; i < len(batch) && i < 40; i++ { // suites of one
		tool(r, batch[i*7%len(batch):][:1])
	}
	r.Note("trees_through_the_tool", seen)
	r.Sample("tree %s", batch[len(batch)/2].Key())
	r.OutcomeN("machines", built.Load())
	r.OutcomeN("refused_identifiers", refused.Load())
	r.States.Add(built.Load() + refused.Load())
	r.Transitions.Add(edges.Load())
	r.Validated.Add(built.Load() + refused.Load())
}

func tool(r *mc.R, part []*spec.Node) {
	suite := map[string]*spec.Node{}
	for i, n := range part {
		suite[fmt.Sprint("t", i)] = n
	}
	text := string(spec.EncodeTrees(suite))
	res := bb.Run(r, "", text, "rtcg-make-stms")
	if res.Code != 0 || res.Crashed() {
		r.Violate("tool "+clip(text), fmt.Sprintf("exit status %d: %s", res.Code, clip(res.Err)), text)
		return
	}
	got, err := spec.DecodeStms([]byte(res.Out))
	if err != nil || len(got.Tests) != len(part) {
		r.Violate("tool "+clip(text), fmt.Sprintf("output %v: %s", err, clip(res.Out)), text)
		return
	}
	for i, n := range part {
		m := got.Tests[fmt.Sprint("t", i)]
		if m == nil {
			r.Violate("tool tree "+clip(n.Key()), "no machine under the test's name", text)
		} else if bad := spec.Mirror(n, m); bad != "" {
			r.Violate("tool tree "+clip(n.Key()), bad+"; got "+clip(m.Key()), text)
		}
		r.Validated.Add(1)
	}
}
