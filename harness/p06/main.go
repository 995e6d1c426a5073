// P06: the validator accepts exactly the well-formed test trees.
package main

import (
	"fmt"
	"strings"
	"sync/atomic"

	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/validate"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/bb"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/conv"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/mc"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/spec"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/words"
)

var acc, rej atomic.Int64

func one(r *mc.R, n *spec.Node) {
	want := spec.Valid(n)
	judge(r, n, conv.RealNode(n), want, "")
	judge(r, n, conv.Hollow(conv.RealNode(n)), want, " (no list nil)")
	if want {
		acc.Add(1)
	} else {
		rej.Add(1)
	}
}

func judge(r *mc.R, n *spec.Node, real *testlang.Node, want bool, how string) {
	var (
		got *validate.Test
		err error
	)
	if p := mc.Catch(func() { got, err = validate.Full(real) }); p != "" {
		r.Violate("tree "+clip(n.Key())+how, "panic: "+p, nil)
		return
	}
	if (err == nil) != want {
		r.Violate("tree "+clip(n.Key())+how, fmt.Sprintf("accepted: %v (%v), should be %v", err == nil, err, want), nil)
		return
	}
	if want && (got == nil || got.Root() == nil || conv.Node(got.Root()).Key() != n.Key()) {
		r.Violate("tree "+clip(n.Key())+how, "the accepted tree is not passed on unchanged", nil)
	}
}

func clip(s string) string {
	if len(s) > 500 {
		return s[:500] + "..."
	}
	return s
}

func ev(i int) *spec.Ev {
	e := spec.Ev{Chan: []string{"a", "b", "c"}[i%3], Kind: i % 3}
	switch i % 4 {
	case 1:
		e.Val = spec.IntV(int64(i) - 2)
	case 2:
		e.Val = spec.EnumV("x")
	}
	if e.Val.Present { // one type per channel
		e.Chan += fmt.Sprint(i % 4)
	}
	return &e
}

// good makes a well-formed tree of the given shape.
func good(sh []int, outcome []string) *spec.Node {
	return spec.FromShape(sh, func(i int, n *spec.Node) {
		n.Outcome = outcome[i]
		n.Tests = []string{"t"}
		if i%3 == 2 {
			n.Tests = []string{"u", "t"}
		}
		if n.Outcome == spec.Inc || n.Outcome == spec.Pass {
			n.Ev = ev(i)
		}
	})
}

// mutants calls f with every single mutation of n, including ones that keep it well formed.
func mutants(n *spec.Node, f func(m *spec.Node)) {
	spec.Mutations(n, func(_ string, m *spec.Node) { f(m) })
	for i := range n.Nodes() {
		c := n.Clone()
		c.Nodes()[i].Tests = []string{""}
		f(c)
		c = n.Clone()
		c.Nodes()[i].ID = "id"
		f(c)
		c = n.Clone()
		c.Nodes()[i].Tests = []string{"a", "b", "c"}
		f(c)
	}
}

func main() { mc.Main("P06", run) }

func run(r *mc.R) {
	// 1. Every tree up to a size, with every combination of outcome, event or none, tags or none at every node.
	size := mc.Pick(r, 4, 5)
	for n := 1; n <= size; n++ {
		count := mc.Pow(20, n)
		for _, sh := range spec.Shapes(n) {
			mc.Par(256, func(c int) {
				seq := make([]int, n)
				for x := c; x < count; x += 256 {
					mc.Decode(x, 20, seq)
					one(r, spec.FromShape(sh, func(i int, nd *spec.Node) {
						nd.Outcome = []string{spec.Unset, spec.Inc, spec.Fail, spec.Pass, "<<bad>>"}[seq[i]%5]
						if (seq[i]/5)%2 == 1 {
							nd.Ev = ev(i)
						}
						if (seq[i]/10)%2 == 1 {
							nd.Tests = []string{"t"}
						}
					}))
					if (x/256)%4096 == 0 && (r.Expired() || r.Full()) {
						return
					}
				}
			})
		}
	}
	r.Note("full_size", size)
	// 2. Every well-formed tree up to a larger size, with one defect at every place, and with two.
	var goods []*spec.Node
	big := mc.Pick(r, 7, 9)
	for n := 1; n <= big; n++ {
		for _, sh := range spec.Shapes(n) {
			spec.ValidOutcomes(sh, func(o []string) { goods = append(goods, good(sh, o)) })
		}
	}
	two := mc.Pick(r, 5, 7)
	mc.Par(len(goods), func(i int) {
		if r.Expired() || r.Full() {
			return
		}
		one(r, goods[i])
		mutants(goods[i], func(m *spec.Node) {
			one(r, m)
			if goods[i].Size() <= two {
				mutants(m, func(m2 *spec.Node) { one(r, m2) })
			}
		})
	})
	r.Note("valid_trees_up_to", big)
	r.Note("valid_trees", len(goods))
	r.Sample("valid %s", goods[len(goods)/2].Key())
	// The words of the sources as tags, identifiers, channels and values, without and with one defect.
	dict, _ := words.Source(r)
	mc.Par(len(dict), func(i int) {
		d := dict[i]
		g := good([]int{-1, 0, 0, 2, 3}, []string{spec.Unset, spec.Fail, spec.Inc, spec.Pass, spec.Fail})
		for what := 0; what < 5; what++ {
			c := g.Clone()
			for _, nd := range c.Nodes() {
				switch {
				case what == 0 || what == 4:
					nd.Tests = []string{d}
				case what == 1:
					nd.Tests = append([]string{d}, nd.Tests...)
				case what == 2 && nd.ID == "":
					nd.ID = d
				}
				if nd.Ev != nil && what >= 3 {
					if strings.TrimSpace(d) == d && !strings.Contains(d, ".") {
						nd.Ev.Chan = d
					}
					nd.Ev.Val = spec.ParseVal(strings.TrimSpace(d))
				}
			}
			one(r, c)
			mutants(c, func(m *spec.Node) { one(r, m) })
		}
	})
	// 3. Long and wide trees with a defect anywhere.
	var long []*spec.Node
	for _, sh := range [][]int{spec.Chain(40), spec.Chain(70), spec.Star(20), spec.Star(33), spec.Comb(20)} {
		long = append(long, good(sh, spec.SomeOutcomes(sh)))
	}
	mc.Par(len(long), func(i int) {
		one(r, long[i])
		mutants(long[i], func(m *spec.Node) { one(r, m) })
	})
	for _, n := range append([]int{500, 3000}, words.Sizes(r, 3000)...) { // defect at the far end
		if n < 4 {
			continue
		}
		g := good(spec.Chain(n), spec.SomeOutcomes(spec.Chain(n)))
		one(r, g)
		for _, at := range []int{1, n / 2, n - 2, n - 1} {
			c := g.Clone()
			c.Nodes()[at].Tests = nil
			one(r, c)
		}
	}
	// Wide nodes at every depth of a chain: defects below the first, middle and last child, with many siblings waiting.
	for _, w := range append([]int{65, 130, 300, 1100, mc.Pick(r, 5000, 70000)}, words.Sizes(r, 3000)...) {
		g := good([]int{-1, 0, 1, 2}, []string{spec.Unset, spec.Inc, spec.Pass, spec.Fail})
		g.Next = nil
		for i := 0; i < w; i++ {
			g.Next = append(g.Next, good([]int{-1, 0, 1, 2, 3}, []string{spec.Unset, spec.Inc, spec.Inc, spec.Pass, spec.Fail}).Next[0])
		}
		one(r, g)
		for _, at := range []int{0, w / 2, w - 1} {
			for d := 0; d < 4; d++ {
				m := g.Next[at]
				for k := 0; k < d; k++ {
					m = m.Next[0]
				}
				keep := m.Tests
				m.Tests = nil
				one(r, g)
				m.Tests = keep
			}
		}
	}
	r.OutcomeN("accepted", acc.Load())
	r.OutcomeN("rejected", rej.Load())

	// 4. Suites: accepted exactly if every test is, wherever the bad one is.
	bads := []*spec.Node{}
	mutants(good(spec.Star(2), []string{spec.Unset, spec.Inc, spec.Fail, spec.Pass, spec.Fail}), func(m *spec.Node) {
		if !spec.Valid(m) {
			bads = append(bads, m)
		}
	})
	suites := 0
	for k := 0; k <= 4; k++ {
		for mask := 0; mask < 1<<k; mask++ {
			for b := range bads {
				suite := testlang.Suite{}
				want := true
				for i := 0; i < k; i++ {
					n := goods[i]
					if mask>>i&1 == 1 {
						n = bads[b]
						want = false
					}
					suite[fmt.Sprintf("t%d", i)] = conv.RealNode(n)
				}
				got, err := validate.FullSuite(suite)
				suites++
				if (err == nil) != want {
					r.Violate(fmt.Sprintf("suite of %d, bad ones %b (%d)", k, mask, b), fmt.Sprintf("accepted: %v, should be %v", err == nil, want), nil)
				}
				if err == nil {
					for i := 0; i < k; i++ {
						nm := fmt.Sprintf("t%d", i)
						if len(got) != k || got[nm] == nil || got[nm].Root() != suite[nm] {
							r.Violate(fmt.Sprintf("suite of %d", k), "tests lost or mixed up in validation", nil)
						}
					}
				}
				if mask == 0 {
					break
				}
			}
		}
	}
	r.OutcomeN("suites", int64(suites))

	// 5. Through the tool, which must refuse exactly the same trees.
	var tool []map[string]*spec.Node
	for _, g := range goods {
		if g.Size() > mc.Pick(r, 4, 6) {
			continue
		}
		tool = append(tool, map[string]*spec.Node{"t": g})
		mutants(g, func(m *spec.Node) { tool = append(tool, map[string]*spec.Node{"t": m}) })
	}
	for _, b := range bads {
		tool = append(tool, map[string]*spec.Node{"a": goods[1], "b": b, "c": goods[2]}, map[string]*spec.Node{"a": b}, map[string]*spec.Node{"z": b, "a": goods[2]})
	}
	seen := map[string]bool{}
	var uniq []map[string]*spec.Node
	for _, s := range tool {
		k := string(spec.EncodeTrees(s))
		if !seen[k] {
			seen[k] = true
			uniq = append(uniq, s)
		}
	}
	mc.Par(len(uniq), func(i int) {
		if r.Expired() || r.Full() {
			return
		}
		text := string(spec.EncodeTrees(uniq[i]))
		want := true
		for _, n := range uniq[i] {
			want = want && spec.Valid(n)
			if spec.IDsClash(n) {
				return
			}
		}
		if _, _, ok := spec.Types(uniq[i]); !ok {
			return
		}
		// The same trees, written in one of the other ways of writing JSON.
		if names, others := spec.DressTrees([]byte(text)); want || i%8 == 0 {
			k := i % len(others)
			if names[k][0] != 'w' {
				k = 5 + i%3
			}
			res := bb.Run(r, "", string(others[k]), "rtcg-make-stms")
			if (res.Code == 0) != want || res.Crashed() {
				r.Violate("tool "+clip(text)+" "+names[k], fmt.Sprintf("exit status %d (%s), should be accepted: %v", res.Code, clip(res.Err), want), string(others[k]))
				return
			}
			r.Validated.Add(1)
		}
		res := bb.Run(r, "", text, "rtcg-make-stms")
		if (res.Code == 0) != want || res.Crashed() {
			r.Violate("tool "+clip(text), fmt.Sprintf("exit status %d (%s), should be accepted: %v", res.Code, clip(res.Err), want), text)
			return
		}
		if want {
			r.Outcome("tool_accepted")
			suite, err := spec.DecodeStms([]byte(res.Out))
			if err != nil || len(suite.Tests) != len(uniq[i]) {
				r.Violate("tool "+clip(text), "accepted without producing every machine", text)
			}
		} else {
			r.Outcome("tool_refused")
			if res.Out != "" || strings.TrimSpace(res.Err) == "" {
				r.Violate("tool "+clip(text), "refused without a diagnostic, or with output", text)
			}
		}
		r.Validated.Add(1)
	})
	total := acc.Load() + rej.Load()
	r.States.Add(total)
	r.Transitions.Add(total + int64(len(uniq)) + int64(suites))
	r.Validated.Add(total + int64(suites))
}
