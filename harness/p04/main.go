// P04: expanding and collapsing forbidden traces are exact inverses.
package main

import (
	"fmt"
	"reflect"
	"sync/atomic"

	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/conv"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/mc"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/spec"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/words"
)

var alphabet = []spec.Ev{
	{Chan: "a", Kind: spec.In}, {Chan: "a", Kind: spec.Out}, {Chan: "b", Kind: spec.Out, Val: spec.IntV(-1)},
	{Chan: "b", Kind: spec.Out, Val: spec.EnumV("x")}, {Chan: "c", Kind: spec.Call, Val: spec.IntV(7)},
}

// expand checks one trace: the tree expected, and the trace back.
func expand(r *mc.R, t spec.Trace, name string) {
	real := conv.RealTrace(t)
	orig := conv.RealTrace(t)
	sig := fmt.Sprintf("expand %s as %q", clip(t.Key()), name)
	want := spec.Expand(t, name)
	var (
		tree *testlang.Node
		back trace.Forbidden
		err  error
	)
	if p := mc.Catch(func() { tree = real.Expand(name) }); p != "" || tree == nil {
		r.Violate(sig, "no tree: "+p, nil)
		return
	}
	if got := conv.Node(tree); got.Key() != want.Key() {
		r.Violate(sig, fmt.Sprintf("tree is\n%s\nshould be\n%s", clip(got.Key()), clip(want.Key())), nil)
		return
	}
	if !reflect.DeepEqual(real, orig) {
		r.Violate(sig, "expanding changed the trace", nil)
		return
	}
	if p := mc.Catch(func() { back, err = trace.Collapse(tree) }); p != "" || err != nil {
		r.Violate(sig, fmt.Sprintf("does not collapse: %v %s", err, p), nil)
		return
	}
	g := conv.Trace(back)
	g.Name = t.Name
	if g.Key() != t.Key() {
		r.Violate(sig, fmt.Sprintf("collapses to %s", clip(g.Key())), nil)
		return
	}
	if got := conv.Node(tree); got.Key() != want.Key() {
		r.Violate(sig, "collapsing changed the tree", nil)
	}
}

func clip(s string) string {
	if len(s) > 700 {
		return s[:700] + "..."
	}
	return s
}

// collapse checks one arbitrary tree.
func collapse(r *mc.R, n *spec.Node, acc, rej *atomic.Int64) {
	want, ok := spec.Linear(n)
	real := conv.RealNode(n)
	var (
		got trace.Forbidden
		err error
	)
	if p := mc.Catch(func() { got, err = trace.Collapse(real) }); p != "" {
		r.Violate("collapse "+n.Key(), "panic: "+p, nil)
		return
	}
	if (err == nil) != ok {
		r.Violate("collapse "+n.Key(), fmt.Sprintf("accepted: %v (%v), should be %v", err == nil, err, ok), nil)
		return
	}
	if !ok {
		rej.Add(1)
		return
	}
	acc.Add(1)
	if g := conv.Trace(got); g.Key() != want.Key() {
		r.Violate("collapse "+n.Key(), fmt.Sprintf("gives %s, should be %s", g.Key(), want.Key()), nil)
	}
}

func main() { mc.Main("P04", run) }

func run(r *mc.R) {
	// 1. Every trace over a small alphabet up to a length, under several names.
	depth := mc.Pick(r, 6, 8)
	var total atomic.Int64
	for n := 1; n <= depth; n++ {
		count := mc.Pow(len(alphabet), n)
		mc.Par(64, func(c int) {
			seq := make([]int, n)
			for x := c; x < count; x += 64 {
				mc.Decode(x, len(alphabet), seq)
				var t spec.Trace
				for i, s := range seq {
					if i == n-1 {
						t.Forbid = alphabet[s]
					} else {
						t.Prefix = append(t.Prefix, alphabet[s])
					}
				}
				names := []string{"t"}
				if n <= 3 {
					names = []string{"t", "", "test0", "ü \"", "a.b"}
				}
				for _, nm := range names {
					expand(r, t, nm)
					total.Add(1)
				}
			}
		})
		if r.Expired() {
			return
		}
	}
	r.Note("trace_depth", depth)
	// Ladder of lengths, around the sizes at which slices grow.
	for n := 1; n <= mc.Pick(r, 300, 2000); n++ {
		t := spec.Trace{Forbid: spec.Ev{Chan: "z", Kind: n % 3, Val: spec.IntV(int64(n))}}
		for i := 0; i < n; i++ {
			t.Prefix = append(t.Prefix, spec.Ev{Chan: fmt.Sprintf("c%d", i%7), Kind: i % 3, Val: spec.IntV(int64(i))})
		}
		expand(r, t, fmt.Sprintf("long%d", n))
		total.Add(1)
	}
	// Several traces at once: the suite operations treat each test by itself.
	for n := 0; n <= 4; n++ {
		mc.Sequences(len(alphabet), n, func(seq []int) bool {
			in := map[string]trace.Forbidden{}
			var ts []spec.Trace
			for i, s := range seq {
				t := spec.Trace{Forbid: alphabet[s]}
				for j := 0; j < i; j++ {
					t.Prefix = append(t.Prefix, alphabet[seq[j]])
				}
				ts = append(ts, t)
				// The name a trace was given need not be the one it has in the suite.
				rt := conv.RealTrace(t)
				rt.Name = []string{"", "n", fmt.Sprintf("t%d", i), fmt.Sprintf("t%d", (i+1)%n)}[(i+seq[0])%4]
				in[fmt.Sprintf("t%d", i)] = rt
			}
			suite := trace.ExpandAll(in)
			bad := len(suite) != n
			for i, t := range ts {
				nm := fmt.Sprintf("t%d", i)
				bad = bad || suite[nm] == nil || conv.Node(suite[nm]).Key() != spec.Expand(t, nm).Key()
			}
			back, err := trace.CollapseAll(suite)
			bad = bad || err != nil || len(back) != n
			for i, t := range ts {
				bad = bad || conv.Trace(back[fmt.Sprintf("t%d", i)]).Key() != t.Key()
			}
			if bad {
				r.Violate(fmt.Sprintf("suite %v", seq), "expanding or collapsing a suite loses or mixes tests", nil)
			}
			// One bad test makes the whole suite fail.
			for i := range ts {
				nm := fmt.Sprintf("t%d", i)
				keep := suite[nm].Next
				suite[nm].Next = nil
				if _, err := trace.CollapseAll(suite); err == nil {
					r.Violate(fmt.Sprintf("bad suite %v %d", seq, i), "a suite with a truncated test collapsed", nil)
				}
				suite[nm].Next = keep
			}
			total.Add(1)
			return true
		})
	}
	r.OutcomeN("expansions", total.Load())
	r.States.Add(total.Load())
	r.Transitions.Add(2 * total.Load())
	r.Validated.Add(total.Load())
	r.Sample("%s", spec.Expand(spec.Trace{Prefix: alphabet[:2], Forbid: alphabet[2]}, "t").Key())

	// 2. Every small tree: accepted exactly if linear.
	var acc, rej atomic.Int64
	attrs := func(n *spec.Node, x int, i int) {
		n.Outcome = []string{spec.Unset, spec.Inc, spec.Fail, spec.Pass, "<<bad>>"}[x%5]
		if (x/5)%2 == 1 {
			e := spec.Ev{Chan: "a", Kind: i % 3, Val: spec.IntV(int64(i))}
			n.Ev = &e
		}
		if (x/10)%2 == 1 {
			n.Tests = []string{"t"}
		}
	}
	size := mc.Pick(r, 4, 5)
	for n := 1; n <= size+1; n++ {
		shapes := spec.Shapes(n)
		if n == size+1 { // one size further, chains only
			shapes = nil
			chain := []int{-1}
			for i := 0; i+1 < n; i++ {
				chain = append(chain, i)
			}
			shapes = append(shapes, chain)
		}
		count := mc.Pow(20, n)
		for _, sh := range shapes {
			mc.Par(128, func(c int) {
				seq := make([]int, n)
				for x := c; x < count; x += 128 {
					mc.Decode(x, 20, seq)
					collapse(r, spec.FromShape(sh, func(i int, nd *spec.Node) { attrs(nd, seq[i], i) }), &acc, &rej)
					if (x/128)%4096 == 0 && (r.Expired() || r.Full()) {
						return
					}
				}
			})
			if r.Expired() || r.Full() {
				return
			}
		}
	}
	r.Note("tree_size", size)
	// 3. Longer chains by outcome only: with events and tags in place wherever the outcome wants them.
	chainLen := mc.Pick(r, 9, 10)
	for n := 1; n <= chainLen; n++ {
		chain := []int{-1}
		for i := 0; i+1 < n; i++ {
			chain = append(chain, i)
		}
		count := mc.Pow(4, n)
		mc.Par(64, func(c int) {
			seq := make([]int, n)
			for x := c; x < count; x += 64 {
				mc.Decode(x, 4, seq)
				collapse(r, spec.FromShape(chain, func(i int, nd *spec.Node) {
					nd.Tests = []string{"t"}
					nd.Outcome = []string{spec.Unset, spec.Inc, spec.Fail, spec.Pass}[seq[i]]
					if nd.Outcome == spec.Inc || nd.Outcome == spec.Pass {
						e := spec.Ev{Chan: "a", Kind: i % 3, Val: spec.IntV(int64(i))}
						nd.Ev = &e
					}
				}), &acc, &rej)
			}
		})
		if r.Expired() || r.Full() {
			return
		}
	}
	r.Note("chain_length", chainLen)
	// 4. Every single and every double mutation of correct chains.
	for n := 0; n <= mc.Pick(r, 5, 7); n++ {
		t := spec.Trace{Forbid: alphabet[2]}
		for i := 0; i < n; i++ {
			t.Prefix = append(t.Prefix, alphabet[i%len(alphabet)])
		}
		var firsts []*spec.Node
		spec.Mutations(spec.Expand(t, "t"), func(what string, m *spec.Node) { firsts = append(firsts, m) })
		mc.Par(len(firsts), func(i int) {
			collapse(r, firsts[i], &acc, &rej)
			spec.Mutations(firsts[i], func(what string, m *spec.Node) { collapse(r, m, &acc, &rej) })
		})
		if r.Expired() || r.Full() {
			return
		}
	}
	// And single mutations at every place of a long chain.
	for _, n := range append([]int{20, 64, 130}, words.Sizes(r, mc.Pick(r, 300, 1100))...) {
		t := spec.Trace{Forbid: alphabet[2]}
		for i := 0; i < n; i++ {
			t.Prefix = append(t.Prefix, alphabet[i%len(alphabet)])
		}
		var firsts []*spec.Node
		spec.Mutations(spec.Expand(t, "t"), func(what string, m *spec.Node) { firsts = append(firsts, m) })
		mc.Par(len(firsts), func(i int) { collapse(r, firsts[i], &acc, &rej) })
	}
	r.OutcomeN("collapsed", acc.Load())
	r.OutcomeN("refused", rej.Load())
	k := acc.Load() + rej.Load()
	r.States.Add(k)
	r.Transitions.Add(k)
	r.Validated.Add(k)
	r.Sample("refused: root -> fail; root -> inc -> fail; root -> pass -> pass -> fail; accepted: %d linear trees", acc.Load())
}
