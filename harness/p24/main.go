// P24: traversals visit every node once and in order; traces, sets, stacks and verdicts behave as such.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/stm/transition"
	"github.com/UoY-RoboStar/rtcg/internal/stm/verdict"
	"github.com/UoY-RoboStar/rtcg/internal/structure"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/channel"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/conv"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/maporder"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/mc"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/spec"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/words"
)

func main() { mc.Main("P24", run) }

func run(r *mc.R) {
	if !maporder.Works() {
		r.Broken("map orders are not under control")
		return
	}
	for _, part := range []func(*mc.R){walks, traces, stacks, sets, maps, verdicts, printed} {
		if r.Full() || r.Expired() {
			return
		}
		part(r)
	}
}

func step(r *mc.R) {
	r.States.Add(1)
	r.Transitions.Add(1)
	r.Validated.Add(1)
}

var errStop = errors.New("stop")

// walk checks the walks over one tree, stopping at each of the given places.
func walk(r *mc.R, tree *spec.Node, what string, stops []int) {
	n := tree.Size()
	var want []string
	for _, nd := range tree.Nodes() {
		want = append(want, string(nd.ID))
	}
	before := tree.Key()
	for _, stop := range stops {
		real := conv.RealNode(tree)
		var got []string
		var err error
		sig := fmt.Sprintf("walk over %s, stopping at %d", what, stop)
		if p := mc.Catch(func() {
			err = testlang.Walk(real, func(nd *testlang.Node) error {
				got = append(got, string(nd.ID))
				if len(got) == stop+1 {
					return errStop
				}
				if len(got) > n+10 {
					return errors.New("too many")
				}
				return nil
			})
		}); p != "" {
			r.Violate(sig, "panic: "+p, nil)
			return
		}
		wanted := want
		if stop < n {
			wanted = want[:stop+1]
		}
		if (stop < n) != errors.Is(err, errStop) || stop >= n && err != nil {
			r.Violate(sig, fmt.Sprintf("gives error %v", err), nil)
			return
		}
		if strings.Join(got, " ") != strings.Join(wanted, " ") {
			r.Violate(sig, clip(fmt.Sprintf("visits %v, should visit %v", got, wanted)), nil)
			return
		}
		if conv.Node(real).Key() != before {
			r.Violate(sig, "changes the tree", nil)
			return
		}
		step(r)
	}
	// The nodes visited are those of the tree, not copies.
	real := conv.RealNode(tree)
	i := 0
	_ = testlang.Walk(real, func(nd *testlang.Node) error {
		nd.ID = testlang.NodeID(fmt.Sprint("m", i))
		i++
		return nil
	})
	for i, nd := range conv.Node(real).Nodes() {
		if nd.ID != fmt.Sprint("m", i) {
			r.Violate("walk over "+what, fmt.Sprintf("a change to node %d while walking is lost", i), nil)
			return
		}
	}
	for _, tags := range [][]string{nil, {"a"}, {"b", "a", "b"}} {
		real := conv.RealNode(tree)
		testlang.MarkAll(real, tags...)
		marked := tree.Clone()
		for _, nd := range marked.Nodes() {
			nd.Tests = tags
		}
		if got := conv.Node(real).Key(); got != marked.Key() {
			r.Violate(fmt.Sprintf("marking %s with %v", what, tags), clip("gives "+got), nil)
			return
		}
		step(r)
	}
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

func label(sh []int) *spec.Node {
	return spec.FromShape(sh, func(i int, nd *spec.Node) {
		nd.ID = fmt.Sprint("n", i)
		nd.Tests = []string{"old"}
		nd.Outcome = []string{spec.Inc, spec.Pass, spec.Fail, spec.Unset}[i%4]
		if i%3 != 0 {
			nd.Ev = &spec.Ev{Chan: "c", Kind: i % 3, Val: spec.IntV(int64(i))}
		}
	})
}

func walks(r *mc.R) {
	max := mc.Pick(r, 9, 11)
	trees := 0
	for n := 1; n <= max; n++ {
		shapes := spec.Shapes(n)
		trees += len(shapes)
		stops := make([]int, n+1)
		for i := range stops {
			stops[i] = i
		}
		mc.Par(len(shapes), func(i int) {
			if !r.Full() && !r.Expired() {
				walk(r, label(shapes[i]), fmt.Sprint("the tree ", shapes[i]), stops)
			}
		})
	}
	r.OutcomeN("trees walked", int64(trees))
	for _, n := range append([]int{64, 65, 100, 129, 257, 1000, mc.Pick(r, 4100, 70000)}, words.Sizes(r, 1000)...) {
		for name, sh := range map[string][]int{"chain": spec.Chain(n), "star": spec.Star(n), "comb": spec.Comb((n + 1) / 2)} {
			t := label(sh)
			walk(r, t, fmt.Sprintf("a %s of %d", name, n), []int{0, n / 2, t.Size() - 1, t.Size()})
		}
	}
}

func traces(r *mc.R) {
	menu := []spec.Ev{{Chan: "a", Kind: spec.In}, {Chan: "a", Kind: spec.Out}, {Chan: "A", Kind: spec.In}, {Chan: "a", Kind: spec.In, Val: spec.IntV(0)}, {Chan: "a", Kind: spec.In, Val: spec.EnumV("0")}, {Chan: "a", Kind: spec.In, Val: spec.EnumV("")}}
	depth := mc.Pick(r, 4, 4)
	var all [][]int
	for n := 0; n <= depth; n++ {
		mc.Sequences(len(menu), n, func(seq []int) bool {
			all = append(all, append([]int{}, seq...))
			return true
		})
	}
	reals := make([]trace.Trace, len(all))
	shown := make([]string, len(all))
	for i, seq := range all {
		for _, s := range seq {
			reals[i] = append(reals[i], conv.RealEv(menu[s]))
		}
		if i%2 == 1 { // with room behind it, as a cut-off trace has
			reals[i] = append(reals[i], conv.RealEv(menu[0]))[:len(seq)]
		}
		shown[i] = fmt.Sprint(seq)
	}
	if len(reals[0]) == 0 {
		reals[0] = nil
	}
	var prefixes, equals atomic.Int64
	mc.Par(len(all), func(i int) {
		for j := range all {
			prefix := len(all[i]) <= len(all[j])
			for k := 0; prefix && k < len(all[i]); k++ {
				prefix = all[i][k] == all[j][k]
			}
			equal := prefix && len(all[i]) == len(all[j])
			if got := reals[i].IsPrefixOf(reals[j]); got != prefix {
				r.Violate("traces "+shown[i]+" and "+shown[j], fmt.Sprintf("said to be a prefix: %v", got), nil)
			}
			if got := reals[i].Equals(reals[j]); got != equal {
				r.Violate("traces "+shown[i]+" and "+shown[j], fmt.Sprintf("said to be equal: %v", got), nil)
			}
			if prefix {
				prefixes.Add(1)
			}
			if equal {
				equals.Add(1)
			}
		}
		if r.Full() {
			return
		}
	})
	n := int64(len(all))
	r.States.Add(n)
	r.Transitions.Add(n * n)
	r.Validated.Add(n * n)
	r.OutcomeN("pairs of traces", n*n)
	r.OutcomeN("prefixes", prefixes.Load())
	r.OutcomeN("equal traces", equals.Load())
	// Long ones that differ at one place, or in length.
	for _, n := range append([]int{20, 64, 65, 129, 1000}, words.Sizes(r, 300)...) {
		a := make(trace.Trace, n)
		for i := range a {
			a[i] = conv.RealEv(menu[i%len(menu)])
		}
		if !a.Equals(a[:n:n]) || !a[:n-1].IsPrefixOf(a) || a.IsPrefixOf(a[:n-1]) || a.Equals(a[:n-1]) || a[:n-1].Equals(a) {
			r.Violate(fmt.Sprintf("trace of %d", n), "is compared wrongly with itself or with all but its last event", nil)
		}
		for i := range a {
			b := append(trace.Trace{}, a...)
			b[i] = conv.RealEv(menu[(i+1)%len(menu)])
			if a.Equals(b) || b.Equals(a) || a.IsPrefixOf(b) || b.IsPrefixOf(a) || !a[:i].IsPrefixOf(b) || !b[:i].Equals(a[:i]) || a[:i+1].IsPrefixOf(b) {
				r.Violate(fmt.Sprintf("trace of %d", n), fmt.Sprintf("is compared wrongly with one that differs at %d", i), nil)
				break
			}
			step(r)
		}
	}
}

// stacks checks all histories of one stack.
func stacks(r *mc.R) {
	depth := mc.Pick(r, 12, 14)
	for n := 0; n <= depth; n++ {
		count := mc.Pow(4, n)
		mc.Par(64, func(c int) {
			seq := make([]int, n)
			for x := c; x < count && !r.Full(); x += 64 {
				mc.Decode(x, 4, seq)
				var s structure.Stack[int]
				var ref []int
				bad := ""
				if p := mc.Catch(func() {
					for i, op := range seq {
						switch {
						case op <= 1:
							s.Push(i)
							ref = append(ref, i)
						case op == 2 && len(ref) > 0:
							if got := s.Pop(); got != ref[len(ref)-1] {
								bad = fmt.Sprintf("pops %d at step %d", got, i)
								return
							}
							ref = ref[:len(ref)-1]
						case op == 3:
							s.Clear()
							ref = ref[:0]
						}
						if s.IsEmpty() != (len(ref) == 0) {
							bad = fmt.Sprintf("is said to be empty: %v at step %d", s.IsEmpty(), i)
							return
						}
					}
					for i := len(ref) - 1; i >= 0; i-- {
						if s.IsEmpty() {
							bad = "loses items"
							return
						}
						if got := s.Pop(); got != ref[i] {
							bad = fmt.Sprintf("pops %d in the end", got)
							return
						}
					}
					if !s.IsEmpty() {
						bad = "is not empty in the end"
					}
				}); p != "" {
					bad = "panic: " + p
				}
				if bad != "" {
					r.Violate(fmt.Sprintf("stack after %v", seq), bad, nil)
				}
			}
		})
		r.States.Add(int64(count))
		r.Transitions.Add(int64(count) * int64(n))
		r.Validated.Add(int64(count))
	}
	r.Note("stack_depth", depth)
	for _, n := range append([]int{64, 65, 1000, 70000}, words.Sizes(r, 1000)...) {
		var s structure.Stack[int]
		if p := mc.Catch(func() {
			for round := 0; round < 2; round++ {
				for i := 0; i < n; i++ {
					s.Push(i)
				}
				for i := n - 1; i >= 0; i-- {
					if got := s.Pop(); got != i || s.IsEmpty() != (i == 0) {
						r.Violate(fmt.Sprintf("stack of %d", n), fmt.Sprintf("pops %d for %d", got, i), nil)
						return
					}
				}
			}
		}); p != "" {
			r.Violate(fmt.Sprintf("stack of %d", n), "panic: "+p, nil)
		}
		step(r)
	}
}

func sortedByPrint[T comparable](m map[T]bool) []T {
	var out []T
	for v := range m {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return fmt.Sprint(out[i]) < fmt.Sprint(out[j]) })
	return out
}

// setOf checks all histories of one set over a menu.
func setOf[T comparable](r *mc.R, name string, menu []T, depth int) {
	k := len(menu)
	ops := k + k*k + 2
	for n := 0; n <= depth; n++ {
		mc.Sequences(ops, n, func(seq []int) bool {
			s := structure.NewSet[T]()
			ref := map[T]bool{}
			bad := ""
			if p := mc.Catch(func() {
				for _, op := range seq {
					switch {
					case op < k:
						s.Add(menu[op])
						ref[menu[op]] = true
					case op < k+k*k:
						a, b := menu[(op-k)/k], menu[(op-k)%k]
						s.Add(a, b)
						ref[a], ref[b] = true, true
					case op == k+k*k:
						s.Add()
					default: // through a file, into a set that held something else
						bs, err := json.Marshal(&s)
						t := structure.NewSet(menu[0])
						if err == nil {
							err = json.Unmarshal(bs, &t)
						}
						if err != nil {
							bad = fmt.Sprint("cannot be written and read: ", err)
							return
						}
						s = t
					}
					want := sortedByPrint(ref)
					if got := s.Values(); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
						bad = fmt.Sprintf("holds %q, should hold %q", got, want)
						return
					}
					got := s.Values()
					for i := range got { // the slice is the caller's
						got[i] = menu[k-1]
					}
					if again := s.Values(); fmt.Sprintf("%q", again) != fmt.Sprintf("%q", want) {
						bad = fmt.Sprintf("holds %q after a slice of its values was changed", again)
						return
					}
				}
			}); p != "" {
				bad = "panic: " + p
			}
			if bad != "" {
				r.Violate(fmt.Sprintf("set of %s after %v", name, seq), bad, nil)
			}
			step(r)
			return !r.Full()
		})
	}
	// Made from all lists of values.
	for n := 0; n <= 5; n++ {
		mc.Sequences(k, n, func(seq []int) bool {
			var vs []T
			ref := map[T]bool{}
			for _, s := range seq {
				vs = append(vs, menu[s])
				ref[menu[s]] = true
			}
			want := fmt.Sprintf("%q", sortedByPrint(ref))
			maporder.Explore(2, 4, func(plan []maporder.Choice) ([]int, bool) {
				var got []T
				log := maporder.InProcess(0, plan, func() {
					s := structure.NewSet(vs...)
					got = s.Values()
				})
				if fmt.Sprintf("%q", got) != want {
					r.Violate(fmt.Sprintf("set of %s %v", name, seq), fmt.Sprintf("holds %q, should hold %s", got, want), nil)
				}
				step(r)
				return log, !r.Full()
			})
			bs, _ := json.Marshal(vs)
			if vs == nil {
				bs = []byte("[]")
			}
			var s structure.Set[T]
			if err := json.Unmarshal(bs, &s); err != nil || fmt.Sprintf("%q", s.Values()) != want {
				r.Violate(fmt.Sprintf("set of %s from %s", name, bs), fmt.Sprintf("holds %q (%v), should hold %s", s.Values(), err, want), nil)
			}
			return !r.Full()
		})
	}
}

func sets(r *mc.R) {
	setOf(r, "strings", []string{"", "a", "b", "A"}, mc.Pick(r, 4, 5))
	setOf(r, "numbers", []int{9, 10, -1, 100}, mc.Pick(r, 3, 4))
	for _, n := range append([]int{50, 64, 65, 300}, words.Sizes(r, 300)...) {
		s := structure.NewSet[int]()
		ref := map[int]bool{}
		for i := 0; i < 2*n; i++ {
			s.Add(i * 7 % n)
			ref[i*7%n] = true
		}
		if fmt.Sprint(s.Values()) != fmt.Sprint(sortedByPrint(ref)) {
			r.Violate(fmt.Sprintf("set of %d numbers", n), clip(fmt.Sprint("holds ", s.Values())), nil)
		}
		step(r)
	}
}

// maps checks mappings over maps of up to five entries, with any of them failing, in all orders of iteration.
func maps(r *mc.R) {
	for n := 0; n <= mc.Pick(r, 4, 5); n++ {
		in := map[string]int{}
		for i := 0; i < n; i++ {
			in[fmt.Sprint("k", i)] = i
		}
		for mask := 0; mask < 1<<n; mask++ {
			sig := fmt.Sprintf("mapping over %d entries, failing on %b", n, mask)
			maporder.Explore(9, 6, func(plan []maporder.Choice) (log []int, ok bool) {
				var out map[string]string
				var err error
				p := ""
				log = maporder.InProcess(0, plan, func() {
					p = mc.Catch(func() {
						out, err = structure.TryOverMapValues(in, func(v int) (string, error) {
							if mask>>v&1 == 1 {
								return "wrong", fmt.Errorf("value %d: %w", v, errStop)
							}
							return fmt.Sprint("v", v), nil
						})
					})
				})
				switch {
				case p != "":
					r.Violate(sig, "panic: "+p, nil)
				case mask != 0 && !errors.Is(err, errStop):
					r.Violate(sig, fmt.Sprintf("gives error %v", err), nil)
				case mask == 0 && (err != nil || len(out) != n):
					r.Violate(sig, fmt.Sprintf("gives %v, error %v", out, err), nil)
				case mask == 0:
					for k, v := range in {
						if out[k] != fmt.Sprint("v", v) {
							r.Violate(sig, fmt.Sprintf("gives %v", out), nil)
						}
					}
				}
				if len(in) != n {
					r.Violate(sig, "changes its input", nil)
				}
				step(r)
				return log, !r.Full()
			})
			if mask == 0 {
				maporder.Explore(9, 6, func(plan []maporder.Choice) (log []int, ok bool) {
					var out map[int]string
					log = maporder.InProcess(0, plan, func() {
						out = structure.OverMap(in, func(k string, v int) (int, string) { return v * 2, k })
					})
					bad := len(out) != n
					for k, v := range in {
						bad = bad || out[2*v] != k
					}
					if bad {
						r.Violate(sig, fmt.Sprintf("gives %v", out), nil)
					}
					step(r)
					return log, !r.Full()
				})
			}
		}
	}
}

// verdicts checks all verdicts over five tests, made by all sorts of additions.
func verdicts(r *mc.R) {
	of := []testlang.Outcome{testlang.OutcomeUnset, testlang.OutcomeInc, testlang.OutcomeFail, testlang.OutcomePass}
	names := []string{"b", "a", "C", "a0", ""}
	for n := 0; n <= len(names); n++ {
		mc.Sequences(5, n, func(seq []int) bool {
			v := verdict.Verdict{}
			want := map[string]testlang.Outcome{}
			for i, s := range seq {
				if s < 4 {
					v.Add(of[s], names[i])
					want[names[i]] = of[s]
				} else { // together with all before it
					v.Add(testlang.OutcomeInc, names[:i+1]...)
					for _, m := range names[:i+1] {
						want[m] = testlang.OutcomeInc
					}
				}
			}
			sig := fmt.Sprintf("verdict %v", want)
			var ks []string
			for k := range want {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			if got := v.Tests(); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", ks) {
				r.Violate(sig, fmt.Sprintf("has tests %q", got), nil)
			}
			var shown []string
			for _, k := range ks {
				shown = append(shown, fmt.Sprintf("%s: %s", k, want[k]))
			}
			if got := v.String(); got != strings.Join(shown, ", ") {
				r.Violate(sig, "is shown as "+got, nil)
			}
			for _, o := range of {
				any := false
				members := map[string]bool{}
				for k, x := range want {
					if x == o {
						any = true
						members[k] = true
					}
				}
				sets := []verdict.TestSet{v.SetOf(o)}
				is := []bool{v.Is(o)}
				switch o {
				case testlang.OutcomeInc:
					sets, is = append(sets, v.Inc()), append(is, v.IsInc())
				case testlang.OutcomePass:
					sets, is = append(sets, v.Pass()), append(is, v.IsPass())
				case testlang.OutcomeFail:
					sets, is = append(sets, v.Fail()), append(is, v.IsFail())
				}
				for _, s := range sets {
					t := structure.Set[string](s)
					if got := t.Values(); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", sortedByPrint(members)) {
						r.Violate(sig, fmt.Sprintf("has %q for %s", got, o), nil)
					}
				}
				for _, b := range is {
					if b != any {
						r.Violate(sig, fmt.Sprintf("is said to have any %s: %v", o, b), nil)
					}
				}
			}
			step(r)
			return !r.Full()
		})
	}
	r.Sample("verdict over %q", names)
	// Many tests, with names of all lengths, alike up to their ends or not; repeatedly, as an order left open shows itself in time.
	for _, n := range append([]int{6, 8, 12, 13, 16, 17, 32, 33, 64, 65, 100, 257, 1000}, words.Sizes(r, 300)...) {
		for _, prefix := range []string{"", "t", strings.Repeat("x", 40), strings.Repeat("y", 300), strings.Repeat("é", 70)} {
			v := verdict.Verdict{}
			set := structure.NewSet[string]()
			var ks []string
			for i := 0; i < n; i++ {
				k := prefix + fmt.Sprint(i*7%n)
				v.Add(of[1+i%3], k)
				set.Add(k)
				ks = append(ks, k)
			}
			sort.Strings(ks)
			var shown []string
			per := map[testlang.Outcome][]string{}
			uniq := ks[:0:0]
			for i, k := range ks {
				if i == 0 || k != ks[i-1] {
					uniq = append(uniq, k)
					shown = append(shown, fmt.Sprintf("%s: %s", k, v[k]))
					per[v[k]] = append(per[v[k]], k)
				}
			}
			sig := fmt.Sprintf("verdict of %d tests named %.10s…", n, prefix)
			for again := 0; again < 3; again++ {
				if got := v.Tests(); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", uniq) {
					r.Violate(sig, "the tests are not all of them, in order", nil)
				}
				if got := v.String(); got != strings.Join(shown, ", ") {
					r.Violate(sig, "is not shown as such: "+clip(got), nil)
				}
				if got := set.Values(); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", uniq) {
					r.Violate(sig, "the set of its tests does not hold all of them, in order", nil)
				}
				for _, o := range of[1:] {
					s := structure.Set[string](v.SetOf(o))
					if got := s.Values(); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", append([]string{}, per[o]...)) {
						r.Violate(sig, fmt.Sprintf("for %s, the tests are not all of them, in order", o), nil)
					}
				}
				step(r)
			}
			if r.Full() {
				return
			}
		}
	}
}

// printed checks what is made and asked of channels and events, and how everything is printed, over menus of parts.
func printed(r *mc.R) {
	expect := func(what, got, want string) {
		if got != want {
			r.Violate("printed form of "+want, fmt.Sprintf("%s prints as %q", what, got), nil)
		}
		step(r)
	}
	names := []string{"", "a", "A", "a b", "in", "ä", "a.b", "%d", "-1"}
	kinds := []channel.Kind{channel.KindIn, channel.KindOut, channel.KindCall}
	kindNames := []string{"in", "out", "call"}
	vals := []value.Value{value.None(), value.Int(0), value.Int(-1), value.Int(1 << 40), value.Enum(""), value.Enum("a"), value.Enum("0"), value.Enum("a\"b\n"), value.Enum("%s")}
	valNames := []string{"", "int!0", "int!-1", "int!1099511627776", `enum!""`, `enum!"a"`, `enum!"0"`, `enum!"a\"b\n"`, `enum!"%s"`}
	var evs []testlang.Event
	var shown []string
	for _, n := range names {
		for k, kind := range kinds {
			ch := channel.New(n, kind)
			made := []channel.Channel{channel.In(n), channel.Out(n), channel.Call(n)}
			for j := range made {
				if (ch == made[j]) != (j == k) || ch.Equals(made[j]) != (j == k) || made[j].Equals(ch) != (j == k) {
					r.Violate(fmt.Sprintf("channel %q %s", n, kindNames[k]), fmt.Sprintf("is or is not the %s channel of that name: %v", kindNames[j], made[j]), nil)
				}
			}
			if ch.IsIn() != (k == 0) || ch.IsOut() != (k == 1) || ch.IsCall() != (k == 2) || ch.IsEmpty() != (n == "") {
				r.Violate(fmt.Sprintf("channel %q %s", n, kindNames[k]), fmt.Sprintf("in %v, out %v, call %v, empty %v", ch.IsIn(), ch.IsOut(), ch.IsCall(), ch.IsEmpty()), nil)
			}
			cs := n + "." + kindNames[k]
			if n == "" {
				cs = "(empty channel)"
			}
			expect("a channel", ch.String(), cs)
			for i, v := range vals {
				e := testlang.NewEvent(n, kind, v)
				s := cs
				if i > 0 {
					s += "." + valNames[i]
				}
				expect("an event", e.String(), s)
				same := true
				if k == 0 {
					o := testlang.Input(n, v)
					same = o.Equals(e)
				} else if k == 1 {
					o := testlang.Output(n, v)
					same = o.Equals(e)
				}
				if !same || e.Channel != ch || !e.Value.Equals(v) {
					r.Violate("event "+s, "is made wrongly", nil)
				}
				evs = append(evs, e)
				shown = append(shown, s)
			}
		}
	}
	for i, v := range vals {
		s := valNames[i]
		if i == 0 {
			s = "(empty value)"
		}
		expect("a value", v.String(), s)
		for j, w := range vals {
			if v.Equals(w) != (i == j) {
				r.Violate("values "+s+" and "+valNames[j], fmt.Sprintf("said to be equal: %v", v.Equals(w)), nil)
			}
		}
	}
	// Traces and forbidden traces of up to three of some events.
	var some []int
	for i := range evs {
		if i%19 == 0 {
			some = append(some, i)
		}
	}
	for n := 0; n <= 3; n++ {
		mc.Sequences(len(some), n, func(seq []int) bool {
			var es []testlang.Event
			var ss []string
			for _, k := range seq {
				es = append(es, evs[some[k]])
				ss = append(ss, shown[some[k]])
			}
			tr := trace.New(es...)
			s := "<" + strings.Join(ss, ", ") + ">"
			expect("a trace", tr.String(), s)
			f := evs[some[n]]
			expect("a forbidden trace", tr.Forbid(f).String(), s+"!"+shown[some[n]])
			expect("a forbidden trace", tr.ForbidWithName(f, "n x").String(), "n x:"+s+"!"+shown[some[n]])
			return !r.Full()
		})
	}
	// Sets.
	for n := 0; n <= 3; n++ {
		mc.Sequences(len(names), n, func(seq []int) bool {
			set := structure.NewSet[string]()
			m := map[string]bool{}
			for _, k := range seq {
				set.Add(names[k])
				m[names[k]] = true
			}
			expect("a set", set.String(), "["+strings.Join(sortedByPrint(m), ", ")+"]")
			return !r.Full()
		})
	}
	// States with up to two sets of up to two transitions.
	for n := 0; n <= 2; n++ {
		mc.Sequences(len(names)*4, n, func(seq []int) bool {
			st := stm.NewState("s 1")
			st.Verdict.Add(testlang.OutcomePass, "t")
			var ss []string
			for _, k := range seq {
				ch := channel.New(names[k/4], kinds[k%3])
				var trs []transition.Transition
				var ts []string
				for j := 0; j < k%4 && j < 2+k%2; j++ {
					i := (k + j) % len(vals)
					trs = append(trs, transition.Transition{Value: vals[i], Next: testlang.NodeID(names[(k+j)%len(names)])})
					vs := valNames[i]
					if i == 0 {
						vs = "(empty value)"
					}
					ts = append(ts, "-["+vs+"]-> "+names[(k+j)%len(names)])
					expect("a transition", trs[j].String(), ts[j])
				}
				st.TransitionSets = append(st.TransitionSets, transition.NewSet(ch, trs...))
				s := ch.String() + ":{" + strings.Join(ts, ", ") + "}"
				expect("a transition set", st.TransitionSets[len(ss)].String(), s)
				ss = append(ss, s)
			}
			expect("a state", st.String(), "s 1:{t: pass}("+strings.Join(ss, ", ")+")")
			return !r.Full()
		})
	}
	r.Sample("printed form %s", shown[len(shown)-1])
}
