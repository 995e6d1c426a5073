// P19: callback tables contain exactly the machine's transitions.
package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/UoY-RoboStar/rtcg/internal/gen/gencommon"
	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/stm/transition"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/channel"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/conv"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/mc"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/spec"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/words"
)

type chn struct {
	name string
	kind int
}

func (c chn) String() string { return fmt.Sprintf("%q.%d", c.name, c.kind) }

// table is one channel's table: state -> transitions.
type table struct {
	c  chn
	at map[string][]spec.Tr
}

// tables is the reference: one table per channel, in order of first use.
func tables(m *spec.Machine) []table {
	var out []table
	for _, s := range m.States {
		for _, set := range s.Sets {
			c := chn{set.Chan, set.Kind}
			i := 0
			for i < len(out) && out[i].c != c {
				i++
			}
			if i == len(out) {
				out = append(out, table{c, map[string][]spec.Tr{}})
			}
			out[i].at[s.ID] = append(out[i].at[s.ID], set.Trs...)
		}
	}
	return out
}

func trKey(ts []spec.Tr) string {
	var b strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&b, "%s->%q;", spec.Ev{Chan: "v", Val: t.Val}.Key(), t.Next)
	}
	return b.String()
}

// stateKey renders a state map; states without transitions may be listed or not.
func stateKey(at map[string][]spec.Tr, asSet bool) string {
	var keys []string
	for k, ts := range at {
		if len(ts) > 0 {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	var b strings.Builder
	for _, k := range keys {
		s := trKey(at[k])
		if asSet {
			parts := strings.Split(s, ";")
			sort.Strings(parts)
			s = strings.Join(parts, ";")
		}
		fmt.Fprintf(&b, "%q:{%s} ", k, s)
	}
	return b.String()
}

func tablesKey(ts []table, keep func(c chn) bool) string {
	var b strings.Builder
	for _, t := range ts {
		if keep == nil || keep(t.c) {
			fmt.Fprintf(&b, "[%s %s]", t.c, stateKey(t.at, false))
		}
	}
	return b.String()
}

func realTables(as []transition.AggregateSet) []table {
	var out []table
	for _, a := range as {
		out = append(out, table{chn{a.Channel.Name, conv.Kind(a.Channel.Kind)}, realStates(a.States)})
	}
	return out
}

func realStates(m transition.StateMap) map[string][]spec.Tr {
	at := map[string][]spec.Tr{}
	for id, ts := range m {
		for _, t := range ts {
			at[string(id)] = append(at[string(id)], spec.Tr{Val: conv.Val(t.Value), Next: string(t.Next)})
		}
	}
	return at
}

// real makes the machine with spare room in every list, as lists grown by appending have.
func real(m *spec.Machine, spare bool) *stm.Stm {
	r := conv.RealMachine(m)
	if spare {
		for _, s := range r.States {
			for i := range s.TransitionSets {
				ts := s.TransitionSets[i].Transitions
				grown := make([]transition.Transition, len(ts), len(ts)+4)
				copy(grown, ts)
				s.TransitionSets[i].Transitions = grown
			}
		}
	}
	return r
}

func isIn(c chn) bool  { return c.kind == spec.In }
func notIn(c chn) bool { return c.kind != spec.In }

// check judges one machine.
func check(r *mc.R, m *spec.Machine) {
	for _, spare := range []bool{false, true} {
		checkReal(r, m, real(m, spare), "")
	}
}

func checkReal(r *mc.R, m *spec.Machine, x *stm.Stm, history string) {
	sig := func() string {
		k := m.Key()
		if len(k) > 1500 {
			k = k[:1500] + fmt.Sprintf("...(%d)", len(k))
		}
		return "machine " + history + k
	}
	bad := func(what, got, want string) {
		r.Violate(sig(), fmt.Sprintf("%s: got %s, should be %s", what, got, want), nil)
	}
	before := conv.Machine(x).Key()
	var ctx, again gencommon.Context
	var agg []transition.AggregateSet
	if p := mc.Catch(func() {
		ctx = gencommon.NewContext("name", x)
		agg = x.TransitionSets()
		again = gencommon.NewContext("name", x)
	}); p != "" {
		r.Violate(sig(), "panic: "+p, nil)
		return
	}
	if after := conv.Machine(x).Key(); after != before {
		bad("the machine was changed", after, before)
		return
	}
	if ctx.Name != "name" || ctx.Stm != x && conv.Machine(ctx.Stm).Key() != before {
		bad("the context's name and machine", ctx.Name, "the ones given")
	}
	ref := tables(m)
	t := ctx.Transitions
	for _, w := range []struct {
		what string
		got  []transition.AggregateSet
		keep func(chn) bool
	}{{"all tables", t.All, nil}, {"aggregate sets", agg, nil}, {"input tables", t.In, isIn}, {"output tables", t.Out, notIn}} {
		if g, want := tablesKey(realTables(w.got), nil), tablesKey(ref, w.keep); g != want {
			bad(w.what, g, want)
			return
		}
	}
	var names []string
	for _, c := range t.Channels {
		names = append(names, chn{c.Name, conv.Kind(c.Kind)}.String())
	}
	var wantNames []string
	hasIn := false
	merged := map[string][]spec.Tr{}
	for _, tb := range ref {
		wantNames = append(wantNames, tb.c.String())
		if isIn(tb.c) {
			hasIn = true
			for s, ts := range tb.at {
				merged[s] = append(merged[s], ts...)
			}
		}
	}
	if g, want := strings.Join(names, ","), strings.Join(wantNames, ","); g != want {
		bad("channels", g, want)
	}
	if g, want := stateKey(realStates(t.InMerged), true), stateKey(merged, true); g != want {
		bad("merged input table", g, want)
	}
	if t.HasIn != hasIn {
		bad("whether there is an input", fmt.Sprint(t.HasIn), fmt.Sprint(hasIn))
	}
	first := false
	for i, s := range m.States {
		has, ins := false, 0
		var only spec.Tr
		var onlyChan string
		for _, set := range s.Sets {
			if set.Kind == spec.In {
				has = true
				ins += len(set.Trs)
				if len(set.Trs) > 0 {
					only, onlyChan = set.Trs[0], set.Chan
				}
			}
		}
		if i == 0 {
			first = has
		}
		if g := x.States[i].HasIn(); g != has {
			bad("whether state "+s.ID+" has an input", fmt.Sprint(g), fmt.Sprint(has))
		}
		if f := x.States[i].In(); ins == 0 && f != nil {
			bad("the input of state "+s.ID, fmt.Sprint(f), "none")
		} else if ins == 1 {
			if f == nil || f.Channel.Name != onlyChan || conv.Kind(f.Channel.Kind) != spec.In || string(f.Next) != only.Next || conv.Val(f.Value) != only.Val {
				bad("the input of state "+s.ID, fmt.Sprint(f), onlyChan+" "+trKey([]spec.Tr{only}))
			}
		}
	}
	if t.FirstStateHasIn != first {
		bad("whether the first state has an input", fmt.Sprint(t.FirstStateHasIn), fmt.Sprint(first))
	}
	if !reflect.DeepEqual(t, again.Transitions) {
		bad("a second computation", "different tables", "the same tables")
	}
}

var menu = []chn{{"a", spec.In}, {"a", spec.Out}, {"a", spec.Call}, {"b", spec.In}, {"b", spec.Out}}

// styles is how many ways there are for transitions to be like one another.
const styles = 4

// alike makes transition n less different from the others.
func alike(t spec.Tr, n, style int) spec.Tr {
	switch style {
	case 1:
		t.Next = "t"
	case 2:
		t.Val, t.Next = spec.IntV(int64(n%2)), fmt.Sprint("t", n/2%2)
	case 3:
		t = spec.Tr{Val: spec.None(), Next: "s0"}
	}
	return t
}

// restyled is the machine with all transitions made alike.
func restyled(m *spec.Machine, style int) *spec.Machine {
	n := 0
	for _, s := range m.States {
		for i := range s.Sets {
			for k := range s.Sets[i].Trs {
				s.Sets[i].Trs[k] = alike(s.Sets[i].Trs[k], n, style)
				n++
			}
		}
	}
	return m
}

// machine builds a machine whose states have the given lists of sets (channel index, number of transitions).
func machine(states [][][2]int) *spec.Machine {
	m := &spec.Machine{Types: map[string]string{}}
	n := 0
	for i, sets := range states {
		s := &spec.State{ID: fmt.Sprint("s", i), Verdict: map[string]string{}}
		for _, set := range sets {
			c := menu[set[0]]
			ts := spec.TrSet{Chan: c.name, Kind: c.kind}
			for k := 0; k < set[1]; k++ {
				v := spec.None()
				switch n % 4 {
				case 1:
					v = spec.IntV(int64(n))
				case 2:
					v = spec.EnumV(fmt.Sprint("e", n))
				case 3:
					v = spec.IntV(int64(-n))
				}
				ts.Trs = append(ts.Trs, spec.Tr{Val: v, Next: fmt.Sprint("t", n)})
				n++
			}
			s.Sets = append(s.Sets, ts)
		}
		m.States = append(m.States, s)
	}
	return m
}

// lists gives every list of up to n sets from the items.
func lists(items [][2]int, n int) [][][2]int {
	out := [][][2]int{nil}
	for l := 1; l <= n; l++ {
		mc.Sequences(len(items), l, func(seq []int) bool {
			x := make([][2]int, l)
			for i, s := range seq {
				x[i] = items[s]
			}
			out = append(out, x)
			return true
		})
	}
	return out
}

func items(chans int, counts ...int) [][2]int {
	var out [][2]int
	for c := 0; c < chans; c++ {
		for _, k := range counts {
			out = append(out, [2]int{c, k})
		}
	}
	return out
}

func main() { mc.Main("P19", run) }

func run(r *mc.R) {
	var machines atomic.Int64
	product := func(opts [][][2]int, states int) {
		count := mc.Pow(len(opts), states)
		mc.Par(256, func(w int) {
			seq := make([]int, states)
			for x := w; x < count; x += 256 {
				if r.Full() || r.Expired() {
					return
				}
				mc.Decode(x, len(opts), seq)
				var ss [][][2]int
				for _, s := range seq {
					ss = append(ss, opts[s])
				}
				for style := 0; style < styles; style++ {
					check(r, restyled(machine(ss), style))
				}
				machines.Add(styles)
			}
		})
	}
	// 1. All machines.
	check(r, machine(nil))
	product(lists(items(5, 1, 2), 3), 1)
	product(lists(items(5, 1, 2, 0), 2), 2)
	product(lists(items(5, 1), 2), 3)
	product(lists(items(5, 1), 1), mc.Pick(r, 5, 6))
	product(lists(items(4, 1, 3), 1), 4)
	if r.Thorough() {
		product(lists(items(5, 1, 2), 2), 3)
		product(lists(items(3, 1), 2), 4)
	}
	all := machines.Load()
	// 2. Large machines.
	for _, n := range append([]int{9, 17, 64, 130, mc.Pick(r, 300, 1500)}, words.Sizes(r, 400)...) {
		for _, per := range []int{1, 3} {
			var ss [][][2]int
			for i := 0; i < n; i++ {
				var sets [][2]int
				for k := 0; k < per; k++ {
					sets = append(sets, [2]int{(i*7 + k*3) % 5, 1 + (i+k)%3})
				}
				ss = append(ss, sets)
			}
			check(r, machine(ss))
			machines.Add(1)
		}
	}
	// Many channels, many transitions in one set.
	wide := &spec.Machine{Types: map[string]string{}}
	for i := 0; i < 40; i++ {
		s := &spec.State{ID: fmt.Sprint("s", i), Verdict: map[string]string{}}
		for k := 0; k < 30; k++ {
			s.Sets = append(s.Sets, spec.TrSet{Chan: fmt.Sprint("c", (i*k)%37), Kind: (i + k) % 3,
				Trs: []spec.Tr{{Val: spec.IntV(int64(i*100 + k)), Next: fmt.Sprint("s", (i+k)%40)}}})
		}
		wide.States = append(wide.States, s)
	}
	check(r, wide)
	machines.Add(1)
	// 3. All sequences of additions to the sets of two states, the tables being computed after every addition.
	var steps atomic.Int64
	type add struct{ state, ch int }
	var adds []add
	for s := 0; s < 2; s++ {
		for c := 0; c < mc.Pick(r, 3, 4); c++ {
			adds = append(adds, add{s, c})
		}
	}
	depth := mc.Pick(r, 6, 7)
	count := mc.Pow(len(adds), depth)
	mc.Par(256*2, func(w int) {
		seq := make([]int, depth)
		for x := w / 2; x < count && !r.Full() && !r.Expired(); x += 256 {
			mc.Decode(x, len(adds), seq)
			m := machine([][][2]int{nil, nil})
			xm := conv.RealMachine(m)
			for n, a := range seq {
				op := adds[a]
				c := menu[op.ch]
				tr := alike(spec.Tr{Val: spec.IntV(int64(n)), Next: fmt.Sprint("t", n)}, n, w%2*(1+x%3))
				st := m.States[op.state]
				found := false
				for i := range st.Sets {
					if st.Sets[i].Chan == c.name && st.Sets[i].Kind == c.kind {
						st.Sets[i].Trs = append(append([]spec.Tr{}, st.Sets[i].Trs...), tr)
						found = true
					}
				}
				if !found {
					st.Sets = append(append([]spec.TrSet{}, st.Sets...), spec.TrSet{Chan: c.name, Kind: c.kind, Trs: []spec.Tr{tr}})
				}
				rs := xm.States[op.state]
				if p := mc.Catch(func() {
					rs.TransitionSets = transition.AddToSets(rs.TransitionSets, channel.New(c.name, conv.RealKind(c.kind)),
						transition.Transition{Value: conv.RealVal(tr.Val), Next: testlang.NodeID(tr.Next)})
				}); p != "" {
					r.Violate(fmt.Sprintf("additions %v", seq[:n+1]), "panic: "+p, nil)
					return
				}
				steps.Add(1)
				if g, want := conv.Machine(xm).Key(), m.Key(); g != want {
					r.Violate(fmt.Sprintf("additions %v", seq[:n+1]), "sets are "+g+", should be "+want, nil)
					return
				}
				if n == depth-1 || n%2 == 1 {
					checkReal(r, m, xm, fmt.Sprintf("after additions %v ", seq[:n+1]))
				}
			}
		}
	})
	// 4. All sequences of additions of sets to tables.
	type aop struct{ state, ch, n int }
	var aops []aop
	for s := 0; s < 2; s++ {
		for c := 0; c < 3; c++ {
			for k := 1; k <= mc.Pick(r, 2, 3); k++ {
				aops = append(aops, aop{s, c, k})
			}
		}
	}
	adepth := mc.Pick(r, 4, 5)
	acount := mc.Pow(len(aops), adepth)
	mc.Par(256, func(w int) {
		seq := make([]int, adepth)
		for x := w; x < acount && !r.Full() && !r.Expired(); x += 256 {
			mc.Decode(x, len(aops), seq)
			var aggs []transition.AggregateSet
			var sets [][][2]int
			states := []int{}
			var origs []transition.Set
			m := &spec.Machine{}
			_ = sets
			for n, a := range seq {
				op := aops[a]
				one := machine([][][2]int{{{op.ch, op.n}}})
				for i := range one.States[0].Sets[0].Trs {
					one.States[0].Sets[0].Trs[i].Next = fmt.Sprint("t", n, "-", i)
				}
				one.States[0].ID = fmt.Sprint("s", op.state)
				restyled(one, x%styles)
				m.States = append(m.States, one.States[0])
				states = append(states, op.state)
				rs := real(one, n%2 == 0).States[0]
				origs = append(origs, rs.TransitionSets[0])
				if p := mc.Catch(func() { aggs = transition.AddToAggregateSets(aggs, rs.ID, rs.TransitionSets[0]) }); p != "" {
					r.Violate(fmt.Sprintf("tables %v", seq[:n+1]), "panic: "+p, nil)
					return
				}
				steps.Add(1)
				if g, want := tablesKey(realTables(aggs), nil), tablesKey(tables(m), nil); g != want {
					r.Violate(fmt.Sprintf("additions to tables %v of %v", seq[:n+1], aops), "tables are "+g+", should be "+want, nil)
					return
				}
			}
			for i, s := range origs {
				var ts []spec.Tr
				for _, t := range s.Transitions {
					ts = append(ts, spec.Tr{Val: conv.Val(t.Value), Next: string(t.Next)})
				}
				if trKey(ts) != trKey(m.States[i].Sets[0].Trs) {
					r.Violate(fmt.Sprintf("additions to tables %v", seq), "a set that was added has changed", nil)
				}
			}
		}
	})
	r.States.Store(machines.Load() + steps.Load())
	r.Transitions.Store(steps.Load() + machines.Load()*2)
	r.Evaluations.Store(machines.Load()*2 + steps.Load())
	r.Validated.Store(r.Evaluations.Load())
	r.Nontrivial.Store(machines.Load())
	r.OutcomeN("machines", all)
	r.OutcomeN("additions", steps.Load())
	r.Sample("machine %s", machine([][][2]int{{{0, 1}, {1, 2}}, {{1, 1}}}).Key())
	r.Note("bounds", "machines of 1 state with up to 3 sets, 2 with up to 2, 3 with up to 2 singletons, 5 (6) with one; additions to depth 6 (7)")
}
