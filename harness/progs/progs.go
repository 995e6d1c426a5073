// Package progs holds what the checks of generated programs share: channels, test trees, and a reference
// interpreter of testing state machines.
package progs

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/UoY-RoboStar/rtcg/internal/zzverif/spec"
)

// Chan is a channel of the suites, with the values that occur on it.
type Chan struct {
	Name     string
	Kind     int
	Vals     []spec.Val
	Override string // the C++ type that overrides the channel's own, if any
	Extra    []spec.Val
}

// Ev is the event of the channel's i-th value.
func (c *Chan) Ev(i int) spec.Ev { return spec.Ev{Chan: c.Name, Kind: c.Kind, Val: c.Vals[i]} }

func ints(xs ...int64) (vs []spec.Val) {
	for _, x := range xs {
		vs = append(vs, spec.IntV(x))
	}
	return vs
}

func enums(xs ...string) (vs []spec.Val) {
	for _, x := range xs {
		vs = append(vs, spec.EnumV(x))
	}
	return vs
}

// Menu is the channels of every sort.  Overridden channels convert by adding 1000 to a number; enumeration
// constants become the number of their letters, and numbers n become "kn" on the way back.
func Menu() []*Chan {
	return []*Chan{
		{Name: "goTo", Kind: spec.In, Vals: ints(3, 0)},
		{Name: "ie", Kind: spec.In, Vals: enums("Ok")},
		{Name: "iV", Kind: spec.In, Vals: []spec.Val{spec.None()}},
		{Name: "inI", Kind: spec.In, Vals: ints(-5, 2147483647)},
		{Name: "ov", Kind: spec.In, Vals: ints(7), Override: "long"},
		{Name: "ovE", Kind: spec.In, Vals: enums("four"), Override: "int"},
		{Name: "batteryStatus", Kind: spec.Out, Vals: enums("Ok", `q"\`), Extra: enums("Bad", "ok", "Okay", "O")},
		{Name: "y", Kind: spec.Out, Vals: ints(5, 0), Extra: ints(6)},
		{Name: "nI", Kind: spec.Out, Vals: ints(-2, 2), Extra: ints(-3)},
		{Name: "w", Kind: spec.Out, Vals: []spec.Val{spec.None()}},
		{Name: "oOv", Kind: spec.Out, Vals: ints(4), Override: "long", Extra: ints(1004)},
		{Name: "oOvE", Kind: spec.Out, Vals: enums("k7"), Override: "int", Extra: enums("k8")},
		{Name: "callMe", Kind: spec.Call, Vals: enums("Go"), Extra: enums("Stop", "Gone", "G")},
		{Name: "cv", Kind: spec.Call, Vals: []spec.Val{spec.None()}},
	}
}

// Odd is channels with unusual names, constants and numbers.
func Odd() []*Chan {
	odd := enums("%s%d", "//x", "é→", "{{.}}", "'", `\n`, `\`, `"`, "a,b", "1e5", "+x", "007x", "&amp;<b>", "/*", "true", "NULL",
		"a??/b", "a\x7fb", "\x01f\x02", "\x1b[0m", "n\u200b1", "\ufeffx\u00a0y", "\x7f7\x7f", strings.Repeat("long", 300))
	return []*Chan{
		{Name: "InOdd", Kind: spec.In, Vals: odd},
		{Name: "Odd_one", Kind: spec.Out, Vals: odd},
		{Name: "yy", Kind: spec.Out, Vals: ints(4294967295, 2147483648, 1), Extra: ints(4294967294)},
		{Name: "goToo", Kind: spec.In, Vals: ints(4294967295, 1)},
		{Name: "YAW", Kind: spec.Out, Vals: ints(-2147483648, 2147483647, -1), Extra: ints(-2147483647)},
		{Name: "aBCdEf1", Kind: spec.In, Vals: ints(-2147483648, 0)},
		{Name: "x1_y2", Kind: spec.Call, Vals: ints(-1, 10), Extra: ints(1)},
		{Name: "bothWays", Kind: spec.In, Vals: ints(1, 2)},
		{Name: "bothWays", Kind: spec.Out, Vals: ints(2, 3)},
		{Name: "inCall", Kind: spec.In, Vals: enums("a")},
		{Name: "inCall", Kind: spec.Call, Vals: enums("a", "b")},
	}
}

// OddPairs is traces over the odd channels.
func OddPairs() (traces [][]spec.Ev) {
	in, out := Events(Odd())
	for i := range out {
		traces = append(traces, []spec.Ev{in[i%len(in)], out[i]}, []spec.Ev{out[i], in[(i+1)%len(in)], out[(i+1)%len(out)]})
	}
	for i := range in {
		traces = append(traces, []spec.Ev{out[i%len(out)], in[i]}, []spec.Ev{in[i]})
	}
	both := Odd()[len(Odd())-4:]
	traces = append(traces, []spec.Ev{both[0].Ev(0), both[1].Ev(0), both[0].Ev(1), both[1].Ev(1)}, []spec.Ev{both[1].Ev(0), both[0].Ev(0), both[3].Ev(0), both[2].Ev(0)},
		[]spec.Ev{both[2].Ev(0), both[3].Ev(0), both[3].Ev(1)})
	return traces
}

// Twice is a machine that uses a channel both for outputs and for calls.
func Twice() *spec.MSuite {
	return spec.BuildSuite(map[string]*spec.Node{"twice": Linear([]spec.Ev{{Chan: "dup", Kind: spec.Out, Val: spec.EnumV("a")}, {Chan: "dup", Kind: spec.Call, Val: spec.EnumV("a")}}, "t")})
}

// Events splits the events of a menu into those of input channels and the others.
func Events(menu []*Chan) (in, out []spec.Ev) {
	for _, c := range menu {
		for i := range c.Vals {
			if c.Kind == spec.In {
				in = append(in, c.Ev(i))
			} else {
				out = append(out, c.Ev(i))
			}
		}
	}
	return in, out
}

// Linear is the test of a trace.
func Linear(events []spec.Ev, name string) *spec.Node {
	n := len(events) - 1
	return spec.Expand(spec.Trace{Prefix: append([]spec.Ev{}, events[:n]...), Forbid: events[n]}, name)
}

// Trees gives well-formed, deterministic trees of every shape and every outcome up to size nodes: a node has at
// most one child with an input, and then no other child with an event.  Each comes with a single tag, and with
// the tags of a factorised test.
func Trees(menu []*Chan, size int, f func(root *spec.Node)) {
	in, out := Events(menu)
	all := append(append([]spec.Ev{}, in...), out...)
	count := 0
	for n := 2; n <= size; n++ {
		for _, shape := range spec.Shapes(n) {
			spec.ValidOutcomes(shape, func(outcome []string) {
				for variant := 0; variant < 2; variant++ {
					seed := count
					count++
					nodes := make([]*spec.Node, 0, n)
					root := spec.FromShape(shape, func(i int, node *spec.Node) {
						node.Outcome = outcome[i]
						if i == 0 {
							node.Outcome = spec.Unset
						}
						nodes = append(nodes, node)
					})
					for i, node := range root.Nodes() {
						var live []*spec.Node
						for _, k := range node.Next {
							if k.Outcome != spec.Fail {
								live = append(live, k)
							}
						}
						for j, k := range live {
							ev := out[(seed+3*i+j)%len(out)]
							if len(live) == 1 {
								ev = all[(seed*5+7*i)%len(all)]
							}
							k.Ev = &ev
						}
						if seed%5 == 4 && i > 0 && node.Outcome != spec.Fail {
							node.ID = fmt.Sprintf("s%dNode_%d", seed%3, i)
						}
					}
					if variant == 0 {
						for _, node := range root.Nodes() {
							node.Tests = []string{"t"}
						}
					} else {
						leaf := 0
						tagLeaves(root, &leaf)
						if leaf < 2 {
							continue
						}
					}
					if !spec.Valid(root) || spec.VerdictsClash(root) {
						continue
					}
					f(root)
				}
			})
		}
	}
}

func tagLeaves(n *spec.Node, leaf *int) []string {
	var tags []string
	if len(n.Next) == 0 {
		tags = []string{fmt.Sprintf("f%d", *leaf)}
		*leaf++
	}
	for _, k := range n.Next {
		tags = append(tags, tagLeaves(k, leaf)...)
	}
	n.Tests = tags
	return tags
}

// Deterministic tells whether no state has two transitions on one event, more than one input, or inputs and others.
func Deterministic(m *spec.Machine) bool {
	for _, s := range m.States {
		ins, outs := 0, 0
		seen := map[string]bool{}
		for _, set := range s.Sets {
			for _, t := range set.Trs {
				if set.Kind == spec.In {
					ins++
				} else {
					outs++
				}
				k := spec.Ev{Chan: set.Chan, Kind: set.Kind, Val: t.Val}.Key()
				if seen[k] {
					return false
				}
				seen[k] = true
			}
		}
		if ins > 1 || ins > 0 && outs > 0 {
			return false
		}
	}
	return true
}

// Statuses of a run.
const (
	WaitStart = iota
	WaitIn
	WaitOut
	OffScript
	Timeout
	Failed
	Bug
)

// Explain gives the words with which the programs name a status.
var Explain = []string{
	"waiting to start", "waiting for input acknowledgement", "waiting for output",
	"an event happened that took the test off-script", "the test ran out of time", "an unwanted behaviour occurred",
	"an internal error occurred",
}

// Exit is the exit status that goes with a status.
func Exit(status int) int {
	switch status {
	case Failed:
		return 1
	case Bug:
		return 2
	}
	return 0
}

// Sim is a run of a machine.
type Sim struct {
	M       *spec.Machine
	At      *spec.State
	Status  int
	Verdict map[string]string
	Sent    []spec.Ev // inputs sent so far
	byID    map[string]*spec.State
}

// NewSim starts a run.
func NewSim(m *spec.Machine) *Sim {
	s := &Sim{M: m, At: m.States[0], Verdict: map[string]string{}, byID: map[string]*spec.State{}}
	for _, st := range m.States {
		s.byID[st.ID] = st
	}
	for _, t := range m.Tests {
		s.Verdict[t] = spec.Unset
	}
	if s.input(s.At) != nil {
		s.Status = WaitStart
	} else {
		s.enter(s.At)
	}
	return s
}

func (s *Sim) input(st *spec.State) *spec.TrSet {
	for i := range st.Sets {
		if st.Sets[i].Kind == spec.In {
			return &st.Sets[i]
		}
	}
	return nil
}

// Key identifies the situation of the run, apart from how it got there.
func (s *Sim) Key() string {
	return s.At.ID + "/" + strconv.Itoa(s.Status) + "/" + s.Verdicts()
}

// Verdicts renders the outcomes.
func (s *Sim) Verdicts() string {
	var ls []string
	for t, o := range s.Verdict {
		ls = append(ls, t+"="+Words[o])
	}
	sort.Strings(ls)
	return strings.Join(ls, " ")
}

// Words are the programs' words for outcomes.
var Words = map[string]string{spec.Unset: "unset", spec.Inc: "inconclusive", spec.Pass: "passed", spec.Fail: "failed"}

// Running tells whether the run has not ended.
func (s *Sim) Running() bool { return s.Status <= WaitOut }

func (s *Sim) enter(st *spec.State) {
	s.At = st
	fail := false
	for t, o := range st.Verdict {
		s.Verdict[t] = o
		fail = fail || o == spec.Fail
	}
	switch set := s.input(st); {
	case fail:
		s.Status = Failed
	case set != nil:
		s.Status = WaitIn
		s.Sent = append(s.Sent, spec.Ev{Chan: set.Chan, Kind: set.Kind, Val: set.Trs[0].Val})
	default:
		s.Status = WaitOut
	}
}

// Delay is the end of the initial delay.
func (s *Sim) Delay() {
	if s.Status == WaitStart {
		s.enter(s.At)
	}
}

// Accept is the acknowledgement of an input.
func (s *Sim) Accept() {
	switch s.Status {
	case WaitIn:
		s.enter(s.byID[s.input(s.At).Trs[0].Next])
	case WaitStart, WaitOut:
		s.Status = Bug
	}
}

// Timeout is the end of the time of the test.
func (s *Sim) Timeout() {
	if s.Running() {
		s.Status = Timeout
	}
}

// Output is an output (or call) of the system under test.
func (s *Sim) Output(ev spec.Ev) {
	if !s.Running() {
		return
	}
	for _, set := range s.At.Sets {
		if set.Chan == ev.Chan && set.Kind == ev.Kind && set.Kind != spec.In {
			for _, t := range set.Trs {
				if t.Val == ev.Val {
					s.enter(s.byID[t.Next])
					return
				}
			}
		}
	}
	s.Status = OffScript
}

// Used lists the channels of a machine, in the order of the menu: inputs, and the others.
func Used(menu []*Chan, m *spec.Machine) (in, out []*Chan) {
	used := map[spec.Ev]bool{}
	for _, s := range m.States {
		for _, set := range s.Sets {
			if len(set.Trs) > 0 {
				used[spec.Ev{Chan: set.Chan, Kind: set.Kind}] = true
			}
		}
	}
	for _, c := range menu {
		if used[spec.Ev{Chan: c.Name, Kind: c.Kind}] {
			if c.Kind == spec.In {
				in = append(in, c)
			} else {
				out = append(out, c)
			}
		}
	}
	return in, out
}

// Suite is the tests whose programs are checked: short traces over all events, trees to a size, odd names.
func Suite(menu []*Chan, size int, thorough bool) map[string]*spec.Node {
	in, out := Events(menu)
	all := append(append([]spec.Ev{}, in...), out...)
	tests := map[string]*spec.Node{}
	add := func(n *spec.Node) { tests[fmt.Sprintf("test%d", len(tests))] = n }
	// All traces of one and two events.
	for _, a := range all {
		add(Linear([]spec.Ev{a}, "t"))
		for _, b := range all {
			add(Linear([]spec.Ev{a, b}, "t"))
		}
	}
	// Traces of three (four) events over one of each sort.
	some := []spec.Ev{in[0], in[2], in[6], out[1], out[4], out[6], out[10]}
	for i, a := range some {
		for j, b := range some {
			for _, c := range some {
				if thorough || i < 2 || j == 3 {
					add(Linear([]spec.Ev{a, b, c}, "t"))
				}
			}
		}
	}
	Trees(menu, size, add)
	for _, t := range OddPairs() {
		add(Linear(t, "t"))
	}
	// A long one, past a hundred states.
	var long []spec.Ev
	for i := 0; i < 120; i++ {
		long = append(long, all[(i*5)%len(all)])
	}
	add(Linear(long, "t"))
	return tests
}

// Loops are machines that no tree gives: with cycles, shared and unreachable states, and no transitions at all.
func Loops(menu []*Chan) map[string]*spec.Machine {
	in, out := Events(menu)
	set := func(evs []spec.Ev, next ...string) []spec.TrSet {
		var sets []spec.TrSet
	events:
		for i, e := range evs {
			for j := range sets {
				if sets[j].Chan == e.Chan {
					sets[j].Trs = append(sets[j].Trs, spec.Tr{Val: e.Val, Next: next[i]})
					continue events
				}
			}
			sets = append(sets, spec.TrSet{Chan: e.Chan, Kind: e.Kind, Trs: []spec.Tr{{Val: e.Val, Next: next[i]}}})
		}
		return sets
	}
	st := func(id string, sets []spec.TrSet, verdicts ...string) *spec.State {
		v := map[string]string{}
		for i := 0; i+1 < len(verdicts); i += 2 {
			v[verdicts[i]] = verdicts[i+1]
		}
		return &spec.State{ID: id, Sets: sets, Verdict: v}
	}
	// Names that are alike for longer than compilers used to look at.
	long := strings.Repeat("aLong", 60)
	return map[string]*spec.Machine{
		"longnames": {Tests: []string{long + "1", long + "2", long}, States: []*spec.State{
			st(long, set(in[:1], long+"1"), long+"1", spec.Inc),
			st(long+"1", set(out[:3], long, long+"2", long+"22"), long+"2", spec.Pass),
			st(long+"2", set([]spec.Ev{out[0], out[1], out[4]}, long+"2", long+"1", long+"22"), long+"1", spec.Pass, long, spec.Inc),
			st(long+"22", nil, long+"1", spec.Fail, long+"2", spec.Inc),
		}},
		"loop": {Tests: []string{"a", "b"}, States: []*spec.State{
			st("initial", set(in[:1], "x"), "a", spec.Inc),
			st("x", set(out[:2], "initial", "y"), "b", spec.Pass),
			st("y", set([]spec.Ev{out[0], out[1], out[4]}, "y", "x", "z"), "a", spec.Pass, "b", spec.Inc),
			st("z", nil, "a", spec.Fail),
		}},
		"selfloop": {Tests: []string{"a"}, States: []*spec.State{
			st("s", set(in[2:3], "s"), "a", spec.Inc),
		}},
		"outloop": {Tests: []string{"a"}, States: []*spec.State{
			st("first", set(out[:3], "first", "second", "third"), "a", spec.Inc),
			st("second", set(out[2:4], "first", "third"), "a", spec.Pass),
			st("third", set(in[1:2], "first"), "a", spec.Inc),
			st("lost", set(in[3:4], "lost"), "a", spec.Fail),
		}},
		"nothing":  {Tests: []string{"a"}, States: []*spec.State{st("only", nil, "a", spec.Inc)}},
		"verdicts": {Tests: []string{"a", "b", "c"}, States: []*spec.State{st("only", nil, "a", spec.Pass, "b", spec.Inc)}},
		"fails":    {Tests: []string{"a", "b"}, States: []*spec.State{st("only", set(in[:1], "only"), "a", spec.Fail, "b", spec.Inc)}},
	}
}
