package spec

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"strings"
)

// Tr is a transition of a state machine.
type Tr struct {
	Val  Val
	Next string
}

// TrSet is the transitions of a state on one channel.
type TrSet struct {
	Chan string
	Kind int
	Trs  []Tr
}

// State is a state of a machine.
type State struct {
	ID      string
	Sets    []TrSet
	Verdict map[string]string
}

// Machine is a testing state machine.
type Machine struct {
	States []*State
	Types  map[string]string
	Tests  []string // in the order listed
}

// MSuite is a suite of state machines.
type MSuite struct {
	Types map[string]string
	Tests map[string]*Machine
}

type jtr struct {
	Value *string `json:"value"`
	Next  string  `json:"next"`
}
type jset struct {
	Channel     string `json:"channel"`
	Transitions []jtr  `json:"transitions"`
}
type jstate struct {
	ID       string            `json:"id"`
	Sets     []jset            `json:"transitionSets"`
	Verdicts map[string]string `json:"verdicts"`
}
type jmachine struct {
	States []*jstate         `json:"states"`
	Types  map[string]string `json:"types"`
	Tests  []string          `json:"tests"`
}
type jmsuite struct {
	Types map[string]string    `json:"types"`
	Tests map[string]*jmachine `json:"tests"`
}

// DecodeStms reads the interchange form of a state machine suite, strictly.
func DecodeStms(text []byte) (*MSuite, error) {
	d := json.NewDecoder(bytes.NewReader(text))
	d.DisallowUnknownFields()
	var j *jmsuite
	if err := d.Decode(&j); err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("trailing data after the suite")
	}
	if j == nil {
		return nil, fmt.Errorf("no object")
	}
	s := &MSuite{Types: j.Types, Tests: map[string]*Machine{}}
	for name, jm := range j.Tests {
		if jm == nil {
			return nil, fmt.Errorf("null machine %q", name)
		}
		m := &Machine{Types: jm.Types, Tests: jm.Tests}
		for _, js := range jm.States {
			if js == nil {
				return nil, fmt.Errorf("null state in %q", name)
			}
			st := &State{ID: js.ID, Verdict: js.Verdicts}
			for _, jt := range js.Sets {
				ev, ok := ParseEvent(jt.Channel)
				if !ok || ev.Val.Present {
					return nil, fmt.Errorf("channel %q", jt.Channel)
				}
				set := TrSet{Chan: ev.Chan, Kind: ev.Kind}
				for _, t := range jt.Transitions {
					v := None()
					if t.Value != nil {
						v = ParseVal(*t.Value)
					}
					set.Trs = append(set.Trs, Tr{Val: v, Next: t.Next})
				}
				st.Sets = append(st.Sets, set)
			}
			for t, o := range st.Verdict {
				if o != Inc && o != Pass && o != Fail && o != Unset {
					return nil, fmt.Errorf("verdict %q for %q", o, t)
				}
			}
			m.States = append(m.States, st)
		}
		s.Tests[name] = m
	}
	return s, nil
}

// EncodeStms writes the interchange form of a machine suite.
func EncodeStms(s *MSuite) []byte {
	j := jmsuiteOut{Types: s.Types, Tests: map[string]*jmachineOut{}}
	for name, m := range s.Tests {
		jm := &jmachineOut{States: []*jstateOut{}, Types: m.Types, Tests: append([]string{}, m.Tests...)}
		for _, st := range m.States {
			js := &jstateOut{ID: st.ID, Verdicts: st.Verdict}
			for _, set := range st.Sets {
				jt := jsetOut{Channel: set.Chan + "." + kindNames[set.Kind]}
				for _, t := range set.Trs {
					o := jtrOut{Next: t.Next}
					if t.Val.Present {
						x := t.Val.Text()
						o.Value = &x
					}
					jt.Transitions = append(jt.Transitions, o)
				}
				js.Sets = append(js.Sets, jt)
			}
			jm.States = append(jm.States, js)
		}
		j.Tests[name] = jm
	}
	bs, err := json.MarshalIndent(j, "", "\t")
	if err != nil {
		panic(err)
	}
	return append(bs, '\n')
}

type jtrOut struct {
	Value *string `json:"value,omitempty"`
	Next  string  `json:"next,omitempty"`
}
type jsetOut struct {
	Channel     string   `json:"channel"`
	Transitions []jtrOut `json:"transitions,omitempty"`
}
type jstateOut struct {
	ID       string            `json:"id"`
	Sets     []jsetOut         `json:"transitionSets,omitempty"`
	Verdicts map[string]string `json:"verdicts"`
}
type jmachineOut struct {
	States []*jstateOut      `json:"states"`
	Types  map[string]string `json:"types"`
	Tests  []string          `json:"tests"`
}
type jmsuiteOut struct {
	Types map[string]string       `json:"types,omitempty"`
	Tests map[string]*jmachineOut `json:"tests,omitempty"`
}

// Key is an injective rendering of a machine, with its test list as a set.
func (m *Machine) Key() string {
	var b strings.Builder
	for _, s := range m.States {
		fmt.Fprintf(&b, "%q:", s.ID)
		for _, set := range s.Sets {
			fmt.Fprintf(&b, " [%q.%s", set.Chan, kindNames[set.Kind])
			for _, t := range set.Trs {
				fmt.Fprintf(&b, " %s->%q", Ev{Chan: "v", Val: t.Val}.Key(), t.Next)
			}
			b.WriteString("]")
		}
		fmt.Fprintf(&b, " %s\n", mapKey(s.Verdict))
	}
	tests := append([]string{}, m.Tests...)
	sort.Strings(tests)
	fmt.Fprintf(&b, "types %s tests %q", mapKey(m.Types), tests)
	return b.String()
}

func mapKey(m map[string]string) string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var b strings.Builder
	b.WriteString("{")
	for _, k := range keys {
		fmt.Fprintf(&b, "%q=%q ", k, m[k])
	}
	b.WriteString("}")
	return b.String()
}

// Key is an injective rendering of a machine suite.
func (s *MSuite) Key() string {
	names := make([]string, 0, len(s.Tests))
	for k := range s.Tests {
		names = append(names, k)
	}
	sort.Strings(names)
	var b strings.Builder
	for _, n := range names {
		fmt.Fprintf(&b, "== %q\n%s\n", n, s.Tests[n].Key())
	}
	b.WriteString(mapKey(s.Types))
	return b.String()
}

// IDsClash tells whether the identifiers of a tree cannot all be kept apart ("initial" is the root's).
func IDsClash(root *Node) bool {
	seen := map[string]bool{"initial": true}
	for _, n := range root.Nodes()[1:] {
		if n.Outcome == Fail || n.ID == "" {
			continue
		}
		if seen[n.ID] {
			return true
		}
		seen[n.ID] = true
	}
	return false
}

// VerdictsClash tells whether some node has children giving one test different outcomes.
func VerdictsClash(root *Node) bool {
	for _, n := range root.Nodes() {
		seen := map[string]string{}
		for _, k := range n.Next {
			for _, t := range k.Tests {
				if o, ok := seen[t]; ok && o != k.Outcome {
					return true
				}
				seen[t] = k.Outcome
			}
		}
	}
	return false
}

// Mirror compares a machine with the tree it should mirror; it returns what is wrong, or "".
func Mirror(root *Node, m *Machine) string {
	live := 0
	tags := map[string]bool{}
	for i, n := range root.Nodes() {
		if n.Outcome != Fail {
			live++
		}
		if i > 0 {
			for _, t := range n.Tests {
				tags[t] = true
			}
		}
	}
	if len(m.States) != live {
		return fmt.Sprintf("%d states, should be %d", len(m.States), live)
	}
	byID := map[string]*State{}
	for _, s := range m.States {
		if s.ID == "" {
			return "a state has no identifier"
		}
		if byID[s.ID] != nil {
			return fmt.Sprintf("two states are called %q", s.ID)
		}
		byID[s.ID] = s
	}
	if m.States[0].ID != "initial" {
		return fmt.Sprintf("the first state is %q", m.States[0].ID)
	}
	got := map[string]bool{}
	for _, t := range m.Tests {
		if got[t] {
			return fmt.Sprintf("test %q is listed twice", t)
		}
		got[t] = true
	}
	if len(got) != len(tags) {
		return fmt.Sprintf("lists tests %q, should be %s", m.Tests, setKey(tags))
	}
	for t := range tags {
		if !got[t] {
			return fmt.Sprintf("lists tests %q, should be %s", m.Tests, setKey(tags))
		}
	}
	used := map[string]bool{}
	return mirror(root, m.States[0], byID, used)
}

func setKey(s map[string]bool) string {
	var keys []string
	for k := range s {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return fmt.Sprintf("%q", keys)
}

func mirror(n *Node, s *State, byID map[string]*State, used map[string]bool) string {
	if used[s.ID] {
		return fmt.Sprintf("state %q stands for two nodes", s.ID)
	}
	used[s.ID] = true
	want := map[string]string{}
	for _, k := range n.Next {
		for _, t := range k.Tests {
			want[t] = k.Outcome
		}
	}
	if mapKey(want) != mapKey(s.Verdict) {
		return fmt.Sprintf("state %q has verdicts %s, should have %s", s.ID, mapKey(s.Verdict), mapKey(want))
	}
	// Transitions by event, in order.
	type evKey struct {
		c string
		k int
		v Val
	}
	trs := map[evKey][]string{}
	count := 0
	chans := map[string]bool{}
	for _, set := range s.Sets {
		ck := fmt.Sprintf("%q.%d", set.Chan, set.Kind)
		if chans[ck] {
			return fmt.Sprintf("state %q lists channel %s twice", s.ID, ck)
		}
		chans[ck] = true
		if len(set.Trs) == 0 {
			return fmt.Sprintf("state %q has an empty set for channel %s", s.ID, ck)
		}
		for _, t := range set.Trs {
			k := evKey{set.Chan, set.Kind, t.Val}
			trs[k] = append(trs[k], t.Next)
			count++
		}
	}
	for _, k := range n.Next {
		if k.Outcome == Fail {
			continue
		}
		count--
		key := evKey{k.Ev.Chan, k.Ev.Kind, k.Ev.Val}
		if len(trs[key]) == 0 {
			return fmt.Sprintf("state %q has too few transitions on %s", s.ID, k.Ev.Key())
		}
		next := trs[key][0]
		trs[key] = trs[key][1:]
		ns := byID[next]
		if ns == nil {
			return fmt.Sprintf("state %q leads to %q, which does not exist", s.ID, next)
		}
		if k.ID != "" && k.ID != next {
			return fmt.Sprintf("node %q became state %q", k.ID, next)
		}
		if bad := mirror(k, ns, byID, used); bad != "" {
			return bad
		}
	}
	if count != 0 {
		return fmt.Sprintf("state %q has %d transitions too many", s.ID, count)
	}
	return ""
}

// Lub is the least type covering all given values ("" if there are none); ok is false if there is no such type.
func Lub(vals []Val) (ty string, ok bool) {
	for _, v := range vals {
		t := "()"
		if v.Present {
			t = "enum"
			if v.IsInt {
				t = "nat"
				if v.Int < 0 {
					t = "int"
				}
			}
		}
		switch {
		case ty == "" || ty == t:
			ty = t
		case (ty == "nat" || ty == "int") && (t == "nat" || t == "int"):
			ty = "int"
		default:
			return "", false
		}
	}
	return ty, true
}

// Types gives the channel types of each test and of the whole suite.
func Types(suite map[string]*Node) (per map[string]map[string]string, all map[string]string, ok bool) {
	per = map[string]map[string]string{}
	all = map[string]string{}
	total := map[string][]Val{}
	for name, root := range suite {
		vals := map[string][]Val{}
		for _, n := range root.Nodes() {
			if n.Ev != nil {
				vals[n.Ev.Chan] = append(vals[n.Ev.Chan], n.Ev.Val)
				total[n.Ev.Chan] = append(total[n.Ev.Chan], n.Ev.Val)
			}
		}
		per[name] = map[string]string{}
		for c, vs := range vals {
			t, ok := Lub(vs)
			if !ok {
				return nil, nil, false
			}
			per[name][c] = t
		}
	}
	for c, vs := range total {
		t, ok := Lub(vs)
		if !ok {
			return nil, nil, false
		}
		all[c] = t
	}
	return per, all, true
}

// SameTypes compares two type maps.
func SameTypes(a, b map[string]string) bool { return mapKey(a) == mapKey(b) }

// TypesKey renders a type map.
func TypesKey(a map[string]string) string { return mapKey(a) }
