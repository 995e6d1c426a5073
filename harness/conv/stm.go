package conv

import (
	"sort"

	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/stm/transition"
	"github.com/UoY-RoboStar/rtcg/internal/stm/verdict"
	"github.com/UoY-RoboStar/rtcg/internal/structure"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/channel"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/rstype"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/spec"
)

// RealType makes a type from its name.
func RealType(t string) *rstype.RsType {
	switch t {
	case "()":
		return rstype.Empty()
	case "enum":
		return rstype.Enum()
	case "nat":
		return rstype.Arithmos(rstype.ArithmosDomainNat)
	case "int":
		return rstype.Arithmos(rstype.ArithmosDomainInt)
	case "real":
		return rstype.Arithmos(rstype.ArithmosDomainReal)
	}
	return nil
}

// Type reads a real type by its predicates.
func Type(t *rstype.RsType) string {
	switch {
	case t == nil:
		return "<<nil>>"
	case t.IsEmpty():
		return "()"
	case t.IsEnum():
		return "enum"
	case t.IsNat():
		return "nat"
	case t.IsInt():
		return "int"
	case t.IsReal():
		return "real"
	}
	return "<<bad>>"
}

func realTypes(m map[string]string) stm.TypeMap {
	out := stm.TypeMap{}
	for k, v := range m {
		out[k] = RealType(v)
	}
	return out
}

// Types reads a real type map.
func Types(m stm.TypeMap) map[string]string {
	out := map[string]string{}
	for k, v := range m {
		out[k] = Type(v)
	}
	return out
}

// RealMachine makes a real state machine.
func RealMachine(m *spec.Machine) *stm.Stm {
	r := &stm.Stm{States: []*stm.State{}, Types: realTypes(m.Types), Tests: structure.NewSet(m.Tests...)}
	for _, s := range m.States {
		st := stm.NewState(testlang.NodeID(s.ID))
		for _, set := range s.Sets {
			trs := []transition.Transition{}
			for _, t := range set.Trs {
				trs = append(trs, transition.Transition{Value: RealVal(t.Val), Next: testlang.NodeID(t.Next)})
			}
			st.TransitionSets = append(st.TransitionSets, transition.NewSet(channel.New(set.Chan, RealKind(set.Kind)), trs...))
		}
		v := verdict.Verdict{}
		for t, o := range s.Verdict {
			v[t] = outcomes[o]
		}
		st.Verdict = &v
		r.States = append(r.States, st)
	}
	return r
}

// Outcome reads a real outcome.
func Outcome(o testlang.Outcome) string {
	for s, x := range outcomes {
		if x == o && s != "" {
			return s
		}
	}
	return "<<bad>>"
}

// Machine reads a real state machine; its tests come out sorted.
func Machine(m *stm.Stm) *spec.Machine {
	if m == nil {
		return nil
	}
	r := &spec.Machine{Types: Types(m.Types)}
	for _, t := range m.Tests.Values() {
		r.Tests = append(r.Tests, t)
	}
	sort.Strings(r.Tests)
	for _, s := range m.States {
		st := &spec.State{ID: string(s.ID), Verdict: map[string]string{}}
		for _, set := range s.TransitionSets {
			o := spec.TrSet{Chan: set.Channel.Name, Kind: Kind(set.Channel.Kind)}
			for _, t := range set.Transitions {
				o.Trs = append(o.Trs, spec.Tr{Val: Val(t.Value), Next: string(t.Next)})
			}
			st.Sets = append(st.Sets, o)
		}
		if s.Verdict != nil {
			for t, o := range *s.Verdict {
				st.Verdict[t] = Outcome(o)
			}
		}
		r.States = append(r.States, st)
	}
	return r
}

// RealMSuite makes a real state machine suite.
func RealMSuite(s *spec.MSuite) *stm.Suite {
	r := &stm.Suite{Types: realTypes(s.Types), Tests: map[string]*stm.Stm{}}
	for k, m := range s.Tests {
		r.Tests[k] = RealMachine(m)
	}
	return r
}

// MSuite reads a real state machine suite.
func MSuite(s *stm.Suite) *spec.MSuite {
	r := &spec.MSuite{Types: Types(s.Types), Tests: map[string]*spec.Machine{}}
	for k, m := range s.Tests {
		r.Tests[k] = Machine(m)
	}
	return r
}

// Hollow replaces every missing list of the tree by an empty one, in place.
func Hollow(n *testlang.Node) *testlang.Node {
	if n.Tests == nil {
		n.Tests = []string{}
	}
	if n.Next == nil {
		n.Next = []testlang.Node{}
	}
	for i := range n.Next {
		Hollow(&n.Next[i])
	}
	return n
}
