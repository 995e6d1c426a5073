// Package conv translates between the repository's values and the reference model's.
package conv

import (
	"fmt"

	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/channel"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/spec"
)

// Val reads a real value.
func Val(v value.Value) spec.Val {
	if v.IsEmpty() {
		return spec.None()
	}
	text, err := v.MarshalText()
	if err != nil {
		return spec.EnumV("<<unmarshallable: " + err.Error() + ">>")
	}
	ty := v.Type()
	switch {
	case ty.IsEnum():
		return spec.EnumV(string(text))
	case ty.IsNat(), ty.IsInt():
		i, ok := spec.ParseInt10(string(text))
		if !ok {
			return spec.EnumV("<<bad int text: " + string(text) + ">>")
		}
		if ty.IsNat() != (i >= 0) {
			return spec.EnumV("<<wrong domain for " + string(text) + ">>")
		}
		return spec.IntV(i)
	default:
		return spec.EnumV(fmt.Sprintf("<<type %s of %q>>", ty, text))
	}
}

// Kind reads a direction.
func Kind(k channel.Kind) int {
	switch k {
	case channel.KindIn:
		return spec.In
	case channel.KindOut:
		return spec.Out
	case channel.KindCall:
		return spec.Call
	}
	return 99
}

// RealKind makes a direction.
func RealKind(k int) channel.Kind {
	return []channel.Kind{channel.KindIn, channel.KindOut, channel.KindCall}[k]
}

// Ev reads a real event.
func Ev(e testlang.Event) spec.Ev {
	k := Kind(e.Channel.Kind)
	if k > 2 {
		return spec.Ev{Chan: "<<bad kind>>" + e.Channel.Name, Kind: 0}
	}
	return spec.Ev{Chan: e.Channel.Name, Kind: k, Val: Val(e.Value)}
}

// RealVal makes a real value.
func RealVal(v spec.Val) value.Value {
	switch {
	case !v.Present:
		return value.None()
	case v.IsInt:
		return value.Int(v.Int)
	default:
		return value.Enum(v.Str)
	}
}

// RealEv makes a real event.
func RealEv(e spec.Ev) testlang.Event {
	return testlang.NewEvent(e.Chan, RealKind(e.Kind), RealVal(e.Val))
}

// Trace reads a real trace.
func Trace(t trace.Forbidden) spec.Trace {
	out := spec.Trace{Name: t.Name, Forbid: Ev(t.Forbid)}
	for _, e := range t.Prefix {
		out.Prefix = append(out.Prefix, Ev(e))
	}
	return out
}

// RealTrace makes a real trace.
func RealTrace(t spec.Trace) trace.Forbidden {
	var p trace.Trace
	for _, e := range t.Prefix {
		p = append(p, RealEv(e))
	}
	return trace.Forbidden{Name: t.Name, Prefix: p, Forbid: RealEv(t.Forbid)}
}

var outcomes = map[string]testlang.Outcome{
	spec.Unset: testlang.OutcomeUnset, spec.Inc: testlang.OutcomeInc, spec.Fail: testlang.OutcomeFail, spec.Pass: testlang.OutcomePass,
	"": testlang.OutcomeUnset,
}

// RealNode makes a real tree.
func RealNode(n *spec.Node) *testlang.Node {
	r := &testlang.Node{ID: testlang.NodeID(n.ID), Tests: append([]string(nil), n.Tests...)}
	if o, ok := outcomes[n.Outcome]; ok {
		r.Outcome = o
	} else {
		r.Outcome = testlang.Outcome(77)
	}
	if n.Ev != nil {
		e := RealEv(*n.Ev)
		r.Event = &e
	}
	for _, k := range n.Next {
		r.Next = append(r.Next, *RealNode(k))
	}
	return r
}

// Node reads a real tree. One that contains itself, or that goes on beyond all bounds, is cut where it does.
func Node(n *testlang.Node) *spec.Node {
	left := 2000000
	return node(n, map[*testlang.Node]bool{}, &left)
}

func node(n *testlang.Node, above map[*testlang.Node]bool, left *int) *spec.Node {
	if *left--; *left < 0 || above[n] {
		return &spec.Node{Outcome: "<<endless>>"}
	}
	r := &spec.Node{ID: string(n.ID), Tests: append([]string{}, n.Tests...), Outcome: "<<bad>>"}
	for s, o := range outcomes {
		if o == n.Outcome && s != "" {
			r.Outcome = s
		}
	}
	if n.Event != nil {
		e := Ev(*n.Event)
		r.Ev = &e
	}
	above[n] = true
	for i := range n.Next {
		r.Next = append(r.Next, node(&n.Next[i], above, left))
	}
	delete(above, n)
	return r
}
