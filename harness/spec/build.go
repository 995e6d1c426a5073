package spec

import (
	"fmt"
	"sort"
)

// Build is the reference construction of the machine of a valid tree (types are left to BuildSuite).
func Build(root *Node) *Machine {
	m := &Machine{}
	tags := map[string]bool{}
	given := map[string]bool{}
	for _, n := range root.Nodes()[1:] {
		if n.ID != "" && n.Outcome != Fail {
			given[n.ID] = true
		}
	}
	num := 0
	var rec func(n *Node, id string)
	rec = func(n *Node, id string) {
		s := &State{ID: id, Verdict: map[string]string{}}
		m.States = append(m.States, s)
		var ids []string
		for _, k := range n.Next {
			for _, t := range k.Tests {
				s.Verdict[t] = k.Outcome
				tags[t] = true
			}
			kid := k.ID
			if k.Outcome != Fail {
				for kid == "" {
					if x := fmt.Sprint("step", num); !given[x] {
						kid = x
					}
					num++
				}
				tr := Tr{Val: k.Ev.Val, Next: kid}
				found := false
				for i := range s.Sets {
					if s.Sets[i].Chan == k.Ev.Chan && s.Sets[i].Kind == k.Ev.Kind {
						s.Sets[i].Trs = append(s.Sets[i].Trs, tr)
						found = true
					}
				}
				if !found {
					s.Sets = append(s.Sets, TrSet{Chan: k.Ev.Chan, Kind: k.Ev.Kind, Trs: []Tr{tr}})
				}
			}
			ids = append(ids, kid)
		}
		for i, k := range n.Next {
			if k.Outcome != Fail {
				rec(k, ids[i])
			}
		}
	}
	rec(root, "initial")
	for t := range tags {
		m.Tests = append(m.Tests, t)
	}
	sort.Strings(m.Tests)
	return m
}

// BuildSuite builds every tree of a well-typed suite.
func BuildSuite(suite map[string]*Node) *MSuite {
	per, all, ok := Types(suite)
	if !ok {
		panic("ill-typed suite")
	}
	s := &MSuite{Types: all, Tests: map[string]*Machine{}}
	for name, n := range suite {
		s.Tests[name] = Build(n)
		s.Tests[name].Types = per[name]
	}
	return s
}
