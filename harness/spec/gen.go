package spec

// Shapes lists every ordered rooted tree with n nodes, as the parent index of each node in pre-order
// (the root's is -1).
func Shapes(n int) [][]int {
	var out [][]int
	parents := []int{-1}
	var rec func(path []int) // path: the rightmost branch, root first
	rec = func(path []int) {
		if len(parents) == n {
			out = append(out, append([]int{}, parents...))
			return
		}
		for d := len(path); d >= 1; d-- {
			id := len(parents)
			parents = append(parents, path[d-1])
			rec(append(append([]int{}, path[:d]...), id))
			parents = parents[:id]
		}
	}
	if n > 0 {
		rec([]int{0})
	}
	return out
}

// FromShape builds a tree; fill sets the content of each node by its pre-order index.
func FromShape(parents []int, fill func(i int, n *Node)) *Node {
	nodes := make([]*Node, len(parents))
	for i, p := range parents {
		nodes[i] = &Node{Outcome: Unset}
		if p >= 0 {
			nodes[p].Next = append(nodes[p].Next, nodes[i])
		}
	}
	for i := range nodes {
		fill(i, nodes[i])
	}
	return nodes[0]
}

// Nodes lists the nodes of a tree in pre-order.
func (n *Node) Nodes() []*Node {
	out := []*Node{n}
	for _, k := range n.Next {
		out = append(out, k.Nodes()...)
	}
	return out
}

// Mutations calls f with every tree got from root by one structural mutation (root itself is not changed).
func Mutations(root *Node, f func(what string, n *Node)) {
	count := root.Size()
	for i := 0; i < count; i++ {
		at := func(what string, g func(n *Node)) {
			c := root.Clone()
			n := c.Nodes()[i]
			g(n)
			f(what, c)
		}
		for _, o := range []string{Unset, Inc, Fail, Pass, "<<bad>>"} {
			if root.Nodes()[i].Outcome != o {
				at("outcome "+o, func(n *Node) { n.Outcome = o })
			}
		}
		if root.Nodes()[i].Ev == nil {
			at("add event", func(n *Node) { n.Ev = &Ev{Chan: "m", Kind: Out} })
		} else {
			at("drop event", func(n *Node) { n.Ev = nil })
		}
		at("drop tags", func(n *Node) { n.Tests = nil })
		at("add fail child", func(n *Node) { n.Next = append(n.Next, &Node{Tests: []string{"m"}, Outcome: Fail}) })
		at("add inc child", func(n *Node) {
			n.Next = append(n.Next, &Node{Tests: []string{"m"}, Outcome: Inc, Ev: &Ev{Chan: "m", Kind: In}})
		})
		at("add test point child", func(n *Node) {
			n.Next = append(n.Next, &Node{Tests: []string{"m"}, Outcome: Pass, Ev: &Ev{Chan: "m", Kind: Out}, Next: []*Node{{Tests: []string{"m"}, Outcome: Fail}}})
		})
		at("drop children", func(n *Node) { n.Next = nil })
		for j := range root.Nodes()[i].Next {
			at("drop child", func(n *Node) { n.Next = append(n.Next[:j:j], n.Next[j+1:]...) })
			at("duplicate child", func(n *Node) { n.Next = append(n.Next, n.Next[j].Clone()) })
			at("splice child", func(n *Node) {
				n.Next = append(append([]*Node{}, n.Next[:j]...), append(n.Next[j].Next, n.Next[j+1:]...)...)
			})
		}
	}
}

// Linear tells whether the tree is a well-formed linear test, and the trace it stands for.
func Linear(root *Node) (Trace, bool) {
	var t Trace
	if !Valid(root) {
		return t, false
	}
	n := root
	for {
		if len(n.Next) != 1 {
			return t, false
		}
		n = n.Next[0]
		switch n.Outcome {
		case Inc:
			t.Prefix = append(t.Prefix, *n.Ev)
		case Pass:
			t.Forbid = *n.Ev
			return t, len(n.Next) == 1 && n.Next[0].Outcome == Fail
		default:
			return t, false
		}
	}
}

// ValidOutcomes calls f with every assignment of outcomes that makes a tree of the given shape well formed.
func ValidOutcomes(parents []int, f func(outcome []string)) {
	n := len(parents)
	kids := make([]int, n)
	for _, p := range parents {
		if p >= 0 {
			kids[p]++
		}
	}
	out := make([]string, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(out)
			return
		}
		switch {
		case i == 0:
			out[i] = Unset
			rec(i + 1)
		case kids[i] == 0:
			out[i] = Fail
			rec(i + 1)
		default:
			out[i] = Inc
			rec(i + 1)
			if kids[i] == 1 {
				out[i] = Pass
				rec(i + 1)
			}
		}
	}
	rec(0)
}

// Chain is the shape of a chain of n nodes.
func Chain(n int) []int {
	c := make([]int, n)
	for i := range c {
		c[i] = i - 1
	}
	return c
}

// Star is a root with n children, each of them followed by one node.
func Star(n int) []int {
	c := []int{-1}
	for i := 0; i < n; i++ {
		c = append(c, 0, len(c))
	}
	return c
}

// Comb is a chain of n nodes, each of which also has a leaf.
func Comb(n int) []int {
	c := []int{-1}
	last := 0
	for i := 0; i < n; i++ {
		id := len(c)
		c = append(c, last)
		c = append(c, id)
		last = id
	}
	return c
}

// SomeOutcomes is one valid assignment of outcomes for a shape: passing just above leaves where possible.
func SomeOutcomes(parents []int) []string {
	n := len(parents)
	kids := make([]int, n)
	for _, p := range parents {
		if p >= 0 {
			kids[p]++
		}
	}
	out := make([]string, n)
	for i := range out {
		switch {
		case i == 0:
			out[i] = Unset
		case kids[i] == 0:
			out[i] = Fail
		case kids[i] == 1 && kids[i+1] == 0:
			out[i] = Pass
		default:
			out[i] = Inc
		}
	}
	return out
}
