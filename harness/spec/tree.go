package spec

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"strings"
)

// Outcomes of nodes.
const (
	Unset = "unset"
	Inc   = "inc"
	Fail  = "fail"
	Pass  = "pass"
)

// Node is a test tree node.
type Node struct {
	ID      string
	Tests   []string
	Outcome string
	Ev      *Ev
	Next    []*Node
}

// Clone is a deep copy.
func (n *Node) Clone() *Node {
	c := *n
	c.Tests = append([]string{}, n.Tests...)
	if n.Ev != nil {
		e := *n.Ev
		c.Ev = &e
	}
	c.Next = nil
	for _, k := range n.Next {
		c.Next = append(c.Next, k.Clone())
	}
	return &c
}

// Key is an injective rendering of a tree.
func (n *Node) Key() string {
	var b strings.Builder
	n.key(&b)
	return b.String()
}

func (n *Node) key(b *strings.Builder) {
	fmt.Fprintf(b, "(%q %q %s ", n.ID, n.Tests, n.Outcome)
	if n.Ev != nil {
		b.WriteString(n.Ev.Key())
	} else {
		b.WriteString("-")
	}
	for _, k := range n.Next {
		b.WriteString(" ")
		k.key(b)
	}
	b.WriteString(")")
}

// Size is the number of nodes.
func (n *Node) Size() int {
	s := 1
	for _, k := range n.Next {
		s += k.Size()
	}
	return s
}

// Expand is the linear test tree of a forbidden trace.
func Expand(t Trace, name string) *Node {
	tags := func() []string { return []string{name} }
	root := &Node{Tests: tags(), Outcome: Unset}
	cur := root
	for i := range t.Prefix {
		e := t.Prefix[i]
		k := &Node{Tests: tags(), Outcome: Inc, Ev: &e}
		cur.Next = []*Node{k}
		cur = k
	}
	f := t.Forbid
	p := &Node{Tests: tags(), Outcome: Pass, Ev: &f}
	p.Next = []*Node{{Tests: tags(), Outcome: Fail}}
	cur.Next = []*Node{p}
	return root
}

// Valid tells whether a test is well formed.
func Valid(root *Node) bool {
	if root.Ev != nil || root.Outcome != Unset || len(root.Tests) == 0 {
		return false
	}
	for _, k := range root.Next {
		if !validNode(k) {
			return false
		}
	}
	return true
}

func validNode(n *Node) bool {
	if len(n.Tests) == 0 {
		return false
	}
	switch n.Outcome {
	case Fail:
		if n.Ev != nil || len(n.Next) > 0 {
			return false
		}
	case Inc:
		if n.Ev == nil || len(n.Next) == 0 {
			return false
		}
	case Pass:
		if n.Ev == nil || len(n.Next) != 1 {
			return false
		}
	default:
		return false
	}
	for _, k := range n.Next {
		if !validNode(k) {
			return false
		}
	}
	return true
}

// jnode is the interchange form of a node.
type jnode struct {
	ID      string   `json:"id"`
	Tests   []string `json:"tests"`
	Outcome string   `json:"outcome"`
	Event   *string  `json:"event"`
	Next    []*jnode `json:"next"`
}

// DecodeTrees reads the interchange form of a test suite, strictly.
func DecodeTrees(text []byte) (map[string]*Node, error) {
	d := json.NewDecoder(bytes.NewReader(text))
	d.DisallowUnknownFields()
	var m map[string]*jnode
	if err := d.Decode(&m); err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("trailing data after the suite")
	}
	if m == nil {
		return nil, fmt.Errorf("no object")
	}
	out := map[string]*Node{}
	for k, j := range m {
		n, err := j.node()
		if err != nil {
			return nil, fmt.Errorf("%s: %w", k, err)
		}
		out[k] = n
	}
	return out, nil
}

func (j *jnode) node() (*Node, error) {
	if j == nil {
		return nil, fmt.Errorf("null node")
	}
	n := &Node{ID: j.ID, Tests: j.Tests, Outcome: j.Outcome}
	switch j.Outcome {
	case "":
		n.Outcome = Unset
	case Unset, Inc, Fail, Pass:
	default:
		return nil, fmt.Errorf("outcome %q", j.Outcome)
	}
	if j.Event != nil {
		ev, ok := ParseEvent(*j.Event)
		if !ok {
			return nil, fmt.Errorf("event %q", *j.Event)
		}
		n.Ev = &ev
	}
	for _, k := range j.Next {
		c, err := k.node()
		if err != nil {
			return nil, err
		}
		n.Next = append(n.Next, c)
	}
	return n, nil
}

func jstr(b *bytes.Buffer, s string) {
	bs, _ := json.Marshal(s)
	b.Write(bs)
}

func (n *Node) encode(b *bytes.Buffer) {
	b.WriteString("{")
	sep := ""
	field := func(name string) {
		b.WriteString(sep + "\"" + name + "\":")
		sep = ","
	}
	if n.ID != "" {
		field("id")
		jstr(b, n.ID)
	}
	if len(n.Tests) > 0 {
		field("tests")
		b.WriteString("[")
		for i, t := range n.Tests {
			if i > 0 {
				b.WriteString(",")
			}
			jstr(b, t)
		}
		b.WriteString("]")
	}
	if n.Outcome != Unset && n.Outcome != "" {
		field("outcome")
		jstr(b, n.Outcome)
	}
	if n.Ev != nil {
		field("event")
		jstr(b, n.Ev.Text())
	}
	if len(n.Next) > 0 {
		field("next")
		b.WriteString("[")
		for i, k := range n.Next {
			if i > 0 {
				b.WriteString(",")
			}
			k.encode(b)
		}
		b.WriteString("]")
	}
	b.WriteString("}")
}

// EncodeTrees writes the interchange form of a suite.
func EncodeTrees(suite map[string]*Node) []byte {
	var b bytes.Buffer
	names := make([]string, 0, len(suite))
	for k := range suite {
		names = append(names, k)
	}
	sort.Strings(names)
	b.WriteString("{")
	for i, k := range names {
		if i > 0 {
			b.WriteString(",\n")
		}
		jstr(&b, k)
		b.WriteString(":")
		suite[k].encode(&b)
	}
	b.WriteString("}\n")
	return b.Bytes()
}
