package main

import (
	"bytes"
	"encoding/json"
	"fmt"
)

// doc is a JSON document that keeps its order.
type doc struct {
	lit  string // a scalar's text, if not a composite
	obj  bool
	keys []string
	kids []*doc
}

func parse(text string) *doc {
	d := json.NewDecoder(bytes.NewReader([]byte(text)))
	d.UseNumber()
	n, err := value(d)
	if err != nil {
		panic(err)
	}
	return n
}

func value(d *json.Decoder) (*doc, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	del, ok := t.(json.Delim)
	if !ok {
		b, err := json.Marshal(t)
		return &doc{lit: string(b)}, err
	}
	n := &doc{obj: del == '{'}
	for d.More() {
		if n.obj {
			k, err := d.Token()
			if err != nil {
				return nil, err
			}
			n.keys = append(n.keys, k.(string))
		}
		k, err := value(d)
		if err != nil {
			return nil, err
		}
		n.kids = append(n.kids, k)
	}
	_, err = d.Token()
	return n, err
}

func (n *doc) String() string {
	if n.lit != "" {
		return n.lit
	}
	var b bytes.Buffer
	open, shut := "[", "]"
	if n.obj {
		open, shut = "{", "}"
	}
	b.WriteString(open)
	for i, k := range n.kids {
		if i > 0 {
			b.WriteString(",")
		}
		if n.obj {
			kb, _ := json.Marshal(n.keys[i])
			b.Write(kb)
			b.WriteString(":")
		}
		b.WriteString(k.String())
	}
	b.WriteString(shut)
	return b.String()
}

func (n *doc) clone() *doc {
	c := &doc{lit: n.lit, obj: n.obj, keys: append([]string{}, n.keys...)}
	for _, k := range n.kids {
		c.kids = append(c.kids, k.clone())
	}
	return c
}

// nodes lists all places of a document.
func (n *doc) nodes() []*doc {
	out := []*doc{n}
	for _, k := range n.kids {
		out = append(out, k.nodes()...)
	}
	return out
}

// damage calls f with every document got by one structural change; with few, a short list of changes is made.
func damage(root *doc, few bool, f func(what string, d *doc)) {
	count := len(root.nodes())
	at := func(i int, what string, g func(n *doc)) {
		c := root.clone()
		g(c.nodes()[i])
		f(fmt.Sprintf("%s at %d", what, i), c)
	}
	values := []string{"null", "0", `""`, "[]", "{}", "true", "-1", "1.5", "1e999", `"x"`, `"\u0000"`, `"a.b"`, `"y.out.2"`, "[null]", "[{}]", `[""]`, `{"x":null}`, `{"":""}`, "[[]]", "[[[]]]", `"initial"`}
	if few {
		values = values[:5]
	}
	for i := 0; i < count; i++ {
		for _, v := range values {
			v := v
			at(i, "value "+v, func(n *doc) { *n = doc{lit: v} })
		}
		here := root.nodes()[i]
		for j := range here.kids {
			j := j
			at(i, fmt.Sprintf("without member %d", j), func(n *doc) {
				n.kids = append(n.kids[:j:j], n.kids[j+1:]...)
				if n.obj {
					n.keys = append(n.keys[:j:j], n.keys[j+1:]...)
				}
			})
			if few {
				continue
			}
			if here.obj {
				at(i, fmt.Sprintf("member %d renamed", j), func(n *doc) { n.keys[j] = "zz" + n.keys[j] })
				at(i, fmt.Sprintf("member %d with no name", j), func(n *doc) { n.keys[j] = "" })
				at(i, fmt.Sprintf("member %d in capitals", j), func(n *doc) { n.keys[j] = string(bytes.ToUpper([]byte(n.keys[j]))) })
				at(i, fmt.Sprintf("member %d again as null", j), func(n *doc) {
					n.keys = append(n.keys, n.keys[j])
					n.kids = append(n.kids, &doc{lit: "null"})
				})
				at(i, fmt.Sprintf("member %d before as null", j), func(n *doc) {
					n.keys = append([]string{n.keys[j]}, n.keys...)
					n.kids = append([]*doc{{lit: "null"}}, n.kids...)
				})
			} else {
				at(i, fmt.Sprintf("element %d twice", j), func(n *doc) { n.kids = append(n.kids, n.kids[j].clone()) })
				at(i, fmt.Sprintf("null before element %d", j), func(n *doc) {
					n.kids = append(n.kids[:j:j], append([]*doc{{lit: "null"}}, n.kids[j:]...)...)
				})
			}
		}
		if here.lit == "" && !few {
			for _, v := range []string{"null", "{}", "[]", `""`, "0"} {
				v := v
				at(i, "one more "+v, func(n *doc) {
					if n.obj {
						n.keys = append(n.keys, "zz")
					}
					n.kids = append(n.kids, &doc{lit: v})
				})
			}
		}
		// Move a member's subtree up: the place becomes its own child.
		for j := range here.kids {
			j := j
			if !few {
				at(i, fmt.Sprintf("replaced by member %d", j), func(n *doc) { k := n.kids[j]; *n = *k })
			}
		}
	}
}
