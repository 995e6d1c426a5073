package spec

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
	"unicode/utf16"
)

// jv is a JSON value that keeps the order of its members.
type jv struct {
	kind byte // '{', '[', '"' or 'v' (anything else)
	keys []string
	kids []*jv
	text string
}

func readJV(d *json.Decoder) (*jv, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch t := t.(type) {
	case json.Delim:
		v := &jv{kind: byte(t)}
		for d.More() {
			if t == '{' {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				v.keys = append(v.keys, k.(string))
			}
			c, err := readJV(d)
			if err != nil {
				return nil, err
			}
			v.kids = append(v.kids, c)
		}
		_, err := d.Token()
		return v, err
	case string:
		return &jv{kind: '"', text: t}, nil
	default:
		bs, err := json.Marshal(t)
		return &jv{kind: 'v', text: string(bs)}, err
	}
}

// style is a way of writing JSON.
type style struct {
	name              string
	between, colon    string
	reverse, rotate   bool
	escape            bool // every character as \uXXXX
	slash             bool // the short escapes, and raw characters otherwise
	missing           int  // what to do about what is missing: 0 nothing, 1 empty, 2 null
	leading, trailing string
}

func (s style) str(b *bytes.Buffer, x string) {
	b.WriteByte('"')
	for _, c := range x {
		switch short := strings.IndexRune("\"\\/\b\f\n\r\t", c); {
		case s.escape:
			if c >= 0x10000 {
				hi, lo := utf16.EncodeRune(c)
				fmt.Fprintf(b, `\u%04x\u%04X`, hi, lo)
			} else {
				fmt.Fprintf(b, `\u%04X`, c)
			}
		case short >= 0 && (s.slash || c != '/'):
			b.WriteString([]string{`\"`, `\\`, `\/`, `\b`, `\f`, `\n`, `\r`, `\t`}[short])
		case c < ' ':
			fmt.Fprintf(b, `\u%04x`, c)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
}

func (s style) write(b *bytes.Buffer, v *jv) {
	switch v.kind {
	case '"':
		s.str(b, v.text)
		return
	case 'v':
		b.WriteString(v.text)
		return
	}
	b.WriteByte(v.kind)
	b.WriteString(s.between)
	n := len(v.kids)
	for i := 0; i < n; i++ {
		at := i
		if v.kind == '{' && s.reverse {
			at = n - 1 - i
		}
		if v.kind == '{' && s.rotate {
			at = (i + n/2) % n
		}
		if i > 0 {
			b.WriteString("," + s.between)
		}
		if v.kind == '{' {
			s.str(b, v.keys[at])
			b.WriteString(s.colon)
		}
		s.write(b, v.kids[at])
		b.WriteString(s.between)
	}
	b.WriteByte(v.kind + 2)
}

// jschema says which members an object can lack and still mean the same, and what is in it.
type jschema struct {
	empty map[string]string
	inner map[string]*jschema
	each  *jschema
	null  []string // the members for which null means the same as nothing
}

var nodeSchema = &jschema{empty: map[string]string{"id": `""`, "tests": "[]", "next": "[]", "outcome": `"unset"`}, null: []string{"id", "tests", "next", "event", "outcome"}}

var treesSchema = &jschema{each: nodeSchema}

var stmsSchema = &jschema{empty: map[string]string{"types": "{}", "tests": "{}"}, null: []string{"types", "tests"}, inner: map[string]*jschema{"tests": {each: &jschema{
	inner: map[string]*jschema{"states": {each: &jschema{
		empty: map[string]string{"transitionSets": "[]", "verdicts": "{}"}, null: []string{"transitionSets"},
		inner: map[string]*jschema{"transitionSets": {each: &jschema{
			empty: map[string]string{"transitions": "[]"}, null: []string{"transitions"},
			inner: map[string]*jschema{"transitions": {each: &jschema{empty: map[string]string{"next": `""`}, null: []string{"value", "next"}}}},
		}}},
	}}},
}}}}

func init() { nodeSchema.inner = map[string]*jschema{"next": {each: nodeSchema}} }

// fill adds what is missing.
func (v *jv) fill(s *jschema, how int) {
	if s == nil {
		return
	}
	has := map[string]bool{}
	for i, k := range v.kids {
		if s.each != nil {
			k.fill(s.each, how)
		}
		if v.kind == '{' {
			has[v.keys[i]] = true
			k.fill(s.inner[v.keys[i]], how)
		}
	}
	if v.kind != '{' || s.each != nil {
		return
	}
	if how == 1 {
		for _, k := range []string{"id", "tests", "next", "outcome", "types", "transitionSets", "verdicts", "transitions"} {
			if e, ok := s.empty[k]; ok && !has[k] {
				v.keys = append(v.keys, k)
				v.kids = append(v.kids, &jv{kind: 'v', text: e})
			}
		}
		return
	}
	for _, k := range s.null {
		if !has[k] {
			v.keys = append(v.keys, k)
			v.kids = append(v.kids, &jv{kind: 'v', text: "null"})
		}
	}
}

var styles = []style{
	{name: "minimal", colon: ":"},
	{name: "roomy", between: " \r\n\t ", colon: "\t:\n", leading: "\n\r\t ", trailing: "\r\n\n\t  "},
	{name: "reversed", colon: ": ", reverse: true, slash: true, trailing: "\n"},
	{name: "rotated", between: "\n", colon: ":", rotate: true},
	{name: "escaped", between: " ", colon: ":", escape: true},
	{name: "with what is empty", between: "\n", colon: ": ", missing: 1},
	{name: "with nulls", colon: ":", missing: 2, reverse: true},
	{name: "with everything", colon: ":", missing: 1, rotate: true, escape: true, between: "\r", leading: " ", trailing: " "},
}

func dress(text []byte, s *jschema) (names []string, out [][]byte) {
	for _, st := range styles {
		d := json.NewDecoder(bytes.NewReader(text))
		d.UseNumber()
		v, err := readJV(d)
		if err != nil {
			panic(err)
		}
		if st.missing > 0 {
			v.fill(s, st.missing)
		}
		var b bytes.Buffer
		b.WriteString(st.leading)
		st.write(&b, v)
		b.WriteString(st.trailing)
		names, out = append(names, st.name), append(out, b.Bytes())
	}
	return names, out
}

// DressTrees is other ways of writing a test suite file.
func DressTrees(text []byte) ([]string, [][]byte) { return dress(text, treesSchema) }

// DressStms is other ways of writing a state machine suite file.
func DressStms(text []byte) ([]string, [][]byte) { return dress(text, stmsSchema) }
