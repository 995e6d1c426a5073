package spec

import (
	"encoding/json"
	"fmt"
)

// A schema has the fields of an object ("*" is any), or the items of a list ("[]").
type schema map[string]schema

var treeFields = func() schema {
	node := schema{"id": nil, "tests": nil, "outcome": nil, "event": nil}
	node["next"] = schema{"[]": node}
	return schema{"*": node}
}()

var stmFields = schema{
	"types": nil,
	"tests": {"*": {"types": nil, "tests": nil, "states": {"[]": {
		"id": nil, "verdicts": nil, "transitionSets": {"[]": {"channel": nil, "transitions": {"[]": {"value": nil, "next": nil}}}},
	}}}},
}

// TreeFields checks that the fields in a file of trees are spelled exactly as they should be, as readers other than Go's
// expect.
func TreeFields(text []byte) error { return fields(text, treeFields) }

// StmFields does so for a file of state machines.
func StmFields(text []byte) error { return fields(text, stmFields) }

func fields(text []byte, s schema) error {
	var v any
	if err := json.Unmarshal(text, &v); err != nil {
		return err
	}
	return s.check(v)
}

func (s schema) check(v any) error {
	if s == nil {
		return nil
	}
	switch v := v.(type) {
	case map[string]any:
		for k, w := range v {
			sub, ok := s[k]
			if !ok {
				if sub, ok = s["*"]; !ok {
					return fmt.Errorf("unexpected field %q", k)
				}
			}
			if err := sub.check(w); err != nil {
				return err
			}
		}
	case []any:
		for _, w := range v {
			if err := s["[]"].check(w); err != nil {
				return err
			}
		}
	}
	return nil
}
