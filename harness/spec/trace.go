package spec

import (
	"strings"
)

// Trace is a forbidden trace.
type Trace struct {
	Name   string
	Prefix []Ev
	Forbid Ev
}

// Key renders the trace injectively enough for comparison.
func (t Trace) Key() string {
	var b strings.Builder
	b.WriteString(quote(t.Name))
	for _, e := range t.Prefix {
		b.WriteString(" ; ")
		b.WriteString(e.Key())
	}
	b.WriteString(" !! ")
	b.WriteString(t.Forbid.Key())
	return b.String()
}

// Key renders an event with its value's type made explicit.
func (e Ev) Key() string {
	s := quote(e.Chan) + "." + kindNames[e.Kind]
	switch {
	case !e.Val.Present:
		return s
	case e.Val.IsInt:
		return s + ".int:" + FormatInt10(e.Val.Int)
	default:
		return s + ".enum:" + quote(e.Val.Str)
	}
}

func quote(s string) string {
	return "\"" + strings.ReplaceAll(strings.ReplaceAll(s, "\\", "\\\\"), "\"", "\\\"") + "\""
}

// SplitCSV splits the text of a trace file into rows of cells: RFC 4180 quoting, '#' comment lines, empty
// lines skipped, white space before a cell ignored. It fails on malformed quoting.
func SplitCSV(text string) (rows [][]string, ok bool) {
	// Physical lines, with CRLF read as LF.
	pos := 0
	nextLine := func() (string, bool) {
		if pos >= len(text) {
			return "", false
		}
		end := strings.IndexByte(text[pos:], '\n')
		if end < 0 {
			line := text[pos:]
			pos = len(text)
			return strings.TrimSuffix(line, "\r"), true
		}
		line := text[pos : pos+end]
		pos += end + 1
		if strings.HasSuffix(line, "\r") {
			line = line[:len(line)-1]
		}
		return line + "\n", true
	}
	for {
		line, more := nextLine()
		if !more {
			return rows, true
		}
		if strings.HasPrefix(line, "#") || line == "\n" || line == "" {
			continue
		}
		var cells []string
		for { // one cell per round; line is what is left
			line = trimLeft(line)
			if !strings.HasPrefix(line, "\"") {
				body := strings.TrimSuffix(line, "\n")
				cell, _, comma := strings.Cut(body, ",")
				if strings.Contains(cell, "\"") {
					return nil, false
				}
				cells = append(cells, cell)
				if !comma {
					break
				}
				line = line[len(cell)+1:]
				continue
			}
			line = line[1:]
			var cell strings.Builder
			done := false
			for !done {
				i := strings.IndexByte(line, '"')
				if i < 0 { // the cell goes on in the next physical line
					cell.WriteString(line)
					var more bool
					if line, more = nextLine(); !more {
						return nil, false
					}
					continue
				}
				cell.WriteString(line[:i])
				line = line[i+1:]
				switch {
				case strings.HasPrefix(line, "\""):
					cell.WriteByte('"')
					line = line[1:]
				case strings.HasPrefix(line, ","), line == "\n", line == "":
					done = true
				default:
					return nil, false
				}
			}
			cells = append(cells, cell.String())
			if !strings.HasPrefix(line, ",") {
				break
			}
			line = line[1:]
		}
		rows = append(rows, cells)
	}
}

// ParseTraces reads a whole trace file.
func ParseTraces(text string) ([]Trace, bool) {
	rows, ok := SplitCSV(text)
	if !ok {
		return nil, false
	}
	var traces []Trace
	for _, cells := range rows {
		var t Trace
		if i := strings.IndexByte(cells[0], ':'); i >= 0 {
			t.Name = Trim(cells[0][:i])
			cells = append([]string{cells[0][i+1:]}, cells[1:]...)
		}
		for i, cell := range cells {
			ev, ok := ParseEvent(cell)
			if !ok {
				return nil, false
			}
			if i == len(cells)-1 {
				t.Forbid = ev
			} else {
				t.Prefix = append(t.Prefix, ev)
			}
		}
		traces = append(traces, t)
	}
	return traces, true
}

// Names gives the test name of each trace of a file.
func Names(given []string) []string {
	used := map[string]bool{}
	names := make([]string, len(given))
	for i, g := range given {
		name := g
		if g == "" || g == "test" {
			g, name = "test", "test0"
		}
		for n := int64(0); used[name]; n++ {
			name = g + FormatInt10(n)
		}
		used[name] = true
		names[i] = name
	}
	return names
}
