// P01: trace files are read exactly as written, or rejected.
package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/UoY-RoboStar/rtcg/internal/trace"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/bb"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/conv"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/mc"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/spec"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/words"
)

func render(ts []spec.Trace) string {
	var b strings.Builder
	for _, t := range ts {
		b.WriteString(t.Key())
		b.WriteString("\n")
	}
	return b.String()
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

// read runs the real reader; ok is false if it rejected.
func read(src io.Reader) (ts []spec.Trace, ok bool, msg string) {
	var (
		got []trace.Forbidden
		err error
	)
	if p := mc.Catch(func() { got, err = trace.Read(src) }); p != "" {
		return nil, false, "panic: " + p
	}
	if err != nil {
		return nil, false, ""
	}
	for _, t := range got {
		ts = append(ts, conv.Trace(t))
	}
	return ts, true, ""
}

type counts struct{ accepted, rejected int64 }

func check(r *mc.R, text string, c *counts) {
	want, wantOK := spec.ParseTraces(text)
	got, ok, msg := read(strings.NewReader(text))
	switch {
	case msg != "":
		r.Violate(fmt.Sprintf("text %q", clip(text)), msg, text)
	case ok != wantOK:
		r.Violate(fmt.Sprintf("text %q", clip(text)), fmt.Sprintf("accepted=%v, should be %v (traces: %s)", ok, wantOK, render(got)), text)
	case ok && render(got) != render(want):
		r.Violate(fmt.Sprintf("text %q", clip(text)), fmt.Sprintf("read as\n%sshould be\n%s", render(got), render(want)), text)
	}
	if ok {
		c.accepted++
	} else {
		c.rejected++
	}
}

// enumerate checks before+s+after for every token sequence s of length exactly n.
func enumerate(r *mc.R, tokens []string, n int, contexts [][2]string) bool {
	total := mc.Pow(len(tokens), n)
	const chunks = 128
	cs := make([]counts, chunks)
	mc.Par(chunks, func(c int) {
		seq := make([]int, n)
		var b strings.Builder
		for x := c; x < total; x += chunks {
			mc.Decode(x, len(tokens), seq)
			for _, ctx := range contexts {
				b.Reset()
				b.WriteString(ctx[0])
				for _, s := range seq {
					b.WriteString(tokens[s])
				}
				b.WriteString(ctx[1])
				check(r, b.String(), &cs[c])
			}
			if (x/chunks)%2048 == 0 && (r.Expired() || r.Full()) {
				return
			}
		}
	})
	var sum counts
	for _, c := range cs {
		sum.accepted += c.accepted
		sum.rejected += c.rejected
	}
	r.OutcomeN("accepted", sum.accepted)
	r.OutcomeN("rejected", sum.rejected)
	cases := sum.accepted + sum.rejected
	r.States.Add(cases)
	r.Transitions.Add(cases)
	r.Validated.Add(cases)
	return !r.Expired() && !r.Full()
}

// chunked delivers data in the given pieces, then err (io.EOF for a normal end).
type chunked struct {
	pieces   []string
	err      error
	withData bool // the error comes together with the last piece
	zeros    bool // an empty read before each piece
	zeroNext bool
}

func (c *chunked) Read(p []byte) (int, error) {
	if c.zeros {
		c.zeroNext = !c.zeroNext
		if c.zeroNext {
			return 0, nil
		}
	}
	if len(c.pieces) == 0 {
		return 0, c.err
	}
	n := copy(p, c.pieces[0])
	c.pieces[0] = c.pieces[0][n:]
	if c.pieces[0] == "" {
		c.pieces = c.pieces[1:]
		if len(c.pieces) == 0 && c.withData {
			return n, c.err
		}
	}
	return n, nil
}

var errBoom = errors.New("injected read error")

func deliveries(r *mc.R, text string) {
	want, wantOK := spec.ParseTraces(text)
	wantText := render(want)
	n := int64(0)
	try := func(what string, src io.Reader) {
		got, ok, msg := read(src)
		n++
		if msg != "" || ok != wantOK || ok && render(got) != wantText {
			r.Violate(fmt.Sprintf("delivery %s of %q", what, clip(text)), fmt.Sprintf("accepted=%v %s\n%sshould be accepted=%v\n%s", ok, msg, render(got), wantOK, wantText), text)
		}
	}
	for i := 0; i <= len(text); i++ {
		try(fmt.Sprintf("split at %d", i), &chunked{pieces: nonEmpty(text[:i], text[i:]), err: io.EOF})
		try(fmt.Sprintf("split at %d, EOF with data", i), &chunked{pieces: nonEmpty(text[:i], text[i:]), err: io.EOF, withData: true})
		for j := i; j <= len(text); j++ {
			try(fmt.Sprintf("split at %d,%d", i, j), &chunked{pieces: nonEmpty(text[:i], text[i:j], text[j:]), err: io.EOF, zeros: (i+j)%2 == 1})
		}
	}
	for size := 1; size < 9; size++ {
		var ps []string
		for i := 0; i < len(text); i += size {
			ps = append(ps, text[i:min(i+size, len(text))])
		}
		try(fmt.Sprintf("pieces of %d", size), &chunked{pieces: append([]string{}, ps...), err: io.EOF})
		try(fmt.Sprintf("pieces of %d with empty reads", size), &chunked{pieces: append([]string{}, ps...), err: io.EOF, zeros: true})
	}
	// A read error at any point, alone or together with data, must be reported.
	for i := 0; i <= len(text); i++ {
		for _, e := range []error{errBoom, io.ErrUnexpectedEOF, os.ErrClosed, io.ErrNoProgress} {
			for _, with := range []bool{false, true} {
				_, ok, msg := read(&chunked{pieces: nonEmpty(text[:i]), err: e, withData: with})
				n++
				if ok || msg != "" {
					r.Violate(fmt.Sprintf("error %v at %d (with data: %v) of %q", e, i, with, clip(text)), "the read error was not reported: "+msg, text)
				}
			}
		}
	}
	r.OutcomeN("deliveries", n)
	r.States.Add(n)
	r.Transitions.Add(n)
	r.Validated.Add(n)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func nonEmpty(ss ...string) []string {
	var out []string
	for _, s := range ss {
		if s != "" {
			out = append(out, s)
		}
	}
	return out
}

func main() { mc.Main("P01", run) }

func run(r *mc.R) {
	// A. Every short token string, bare and in contexts in which rows are nearly complete.
	tokens := []string{"a", ".", "in", ",", ":", " ", "\"", "#", "\n", "7", "\r\n", "b.out.x"}
	bare := mc.Pick(r, 6, 7)
	for n := 0; n <= bare; n++ {
		if !enumerate(r, tokens, n, [][2]string{{"", ""}}) {
			return
		}
	}
	contexts := [][2]string{
		{"a.in", ""}, {"a.in.", ""}, {"", "a.in"}, {"", ".out.7"}, {"n:", "a.in"}, {"a.in,", "b.out"}, {"\"", "\""}, {"\"a.in", "\""},
		{"x.in\n", "a.out"}, {"x.in\r\n", "a.out\r\n"}, {"a.in", "\nb.out.3\n"}, {"a.in,b.out.", ",c.call\n#z\n"}, {"n", "a.out"}, {"a.", "in"},
	}
	ctxDepth := mc.Pick(r, 5, 6)
	for n := 0; n <= ctxDepth; n++ {
		if !enumerate(r, tokens, n, contexts) {
			return
		}
	}
	spaces := []string{" ", "\t", "\v", "\f", "\u00a0", "\u2003", "\u0085", "\u200b", "\ufeff", "\r", "_", "'", ";", "\\", "é", "٣", "-", "+", "0", "9", "E", "x"}
	for n := 0; n <= 2; n++ {
		if !enumerate(r, spaces, n, [][2]string{{"", "a.in.7"}, {"a", ".in.7"}, {"a.", "in.7"}, {"a.in", ".7"}, {"a.in.", "7"}, {"a.in.7", ""}, {"n", ":a.in.7"}, {"", "n:a.in.7"},
			{"n:", "a.in.7"}, {"x.in,", "a.in.7"}, {"x.in.3", ",a.in.7"}, {"\"", "a.in.7\""}, {"\"a.in.7", "\""}, {"a.in.7\n", "b.out\n"}, {"a.in.7\n", ""}}) {
			return
		}
	}
	r.Note("bare_token_depth", bare)
	r.Note("context_token_depth", ctxDepth)
	r.Note("tokens", tokens)

	// B. The cell grammar: name x channel x direction x value, with paddings.
	var cs counts
	names := []string{"", ":", "n:", " n :", "n m:", "test:", "n:m:", "n.x:", "ü:", "#n:", "'n':", "7:"}
	chans := []string{"a", "a b", "ä", "A", "a#", "", " ", "7", "a-b", "_", "a/b", "in"}
	dirs := []string{"in", "In", "IN", "iN", "out", "OUT", "oUt", "call", "CALL", "Call", "inn", "i", "", "i n", "input", "0", "1"}
	values := []string{"", ".", ".0", ".-0", ".+0", ".7", ".+7", ".-7", ".007", ".-007", ".9223372036854775807", ".9223372036854775808", ".-9223372036854775808", ".-9223372036854775809",
		".4294967296", ".-4294967296", ".2147483648", ".18446744073709551616", ".99999999999999999999999", ".1_000", ".0x10", ".0b1", ".0o7", ".1e3", ".1.5", ".a.b", "..", "...", ".{| p=1 |}", ".a:b", ".7 7", ".٣", ".７", ".true", ".-", ".+", ".--1", ".+-1", ".-+1", ".NaN", ".Ok", ".OK", ".ok", ".- 1", ".7.", ".7.0", ".'7'", ".null", ".\u00e9"}
	for _, nm := range names {
		for _, ch := range chans {
			for _, d := range dirs {
				for _, v := range values {
					check(r, nm+ch+"."+d+v, &cs)
					check(r, nm+" "+ch+" . "+d+" "+pad(v)+" ", &cs)
					check(r, "p.in,"+ch+"."+d+v+",q.out.1\n", &cs)
					if !strings.Contains(nm, "#") {
						check(r, "\""+nm+ch+"."+d+v+"\",\" z.out.3 \"", &cs)
					}
				}
			}
		}
		if r.Expired() || r.Full() {
			return
		}
	}
	r.Sample("cell %q reads as %s", " n : a . OUT . 007 ", func() string { ts, _ := spec.ParseTraces(" n : a . OUT . 007 "); return render(ts) }())

	// The words and numbers of the sources, at each place of a row.
	dict, numbers := words.Source(r)
	for _, d := range dict {
		for _, d := range []string{d, strings.ToUpper(d), strings.Title(d)} { //nolint:staticcheck
			for _, c := range [][2]string{{"", ""}, {"", ".in.1"}, {"a.", ".1"}, {"a.in.", ""}, {"", ":a.in.1"}, {"n:", ""}, {"n:", ".in.1"}, {"x.in,", ""}, {"x.in,", ".out.1"},
				{"x.in, y.out.", ",z.call"}, {"#", "\na.in.1"}, {"\"a.in.", "\""}, {"a.in.1\n", ""}, {"a.in.1\n", ".in.2"}, {"a.in.1\n", ":b.out.2"}, {"a.in.7", ""}, {"a", ".in.7"}, {"", "a.in.7"}, {"n", ":a.out.7"}, {"", "n:a.out.7"}} {
				check(r, c[0]+d+c[1], &cs)
			}
		}
	}
	for _, n := range numbers {
		for _, s := range []string{fmt.Sprint(n), fmt.Sprint(n - 1), fmt.Sprint(n + 1), fmt.Sprint(-n), fmt.Sprint(-n - 1), fmt.Sprintf("%#x", n), fmt.Sprintf("0%o", n)} {
			for _, c := range [][2]string{{"a.in.", ""}, {"", ".in.1"}, {"x.in,a.out.", ",b.in"}, {"", ":a.in.1"}, {"a.in.1\nb.out.", "\n"}} {
				check(r, c[0]+s+c[1], &cs)
			}
		}
		if n <= 5000 {
			for _, n := range []int{n - 1, n, n + 1} {
				if n < 0 {
					continue
				}
				for _, x := range []string{"a.in.1,", "#\n", "n:a.in.1,b.out\n", "c", " ", "9", "\n"} {
					check(r, strings.Repeat(x, n)+"a.in.1", &cs)
					check(r, "a.in.1"+strings.Repeat(x, n), &cs)
				}
			}
		}
	}
	if r.Expired() || r.Full() {
		return
	}

	// C. Files of up to four rows from a menu, in both line-ending styles, with and without a final line end.
	rows := []string{"a.in", "n: a.in.1, b.out.Ok", "n: b.out, a.in, a.in", "# c", "", " ", "\"x.in.2\",\"y.out.\"\"q\"\"\"", "\"m:a.in\nb\"", "broken", "a.in,", "a.in.\"q\"", "\"open", " # not a comment.out", "a.in,#x.out.1", ":a.call.-3"}
	maxRows := mc.Pick(r, 4, 5)
	for n := 0; n <= maxRows; n++ {
		total := mc.Pow(len(rows), n)
		parts := make([]counts, 64)
		mc.Par(64, func(c int) {
			seq := make([]int, n)
			for x := c; x < total; x += 64 {
				mc.Decode(x, len(rows), seq)
				for _, nl := range []string{"\n", "\r\n"} {
					var ss []string
					for _, s := range seq {
						ss = append(ss, strings.ReplaceAll(rows[s], "\n", nl))
					}
					text := strings.Join(ss, nl)
					check(r, text, &parts[c])
					check(r, text+nl, &parts[c])
				}
				if r.Full() {
					return
				}
			}
		})
		for _, p := range parts {
			cs.accepted += p.accepted
			cs.rejected += p.rejected
		}
		if r.Expired() {
			return
		}
	}
	r.Note("max_rows", maxRows)

	// E. Sizes no fixed buffer holds.
	long := func(s string, n int) string { return strings.Repeat(s, n) }
	for _, n := range []int{1, 2, 10, 255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, 65537, 200000} {
		for _, text := range []string{
			long("c", n) + ".in", "a.in." + long("v", n), long("n", n) + ": a.out.3", "\"a.in." + long("\"\"", n) + "\"", "\"a.in." + long("v\n", n) + "\"",
			long("#c\n", n) + "a.in", long("\n", n) + "a.in", "#" + long("c", n) + "\na.in.1", "a.in.1" + long(" ", n), long(" ", n) + "a.in.1", "a.in." + long("0", n) + "7",
			"a.in,b.out." + long("x.", n) + ",c.in\nd.in\n", "a.in.1" + long(" ", n) + "\n" + "b.in.1" + long(" ", n) + "x", long("a.b,", 1) + long("w", n) + ".in",
		} {
			check(r, text, &cs)
		}
		m := n
		if m > 20000 {
			m = 20000
		}
		check(r, long("a.in.1, ", m)+"b.out.2", &cs)
		check(r, long("a.in.1, b.out.x\n", m), &cs)
		check(r, long("n: a.in.1\r\n", m)+"broken", &cs)
		check(r, long("a.in.1,", m)+"broken,b.out", &cs)
		r.Outcome("ladder_size")
	}
	huge := []string{
		long("a.in.1, b.out.x\n", 150000), long("a.in.1, b.out.x\n", mc.Pick(r, 400000, 3000000)), long("a.in.1, b.out.x\n", 300000) + "broken\n",
		long("a.in.1,", mc.Pick(r, 200000, 1000000)) + "b.out.2\n", "a.in." + long("v", mc.Pick(r, 6000000, 40000000)), long("# comment\n", 700000) + "a.in\n",
	}
	for i := range huge {
		check(r, huge[i], &counts{})
	}
	cs.accepted += int64(len(huge)) - 1
	cs.rejected++
	r.OutcomeN("accepted", cs.accepted)
	r.OutcomeN("rejected", cs.rejected)
	cases := cs.accepted + cs.rejected
	r.States.Add(cases)
	r.Transitions.Add(cases)
	r.Validated.Add(cases)

	// D. Every delivery of sample files, and every position of a read error.
	files := []string{
		"a.in\n", "a.in.1, b.out.Ok\n# c\n\nn: c.call.-5, d.out\n", "\"x.in.2\",\"y.out.\"\"q\"\"\"\r\n\r\nz.in.\u00e9\u4e16\r\n", "\"m:a.in\nb\", c.out\nlast.in.9223372036854775807",
		"a.in\nbroken\nb.out\n", "#only a comment", "", "a.in\r\nb.out\r", "\"open\na.in", "a.in.x\"y\nb.in\n", "a.in.1\n" + strings.Repeat("b.out.22, ", 9) + "c.in\n",
	}
	mc.Par(len(files), func(i int) { deliveries(r, files[i]) })
	if r.Expired() {
		return
	}

	// F. The tool itself: by name, as '-', without an argument, and through a slow pipe.
	var bbFiles []string
	bbFiles = append(bbFiles, files...)
	for _, a := range rows {
		for _, b := range rows {
			bbFiles = append(bbFiles, a+"\n"+b+"\n")
		}
	}
	bbFiles = append(bbFiles, strings.Repeat("a.in.1, b.out.x\n", 5000), "a.in."+strings.Repeat("v", 150000))
	mc.Par(len(bbFiles), func(i int) { tool(r, i, bbFiles[i], i < len(files)) })
	r.Validated.Add(int64(len(bbFiles)))
	r.Sample("tool on %q", bbFiles[1])
}

func pad(v string) string {
	if v == "" {
		return ""
	}
	return ". " + v[1:] + " "
}

// slow hands out one byte at a time, so that the tool's pipe really sees short reads.
type slow struct {
	s     string
	pause time.Duration
}

func (s *slow) Read(p []byte) (int, error) {
	if s.s == "" {
		return 0, io.EOF
	}
	time.Sleep(s.pause)
	p[0] = s.s[0]
	s.s = s.s[1:]
	return 1, nil
}

func tool(r *mc.R, i int, text string, pipes bool) {
	if r.Full() {
		return
	}
	path := filepath.Join(r.Work, fmt.Sprintf("in%d.csv", i))
	if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
		r.Broken("%v", err)
		return
	}
	defer os.Remove(path)
	runs := map[string]bb.Res{
		"file":   bb.Run(r, "", "", "rtcg-read-traces", path),
		"dash":   bb.Run(r, "", text, "rtcg-read-traces", "-"),
		"no-arg": bb.Run(r, "", text, "rtcg-read-traces"),
	}
	if pipes {
		runs["slow pipe"] = bb.RunEnv(r, "", nil, &slow{text, 0}, "rtcg-read-traces")
	}
	traces, ok := spec.ParseTraces(text)
	var given []string
	for _, t := range traces {
		given = append(given, t.Name)
	}
	names := spec.Names(given)
	for how, res := range runs {
		r.Outcome("tool_runs")
		sig := fmt.Sprintf("tool (%s) %q", how, clip(text))
		if (res.Code == 0) != ok {
			r.Violate(sig, fmt.Sprintf("exit status %d, stderr %q; the file should be accepted: %v", res.Code, res.Err, ok), text)
			continue
		}
		if !ok {
			if res.Out != "" || res.Err == "" || res.Crashed() {
				r.Violate(sig, fmt.Sprintf("not a clean rejection: stdout %q stderr %q", clip(res.Out), clip(res.Err)), text)
			}
			continue
		}
		suite, err := spec.DecodeTrees([]byte(res.Out))
		if err != nil {
			r.Violate(sig, "unreadable output: "+err.Error(), text)
			continue
		}
		bad := len(suite) != len(traces)
		for j, t := range traces {
			exp := spec.Expand(t, names[j])
			if n := suite[names[j]]; n == nil || n.Key() != exp.Key() {
				bad = true
			}
		}
		if bad {
			r.Violate(sig, "the suite written is not that of the file: "+clip(res.Out), text)
		}
	}
}
