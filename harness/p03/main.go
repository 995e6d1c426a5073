// P03: every trace becomes exactly one test, uniquely and stably named.
package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/bb"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/mc"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/spec"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/words"
)

func mk(i int, name string) trace.Forbidden {
	// The index is in the forbidden event, so that every trace of a file is told apart.
	return trace.New(testlang.Input("p", value.Int(int64(i)))).ForbidWithName(testlang.Output("bar", value.Int(int64(i))), name)
}

// check names one file's worth of traces on the real code and compares with the reference.
func check(r *mc.R, names []string, sameContent bool) {
	traces := make([]trace.Forbidden, len(names))
	for i, n := range names {
		traces[i] = mk(i, n)
		if sameContent {
			traces[i] = mk(0, n)
		}
	}
	before := append([]trace.Forbidden{}, traces...)
	var got map[string]trace.Forbidden
	sig := fmt.Sprintf("name %q", clip(names))
	if p := mc.Catch(func() { got = trace.Name(traces) }); p != "" {
		r.Violate(sig, "panic: "+p, names)
		return
	}
	want := spec.Names(names)
	if len(got) != len(names) {
		r.Violate(sig, fmt.Sprintf("%d traces gave %d tests: %v", len(names), len(got), keys(got)), names)
		return
	}
	for i, w := range want {
		g, ok := got[w]
		if !ok {
			r.Violate(sig, fmt.Sprintf("trace %d should be named %q; names are %v", i, w, keys(got)), names)
			return
		}
		if !reflect.DeepEqual(g, before[i]) {
			r.Violate(sig, fmt.Sprintf("test %q holds %v instead of %v", w, g, before[i]), names)
			return
		}
	}
}

func clip(names []string) []string {
	if len(names) > 12 {
		return append(append([]string{}, names[:12]...), fmt.Sprintf("... %d in all", len(names)))
	}
	return names
}

func keys(m map[string]trace.Forbidden) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
		if len(ks) > 20 {
			break
		}
	}
	return ks
}

func main() { mc.Main("P03", run) }

func run(r *mc.R) {
	// That naming ends at all is seen on the tool first, which can be stopped.
	for _, n := range []int{258, 1100, 2100, 70000} {
		for _, base := range []string{"", "a"} {
			var text strings.Builder
			for i := 0; i < n; i++ {
				// So that the search is not long, most have names of their own.
				if n > 3000 && i%40 != 0 {
					fmt.Fprintf(&text, "own%d", i)
				} else {
					text.WriteString(base)
				}
				fmt.Fprintf(&text, ":bar.out.%d\n", i)
			}
			res := bb.Run(r, "", text.String(), "rtcg-read-traces")
			if got := strings.Count(res.Out, "\n\t\""); res.Code != 0 || res.TimedOut || got != n {
				r.Violate(fmt.Sprintf("tool %d traces called %q", n, base), fmt.Sprintf("%d tests, exit status %d, out of time: %v: %s", got, res.Code, res.TimedOut, res.Err), nil)
				return
			}
		}
	}
	menu := []string{"", "test", "test0", "test1", "test00", "a", "a0", "a1", "a00", "Test"}
	depth := mc.Pick(r, 6, 7)
	// A state is a history of given names (a file prefix); each transition names one more trace.
	for n := 0; n <= depth; n++ {
		total := mc.Pow(len(menu), n)
		chunks := 64
		mc.Par(chunks, func(c int) {
			seq := make([]int, n)
			names := make([]string, n)
			for x := c; x < total; x += chunks {
				mc.Decode(x, len(menu), seq)
				for i, s := range seq {
					names[i] = menu[s]
				}
				check(r, names, false)
				if x%7 == 0 && n <= 4 {
					check(r, names, true)
				}
				if (x/chunks)%4096 == 0 && (r.Expired() || r.Full()) {
					return
				}
			}
		})
		if r.Expired() {
			r.Note("completed_depth", n-1)
			return
		}
		r.States.Add(int64(total))
		r.Transitions.Add(int64(total))
		r.Validated.Add(int64(total))
		if n == 3 {
			r.Sample("names %q -> %q", []string{"", "test0", "test"}, spec.Names([]string{"", "test0", "test"}))
		}
	}
	r.Note("completed_depth", depth)
	r.Note("name_menu", menu)

	// Ladders: many clashes of one base, carried past the 9/10, 99/100 and 999/1000 boundaries; bases that look
	// like synthesised names; bases already taken ahead at one position.
	ladders := 0
	top := mc.Pick(r, 1003, 3000)
	var jobs [][]string
	for _, base := range []string{"", "test", "a", "a0", "a9", "a09", "test9", "9", "x y", "ünïcode", "-", "a.b", "%d", "test%d"} {
		for _, n := range []int{1, 2, 3, 9, 10, 11, 12, 99, 100, 101, 102, 256, 257, top} {
			names := make([]string, n)
			for i := range names {
				names[i] = base
			}
			jobs = append(jobs, names)
			for _, ahead := range []int{0, 1, 9, 10, 99, 100, n / 2, n - 1} {
				if n > 300 && ahead > 1 {
					continue
				}
				b := base
				if b == "" {
					b = "test"
				}
				jobs = append(jobs, append([]string{b + spec.FormatInt10(int64(ahead))}, names...),
					append(append([]string{}, names...), b+spec.FormatInt10(int64(ahead)), b))
			}
		}
		r.Sample("ladder base %q x %d", base, top)
	}
	dict, numbers := words.Source(r)
	for _, d := range dict {
		if strings.ContainsAny(d, ":\n") {
			continue
		}
		jobs = append(jobs, []string{d}, []string{d, d, d}, []string{d + "0", d, d}, []string{d, "test", "", d + "1", d}, []string{"", d, "test0", d}, []string{"test" + d, "", d + "test", ""}, []string{strings.ToUpper(d), d, strings.ToLower(d), d})
	}
	for _, n := range numbers {
		if n > 1 && n <= 2000 {
			for _, base := range []string{"", "a"} {
				names := make([]string, n+2)
				for i := range names {
					names[i] = base
				}
				jobs = append(jobs, names)
			}
			s := fmt.Sprint(n)
			jobs = append(jobs, []string{"", "test" + s, ""}, []string{s, s, "test" + s})
		}
	}
	ladders += len(jobs)
	mc.Par(len(jobs), func(i int) { check(r, jobs[i], false) })
	// Interleaved ladders of two bases.
	for _, n := range []int{5, 20, 120, 500} {
		for _, pair := range [][2]string{{"", "test0"}, {"", "test1"}, {"a", "a0"}, {"a", "a1"}, {"a", ""}, {"test", "test10"}, {"a1", "a"}, {"a", "a10"}} {
			var names []string
			for i := 0; i < n; i++ {
				names = append(names, pair[i%2])
			}
			check(r, names, false)
			ladders++
		}
	}
	// Very long and distinct names.
	long := strings.Repeat("n", 5000)
	check(r, []string{long, long, long + "0", long}, false)
	var uniq []string
	for i := 0; i < 5000; i++ {
		uniq = append(uniq, fmt.Sprintf("u%d", i))
	}
	check(r, uniq, false)
	ladders += 2
	// A base of which everything up to some high number has already been given out, so that the search is long.
	for _, base := range []string{"test", "a", "a1"} {
		for _, top := range []int{4096, 20000, mc.Pick(r, 300000, 3000000)} {
			names := make([]string, 0, top+3)
			for i := 0; i < top; i++ {
				names = append(names, base+spec.FormatInt10(int64(i)))
			}
			names = append(names, base, base, base)
			check(r, names, false)
			ladders++
		}
	}
	r.States.Add(int64(ladders))
	r.Transitions.Add(int64(ladders))
	r.Validated.Add(int64(ladders))

	// The same through the tool: a file of named rows in, the suite's keys and contents out.
	bbMenu := []string{"", "test", "test0", "test1", "a", "a0", "a1"}
	bbDepth := mc.Pick(r, 3, 4)
	var files [][]string
	for n := 0; n <= bbDepth; n++ {
		mc.Sequences(len(bbMenu), n, func(seq []int) bool {
			names := make([]string, n)
			for i, s := range seq {
				names[i] = bbMenu[s]
			}
			files = append(files, names)
			return true
		})
	}
	for _, n := range []int{9, 10, 11, 12, 30, 101, 300} {
		for _, b := range []string{"", "test", "a"} {
			var names []string
			for i := 0; i < n; i++ {
				names = append(names, b)
			}
			files = append(files, names)
		}
	}
	mc.Par(len(files), func(i int) {
		if r.Full() || r.Expired() {
			return
		}
		names := files[i]
		var text strings.Builder
		for j, n := range names {
			if n != "" {
				text.WriteString(n + ": ")
			}
			fmt.Fprintf(&text, "p.in.%d, bar.out.%d\n", j, j)
		}
		sig := fmt.Sprintf("tool %q", clip(names))
		res := bb.Run(r, "", text.String(), "rtcg-read-traces")
		if res.Code != 0 {
			r.Violate(sig, "rtcg-read-traces failed: "+res.Err, text.String())
			return
		}
		suite, err := spec.DecodeTrees([]byte(res.Out))
		if err != nil {
			r.Violate(sig, "unreadable output: "+err.Error(), text.String())
			return
		}
		want := spec.Names(names)
		if len(suite) != len(want) {
			r.Violate(sig, fmt.Sprintf("%d rows gave %d tests", len(want), len(suite)), text.String())
			return
		}
		for j, w := range want {
			exp := spec.Expand(spec.Trace{Prefix: []spec.Ev{{Chan: "p", Kind: spec.In, Val: spec.IntV(int64(j))}}, Forbid: spec.Ev{Chan: "bar", Kind: spec.Out, Val: spec.IntV(int64(j))}}, w)
			if suite[w] == nil || suite[w].Key() != exp.Key() {
				r.Violate(sig, fmt.Sprintf("row %d: test %q is not the test of that row", j, w), text.String())
				return
			}
		}
		r.Validated.Add(1)
	})
	r.Transitions.Add(int64(len(files)))
	r.OutcomeN("tool_runs", int64(len(files)))
}
