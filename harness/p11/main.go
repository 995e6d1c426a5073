// P11: factorisation keeps every test exactly once.
package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/UoY-RoboStar/rtcg/internal/factorise"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/conv"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/maporder"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/mc"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/spec"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/words"
)

// Events that differ in one respect each.
var events = []spec.Ev{
	{Chan: "a", Kind: spec.In}, {Chan: "a", Kind: spec.Out}, {Chan: "a", Kind: spec.Call}, {Chan: "b", Kind: spec.In},
	{Chan: "a", Kind: spec.In, Val: spec.IntV(1)}, {Chan: "a", Kind: spec.In, Val: spec.IntV(-1)},
	{Chan: "a", Kind: spec.In, Val: spec.EnumV("x")}, {Chan: "a", Kind: spec.In, Val: spec.EnumV("")},
}

// Events whose printed forms, put one after the other, give the same text in more than one way.
var confusing = []spec.Ev{
	{Chan: "a", Kind: spec.In}, {Chan: "b", Kind: spec.In}, {Chan: "a.in", Kind: spec.In}, {Chan: "a.in, b", Kind: spec.In}, {Chan: "b.in, a", Kind: spec.In},
	{Chan: "a.in", Kind: spec.In, Val: spec.IntV(1)}, {Chan: "a", Kind: spec.In, Val: spec.EnumV("in, b.in")}, {Chan: "a", Kind: spec.In, Val: spec.EnumV("in")},
	{Chan: "a", Kind: spec.In, Val: spec.IntV(1)}, {Chan: "a", Kind: spec.In, Val: spec.EnumV("int!1")}, {Chan: "a", Kind: spec.In, Val: spec.EnumV("enum!\"in\"")}, {Chan: "a.in.int!1, b", Kind: spec.In},
}

func prefixOf(a, b []spec.Ev) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func realTrace(t []spec.Ev) trace.Trace { return conv.RealTrace(spec.Trace{Prefix: t}).Prefix }

func show(t []spec.Ev) string {
	s := make([]string, len(t))
	for i, e := range t {
		s[i] = e.Key()
	}
	return clip("<" + strings.Join(s, ", ") + ">")
}

func clip(s string) string {
	if len(s) > 500 {
		return s[:500] + fmt.Sprintf("...(%d)", len(s))
	}
	return s
}

// pair checks the relations between two traces.
func pair(r *mc.R, a, b []spec.Ev, ra, rb trace.Trace) {
	var pre, eq bool
	if p := mc.Catch(func() { pre, eq = ra.IsPrefixOf(rb), ra.Equals(rb) }); p != "" {
		r.Violate("relate "+show(a)+" and "+show(b), "panic: "+p, nil)
		return
	}
	if want := prefixOf(a, b); pre != want {
		r.Violate("prefix "+show(a)+" of "+show(b), fmt.Sprintf("says %v, should be %v", pre, want), nil)
	}
	if want := prefixOf(a, b) && prefixOf(b, a); eq != want {
		r.Violate("equality of "+show(a)+" and "+show(b), fmt.Sprintf("says %v, should be %v", eq, want), nil)
	}
}

// suiteCase is a named set of tests and a trace to look after.
type suiteCase struct {
	names []string
	tests []spec.Trace
	after []spec.Ev
}

func (c suiteCase) sig() string {
	var b strings.Builder
	for i, t := range c.tests {
		t.Name = c.names[i]
		fmt.Fprintf(&b, "%s | ", t.Key())
	}
	return "tests " + clip(b.String()) + " after " + show(c.after)
}

// check is as below, for every way in which the traces themselves are named.
func (c suiteCase) check(r *mc.R, run func(f func())) bool {
	for _, own := range []func(i int) string{
		func(i int) string { return "" },
		func(i int) string { return c.names[i] },
		func(i int) string { return c.names[(i+1)%len(c.names)] },
		func(i int) string { return "same" },
		func(i int) string { return fmt.Sprint("own", i) },
	} {
		if !c.checkNamed(r, run, own) {
			return false
		}
		if len(c.tests) == 0 {
			break
		}
	}
	return true
}

// checkNamed runs the factorisation on a case; run is how to call the real code (it may control the map order).
func (c suiteCase) checkNamed(r *mc.R, run func(f func()), own func(i int) string) bool {
	real := make(map[string]trace.Forbidden, len(c.tests))
	orig := make(map[string]trace.Forbidden, len(c.tests))
	for i, t := range c.tests {
		t.Name = own(i)
		real[c.names[i]] = conv.RealTrace(t)
		orig[c.names[i]] = conv.RealTrace(t)
	}
	after, afterOrig := realTrace(c.after), realTrace(c.after)
	var (
		fails []factorise.Failure
		spine []testlang.Node
	)
	bad := func(what string, args ...any) bool {
		r.Violate(c.sig(), fmt.Sprintf(what, args...), nil)
		return false
	}
	if p := mc.Catch(func() {
		run(func() { fails = factorise.Failures(real, after) })
		run(func() { spine = factorise.SpineNodes(real, after) })
	}); p != "" {
		return bad("panic: %s", p)
	}
	if !reflect.DeepEqual(real, orig) || !reflect.DeepEqual(after, afterOrig) {
		return bad("factorising changed its input")
	}
	// What should come out.
	var wantFails, wantOuts []string
	var wantSpines []string
	last := spec.Ev{}
	if n := len(c.after); n > 0 {
		last = c.after[n-1]
	}
	point := func(name string, e spec.Ev) *spec.Node {
		ev := e
		return &spec.Node{Tests: []string{name}, Outcome: spec.Pass, Ev: &ev, Next: []*spec.Node{{Tests: []string{name}, Outcome: spec.Fail}}}
	}
	inc := func(kids ...*spec.Node) *spec.Node {
		ev := last
		return &spec.Node{Outcome: spec.Inc, Ev: &ev, Next: kids}
	}
	for i, t := range c.tests {
		if len(t.Prefix) != len(c.after) || !prefixOf(t.Prefix, c.after) {
			continue
		}
		wantFails = append(wantFails, c.names[i]+" "+t.Forbid.Key())
		p := point(c.names[i], t.Forbid)
		if t.Forbid.Kind == spec.In {
			wantSpines = append(wantSpines, inc(p).Key())
		} else {
			wantOuts = append(wantOuts, p.Key())
		}
	}
	var gotFails []string
	for _, f := range fails {
		gotFails = append(gotFails, f.Test+" "+conv.Ev(f.Event).Key())
	}
	sort.Strings(wantFails)
	sort.Strings(gotFails)
	if strings.Join(wantFails, "\n") != strings.Join(gotFails, "\n") {
		return bad("failures are %q, should be %q", gotFails, wantFails)
	}
	if len(spine) == 0 {
		return bad("no spine node at all")
	}
	var gotSpines, gotOuts []string
	for i := range spine {
		n := conv.Node(&spine[i])
		if i < len(spine)-1 {
			gotSpines = append(gotSpines, n.Key())
			continue
		}
		kids := n.Next
		n.Next = nil
		if n.Key() != inc().Key() {
			return bad("the final spine node is %s, should be %s", n.Key(), inc().Key())
		}
		for _, k := range kids {
			gotOuts = append(gotOuts, k.Key())
		}
	}
	for _, l := range [][]string{wantSpines, gotSpines, wantOuts, gotOuts} {
		sort.Strings(l)
	}
	if strings.Join(wantSpines, "\n") != strings.Join(gotSpines, "\n") {
		return bad("spine nodes for inputs are\n%s\nshould be\n%s", clip(strings.Join(gotSpines, "\n")), clip(strings.Join(wantSpines, "\n")))
	}
	if strings.Join(wantOuts, "\n") != strings.Join(gotOuts, "\n") {
		return bad("the final spine node has\n%s\nshould have\n%s", clip(strings.Join(gotOuts, "\n")), clip(strings.Join(wantOuts, "\n")))
	}
	r.Evaluations.Add(1)
	if len(wantFails) > 0 {
		r.Nontrivial.Add(1)
	}
	return true
}

func plain(f func()) { f() }

func tracesUpTo(evs []spec.Ev, n int) [][]spec.Ev {
	out := [][]spec.Ev{nil}
	for l := 1; l <= n; l++ {
		mc.Sequences(len(evs), l, func(seq []int) bool {
			t := make([]spec.Ev, l)
			for i, s := range seq {
				t[i] = evs[s]
			}
			out = append(out, t)
			return true
		})
	}
	return out
}

// multisets calls f with every non-decreasing sequence of length n over 0..k-1.
func multisets(k, n int, f func(seq []int)) {
	seq := make([]int, n)
	var rec func(i, from int)
	rec = func(i, from int) {
		if i == n {
			f(seq)
			return
		}
		for x := from; x < k; x++ {
			seq[i] = x
			rec(i+1, x)
		}
	}
	rec(0, 0)
}

func main() { mc.Main("P11", run) }

func run(r *mc.R) {
	// 1. All pairs of traces.
	var pairs atomic.Int64
	relate := func(ts [][]spec.Ev) {
		reals := make([]trace.Trace, len(ts))
		for i := range ts {
			reals[i] = realTrace(ts[i])
		}
		mc.Par(len(ts), func(i int) {
			for j := range ts {
				pair(r, ts[i], ts[j], reals[i], reals[j])
			}
			pairs.Add(int64(len(ts)))
		})
	}
	relate(tracesUpTo(events, 3))
	relate(tracesUpTo(confusing, 3))
	relate(tracesUpTo(events[:4], mc.Pick(r, 5, 6)))
	relate(tracesUpTo(events[:2], mc.Pick(r, 10, 11)))
	// Long traces: a difference in every respect at every position, and every length difference.
	for _, n := range append([]int{16, 64, 257, mc.Pick(r, 600, 2000)}, words.Sizes(r, 700)...) {
		long := make([]spec.Ev, n)
		for i := range long {
			long[i] = events[i%3]
		}
		rl := realTrace(long)
		mc.Par(n, func(i int) {
			for _, e := range events {
				other := append([]spec.Ev{}, long...)
				other[i] = e
				ro := realTrace(other)
				pair(r, long, other, rl, ro)
				pair(r, other, long, ro, rl)
			}
			pair(r, long[:i], long, rl[:i:i], rl)
			pair(r, long, long[:i], rl, rl[:i:i])
			pair(r, long[i:], long, rl[i:], rl)
		})
		pairs.Add(int64(n * (2*len(events) + 3)))
	}
	// 2. All sets of tests over a domain of prefixes and forbidden events, after each trace.
	var cases atomic.Int64
	names := []string{"t", "t0", "Ünïcode \"test\"", ""}
	sets := func(prefixes [][]spec.Ev, forbids []spec.Ev, afters [][]spec.Ev, size int, ways func(c suiteCase)) {
		var domain []spec.Trace
		for _, p := range prefixes {
			for _, f := range forbids {
				domain = append(domain, spec.Trace{Prefix: p, Forbid: f})
			}
		}
		for n := 0; n <= size; n++ {
			var all [][]int
			multisets(len(domain), n, func(seq []int) { all = append(all, append([]int{}, seq...)) })
			mc.Par(64, func(w int) {
				for x := w; x < len(all) && !r.Full() && !r.Expired(); x += 64 {
					c := suiteCase{}
					for i, s := range all[x] {
						c.names = append(c.names, names[i])
						c.tests = append(c.tests, domain[s])
					}
					for _, a := range afters {
						c.after = a
						ways(c)
						cases.Add(1)
					}
				}
			})
		}
	}
	forbids := []spec.Ev{events[0], events[1], events[2], events[4]}
	small := [][]spec.Ev{nil, {events[0]}, {events[1]}, {events[0], events[1]}}
	sets(tracesUpTo(events[:3], 2), forbids, append(tracesUpTo(events[:3], 2), []spec.Ev{events[0], events[0], events[0]}), mc.Pick(r, 2, 3),
		func(c suiteCase) { c.check(r, plain) })
	sets(tracesUpTo(events, 1), events, tracesUpTo(events, 1), 2, func(c suiteCase) { c.check(r, plain) })
	sets(tracesUpTo(confusing, 2), confusing[:2], tracesUpTo(confusing, 2), 1, func(c suiteCase) { c.check(r, plain) })
	sets(small, forbids, small, mc.Pick(r, 4, 4), func(c suiteCase) { c.check(r, plain) })
	plainCases := cases.Load()
	// 3. Every order of iteration over the tests, for sets of up to four.
	orders := 0
	{
		var domain []spec.Trace
		for _, p := range small[:3] {
			for _, f := range forbids {
				domain = append(domain, spec.Trace{Prefix: p, Forbid: f})
			}
		}
		for n := 2; n <= mc.Pick(r, 4, 5) && !r.Full(); n++ {
			multisets(len(domain), n, func(seq []int) {
				if n == 5 && seq[0]%2 == 1 || r.Full() || r.Expired() {
					return
				}
				c := suiteCase{}
				for i, s := range seq {
					c.names = append(c.names, fmt.Sprint("n", i))
					c.tests = append(c.tests, domain[s])
				}
				for _, a := range small[:2] {
					c.after = a
					// Both calls iterate once over the tests; give both the same order.
					perms := [][]int{nil}
					log := 0
					perms = append(perms, maporder.Perms(n, 5)...)
					for _, p := range perms {
						c.check(r, func(f func()) {
							var plan []maporder.Choice
							if p != nil {
								plan = []maporder.Choice{{At: 0, Perm: p}}
							}
							for _, l := range maporder.InProcess(0, plan, f) {
								if l == n {
									log++
								}
							}
						})
						orders++
					}
					if log == 0 {
						r.Outcome("no map iteration seen")
					}
				}
			})
		}
	}
	cases.Add(int64(orders))
	// 4. Longer traces: two to four tests after the same trace or one that differs at one place, with the same or other events forbidden.
	for _, n := range append([]int{3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, mc.Pick(r, 70, 300)}, words.Sizes(r, 700)...) {
		if r.Full() || r.Expired() {
			break
		}
		long := make([]spec.Ev, n)
		for i := range long {
			long[i] = events[i*i%5]
		}
		var prefixes [][]spec.Ev
		for _, at := range []int{0, n / 2, n - 1} {
			other := append([]spec.Ev{}, long...)
			other[at] = events[7]
			prefixes = append(prefixes, other)
		}
		prefixes = append(prefixes, long, long[:n-1], long[1:])
		sets(prefixes[2:5], append(append([]spec.Ev{}, forbids...), events[5]), prefixes, 2, func(c suiteCase) { c.check(r, plain) })
		sets(prefixes[3:4], forbids, prefixes[3:], 4, func(c suiteCase) { c.check(r, plain) })
	}
	// 5. Large sets after the same trace.
	for _, n := range append([]int{8, 9, 17, 100, mc.Pick(r, 400, 3000)}, words.Sizes(r, 700)...) {
		for split := 0; split <= 4; split++ {
			c := suiteCase{after: small[3]}
			for i := 0; i < n; i++ {
				c.names = append(c.names, fmt.Sprint("test", i))
				t := spec.Trace{Prefix: small[3], Forbid: forbids[(i*split/2)%4]}
				if split == 4 && i%2 == 0 {
					t.Prefix = small[1]
				}
				c.tests = append(c.tests, t)
			}
			c.check(r, plain)
			cases.Add(1)
		}
	}
	r.States.Store(pairs.Load() + cases.Load())
	r.Transitions.Store(2*pairs.Load() + 2*cases.Load())
	r.Evaluations.Add(2 * pairs.Load())
	r.Validated.Store(r.Evaluations.Load())
	r.Outcome("explored")
	r.OutcomeN("pairs of traces", pairs.Load())
	r.OutcomeN("sets of tests after a trace", plainCases)
	r.OutcomeN("map orders forced", int64(orders))
	r.Note("confusing_events", len(confusing))
	r.Sample("prefix and equality of every pair of %d traces", len(tracesUpTo(events, 3)))
	c := suiteCase{names: names[:2], tests: []spec.Trace{{Prefix: small[1], Forbid: forbids[0]}, {Prefix: small[1], Forbid: forbids[1]}}, after: small[1]}
	r.Sample("%s", c.sig())
	r.Note("bounds", "traces to length 3 over eight events and to 5 (6) over four, all pairs; sets of up to four tests; all iteration orders for sets of two to four (five)")
}
