// P08: machines made from traces report fail exactly on the forbidden trace.
package main

import (
	"fmt"
	"math"
	"strings"
	"sync/atomic"

	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
	"github.com/UoY-RoboStar/rtcg/internal/validate"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/bb"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/conv"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/mc"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/spec"
	sources "github.com/UoY-RoboStar/rtcg/internal/zzverif/words"
)

var words, steps, files atomic.Int64

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

// follow explores the machine of one test against the trace it stands for: along the trace, every event of the
// alphabet is tried at every place, and the verdict of every place is read.
func follow(name string, t spec.Trace, m *spec.Machine, alphabet []spec.Ev) string {
	if m == nil {
		return "there is no machine"
	}
	word := append(append([]spec.Ev{}, t.Prefix...), t.Forbid)
	states := map[string]*spec.State{}
	for _, s := range m.States {
		if states[s.ID] != nil {
			return fmt.Sprintf("two states are called %q", s.ID)
		}
		states[s.ID] = s
	}
	if len(m.States) == 0 {
		return "there are no states"
	}
	if len(m.Tests) != 1 || m.Tests[0] != name {
		return fmt.Sprintf("it lists the tests %q", m.Tests)
	}
	now := m.States[0]
	for i := 0; ; i++ {
		want := spec.Inc
		switch {
		case i == len(word):
			want = spec.Fail
		case i == len(t.Prefix):
			want = spec.Pass
		}
		if len(now.Verdict) != 1 || now.Verdict[name] != want {
			return fmt.Sprintf("after %d events of %d the verdict is %q, should be %s", i, len(word), now.Verdict, want)
		}
		var next *spec.State
		labels := 0
		for _, set := range now.Sets {
			labels += len(set.Trs)
		}
		try := func(e spec.Ev) (out []*spec.State, bad string) {
			steps.Add(1)
			for _, set := range now.Sets {
				for _, tr := range set.Trs {
					if (spec.Ev{Chan: set.Chan, Kind: set.Kind, Val: tr.Val}) == e {
						if states[tr.Next] == nil {
							return nil, fmt.Sprintf("a transition leads to %q, which does not exist", tr.Next)
						}
						out = append(out, states[tr.Next])
					}
				}
			}
			return out, ""
		}
		for _, e := range alphabet {
			to, bad := try(e)
			if bad != "" {
				return bad
			}
			if i < len(word) && e == word[i] {
				continue
			}
			if len(to) != 0 {
				return fmt.Sprintf("after %d events of %d it accepts %s", i, len(word), e.Key())
			}
		}
		if i == len(word) {
			if labels != 0 {
				return "it goes on after the forbidden event"
			}
			return ""
		}
		to, bad := try(word[i])
		if bad != "" {
			return bad
		}
		if len(to) != 1 || labels != 1 {
			return fmt.Sprintf("after %d events of %d it has %d ways on by %s, and %d in all", i, len(word), len(to), word[i].Key(), labels)
		}
		next = to[0]
		now = next
	}
}

func row(t spec.Trace) string {
	var cells []string
	for _, e := range append(append([]spec.Ev{}, t.Prefix...), t.Forbid) {
		cells = append(cells, cell(e.Text()))
	}
	if t.Name != "" {
		if strings.HasPrefix(cells[0], "\"") {
			cells[0] = "\"" + t.Name + ":" + cells[0][1:]
		} else {
			cells[0] = t.Name + ": " + cells[0]
		}
	}
	return strings.Join(cells, ", ") + "\n"
}

func cell(s string) string {
	if strings.ContainsAny(s, ",\"\n#") || s != spec.Trim(s) {
		return "\"" + strings.ReplaceAll(s, "\"", "\"\"") + "\""
	}
	return s
}

func named(ts []spec.Trace) []string {
	given := make([]string, len(ts))
	for i, t := range ts {
		given[i] = t.Name
	}
	return spec.Names(given)
}

// inProcess runs the real code of both stages on a file.
func inProcess(text string) (s *spec.MSuite, why string) {
	why = mc.Catch(func() {
		ts, err := trace.Read(strings.NewReader(text))
		if err != nil {
			why = err.Error()
			return
		}
		v, err := validate.FullSuite(trace.ExpandAll(trace.Name(ts)))
		if err != nil {
			why = err.Error()
			return
		}
		var b stm.Builder
		suite, err := b.BuildSuite(v)
		if err != nil {
			why = err.Error()
			return
		}
		s = conv.MSuite(suite)
	})
	if s == nil && why == "" {
		why = "failed"
	}
	return s, why
}

func blackBox(r *mc.R, text string) (*spec.MSuite, string) {
	a := bb.Run(r, "", text, "rtcg-read-traces")
	if a.Code != 0 {
		return nil, fmt.Sprintf("rtcg-read-traces: exit status %d: %s", a.Code, clip(a.Err))
	}
	b := bb.Run(r, "", a.Out, "rtcg-make-stms")
	if b.Code != 0 {
		return nil, fmt.Sprintf("rtcg-make-stms: exit status %d: %s", b.Code, clip(b.Err))
	}
	s, err := spec.DecodeStms([]byte(b.Out))
	if err != nil {
		return nil, "output: " + err.Error()
	}
	return s, ""
}

func file(r *mc.R, ts []spec.Trace, alphabet []spec.Ev, tools bool) {
	var b strings.Builder
	for _, t := range ts {
		b.WriteString(row(t))
	}
	text := b.String()
	files.Add(1)
	var (
		s   *spec.MSuite
		why string
	)
	if tools {
		s, why = blackBox(r, text)
	} else {
		s, why = inProcess(text)
	}
	if s == nil {
		r.Violate("file "+clip(text), "is not turned into machines: "+why, text)
		return
	}
	names := named(ts)
	if len(s.Tests) != len(ts) {
		r.Violate("file "+clip(text), fmt.Sprintf("%d machines for %d traces", len(s.Tests), len(ts)), text)
	}
	for i, t := range ts {
		words.Add(1)
		if bad := follow(names[i], t, s.Tests[names[i]], alphabet); bad != "" {
			r.Violate("trace "+clip(t.Key())+" as "+names[i], fmt.Sprintf("in a file of %d: %s", len(ts), bad), text)
			return
		}
	}
}

var alphabet = []spec.Ev{
	{Chan: "a", Kind: spec.In, Val: spec.IntV(1)}, {Chan: "a", Kind: spec.Out, Val: spec.IntV(-1)}, {Chan: "b", Kind: spec.Out, Val: spec.EnumV("on")},
	{Chan: "c", Kind: spec.Out}, {Chan: "b", Kind: spec.Call, Val: spec.EnumV("off")}, {Chan: "a", Kind: spec.In, Val: spec.IntV(2)}, {Chan: "c", Kind: spec.In},
}

// near are events that differ from those of the alphabet in one respect.
var near = []spec.Ev{
	{Chan: "a", Kind: spec.In, Val: spec.IntV(0)}, {Chan: "a", Kind: spec.In}, {Chan: "b", Kind: spec.Out, Val: spec.EnumV("ON")}, {Chan: "B", Kind: spec.Out, Val: spec.EnumV("on")},
	{Chan: "c", Kind: spec.Call}, {Chan: "c", Kind: spec.Out, Val: spec.EnumV("")}, {Chan: "b", Kind: spec.In, Val: spec.EnumV("on")}, {Chan: "a", Kind: spec.Call, Val: spec.IntV(1)},
}

func main() { mc.Main("P08", run) }

func word(x, k, n int, evs []spec.Ev) spec.Trace {
	seq := make([]int, n)
	mc.Decode(x, k, seq)
	var t spec.Trace
	for i, s := range seq {
		if i == n-1 {
			t.Forbid = evs[s]
		} else {
			t.Prefix = append(t.Prefix, evs[s])
		}
	}
	return t
}

func run(r *mc.R) {
	all := append(append([]spec.Ev{}, alphabet...), near...)
	k := len(alphabet)
	// 1. Every trace up to a length, in files of one, in process.
	deep := mc.Pick(r, 6, 7)
	for n := 1; n <= deep; n++ {
		count := mc.Pow(k, n)
		mc.Par(64, func(c int) {
			for x := c; x < count; x += 64 {
				file(r, []spec.Trace{word(x, k, n, alphabet)}, all, false)
				if (x/64)%256 == 0 && (r.Expired() || r.Full()) {
					return
				}
			}
		})
	}
	r.Note("length_in_process", deep)
	// 2. Every trace up to a smaller length, through the real tools, in large files; and every pair of short ones.
	var lots []spec.Trace
	through := mc.Pick(r, 5, 6)
	for n := 1; n <= through; n++ {
		for x := 0; x < mc.Pow(k, n); x++ {
			lots = append(lots, word(x, k, n, alphabet))
		}
	}
	const per = 700
	mc.Par((len(lots)+per-1)/per, func(c int) {
		if !r.Expired() && !r.Full() {
			part := lots[c*per:]
			file(r, part[:min(per, len(part))], all, true)
		}
	})
	short := lots[:k+k*k]
	mc.Par(len(short), func(i int) {
		file(r, short[i:i+1], all, true)
		for j := range short {
			a, b := short[i], short[j]
			file(r, []spec.Trace{a, b}, all, false)
			a.Name, b.Name = []string{"", "x", "test", "x", "test0"}[(i+j)%5], []string{"x", "", "x", "test1", "x0"}[j%5]
			file(r, []spec.Trace{a, b, a}, all, false)
		}
	})
	r.Note("length_through_the_tools", through)
	// 3. Every kind of value and channel name.
	vals := []spec.Val{spec.IntV(math.MaxInt64), spec.IntV(math.MinInt64), spec.IntV(0), spec.IntV(-10), spec.IntV(1<<53 + 1)}
	texts := []string{"a b", "x,y", "say \"hi\"", "<&>", "é", "日本", "1.5", "9223372036854775808", "pass", "-", "a.b", "'", "\\n", "null", "#x", "in", "0x10", strings.Repeat("v", 300)}
	var odd []spec.Trace
	var oddEvs []spec.Ev
	add := func(e spec.Ev) { oddEvs = append(oddEvs, e) }
	for i, v := range vals {
		for kd := 0; kd < 3; kd++ {
			add(spec.Ev{Chan: "num", Kind: kd, Val: v})
			add(spec.Ev{Chan: fmt.Sprint("n", i), Kind: kd, Val: v})
		}
	}
	for i, s := range texts {
		add(spec.Ev{Chan: "text", Kind: i % 3, Val: spec.ParseVal(s)})
		if !strings.ContainsAny(s, ".:") && s != "" {
			add(spec.Ev{Chan: s, Kind: i % 3})
		}
	}
	for i, c := range []string{"pose_", "_x", "_", "__", "a__b", "x1", "1x", "A", "Ch", "cH", "a-b", "a	b", "out", "input", "output", "call", "a/b", "éa", "日", "a'", "a+", "tock", "a0", "a00", strings.Repeat("c", 200)} {
		add(spec.Ev{Chan: c, Kind: i % 3, Val: spec.IntV(int64(i))})
		add(spec.Ev{Chan: c, Kind: (i + 1) % 3, Val: spec.IntV(int64(1 - i))})
	}
	for i, a := range oddEvs {
		for _, b := range oddEvs {
			odd = append(odd, spec.Trace{Prefix: []spec.Ev{a, b, a}, Forbid: b}, spec.Trace{Name: fmt.Sprint("o", i), Prefix: []spec.Ev{a}, Forbid: b})
		}
		odd = append(odd, spec.Trace{Forbid: a})
	}
	mc.Par(len(odd), func(i int) { file(r, odd[i:i+1], oddEvs, false) })
	for c := 0; c < len(odd); c += per {
		file(r, odd[c:min(c+per, len(odd))], oddEvs, true)
	}
	r.Note("odd_events", len(oddEvs))
	// 4. Long traces, also repeating one event, forbidding an event of the prefix, or sharing all but the end.
	var long []spec.Trace
	for _, n := range append([]int{9, 10, 11, 12, 25, 99, 100, 101, 102, 300, mc.Pick(r, 1050, 3000)}, sources.Sizes(r, 1200)...) {
		for v := 0; v < 6; v++ {
			var t spec.Trace
			for i := 0; i < n; i++ {
				switch v {
				case 0, 1:
					t.Prefix = append(t.Prefix, alphabet[0])
				case 2:
					t.Prefix = append(t.Prefix, alphabet[i%k])
				default:
					t.Prefix = append(t.Prefix, alphabet[(i*i+v)%k])
				}
			}
			t.Forbid = alphabet[v]
			long = append(long, t)
		}
	}
	mc.Par(len(long), func(i int) { file(r, long[i:i+1], all, false) })
	for i := 0; i < len(long); i += 6 {
		file(r, long[i:i+6], all, true)
	}
	file(r, long[:len(long)-6], all, true)
	r.Sample("trace %s", lots[len(lots)-5].Key())
	r.Sample("trace %s", odd[40].Key())
	r.OutcomeN("files", files.Load())
	r.OutcomeN("traces", words.Load())
	r.States.Add(words.Load())
	r.Transitions.Add(steps.Load())
	r.Validated.Add(words.Load())
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
