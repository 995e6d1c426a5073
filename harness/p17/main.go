// P17: no input/output failure goes unreported.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"

	"github.com/UoY-RoboStar/rtcg/internal/zzverif/bb"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/faults"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/genx"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/mc"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/spec"
)

// sample is a tool's run on good input.
type sample struct {
	name  string
	tool  string
	args  []string
	stdin string
	setup func(dir string)
	size  int // 0: small enough for all pairs
	quick bool

	out  string // what it writes
	tree map[string]string
	ops  []faults.Op
}

func main() { mc.Main("P17", run) }

func traceText(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "t%d: goTo.in.%d, y.out.-%d, s.out.Ok\n", i, i%7, i)
	}
	return b.String()
}

func trees(n int) string {
	ts := map[string]*spec.Node{}
	fs, ok := spec.ParseTraces(traceText(n))
	if !ok {
		panic("sample")
	}
	for _, f := range fs {
		ts[f.Name] = spec.Expand(f, f.Name)
	}
	return string(spec.EncodeTrees(ts))
}

func stms(n int) string {
	ts, err := spec.DecodeTrees([]byte(trees(n)))
	if err != nil {
		panic(err)
	}
	return string(spec.EncodeStms(spec.BuildSuite(ts)))
}

func animate(conv bool) genx.Cfg {
	c := genx.Cfg{Vars: []genx.Var{{Kind: "animate", Makefile: true}}}
	if conv {
		c.Vars[0].Channels = [][2]string{{"y", "long"}}
	}
	return c
}

func ros() genx.Cfg {
	return genx.Cfg{Vars: []genx.Var{{Kind: "ros", Catkin: true, Includes: []genx.Inc{{Src: "std_msgs/Int32.h"}},
		Pkg: &genx.Pkg{Name: "p_${NAME}", Email: "a@b", Maintainer: "M", Depends: []string{"roscpp"}, BuildtoolDepends: []string{"catkin"}}}}}
}

func both() genx.Cfg { return genx.Cfg{Vars: append(animate(true).Vars, ros().Vars...)} }

const conversion = "// converts\nlong toY(const int v) { return v; }\nint fromY(const long m) { return (int)m; }\n"

// gen makes a sample of rtcg-gen; before says what is in the output directory.
func gen(name string, c genx.Cfg, n int, before, input string, args ...string) *sample {
	s := &sample{name: "rtcg-gen " + name, tool: "rtcg-gen", args: append(args, "proj/gen.xml"), size: n}
	text := stms(n)
	if input == "" {
		s.stdin = text
	} else {
		s.args = append(s.args, input)
	}
	conv := map[string]string{}
	for _, v := range c.Vars {
		if len(v.Channels) > 0 {
			conv[v.Kind] = conversion
		}
	}
	s.setup = func(dir string) {
		c.Project(filepath.Join(dir, "proj"), conv)
		genx.Write(filepath.Join(dir, "stms.json"), text)
		switch before {
		case "":
		case "same files":
			// Longer files of the same names are there.
			for _, f := range []string{"animate/Makefile", "animate/src/rtcg/rtcg.h", "animate/src/t0/src/main.cpp", "ros/src/t0/package.xml", "ros/src/t0/CMakeLists.txt"} {
				genx.Write(filepath.Join(dir, "out", f), strings.Repeat("left over\n", 3000))
			}
		case "leftovers":
			for _, f := range []string{"a/b/c", "a/b/d", "animate/Makefile", "animate/src/gone/src/main.cpp", "z"} {
				genx.Write(filepath.Join(dir, "out", f), "left over\n")
			}
		}
	}
	return s
}

func samples(r *mc.R) []*sample {
	text := func(name, tool, in string, file bool, size int) *sample {
		s := &sample{name: tool + " " + name, tool: tool, size: size}
		s.setup = func(dir string) { genx.Write(filepath.Join(dir, "in"), in) }
		if file {
			s.args = []string{"in"}
		} else {
			s.stdin = in
		}
		return s
	}
	out := []*sample{
		text("file", "rtcg-read-traces", traceText(2), true, 2),
		text("standard input", "rtcg-read-traces", traceText(2), false, 2),
		text("big file", "rtcg-read-traces", traceText(mc.Pick(r, 300, 3000)), true, 300),
		text("big standard input", "rtcg-read-traces", traceText(300), false, 300),
		text("empty", "rtcg-read-traces", "", true, 0),
		text("file", "rtcg-make-stms", trees(2), true, 2),
		text("standard input", "rtcg-make-stms", trees(2), false, 2),
		text("big file", "rtcg-make-stms", trees(mc.Pick(r, 60, 300)), true, 60),
		gen("animate, file", animate(false), 1, "", "stms.json"),
		gen("ros", ros(), 1, "", ""),
		gen("both over other files", both(), 1, "same files", "stms.json"),
		gen("animate clean", animate(true), 1, "leftovers", "stms.json", "-clean"),
	}
	if r.Thorough() {
		out = append(out, gen("animate with conversion", animate(true), 1, "", ""), gen("both clean elsewhere", both(), 1, "leftovers", "", "-clean", "-output", "out"),
			gen("both over other files, two tests", both(), 2, "same files", "stms.json"), gen("both, many tests", both(), 8, "", "stms.json"), gen("both clean, nothing there", both(), 2, "", "", "-clean"))
	}
	return out
}

// soft reports whether the operation is one whose failure a tool may make up for.
func soft(o faults.Op, errno syscall.Errno) bool {
	switch o.Name() {
	case "read", "write", "pread", "pwrite", "open", "close", "mkdir", "getdents":
		// What is outside of the scratch directory is not the tool's own input or output.
		return strings.HasPrefix(o.Path, "/") || errno == syscall.EINTR
	}
	return true
}

// unused reports whether nothing was read from or written to the descriptor since it was opened (as happens when a
// directory is removed).
func unused(before []faults.Op, fd int) bool {
	for i := len(before) - 1; i >= 0; i-- {
		o := before[i]
		switch o.Name() {
		case "read", "write", "pread", "pwrite":
			if o.FD == fd {
				return false
			}
		case "copy_file_range", "splice", "sendfile":
			return false // (the other descriptor is not known)
		case "close":
			if o.FD == fd {
				return true
			}
		}
	}
	return true
}

type runner struct {
	r    *mc.R
	dir  string
	seq  atomic.Int64
	mu   sync.Mutex
	free []*faults.Mem
}

func (u *runner) mem() *faults.Mem {
	u.mu.Lock()
	defer u.mu.Unlock()
	if n := len(u.free); n > 0 {
		m := u.free[n-1]
		u.free = u.free[:n-1]
		return m
	}
	m, err := faults.New(u.r.Work, fmt.Sprintf("mem%d", u.seq.Add(1)))
	if err != nil {
		u.r.Broken("%v", err)
		panic(err)
	}
	return m
}

// run runs a sample under a plan.
func (u *runner) run(s *sample, p faults.Plan) (bb.Res, map[string]string, []faults.Op) {
	m := u.mem()
	dir := filepath.Join(u.r.Work, fmt.Sprintf("d%d", u.seq.Add(1)))
	_ = os.Mkdir(dir, 0o755)
	s.setup(dir)
	m.Set(p)
	res := bb.RunEnv(u.r, dir, []string{m.Env()}, strings.NewReader(s.stdin), filepath.Join(u.r.Opts["faults"], s.tool), s.args...)
	ops := m.Ops()
	u.mu.Lock()
	u.free = append(u.free, m)
	u.mu.Unlock()
	tree := genx.Tree(dir)
	_ = os.RemoveAll(dir)
	u.r.Evaluations.Add(1)
	return res, tree, ops
}

// check runs and judges; it returns the operations.
func (u *runner) check(s *sample, p faults.Plan) []faults.Op {
	res, tree, ops := u.run(s, p)
	fired, hard := 0, ""
	if p.MostRead == 0 && p.MostWrite == 0 {
		for i, o := range ops {
			if !o.Failed {
				continue
			}
			fired++
			errno := p.Sticky
			for _, f := range p.Faults {
				if f.At == i {
					errno = f.Errno
				}
			}
			if errno != 0 && !soft(o, errno) && !(o.Name() == "close" && unused(ops[:i], o.FD)) && hard == "" {
				hard = fmt.Sprintf("operation %d (%v)", i, o)
			}
		}
	} else {
		fired = 1
	}
	if fired > 0 {
		u.r.Nontrivial.Add(1)
	}
	var where []string
	for _, f := range p.Faults {
		if f.At < len(ops) {
			where = append(where, fmt.Sprintf("%d is %v", f.At, ops[f.At]))
		}
	}
	sig := s.name + ": " + p.String()
	tell := func(what string) {
		u.r.Violate(sig, fmt.Sprintf("%s: %s (%s)", sig, what, strings.Join(where, "; ")), nil)
	}
	switch {
	case res.TimedOut:
		tell("does not end")
	case res.Crashed():
		tell("crashes: " + clip(res.Err))
	case res.Code != 0 && fired == 0:
		tell("fails although nothing failed: " + clip(res.Err))
	case res.Code != 0 && strings.TrimSpace(res.Err) == "":
		tell("fails without a diagnostic")
	case res.Code != 0 && (hard == "" && onlyShort(p)):
		tell("fails although all operations succeeded: " + clip(res.Err))
	case res.Code != 0:
		u.r.Outcome(s.tool + " reports the failure")
	case hard != "":
		tell("succeeds although " + hard + " failed")
	case res.Out != s.out:
		tell("succeeds, but writes " + clip(genx.FirstDiff(s.out, res.Out)))
	default:
		if d := genx.Diff(s.tree, tree); d != "" {
			tell("succeeds, but the files are not right: " + clip(d))
			break
		}
		if fired > 0 {
			u.r.Outcome(s.tool + " succeeds all the same")
		} else {
			u.r.Outcome(s.tool + " succeeds")
		}
	}
	return ops
}

func onlyShort(p faults.Plan) bool {
	for _, f := range p.Faults {
		if f.Errno != 0 {
			return false
		}
	}
	return p.Sticky == 0
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400]
	}
	return s
}

func run(r *mc.R) {
	u := &runner{r: r}
	bb.Unprivileged = true
	all := samples(r)
	for _, s := range all {
		if r.Full() || r.Expired() {
			return
		}
		u.reference(s)
		u.explore(s)
	}
	u.obstacles()
}

// reference runs a sample without faults, as the plain tool does.
func (u *runner) reference(s *sample) {
	r := u.r
	dir := filepath.Join(r.Work, "ref")
	_ = os.Mkdir(dir, 0o755)
	s.setup(dir)
	res := bb.Run(r, dir, s.stdin, s.tool, s.args...)
	s.out, s.tree = res.Out, genx.Tree(dir)
	_ = os.RemoveAll(dir)
	if res.Code != 0 {
		r.Violate(s.name, "fails although nothing failed: "+clip(res.Err), nil)
		return
	}
	s.ops = u.check(s, faults.Plan{})
	kinds := map[string]int{}
	for _, o := range s.ops {
		kinds[o.Name()]++
	}
	r.Sample("%s: %d operations %v", s.name, len(s.ops), kinds)
	r.States.Add(int64(len(s.ops)))
	if len(s.ops) < 2 || kinds["write"] == 0 || kinds["open"] == 0 && s.stdin == "" {
		r.Broken("%s: the instrumentation sees no operations: %v", s.name, kinds)
	}
}

func (u *runner) explore(s *sample) {
	r := u.r
	errnos := func(o faults.Op) []syscall.Errno {
		if r.Thorough() {
			return []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EMFILE, syscall.EROFS, syscall.EDQUOT, syscall.ENOMEM, syscall.EBADF}
		}
		switch o.Name() {
		case "read":
			return []syscall.Errno{syscall.EIO, syscall.ENOMEM}
		case "write":
			return []syscall.Errno{syscall.EIO, syscall.ENOSPC}
		}
		return []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EMFILE}
	}
	n := len(s.ops)
	var plans []faults.Plan
	one := func(f faults.Fault) { plans = append(plans, faults.Plan{Faults: []faults.Fault{f}}) }
	for k := 0; k < n; k++ {
		for _, e := range errnos(s.ops[k]) {
			one(faults.Fault{At: k, Errno: e})
		}
		switch s.ops[k].Name() {
		case "read", "open", "mkdir", "copy_file_range":
			one(faults.Fault{At: k, Errno: syscall.EINTR})
		case "write":
			if r.Thorough() {
				one(faults.Fault{At: k, Errno: syscall.EINTR})
			}
		}
		switch s.ops[k].Name() {
		case "read", "write", "copy_file_range":
			one(faults.Fault{At: k, Most: 1})
			// A short operation, and the next one fails.
			plans = append(plans, faults.Plan{Faults: []faults.Fault{{At: k, Most: 1}, {At: k + 1, Errno: syscall.ENOSPC}}})
		}
		plans = append(plans, faults.Plan{From: k, Sticky: syscall.ENOSPC})
		if r.Thorough() {
			plans = append(plans, faults.Plan{From: k, Sticky: syscall.EIO})
		}
	}
	for _, m := range []int{1, 2, 3, 7, 64, 511, 512, 513, 4095} {
		plans = append(plans, faults.Plan{MostRead: m}, faults.Plan{MostWrite: m}, faults.Plan{MostRead: m, MostWrite: m})
	}
	mc.Par(len(plans), func(i int) {
		if r.Full() || r.Expired() {
			return
		}
		p := plans[i]
		ops := u.check(s, p)
		r.Transitions.Add(1)
		// Whatever still takes place after a failure may fail as well.
		if len(p.Faults) != 1 || p.Faults[0].Errno != syscall.EIO {
			return
		}
		k := p.Faults[0].At
		if rest := len(ops) - k - 1; rest > mc.Pick(r, 40, 4000) {
			return // (the failure was made up for)
		}
		for j := k + 1; j < len(ops); j++ {
			q := faults.Plan{Faults: []faults.Fault{p.Faults[0], {At: j, Errno: syscall.EIO}}}
			more := u.check(s, q)
			r.Transitions.Add(1)
			for l := j + 1; l < len(more) && l < j+mc.Pick(r, 4, 12); l++ {
				u.check(s, faults.Plan{Faults: append(append([]faults.Fault{}, q.Faults...), faults.Fault{At: l, Errno: syscall.EIO})})
				r.Transitions.Add(1)
			}
		}
	})
}

// obstacles lets the file system itself refuse operations.
func (u *runner) obstacles() {
	r := u.r
	if _, err := os.Stat("/dev/full"); err == nil {
		for _, tool := range []string{"rtcg-read-traces", "rtcg-make-stms"} {
			in := map[string]string{"rtcg-read-traces": traceText(2), "rtcg-make-stms": trees(2)}[tool]
			for _, how := range []string{">/dev/full", "<.", ".", "- <.", "- >/dev/full", "missing"} {
				res := bb.Run(r, r.Work, in, "/bin/sh", "-c", filepath.Join(r.Bin, tool)+" "+how)
				r.Evaluations.Add(1)
				r.Nontrivial.Add(1)
				if res.Code == 0 || res.Err == "" || res.Crashed() {
					r.Violate(tool+" "+how, fmt.Sprintf("status %d, diagnostic %q", res.Code, clip(res.Err)), nil)
				}
				r.Outcome(tool + " reports the refusal of the system")
			}
		}
	}
	// Something stands where an output is to be made.
	for _, tests := range []int{1, 5} {
		u.inTheWay(gen(fmt.Sprintf("both (%d tests)", tests), both(), tests, "", "stms.json"))
	}
}

// inTheWay puts something where one output of the sample is to be made: each kind of thing at each output. With more
// than one test, the others can be made all the same, which must not hide that one could not.
func (u *runner) inTheWay(s *sample) {
	r := u.r
	u.reference(s)
	outputs := map[string]bool{}
	for f := range s.tree {
		f, ok := strings.CutPrefix(strings.TrimSuffix("x/"+f, "/"), "x/out")
		if !ok {
			continue
		}
		f = filepath.Clean("." + f)
		outputs["."] = true
		for d := f; d != "."; d = filepath.Dir(d) {
			outputs[d] = true
		}
	}
	var names []string
	for f := range outputs {
		names = append(names, f)
	}
	kinds := []string{"directory", "file", "full device", "link to nowhere", "link to itself", "full directory"}
	mc.Par(len(names)*len(kinds), func(i int) {
		if r.Full() || r.Expired() {
			return
		}
		f, kind := names[i/len(kinds)], kinds[i%len(kinds)]
		dir := filepath.Join(r.Work, fmt.Sprintf("d%d", u.seq.Add(1)))
		_ = os.Mkdir(dir, 0o755)
		defer os.RemoveAll(dir)
		s.setup(dir)
		path := filepath.Join(dir, "out", f)
		_ = os.MkdirAll(filepath.Dir(path), 0o755)
		switch kind {
		case "directory":
			_ = os.Mkdir(path, 0o755)
		case "full directory":
			genx.Write(filepath.Join(path, "zz/zz"), "x")
		case "file":
			genx.Write(path, strings.Repeat("old\n", 10000))
		case "full device":
			_ = os.Symlink("/dev/full", path)
		case "link to nowhere":
			_ = os.Symlink(filepath.Join(dir, "nowhere/at/all"), path)
		case "link to itself":
			_ = os.Symlink(filepath.Base(path), path)
		}
		res := bb.Run(r, dir, s.stdin, s.tool, s.args...)
		r.Evaluations.Add(1)
		r.Nontrivial.Add(1)
		sig := fmt.Sprintf("obstacle: %s at %s: %s", kind, f, s.name)
		switch {
		case res.Crashed() || res.TimedOut:
			r.Violate(sig, "crashes: "+clip(res.Err), nil)
		case res.Code != 0 && strings.TrimSpace(res.Err) == "":
			r.Violate(sig, "fails without a diagnostic", nil)
		case res.Code != 0:
			r.Outcome("rtcg-gen reports the refusal of the system")
		default:
			got := genx.Tree(dir)
			for k, v := range s.tree {
				if g, ok := got[k]; !ok || genx.Normal(g) != genx.Normal(v) {
					r.Violate(sig, fmt.Sprintf("succeeds, but %s is not right: %q", k, clip(g)), nil)
					return
				}
			}
			r.Outcome("rtcg-gen succeeds all the same")
		}
	})
}
