// P18: the generator touches nothing but its output directory.
//
// Everything runs as a user that owns only what the check makes for it.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/UoY-RoboStar/rtcg/internal/zzverif/bb"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/genx"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/mc"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/spec"
)

const nobody = 61234 // owns nothing but what it is given here

func main() { mc.Main("P18", run) }

func stms(text string, names ...string) string {
	ts := map[string]*spec.Node{}
	fs, ok := spec.ParseTraces(text)
	if !ok {
		panic("sample")
	}
	for i, n := range names {
		ts[n] = spec.Expand(fs[i%len(fs)], "t")
	}
	return string(spec.EncodeStms(spec.BuildSuite(ts)))
}

const (
	traceText  = "goTo.in.3,y.out.-5\ns.out.Ok\nw.in,goTo.in.1\n"
	conversion = "// converts\nlong toY(const int v) { return v; }\nint fromY(const long m) { return (int)m; }\n"
)

// suites that good runs use.
var suites = map[string]string{
	"one": stms(traceText, "a"),
	"two": stms(traceText, "a", "bb"),
	"new": stms(traceText, "c", "a"),
	// Like the first, and with files of the same sizes, but for another test.
	"same": stms("goTo.in.4,y.out.-6\ns.out.No\nw.in,goTo.in.2\n", "a"),
}

func config() genx.Cfg {
	return genx.Cfg{Vars: []genx.Var{
		{Kind: "animate", Makefile: true, Channels: [][2]string{{"y", "long"}}},
		{Kind: "ros", Catkin: true, Includes: []genx.Inc{{Src: "std_msgs/Int32.h"}},
			Pkg: &genx.Pkg{Name: "p_${NAME}", Email: "a@b", Maintainer: "M", Depends: []string{"roscpp"}, BuildtoolDepends: []string{"catkin"}}}}}
}

// entry is one thing in the file system.
type entry struct {
	kind string // type, permissions
	text string
}

// snapshot is everything below a directory; dates in generated files are left out.
func snapshot(dir string) map[string]entry {
	out := map[string]entry{}
	_ = filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		rel, _ := filepath.Rel(dir, p)
		if err != nil {
			out[rel+"!"] = entry{text: "unreadable"}
			return nil
		}
		info, err := d.Info()
		if err != nil {
			return nil
		}
		e := entry{kind: info.Mode().String()}
		switch {
		case info.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			e.text = genx.Normal(string(b))
			if st, ok := info.Sys().(*syscall.Stat_t); ok && st.Nlink > 1 {
				e.kind += fmt.Sprintf(" shared by %d names", st.Nlink)
			}
		case info.Mode()&fs.ModeSymlink != 0:
			e.text, _ = os.Readlink(p)
		}
		out[rel] = e
		return nil
	})
	return out
}

// below is the part of a snapshot at and below a path.
func below(s map[string]entry, path string) map[string]entry {
	out := map[string]entry{}
	for p, e := range s {
		if p == path {
			out["."] = e
		} else if path == "." {
			out[p] = e
		} else if rest, ok := strings.CutPrefix(p, path+"/"); ok {
			out[rest] = e
		}
	}
	return out
}

func within(p, dir string) bool { return dir == "." || p == dir || strings.HasPrefix(p, dir+"/") }

// diff says how two snapshots differ at places for which look is true.
func diff(a, b map[string]entry, look func(p string) bool) string {
	var out []string
	for p, e := range a {
		if !look(p) {
			continue
		}
		if f, ok := b[p]; !ok {
			out = append(out, p+" is gone")
		} else if f != e {
			out = append(out, fmt.Sprintf("%s (%s) has changed: %s", p, f.kind, genx.FirstDiff(e.text, f.text)))
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok && look(p) {
			out = append(out, p+" is new")
		}
	}
	sort.Strings(out)
	if len(out) > 4 {
		out = append(out[:4], fmt.Sprintf("and %d more", len(out)-4))
	}
	return strings.Join(out, "; ")
}

func everywhere(string) bool { return true }

// world is a place to run in: base/home/work is the usual current directory.
type world struct {
	r    *mc.R
	base string
}

var seq atomic.Int64

func newWorld(r *mc.R) *world {
	w := &world{r, filepath.Join(r.Work, fmt.Sprintf("w%d", seq.Add(1)))}
	work := w.path("home/work")
	config().Project(work, map[string]string{"animate": conversion})
	config().Project(w.path("proj"), map[string]string{"animate": conversion})
	genx.Write(work+"/one.json", suites["one"])
	genx.Write(work+"/two.json", suites["two"])
	genx.Write(work+"/new.json", suites["new"])
	genx.Write(work+"/same.json", suites["same"])
	for _, f := range []string{"home/keep", "home/other/keep", "home/other/out/keep", "home/work/keep", "home/work/sub/inner/keep", "home/work/outer/keep", "home/work/out.d/keep", "home/work2/keep", "home/wor/keep", "keep", "etc/keep", "bin/keep"} {
		genx.Write(w.path(f), "keep this: "+f+"\n")
	}
	for from, to := range map[string]string{"home/work/up": "..", "home/work/dot": ".", "home/work/there": "../other/out", "home/wl": "work", "home/work/upup": "../..", "home/work/abs": work, "home/work/nowhere": "none/none", "home/work/chain": "up"} {
		if err := os.Symlink(to, w.path(from)); err != nil {
			r.Broken("%v", err)
		}
	}
	return w
}

func (w *world) path(p string) string { return filepath.Join(w.base, p) }

// own hands everything to the user.
func (w *world) own() {
	_ = filepath.WalkDir(w.base, func(p string, d fs.DirEntry, err error) error {
		if err == nil {
			err = os.Lchown(p, nobody, nobody)
		}
		if err != nil {
			w.r.Broken("%v", err)
		}
		return nil
	})
}

func (w *world) remove() { _ = os.RemoveAll(w.base) }

// fill puts what is left of earlier work into a directory.
func (w *world) fill(dir, what string) {
	switch what {
	case "absent":
	case "empty":
		_ = os.MkdirAll(w.path(dir), 0o755)
	case "unrelated":
		for _, f := range []string{"notes", "animate/notes", "animate/src/notes.cpp", "animate/src/gone/src/main.cpp", "animate/src/a/src/extra.cpp", "animate/src/convert/own.h", "ros/src/a/launch/x.launch", "deep/er/est/notes", "main.cpp", ".hidden", "animate/src/rtcg/x", "gen.xml"} {
			genx.Write(w.path(dir+"/"+f), "unrelated "+f+"\n")
		}
		_ = os.MkdirAll(w.path(dir+"/void/void"), 0o700)
		_ = os.Symlink(w.path("home/other"), w.path(dir+"/away"))
		_ = os.Symlink("../../keep", w.path(dir+"/deep/link"))
		_ = os.Symlink(".", w.path(dir+"/deep/self"))
	case "stale":
		for _, f := range []string{"animate/Makefile", "animate/src/rtcg/rtcg.h", "animate/src/rtcg/rtcg.cpp", "animate/src/convert/convert.h", "animate/src/convert/convert.cpp", "animate/src/a/src/main.cpp", "ros/src/a/package.xml", "ros/src/a/CMakeLists.txt", "ros/src/a/src/main.cpp"} {
			genx.Write(w.path(dir+"/"+f), strings.Repeat("stale\n", 4000))
		}
	}
}

// gen runs the generator as the user.
func (w *world) gen(cwd, pwd, stdin string, args ...string) bb.Res {
	return w.exec(cwd, pwd, stdin, append([]string{filepath.Join(w.r.Bin, "rtcg-gen")}, args...))
}

func (w *world) exec(cwd, pwd, stdin string, argv []string) bb.Res {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, argv[0], argv[1:]...)
	cmd.Dir = cwd
	cmd.Env = []string{"PWD=" + pwd, "TZ=", "GOTRACEBACK=single", "PATH=/usr/bin:/bin", "HOME=" + w.path("home"), "TMPDIR=" + w.path("tmp")}
	cmd.Stdin = strings.NewReader(stdin)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	err := cmd.Run()
	res := bb.Res{Out: out.String(), Err: errb.String(), TimedOut: ctx.Err() != nil}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		res.Code = ee.ExitCode()
	} else if err != nil {
		w.r.Broken("running %q as another user: %v", argv, err)
		res.Code = -2
	}
	w.r.Transitions.Add(1)
	return res
}

// failure says what is wrong with a failed run, or "".
func failure(res bb.Res) string {
	switch {
	case res.TimedOut:
		return "does not end"
	case res.Crashed():
		return "crashes: " + clip(res.Err)
	case strings.TrimSpace(res.Err) == "":
		return "fails without a diagnostic"
	}
	return ""
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300]
	}
	return s
}

// fresh is what generating a suite into a fresh directory makes.
var fresh = map[string]map[string]entry{}

func run(r *mc.R) {
	for name, text := range suites {
		w := newWorld(r)
		w.own()
		res := w.gen(w.path("home/work"), w.path("home/work"), text, "-output", "out", "gen.xml")
		if res.Code != 0 {
			r.Violate("plain generation", res.Err, nil)
			return
		}
		fresh[name] = below(snapshot(w.base), "home/work/out")
		if len(fresh[name]) < 10 {
			r.Broken("nothing was generated")
		}
		w.remove()
	}
	spellings(r)
	names(r)
	histories(r)
	neighbours(r)
	invalid(r)
	overlap(r)
	obstacles(r)
	jail(r)
	userFiles(r)
}

// userFiles tries conversion sources of all kinds: each stays as it is, and is copied as it is.
func userFiles(r *mc.R) {
	forms := []string{"", "\n", "x", " ", "// no newline at the end", "// newline at the end\n", "// two\n\n", "// blanks at the end \t\n \n", "// DOS\r\nlines\r\n", "// DOS\r\nlines", "// old\rMac\r", "\xef\xbb\xbf// marked\n",
		"\xff\xfe/\x00/\x00", "\x00", "a\x00b\n", "\x1a", "caf\xe9\n", "{{.}} ${NAME} $(X) %s\n", "#include \"../convert.cpp\"\n"}
	for _, n := range []int{511, 512, 4095, 4096, 4097, 32768, 32769, 65536, 65537, 1 << 20, 1<<20 + 1, 3<<20 + 5, mc.Pick(r, 9<<20, 70<<20)} {
		forms = append(forms, strings.Repeat("0123456789abcde\n", n/16+1)[:n])
	}
	modes := []os.FileMode{0o644, 0o600, 0o444, 0o755, 0o400}
	n := len(forms) * len(modes) * 2
	r.States.Add(int64(n))
	mc.Par(n, func(i int) {
		if r.Full() || r.Expired() {
			return
		}
		form, mode, again := forms[i%len(forms)], modes[i/len(forms)%len(modes)], i/len(forms)/len(modes) == 1
		w := newWorld(r)
		defer w.remove()
		src := w.path("home/work/animate/src/convert/convert.cpp")
		cwd := w.path("home/work")
		w.own()
		if again {
			if res := w.gen(cwd, cwd, "", "gen.xml", "one.json"); res.Code != 0 {
				r.Violate("user's source", "fails: "+clip(res.Err), nil)
				return
			}
		}
		genx.Write(src, form)
		w.own()
		_ = os.Chmod(src, mode)
		before := snapshot(w.base)
		res := w.gen(cwd, cwd, "", "gen.xml", "one.json")
		now := snapshot(w.base)
		r.Validated.Add(1)
		r.Outcome("kinds of conversion sources")
		sig := fmt.Sprintf("user's source of %d bytes (%.30q), mode %o", len(form), form, mode)
		if res.Code != 0 {
			r.Violate(sig, "fails: "+clip(res.Err), nil)
			return
		}
		if d := diff(before, now, func(p string) bool { return !within(p, "home/work/out") }); d != "" {
			r.Violate(sig, "changes something outside of its output directory: "+clip(d), nil)
		}
		if got, err := os.ReadFile(w.path("home/work/out/animate/src/convert/convert.cpp")); err != nil || string(got) != form {
			r.Violate(sig, fmt.Sprintf("is not copied as it is: %d bytes, %v", len(got), err), nil)
		}
	})
}

// after judges the output directory (out, within the base) after a good run.
func after(clean bool, before, now map[string]entry, out, suite string) string {
	want := fresh[suite]
	got := below(now, out)
	if clean {
		return diff(want, got, func(p string) bool { return p != "." })
	}
	old := below(before, out)
	all := map[string]entry{}
	for p, e := range old {
		all[p] = e
	}
	for p, e := range want {
		if f, ok := old[p]; ok && e.text == "" {
			e = f // a directory that was there
		}
		if f, ok := old[p]; ok {
			e.kind = f.kind
		}
		all[p] = e
	}
	return diff(all, got, func(p string) bool { return p != "." })
}

// spellings tries the ways to name the output directory.
func spellings(r *mc.R) {
	type job struct {
		spell, cwd, clean, before, suite string
	}
	cwds := map[string]string{"home/work": "home/work", "home/wl": "home/work", "home/work/sub": "home/work/sub"}
	spells := []string{"out", "out/", "./out", "out//", "out/.", "sub/../out", "../out", "deep/er/out", "../work/out", "sub/out", "BASE/home/work/out", "BASE/home/other/new", "BASE/home/./work/../work/out//",
		".", "./", "./.", "..", "../", "../..", "../.", "sub/..", "sub/../", "sub/../..", "out/..", "../work", "../work/", "../../home", "../../home/work", "../wl", "../wl/", "BASE/home/work", "BASE/home/work/", "BASE/home/work/.", "BASE/home", "BASE/home/",
		"BASE", "BASE/", "BASE/home/wl", "BASE//home", "BASE/home/../home/work", "dot", "dot/", "up", "up/", "up/.", "upup", "abs", "chain", "dot/dot", "up/work", "", "there", "there/", "there/new", "nowhere", "out.d", "outer/out", "..out", "...", "~", "-x", "a b", "sub", "../other"}
	var jobs []job
	for _, spell := range spells {
		for cwd := range cwds {
			for _, clean := range []string{"", "-clean", "--clean", "-clean=true", "-clean=false"} {
				for _, before := range []string{"absent", "empty", "unrelated", "stale"} {
					if len(clean) > 6 && (before != "unrelated" || !r.Thorough()) {
						continue
					}
					for _, suite := range []string{"one", "two"} {
						if suite == "one" && !r.Thorough() {
							continue
						}
						jobs = append(jobs, job{spell, cwd, clean, before, suite})
					}
				}
			}
		}
	}
	sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].cwd < jobs[j].cwd })
	r.States.Add(int64(len(jobs)))
	mc.Par(len(jobs), func(i int) {
		if r.Full() || r.Expired() {
			return
		}
		j := jobs[i]
		w := newWorld(r)
		defer w.remove()
		cwd := w.path(j.cwd)
		spell := strings.ReplaceAll(j.spell, "BASE", w.base)
		clean := j.clean != "" && j.clean != "-clean=false"
		// What it means: a path below the base, by text and in truth.
		lex := filepath.Clean(spell)
		if !filepath.IsAbs(lex) {
			lex = filepath.Join(w.path(cwds[j.cwd]), lex)
		}
		if j.before != "absent" {
			if _, err := os.Lstat(lex); err == nil && j.before == "empty" {
				return // it is there anyhow
			}
			if rel, _ := filepath.Rel(w.base, lex); filepath.Base(lex) != "nowhere" {
				w.fill(rel, j.before)
			}
		}
		w.own()
		truth := real(lex)
		before := snapshot(w.base)
		res := w.gen(cwd, cwd, suites[j.suite], append(clear(j.clean), "-output", spell, w.path("proj/gen.xml"))...)
		now := snapshot(w.base)
		r.Validated.Add(1)
		sig := fmt.Sprintf("output %q from %s, %q, %s there before, %s", j.spell, j.cwd, j.clean, j.before, j.suite)
		rel, _ := filepath.Rel(w.base, truth)
		lexRel, _ := filepath.Rel(w.base, lex)
		here := real(cwd)
		if clean && (truth == here || strings.HasPrefix(here, truth+"/")) {
			r.Outcome("refuses to clean the current directory or one above it")
			if res.Code == 0 {
				r.Violate(sig, "does not refuse to clean the current directory or one above it", nil)
			} else if what := failure(res); what != "" {
				r.Violate(sig, what, nil)
			}
			if d := diff(before, now, everywhere); d != "" {
				r.Violate(sig, "changes something although it refuses: "+d, nil)
			}
			return
		}
		outside := func(p string) bool {
			if within(p, rel) || within(p, lexRel) {
				return false
			}
			if _, old := before[p]; !old && (within(rel, p) || within(lexRel, p)) {
				return false // a directory above the output directory that had to be made
			}
			return true
		}
		if d := diff(before, now, outside); d != "" {
			r.Violate(sig, "changes something outside of its output directory: "+d, nil)
		}
		if j.spell == "nowhere" && !clean {
			return // (the link leads to no directory that could be made)
		}
		if res.Code != 0 {
			r.Violate(sig, "fails: "+clip(res.Err), nil)
			return
		}
		r.Outcome("generates")
		where := rel
		if clean {
			// A link is itself replaced.
			where, _ = filepath.Rel(w.base, filepath.Join(real(filepath.Dir(lex)), filepath.Base(lex)))
		}
		if d := after(clean, before, now, where, j.suite); d != "" {
			r.Violate(sig, "the output directory is not right: "+d, nil)
		}
	})
}

func clear(flag string) []string {
	if flag == "" {
		return nil
	}
	return []string{flag}
}

// real is the true path, as far as it exists.
func real(p string) string {
	if q, err := filepath.EvalSymlinks(p); err == nil {
		return q
	}
	if p == "/" {
		return p
	}
	return filepath.Join(real(filepath.Dir(p)), filepath.Base(p))
}

// names tries test names and other strings that look like paths.
func names(r *mc.R) {
	menu := []string{"", ".", "..", "...", "/", "//", "../x", "../../x", "../../../x", "../../../../x", "../../../../../x", "../../../../../../x", "../../../../../../../x", "a/b", "a/../b", "a/../../../../../../x", "./a", "a/", "a/.", "a/..", "/x", "BASE/x", "BASE/home/x", "BASE/home/work/gen.xml",
		`..\x`, `a\b`, `\x`, "a\x00b", "\x00", "../x\x00", "~", "~/x", "-rf", "--clean", "$(touch x)", "`touch x`", "a;touch x", "a b", " ", "a\nb", "\n", "\t", "é", "日本", "\u202e", "%2e%2e%2f", "..%2fx", "C:", "C:x", "con", "a.", "a..b", ".a", ". .", ".. ", " ..", "..\n",
		"rtcg", "convert", "include", "src", "main.cpp", "Makefile", "package.xml", strings.Repeat("z", 255), strings.Repeat("z", 256), strings.Repeat("../", 60) + "x", strings.Repeat("a/", 200), "*", "?", "[a]", "{a,b}", "${NAME}", "../${NAME}", "{{.}}", "..\u2215x"}
	type job struct {
		name  string
		more  string
		clean string
	}
	var jobs []job
	for _, n := range menu {
		for _, more := range []string{"", "aa", "zz"} { // other tests, before or after
			for _, clean := range []string{"", "-clean"} {
				jobs = append(jobs, job{n, more, clean})
			}
		}
	}
	r.States.Add(int64(len(jobs)))
	mc.Par(len(jobs), func(i int) {
		if r.Full() || r.Expired() {
			return
		}
		j := jobs[i]
		w := newWorld(r)
		defer w.remove()
		w.fill("home/work/out", "unrelated")
		w.own()
		name := strings.ReplaceAll(j.name, "BASE", w.base)
		list := []string{name}
		if j.more != "" {
			list = append(list, j.more)
		}
		text := stms(traceText, list...)
		before := snapshot(w.base)
		cwd := w.path("home/work")
		res := w.gen(cwd, cwd, text, append(clear(j.clean), "gen.xml")...)
		now := snapshot(w.base)
		r.Validated.Add(1)
		sig := fmt.Sprintf("test %q with %q, %q", j.name, j.more, j.clean)
		if d := diff(before, now, func(p string) bool { return !within(p, "home/work/out") }); d != "" {
			r.Violate(sig, "changes something outside of its output directory: "+d, nil)
		}
		if res.Code != 0 {
			r.Outcome("refuses the name of a test")
			if what := failure(res); what != "" {
				r.Violate(sig, what, nil)
			}
			if d := diff(before, now, func(p string) bool { _, old := before[p]; return old }); d != "" && len(name) < 200 && !strings.Contains(name, "\x00") {
				r.Violate(sig, "refuses the state machines, but changes what was there: "+d, nil)
			}
			return
		}
		r.Outcome("takes the name of a test")
		for _, f := range []string{"animate/src/" + name + "/src/main.cpp", "ros/src/" + name + "/src/main.cpp", "ros/src/" + name + "/package.xml", "ros/src/" + name + "/CMakeLists.txt"} {
			if _, ok := now["home/work/out/"+f]; !ok {
				r.Violate(sig, "succeeds without making "+f, nil)
			}
		}
		if j.clean == "" {
			if d := diff(below(before, "home/work/out"), below(now, "home/work/out"), func(p string) bool { _, old := before["home/work/out/"+p]; return old && p != "." }); d != "" {
				r.Violate(sig, "unrelated files are changed: "+d, nil)
			}
		}
	})
	// Names in the configuration and of channels, states and values.
	type place struct{ what, cfg, stms string }
	var places []place
	for _, n := range menu {
		x := genx.Cfg{Vars: []genx.Var{{Kind: "ros", Catkin: true, Makefile: true, Channels: [][2]string{{"y", n}}, Includes: []genx.Inc{{Src: n}},
			Pkg: &genx.Pkg{Name: n, Email: n, Maintainer: n, Depends: []string{n}, BuildtoolDepends: []string{n}}}}}
		if strings.ContainsAny(n, "\x00") {
			continue
		}
		places = append(places, place{"configured", x.XML(), suites["one"]}, place{"channel", config().XML(), strings.NewReplacer(`"goTo`, quoted(n), `"y.`, quoted(n)+".", `"y"`, quoted(n)+`"`).Replace(suites["one"])},
			place{"state", config().XML(), strings.ReplaceAll(suites["one"], `"initial"`, quoted(n)+`"`)}, place{"tag", config().XML(), strings.ReplaceAll(suites["one"], `"t"`, quoted(n)+`"`)})
	}
	r.States.Add(int64(len(places)))
	mc.Par(len(places), func(i int) {
		if r.Full() || r.Expired() {
			return
		}
		w := newWorld(r)
		defer w.remove()
		genx.Write(w.path("home/work/gen.xml"), strings.ReplaceAll(places[i].cfg, "BASE", w.base))
		w.fill("home/work/out", "unrelated")
		genx.Write(w.path("home/work/ros/src/convert/convert.cpp"), conversion)
		w.own()
		before := snapshot(w.base)
		cwd := w.path("home/work")
		res := w.gen(cwd, cwd, strings.ReplaceAll(places[i].stms, "BASE", w.base), "gen.xml")
		now := snapshot(w.base)
		r.Validated.Add(1)
		r.Outcome("strange names elsewhere")
		sig := fmt.Sprintf("strange name in %s %d", places[i].what, i/4)
		if d := diff(before, now, func(p string) bool { return !within(p, "home/work/out") }); d != "" {
			r.Violate(sig, "changes something outside of its output directory: "+d, places[i].cfg+places[i].stms)
		}
		if d := diff(before, now, func(p string) bool { _, old := before[p]; return old }); d != "" {
			r.Violate(sig, "changes unrelated files: "+d, places[i].cfg+places[i].stms)
		}
		if res.Code != 0 {
			if what := failure(res); what != "" {
				r.Violate(sig, what, places[i].cfg+places[i].stms)
			}
		}
	})
}

// quoted is a JSON string without the final quote.
func quoted(s string) string {
	q := fmt.Sprintf("%q", s)
	q = strings.NewReplacer(`\x00`, `\u0000`, `\x`, `\u00`).Replace(q)
	return q[:len(q)-1]
}

// histories tries sequences of runs and of the user's own changes.
func histories(r *mc.R) {
	steps := []string{"one", "two", "new", "clean one", "clean new", "same", "bad machines", "clean bad machines", "clean bad configuration", "clean missing file", "user adds", "user spoils"}
	most := mc.Pick(r, 3, 4)
	var jobs [][]int
	mc.Sequences(len(steps), most, func(s []int) bool { jobs = append(jobs, append([]int{}, s...)); return true })
	r.States.Add(int64(len(jobs)))
	mc.Par(len(jobs), func(i int) {
		if r.Full() || r.Expired() {
			return
		}
		w := newWorld(r)
		defer w.remove()
		genx.Write(w.path("home/work/bad.xml"), "<rtcg-gen><cpp")
		w.own()
		cwd := w.path("home/work")
		var done []string
		model := below(snapshot(w.base), "home/work/out")
		outside := snapshot(w.base)
		for _, s := range jobs[i] {
			step := steps[s]
			done = append(done, step)
			sig := "history " + strings.Join(done, ", ")
			before := snapshot(w.base)
			words := strings.Fields(step)
			clean := words[0] == "clean"
			suite := words[len(words)-1]
			var res bb.Res
			bad := false
			switch step {
			case "user adds":
				w.fill("home/work/out", "unrelated")
				w.own()
			case "user spoils":
				_ = filepath.WalkDir(w.path("home/work/out"), func(p string, d fs.DirEntry, err error) error {
					if err == nil && d.Type().IsRegular() {
						genx.Write(p, strings.Repeat("spoilt ", 2000))
					}
					return nil
				})
				w.own()
			case "bad machines":
				bad = true
				res = w.gen(cwd, cwd, suites["two"][:len(suites["two"])/2], "gen.xml")
			case "clean bad machines":
				bad = true
				res = w.gen(cwd, cwd, strings.Replace(suites["two"], `"next":`, `"next":"none`, 1), "-clean", "gen.xml")
			case "clean bad configuration":
				bad = true
				res = w.gen(cwd, cwd, suites["two"], "-clean", "bad.xml")
			case "clean missing file":
				bad = true
				res = w.gen(cwd, cwd, "", "-clean", "gen.xml", "missing.json")
			default:
				args := []string{"gen.xml", suite + ".json"}
				if clean {
					args = append([]string{"-clean"}, args...)
				}
				res = w.gen(cwd, cwd, "", args...)
			}
			now := snapshot(w.base)
			if strings.HasPrefix(step, "user") {
				model = below(now, "home/work/out")
				continue
			}
			if d := diff(outside, now, func(p string) bool { return !within(p, "home/work/out") }); d != "" {
				r.Violate(sig, "changes something outside of its output directory: "+d, nil)
				return
			}
			if bad {
				if res.Code == 0 {
					r.Violate(sig, "takes bad input", nil)
					return
				}
				if d := diff(model, below(now, "home/work/out"), everywhere); d != "" {
					r.Violate(sig, "refuses its input, but changes what was there: "+d, nil)
					return
				}
				r.Outcome("history: refused")
				continue
			}
			if res.Code != 0 {
				r.Violate(sig, "fails: "+clip(res.Err), nil)
				return
			}
			if d := after(clean, before, now, "home/work/out", suite); d != "" {
				r.Violate(sig, "the output directory is not right: "+d, nil)
				return
			}
			r.Outcome("history: generated")
			model = below(now, "home/work/out")
		}
		r.Validated.Add(1)
	})
}

// alike are names that a program might think of as its own beside a file that it makes.
var alike = []struct {
	name string
	of   func(f string) string
}{
	{"suffix", func(f string) string { return f + ".tmp" }},
	{"suffix", func(f string) string { return f + "~" }},
	{"suffix", func(f string) string { return f + ".bak" }},
	{"suffix", func(f string) string { return f + ".orig" }},
	{"suffix", func(f string) string { return f + ".old" }},
	{"suffix", func(f string) string { return f + ".new" }},
	{"suffix", func(f string) string { return f + ".part" }},
	{"suffix", func(f string) string { return f + ".lock" }},
	{"suffix", func(f string) string { return f + ".1" }},
	{"suffix", func(f string) string { return f + "." }},
	{"suffix", func(f string) string { return f + " " }},
	{"hidden", func(f string) string { return "." + f }},
	{"hidden", func(f string) string { return "." + f + ".swp" }},
	{"hidden", func(f string) string { return "." + f + ".tmp" }},
	{"hidden", func(f string) string { return "#" + f + "#" }},
	{"hidden", func(f string) string { return "~" + f }},
	{"shorter", func(f string) string { return strings.TrimSuffix(f, filepath.Ext(f)) }},
	{"shorter", func(f string) string { return f[:len(f)-1] }},
	{"cut", func(f string) string { return strings.TrimSuffix(f, filepath.Ext(f)) + ".tmp" }},
	{"cut", func(f string) string { return strings.TrimSuffix(f, filepath.Ext(f)) + ".o" }},
	{"cut", func(f string) string { return strings.TrimSuffix(f, filepath.Ext(f)) + ".hpp" }},
	{"letters", strings.ToUpper},
	{"fixed", func(string) string { return "tmp" }},
	{"fixed", func(string) string { return ".tmp" }},
	{"fixed", func(string) string { return ".rtcg" }},
	{"fixed", func(string) string { return "rtcg.tmp" }},
}

// neighbours puts files, full directories and links with such names beside everything that generation makes.
func neighbours(r *mc.R) {
	kinds := []string{"file", "full directory", "link out of the directory", "link to nowhere"}
	first := []string{"", "one", "two"}
	n := len(alike) * len(kinds) * len(first)
	r.States.Add(int64(n))
	mc.Par(n, func(i int) {
		if r.Full() || r.Expired() {
			return
		}
		a, kind, prior := alike[i%len(alike)], kinds[i/len(alike)%len(kinds)], first[i/len(alike)/len(kinds)]
		w := newWorld(r)
		defer w.remove()
		w.own()
		cwd := w.path("home/work")
		if prior != "" {
			if res := w.gen(cwd, cwd, "", "gen.xml", prior+".json"); res.Code != 0 {
				r.Violate("neighbours", "fails: "+clip(res.Err), nil)
				return
			}
		}
		genx.Write(w.path("home/target"), "target\n")
		made := 0
		for f := range fresh["two"] {
			if f == "." {
				continue
			}
			p := filepath.Join(filepath.Dir(f), a.of(filepath.Base(f)))
			if _, ours := fresh["two"][p]; ours || p == filepath.Dir(f) {
				continue
			}
			if _, ours := fresh["one"][p]; ours {
				continue
			}
			full := w.path("home/work/out/" + p)
			if _, err := os.Lstat(full); err == nil {
				continue
			}
			_ = os.MkdirAll(filepath.Dir(full), 0o755)
			made++
			switch kind {
			case "file":
				genx.Write(full, "of the user\n")
			case "full directory":
				genx.Write(full+"/of/the/user", "of the user\n")
			case "link out of the directory":
				_ = os.Symlink(w.path("home/target"), full)
			case "link to nowhere":
				_ = os.Symlink(w.path("home/nowhere"), full)
			}
		}
		if made == 0 {
			return
		}
		w.own()
		sig := fmt.Sprintf("neighbours: %s %s (such as %q)", kind, a.name, a.of("main.cpp"))
		before := snapshot(w.base)
		res := w.gen(cwd, cwd, "", "gen.xml", "two.json")
		now := snapshot(w.base)
		r.Transitions.Add(1)
		if res.Code != 0 {
			r.Violate(sig, "fails: "+clip(res.Err), nil)
			return
		}
		if d := diff(before, now, func(p string) bool { return !within(p, "home/work/out") }); d != "" {
			r.Violate(sig, "changes something outside of its output directory: "+d, nil)
			return
		}
		if d := after(false, before, now, "home/work/out", "two"); d != "" {
			r.Violate(sig, "the output directory is not right: "+d, nil)
			return
		}
		r.Nontrivial.Add(1)
		r.Outcome("neighbours are left alone")
	})
}

// invalid tries unreadable inputs with the clean option: nothing may be deleted.
func invalid(r *mc.R) {
	type job struct {
		what  string
		args  []string
		files map[string]string
		stdin string
		may   bool // it may be good all the same
	}
	var jobs []job
	good, xml := suites["two"], config().XML()
	step := mc.Pick(r, 7, 1)
	for i := 0; i < len(good)-1; i += step {
		jobs = append(jobs, job{what: fmt.Sprintf("machines cut after %d bytes", i), args: []string{"-clean", "gen.xml"}, stdin: good[:i]})
	}
	end := strings.LastIndex(xml, "</rtcg-gen>")
	for i := 0; i < end; i += mc.Pick(r, 3, 1) {
		jobs = append(jobs, job{what: fmt.Sprintf("configuration cut after %d bytes", i), args: []string{"-clean", "cut.xml", "two.json"}, files: map[string]string{"cut.xml": xml[:i]}})
	}
	for _, args := range [][]string{{}, {"-clean"}, {"-clean", "none.xml"}, {"-clean", "none.xml", "two.json"}, {"-clean", "gen.xml", "none.json"}, {"-clean", "gen.xml", "sub"}, {"-clean", "sub", "two.json"}, {"-clean", "gen.xml", "two.json", "more"}, {"-clean", "gen.xml", "gen.xml"}, {"-clean", "two.json", "two.json"},
		{"-clean", "-zz", "gen.xml", "two.json"}, {"-zz", "-clean", "gen.xml", "two.json"}, {"-clean", "-output"}, {"-clean=maybe", "gen.xml", "two.json"}, {"-clean", "", "two.json"}, {"-clean", "gen.xml", ""}, {"-clean", "--", "gen.xml", "none"}, {"-clean", "out", "two.json"}, {"-clean", "-output", "out", "gen.xml", "keep"}, {"-clean", "keep", "two.json"}} {
		jobs = append(jobs, job{what: "arguments", args: args, stdin: "{"})
	}
	for _, to := range []string{`null`, `[]`, `""`, `{"tests":null`, `{"tests":[]}`, `{"tests":{"a":null}}`, `{"tests":{"a":{}}}`, `{"tests":{"../a":{}}}`, `{"tests":{"a":{"states":[null]}}}`, `{"tests":{"a":{"states":[{}]}}}`, `{"types":{"a":"zz"}}`, `{"types":{"a":null}}`, `{"tests":{"a":{"states":[{"id":"initial"}]}}}`} {
		jobs = append(jobs, job{what: "machines " + to, args: []string{"-clean", "gen.xml"}, stdin: to, may: true})
	}
	for _, change := range [][2]string{{`"ros"`, `"rosy"`}, {`<cpp variant="ros">`, `<cpp variant="ros"`}, {`</cpp>`, ``}, {`rtcg-gen`, `zz`}, {`</rtcg-gen>`, ``}, {`system`, `system=`}, {`<makefile`, `<<makefile`}} {
		if t := strings.Replace(xml, change[0], change[1], 1); t != xml {
			jobs = append(jobs, job{what: fmt.Sprintf("configuration with %q", change), args: []string{"-clean", "cut.xml", "two.json"}, files: map[string]string{"cut.xml": t}})
		}
	}
	r.States.Add(int64(len(jobs)))
	mc.Par(len(jobs), func(i int) {
		if r.Full() || r.Expired() {
			return
		}
		j := jobs[i]
		w := newWorld(r)
		defer w.remove()
		w.fill("home/work/out", "unrelated")
		for f, t := range j.files {
			genx.Write(w.path("home/work/"+f), t)
		}
		w.own()
		before := snapshot(w.base)
		cwd := w.path("home/work")
		res := w.gen(cwd, cwd, j.stdin, j.args...)
		now := snapshot(w.base)
		r.Validated.Add(1)
		sig := fmt.Sprintf("%s %q", j.what, j.args)
		if res.Code == 0 {
			if !j.may {
				r.Violate(sig, "takes bad input", j.stdin)
			}
			r.Outcome("takes odd input")
			return
		}
		r.Outcome("refuses bad input")
		if what := failure(res); what != "" {
			r.Violate(sig, what, nil)
		}
		if d := diff(before, now, everywhere); d != "" {
			r.Violate(sig, "refuses its input, but changes what was there: "+d, j.stdin)
		}
	})
}

// overlap lets the output directory hold the inputs.
func overlap(r *mc.R) {
	type job struct{ out, cfg, suite string }
	var jobs []job
	for _, out := range []string{".", "../work", "BASE/home/work", "dot", "sub/.."} {
		for _, suite := range []string{"one", "two", "new", "plain"} {
			jobs = append(jobs, job{out, "gen.xml", suite}, job{out, "BASE/home/work/gen.xml", suite}, job{out, "../wl/gen.xml", suite})
		}
	}
	r.States.Add(int64(len(jobs)))
	for _, j := range jobs {
		w := newWorld(r)
		text, ok := suites[j.suite]
		if !ok {
			text = stms("s.out.Ok\n", "a") // no conversion is needed
		}
		genx.Write(w.path("home/work/ros/src/convert/convert.cpp"), "// the user's own\n")
		w.own()
		before := snapshot(w.base)
		cwd := w.path("home/work")
		res := w.gen(cwd, cwd, text, "-output", strings.ReplaceAll(j.out, "BASE", w.base), strings.ReplaceAll(j.cfg, "BASE", w.base))
		now := snapshot(w.base)
		r.Validated.Add(1)
		sig := fmt.Sprintf("inputs in the output directory %q, configuration %q, suite %s", j.out, j.cfg, j.suite)
		if d := diff(before, now, func(p string) bool { _, old := before[p]; return old }); d != "" {
			r.Violate(sig, "changes its own inputs or unrelated files: "+d, nil)
		}
		if res.Code != 0 {
			r.Violate(sig, "fails: "+clip(res.Err), nil)
		}
		r.Outcome("inputs in the output directory")
		w.remove()
	}
}

// obstacles puts something else in the place of each thing that generation makes, one at a time.
func obstacles(r *mc.R) {
	type job struct{ path, what, clean string }
	var jobs []job
	for p, e := range fresh["two"] {
		if p == "." {
			continue
		}
		whats := []string{"a directory", "a full directory", "a protected file"}
		if strings.HasPrefix(e.kind, "d") {
			whats = []string{"a file", "an empty file", "a link to nothing", "a link to a file", "a protected directory"}
		}
		for _, what := range whats {
			for _, clean := range []string{"", "-clean"} {
				if clean == "" || !strings.HasPrefix(what, "a protected d") {
					jobs = append(jobs, job{p, what, clean})
				}
			}
		}
	}
	sort.Slice(jobs, func(i, j int) bool { return fmt.Sprint(jobs[i]) < fmt.Sprint(jobs[j]) })
	r.States.Add(int64(len(jobs)))
	mc.Par(len(jobs), func(i int) {
		if r.Full() || r.Expired() {
			return
		}
		j := jobs[i]
		w := newWorld(r)
		defer w.remove()
		w.fill("home/work/out", "unrelated")
		at := w.path("home/work/out/" + j.path)
		_ = os.RemoveAll(at)
		_ = os.MkdirAll(filepath.Dir(at), 0o755)
		switch j.what {
		case "a file", "a protected file":
			genx.Write(at, "the user's own\n")
		case "an empty file":
			genx.Write(at, "")
		case "a directory", "a protected directory":
			_ = os.MkdirAll(at, 0o755)
		case "a full directory":
			genx.Write(filepath.Join(at, "own/file"), "the user's own\n")
		case "a link to nothing":
			_ = os.Symlink("void/of", at)
		case "a link to a file":
			_ = os.Symlink(w.path("home/work/keep"), at)
		}
		w.own()
		switch j.what {
		case "a protected file":
			_ = os.Chmod(at, 0o444)
		case "a protected directory":
			_ = os.Chmod(at, 0o555)
			defer func() { _ = os.Chmod(at, 0o755) }()
		}
		before := snapshot(w.base)
		cwd := w.path("home/work")
		res := w.gen(cwd, cwd, suites["two"], append(clear(j.clean), "gen.xml")...)
		now := snapshot(w.base)
		r.Validated.Add(1)
		sig := fmt.Sprintf("%s in the place of %s, %q", j.what, j.path, j.clean)
		if d := diff(before, now, func(p string) bool { return !within(p, "home/work/out") }); d != "" {
			r.Violate(sig, "changes something outside of its output directory: "+d, nil)
		}
		if res.Code != 0 {
			if what := failure(res); what != "" {
				r.Violate(sig, what, nil)
			}
		}
		if j.clean != "" {
			r.Outcome("cleans what is in the way")
			if res.Code != 0 {
				r.Violate(sig, "fails: "+clip(res.Err), nil)
			} else if d := after(true, before, now, "home/work/out", "two"); d != "" {
				r.Violate(sig, "the output directory is not right: "+d, nil)
			}
			return
		}
		r.Outcome(fmt.Sprintf("something in the way: fails %v", res.Code != 0))
		old := func(p string) bool {
			_, ok := before[p]
			rel, _ := filepath.Rel("home/work/out", p)
			_, made := fresh["two"][rel]
			// (What is made may replace a file of its name, even if it may not write into it.)
			return ok && (!made || rel == j.path && (j.what != "a protected file" || res.Code != 0))
		}
		if d := diff(before, now, old); d != "" {
			r.Violate(sig, "deletes or changes what was there: "+d, nil)
		}
	})
}

// jail makes the base the root directory, as far as the system lets the user do so.
func jail(r *mc.R) {
	chroot, err1 := exec.LookPath("chroot")
	if err1 != nil {
		chroot, err1 = exec.LookPath("/usr/sbin/chroot")
	}
	unshare, err2 := exec.LookPath("unshare")
	tool, err := os.ReadFile(filepath.Join(r.Bin, "rtcg-gen"))
	if err1 != nil || err2 != nil || err != nil {
		r.Note("root_directory_cases", "not run: unshare or chroot is missing")
		return
	}
	count := 0
	for _, spell := range []string{"/", "//", "/.", "/..", "/../..", "../../..", "../../../..", "/home/..", "/home/work/../..", "upup", "/home", "/home/work", "root", "/etc", "/out"} {
		for _, cwd := range []string{"/home/work", "/", "/home"} {
			for _, flag := range []string{"-clean", ""} {
				w := newWorld(r)
				genx.Write(w.path("bin/rtcg-gen"), string(tool))
				_ = os.Chmod(w.path("bin/rtcg-gen"), 0o755)
				_ = os.Symlink("/", w.path("home/work/root"))
				w.own()
				before := snapshot(w.base)
				shell := []string{unshare, "-Ur", chroot, w.base, "/bin/rtcg-gen"}
				shell = append(shell, clear(flag)...)
				shell = append(shell, "-output", spell, "/home/work/gen.xml", "/home/work/two.json")
				if cwd != "/" {
					// chroot changes to the root directory unless told not to; the current directory is then given
					// by a relative path within the jail.
					shell = append([]string{unshare, "-Ur", chroot, "--skip-chdir", w.base, "/bin/rtcg-gen"}, shell[5:]...)
				}
				if count == 0 {
					// Can it be done at all?
					probe := w.exec(w.base, w.base, "", []string{unshare, "-Ur", chroot, w.base, "/bin/rtcg-gen"})
					if !strings.Contains(probe.Err, "usage") {
						r.Note("root_directory_cases", "not run: "+clip(probe.Err))
						w.remove()
						return
					}
				}
				count++
				res := w.exec(w.path(cwd), cwd, "", shell)
				if strings.Contains(res.Err, "unshare:") || strings.Contains(res.Err, "chroot:") {
					r.Note("root_directory_cases", "partly not run: "+clip(res.Err))
					w.remove()
					continue
				}
				now := snapshot(w.base)
				r.States.Add(1)
				r.Validated.Add(1)
				sig := fmt.Sprintf("root directory: output %q from %s %q", spell, cwd, flag)
				lex := spell
				if !filepath.IsAbs(lex) {
					lex = filepath.Join(cwd, lex)
				}
				lex = filepath.Clean(lex)
				if lex == "/home/work/upup" || lex == "/home/work/root" {
					lex = "/"
				}
				above := cwd == lex || lex == "/" || strings.HasPrefix(cwd, lex+"/")
				if flag != "" && above {
					if res.Code == 0 {
						r.Violate(sig, "does not refuse to clean the current directory or one above it", nil)
					}
					if d := diff(before, now, everywhere); d != "" {
						r.Violate(sig, "changes something although it refuses: "+d, nil)
					}
					r.Outcome("refuses to clean the root directory or one below it")
				} else if res.Code != 0 {
					if lex != "/home" && lex != "/home/work" || flag == "" { // (the inputs are not there any more)
						r.Violate(sig, "fails: "+clip(res.Err), nil)
					}
				} else {
					r.Outcome("generates")
				}
				w.remove()
			}
		}
	}
	r.Note("root_directory_cases_run", count)
}
