// P22: what a tool gives depends on the contents of its inputs, not on how it is invoked.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/UoY-RoboStar/rtcg/internal/zzverif/bb"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/genx"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/mc"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/spec"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/words"
)

func main() { mc.Main("P22", run) }

// call is one invocation, as it is put together.
type call struct {
	dir   string // a fresh directory of its own
	cwd   string
	tool  string
	argv0 string
	env   []string
	shell string // limits, set by a shell that then becomes the tool

	file   string // where the input is, as given on the command line; "" for none
	absent bool   // no argument for the input
	stdin  io.Reader
	stdinF *os.File
	feed   func() // what goes on next to the tool
	extra  []*os.File
	after  []func()

	out    string // sort of standard output
	stderr string

	outDir string // where the project should be
	flags  []string
	config string // as given
}

// tool is a tool with an input, and what it should give.
type target struct {
	name  string
	tool  string
	input string
	cfg   *genx.Cfg
	conv  map[string]string
	want  string            // standard output
	tree  map[string]string // the project
}

// choice is one way of doing something; the first of each dimension is the plain one.
type choice struct {
	name string
	do   func(t *target, c *call)
}

type dimension struct {
	name    string
	choices []choice
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// put writes the input to a file of the given name in the directory of the call.
func put(t *target, c *call, name string) string {
	p := filepath.Join(c.dir, "in", name)
	genx.Write(p, t.input)
	return p
}

// path marks a path to be given relative to what will be the current directory.
func (c *call) path(abs string) string { return "\x00" + abs }

// settle makes the paths marked relative so.
func (c *call) settle() {
	real, err := filepath.EvalSymlinks(c.cwd)
	must(err)
	rel := func(p *string) {
		if strings.HasPrefix(*p, "\x00") {
			var err error
			*p, err = filepath.Rel(real, (*p)[1:])
			must(err)
		}
	}
	rel(&c.file)
	rel(&c.config)
	for i := range c.flags {
		rel(&c.flags[i])
	}
}

func pipeIn(c *call, write func(w *os.File)) *os.File {
	rd, w, err := os.Pipe()
	must(err)
	c.feed = func() { write(w); _ = w.Close() }
	must(rd.Chown(bb.Nobody, bb.Nobody))
	return rd
}

func sources() dimension {
	named := func(name string) choice {
		return choice{"file " + name, func(t *target, c *call) { c.file = c.path(put(t, c, name)) }}
	}
	stdin := func(name string, f func(t *target, c *call)) []choice {
		return []choice{
			{name + ", -", func(t *target, c *call) { c.file = "-"; f(t, c) }},
			{name + ", no argument", func(t *target, c *call) { c.absent = true; f(t, c) }},
		}
	}
	cs := []choice{
		{"absolute path", func(t *target, c *call) { c.file = put(t, c, "input") }},
		{"relative path", func(t *target, c *call) { c.file = c.path(put(t, c, "input")) }},
		{"untidy path", func(t *target, c *call) {
			p := put(t, c, "input")
			c.file = filepath.Dir(p) + "//./../in/" + filepath.Base(p)
		}},
		{"in the current directory", func(t *target, c *call) { c.cwd = filepath.Join(c.dir, "in"); put(t, c, "input"); c.file = "input" }},
		{"./ in the current directory", func(t *target, c *call) { c.cwd = filepath.Join(c.dir, "in"); put(t, c, "input"); c.file = "./input" }},
		{"./- in the current directory", func(t *target, c *call) { c.cwd = filepath.Join(c.dir, "in"); put(t, c, "-"); c.file = "./-" }},
		{"./-x in the current directory", func(t *target, c *call) { c.cwd = filepath.Join(c.dir, "in"); put(t, c, "-x"); c.file = "./-x" }},
		{"in a directory -", func(t *target, c *call) { c.file = put(t, c, "-/-") }},
		named("with space"), named("*?[a]"), named("é→"), named("a.json.xml"), named("$HOME"), named("%41"), named("back\\slash"), named("new\nline"), named(".hidden"),
		{"symbolic link", func(t *target, c *call) {
			p := put(t, c, "input")
			must(os.Symlink(p, filepath.Join(c.dir, "in/link")))
			c.file = filepath.Join(c.dir, "in/link")
		}},
		{"dangling .. through a link", func(t *target, c *call) {
			// link/../x is not x, for the system
			p := put(t, c, "far/deep/input")
			genx.Write(filepath.Join(c.dir, "in/far/input"), t.input)
			must(os.Symlink(filepath.Dir(p), filepath.Join(c.dir, "in/link")))
			c.file = filepath.Join(c.dir, "in") + "/link/../input"
		}},
		{"read-only", func(t *target, c *call) { c.file = put(t, c, "input"); must(os.Chmod(c.file, 0o400)) }},
		{"executable", func(t *target, c *call) { c.file = put(t, c, "input"); must(os.Chmod(c.file, 0o777)) }},
		{"named pipe", func(t *target, c *call) {
			must(os.MkdirAll(filepath.Join(c.dir, "in"), 0o755))
			c.file = filepath.Join(c.dir, "in/fifo")
			must(syscall.Mkfifo(c.file, 0o600))
			f, err := os.OpenFile(c.file, os.O_RDWR, 0)
			must(err)
			c.feed = func() {
				// Let go once the tool has it open.
				_, _ = f.WriteString(t.input)
				for i := 0; i < 2000 && pending(f) > 0; i++ {
					time.Sleep(time.Millisecond)
				}
				_ = f.Close()
			}
		}},
		{"descriptor 3", func(t *target, c *call) {
			rd := pipeIn(c, func(w *os.File) { _, _ = w.WriteString(t.input) })
			c.extra = append(c.extra, rd)
			c.file = "/dev/fd/3"
		}},
		{"/dev/stdin", func(t *target, c *call) {
			c.file = "/dev/stdin"
			c.stdinF = pipeIn(c, func(w *os.File) { _, _ = w.WriteString(t.input) })
		}},
		{"file, standard input closed", func(t *target, c *call) { c.file = put(t, c, "input"); c.shell += "exec <&-;" }},
		{"file, something else on standard input", func(t *target, c *call) { c.file = put(t, c, "input"); c.stdin = strings.NewReader("x.in.1\n{}") }},
	}
	cs = append(cs, stdin("pipe", func(t *target, c *call) { c.stdin = strings.NewReader(t.input) })...)
	cs = append(cs, stdin("regular file", func(t *target, c *call) {
		f, err := os.Open(put(t, c, "input"))
		must(err)
		c.stdinF = f
	})...)
	cs = append(cs, stdin("rest of a file", func(t *target, c *call) {
		p := filepath.Join(c.dir, "in/input")
		genx.Write(p, "a.in.999\n{}\n"+t.input)
		f, err := os.Open(p)
		must(err)
		_, err = f.Seek(12, io.SeekStart)
		must(err)
		c.stdinF = f
	})...)
	cs = append(cs, stdin("socket", func(t *target, c *call) {
		fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
		must(err)
		a, b := os.NewFile(uintptr(fds[0]), "a"), os.NewFile(uintptr(fds[1]), "b")
		c.stdinF = a
		c.feed = func() { _, _ = b.WriteString(t.input); _ = b.Close() }
	})...)
	cs = append(cs, stdin("non-blocking pipe", func(t *target, c *call) {
		var fds [2]int
		must(syscall.Pipe2(fds[:], syscall.O_NONBLOCK|syscall.O_CLOEXEC))
		w := os.NewFile(uintptr(fds[1]), "w")
		c.stdinF = os.NewFile(uintptr(fds[0]), "r")
		c.feed = func() {
			time.Sleep(15 * time.Millisecond)
			_, _ = w.WriteString(t.input)
			_ = w.Close()
		}
	})...)
	cs = append(cs, stdin("terminal", func(t *target, c *call) {
		// (terminals pass on lines of at most 4095 bytes)
		m, s := terminal(false)
		for _, l := range strings.SplitAfter(t.input, "\n") {
			if len(l) > 4000 || m == nil {
				c.stdin = strings.NewReader(t.input)
				return
			}
		}
		must(s.Chown(bb.Nobody, bb.Nobody))
		c.stdinF = s
		c.feed = func() {
			end := "\x04"
			if !strings.HasSuffix(t.input, "\n") {
				end = "\x04\x04"
			}
			_, _ = io.WriteString(m, t.input+end)
		}
		c.after = append(c.after, func() { _ = m.Close() })
	})...)
	cs = append(cs, stdin("file with input's name there", func(t *target, c *call) {
		if strings.HasPrefix(c.cwd, c.dir) {
			genx.Write(filepath.Join(c.cwd, "-"), "rubbish")
		}
		c.stdin = strings.NewReader(t.input)
	})...)
	return dimension{"source", cs}
}

func decoys(dir string) {
	for f, text := range map[string]string{
		"animate/src/convert/convert.cpp": "#error wrong file\n", "ros/src/convert/convert.cpp": "#error wrong file\n", "src/convert/convert.cpp": "#error\n",
		"gen.xml": "<wrong", "input": "rubbish", "in/input": "rubbish", "templates/animate/main.cpp.tmpl": "wrong", "embed/templates/base/stm.cpp.tmpl": "wrong",
		"internal/gen/cpp/embed/templates/base/stm.cpp.tmpl": "wrong", "prelude/rtcg.h": "#error\n", "embed/prelude/rtcg.h": "#error\n",
		"go.mod": "module wrong\n", ".rtcg": "wrong", "rtcg.xml": "<wrong", "cfg/gen.xml": "<wrong",
	} {
		genx.Write(filepath.Join(dir, f), text)
	}
}

// crowd is a directory with files named by the words of the sources.
var crowd string

// dict is those words.
var dict []string

func gather(r *mc.R) {
	dict, _ = words.Source(r)
	crowd = filepath.Join(r.Work, "crowd")
	made := 0
	for _, d := range dict {
		for _, name := range []string{d, d + ".xml", d + ".json", "." + d, "rtcg-" + d, d + ".d/x"} {
			p := filepath.Join(crowd, name)
			if !strings.HasPrefix(p, crowd+"/") || strings.Contains(name, "\x00") || len(name) > 100 {
				continue
			}
			// A word may be the start of another's path.
			if os.MkdirAll(filepath.Dir(p), 0o755) == nil && os.WriteFile(p, []byte("<wrong \n#error\n"), 0o644) == nil {
				made++
			}
		}
	}
	r.Note("files_in_the_crowded_directory", made)
	must(os.Chmod(crowd, 0o755))
}

var variable = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$`)
var special = regexp.MustCompile(`^(GO|LD_|BASH|PATH$|IFS$|ENV$|SHELLOPTS$|POSIXLY_CORRECT$|LC_|LANG)`)

// variables sets all words of the sources to something.
func variables(value string) (env []string) {
	seen := map[string]bool{}
	for _, d := range dict {
		for _, n := range []string{d, strings.ToUpper(d), "RTCG_" + strings.ToUpper(d)} {
			if variable.MatchString(n) && !special.MatchString(n) && !seen[n] {
				seen[n] = true
				env = append(env, n+"="+value)
			}
		}
	}
	return env
}

func cwds() dimension {
	return dimension{"current directory", []choice{
		{"plain", func(t *target, c *call) {}},
		{"/", func(t *target, c *call) { c.cwd = "/" }},
		{"deep", func(t *target, c *call) {
			c.cwd = filepath.Join(c.dir, strings.Repeat("deep down/", 8))
			must(os.MkdirAll(c.cwd, 0o755))
		}},
		{"with files of all sorts", func(t *target, c *call) { decoys(c.cwd) }},
		{"with a file for each word of the sources", func(t *target, c *call) { c.cwd = crowd }},
		{"reached by a link", func(t *target, c *call) {
			must(os.MkdirAll(filepath.Join(c.dir, "real/place"), 0o755))
			must(os.Symlink(filepath.Join(c.dir, "real/place"), filepath.Join(c.dir, "here")))
			c.cwd = filepath.Join(c.dir, "here")
			c.env = append(c.env, "PWD="+c.cwd)
		}},
	}}
}

func envs(r *mc.R) dimension {
	set := func(kv ...string) choice {
		return choice{strings.Join(kv, " "), func(t *target, c *call) { c.env = append(c.env, kv...) }}
	}
	return dimension{"environment", []choice{
		{"plain", func(t *target, c *call) {}},
		{"none", func(t *target, c *call) { c.env = append(c.env, "\x00") }},
		{"every word of the sources is 1", func(t *target, c *call) { c.env = append(c.env, variables("1")...) }},
		{"every word of the sources is /nonexistent", func(t *target, c *call) { c.env = append(c.env, variables("/nonexistent")...) }},
		{"every word of the sources is empty", func(t *target, c *call) { c.env = append(c.env, variables("")...) }},
		set("LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "LC_NUMERIC=de_DE"), set("LC_ALL=C", "LANG="), set("TZ=Asia/Kathmandu"), set("TZ=rubbish"),
		set("HOME=/nonexistent", "TMPDIR=/nonexistent", "XDG_CONFIG_HOME=/nonexistent"), set("PATH="), set("PWD=/nonexistent", "OLDPWD=/"),
		set("GOMAXPROCS=1"), set("GOMAXPROCS=7", "GOGC=1"), set("GOGC=off", "GODEBUG=madvdontneed=1"), set("GOMEMLIMIT=4MiB"), set("DEBUG=1", "VERBOSE=1", "RTCG_DEBUG=1", "TRACE=1"),
		set("TERM=dumb", "NO_COLOR=1", "COLUMNS=20"), set("USER=nobody", "LOGNAME=nobody", "HOSTNAME=elsewhere"), set("SOURCE_DATE_EPOCH=0"), set("CI=true"),
		set("CXX=none", "CXXFLAGS=-Wrong", "ROS_DISTRO=wrong", "CMAKE_PREFIX_PATH=/x"), set("RTCG=x", "RTCG_OUTPUT=x", "OUTPUT=x", "OUT=x", "CLEAN=1"),
	}}
}

func limits() dimension {
	sh := func(name, text string) choice {
		return choice{name, func(t *target, c *call) { c.shell += text }}
	}
	return dimension{"limits", []choice{
		{"none", func(t *target, c *call) {}}, sh("umask 077", "umask 077;"), sh("umask 0", "umask 0;"), sh("24 descriptors", "ulimit -n 24;"),
		sh("small stack", "ulimit -s 4096;"), sh("no core", "ulimit -c 0;"), sh("files to 16 MB", "ulimit -f 32768;"), sh("no hang-up", "trap '' HUP PIPE TERM;"),
	}}
}

func tools(r *mc.R) dimension {
	return dimension{"tool", []choice{
		{"by its path", func(t *target, c *call) {}},
		{"by a link elsewhere", func(t *target, c *call) {
			p := filepath.Join(c.dir, "tools/"+t.tool)
			must(os.MkdirAll(filepath.Dir(p), 0o755))
			must(os.Symlink(c.tool, p))
			c.tool = p
		}},
		{"a copy by another name", func(t *target, c *call) {
			c.tool = filepath.Join(r.Work, "tools "+t.tool+"/x y")
		}},
		{"with another zeroth argument", func(t *target, c *call) { c.argv0 = "-rtcg" }},
		{"with an empty zeroth argument", func(t *target, c *call) { c.argv0 = "\x00" }},
	}}
}

// worlds is what surrounds a process and is not up to who calls it: the time, chance, who and where it is.
func worlds(r *mc.R) dimension {
	d := dimension{"surroundings", []choice{{"plain", func(t *target, c *call) {}}}}
	add := func(kv ...string) {
		d.choices = append(d.choices, choice{strings.Join(kv, " "), func(t *target, c *call) {
			c.tool = filepath.Join(r.Opts["world"], t.tool)
			c.env = append(c.env, kv...)
		}})
	}
	const hour, day = 3600, 86400
	for h := 0; h < 7*24; h++ {
		add(fmt.Sprint("MC_CLOCK=", h*hour))
	}
	for n := 7; n < 366; n++ {
		add(fmt.Sprint("MC_CLOCK=", n*day))
	}
	for y := -60; y <= 200; y++ {
		if y != 0 {
			add(fmt.Sprint("MC_CLOCK=", y*36525*day/100))
		}
	}
	for n := 0; n < mc.Pick(r, 32, 1000); n++ {
		add(fmt.Sprint("MC_RAND=", n))
	}
	for n := 1; n < mc.Pick(r, 32, 1000); n++ {
		add(fmt.Sprint("MC_PID=", n))
	}
	_, numbers := words.Source(r)
	for _, n := range numbers {
		add(fmt.Sprint("MC_PID=", n))
	}
	for _, h := range []string{"", "localhost", "a", "A.b", "build-1", "ci"} {
		add("MC_HOST=" + h)
	}
	for _, sh := range []string{"taskset -c 0", "unshare -U", "unshare -Ur", "nice -n 19", "setsid", "chrt -b 0", "timeout 50"} {
		if exec.Command("/bin/sh", "-c", sh+" true").Run() != nil {
			continue // (not here)
		}
		d.choices = append(d.choices, choice{"under " + sh, func(t *target, c *call) { c.shell += "exec " + sh + ` "$0" "$@";` }})
	}
	return d
}

func outputs() dimension {
	return dimension{"standard output", []choice{
		{"pipe", func(t *target, c *call) {}}, {"file", func(t *target, c *call) { c.out = "file" }}, {"end of a file", func(t *target, c *call) { c.out = "append" }},
		{"place in a file", func(t *target, c *call) { c.out = "place" }}, {"slow pipe", func(t *target, c *call) { c.out = "slow" }}, {"socket", func(t *target, c *call) { c.out = "socket" }},
		{"non-blocking pipe", func(t *target, c *call) { c.out = "nonblock" }}, {"terminal", func(t *target, c *call) { c.out = "terminal" }},
	}}
}

func errputs() dimension {
	return dimension{"standard error", []choice{
		{"pipe", func(t *target, c *call) {}}, {"closed", func(t *target, c *call) { c.shell += "exec 2>&-;" }}, {"full", func(t *target, c *call) { c.shell += "exec 2>/dev/full;" }},
		{"broken pipe", func(t *target, c *call) { c.stderr = "broken" }}, {"terminal", func(t *target, c *call) { c.stderr = "terminal" }},
	}}
}

func outDirs() dimension {
	at := func(name, rel string, flags func(c *call, abs string) []string) choice {
		return choice{name, func(t *target, c *call) {
			c.outDir = filepath.Join(c.dir, rel)
			c.flags = flags(c, c.outDir)
		}}
	}
	return dimension{"output", []choice{
		at("-output X", "o", func(c *call, o string) []string { return []string{"-output", o} }),
		at("-output=X", "o", func(c *call, o string) []string { return []string{"-output=" + o} }),
		at("--output X", "o", func(c *call, o string) []string { return []string{"--output", o} }),
		at("--output=X", "o", func(c *call, o string) []string { return []string{"--output=" + o} }),
		at("relative", "o", func(c *call, o string) []string { return []string{"-output", c.path(o)} }),
		at("deep", "a/b c/d/é", func(c *call, o string) []string { return []string{"-output", o} }),
		at("with slashes", "o", func(c *call, o string) []string { return []string{"-output", o + "/.//"} }),
		at("given twice", "o", func(c *call, o string) []string { return []string{"-output", o + "wrong", "-output", o} }),
		at("-clean", "o", func(c *call, o string) []string { return []string{"-clean", "-output", o} }),
		at("-clean afterwards", "o", func(c *call, o string) []string { return []string{"-output", o, "-clean"} }),
		at("-clean=false", "o", func(c *call, o string) []string { return []string{"-output", o, "-clean=false"} }),
		at("-clean=true --", "o", func(c *call, o string) []string { return []string{"--clean=true", "-output", o, "--"} }),
		{"none given", func(t *target, c *call) {
			if c.cwd == "/" || c.cwd == crowd {
				c.cwd = filepath.Join(c.dir, "top")
				must(os.MkdirAll(c.cwd, 0o755))
			}
			c.outDir = filepath.Join(c.cwd, "out")
		}},
		{"there already", func(t *target, c *call) {
			c.outDir = filepath.Join(c.dir, "o")
			must(os.MkdirAll(c.outDir, 0o755))
			c.flags = []string{"-output", c.outDir}
		}},
		{"by a link", func(t *target, c *call) {
			c.outDir = filepath.Join(c.dir, "o")
			must(os.MkdirAll(c.outDir, 0o755))
			must(os.Symlink(c.outDir, filepath.Join(c.dir, "olink")))
			c.flags = []string{"-output", filepath.Join(c.dir, "olink")}
		}},
		at("-", "-", func(c *call, o string) []string { return []string{"-output", o} }),
	}}
}

func configs() dimension {
	at := func(name, rel string, given func(c *call, abs string) string) choice {
		return choice{name, func(t *target, c *call) {
			abs := filepath.Join(c.dir, rel)
			t.project(abs)
			c.config = given(c, abs)
		}}
	}
	same := func(c *call, p string) string { return p }
	return dimension{"configuration", []choice{
		at("absolute", "cfg/gen.xml", same),
		at("relative", "cfg/gen.xml", func(c *call, p string) string { return c.path(p) }),
		at("untidy", "cfg/gen.xml", func(c *call, p string) string { return filepath.Dir(p) + "/./..//cfg/gen.xml" }),
		at("odd name", "c f*g/é $X.json", same),
		linked("by an absolute link", "", func(from, to string) string { return to }),
		linked("by a relative link", "", func(from, to string) string { return "../x/" + filepath.Base(to) }),
		linked("by a link to its directory", "", func(from, to string) string { return filepath.Base(to) }),
		linked("by two links", "hop", func(from, to string) string { return to }),
		{"directory by a link", func(t *target, c *call) {
			t.project(filepath.Join(c.dir, "realcfg/gen.xml"))
			must(os.Symlink(filepath.Join(c.dir, "realcfg"), filepath.Join(c.dir, "cfg")))
			c.config = filepath.Join(c.dir, "cfg/gen.xml")
		}},
		{"in the current directory", func(t *target, c *call) {
			if c.cwd == "/" || c.cwd == crowd {
				c.cwd = filepath.Join(c.dir, "top2")
			}
			t.project(filepath.Join(c.cwd, "my.xml"))
			c.config = "my.xml"
		}},
		{"-c in the current directory", func(t *target, c *call) {
			if c.cwd == "/" || c.cwd == crowd {
				c.cwd = filepath.Join(c.dir, "top2")
			}
			t.project(filepath.Join(c.cwd, "-c"))
			c.config = "./-c"
		}},
		{"- in the current directory", func(t *target, c *call) {
			if c.cwd == "/" || c.cwd == crowd {
				c.cwd = filepath.Join(c.dir, "top2")
			}
			if c.file == "./-" { // which has the input already
				c.cwd = filepath.Join(c.dir, "top2")
				c.file = c.path(filepath.Join(c.dir, "in/-"))
			}
			t.project(filepath.Join(c.cwd, "-"))
			c.config = "./-"
		}},
		{"names another directory", func(t *target, c *call) {
			t.project(filepath.Join(c.dir, "cfg/gen.xml"))
			decoys(filepath.Join(c.dir, "x"))
			other := *t.cfg
			other.Directory = filepath.Join(c.dir, "cfg")
			c.config = filepath.Join(c.dir, "x/gen.xml")
			genx.Write(c.config, other.XML())
		}},
		at("in the directory above the output", "gen.xml", same),
	}}
}

// linked has the configuration as a link: what is beside the link is the user's, what is beside its target is not.
func linked(name, hop string, text func(from, to string) string) choice {
	return choice{name, func(t *target, c *call) {
		link, to := filepath.Join(c.dir, "cfg/gen.xml"), filepath.Join(c.dir, "x/other.xml")
		t.project(link)
		must(os.Remove(link))
		decoys(filepath.Join(c.dir, "x"))
		if text(link, to) == filepath.Base(to) {
			to = filepath.Join(c.dir, "cfg/other.xml")
		}
		genx.Write(to, t.cfg.XML())
		if hop != "" {
			mid := filepath.Join(c.dir, hop, "mid.xml")
			decoys(filepath.Dir(mid))
			must(os.Symlink(text(mid, to), mid))
			to = mid
		}
		must(os.Symlink(text(link, to), link))
		c.config = link
	}}
}

// odd is names that something could take for more than names.
var odd = []string{"$HOME", "x${PWD}y", "$$", "$1", "${X:-y}", "~", "~root", "a~", "*", "?", "[a]", "[", "{a,b}", "with  space", " ends with space ", "%41", "%", "%s", "%2F", "back\\slash", "\\", "\\n", "new\nline", "tab\tin", "\x01", "\x7f",
	".hidden", "...", "x.", "é→", "e\u0301", "İ", "a,b", "a:b", ":", "#", "a#b", "quo\"te", "'", "`id`", "$(id)", "a&b", "&amp;", "<x>", "a;b", "|", "!", "=", "-flag", "--", "+", "@", "@f", "a.json", "gen.xml", "animate", "ros", "out", "src",
	"convert", "NUL", "con", "{{.}}", "CMakeLists.txt", "UPPER", "upper", "a.tar.gz", "0", "-1", "http:", "file:", "C:", "host:path", "c.exe", strings.Repeat("n", 250)}

// oddNames gives these names to everything that has a name.
func oddNames(t *target) dimension {
	cs := []choice{{"plain", func(t *target, c *call) {}}}
	add := func(what, n string, f func(t *target, c *call)) { cs = append(cs, choice{what + " " + n, f}) }
	for _, n := range odd {
		n := n
		add("input", n, func(t *target, c *call) { c.file = put(t, c, n) })
		add("input in", n, func(t *target, c *call) { c.file = put(t, c, n+"/"+n) })
		add("input relative", n, func(t *target, c *call) {
			c.cwd = filepath.Join(c.dir, "in")
			put(t, c, n)
			c.file = n
			if n[0] == '-' {
				c.file = "./" + n
			}
		})
		add("current directory", n, func(t *target, c *call) {
			c.cwd = filepath.Join(c.dir, n)
			must(os.MkdirAll(c.cwd, 0o755))
			c.file = put(t, c, "input")
			if t.cfg != nil {
				t.project(filepath.Join(c.cwd, "gen.xml"))
				c.config, c.flags, c.outDir = "gen.xml", nil, filepath.Join(c.cwd, "out")
			}
		})
		if t.cfg == nil {
			continue
		}
		add("output", n, func(t *target, c *call) {
			c.outDir = filepath.Join(c.dir, n)
			c.flags = []string{"-output", c.outDir}
		})
		add("output in", n, func(t *target, c *call) {
			c.outDir = filepath.Join(c.dir, n, n)
			c.flags = []string{"-output=" + c.outDir + "/"}
		})
		add("output relative", n, func(t *target, c *call) {
			c.cwd = filepath.Join(c.dir, "top")
			must(os.MkdirAll(c.cwd, 0o755))
			c.outDir = filepath.Join(c.cwd, n)
			c.flags = []string{"-clean", "-output=" + n}
		})
		if t.conv[n] != "" {
			continue // what belongs to the configuration is of this name
		}
		add("configuration", n, func(t *target, c *call) {
			c.config = filepath.Join(c.dir, "c", n)
			t.project(c.config)
		})
		add("configuration in", n, func(t *target, c *call) {
			c.config = filepath.Join(c.dir, n, "gen.xml")
			t.project(c.config)
		})
		add("configuration relative", n, func(t *target, c *call) {
			c.cwd = filepath.Join(c.dir, "c")
			t.project(filepath.Join(c.cwd, n))
			c.config = n
			if n[0] == '-' {
				c.config = "./" + n
			}
		})
		if strings.Contains(n, "\x01") {
			continue // XML has no such character
		}
		add("configured directory", n, func(t *target, c *call) {
			t.project(filepath.Join(c.dir, "cfg2", n, "x.xml"))
			decoys(filepath.Join(c.dir, "x"))
			other := *t.cfg
			other.Directory = filepath.Join(c.dir, "cfg2", n)
			c.config = filepath.Join(c.dir, "x/gen.xml")
			genx.Write(c.config, other.XML())
		})
	}
	return dimension{"name", cs}
}

// project writes the configuration and what belongs to it.
func (t *target) project(path string) {
	genx.Write(path, t.cfg.XML())
	for v, text := range t.conv {
		genx.Write(filepath.Join(filepath.Dir(path), v, "src/convert/convert.cpp"), text)
	}
}

// pending is how many bytes wait in a pipe.
func pending(f *os.File) int {
	var n int32
	rc, err := f.SyscallConn()
	if err != nil {
		return 0
	}
	_ = rc.Control(func(fd uintptr) {
		_, _, _ = syscall.Syscall(syscall.SYS_IOCTL, fd, 0x541B, uintptr(unsafe.Pointer(&n)))
	})
	return int(n)
}

func run(r *mc.R) {
	for _, n := range []string{"rtcg-read-traces", "rtcg-make-stms", "rtcg-gen"} {
		b, err := os.ReadFile(filepath.Join(r.Bin, n))
		must(err)
		p := filepath.Join(r.Work, "tools "+n, "x y")
		genx.Write(p, string(b))
		must(os.Chmod(p, 0o755))
	}
	gather(r)
	ts := targets(r)
	for _, t := range ts {
		if !reference(r, t) {
			return
		}
	}
	for _, t := range ts {
		dims := []dimension{cwds(), sources(), envs(r), limits(), tools(r), errputs()}
		if t.cfg != nil {
			dims = append(dims, configs(), outDirs())
		} else {
			dims = append(dims, outputs())
		}
		if strings.HasPrefix(t.name, "huge") {
			dims = []dimension{sources(), limits(), tools(r), outputs()}
			if t.cfg != nil {
				dims = append(dims[:3], configs(), outDirs())
				for i := 3; i < 5; i++ {
					dims[i].choices = dims[i].choices[:1]
				}
			}
			explore(r, t, dims)
			continue
		}
		explore(r, t, dims)
		for i := range dims {
			dims[i].choices = dims[i].choices[:1]
		}
		w := worlds(r)
		if strings.HasPrefix(t.name, "large") && !r.Thorough() { // a part of them
			for i := 1; i*37 < len(w.choices); i++ {
				w.choices[i] = w.choices[i*37]
			}
			w.choices = w.choices[:1+len(w.choices)/37]
		}
		explore(r, t, append(dims, w))
		if strings.HasPrefix(t.name, "small") || r.Thorough() {
			explore(r, t, append(dims, oddNames(t)))
		}
		if r.Full() || r.Expired() {
			return
		}
	}
	for _, t := range ts {
		if strings.HasPrefix(t.name, "huge") {
			continue
		}
		absent(r, t)
		chunks(r, t)
		together(r, t)
	}
}

func targets(r *mc.R) (ts []*target) {
	add := func(name, traces string, cfg genx.Cfg, conv map[string]string) {
		s1 := bb.Run(r, "", traces, "rtcg-read-traces")
		s2 := bb.Run(r, "", s1.Out, "rtcg-make-stms")
		if s1.Code != 0 || s2.Code != 0 {
			r.Violate(name, "the tools fail on a plain input: "+s1.Err+s2.Err, nil)
			return
		}
		c := cfg
		ts = append(ts, &target{name: name + ": rtcg-read-traces", tool: "rtcg-read-traces", input: traces},
			&target{name: name + ": rtcg-make-stms", tool: "rtcg-make-stms", input: s1.Out},
			&target{name: name + ": rtcg-gen", tool: "rtcg-gen", input: s2.Out, cfg: &c, conv: conv})
	}
	both := genx.Cfg{Vars: []genx.Var{{Kind: "animate", Makefile: true, Channels: [][2]string{{"level", "float"}}},
		{Kind: "ros", Catkin: true, Includes: []genx.Inc{{Src: "std_msgs/Int64.h"}}, Channels: [][2]string{{"level", "std_msgs::Int64"}}}}}
	conv := map[string]string{"animate": "// animate's own\nint a;\n", "ros": "// ros's own\nint b;\n"}
	add("small", "first: go.in.3,level.out.-5,land.call\n# comment\nstatus.out.İé,level.out.7\n", both, conv)
	var b strings.Builder
	for i := 0; i < mc.Pick(r, 32, 100); i++ {
		for j := 0; j <= i%17; j++ {
			fmt.Fprintf(&b, "go.in.%d,level.out.%d,status.out.S%d,", i, j-3, i*j)
		}
		fmt.Fprintf(&b, "level.out.%d\n", i)
	}
	add("large", b.String(), both, conv)
	// More than a megabyte each, but few programs.
	b.Reset()
	for i := 0; i < 40; i++ {
		fmt.Fprintf(&b, "go.in.%d", i)
		for j := 0; j < 5; j++ {
			fmt.Fprintf(&b, ",status.out.S%d%s", j, strings.Repeat("long", 2000))
		}
		b.WriteString("\n")
	}
	add("huge", b.String(), both, conv)
	return ts
}

// reference makes the plain call and keeps what it gives.
func reference(r *mc.R, t *target) bool {
	c := &call{dir: filepath.Join(r.Work, "ref", strings.ReplaceAll(t.name, ": ", "-"))}
	genx.Write(filepath.Join(c.dir, "input"), t.input)
	if t.cfg == nil {
		res := bb.Run(r, c.dir, "", t.tool, "input")
		t.want = res.Out
		if res.Code != 0 || res.Err != "" {
			r.Violate(t.name+": plain", fmt.Sprintf("status %d: %s", res.Code, res.Err), nil)
			return false
		}
		return true
	}
	t.project(filepath.Join(c.dir, "gen.xml"))
	res := bb.Run(r, c.dir, "", t.tool, "gen.xml", "input")
	if res.Code != 0 || res.Err != "" || res.Out != "" {
		r.Violate(t.name+": plain", fmt.Sprintf("status %d: %s%s", res.Code, res.Err, res.Out), nil)
		return false
	}
	t.tree = normal(filepath.Join(c.dir, "out"))
	s, err := spec.DecodeStms([]byte(t.input))
	if err != nil {
		r.Broken("%v", err)
		return false
	}
	for n := range s.Tests {
		for _, v := range t.cfg.Vars {
			f := v.Kind + "/src/" + n
			_, flat := t.tree[f+"/main.cpp"]
			_, deep := t.tree[f+"/src/main.cpp"]
			if !flat && !deep {
				r.Violate(t.name+": plain", "there is no program for "+f, nil)
				return false
			}
		}
	}
	return true
}

func normal(dir string) map[string]string {
	t := genx.Tree(dir)
	for f := range t {
		t[f] = genx.Normal(t[f])
	}
	return t
}

// explore makes all calls that differ from the plain one in at most two (three) dimensions.
func explore(r *mc.R, t *target, dims []dimension) {
	most := mc.Pick(r, 2, 3)
	if !strings.HasPrefix(t.name, "small") {
		most = mc.Pick(r, 1, 2)
	}
	var vecs [][]int
	var rec func(d int, vec []int, left int)
	rec = func(d int, vec []int, left int) {
		if d == len(dims) {
			vecs = append(vecs, append([]int{}, vec...))
			return
		}
		for i := range dims[d].choices {
			if i == 0 {
				rec(d+1, append(vec, 0), left)
			} else if left > 0 {
				rec(d+1, append(vec, i), left-1)
			}
		}
	}
	rec(0, nil, most)
	sort.SliceStable(vecs, func(i, j int) bool { return weight(vecs[i]) < weight(vecs[j]) })
	r.States.Add(int64(len(vecs)))
	var mu sync.Mutex
	bad := map[string]bool{} // deviations that already fail with fewer
	for w := 0; w <= most; w++ {
		var level [][]int
		for _, v := range vecs {
			if weight(v) == w {
				level = append(level, v)
			}
		}
		mc.Par(len(level), func(i int) {
			if r.Full() || r.Expired() {
				return
			}
			v := level[i]
			mu.Lock()
			skip := contains(bad, v)
			mu.Unlock()
			if skip {
				return
			}
			what := attempt(r, t, dims, v)
			if what != "" {
				what = attempt(r, t, dims, v)
			}
			r.Validated.Add(1)
			r.Nontrivial.Add(1)
			r.Outcome(t.tool + ": the same")
			if what != "" {
				mu.Lock()
				bad[fmt.Sprint(v)] = true
				mu.Unlock()
				r.Violate(t.name+": "+describe(dims, v), what, map[string]any{"input": t.input})
			} else if weight(v) == most && i%997 == 0 {
				r.Sample("%s: %s", t.name, describe(dims, v))
			}
		})
	}
}

func weight(v []int) (n int) {
	for _, x := range v {
		if x != 0 {
			n++
		}
	}
	return n
}

// contains is whether a part of the deviations is known to fail.
func contains(bad map[string]bool, v []int) bool {
	n := len(v)
	for mask := 0; mask < 1<<n; mask++ {
		u := make([]int, n)
		ok := true
		for i := range v {
			if mask>>i&1 == 1 {
				if v[i] == 0 {
					ok = false
				}
				u[i] = v[i]
			}
		}
		if ok && bad[fmt.Sprint(u)] {
			return true
		}
	}
	return false
}

func describe(dims []dimension, v []int) string {
	var ws []string
	for i, x := range v {
		if x != 0 {
			ws = append(ws, dims[i].name+" "+dims[i].choices[x].name)
		}
	}
	if len(ws) == 0 {
		return "plain"
	}
	return strings.Join(ws, "; ")
}

// attempt makes a call and says what is wrong with what it gives, or "".
func attempt(r *mc.R, t *target, dims []dimension, v []int) (what string) {
	dir, err := os.MkdirTemp(r.Work, "call")
	must(err)
	defer os.RemoveAll(dir)
	c := &call{dir: dir, cwd: filepath.Join(dir, "cwd"), tool: filepath.Join(r.Bin, t.tool), env: []string{"PATH=/usr/bin:/bin"}}
	must(os.MkdirAll(c.cwd, 0o755))
	for i, x := range v {
		dims[i].choices[x].do(t, c)
	}
	must(os.MkdirAll(c.cwd, 0o755))
	defer func() {
		for _, f := range append(c.extra, c.stdinF) {
			if f != nil {
				_ = f.Close()
			}
		}
	}()
	c.settle()
	args := append([]string{}, c.flags...)
	if t.cfg != nil {
		args = append(args, c.config)
	}
	if !c.absent {
		args = append(args, c.file)
	}
	bb.Own(r, c.dir)
	stdout, stderr, code, err := c.start(args)
	if err != nil {
		r.Broken("%s: %s: %v", t.name, describe(dims, v), err)
		return ""
	}
	r.Transitions.Add(1)
	stderr = warning.ReplaceAllString(stderr, "")
	switch {
	case code != 0:
		return fmt.Sprintf("exit status %d: %s", code, clip(stderr))
	case stderr != "":
		return "writes to standard error: " + clip(stderr)
	}
	if t.cfg == nil {
		if stdout != t.want {
			return "gives something else: " + genx.FirstDiff(t.want, stdout)
		}
		return ""
	}
	if stdout != "" {
		return "writes to standard output: " + clip(stdout)
	}
	if d := genx.Diff(t.tree, normal(c.outDir)); d != "" {
		return "gives something else: " + d
	}
	return ""
}

// warning is what the shell in between has to say about a locale.
var warning = regexp.MustCompile(`(?m)^/bin/bash: warning: .*\n`)

func clip(s string) string {
	if len(s) > 300 {
		return s[:300]
	}
	return s
}

// start runs the call.
func (c *call) start(args []string) (stdout, stderr string, code int, err error) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	var cmd *exec.Cmd
	if c.shell != "" && c.argv0 == "" {
		cmd = exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", c.shell + ` exec "$0" "$@"`, c.tool}, args...)...)
	} else if c.shell != "" {
		cmd = exec.CommandContext(ctx, "/bin/bash", append([]string{"-c", c.shell + ` n="$1"; shift; exec -a "$n" "$0" "$@"`, c.tool, strings.Trim(c.argv0, "\x00")}, args...)...)
	} else {
		cmd = exec.CommandContext(ctx, c.tool, args...)
		if c.argv0 != "" {
			cmd.Args[0] = strings.Trim(c.argv0, "\x00")
		}
	}
	cmd.Dir = c.cwd
	bb.AsNobody(cmd)
	cmd.Env = c.env
	for i, e := range c.env {
		if e == "\x00" {
			cmd.Env = append([]string{}, append(c.env[i+1:], "_=")...)
			break
		}
	}
	cmd.ExtraFiles = c.extra
	switch {
	case c.stdinF != nil:
		cmd.Stdin = c.stdinF
	case c.stdin != nil:
		cmd.Stdin = c.stdin
	}
	var errb bytes.Buffer
	cmd.Stderr = &errb
	var closers []*os.File
	var wg sync.WaitGroup
	if c.stderr == "terminal" {
		if m, s := terminal(true); m != nil {
			cmd.Stderr = s
			closers = append(closers, s)
			wg.Add(1)
			go func() {
				defer wg.Done()
				b, _ := io.ReadAll(m)
				errb.Write(b)
				_ = m.Close()
			}()
		}
	}
	if c.stderr == "broken" {
		rd, w, err := os.Pipe()
		must(err)
		_ = rd.Close()
		defer w.Close()
		cmd.Stderr = w
	}
	var out bytes.Buffer
	collect := func(rd *os.File, w *os.File, wait time.Duration) {
		cmd.Stdout = w
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(wait)
			buf := make([]byte, 1000)
			for {
				n, err := rd.Read(buf)
				out.Write(buf[:n])
				if err != nil {
					_ = rd.Close()
					return
				}
			}
		}()
	}
	skip := ""
	switch c.out {
	case "file", "append", "place":
		p := filepath.Join(c.dir, "stdout")
		flags := os.O_RDWR | os.O_CREATE
		switch c.out {
		case "append":
			skip = "before\n"
			flags |= os.O_APPEND
			genx.Write(p, skip)
		case "place":
			skip = "before\n"
			genx.Write(p, skip)
		}
		f, err := os.OpenFile(p, flags, 0o644)
		must(err)
		defer f.Close()
		_, err = f.Seek(int64(len(skip)), io.SeekStart)
		must(err)
		cmd.Stdout = f
		defer func() {
			b, _ := os.ReadFile(p)
			if s := string(b); strings.HasPrefix(s, skip) {
				stdout = s[len(skip):]
			} else {
				stdout = "(lost what was before)" + s
			}
		}()
	case "slow":
		rd, w, err := os.Pipe()
		must(err)
		closers = append(closers, w)
		collect(rd, w, 30*time.Millisecond)
	case "nonblock":
		var fds [2]int
		must(syscall.Pipe2(fds[:], syscall.O_NONBLOCK|syscall.O_CLOEXEC))
		rd, w := os.NewFile(uintptr(fds[0]), "r"), os.NewFile(uintptr(fds[1]), "w")
		closers = append(closers, w)
		collect(rd, w, 30*time.Millisecond)
	case "terminal":
		if m, s := terminal(true); m != nil {
			closers = append(closers, s)
			collect(m, s, 0)
		} else {
			cmd.Stdout = &out
		}
	case "socket":
		fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
		must(err)
		rd, w := os.NewFile(uintptr(fds[0]), "a"), os.NewFile(uintptr(fds[1]), "b")
		closers = append(closers, w)
		collect(rd, w, 0)
	default:
		cmd.Stdout = &out
	}
	err = cmd.Start()
	for _, f := range closers {
		_ = f.Close()
	}
	for _, f := range append(c.extra, c.stdinF) {
		if f != nil {
			_ = f.Close()
		}
	}
	if err != nil {
		return "", "", 0, err
	}
	if c.feed != nil {
		wg.Add(1)
		go func() { defer wg.Done(); c.feed() }()
	}
	werr := cmd.Wait()
	for _, f := range c.after {
		f()
	}
	wg.Wait()
	var ee *exec.ExitError
	switch {
	case ctx.Err() != nil:
		return out.String(), "(does not end) " + errb.String(), -1, nil
	case errors.As(werr, &ee):
		code = ee.ExitCode()
		if code == -1 {
			code = -2
		}
	case werr != nil && !errors.Is(werr, syscall.EPIPE):
		return "", "", 0, werr
	}
	return out.String(), errb.String(), code, nil
}

// terminal gives the two ends of a pseudo-terminal that passes on what is written as it is (but, unless raw, gives lines
// and takes ^D for the end); none, where there are no terminals.
func terminal(raw bool) (*os.File, *os.File) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil
	}
	ioctl := func(f *os.File, req uintptr, arg unsafe.Pointer) bool {
		rc, err := f.SyscallConn()
		ok := false
		return err == nil && rc.Control(func(fd uintptr) {
			_, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, uintptr(arg))
			ok = e == 0
		}) == nil && ok
	}
	var n, zero int32
	if ioctl(m, syscall.TIOCSPTLCK, unsafe.Pointer(&zero)) && ioctl(m, syscall.TIOCGPTN, unsafe.Pointer(&n)) {
		if s, err := os.OpenFile(fmt.Sprint("/dev/pts/", n), os.O_RDWR|syscall.O_NOCTTY, 0); err == nil {
			var t syscall.Termios
			if ioctl(s, syscall.TCGETS, unsafe.Pointer(&t)) {
				t.Oflag &^= syscall.OPOST
				t.Iflag &^= syscall.ICRNL | syscall.INLCR | syscall.IGNCR | syscall.IXON | syscall.ISTRIP
				t.Lflag &^= syscall.ECHO | syscall.ECHONL | syscall.IEXTEN | syscall.ISIG
				if raw {
					t.Lflag &^= syscall.ICANON
				}
				if ioctl(s, syscall.TCSETS, unsafe.Pointer(&t)) {
					return m, s
				}
			}
			_ = s.Close()
		}
	}
	_ = m.Close()
	return nil, nil
}

// chunks delivers a small input through a pipe in two parts, at every place, and byte by byte, the next part coming only
// when the tool has taken the one before.
func chunks(r *mc.R, t *target) {
	if strings.HasPrefix(t.name, "large") {
		return
	}
	n := len(t.input)
	step := mc.Pick(r, 1, 1)
	if t.cfg != nil {
		step = mc.Pick(r, 9, 1)
	}
	var cases [][]int
	for k := 0; k <= n; k += step {
		cases = append(cases, []int{k})
	}
	var every []int
	for k := 1; k < n && k < 1500; k++ {
		every = append(every, k)
	}
	cases = append(cases, every)
	r.States.Add(int64(len(cases)))
	mc.Par(len(cases), func(i int) {
		if r.Full() || r.Expired() {
			return
		}
		cuts := cases[i]
		dims := []dimension{{"delivery", []choice{{fmt.Sprint("in parts ", cuts[:1]), func(t *target, c *call) {
			c.absent = true
			c.stdinF = pipeIn(c, func(w *os.File) {
				at := 0
				for _, k := range append(append([]int{}, cuts...), n) {
					_, _ = w.WriteString(t.input[at:k])
					at = k
					for j := 0; j < 2000 && pending(w) > 0; j++ {
						time.Sleep(50 * time.Microsecond)
					}
				}
			})
			if t.cfg != nil {
				t.project(filepath.Join(c.dir, "gen.xml"))
				c.config = filepath.Join(c.dir, "gen.xml")
				c.outDir = filepath.Join(c.dir, "o")
				c.flags = []string{"-output", c.outDir}
			}
		}}}}}
		what := attempt(r, t, dims, []int{0})
		r.Validated.Add(1)
		if what != "" {
			r.Violate(fmt.Sprintf("%s: in %d parts, first after %d bytes", t.name, len(cuts)+1, cuts[0]), what, nil)
		}
	})
}

// together runs several instances at once, on their own and on common inputs.
func together(r *mc.R, t *target) {
	n := 8
	dims := []dimension{{"instances", []choice{{"several at once", func(t *target, c *call) {
		c.file = filepath.Join(r.Work, "ref", strings.ReplaceAll(t.name, ": ", "-"), "input")
		if t.cfg != nil {
			c.config = filepath.Join(filepath.Dir(c.file), "gen.xml")
			c.outDir = filepath.Join(c.dir, "o")
			c.flags = []string{"-output", c.outDir}
		}
	}}}}}
	for round := 0; round < mc.Pick(r, 3, 10); round++ {
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if what := attempt(r, t, dims, []int{0}); what != "" {
					r.Violate(t.name+": several at once", what, nil)
				}
				r.Evaluations.Add(1)
			}()
		}
		wg.Wait()
	}
}

// absent gives names of which nothing is the name, one for each argument in turn, with good input elsewhere: what is in
// the way of an input counts for nothing unless it is named.
func absent(r *mc.R, t *target) {
	names := []string{"", " ", "\t", " -", "- ", "-\n", "./-", "−", "‐", "stdin", "STDIN", "<stdin>", "INPUT", "Input", "input ", " input", "input.json", "inpu", "in*", "?nput", "[i]nput",
		"~/input", "$PWD/input", "${PWD}/input", "%PWD%/input", "$HOME/input", "file:input", "file://input", "@input", "=input", "<input", "input;", "input:", "./input.", "input\n", ".", "./", "..",
		"subdir", "link", "dangling", "dangling/input", "locked", "input#", "input?", "'input'", "\"input\"", "\\input", ".\\input", "sub/input", "input.csv", "input.txt", "input.gz", "deep", "deep/er"}
	exact := []string{"input/", "input/.", "input/..", "missing/../input", "input/../input", "subdir/missing/../../input"}
	type job struct {
		name   string
		config bool
	}
	var jobs []job
	for _, n := range append(names, exact...) {
		jobs = append(jobs, job{n, false})
	}
	if t.cfg != nil {
		for _, n := range names {
			jobs = append(jobs, job{strings.Replace(n, "input", "gen.xml", 1), true})
		}
	}
	r.States.Add(int64(len(jobs)))
	bb.Unprivileged = true
	defer func() { bb.Unprivileged = false }()
	mc.Par(len(jobs), func(i int) {
		if r.Full() {
			return
		}
		j := jobs[i]
		dir, err := os.MkdirTemp(r.Work, "absent")
		must(err)
		defer os.RemoveAll(dir)
		genx.Write(filepath.Join(dir, "input"), t.input)
		genx.Write(filepath.Join(dir, "subdir/input"), t.input)
		genx.Write(filepath.Join(dir, "deep/er/input"), t.input)
		genx.Write(filepath.Join(dir, "locked"), t.input)
		must(os.Chmod(filepath.Join(dir, "locked"), 0))
		must(os.Symlink("subdir", filepath.Join(dir, "link")))
		must(os.Symlink("nothing", filepath.Join(dir, "dangling")))
		args := []string{j.name}
		if t.cfg != nil {
			t.project(filepath.Join(dir, "gen.xml"))
			args = []string{"gen.xml", j.name}
			if j.config {
				args = []string{j.name, "input"}
			}
		}
		bb.Own(r, dir)
		before := genx.Tree(dir)
		res := bb.RunEnv(r, dir, []string{"HOME=" + dir, "PWD=" + dir}, strings.NewReader(t.input), filepath.Join(r.Bin, t.tool), args...)
		r.Transitions.Add(1)
		r.Nontrivial.Add(1)
		sig := fmt.Sprintf("%s: absent: %q", t.name, args)
		switch {
		case res.Code == 0:
			r.Violate(sig, "succeeds although there is no such input: "+clip(res.Out), nil)
		case res.Crashed() || res.TimedOut || strings.TrimSpace(res.Err) == "":
			r.Violate(sig, "no orderly refusal: "+clip(res.Err), nil)
		case res.Out != "":
			r.Violate(sig, "refuses, but writes "+clip(res.Out), nil)
		default:
			if d := genx.Diff(before, genx.Tree(dir)); d != "" {
				r.Violate(sig, "refuses, but changes files: "+d, nil)
				return
			}
			r.Outcome("no such input")
		}
	})
}
