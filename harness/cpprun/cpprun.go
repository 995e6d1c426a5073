// Package cpprun compiles generated test programs, many into one driver, and runs scripts against them.
package cpprun

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/UoY-RoboStar/rtcg/internal/zzverif/mc"
)

// Set is a set of programs that share a conversion header: the variant directory of one generated project.
type Set struct {
	Src     string   // directory of the sources ("src" of a variant)
	Objects []string // further sources to compile and link, e.g. rtcg.cpp and convert.cpp
	Incs    []string // further include directories
	Tests   []string
	Size    int // tests per driver

	dir    string
	flags  []string
	Groups []*Group
}

// Group is the tests of one driver.
type Group struct {
	Tests []string
	Exe   string
}

// Error is a program that does not compile on its own.
type Error struct{ Test, Text string }

func command(dir string, seconds int, name string, args ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(seconds)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	if ctx.Err() != nil {
		err = errors.New("took too long")
	}
	return string(out), err
}

var include = regexp.MustCompile(`(?m)^[ \t]*#[ \t]*include[ \t]*([<"][^>"\n]*[>"])`)

// Build compiles everything into dir; extra is the text of the driver's part that knows how to run a program.
// It returns the tests that do not compile on their own.
func (s *Set) Build(r *mc.R, dir, driver string) (bad []Error) {
	s.dir = dir
	if s.Size == 0 {
		s.Size = 40
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		r.Broken("%v", err)
		return nil
	}
	s.flags = []string{"-std=c++17", "-O0", "-w"}
	for _, d := range append([]string{filepath.Join(s.Src, "rtcg"), filepath.Join(s.Src, "convert")}, s.Incs...) {
		s.flags = append(s.flags, "-I"+d)
	}
	var objs []string
	for i, o := range s.Objects {
		obj := filepath.Join(dir, fmt.Sprintf("obj%d.o", i))
		if out, err := command(dir, 120, "g++", append(s.flags, "-c", o, "-o", obj)...); err != nil {
			bad = append(bad, Error{Test: filepath.Base(o), Text: clip(out)})
			continue
		}
		objs = append(objs, obj)
	}
	if len(bad) > 0 {
		return bad
	}
	var mu sync.Mutex
	var single []*Group
	n := (len(s.Tests) + s.Size - 1) / s.Size
	s.Groups = make([]*Group, n)
	mc.Par(n, func(i int) {
		lo, hi := i*s.Size, (i+1)*s.Size
		if hi > len(s.Tests) {
			hi = len(s.Tests)
		}
		g := &Group{Tests: s.Tests[lo:hi], Exe: filepath.Join(dir, fmt.Sprintf("drv%d", i))}
		_, err := s.compile(g, driver, objs)
		if err != nil {
			// Which of them is at fault?
			var errs []Error
			for _, t := range g.Tests {
				if o, e := s.syntax(t); e != nil {
					errs = append(errs, Error{Test: t, Text: clip(o)})
				}
			}
			if len(errs) == 0 {
				// Each compiles, but does it link?
				for _, t := range g.Tests {
					if _, o, e := s.Alone(t); e != nil {
						errs = append(errs, Error{Test: t, Text: clip(o)})
						break
					}
				}
				if len(errs) > 0 {
					mu.Lock()
					bad = append(bad, errs...)
					mu.Unlock()
					return
				}
			}
			if len(errs) == 0 {
				// They don't go together, so each gets a driver of its own.
				for k, t := range g.Tests {
					one := &Group{Tests: []string{t}, Exe: fmt.Sprintf("%s_%d", g.Exe, k)}
					out, err := s.compile(one, driver, objs)
					mu.Lock()
					if err != nil {
						r.Broken("a driver does not compile although its program does: %s", clip(out))
					} else {
						single = append(single, one)
					}
					mu.Unlock()
					if err != nil {
						return
					}
				}
				return
			}
			mu.Lock()
			bad = append(bad, errs...)
			mu.Unlock()
			skip := map[string]bool{}
			for _, e := range errs {
				skip[e.Test] = true
			}
			var rest []string
			for _, t := range g.Tests {
				if !skip[t] {
					rest = append(rest, t)
				}
			}
			g.Tests = rest
			if len(rest) == 0 {
				return
			}
			if _, err := s.compile(g, driver, objs); err != nil {
				return // The errors there are have been reported; these have another one, in linking.
			}
		}
		s.Groups[i] = g
	})
	gs := single
	for _, g := range s.Groups {
		if g != nil {
			gs = append(gs, g)
		}
	}
	s.Groups = gs
	return bad
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500]
	}
	return s
}

func (s *Set) main(test string) string { return filepath.Join(s.Src, test, "src/main.cpp") }

func (s *Set) compile(g *Group, driver string, objs []string) (string, error) {
	var b strings.Builder
	seen := map[string]bool{}
	var body strings.Builder
	var table strings.Builder
	for i, t := range g.Tests {
		text, err := os.ReadFile(s.main(t))
		if err != nil {
			return err.Error(), err
		}
		for _, m := range include.FindAllStringSubmatch(string(text), -1) {
			if !seen[m[1]] {
				seen[m[1]] = true
				fmt.Fprintf(&b, "#include %s\n", m[1])
			}
		}
		fmt.Fprintf(&body, "namespace mc_test_%d {\n#include \"%s\"\n}\n", i, s.main(t))
		fmt.Fprintf(&table, "  case %d: return mc_call(mc_test_%d::main);\n", i, i)
	}
	fmt.Fprintf(&b, "%s\n%s\nstatic int mc_run(int i)\n{\n  switch (i) {\n%s  }\n  return -1;\n}\n%s", common, body.String(), table.String(), driver)
	src := g.Exe + ".cpp"
	if err := os.WriteFile(src, []byte(b.String()), 0o644); err != nil {
		return err.Error(), err
	}
	args := append([]string{}, s.flags...)
	args = append(args, src)
	args = append(args, objs...)
	return command(s.dir, 600, "g++", append(args, "-o", g.Exe)...)
}

func (s *Set) syntax(t string) (string, error) {
	return command(s.dir, 120, "g++", append(append([]string{}, s.flags...), "-fsyntax-only", s.main(t))...)
}

// Alone compiles one program on its own, for confirming what the driver showed.
func (s *Set) Alone(t string) (exe string, out string, err error) {
	exe = filepath.Join(s.dir, "alone-"+t)
	args := append([]string{}, s.flags...)
	args = append(args, s.main(t))
	for i := range s.Objects {
		args = append(args, filepath.Join(s.dir, fmt.Sprintf("obj%d.o", i)))
	}
	out, err = command(s.dir, 120, "g++", append(args, "-o", exe)...)
	return exe, out, err
}

// Reply is what a program did with a script.
type Reply struct {
	Died     string // how the driver died, if it did
	Code     int
	Consumed int // driver-specific
	Out, Err string
}

// Run runs the scripts given for the tests of group g, calling back with each reply.
func (g *Group) Run(scripts [][]string, reply func(test int, script string, rep Reply)) error {
	for t, list := range scripts {
		for start := 0; start < len(list); {
			done, died, err := g.serve(t, list[start:], func(i int, rep Reply) { reply(t, list[start+i], rep) })
			if err != nil {
				return err
			}
			start += done
			if died != "" && start < len(list) {
				reply(t, list[start], Reply{Died: died})
				start++
			} else if done == 0 {
				return fmt.Errorf("the driver gave no answer")
			}
		}
	}
	return nil
}

func (g *Group) serve(test int, scripts []string, reply func(i int, rep Reply)) (done int, died string, err error) {
	cmd := exec.Command(g.Exe)
	cmd.Dir = filepath.Dir(g.Exe)
	in, err := cmd.StdinPipe()
	if err != nil {
		return 0, "", err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return 0, "", err
	}
	var errb strings.Builder
	cmd.Stderr = &errb
	if err := cmd.Start(); err != nil {
		return 0, "", err
	}
	go func() {
		w := bufio.NewWriterSize(in, 1<<16)
		for _, s := range scripts {
			fmt.Fprintf(w, "%d %s\n", test, s)
		}
		_ = w.Flush()
		_ = in.Close()
	}()
	rd := bufio.NewReaderSize(out, 1<<16)
	for done < len(scripts) {
		head, e := rd.ReadString('\n')
		if e != nil {
			break
		}
		f := strings.Fields(head)
		if len(f) != 5 || f[0] != "R" {
			died = "wrote over the driver's protocol: " + head
			break
		}
		var n [4]int
		for i := range n {
			n[i], _ = strconv.Atoi(f[i+1])
		}
		buf := make([]byte, n[2]+n[3])
		if _, e := io.ReadFull(rd, buf); e != nil {
			break
		}
		reply(done, Reply{Code: n[0], Consumed: n[1], Out: string(buf[:n[2]]), Err: string(buf[n[2]:])})
		done++
	}
	if done < len(scripts) {
		_, _ = io.Copy(io.Discard, rd)
	}
	e := cmd.Wait()
	if done < len(scripts) && died == "" {
		died = fmt.Sprintf("%v %s", e, clip(errb.String()))
	}
	return done, died, nil
}

// common is the part of the driver that captures what a program writes and stops those that don't end.
const common = `
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>

struct mc_buf : std::streambuf
{
  std::string text;
  int overflow(int c) override
  {
    if (c != EOF) text.push_back((char)c);
    check();
    return c;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override
  {
    text.append(s, n);
    check();
    return n;
  }
  void check()
  {
    if (text.size() > (1 << 20)) { fputs("endless output", stderr); _exit(99); }
  }
};

static int mc_call(int (*f)()) { return f(); }
static char mc_arg0[] = "test";
static int mc_call(int (*f)(int, char**)) { char* argv[] = {mc_arg0, nullptr}; return f(1, argv); }

static void mc_reply(int code, long consumed, const std::string& out, const std::string& err)
{
  printf("R %d %ld %zu %zu\n", code, consumed, out.size(), err.size());
  fwrite(out.data(), 1, out.size(), stdout);
  fwrite(err.data(), 1, err.size(), stdout);
  fflush(stdout);
}

// Reads a line "test word word..."; false at the end.
static bool mc_line(int& test, std::vector<std::string>& words)
{
  static char* line = nullptr;
  static size_t cap = 0;
  ssize_t n = getline(&line, &cap, stdin);
  if (n <= 0) return false;
  words.clear();
  std::string cur;
  for (ssize_t i = 0; i < n; i++)
  {
    if (line[i] == ' ' || line[i] == '\n') { if (!cur.empty()) words.push_back(cur); cur.clear(); }
    else cur.push_back(line[i]);
  }
  test = atoi(words.at(0).c_str());
  words.erase(words.begin());
  return true;
}
`

// Animate is the driver for programs that read words from standard input.
const Animate = `
int main()
{
  std::ios fmt0(nullptr);
  fmt0.copyfmt(std::cout);
  int test;
  std::vector<std::string> words;
  while (mc_line(test, words))
  {
    std::string text;
    for (auto& w : words) text += w + "\n";
    std::istringstream in(text);
    mc_buf out, err;
    auto *i0 = std::cin.rdbuf(in.rdbuf()), *o0 = std::cout.rdbuf(&out), *e0 = std::cerr.rdbuf(&err);
    std::cin.clear();
    std::cout.clear();
    std::cerr.clear();
    std::cout.copyfmt(fmt0);
    alarm(20);
    int code = mc_run(test);
    alarm(0);
    std::cin.clear();
    std::cout.flush();
    std::cerr.flush();
    // How many words were read?
    long pos = (long)in.rdbuf()->pubseekoff(0, std::ios::cur, std::ios::in);
    long consumed = 0;
    size_t end = 0;
    for (auto& w : words)
    {
      end += w.size();
      if ((long)end <= pos) consumed++;
      end++;
    }
    std::cin.rdbuf(i0);
    std::cout.rdbuf(o0);
    std::cerr.rdbuf(e0);
    mc_reply(code, consumed, out.text, err.text);
  }
  fflush(stdout);
  _exit(0);
}
`

// Ros is the driver for ROS nodes, on the stand-in for roscpp.
const Ros = `
int main()
{
  int test;
  std::vector<std::string> words;
  mcRos().alone = false;
  while (mc_line(test, words))
  {
    mc_buf out, err;
    auto *o0 = std::cout.rdbuf(&out), *e0 = std::cerr.rdbuf(&err);
    mcRos().reset();
    mcRos().script = words;
    alarm(20);
    int code = mc_run(test);
    alarm(0);
    std::cout.flush();
    std::cerr.flush();
    std::cout.rdbuf(o0);
    std::cerr.rdbuf(e0);
    mc_reply(code, 0, mcRos().log, err.text);
  }
  fflush(stdout);
  _exit(0);
}
`
