// Package genx drives the generator as a black box: configurations, suites, and the trees of files that come out.
package genx

import (
	"encoding/xml"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/UoY-RoboStar/rtcg/internal/zzverif/bb"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/mc"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/spec"
)

// Inc is an include of a configuration.
type Inc struct {
	Src    string
	System bool
}

// Pkg is a package of a Catkin configuration; a field is left out if empty.
type Pkg struct {
	Name, Version, Description, Email, Maintainer, License string
	BuildtoolDepends, Depends                              []string
}

// Var is a variant of a configuration.
type Var struct {
	Kind     string
	Includes []Inc
	Channels [][2]string
	Makefile bool
	Catkin   bool
	Pkg      *Pkg
}

// Cfg is a configuration.
type Cfg struct {
	Vars      []Var
	Directory string
}

func esc(s string) string {
	var b strings.Builder
	_ = xml.EscapeText(&b, []byte(s))
	return b.String()
}

// XML renders a configuration.
func (c Cfg) XML() string {
	var b strings.Builder
	b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\" ?>\n<rtcg-gen>\n")
	if c.Directory != "" {
		fmt.Fprintf(&b, "  <directory>%s</directory>\n", esc(c.Directory))
	}
	for _, v := range c.Vars {
		fmt.Fprintf(&b, "  <cpp variant=\"%s\">\n", esc(v.Kind))
		for _, i := range v.Includes {
			sys := ""
			if i.System {
				sys = ` system="true"`
			}
			fmt.Fprintf(&b, "    <include src=\"%s\"%s/>\n", esc(i.Src), sys)
		}
		for _, ch := range v.Channels {
			fmt.Fprintf(&b, "    <channel name=\"%s\" type=\"%s\"/>\n", esc(ch[0]), esc(ch[1]))
		}
		if v.Makefile {
			b.WriteString("    <makefile/>\n")
		}
		if v.Catkin {
			b.WriteString("    <catkin>\n")
			if p := v.Pkg; p != nil {
				b.WriteString("      <package>\n")
				el := func(n, s string) {
					if s != "" {
						fmt.Fprintf(&b, "        <%s>%s</%s>\n", n, esc(s), n)
					}
				}
				el("name", p.Name)
				el("version", p.Version)
				el("description", p.Description)
				if p.Maintainer != "" || p.Email != "" {
					email := ""
					if p.Email != "" {
						email = fmt.Sprintf(" email=\"%s\"", esc(p.Email))
					}
					fmt.Fprintf(&b, "        <maintainer%s>%s</maintainer>\n", email, esc(p.Maintainer))
				}
				el("license", p.License)
				for _, d := range p.BuildtoolDepends {
					el("buildtool_depend", d)
				}
				for _, d := range p.Depends {
					el("depend", d)
				}
				b.WriteString("      </package>\n")
			}
			b.WriteString("    </catkin>\n")
		}
		b.WriteString("  </cpp>\n")
	}
	b.WriteString("</rtcg-gen>\n")
	return b.String()
}

// Project writes a configuration and the users' conversion sources into dir and returns the configuration's path.
func (c Cfg) Project(dir string, convert map[string]string) string {
	Write(filepath.Join(dir, "gen.xml"), c.XML())
	for variant, text := range convert {
		Write(filepath.Join(dir, variant, "src/convert/convert.cpp"), text)
	}
	return filepath.Join(dir, "gen.xml")
}

// Write writes a file and the directories above it.
func Write(path, text string) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
		panic(err)
	}
}

// Gen runs rtcg-gen on a suite; the output goes to dir/out unless args say otherwise.
func Gen(r *mc.R, dir, cfg string, suite *spec.MSuite, args ...string) bb.Res {
	return bb.Run(r, dir, string(spec.EncodeStms(suite)), "rtcg-gen", append(args, cfg)...)
}

// Tree reads everything under dir: files by path, directories with a final slash and no content.
func Tree(dir string) map[string]string {
	out := map[string]string{}
	_ = filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			out["!error"] = err.Error()
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case d.IsDir():
			out[rel+"/"] = ""
		case d.Type().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				b = []byte("!" + err.Error())
			}
			out[rel] = string(b)
		default:
			l, _ := os.Readlink(p)
			out[rel] = "!" + d.Type().String() + " " + l
		}
		return nil
	})
	return out
}

var date = regexp.MustCompile(`(?m)^\s*//.*\b\d{4}-\d\d-\d\d .*$`)

// Normal removes the generation date, which is stamped into a comment.
func Normal(text string) string { return date.ReplaceAllString(text, "// (date)") }

// Files lists the files (not directories) of a tree, sorted.
func Files(t map[string]string) []string {
	var fs []string
	for p := range t {
		if !strings.HasSuffix(p, "/") {
			fs = append(fs, p)
		}
	}
	sort.Strings(fs)
	return fs
}

// Diff says how two trees differ, apart from dates, or "".
func Diff(a, b map[string]string) string {
	var paths []string
	for p := range a {
		paths = append(paths, p)
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	for _, p := range paths {
		x, okx := a[p]
		y, oky := b[p]
		switch {
		case !okx:
			return p + " is new"
		case !oky:
			return p + " is missing"
		case Normal(x) != Normal(y):
			return p + ": " + FirstDiff(Normal(x), Normal(y))
		}
	}
	return ""
}

// FirstDiff shows the first line in which two texts differ.
func FirstDiff(a, b string) string {
	as, bs := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(as) || i < len(bs); i++ {
		x, y := "<end>", "<end>"
		if i < len(as) {
			x = as[i]
		}
		if i < len(bs) {
			y = bs[i]
		}
		if x != y {
			if len(x) > 200 {
				x = x[:200]
			}
			if len(y) > 200 {
				y = y[:200]
			}
			return fmt.Sprintf("line %d: %q against %q", i+1, x, y)
		}
	}
	return "same"
}

// Command is a CMake command.
type Command struct {
	Name string
	Args []string
}

// CMake splits a CMake file into commands (no bracket arguments or quotes are needed here).
func CMake(text string) (out []Command, ok bool) {
	var clean []string
	for _, l := range strings.Split(text, "\n") {
		l, _, _ = strings.Cut(l, "#")
		clean = append(clean, l)
	}
	rest := strings.TrimSpace(strings.Join(clean, "\n"))
	for rest != "" {
		name, tail, found := strings.Cut(rest, "(")
		if !found {
			return nil, false
		}
		args, tail2, found := strings.Cut(tail, ")")
		if !found {
			return nil, false
		}
		out = append(out, Command{strings.TrimSpace(name), strings.Fields(args)})
		rest = strings.TrimSpace(tail2)
	}
	return out, true
}
