// Package words collects the texts and numbers that the code itself mentions.
//
// A special case in the code has to name what it is special about, so these go on the menus of the checks.
package words

import (
	"go/scanner"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/UoY-RoboStar/rtcg/internal/zzverif/mc"
)

var word = regexp.MustCompile(`[\pL\pN_./:+-]+|[\pL\pN_]+|[\pL_]+`)
var simple = regexp.MustCompile(`[\pL\pN_]+`)

// odd is whether a file cannot carry a character, or it becomes ASCII in lower case.
func odd(c rune) bool {
	return c == 0x130 || c == 0x212a || c != '\n' && c != '\t' && !unicode.IsPrint(c)
}

// Source gives every short text that is a literal, an identifier or a word in the sources, and the numbers in them.
func Source(r *mc.R) (texts []string, numbers []int) {
	ts, ns := map[string]bool{}, map[int]bool{}
	add := func(s string) {
		if s != "" && len(s) <= 40 && utf8.ValidString(s) && strings.IndexFunc(s, odd) < 0 {
			ts[s] = true
		}
	}
	split := func(s string) {
		for _, w := range word.FindAllString(s, -1) {
			add(w)
			add(strings.Trim(w, "./:+-"))
		}
		for _, w := range simple.FindAllString(s, -1) {
			add(w)
		}
	}
	err := filepath.WalkDir(r.Repo, func(path string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		name := d.Name()
		if d.IsDir() && (name == ".git" || name == "bin" || name == "out" || name == "examples" || name == "testdata" || name == "test") {
			return filepath.SkipDir
		}
		if d.IsDir() || !d.Type().IsRegular() || strings.HasSuffix(name, "_test.go") {
			return nil
		}
		switch filepath.Ext(name) {
		case ".tmpl", ".sh", ".h", ".cpp", ".mod":
			bs, err := os.ReadFile(path)
			if err == nil {
				split(string(bs))
			}
			return err
		case ".go":
		default:
			return nil
		}
		bs, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		var s scanner.Scanner
		s.Init(fset.AddFile(path, fset.Base(), len(bs)), bs, func(token.Position, string) {}, 0)
		for {
			_, tok, lit := s.Scan()
			switch tok {
			case token.EOF:
				return nil
			case token.IDENT:
				add(lit)
			case token.INT:
				if n, err := strconv.ParseInt(lit, 0, 32); err == nil {
					ns[int(n)] = true
				}
			case token.FLOAT:
				add(lit)
			case token.CHAR, token.STRING:
				if u, err := strconv.Unquote(lit); err == nil {
					add(u)
					split(u)
				}
			}
		}
	})
	if err != nil {
		r.Broken("reading the sources: %v", err)
	}
	if len(ts) < 100 {
		r.Broken("only %d words in the sources", len(ts))
	}
	for s := range ts {
		texts = append(texts, s)
	}
	sort.Strings(texts)
	for n := range ns {
		if n >= 0 {
			numbers = append(numbers, n)
		}
	}
	sort.Ints(numbers)
	return texts, numbers
}

// Sizes gives the numbers of the sources and their neighbours, from 1 to a maximum.
func Sizes(r *mc.R, max int) (out []int) {
	_, numbers := Source(r)
	seen := map[int]bool{}
	for _, n := range numbers {
		for _, m := range []int{n - 1, n, n + 1, n + 2} {
			if m >= 1 && m <= max && !seen[m] {
				seen[m] = true
				out = append(out, m)
			}
		}
	}
	sort.Ints(out)
	return out
}
