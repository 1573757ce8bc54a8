package props

import (
	"bufio"
	"bytes"
	"embed"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"slices"
	"sort"
	"strings"
	"sync"

	"verif/mc/eng"
	"verif/mc/licproto"

	"github.com/pinpt/ripsrc/ripsrc/fileinfo"
	enry "gopkg.in/src-d/enry.v1"
)

//go:embed data
var data embed.FS

const (
	limSize, limLines, limWidth = 1000000, 40000, 1096
)

// exclusion list as documented in custom_patterns.txt
var patternLines, exclusions = func() (ls []string, re *regexp.Regexp) {
	b, err := data.ReadFile("data/patterns.txt")
	if err != nil {
		panic(err)
	}
	var ps []string
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] == '#' || l[0] == '!' {
			continue
		}
		if i := strings.Index(l, "#"); i > 0 {
			l = strings.TrimSpace(l[:i])
		}
		ls = append(ls, l)
		l = strings.Replace(l, ".", `\.`, -1)
		l = strings.Replace(l, "*", "(.*?)", -1)
		ps = append(ps, l)
	}
	return ls, regexp.MustCompile("(" + strings.Join(ps, "|") + ")")
}()

// wantInfo is the expected answer for a file (without license detection).
func wantInfo(path string, content []byte, lines [][]byte) (lang, skip string) {
	if len(content) > limSize {
		return "", fmt.Sprintf("File size was %dK which exceeds limit of %dK", len(content)/1000, limSize/1000)
	}
	switch {
	case enry.IsConfiguration(path):
		return "", "File was a config file"
	case enry.IsDotFile(path):
		return "", "File was a dot file"
	case exclusions.MatchString(path):
		return "", "File was on an exclusion list"
	case enry.IsVendor(path) && !strings.HasPrefix(path, "src/"):
		return "", "File was a vendored file"
	}
	if len(lines) > limLines {
		return "", fmt.Sprintf("File has more than %d lines", limLines)
	}
	for _, l := range lines {
		if len(l) > limWidth {
			return "", fmt.Sprintf("File has a line width of %d which is greater than max of %d", len(l), limWidth)
		}
	}
	lang = enry.GetLanguage(path, content)
	if lang == "" {
		return "", "Language was unknown"
	}
	return lang, ""
}

func splitLines(content []byte) [][]byte {
	ls := bytes.Split(content, []byte("\n"))
	if len(ls) > 0 && len(ls[len(ls)-1]) == 0 {
		ls = ls[:len(ls)-1]
	}
	return ls
}

func checkInfo(c *eng.Ctx, u int, p *fileinfo.Process, path string, content []byte, what string) bool {
	lines := splitLines(content)
	info, skip := p.GetInfo(fileinfo.InfoArgs{FilePath: path, Content: content, Lines: lines})
	lang, want := wantInfo(path, content, lines)
	c.Add("transitions", 1)
	c.State(lang, want)
	if skip != want || info.Language != lang || info.License != nil {
		c.Fail(u, "%q%s: language %q, skipped %q, license %v; expected language %q, skipped %q", path, what, info.Language, skip, info.License, lang, want)
		return false
	}
	return true
}

// expand returns the strings an exclusion pattern without its anchors stands for.
func expand(p string) []string {
	p = strings.TrimSuffix(strings.TrimPrefix(p, "^"), "$")
	res := []string{""}
	i := 0
	for i < len(p) {
		var opts []string
		switch p[i] {
		case '(':
			j := i + strings.IndexByte(p[i:], ')')
			for _, o := range strings.Split(p[i+1:j], "|") {
				opts = append(opts, strings.Trim(o, "^$"))
			}
			i = j + 1
			if i < len(p) && p[i] == '?' {
				opts = append(opts, "")
				i++
			}
		case '[':
			j := i + strings.IndexByte(p[i:], ']')
			for _, ch := range strings.Replace(p[i+1:j], `\`, "", -1) {
				opts = append(opts, string(ch))
			}
			i = j + 1
		case '\\':
			i++
			continue
		case '*':
			opts = []string{"", "any"}
			i++
		default:
			opts = []string{p[i : i+1]}
			i++
		}
		var n []string
		for _, r := range res {
			for _, o := range opts {
				n = append(n, r+o)
			}
		}
		res = n
	}
	return res
}

var pathWords = func() []string {
	seen := map[string]bool{}
	var r []string
	add := func(s string) {
		if !seen[s] && s != "" {
			seen[s] = true
			r = append(r, s)
		}
	}
	for _, p := range patternLines {
		for _, s := range expand(p) {
			add(s)
		}
	}
	for _, s := range []string{"main.go", "a", "a.py", "config.json", "x.xml", "x.yml", "x.ini", "x.toml", "x.json", ".config", ".a.go", ".git", "cache", "cache/a.go", "dependencies/a.go", "deps/a.go", "dist/a.js", "third_party/a.go", "bower_components/a.js", "jquery.js", "bootstrap.css", "Vagrantfile", "gradlew", "extern/a.c", "external/a.c", "debian/x", "fixtures/a.rb", "testdata/a.go", "README.go", "src", "src/", "Makefile", "a.min.js", "angular.js", "d3.v3.js", "raphael.js", "tinymce/a.js", "_workspace", "configure", "config.guess", "LICENSE.go", "doc.go", "x.d.ts", "cordova.js", "Sparkle/a.m", "vendors/a.go", "node_modules", "é.go", "a b.go", "a\tb.go", "\xff.go", "a\n.go"} {
		add(s)
	}
	return r
}()

var pathPrefixes = []string{"", "dir/", "src/", "src/dir/", "x", "a/src/", "./"}
var pathSuffixes = []string{"", "x", ".go", "/main.go", "\n"}

func pathClasses() eng.Space {
	np, ns := len(pathPrefixes), len(pathSuffixes)
	at := func(i int) string {
		return pathPrefixes[i%np] + pathWords[i/np/ns] + pathSuffixes[i/np%ns]
	}
	return eng.Space{Name: "paths", Rule: fmt.Sprintf("every string the %d patterns of the exclusion list stand for and every name of the configuration, dot file and vendor alphabets (%d names), with each of the prefixes %q and suffixes %q, asked twice of the same process and of a fresh one", len(patternLines), len(pathWords), pathPrefixes, pathSuffixes),
		Size: func() int { return len(pathWords) * np * ns }, Batch: 2000, Desc: func(i int) string { return fmt.Sprintf("%q", at(i)) },
		Exec: func(c *eng.Ctx, units []int) error {
			p := fileinfo.New()
			for _, u := range units {
				src := []byte("package main\n\nfunc main() {\n}\n")
				_ = checkInfo(c, u, p, at(u), src, "") && checkInfo(c, u, p, at(u), src, " asked again") && checkInfo(c, u, fileinfo.New(), at(u), src, " asked of a fresh process")
				c.Add("traces", 1)
			}
			return nil
		}}
}

var limPaths = []string{"main.go", "config.json", ".dot", "go.sum", "vendored/a.go", "dependencies/a.go", "src/cache/a.go", "unknown.zzz"}

type limCase struct {
	path               string
	size, lines, width int
}

// limContent builds content of exactly the given size with the given number of
// lines, one of which, at the given place, has the given width.
func limContent(l limCase, place int, build bool) ([]byte, bool) {
	rest := l.size - l.lines // newlines
	if rest < l.width || l.lines < 1 {
		return nil, false
	}
	rest -= l.width
	if per := min(l.width, limWidth); rest > per*(l.lines-1) {
		return nil, false
	}
	if !build {
		return nil, true
	}
	var b []byte
	at := []int{0, l.lines / 2, l.lines - 1}[place]
	per := min(l.width, limWidth)
	for i := 0; i < l.lines; i++ {
		n := l.width
		if i != at {
			n = per
			if n > rest {
				n = rest
			}
			rest -= n
		}
		b = append(b, bytes.Repeat([]byte{'a'}, n)...)
		b = append(b, '\n')
	}
	return b, true
}

func limits() eng.Space {
	sizes := []int{50000, 999000, 999999, 1000000, 1000001, 1000999, 1001000, 2000000}
	counts := []int{1, 950, 39999, 40000, 40001, 80000}
	widths := []int{1, 30, 1095, 1096, 1097, 5000, 999998}
	type unit struct {
		l     limCase
		place int
	}
	var us []unit
	for _, p := range limPaths {
		for _, s := range sizes {
			for _, n := range counts {
				for _, w := range widths {
					for pl := 0; pl < 3; pl++ {
						if _, ok := limContent(limCase{"", s, n, w}, pl, false); ok {
							us = append(us, unit{limCase{p, s, n, w}, pl})
						}
					}
				}
			}
		}
	}
	return eng.Space{Name: "limits", Rule: fmt.Sprintf("every combination that exists of size %v, number of lines %v, one line of width %v at start, middle or end, and path class %q", sizes, counts, widths, limPaths),
		Size: func() int { return len(us) }, Batch: 200, Desc: func(i int) string { return fmt.Sprintf("%+v", us[i]) },
		Exec: func(c *eng.Ctx, units []int) error {
			for _, u := range units {
				b, _ := limContent(us[u].l, us[u].place, true)
				checkInfo(c, u, fileinfo.New(), us[u].l.path, b, fmt.Sprintf(" (%+v)", us[u]))
				c.Add("traces", 1)
			}
			return nil
		}}
}

// multibyte: widths are bytes, whatever characters they make.
func multibyte() eng.Space {
	chars := []string{"\xc3\xa9", "\xe6\x97\xa5", "\xf0\x9f\x98\x80", "\xe9", "\xff\xfe", "e\xcc\x81", "\r", "\t", " ", "\x00"}
	ends := []string{"", "\n", "\r\n", "\nx", "\r"}
	const widths = 8
	n := len(chars) * len(ends) * widths
	at := func(i int) string {
		ch, i := chars[i%len(chars)], i/len(chars)
		e, w := ends[i%len(ends)], limWidth-3+i/len(ends)
		return repeat(ch, w/len(ch)) + repeat("x", w%len(ch)) + e
	}
	return eng.Space{Name: "multibyte", Rule: fmt.Sprintf("a line of %d to %d bytes of each of the characters %q, with each of the ends %q, alone or after a line", limWidth-3, limWidth+4, chars, ends),
		Size: func() int { return n * 2 }, Batch: 100, Desc: func(i int) string { return fmt.Sprintf("%d %.40q", len(at(i/2)), at(i/2)) },
		Exec: func(c *eng.Ctx, units []int) error {
			for _, u := range units {
				s := at(u / 2)
				if u%2 == 1 {
					s = "package a\n" + s
				}
				checkInfo(c, u, fileinfo.New(), "d/a.go", []byte(s), "")
				c.Add("traces", 1)
			}
			return nil
		}}
}

var langNames = []string{"a", "a.go", "a.h", "a.m", "a.pl", "a.t", "a.sql", "a.r", "a.cls", "a.ts", "a.md", "a.inc", "Rakefile", "Dockerfile", "a.php", "a.xyz", "d/a.lisp", "a.GO", "a.c.x", "go", ".go", "a.", "é.rb"}
var langTexts = []string{"", "\n", "package main\n", "#!/bin/sh\necho\n", "#!/usr/bin/env python3\nprint(1)\n", "#!/usr/bin/perl\nuse strict;\n", "// vim: ft=ruby\n", "-*- mode: c++ -*-\n", "#import <Foundation/Foundation.h>\n@interface X\n@end\n", "#include <vector>\nclass X {};\nnamespace y {}\n", "use strict;\nmy $x = 1;\n", "<?php\necho 1;\n", "%!PS\n", "function x = f(y)\nend\n", "\x00\x01\x02", "\xef\xbb\xbfpackage main\n", ":- module(x).\n", "<?xml version=\"1.0\"?>\n<TS></TS>\n", "#!\n", "SELECT 1;\nGO\n"}

func langSpace() eng.Space {
	return eng.Space{Name: "languages", Rule: fmt.Sprintf("every name of %q with every content of a %d-text alphabet (shebangs, modelines, ambiguous extensions, binary, empty)", langNames, len(langTexts)),
		Size: func() int { return len(langNames) * len(langTexts) }, Batch: 500, Desc: func(i int) string {
			return fmt.Sprintf("%q %q", langNames[i%len(langNames)], langTexts[i/len(langNames)])
		},
		Exec: func(c *eng.Ctx, units []int) error {
			p := fileinfo.New()
			for _, u := range units {
				checkInfo(c, u, p, langNames[u%len(langNames)], []byte(langTexts[u/len(langNames)]), "")
				c.Add("traces", 1)
			}
			return nil
		}}
}

// sequences of questions to one process: each answer is the fresh process's.
func infoSequences(depth int) eng.Space {
	type q struct{ path, content string }
	long := repeat("a", limWidth+1) + "\n"
	qs := []q{{"cache/a.go", "package a\n"}, {"src/cache/a.go", "package a\n"}, {"a.go", "package a\n"}, {"x/a.go", "package a\n"}, {"a.go", long}, {"config.json", "{}\n"}, {"src/config.json", "{}\n"}, {".a.go", "package a\n"}, {"dir/.a.go", "package a\n"},
		{"go.sum", "x\n"}, {"dir/go.sum", "x\n"}, {"ago.sum", "x\n"}, {"a", "#!/bin/sh\n"}, {"a", "x\n"}, {"a.h", "#import <X.h>\n@interface X\n"}, {"a.h", "class X {};\nnamespace y {}\n#include <vector>\n"}, {"cache", "x\n"}, {"a.GO", "package a\n"}, {"a.go", repeat("\n", limLines+1)}, {"a.go", repeat("x", 999) + repeat("\n"+repeat("y", 999), limSize/1000)}, {"a.go", ""}}
	n := 1
	for i := 0; i < depth; i++ {
		n *= len(qs)
	}
	return eng.Space{Name: "sequences", Rule: fmt.Sprintf("every sequence of %d questions out of %d (paths and contents that differ in one respect) to one process", depth, len(qs)), Size: func() int { return n }, Batch: 2000,
		Desc: func(i int) string {
			s := ""
			for k := 0; k < depth; k++ {
				s += fmt.Sprintf("%.60q ", fmt.Sprint(qs[i%len(qs)]))
				i /= len(qs)
			}
			return s
		},
		Exec: func(c *eng.Ctx, units []int) error {
			for _, u := range units {
				p := fileinfo.New()
				i := u
				for k := 0; k < depth; k++ {
					x := qs[i%len(qs)]
					i /= len(qs)
					if !checkInfo(c, u, p, x.path, []byte(x.content), fmt.Sprintf(" (question %d)", k)) {
						break
					}
				}
				c.Add("traces", 1)
			}
			return nil
		}}
}

const mitText = `Copyright (c) 2018 Someone

Permission is hereby granted, free of charge, to any person obtaining a copy
of this software and associated documentation files (the "Software"), to deal
in the Software without restriction, including without limitation the rights
to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
copies of the Software, and to permit persons to whom the Software is
furnished to do so, subject to the following conditions:

The above copyright notice and this permission notice shall be included in all
copies or substantial portions of the Software.

THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
SOFTWARE.
`

type licText struct {
	name  string // file in data/lic or what it is
	text  string
	prefs []string // acceptable names, none if it is no license
}

var licTexts = sync.OnceValue(func() (r []licText) {
	r = []licText{{"empty", "", nil}, {"go", "package main\n\nfunc main() {\n}\n", nil}, {"prose", "This is a program that does things.\n\nSee the documentation for how to use it.\n", nil}, {"MIT", mitText, []string{"MIT"}}, {"binary", "\x00\x01\xff\xfe", nil}, {"invalid UTF-8", "\xff license \xc0\n", nil}, {"HTML", "<html><body><p>none</body>\n", nil}, {"one line", repeat("word ", 5000), nil}}
	for n, p := range map[string][]string{"Apache-2.0": {"Apache-2.0"}, "BSD": {"BSD-3-Clause"}, "CC0-1.0": {"CC0-1.0"}, "MPL-2.0": {"MPL-2.0", "MPL-2.0-no-copyleft-exception"}, "GPL-2": {"GPL-2.0-only", "GPL-2.0-or-later", "deprecated_GPL-2.0", "deprecated_GPL-2.0+"}, "GPL-3": {"GPL-3.0-only", "GPL-3.0-or-later", "deprecated_GPL-3.0", "deprecated_GPL-3.0+"}, "LGPL-2.1": {"LGPL-2.1-only", "LGPL-2.1-or-later", "deprecated_LGPL-2.1", "deprecated_LGPL-2.1+"}} {
		b, err := data.ReadFile("data/lic/" + n + ".txt")
		if err != nil {
			panic(err)
		}
		r = append(r, licText{n, string(b), p})
	}
	sort.Slice(r, func(i, j int) bool { return r[i].name < r[j].name })
	return append(r, licText{"MIT and more than the limit", mitText + repeat("x\n", limSize/2), nil})
})

// names whose class is documented: whether a license is found (1), may be
// found as far as the detector knows the name (2) or is not looked for (0)
var licNames = []struct {
	name string
	lic  int
}{{"LICENSE", 1}, {"LICENSE.md", 1}, {"LICENSE.txt", 1}, {"LICENCE", 1}, {"LICENCE.md", 1}, {"README", 2}, {"README.md", 2}, {"README.txt", 2}, {"COPYING", 1}, {"COPYING.txt", 1}, {"LICENSE-MIT", 1}, {"LICENSE-APACHE.md", 1}, {"UNLICENSE", 2}, {"UNLICENCE.txt", 2},
	{"license", 0}, {"LICENSE.rst", 0}, {"LICENSE.html", 0}, {"LICENSES", 0}, {"main.go", 0}, {"README.go", 0}, {"COPYRIGHT", 0}, {"LICENSE/a.go", 0}, {"NOTICE", 0}}
var licDirs = []string{"", "/", "cmd/foo/", "src/", "vendor/x/", ".dot/"}

func licenses() eng.Space {
	nn, nd := len(licNames), len(licDirs)
	const again = 12
	return eng.Space{Name: "licenses", Rule: fmt.Sprintf("every license text of the alphabet and every text that is none with every name of %d in every directory of %q, on a build with license detection; the same question %d times over", nn, licDirs, again), Solo: true,
		Size: func() int { return nn * nd * len(licTexts()) }, Batch: 150,
		Desc: func(i int) string {
			return fmt.Sprintf("%q with text %s", licDirs[i/nn%nd]+licNames[i%nn].name, licTexts()[i/nn/nd].name)
		},
		Exec: func(c *eng.Ctx, units []int) error {
			bin := os.Getenv("MC_LIC")
			if bin == "" {
				return fmt.Errorf("MC_LIC is not set")
			}
			cmd := exec.Command(bin)
			in, err := cmd.StdinPipe()
			if err != nil {
				return err
			}
			out, err := cmd.StdoutPipe()
			if err != nil {
				return err
			}
			cmd.Stderr = os.Stderr
			if err := cmd.Start(); err != nil {
				return err
			}
			defer func() { in.Close(); cmd.Wait() }()
			e, d := json.NewEncoder(in), json.NewDecoder(bufio.NewReader(out))
			for _, u := range units {
				n, dir, t := licNames[u%nn], licDirs[u/nn%nd], licTexts()[u/nn/nd]
				path := dir + n.name
				times := 1
				if dir == "" && len(t.prefs) > 1 && (n.name == "LICENSE" || n.name == "README.md") {
					times = again
				}
				var first licproto.Result
				for k := 0; k < times; k++ {
					if err := e.Encode(licproto.Query{Path: path, Content: []byte(t.text), Fresh: k%2 == 0}); err != nil {
						return err
					}
					var r licproto.Result
					if err := d.Decode(&r); err != nil {
						c.Fail(u, "%q with text %s: the helper failed: %v", path, t.name, err)
						return nil
					}
					c.Add("transitions", 1)
					c.State(r.License, r.Skip)
					if k == 0 {
						first = r
					} else if r != first {
						c.Fail(u, "%q with text %s: %+v at first, then %+v", path, t.name, first, r)
						break
					}
					b := []byte(t.text)
					lang, skip := wantInfo(path, b, bytes.Split(b, []byte("\n")))
					if n.lic > 0 && len(t.prefs) > 0 && len(b) <= limSize && (n.lic == 1 || r.License != "") {
						if n.lic == 1 && !slices.Contains(t.prefs, r.License) || r.Skip != "File is a license file" || r.Language != "" || r.Confidence < 0.85 || r.Confidence > 1 {
							c.Fail(u, "%q with text %s: %+v", path, t.name, r)
						}
					} else if r.License != "" || r.Skip != skip || r.Language != lang {
						c.Fail(u, "%q with text %s: %+v, expected language %q, skipped %q", path, t.name, r, lang, skip)
					}
				}
				c.Add("traces", 1)
			}
			return nil
		}}
}

func init() {
	eng.Register(eng.Check{ID: "C16", Level: "model_checking", Assume: []string{"enry decides languages, configuration, dot and vendored files; the license detector decides licenses", "the exclusion list is custom_patterns.txt as of this commit"}, Spaces: func(tier string) []eng.Space {
		d := 3
		if tier == "thorough" {
			d = 4
		}
		return []eng.Space{pathClasses(), limits(), multibyte(), langSpace(), infoSequences(d), licenses()}
	}})
}
