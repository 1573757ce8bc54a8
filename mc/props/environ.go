package props

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"verif/mc/eng"
	"verif/mc/gitx"
	"verif/mc/hist"
)

// richHist is a history on which many settings of git change what it prints:
// renames, copies, hunks that settings join or split, functions that diff
// algorithms align differently, names and messages outside ASCII, several
// parents, links, submodules, binary files, people with other names.
func richHist(sub string) hist.History {
	num := func(from, to int, edit map[int]string) string {
		var b strings.Builder
		for i := from; i < to; i++ {
			if e, ok := edit[i]; ok {
				b.WriteString(e)
				continue
			}
			fmt.Fprintf(&b, "line %d\n", i)
		}
		return b.String()
	}
	f1 := "int f(int x)\n{\n\treturn x;\n}\n\nint g(int x)\n{\n\tif (x) {\n\t\treturn 1;\n\t}\n\treturn x;\n}\n"
	f2 := "int g(int x)\n{\n\tif (x) {\n\t\treturn 1;\n\t}\n\treturn x;\n}\n\nint h(void)\n{\n}\n\nint f(int x)\n{\n\treturn x;\n}\n"
	// the same line all over: the way hunks slide depends on heuristics
	d1 := "class X\n\n  # doc\n  # more\n  def a\n    x\n  end\nend\n"
	d2 := "class X\n\n  # doc\n  # more\n  def n\n    y\n  end\n\n  # doc\n  # more\n  def a\n    x\n  end\nend\n"
	// patience and others align this differently
	p1 := "a\nb\nc\na\nb\nb\na\n"
	p2 := "c\nb\na\nb\na\nc\n"
	base := gitx.Tree{
		"f.c": file(f1), "d.rb": file(d1), "p": file(p1),
		"far": file(num(0, 40, nil)), "blank": file("a\n\n\nb\n\n\nc\n"),
		"ws": file("a b\n\tc  \nd\r\ne\n"), "dir/é\t\"x": file("1\n2\n"),
		"r1": file(num(100, 120, nil)), "r2": file(num(200, 220, nil)), "r3": file(num(300, 320, nil)),
		"cp": file(num(400, 420, nil)), "bin": file("x\x00y"), "b.dx": file("x\x00y\n"), "t.dx": file("t\n"), "ln": {Mode: "120000", Data: "f.c"},
		"sub": {Mode: "160000", Data: strings.Repeat("1", 40)}, "big.txt": file(num(1000, 1200, nil)), "exe": {Mode: "100755", Data: "x\n"},
	}
	n1 := base.Clone()
	n1["f.c"], n1["d.rb"], n1["p"] = file(f2), file(d2), file(p2)
	n1["far"] = file(num(0, 40, map[int]string{3: "three\n", 11: "eleven\n", 20: "", 34: "x\ny\n"}))
	n1["blank"] = file("a\n\n\nB\n\n\nc\n")
	n1["ws"] = file("a  b\n\tc\nd\ne\n")
	n1["dir/é\t\"x"] = file("1\n3\n")
	for i, n := range []string{"r1", "r2", "r3"} {
		delete(n1, n)
		n1["dir/n"+n] = file(num((i+1)*100, (i+1)*100+20, map[int]string{(i+1)*100 + 5: "changed\n"}))
	}
	n1["cp"] = file(num(400, 420, map[int]string{402: "q\n"}))
	n1["cp2"] = file(num(400, 420, map[int]string{410: "r\n"}))
	n1["b.dx"] = file("one\ntwo\n")
	n1["t.dx"], n1["ln"] = file("T\n"), gitx.Entry{Mode: "120000", Data: "p"}
	n1["sub"] = gitx.Entry{Mode: "160000", Data: sub}
	n1["big.txt"] = file(num(1000, 1200, map[int]string{1100: "x\n"}))
	n1["exe"] = file("x\n")
	n2 := base.Clone()
	n2["far"] = file(num(0, 40, map[int]string{25: "side\n"}))
	n2["bin"] = file("now text\n")
	delete(n2, "blank")
	n3 := n1.Clone()
	n3["far"] = file(num(0, 40, map[int]string{3: "three\n", 11: "eleven\n", 20: "", 25: "side\n", 34: "x\ny\n", 38: "merge\n"}))
	n3["bin"] = file("now text\n")
	delete(n3, "blank")
	n4 := n3.Clone()
	n4["bin"] = file("now the text\nmore\n")
	n4["b.dx"] = file("one\nthree\n")
	delete(n4, "cp")
	n4["cp3"] = n3["cp"]
	n4[".mailmap"] = file("Mapped <mapped@x> <old@x>\n")
	n5 := n2.Clone()
	n5["p"] = file("z\n")
	n6 := n4.Clone()
	n6["p"] = file("z\n")
	n6["ws"] = file("a  b\n\tc\nd\ne\nf\n")
	old := &gitx.Ident{Name: "Old", Email: "old@x", Time: hist.BaseTime + 77, TZ: "-0800"}
	latin := &gitx.Ident{Name: "Jos\xe9", Email: "j@x", Time: hist.BaseTime + 78, TZ: "+0530"}
	return hist.History{Nodes: []hist.Node{
		{Tree: base, Msg: "base\n\nbody\n--- a/f\n+++ b/f\n@@ -1 +1 @@\n"},
		{Parents: []int{0}, Tree: n1, Author: old, Committer: old, Msg: "é ü\n"},
		{Parents: []int{0}, Tree: n2, Author: latin, Headers: "encoding ISO-8859-1\n", Msg: "caf\xe9\n"},
		{Parents: []int{1, 2}, Tree: n3, Msg: "Merge\n"},
		{Parents: []int{3}, Tree: n4, Author: old, Headers: "gpgsig -----BEGIN PGP SIGNATURE-----\n \n AAAA\n -----END PGP SIGNATURE-----\n", Msg: "signed\n"},
		{Parents: []int{2}, Tree: n5},
		{Parents: []int{4, 5, 1}, Tree: n6, Msg: "octopus\n"},
		{Parents: []int{6}, Tree: n6, Msg: "nothing\n"},
	}}
}

func richRepo(dir string) (*failEnv, *hist.Built, error) {
	f := &failEnv{dir: dir}
	b := hist.Build([]hist.History{richHist(strings.Repeat("2", 40))})
	// notes on the last commit
	sha := b.SHA[0]
	note := b.Store.Commit(gitx.Commit{Tree: gitx.Tree{sha[6]: file("a note\n")}, Author: gitx.Ident{Name: "n", Email: "n@x", Time: hist.BaseTime + 99999, TZ: "+0000"}, Committer: gitx.Ident{Name: "n", Email: "n@x", Time: hist.BaseTime + 99999, TZ: "+0000"}, Message: "notes\n"})
	r, err := b.WriteRepo(filepath.Join(dir, "r"))
	if err != nil {
		return nil, nil, err
	}
	tag := sha[4]
	if err := r.SetRefs(map[string]string{"refs/heads/master": sha[7], "refs/heads/é/side": sha[5], "refs/heads/tag": sha[3], "refs/remotes/origin/master": sha[4], "refs/remotes/origin/x": sha[5], "refs/tags/tag": tag, "refs/notes/commits": note}); err != nil {
		return nil, nil, err
	}
	f.repo, f.tip, f.prs = r, sha[7], []string{sha[5], sha[2]}
	for n, t := range map[string]string{
		"attrs": "* binary\n", "revs": sha[3] + "\n" + sha[4] + "\n", "mailmap": "Mapped <mapped@x> <a@example.com>\n", "order": "ws\nf*\n",
		"script": "#!/bin/sh\necho junk\necho '+junk'\nexit 0\n", "conf": "[diff]\n\tnoprefix = true\n[core]\n\tabbrev = 5\n",
	} {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(t), 0777); err != nil {
			return nil, nil, err
		}
	}
	os.MkdirAll(filepath.Join(r.Dir, ".git", "info"), 0777)
	if err := os.WriteFile(filepath.Join(r.Dir, ".git", "info", "attributes"), []byte("*.dx diff=x\n"), 0666); err != nil {
		return nil, nil, err
	}
	return f, b, os.WriteFile(filepath.Join(r.Dir, ".mailmap"), []byte("Mapped <mapped@x> <old@x>\n"), 0666)
}

var envCalls = []string{"code", "branches-worker", "branch-list", "default", "meta-map", "git-blame-bin"}

// everything calls the whole interface.
func everything(f *failEnv) (l []item, err error) {
	for _, n := range envCalls {
		call := failCalls(n)(f)
		x, err := call()
		if err != nil {
			return nil, fmt.Errorf("%s: %v", n, err)
		}
		for _, i := range x {
			i.group = n + " " + i.group
			l = append(l, i)
		}
	}
	return
}

// gitWorks tells if git itself gets along with a setting.
func gitWorks(repo string) bool {
	for _, a := range [][]string{{"rev-parse", "HEAD"}, {"for-each-ref"}, {"branch", "-a"}, {"log", "--all", "-p", "-m", "-M", "--numstat"}, {"blame", "HEAD", "--", "bin"}} {
		c := exec.Command("git", a...)
		c.Dir = repo
		c.Env = append(os.Environ(), "GIT_PAGER=cat")
		if c.Run() != nil {
			return false
		}
	}
	return true
}

type setting struct {
	names []string
	val   string
}

func (s setting) String() string {
	n := strings.Join(s.names, ", ")
	if len(s.names) > 3 {
		n = fmt.Sprintf("%s ... %s (%d)", s.names[0], s.names[len(s.names)-1], len(s.names))
	}
	return n + " = " + s.val
}

// file writes the settings to a configuration file.
func (s setting) text(dir string) string {
	var b strings.Builder
	for _, n := range s.names {
		sec, key := n[:strings.Index(n, ".")], n[strings.LastIndex(n, ".")+1:]
		v := strings.ReplaceAll(s.val, "@", dir+"/")
		v = strings.NewReplacer("\\", "\\\\", "\"", "\\\"").Replace(v)
		if len(sec)+1+len(key) < len(n) {
			fmt.Fprintf(&b, "[%s \"%s\"]\n\t%s = \"%s\"\n", sec, n[len(sec)+1:len(n)-len(key)-1], key, v)
		} else {
			fmt.Fprintf(&b, "[%s]\n\t%s = \"%s\"\n", sec, key, v)
		}
	}
	return b.String()
}

var gitVars = sync.OnceValue(func() []string {
	out, err := exec.Command("git", "help", "--config").Output()
	if err != nil {
		panic(err)
	}
	var l []string
	for _, n := range strings.Fields(string(out)) {
		if !strings.Contains(n, ".") || strings.HasPrefix(n, "'") || strings.HasSuffix(n, "'") {
			continue
		}
		sub := map[string]string{"diff": "x", "branch": "master", "remote": "origin", "pager": "log"}[n[:strings.Index(n, ".")]]
		if sub == "" {
			sub = "x"
		}
		if i := strings.Index(n, "<"); i > 0 {
			n = n[:i] + sub + n[strings.Index(n, ">")+1:]
		}
		n = strings.ReplaceAll(n, "*", "log")
		switch n {
		case "diff.x.binary", "diff.x.algorithm", "core.worktree":
			// says what the files are (attributes), or which repository
			continue
		}
		l = append(l, n)
	}
	return append(l, "diff.defaultFoo", "log.format", "log.maxCount", "blame.ignoreRev", "core.precompose", "rev-list.order", "diff.copies", "core.displayEncoding", "color.diff.oldMovedX")
})

// settingVals are values of all types that git's variables have.
var settingVals = []string{"true", "false", "0", "1", "7", "100000000", "always", "never", "x", "copies", "log", "histogram", "patience", "minimal", "combined", "dense-combined", "first-parent", "remerge", "off", "on", "iso", "relative", "raw", "UTF-16", "ISO-8859-1", "none", "all", "short", "full", "auto", "column,always", "-committerdate", "dimmed-zebra", "%x00%n-%H", "refs/notes/*", "dir", "HEAD:.mailmap", "color=always", "@attrs", "@revs", "@mailmap", "@order", "@script", "@conf"}
var fewVals = []string{"true", "false", "1", "always", "x"}

func settings(tier string) (l []setting) {
	close := map[string]bool{}
	for _, s := range []string{"core", "diff", "log", "i18n", "format", "blame", "mailmap", "notes", "pager", "branch", "column", "pretty", "merge", "submodule", "feature", "alias", "attr", "gpg", "include", "commitGraph", "tag", "extensions", "rev-list"} {
		close[s] = true
	}
	groups := map[string][]string{}
	var order []string
	for _, n := range gitVars() {
		s := n[:strings.Index(n, ".")]
		if !close[s] && tier != "thorough" {
			if groups[s] == nil {
				order = append(order, s)
			}
			groups[s] = append(groups[s], n)
			continue
		}
		vals := settingVals
		if !close[s] {
			vals = fewVals
		}
		for _, v := range vals {
			l = append(l, setting{[]string{n}, v})
		}
	}
	for _, s := range order {
		for _, v := range fewVals {
			l = append(l, setting{groups[s], v})
		}
	}
	return
}

// commonSettings are settings that people have, with a visible effect.
var commonSettings = []setting{
	{[]string{"color.ui"}, "always"}, {[]string{"diff.noprefix"}, "true"}, {[]string{"diff.mnemonicPrefix"}, "true"}, {[]string{"diff.renames"}, "false"}, {[]string{"diff.renames"}, "copies"}, {[]string{"diff.renameLimit"}, "1"},
	{[]string{"diff.algorithm"}, "histogram"}, {[]string{"diff.algorithm"}, "patience"}, {[]string{"diff.context"}, "0"}, {[]string{"diff.interHunkContext"}, "20"}, {[]string{"diff.indentHeuristic"}, "false"}, {[]string{"diff.external"}, "@script"}, {[]string{"diff.x.textconv"}, "@script"}, {[]string{"diff.x.command"}, "@script"}, {[]string{"diff.orderFile"}, "@order"}, {[]string{"diff.submodule"}, "log"}, {[]string{"diff.ignoreSubmodules"}, "all"}, {[]string{"diff.wordRegex"}, "."}, {[]string{"diff.colorMoved"}, "zebra"}, {[]string{"diff.suppressBlankEmpty"}, "true"}, {[]string{"diff.relative"}, "true"},
	{[]string{"core.quotePath"}, "false"}, {[]string{"core.abbrev"}, "5"}, {[]string{"core.attributesFile"}, "@attrs"}, {[]string{"core.pager"}, "@script"}, {[]string{"core.bigFileThreshold"}, "10"}, {[]string{"core.notesRef"}, "refs/notes/commits"}, {[]string{"notes.displayRef"}, "*"},
	{[]string{"log.decorate"}, "full"}, {[]string{"log.date"}, "relative"}, {[]string{"log.mailmap"}, "false"}, {[]string{"log.showSignature"}, "true"}, {[]string{"log.abbrevCommit"}, "true"}, {[]string{"log.showRoot"}, "false"}, {[]string{"log.diffMerges"}, "combined"}, {[]string{"log.follow"}, "true"}, {[]string{"format.pretty"}, "oneline"}, {[]string{"i18n.logOutputEncoding"}, "UTF-16"}, {[]string{"mailmap.file"}, "@mailmap"},
	{[]string{"blame.ignoreRevsFile"}, "@revs"}, {[]string{"blame.showRoot"}, "true"}, {[]string{"column.ui"}, "always"}, {[]string{"branch.sort"}, "-committerdate"}, {[]string{"alias.log"}, "status"}, {[]string{"include.path"}, "@conf"},
}

type envVar struct{ name, val string }

func envVars() (l []envVar) {
	add := func(n string, vs ...string) {
		for _, v := range vs {
			l = append(l, envVar{n, v})
		}
	}
	for _, n := range []string{"GIT_TRACE", "GIT_TRACE_PACK_ACCESS", "GIT_TRACE_SETUP", "GIT_TRACE_PERFORMANCE", "GIT_TRACE_REFS", "GIT_TRACE2", "GIT_TRACE2_EVENT", "GIT_TRACE2_PERF", "GIT_FLUSH", "GIT_OPTIONAL_LOCKS", "GIT_LITERAL_PATHSPECS", "GIT_NOGLOB_PATHSPECS", "GIT_ICASE_PATHSPECS", "GIT_NO_REPLACE_OBJECTS", "GIT_ATTR_NOSYSTEM", "GIT_CONFIG_NOSYSTEM", "GIT_PAGER_IN_USE", "GIT_ADVICE", "GIT_PROGRESS_DELAY", "NO_COLOR", "FORCE_COLOR", "CLICOLOR_FORCE", "GIT_TEST_DATE_NOW", "GIT_MERGE_VERBOSITY", "GIT_DISCOVERY_ACROSS_FILESYSTEM"} {
		add(n, "0", "1", "true")
	}
	add("GIT_EXTERNAL_DIFF", "@script")
	add("GIT_PAGER", "@script", "cat")
	add("PAGER", "@script")
	add("LESS", "R")
	add("GIT_DIFF_OPTS", "--unified=0", "-u20", "-u0")
	add("GIT_NOTES_REF", "refs/notes/commits", "refs/notes/none")
	add("GIT_NOTES_DISPLAY_REF", "*", "refs/notes/commits")
	add("GIT_AUTHOR_DATE", "2005-04-07T22:13:13")
	add("GIT_COMMITTER_DATE", "2005-04-07T22:13:13")
	add("GIT_AUTHOR_NAME", "x")
	add("GIT_COMMITTER_NAME", "x")
	add("GIT_REPLACE_REF_BASE", "refs/heads/")
	add("GIT_REF_PARANOIA", "0", "1")
	add("GIT_DEFAULT_HASH", "sha256", "sha1")
	add("GIT_EDITOR", "@script")
	add("GIT_SSH", "@script")
	add("GIT_CEILING_DIRECTORIES", "/")
	add("GIT_ATTR_SOURCE", "HEAD")
	add("GIT_INDEX_FILE", "/nonexistent")
	add("GIT_PREFIX", "dir/")
	add("GIT_COLUMNS", "1")
	add("COLUMNS", "1", "1000")
	add("TERM", "", "dumb", "xterm")
	add("LANG", "de_DE.UTF-8", "C.UTF-8", "tr_TR.ISO-8859-9")
	add("LC_ALL", "de_DE.UTF-8", "C.UTF-8", "POSIX", "tr_TR")
	add("LANGUAGE", "de", "fr:en")
	add("TZ", "America/New_York", "Asia/Kolkata", "UTC+3", "", "x")
	add("HOME", "/nonexistent", "")
	add("XDG_CONFIG_HOME", "/nonexistent")
	add("GIT_CONFIG_PARAMETERS", "'diff.noprefix'='true'", "'color.ui=always'")
	add("TMPDIR", "/nonexistent")
	return
}

// envRun compares everything with what it is in the plain environment.
type envRun struct {
	f    *failEnv
	good []item
	null *os.File
}

func newEnvRun(c *eng.Ctx) (*envRun, error) {
	dir := scratch(c)
	f, _, err := richRepo(dir)
	if err != nil {
		return nil, err
	}
	e := &envRun{f: f}
	if e.null, err = os.OpenFile(os.DevNull, os.O_WRONLY, 0); err != nil {
		return nil, err
	}
	e.good, err = e.run()
	return e, err
}

func (e *envRun) run() ([]item, error) {
	defer func(s *os.File) { os.Stderr = s }(os.Stderr)
	os.Stderr = e.null
	l, err := everything(e.f)
	for e.f.n > 0 {
		os.RemoveAll(filepath.Join(e.f.dir, fmt.Sprint("w", e.f.n)))
		e.f.n--
	}
	return l, err
}

func (e *envRun) check(c *eng.Ctx, u int) {
	got, err := e.run()
	c.Add("transitions", 1)
	c.Add("traces", 1)
	if err != nil {
		if gitWorks(e.f.repo.Dir) {
			c.Fail(u, "fails, although git works: %v", err)
		}
		c.State("git fails")
		return
	}
	if d := whole(got, e.good); d != "" {
		c.Fail(u, "%s", d)
	}
	c.State(fmt.Sprint(u))
}

const unset = "-unset-"

// withEnv runs f with other environment variables.
func withEnv(vs []envVar, f func()) {
	type old struct {
		v  string
		ok bool
	}
	var os0 []old
	for _, v := range vs {
		x, ok := os.LookupEnv(v.name)
		os0 = append(os0, old{x, ok})
		if v.val == unset {
			os.Unsetenv(v.name)
		} else {
			os.Setenv(v.name, v.val)
		}
	}
	f()
	for i := len(vs) - 1; i >= 0; i-- {
		if os0[i].ok {
			os.Setenv(vs[i].name, os0[i].v)
		} else {
			os.Unsetenv(vs[i].name)
		}
	}
}

func confSpace(name, rule string, size func() int, desc func(i int) string, sets func(i int) []setting) eng.Space {
	return eng.Space{Name: name, Rule: rule, Size: size, Desc: desc, Batch: 60,
		Exec: func(c *eng.Ctx, units []int) error {
			e, err := newEnvRun(c)
			if err != nil {
				return err
			}
			defer os.RemoveAll(e.f.dir)
			conf := filepath.Join(e.f.repo.Dir, ".git", "config")
			plain, err := os.ReadFile(conf)
			if err != nil {
				return err
			}
			for _, u := range units {
				t := string(plain)
				for _, s := range sets(u) {
					t += s.text(e.f.dir)
				}
				if err := os.WriteFile(conf, []byte(t), 0666); err != nil {
					return err
				}
				e.check(c, u)
				if err := os.WriteFile(conf, plain, 0666); err != nil {
					return err
				}
			}
			return nil
		}}
}

func envSpace() eng.Space {
	vars := envVars()
	scopes := []string{"home", "xdg", "count", "global"}
	n := len(vars) + len(commonSettings)*len(scopes)
	return eng.Space{Name: "environment", Rule: "every listed variable of the environment and value, and every common setting in the user's configuration (~/.gitconfig, XDG, the file GIT_CONFIG_GLOBAL, GIT_CONFIG_COUNT): the results are the same", Batch: 30,
		Size: func() int { return n },
		Desc: func(i int) string {
			if i < len(vars) {
				return fmt.Sprintf("%s=%q", vars[i].name, vars[i].val)
			}
			i -= len(vars)
			return scopes[i%len(scopes)] + ": " + commonSettings[i/len(scopes)].String()
		},
		Exec: func(c *eng.Ctx, units []int) error {
			e, err := newEnvRun(c)
			if err != nil {
				return err
			}
			defer os.RemoveAll(e.f.dir)
			home := filepath.Join(e.f.dir, "home")
			os.MkdirAll(filepath.Join(home, ".config", "git"), 0777)
			for _, u := range units {
				if u < len(vars) {
					v := vars[u]
					v.val = strings.ReplaceAll(v.val, "@", e.f.dir+"/")
					withEnv([]envVar{v}, func() { e.check(c, u) })
					continue
				}
				i := u - len(vars)
				s := commonSettings[i/len(scopes)]
				var vs []envVar
				at := ""
				switch scopes[i%len(scopes)] {
				case "home":
					at = filepath.Join(home, ".gitconfig")
					vs = []envVar{{"HOME", home}, {"GIT_CONFIG_GLOBAL", unset}}
				case "xdg":
					at = filepath.Join(home, ".config", "git", "config")
					vs = []envVar{{"XDG_CONFIG_HOME", filepath.Join(home, ".config")}, {"GIT_CONFIG_GLOBAL", unset}}
				case "global":
					at = filepath.Join(home, "some")
					vs = []envVar{{"GIT_CONFIG_GLOBAL", at}}
				case "count":
					vs = []envVar{{"GIT_CONFIG_COUNT", "1"}, {"GIT_CONFIG_KEY_0", s.names[0]}, {"GIT_CONFIG_VALUE_0", strings.ReplaceAll(s.val, "@", e.f.dir+"/")}}
				}
				if at != "" {
					if err := os.WriteFile(at, []byte(s.text(e.f.dir)), 0666); err != nil {
						return err
					}
				}
				withEnv(vs, func() { e.check(c, u) })
				if at != "" {
					os.Remove(at)
				}
			}
			return nil
		}}
}

func init() {
	eng.Register(eng.Check{ID: "C20", Level: "model_checking", Assume: []string{"attributes of paths (.gitattributes, info/attributes) are part of the repository and apply"}, Spaces: func(tier string) []eng.Space {
		all := sync.OnceValue(func() []setting { return settings(tier) })
		n := len(commonSettings)
		sp := []eng.Space{
			confSpace("settings", "every configuration variable of the installed git, each with values of every type that variables have (variables of commands that are not used: all of a section together, five values): the results are the same",
				func() int { return len(all()) }, func(i int) string { return all()[i].String() }, func(i int) []setting { return []setting{all()[i]} }),
			envSpace(),
		}
		if tier == "thorough" {
			sp = append(sp, confSpace("setting-pairs", "every pair of common settings", func() int { return n * n },
				func(i int) string { return commonSettings[i/n].String() + ", " + commonSettings[i%n].String() },
				func(i int) []setting { return []setting{commonSettings[i/n], commonSettings[i%n]} }))
		}
		return append(sp, storageSpace())
	}})
}
