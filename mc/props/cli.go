package props

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/pinpt/ripsrc/ripsrc"

	"verif/mc/eng"
	"verif/mc/gitx"
	"verif/mc/hist"
)

// cliRepo makes a repository of a kind; processed says if it is one that the
// tool has to find, status what the tool has to do with it.
type cliKind struct {
	name   string
	status string // ok, empty, fails, none
	make   func(at string, b *hist.Built) error
}

func cliHist() hist.History {
	t := func(ls ...string) gitx.Tree {
		t := gitx.Tree{}
		for i := 0; i+1 < len(ls); i += 2 {
			t[ls[i]] = file(ls[i+1])
		}
		return t
	}
	e := gitx.Ident{Name: "", Email: "only@mail", Time: hist.BaseTime, TZ: "-0730"}
	p := gitx.Ident{Name: "100%d %s", Email: "x@y", Time: hist.BaseTime + 5, TZ: "+0100"}
	return hist.History{Nodes: []hist.Node{
		{Tree: t("was", "\x00", "a.go", "package a\n// c\n\n", "100%d %s.go", "package a\n", "d%%/f", "text\n"), Author: &p},
		{Parents: []int{0}, Tree: t("was", "a\n", "a.go", "package a\n// c\n\nfunc f() {\n\tif true {\n\t}\n}\n", "100%d %s.go", "package b\n", "d%%/f", "text\n")},
		{Parents: []int{0}, Tree: t("was", "\x00", "a.go", "package a\n// c\n\n", "100%d %s.go", "package a\n", "vendor/x.js", "1\n"), Author: &e},
		{Parents: []int{1, 2}, Tree: t("was", "a\n", "a.go", "package a\n// c\n\nfunc f() {\n\tif true {\n\t}\n}\n", "100%d %s.go", "package b\n\n", "vendor/x.js", "1\n", "bin", "\x00")},
		{Parents: []int{3}, Tree: t("was", "a\nb\n", "a b.go", "package a\n// c\n\nfunc f() {\n\tif true {\n\t}\n}\n", "100%d %s.go", "package b\n\n", "LICENSE", "x\n")},
	}}
}

func writeCliRepo(at string, b *hist.Built, head string) error {
	r, err := b.WriteRepo(at)
	if err != nil {
		return err
	}
	if head != "" {
		if err := r.SetHead(head); err != nil {
			return err
		}
	}
	var refs = map[string]string{"refs/heads/master": b.SHA[0][4], "refs/remotes/origin/o%d": b.SHA[0][2], "refs/remotes/origin/é%s": b.SHA[0][3], "refs/remotes/origin/master": b.SHA[0][4]}
	return r.SetRefs(refs)
}

var cliKinds = []cliKind{
	{"ok", "ok", func(at string, b *hist.Built) error { return writeCliRepo(at, b, "") }},
	{"detached", "", func(at string, b *hist.Built) error { return writeCliRepo(at, b, b.SHA[0][1]) }},
	{"bare.git", "ok", func(at string, b *hist.Built) error {
		tmp := at + ".tmp"
		if err := writeCliRepo(tmp, b, ""); err != nil {
			return err
		}
		if err := os.Rename(filepath.Join(tmp, ".git"), at); err != nil {
			return err
		}
		return os.RemoveAll(tmp)
	}},
	{"bare-without-suffix", "none", func(at string, b *hist.Built) error {
		tmp := at + ".tmp"
		if err := writeCliRepo(tmp, b, ""); err != nil {
			return err
		}
		if err := os.Rename(filepath.Join(tmp, ".git"), at); err != nil {
			return err
		}
		return os.RemoveAll(tmp)
	}},
	{"empty", "empty", func(at string, b *hist.Built) error { _, err := gitx.InitRepo(at, ""); return err }},
	{"unborn", "empty", func(at string, b *hist.Built) error { return writeCliRepo(at, b, "ref: refs/heads/none") }},
	{"lost-blob", "", func(at string, _ *hist.Built) error {
		b := hist.Build([]hist.History{cliHist()})
		b.Store.Drop(b.Store.Blob("package b\n"))
		return writeCliRepo(at, b, "")
	}},
	{"lost-parent", "", func(at string, _ *hist.Built) error {
		b := hist.Build([]hist.History{cliHist()})
		b.Store.Drop(b.SHA[0][0])
		return writeCliRepo(at, b, "")
	}},
	{"plain", "none", func(at string, b *hist.Built) error { return os.MkdirAll(filepath.Join(at, "x"), 0777) }},
	{"file", "none", func(at string, b *hist.Built) error { return os.WriteFile(at, []byte("x"), 0666) }},
	{"nothing", "none", func(at string, b *hist.Built) error { return nil }},
	{"100%d%s", "ok", func(at string, b *hist.Built) error { return writeCliRepo(at, b, "") }},
	{".hidden", "ok", func(at string, b *hist.Built) error { return writeCliRepo(at, b, "") }},
	{"-a b", "ok", func(at string, b *hist.Built) error { return writeCliRepo(at, b, "") }},
}

type cliCase struct {
	cmd    string
	kinds  []int // in a directory; one: also itself
	direct bool
}

func (k cliCase) String() string {
	s := "ripsrc " + k.cmd
	for _, i := range k.kinds {
		s += " " + cliKinds[i].name
	}
	if k.direct {
		s += " (itself)"
	}
	return s
}

func cliCases() (cs []cliCase) {
	for _, cmd := range []string{"code", "branches", "code --sha", "code --sha unknown"} {
		for i := range cliKinds {
			cs = append(cs, cliCase{cmd, []int{i}, true})
			for j := range cliKinds {
				if j >= i {
					cs = append(cs, cliCase{cmd, []int{i, j}, false})
				}
			}
		}
	}
	return
}

var cliMin = regexp.MustCompile(`\]\[\d+m\] `)

// cliExpect is what the library gives for a repository.
type cliExpect struct {
	groups [][]string // lines; the first of a group comes first, groups in order
	free   []string   // lines in any order
	err    error
	n      int
}

func cliLibrary(cmd, repo, cp, from string) (x cliExpect) {
	ctx := context.Background()
	if cmd == "branches" {
		ch := make(chan ripsrc.Branch)
		done := make(chan bool)
		go func() {
			for b := range ch {
				s := fmt.Sprintln("[BR]", b.Name, "commits", len(b.Commits), "first_commit", b.FirstCommit)
				if len(b.Commits) > 0 {
					s = strings.TrimSuffix(s, "\n") + fmt.Sprintln(" commits[0]", b.Commits[0])
				}
				x.free = append(x.free, strings.TrimSuffix(s, "\n"))
			}
			done <- true
		}()
		x.err = ripsrc.New(ripsrc.Opts{RepoDir: repo, AllBranches: true, BranchesUseOrigin: true, CheckpointsDir: cp, Logger: mute{}}).Branches(ctx, ch)
		<-done
		sort.Strings(x.free)
		return
	}
	ch := make(chan ripsrc.CommitCode)
	done := make(chan bool)
	go func() {
		for c := range ch {
			g := []string{fmt.Sprint(c.SHA, " ", c.Date)}
			var l []string
			for b := range c.Blames {
				x.n++
				if b.License != nil {
					panic("license")
				}
				st := "no file"
				if f := b.Commit.Files[b.Filename]; f != nil {
					st = string(f.Status)
				}
				s := fmt.Sprintf("[%s][%s][0m] ", repo, b.Commit.SHA[:8])
				s += fmt.Sprint(b.Filename, " language=", b.Language, ",license=,loc=", b.Loc, ",sloc=", b.Sloc, ",comments=", b.Comments, ",blanks=", b.Blanks, ",complexity=", b.Complexity, ",skipped=", b.Skipped, ",status=", st, ",author=", b.Commit.Author())
				l = append(l, s)
			}
			sort.Strings(l)
			x.groups = append(x.groups, append(g, l...))
		}
		done <- true
	}()
	x.err = ripsrc.New(ripsrc.Opts{RepoDir: repo, CommitFromIncl: from, NoStrictResume: true, CheckpointsDir: cp, Logger: mute{}}).CodeByCommit(ctx, ch)
	<-done
	return
}

func cliSpace() eng.Space {
	cs := cliCases()
	return eng.Space{Name: "commands", Rule: "ripsrc code, branches, code --sha (of a checkpoint; unknown) on a directory that is, or that contains one or two of: a repository, one with a detached HEAD, a bare one, a bare one without the suffix, an empty one, one whose HEAD names no branch, one that lost a blob or a commit, one with a hidden name, one with a space, a plain directory, a file, nothing, one whose name looks like a format; names of files, people and branches look like formats, too", Batch: 4,
		Size: func() int { return len(cs) }, Desc: func(i int) string { return cs[i].String() },
		Exec: func(c *eng.Ctx, units []int) error {
			for _, u := range units {
				if err := cliOne(c, u, cs[u]); err != nil {
					return err
				}
			}
			return nil
		}}
}

func cliOne(c *eng.Ctx, u int, k cliCase) error {
	bin := os.Getenv("MC_CLI")
	if bin == "" {
		return fmt.Errorf("MC_CLI is not set")
	}
	dir := scratch(c)
	defer os.RemoveAll(dir)
	top := filepath.Join(dir, "d")
	if err := os.Mkdir(top, 0777); err != nil {
		return err
	}
	b := hist.Build([]hist.History{cliHist()})
	type place struct {
		at   string
		kind cliKind
	}
	var ps []place
	for i, x := range k.kinds {
		n, pre := cliKinds[x].name, ""
		if n[0] == '.' || n[0] == '-' {
			n, pre = n[1:], n[:1]
		}
		at := filepath.Join(top, fmt.Sprint(pre, i, n))
		if err := cliKinds[x].make(at, b); err != nil {
			return err
		}
		ps = append(ps, place{at, cliKinds[x]})
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].at < ps[j].at })
	arg := top
	if k.direct {
		arg = ps[0].at
	}
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer null.Close()
	defer func(e *os.File) { os.Stderr = e }(os.Stderr)
	os.Stderr = null
	cmd, from := k.cmd, ""
	if strings.HasPrefix(cmd, "code --sha") {
		cmd, from = "code", b.SHA[0][1]
		if strings.HasSuffix(k.cmd, "unknown") {
			from = strings.Repeat("1", 40)
		}
	}
	status, repos, empty, entries := 0, 0, 0, 0
	var want []cliExpect
	if k.direct && (ps[0].kind.name == "file" || ps[0].kind.name == "nothing") {
		status = 1
	}
	for i, p := range ps {
		if p.kind.status == "none" {
			continue
		}
		repos++
		if p.kind.status == "empty" {
			empty++
			continue
		}
		cp := filepath.Join(dir, fmt.Sprint("cp", i))
		if from != "" {
			// the checkpoint of an earlier commit
			git := p.at
			if _, err := os.Stat(filepath.Join(git, ".git")); err == nil {
				git = filepath.Join(git, ".git")
			}
			head, err := os.ReadFile(filepath.Join(git, "HEAD"))
			if err != nil {
				return err
			}
			if err := os.WriteFile(filepath.Join(git, "HEAD"), []byte(b.SHA[0][1]+"\n"), 0666); err != nil {
				return err
			}
			cliLibrary("code", p.at, cp, "")
			if err := os.WriteFile(filepath.Join(git, "HEAD"), head, 0666); err != nil {
				return err
			}
			if _, err := os.Stat(cp); err == nil {
				if err := copyDir(cp, p.at); err != nil {
					return err
				}
			}
		}
		x := cliLibrary(cmd, p.at, cp, from)
		if p.kind.status == "ok" && x.err != nil && !strings.HasSuffix(k.cmd, "unknown") {
			c.Fail(u, "the library fails on %s: %v", p.kind.name, x.err)
			return nil
		}
		if x.err != nil {
			status = 1
		}
		entries += x.n
		want = append(want, x)
	}
	if repos == 0 {
		status = 1
	}
	args := append(strings.Fields(cmd), arg)
	if from != "" {
		args = append(args, "--sha", from)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 50*time.Second)
	defer cancel()
	x := exec.CommandContext(ctx, bin, args...)
	var out, errb bytes.Buffer
	x.Stdout, x.Stderr = &out, &errb
	rerr := x.Run()
	got := x.ProcessState.ExitCode()
	c.Add("traces", 1)
	c.State(fmt.Sprint(k, status))
	if s := errb.String(); strings.Contains(s, "goroutine ") {
		c.Fail(u, "crashes: %v\n%.800s", rerr, s)
		return nil
	}
	if got != status {
		c.Fail(u, "exit status %d instead of %d: %.500s", got, status, tailOf(out.String()))
		return nil
	}
	// results
	isRepo := func(l string) bool {
		for _, p := range ps {
			if strings.HasPrefix(l, "["+p.at+"][") {
				return true
			}
		}
		return false
	}
	sha := regexp.MustCompile(`^[0-9a-f]{40} \d{4}-`)
	var lines []string
	for _, l := range strings.Split(out.String(), "\n") {
		if isRepo(l) || sha.MatchString(l) || strings.HasPrefix(l, "[BR] ") {
			lines = append(lines, cliMin.ReplaceAllString(l, "][0m] "))
		}
	}
	c.Add("transitions", len(lines))
	at := 0
	take := func(n int) []string {
		if at+n > len(lines) {
			n = len(lines) - at
		}
		l := lines[at : at+n]
		at += n
		return l
	}
	for _, w := range want {
		if w.err != nil {
			// what comes before an error is decided elsewhere
			return nil
		}
		for _, g := range w.groups {
			l := append([]string{}, take(len(g))...)
			if len(l) > 1 {
				sort.Strings(l[1:])
			}
			if d := diffLines(l, g); d != "" {
				c.Fail(u, "%s", d)
				return nil
			}
		}
		l := append([]string{}, take(len(w.free))...)
		sort.Strings(l)
		if d := diffLines(l, w.free); d != "" {
			c.Fail(u, "%s", d)
			return nil
		}
	}
	if at != len(lines) {
		c.Fail(u, "prints %q in addition", lines[at])
		return nil
	}
	if status == 0 {
		fin := fmt.Sprintf("Finished processing repos %d in ", repos)
		if cmd == "code" {
			fin = fmt.Sprintf("Finished processing repos %d entries %d in ", repos, entries)
		}
		if !strings.Contains(out.String(), fin) {
			c.Fail(u, "does not print %q: %.300s", fin, tailOf(out.String()))
			return nil
		}
		if empty > 0 && !strings.Contains(out.String(), fmt.Sprintf("Skipped %d empty repos", empty)) {
			c.Fail(u, "does not report the %d empty repositories: %.300s", empty, tailOf(out.String()))
			return nil
		}
		for _, p := range ps {
			if p.kind.status == "ok" && !strings.Contains(out.String(), "starting processing repo:"+p.at+"\n") {
				c.Fail(u, "the name of the repository is not printed: %.300s", out.String())
				return nil
			}
		}
	}
	return nil
}

func tailOf(s string) string {
	if len(s) > 400 {
		return s[len(s)-400:]
	}
	return s
}

func diffLines(got, want []string) string {
	for i, w := range want {
		if i >= len(got) {
			return fmt.Sprintf("does not print %q", w)
		}
		if got[i] != w {
			return fmt.Sprintf("prints %q instead of %q", got[i], w)
		}
	}
	return ""
}

func init() {
	eng.Register(eng.Check{ID: "C19", Level: "model_checking", Assume: []string{"standard output is not a terminal"}, Spaces: func(tier string) []eng.Space {
		d := 1
		if tier == "thorough" {
			d = 2
		}
		return []eng.Space{repoDirsSpace(d), dirNameSpace(), cliSpace(), logLinesSpace()}
	}})
}
