package props

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/pinpt/ripsrc/ripsrc"
	"github.com/pinpt/ripsrc/ripsrc/branches2"
	"github.com/pinpt/ripsrc/ripsrc/branchmeta"
	"github.com/pinpt/ripsrc/ripsrc/commitmeta"
	"github.com/pinpt/ripsrc/ripsrc/gitblame2"
	"github.com/pinpt/ripsrc/ripsrc/gitexec"
	"github.com/pinpt/ripsrc/ripsrc/history3/process"
	"github.com/pinpt/ripsrc/ripsrc/parentsgraph"

	"verif/mc/eng"
	"verif/mc/gitx"
	"verif/mc/hist"
)

// item is something a call delivered; items of a group come in any order,
// groups in the order of the call ("" everywhere: any order at all).
type item struct{ group, text string }

// failEnv is where calls run.
type failEnv struct {
	repo *gitx.Repo
	dir  string
	prs  []string
	tip  string
	from string // commit the prepared checkpoint is of
	cp   string // the checkpoint
	n    int
}

func (f *failEnv) fresh() string {
	f.n++
	return filepath.Join(f.dir, fmt.Sprint("w", f.n))
}

type mute struct{}

func (mute) Info(msg string, objs ...interface{})  {}
func (mute) Debug(msg string, objs ...interface{}) {}
func (mute) Error(msg string, objs ...interface{}) {}

func blameItem(b ripsrc.BlameResult) item {
	c := b.Commit.SHA
	s := fmt.Sprintf("%s %q %s status %q size %d %d/%d/%d/%d %q:", c, b.Filename, b.Language, b.Status, b.Size, b.Loc, b.Sloc, b.Comments, b.Blanks, b.Skipped)
	var w strings.Builder
	w.WriteString(s)
	for _, l := range b.Lines {
		fmt.Fprintf(&w, " %+v", *l)
	}
	w.WriteString(commitText(b.Commit))
	return item{c, w.String()}
}

func commitText(c commitmeta.Commit) string {
	var fs []string
	for k, f := range c.Files {
		fs = append(fs, fmt.Sprintf(" %q %+v", k, *f))
	}
	sort.Strings(fs)
	c.Files = nil
	return fmt.Sprintf(" %+v", c) + strings.Join(fs, "")
}

func branchItem(b branches2.Branch) item { return item{"", fmt.Sprintf("%+v", b)} }

func resultItems(r process.Result) (l []item) {
	l = append(l, item{r.Commit, r.Commit})
	for n, f := range r.Files {
		s := fmt.Sprintf("%s %q", r.Commit, n)
		if f == nil {
			s += " nil"
		} else {
			var w strings.Builder
			fmt.Fprintf(&w, "%s %v %s", s, f.IsBinary, f.Commit)
			for _, x := range f.Lines {
				fmt.Fprintf(&w, " %s %q", x.Commit, x.Line)
			}
			s = w.String()
		}
		l = append(l, item{r.Commit, s})
	}
	return
}

// session makes an object and returns a function that makes a call on it.
type session func(f *failEnv) func() ([]item, error)

func graphItems(g *parentsgraph.Graph) (l []item) {
	for k, v := range g.Parents {
		l = append(l, item{"", fmt.Sprint("parents ", k, v)})
	}
	for k, v := range g.Children {
		l = append(l, item{"", fmt.Sprint("children ", k, v)})
	}
	return
}

func codeSession(opts func(f *failEnv) ripsrc.Opts, byCommit bool) session {
	return func(f *failEnv) func() ([]item, error) {
		o := opts(f)
		o.RepoDir, o.Logger = f.repo.Dir, mute{}
		r := ripsrc.New(o)
		return func() (l []item, err error) {
			if byCommit {
				ch := make(chan ripsrc.CommitCode)
				done := make(chan bool)
				go func() {
					for c := range ch {
						l = append(l, item{c.Commit.SHA, commitText(c.Commit)})
						for b := range c.Blames {
							l = append(l, blameItem(b))
						}
					}
					done <- true
				}()
				err = r.CodeByCommit(context.Background(), ch)
				<-done
				return
			}
			ch := make(chan ripsrc.BlameResult)
			done := make(chan bool)
			go func() {
				for b := range ch {
					l = append(l, blameItem(b))
				}
				done <- true
			}()
			err = r.Code(context.Background(), ch)
			<-done
			return
		}
	}
}

func branchesWith(f *failEnv, g *parentsgraph.Graph) (l []item, err error) {
	ch := make(chan branches2.Branch)
	done := make(chan bool)
	go func() {
		for b := range ch {
			l = append(l, branchItem(b))
		}
		done <- true
	}()
	err = branches2.New(branches2.Opts{RepoDir: f.repo.Dir, Logger: mute{}, CommitGraph: g, Concurrency: 1, UseOrigin: false, PullRequestSHAs: f.prs}).Run(context.Background(), ch)
	<-done
	return l, err
}

// failNames are the calls failures are put into.
var failNames = []string{"code", "code-head", "code-by-commit", "code-resume", "branches", "branches-worker", "blame", "blame-resume", "meta", "meta-map", "graph", "branch-list", "default", "git-blame", "exec", "exec-piped", "exec-cached", "code-then-branches"}

func failCalls(name string) session {
	ctx := context.Background()
	simple := func(call func(f *failEnv) ([]item, error)) session {
		return func(f *failEnv) func() ([]item, error) {
			return func() ([]item, error) { return call(f) }
		}
	}
	blame := func(o process.Opts) ([]item, error) {
		var l []item
		o.Logger = mute{}
		ch := make(chan process.Result)
		done := make(chan bool)
		go func() {
			for r := range ch {
				l = append(l, resultItems(r)...)
			}
			done <- true
		}()
		err := process.New(o).Run(ch)
		<-done
		return l, err
	}
	read := func(r interface{ Read([]byte) (int, error) }, err error) ([]item, error) {
		var b []byte
		if err == nil {
			buf := make([]byte, 100)
			for {
				var n int
				n, err = r.Read(buf)
				b = append(b, buf[:n]...)
				if err != nil {
					break
				}
			}
			if err.Error() == "EOF" {
				err = nil
			}
		}
		var l []item
		for i, x := range strings.SplitAfter(string(b), "\n") {
			if x != "" {
				l = append(l, item{fmt.Sprint(i), x})
			}
		}
		return l, err
	}
	gitArgs := []string{"log", "--all", "--format=%H", "--numstat"}
	switch name {
	case "code":
		return codeSession(func(f *failEnv) ripsrc.Opts {
			return ripsrc.Opts{CheckpointsDir: f.fresh(), AllBranches: true, PullRequestSHAs: f.prs}
		}, false)
	case "code-head":
		return codeSession(func(f *failEnv) ripsrc.Opts { return ripsrc.Opts{CheckpointsDir: f.fresh()} }, false)
	case "code-by-commit":
		return codeSession(func(f *failEnv) ripsrc.Opts { return ripsrc.Opts{CheckpointsDir: f.fresh(), AllBranches: true} }, true)
	case "code-resume":
		return codeSession(func(f *failEnv) ripsrc.Opts {
			d := f.fresh()
			if err := copyDir(f.cp, d); err != nil {
				panic(err)
			}
			return ripsrc.Opts{CheckpointsDir: d, CommitFromIncl: f.from}
		}, false)
	case "code-then-branches":
		return func(f *failEnv) func() ([]item, error) {
			r := ripsrc.New(ripsrc.Opts{RepoDir: f.repo.Dir, CheckpointsDir: f.fresh(), Logger: mute{}, AllBranches: true, PullRequestSHAs: f.prs})
			return func() (l []item, err error) {
				bs, err := r.CodeSlice(ctx)
				for _, b := range bs {
					l = append(l, blameItem(b))
				}
				if err != nil {
					return l, err
				}
				br, err := r.BranchesSlice(ctx)
				for _, b := range br {
					x := branchItem(b)
					x.group = "branches"
					l = append(l, x)
				}
				return l, err
			}
		}
	case "branches":
		return func(f *failEnv) func() ([]item, error) {
			r := ripsrc.New(ripsrc.Opts{RepoDir: f.repo.Dir, CheckpointsDir: f.fresh(), Logger: mute{}, AllBranches: true, PullRequestSHAs: f.prs})
			return func() (l []item, err error) {
				bs, err := r.BranchesSlice(ctx)
				for _, b := range bs {
					l = append(l, branchItem(b))
				}
				return l, err
			}
		}
	case "branches-worker":
		return func(f *failEnv) func() ([]item, error) {
			g := parentsgraph.New(parentsgraph.Opts{RepoDir: f.repo.Dir, AllBranches: true, Logger: mute{}})
			return func() (l []item, err error) {
				if err := g.Read(); err != nil {
					return nil, err
				}
				return branchesWith(f, g)
			}
		}
	case "blame":
		return simple(func(f *failEnv) ([]item, error) {
			return blame(process.Opts{RepoDir: f.repo.Dir, CheckpointsDir: f.fresh(), AllBranches: true})
		})
	case "blame-resume":
		return func(f *failEnv) func() ([]item, error) {
			d := f.fresh()
			if err := copyDir(f.cp, d); err != nil {
				panic(err)
			}
			return func() ([]item, error) {
				return blame(process.Opts{RepoDir: f.repo.Dir, CheckpointsDir: d, CommitFromIncl: f.from})
			}
		}
	case "meta":
		return simple(func(f *failEnv) (l []item, _ error) {
			ch := make(chan commitmeta.Commit)
			done := make(chan bool)
			go func() {
				for c := range ch {
					l = append(l, item{c.SHA, commitText(c)})
				}
				done <- true
			}()
			err := commitmeta.New(f.repo.Dir, commitmeta.Opts{AllBranches: true}).Run(ch)
			<-done
			return l, err
		})
	case "meta-map":
		return simple(func(f *failEnv) (l []item, _ error) {
			m, err := commitmeta.New(f.repo.Dir, commitmeta.Opts{}).RunMap()
			if err != nil {
				return nil, err
			}
			for k, c := range m {
				l = append(l, item{"", k + commitText(c)})
			}
			return l, err
		})
	case "graph":
		return func(f *failEnv) func() ([]item, error) {
			return func() ([]item, error) {
				g := parentsgraph.New(parentsgraph.Opts{RepoDir: f.repo.Dir, AllBranches: true, Logger: mute{}})
				if err := g.Read(); err != nil {
					return nil, err
				}
				return graphItems(g), nil
			}
		}
	case "branch-list":
		return simple(func(f *failEnv) (l []item, _ error) {
			bs, err := branchmeta.Get(ctx, branchmeta.Opts{Logger: mute{}, RepoDir: f.repo.Dir, IncludeDefault: true})
			if err != nil {
				return nil, err
			}
			for _, b := range bs {
				l = append(l, item{b.Name, fmt.Sprint(b)})
			}
			return l, nil
		})
	case "default":
		return simple(func(f *failEnv) ([]item, error) {
			b, err := branchmeta.GetDefault(ctx, f.repo.Dir)
			if err != nil {
				return nil, err
			}
			return []item{{"", fmt.Sprint(b)}}, nil
		})
	case "git-blame-bin":
		return simple(func(f *failEnv) (l []item, _ error) {
			r, err := gitblame2.Run(f.repo.Dir, f.tip, "bin")
			if err != nil {
				return nil, err
			}
			for i, x := range r.Lines {
				l = append(l, item{fmt.Sprint(i), fmt.Sprintf("%+v", x)})
			}
			return l, nil
		})
	case "git-blame":
		return simple(func(f *failEnv) (l []item, _ error) {
			r, err := gitblame2.Run(f.repo.Dir, f.tip, "a.go")
			if err != nil {
				return nil, err
			}
			for i, x := range r.Lines {
				l = append(l, item{fmt.Sprint(i), fmt.Sprintf("%+v", x)})
			}
			return l, nil
		})
	case "exec":
		return simple(func(f *failEnv) ([]item, error) { return read(gitexec.Exec(ctx, "git", f.repo.Dir, gitArgs)) })
	case "exec-piped":
		return simple(func(f *failEnv) ([]item, error) {
			r, err := gitexec.ExecPiped(ctx, "git", f.repo.Dir, gitArgs)
			if err == nil {
				defer r.Close()
			}
			return read(r, err)
		})
	case "exec-cached":
		return func(f *failEnv) func() ([]item, error) {
			// nothing cached yet
			os.RemoveAll(filepath.Join(f.repo.Dir, "pp-git-cache"))
			return func() ([]item, error) {
				r, err := gitexec.ExecWithCache(ctx, "git", f.repo.Dir, gitArgs)
				if err == nil {
					defer r.Close()
				}
				return read(r, err)
			}
		}
	}
	panic(name)
}

func byGroup(l []item) (order []string, m map[string][]string) {
	m = map[string][]string{}
	for _, x := range l {
		if _, ok := m[x.group]; !ok {
			order = append(order, x.group)
		}
		m[x.group] = append(m[x.group], x.text)
	}
	for _, v := range m {
		sort.Strings(v)
	}
	return
}

// part reports why got is not what a call that ended early may deliver.
func part(got, good []item) string {
	go1, gm := byGroup(got)
	wo, wm := byGroup(good)
	for i, g := range go1 {
		if i >= len(wo) || wo[i] != g {
			return fmt.Sprintf("delivered %.300q", gm[g][0])
		}
		have := map[string]int{}
		for _, t := range wm[g] {
			have[t]++
		}
		for _, t := range gm[g] {
			if have[t]--; have[t] < 0 {
				return fmt.Sprintf("delivered %.300q", t)
			}
		}
		if i+1 < len(go1) && len(gm[g]) != len(wm[g]) {
			return fmt.Sprintf("delivered %d of %d results of %s, and went on", len(gm[g]), len(wm[g]), g)
		}
	}
	return ""
}

func whole(got, good []item) string {
	if d := part(got, good); d != "" {
		return d
	}
	if len(got) != len(good) {
		return fmt.Sprintf("delivered %d of %d results", len(got), len(good))
	}
	return ""
}

// failRepo makes the repository and the checkpoint.
func failRepo(c *eng.Ctx, kind string) (*failEnv, error) {
	f := &failEnv{dir: scratch(c)}
	text := func(ls ...string) gitx.Tree {
		t := gitx.Tree{}
		for i := 0; i+1 < len(ls); i += 2 {
			t[ls[i]] = gitx.Entry{Mode: "100644", Data: ls[i+1]}
		}
		return t
	}
	h := hist.History{}
	switch kind {
	case "merge":
		h.Nodes = []hist.Node{
			{Tree: text("a.go", "package a\n", "b.go", "// b\n")},
			{Parents: []int{0}, Tree: text("a.go", "package a\n", "b.go", "// b\n// c\n")},
			{Parents: []int{0}, Tree: text("a.go", "package a\n\nfunc f() {}\n", "b.go", "// b\n")},
			{Parents: []int{2, 1}, Tree: text("a.go", "package a\n\nfunc f() {}\n", "b.go", "// b\n// c\n// m\n")},
			{Parents: []int{1}, Tree: text("a.go", "package a\n", "b.go", "// b\n// d\n")},
			{Parents: []int{3}, Tree: text("a.go", "package a\n\nfunc f() {}\n", "c.go", "// b\n// c\n// m\n")}}
	case "bin":
		h.Nodes = []hist.Node{
			{Tree: text("a.go", "package a\n", "é\t.bin", "x\x00y", "w", "\x00")},
			{Parents: []int{0}, Tree: text("a.go", "package a // no newline", "é\t.bin", "x\x00z", "w", "t\n")},
			{Parents: []int{1}, Tree: gitx.Tree{"a.go": {Mode: "100755", Data: "package a // no newline"}, "w": file("t\nu\n"), "z": {Mode: "120000", Data: "a.go"}}}}
	}
	if kind == "long" {
		h = longHistory()
	}
	b := hist.Build([]hist.History{h})
	r, err := b.WriteRepo(filepath.Join(f.dir, "r"))
	if err != nil {
		return nil, err
	}
	f.repo, f.tip, f.from = r, b.SHA[0][len(h.Nodes)-1], b.SHA[0][0]
	if kind == "merge" {
		f.prs = []string{b.SHA[0][1], b.SHA[0][4]}
		f.from = b.SHA[0][2]
	}
	// the checkpoint
	head, err := os.ReadFile(filepath.Join(r.Dir, ".git", "HEAD"))
	if err != nil {
		head, err = os.ReadFile(filepath.Join(r.Dir, "HEAD"))
	}
	if err != nil {
		return nil, err
	}
	if err := r.SetHead(f.from); err != nil {
		return nil, err
	}
	f.cp = filepath.Join(f.dir, "cp")
	_, err = ripsrc.New(ripsrc.Opts{RepoDir: r.Dir, CheckpointsDir: f.cp, Logger: mute{}}).CodeSlice(context.Background())
	if err != nil {
		return nil, err
	}
	return f, r.SetHead(strings.TrimSpace(string(head)))
}

// recorded git commands of a call.
type recorded struct {
	hash, args string
	out        []byte
	times      int
}

const failParts = 8

type failCase struct {
	repo, call, mode string
	part             int // negative: nowhere, half way and at the end
}

func (k failCase) String() string {
	if k.part < 0 {
		return fmt.Sprintf("%s on repository %s, fault %q, at the start, half way and at the end", k.call, k.repo, k.mode)
	}
	return fmt.Sprintf("%s on repository %s, fault %q, positions %d mod %d", k.call, k.repo, k.mode, k.part, failParts)
}

func failSpace(name, rule string, repos, modes []string, few bool) eng.Space {
	var cs []failCase
	for _, r := range repos {
		for _, call := range failNames {
			for _, m := range modes {
				if few {
					cs = append(cs, failCase{r, call, m, -1})
					continue
				}
				for p := 0; p < failParts; p++ {
					cs = append(cs, failCase{r, call, m, p})
				}
			}
		}
	}
	return eng.Space{Name: name, Rule: rule, Size: func() int { return len(cs) }, Batch: 1, Timeout: 5 * time.Minute,
		Desc: func(i int) string { return cs[i].String() },
		Exec: func(c *eng.Ctx, units []int) error {
			for _, u := range units {
				if err := failOne(c, u, cs[u]); err != nil {
					return err
				}
			}
			return nil
		}}
}

func failOne(c *eng.Ctx, u int, k failCase) error {
	bin := os.Getenv("MC_GIT")
	if bin == "" {
		return fmt.Errorf("MC_GIT is not set")
	}
	real, err := exec.LookPath("git")
	if err != nil {
		return err
	}
	f, err := failRepo(c, k.repo)
	if err != nil {
		return err
	}
	// what git prints on standard error is of no interest
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer null.Close()
	defer func(e *os.File, p string) { os.Stderr = e; os.Setenv("PATH", p); os.Setenv("FG_FAULT", "") }(os.Stderr, os.Getenv("PATH"))
	os.Stderr = null
	call := failCalls(k.call)
	run := func() ([]item, error) {
		g := call(f)
		return g()
	}
	good, err := run()
	if err != nil {
		c.Fail(u, "%s: fails without a fault: %v", k.call, err)
		return nil
	}
	gdir := filepath.Join(f.dir, "git")
	os.MkdirAll(gdir, 0777)
	os.Setenv("FG_DIR", gdir)
	os.Setenv("FG_GIT", real)
	os.Setenv("PATH", filepath.Dir(bin)+":"+os.Getenv("PATH"))
	os.Setenv("FG_FAULT", "log")
	got, err := run()
	if err != nil {
		return fmt.Errorf("recording: %v", err)
	}
	if d := whole(got, good); d != "" {
		c.Fail(u, "%s: the second run %s", k.call, d)
		return nil
	}
	lb, err := os.ReadFile(filepath.Join(gdir, "log"))
	if err != nil {
		c.Fail(u, "%s: runs no git", k.call)
		return nil
	}
	var cmds []*recorded
	for _, h := range strings.Fields(string(lb)) {
		var x *recorded
		for _, y := range cmds {
			if y.hash == h {
				x = y
			}
		}
		if x == nil {
			b, err := os.ReadFile(filepath.Join(gdir, h))
			if err != nil {
				return err
			}
			a, _ := os.ReadFile(filepath.Join(gdir, h+".args"))
			x = &recorded{hash: h, args: strings.TrimSpace(string(a)), out: b[1:]}
			cmds = append(cmds, x)
		}
		x.times++
	}
	c.State(fmt.Sprint(k.repo, k.call, len(cmds), good))
	n, pos := 0, 0
	defer func() { c.Add("traces", n); c.Add("transitions", n); c.Add("faults", n) }()
	for _, x := range cmds {
		for p := 0; p <= len(x.out); p++ {
			pos++
			if k.part >= 0 && pos%failParts != k.part || k.part < 0 && p != 0 && p != len(x.out)/2 && p != len(x.out) {
				continue
			}
			for occ := 0; occ < x.times; occ++ {
				o := occ
				if x.times == 1 {
					o = -1
				}
				n++
				rd := f.fresh()
				if o >= 0 {
					os.MkdirAll(rd, 0777)
					os.Setenv("FG_RUN", rd)
				}
				g := call(f)
				os.Setenv("FG_FAULT", fmt.Sprintf("%s:%d:%s:%d", x.hash, o, k.mode, p))
				got, err := g()
				os.Setenv("FG_FAULT", "")
				what := func() string {
					return fmt.Sprintf("%s on %s: git %s (run %d of %d) wrote %d of %d bytes, then %s", k.call, k.repo, x.args, occ+1, x.times, p, len(x.out), modeText(k.mode))
				}
				if _, e := strconv.Atoi(k.mode); (e == nil || k.mode == "kill") && err != nil {
					if d := part(got, good); d != "" {
						c.Fail(u, "%s; before the error the call %s", what(), d)
						return nil
					}
					// the object and its files are as good as before
					again, err2 := g()
					if err2 == nil {
						if d := whole(again, good); d != "" {
							c.Fail(u, "%s; the call failed with %q, and when it was made again %s", what(), err, d)
							return nil
						}
					} else if !strings.HasSuffix(k.call, "-resume") || strings.Contains(err2.Error(), "checkpoint") {
						c.Fail(u, "%s; the call failed with %q, and when it was made again with %q", what(), err, err2)
						return nil
					}
				} else {
					if err != nil {
						c.Fail(u, "%s; the call failed: %v", what(), err)
						return nil
					}
					if d := whole(got, good); d != "" {
						c.Fail(u, "%s; the call reported no error, and %s", what(), d)
						return nil
					}
				}
				os.RemoveAll(rd)
				for i := 0; i < 3; i++ {
					os.RemoveAll(filepath.Join(f.dir, fmt.Sprint("w", f.n-i)))
				}
			}
		}
	}
	return nil
}

func modeText(m string) string {
	switch m {
	case "kill":
		return "was killed"
	case "split":
		return "after a pause the rest"
	case "warn":
		return "a warning on standard error and the rest"
	}
	return "exited with " + m
}

func init() {
	eng.Register(eng.Check{ID: "C18", Level: "model_checking", Assume: []string{"git that writes all of its output exits with zero status, and git that does not exits with another one or is killed"}, Spaces: func(tier string) []eng.Space {
		all := []string{"merge", "bin"}
		sts := strings.Fields("1 2 3 126 127 129 130 137 139 141 143 254 255")
		some, other := []string{"bin"}, []string{"kill", "warn"}
		if tier == "thorough" {
			some, other = all, []string{"kill", "1", "warn"}
		}
		return []eng.Space{
			failSpace("exit", "every git command of every call, failing with status 128 after every number of bytes of its output: the call returns an error or the complete results, what it delivered before is a prefix of the right results, and the same call on the same object is right when it is made again", all, []string{"128"}, false),
			failSpace("pause", "every git command of every call, pausing after every number of bytes of its output: the results are the same", some, []string{"split"}, false),
			failSpace("kill", "every git command of every call, killed after every number of bytes of its output, or writing a warning there (thorough: or exiting with 1)", some, other, false),
			failSpace("status", fmt.Sprintf("every git command of every call, failing with each of the statuses %v before, half way through and after its output", sts), some, sts, true),
		}
	}})
}
