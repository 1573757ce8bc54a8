package props

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/pinpt/ripsrc/ripsrc"
	"github.com/pinpt/ripsrc/ripsrc/gitexec"
	"github.com/pinpt/ripsrc/ripsrc/history3/process"
	"github.com/pinpt/ripsrc/ripsrc/parentsgraph"

	"verif/mc/eng"
	"verif/mc/gitx"
	"verif/mc/hist"
)

// What a call leaves behind: files, processes, goroutines, descriptors, output
// and settings of the process.

// checkpoint directories of the calls, and what the harness writes
var leftAllowed = regexp.MustCompile(`^(w\d+|w\d+/pp-git-cache(/.*)?|r/pp-git-cache(/.*)?|git|git/.*|out)$`)

type leftovers struct {
	files map[string]string
	env   string
	cwd   string
	gor   int
	fds   int
	procs []string
	out   string
}

func children() (l []string) {
	ds, _ := os.ReadDir("/proc")
	me := os.Getpid()
	for _, d := range ds {
		if _, err := strconv.Atoi(d.Name()); err != nil {
			continue
		}
		b, err := os.ReadFile(filepath.Join("/proc", d.Name(), "stat"))
		if err != nil {
			continue
		}
		f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:]))
		if len(f) > 1 && f[1] == strconv.Itoa(me) {
			l = append(l, d.Name())
		}
	}
	return
}

func openFDs() int {
	ds, _ := os.ReadDir("/proc/self/fd")
	return len(ds)
}

func filesIn(root string) map[string]string {
	m := map[string]string{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		if leftAllowed.MatchString(rel) {
			return nil
		}
		s := fmt.Sprint(fi.Mode())
		if fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			s += fmt.Sprintf(" %x %d", sha256.Sum256(b), fi.ModTime().UnixNano())
		}
		m[rel] = s
		return nil
	})
	return m
}

// observe waits until nothing is more than in base.
func observe(root, out string, base *leftovers) leftovers {
	var l leftovers
	for i := 0; ; i++ {
		l.gor, l.fds, l.procs = runtime.NumGoroutine(), openFDs(), children()
		if base == nil || (l.gor <= base.gor && l.fds <= base.fds && len(l.procs) <= len(base.procs)) || i > 300 {
			break
		}
		time.Sleep(time.Duration(i) * 50 * time.Microsecond)
	}
	l.files = filesIn(root)
	e := os.Environ()
	sort.Strings(e)
	l.env = strings.Join(e, "\n")
	l.cwd, _ = os.Getwd()
	b, _ := os.ReadFile(out)
	l.out = string(b)
	return l
}

func (l leftovers) diff(a leftovers) string {
	for k, v := range a.files {
		if w, ok := l.files[k]; !ok {
			return fmt.Sprintf("created %q", k)
		} else if v != w {
			return fmt.Sprintf("changed %q", k)
		}
	}
	for k := range l.files {
		if _, ok := a.files[k]; !ok {
			return fmt.Sprintf("removed %q", k)
		}
	}
	switch {
	case l.env != a.env:
		return "changed the environment of the process"
	case l.cwd != a.cwd:
		return "changed the working directory"
	case len(a.procs) > len(l.procs):
		return fmt.Sprintf("left %d processes running", len(a.procs)-len(l.procs))
	case a.gor > l.gor:
		return fmt.Sprintf("left %d goroutines", a.gor-l.gor)
	case a.fds > l.fds:
		return fmt.Sprintf("left %d descriptors open", a.fds-l.fds)
	case l.out != a.out:
		return fmt.Sprintf("printed %.200q", a.out)
	}
	return ""
}

// leakEnv is a failEnv with its own home, temporary and working directory.
func withLeakEnv(c *eng.Ctx, kind string, do func(f *failEnv, measure func(what string, call func()) string) error) error {
	f, err := failRepo(c, kind)
	if err != nil {
		return err
	}
	f.repo.Dir = filepath.Join(f.dir, "r")
	for _, d := range []string{"home", "tmp", "cwd"} {
		if err := os.MkdirAll(filepath.Join(f.dir, d), 0777); err != nil {
			return err
		}
	}
	out := filepath.Join(f.dir, "out")
	o, err := os.Create(out)
	if err != nil {
		return err
	}
	defer o.Close()
	wd, err := os.Getwd()
	if err != nil {
		return err
	}
	defer func(a, b *os.File, p string) {
		os.Stdout, os.Stderr = a, b
		os.Setenv("PATH", p)
		os.Setenv("FG_FAULT", "")
		os.Setenv("TMPDIR", os.TempDir())
		os.Chdir(wd)
	}(os.Stdout, os.Stderr, os.Getenv("PATH"))
	defer func(h, t string) { os.Setenv("HOME", h); os.Setenv("TMPDIR", t) }(os.Getenv("HOME"), os.Getenv("TMPDIR"))
	os.Setenv("HOME", filepath.Join(f.dir, "home"))
	os.Setenv("TMPDIR", filepath.Join(f.dir, "tmp"))
	if err := os.Chdir(filepath.Join(f.dir, "cwd")); err != nil {
		return err
	}
	os.Stdout, os.Stderr = o, o
	return do(f, func(what string, call func()) string {
		o.Truncate(0)
		o.Seek(0, 0)
		// what the garbage collector closes was not closed
		defer debug.SetGCPercent(debug.SetGCPercent(-1))
		runtime.GC()
		base := observe(f.dir, out, nil)
		call()
		return base.diff(observe(f.dir, out, &base))
	})
}

// leakCalls are the calls of C18 and some with other options.
var leakNames = append(failNames[:len(failNames):len(failNames)], "code-in-repo", "code-relative", "code-no-checkpoint", "code-bad-checkpoint", "code-checkpoint-not-writable", "blame-graph-incomplete", "blame-branch-not-in-checkpoint", "branches-graph-incomplete")

func leakCalls(name string) session {
	code := func(o func(f *failEnv) ripsrc.Opts) session { return codeSession(o, false) }
	graph := func(f *failEnv) *parentsgraph.Graph {
		g := parentsgraph.New(parentsgraph.Opts{RepoDir: f.repo.Dir, AllBranches: true, Logger: mute{}})
		if err := g.Read(); err != nil {
			return g
		}
		delete(g.Parents, f.tip)
		return g
	}
	blame := func(o process.Opts) ([]item, error) {
		var l []item
		ch := make(chan process.Result)
		done := make(chan bool)
		go func() {
			for r := range ch {
				l = append(l, resultItems(r)...)
			}
			done <- true
		}()
		err := process.New(o).Run(ch)
		<-done
		return l, err
	}
	switch name {
	case "code-in-repo":
		return code(func(f *failEnv) ripsrc.Opts { return ripsrc.Opts{} })
	case "code-relative":
		return func(f *failEnv) func() ([]item, error) {
			d, err := filepath.Rel(filepath.Join(f.dir, "cwd"), f.repo.Dir)
			if err != nil {
				panic(err)
			}
			cp := f.fresh()
			return func() (l []item, err error) {
				bs, err := ripsrc.New(ripsrc.Opts{RepoDir: d, CheckpointsDir: "../" + filepath.Base(cp), Logger: mute{}}).CodeSlice(context.Background())
				for _, b := range bs {
					l = append(l, blameItem(b))
				}
				return l, err
			}
		}
	case "code-no-checkpoint":
		return code(func(f *failEnv) ripsrc.Opts {
			return ripsrc.Opts{CheckpointsDir: f.fresh(), CommitFromIncl: f.from}
		})
	case "code-bad-checkpoint":
		return code(func(f *failEnv) ripsrc.Opts {
			d := f.fresh()
			if err := copyDir(f.cp, d); err != nil {
				panic(err)
			}
			p := filepath.Join(d, "pp-git-cache")
			filepath.Walk(p, func(q string, fi os.FileInfo, err error) error {
				if err == nil && fi.Mode().IsRegular() && strings.Contains(q, "lines") {
					return os.Truncate(q, fi.Size()/2)
				}
				return nil
			})
			return ripsrc.Opts{CheckpointsDir: d, CommitFromIncl: f.from}
		})
	case "code-checkpoint-not-writable":
		return code(func(f *failEnv) ripsrc.Opts {
			d := f.fresh()
			if err := os.MkdirAll(d, 0777); err != nil {
				panic(err)
			}
			if err := os.WriteFile(filepath.Join(d, "pp-git-cache"), []byte("x"), 0666); err != nil {
				panic(err)
			}
			return ripsrc.Opts{CheckpointsDir: d}
		})
	case "blame-graph-incomplete":
		return func(f *failEnv) func() ([]item, error) {
			return func() ([]item, error) {
				return blame(process.Opts{Logger: mute{}, RepoDir: f.repo.Dir, CheckpointsDir: f.fresh(), AllBranches: true, ParentsGraph: graph(f)})
			}
		}
	case "blame-branch-not-in-checkpoint":
		return func(f *failEnv) func() ([]item, error) {
			d := f.fresh()
			if err := copyDir(f.cp, d); err != nil {
				panic(err)
			}
			return func() ([]item, error) {
				return blame(process.Opts{Logger: mute{}, RepoDir: f.repo.Dir, CheckpointsDir: d, NoStrictResume: true, CommitFromIncl: f.tip})
			}
		}
	case "branches-graph-incomplete":
		return func(f *failEnv) func() ([]item, error) {
			g := graph(f)
			return func() ([]item, error) { return branchesWith(f, g) }
		}
	}
	return failCalls(name)
}

var leakRepos = []string{"merge", "bin", "long"}

// longRepo makes the repository so big that git fills its pipe.
func longHistory() hist.History {
	t := func(c string, n int) gitx.Tree {
		return gitx.Tree{"a.go": {Mode: "100644", Data: strings.Repeat(c+" package a\n", n)}, "b": {Mode: "100644", Data: c}}
	}
	return hist.History{Nodes: []hist.Node{
		{Tree: t("1", 1)}, {Parents: []int{0}, Tree: t("2", 30000)}, {Parents: []int{1}, Tree: t("3", 30000)}, {Parents: []int{0}, Tree: t("4", 20000)}, {Parents: []int{2, 3}, Tree: t("5", 30000)}}}
}

const leakParts = 4

type leakCase struct {
	repo, call, mode string
	part             int
}

func (k leakCase) String() string {
	return fmt.Sprintf("%s on repository %s, %s, part %d of %d", k.call, k.repo, k.mode, k.part+1, leakParts)
}

func leakSpace(name, rule string, repos, calls, modes []string) eng.Space {
	var cs []leakCase
	for _, r := range repos {
		for _, call := range calls {
			for _, m := range modes {
				n := leakParts
				if m == "" || m == "no git" || m == "no repository" {
					n = 1
				}
				for p := 0; p < n; p++ {
					cs = append(cs, leakCase{r, call, m, p})
				}
			}
		}
	}
	return eng.Space{Name: name, Rule: rule, Size: func() int { return len(cs) }, Batch: 1, Timeout: 10 * time.Minute,
		Desc: func(i int) string { return cs[i].String() },
		Exec: func(c *eng.Ctx, units []int) error {
			for _, u := range units {
				if err := leakOne(c, u, cs[u]); err != nil {
					return err
				}
			}
			return nil
		}}
}

func leakOne(c *eng.Ctx, u int, k leakCase) error {
	bin := os.Getenv("MC_GIT")
	if bin == "" {
		return fmt.Errorf("MC_GIT is not set")
	}
	real, err := exec.LookPath("git")
	if err != nil {
		return err
	}
	n := 0
	defer func() { c.Add("traces", n); c.Add("transitions", n) }()
	return withLeakEnv(c, k.repo, func(f *failEnv, measure func(string, func()) string) error {
		call := leakCalls(k.call)
		// the first call may start what stays
		call(f)()
		run := func(what string, before func()) {
			g := call(f)
			before()
			n++
			var err error
			if d := measure(what, func() { _, err = g() }); d != "" {
				// standard error of git goes there
				if !(strings.HasPrefix(d, "printed") && err != nil) {
					c.Fail(u, "%s: the call (error %v) %s", what, err, d)
				}
			}
			c.State(fmt.Sprint(k.repo, k.call, k.mode, err != nil))
			for i := 0; i < 3; i++ {
				os.RemoveAll(filepath.Join(f.dir, fmt.Sprint("w", f.n-i)))
			}
		}
		switch k.mode {
		case "":
			for i := 0; i < 3 && !c.Failed(); i++ {
				run(k.String(), func() {})
			}
			return nil
		case "no git":
			os.Setenv("PATH", filepath.Join(f.dir, "home"))
			run(k.String(), func() {})
			return nil
		case "no repository":
			g := filepath.Join(f.repo.Dir, ".git")
			run(k.String(), func() {
				if err := os.Rename(g, g+"x"); err != nil {
					panic(err)
				}
			})
			return os.Rename(g+"x", g)
		}
		gdir := filepath.Join(f.dir, "git")
		os.MkdirAll(gdir, 0777)
		os.Setenv("FG_DIR", gdir)
		os.Setenv("FG_GIT", real)
		os.Setenv("PATH", filepath.Dir(bin)+":"+os.Getenv("PATH"))
		os.Setenv("FG_FAULT", "log")
		call(f)()
		os.Setenv("FG_FAULT", "")
		lb, err := os.ReadFile(filepath.Join(gdir, "log"))
		if err != nil {
			return nil
		}
		seen, pos, lw := map[string]bool{}, 0, 0
		if c.Tier == "thorough" {
			lw = 2
		}
		for _, h := range strings.Fields(string(lb)) {
			if seen[h] {
				continue
			}
			seen[h] = true
			b, err := os.ReadFile(filepath.Join(gdir, h))
			if err != nil {
				return err
			}
			b = b[1:]
			a, _ := os.ReadFile(filepath.Join(gdir, h+".args"))
			// at the start, at the end, and around the start of every line
			ps := map[int]bool{0: true, len(b): true}
			if len(b) < 5000 {
				for i, x := range b {
					if x == '\n' {
						for d := -lw; d <= lw; d++ {
							if i+d >= 0 && i+d <= len(b) {
								ps[i+d] = true
							}
						}
					}
				}
			} else {
				for _, i := range []int{1, 100, 4095, 4096, 32768, 65535, 65536, 65537, 70000, len(b) / 2, len(b) - 1} {
					if i <= len(b) {
						ps[i] = true
					}
				}
			}
			var l []int
			for p := range ps {
				l = append(l, p)
			}
			sort.Ints(l)
			for _, p := range l {
				pos++
				if pos%leakParts != k.part {
					continue
				}
				run(fmt.Sprintf("%s on %s: git %s wrote %d of %d bytes, then %s", k.call, k.repo, strings.TrimSpace(string(a)), p, len(b), modeText(k.mode)), func() {
					os.Setenv("FG_FAULT", fmt.Sprintf("%s:-1:%s:%d", h, k.mode, p))
				})
				os.Setenv("FG_FAULT", "")
				if c.Failed() {
					return nil
				}
			}
		}
		return nil
	})
}

// closedEarly closes the output of a command after some of it was read.
func closedEarly(c *eng.Ctx, u int, kind string) error {
	n := 0
	defer func() { c.Add("traces", n); c.Add("transitions", n) }()
	return withLeakEnv(c, kind, func(f *failEnv, measure func(string, func()) string) error {
		args := []string{"log", "-p", "--all"}
		read := func(k int) {
			r, err := gitexec.ExecPiped(context.Background(), "git", f.repo.Dir, args)
			if err != nil {
				panic(err)
			}
			io.CopyN(io.Discard, r, int64(k))
			r.Close()
		}
		read(1)
		for _, k := range []int{0, 1, 2, 100, 1000, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 131072, 1 << 20, 1 << 30} {
			n++
			if d := measure("", func() { read(k) }); d != "" && !strings.HasPrefix(d, "printed") {
				c.Fail(u, "ExecPiped, closed after %d bytes were read: %s", k, d)
				return nil
			}
			c.State(fmt.Sprint(kind, k))
		}
		return nil
	})
}

func init() {
	eng.Register(eng.Check{ID: "C23", Level: "model_checking", Spaces: func(tier string) []eng.Space {
		extra := []string{"merge", "bin"}
		modes, long := []string{"128"}, []string{"128"}
		if tier == "thorough" {
			extra, modes = leakRepos, []string{"128", "kill", "warn", "split", "1"}
			long = []string{"128", "kill"}
		}
		return []eng.Space{
			leakSpace("whole", "every call, with several options, with and without an error of its own, without git, and without the repository, three times on a small repository with merges, on one with binary and linked files, and on one whose log is larger than a pipe holds", leakRepos, leakNames, []string{"", "no git", "no repository"}),
			leakSpace("cut", "every git command of every call, failing at the start, around every end of a line (quick: at it), and at the end of its output", extra, leakNames, modes),
			leakSpace("cut-long", "every git command of every call on the large repository, failing at the start, around the sizes of buffers, in the middle and at the end of its output", []string{"long"}, leakNames, long),
			{Name: "closed", Rule: "the output of a git command, closed by the reader after 0 to all bytes", Size: func() int { return len(leakRepos) }, Batch: 1,
				Desc: func(i int) string { return leakRepos[i] },
				Exec: func(c *eng.Ctx, units []int) error {
					for _, u := range units {
						if err := closedEarly(c, u, leakRepos[u]); err != nil {
							return err
						}
					}
					return nil
				}},
		}
	}})
}
