package props

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"verif/mc/eng"
	"verif/mc/gitx"
	"verif/mc/hist"
	"verif/mc/schedrun"
	"verif/mc/schedscen"
)

// schedRepo writes one of the repositories schedules are explored on.
func schedRepo(kind, dir string) (repo string, prs []string, tip string, err error) {
	text := func(ls ...string) gitx.Tree {
		t := gitx.Tree{}
		for i := 0; i+1 < len(ls); i += 2 {
			t[ls[i]] = gitx.Entry{Mode: "100644", Data: ls[i+1]}
		}
		return t
	}
	h := hist.History{}
	switch kind {
	case "line":
		h.Nodes = []hist.Node{{Tree: text("a.go", "package a\n", "b.go", "// b\n")}, {Parents: []int{0}, Tree: text("a.go", "package a\n\nfunc f() {}\n", "b.go", "// b\n")}, {Parents: []int{1}, Tree: text("a.go", "package a\n")}}
	case "one":
		h.Nodes = []hist.Node{{Tree: text("a.go", "package a\n")}}
	case "merge", "badblob", "nohead", "hole":
		h.Nodes = []hist.Node{{Tree: text("a.go", "package a\n", "b.go", "// b\n")}, {Parents: []int{0}, Tree: text("a.go", "package a\n", "b.go", "// b\n// c\n")}, {Parents: []int{0}, Tree: text("a.go", "package a\n\nfunc f() {}\n", "b.go", "// b\n")},
			{Parents: []int{2, 1}, Tree: text("a.go", "package a\n\nfunc f() {}\n", "b.go", "// b\n// c\n")}, {Parents: []int{1}, Tree: text("a.go", "package a\n", "b.go", "// b\n// d\n")}, {Parents: []int{3}, Tree: text("a.go", "package a\n\nfunc f() {}\n", "b.go", "// b\n// c\n", "c.go", "")}}
	case "missing":
		return filepath.Join(dir, "none"), nil, "", nil
	case "plain":
		return dir, nil, "", os.MkdirAll(dir, 0777)
	case "empty":
		r, err := gitx.InitRepo(dir, "")
		if err != nil {
			return "", nil, "", err
		}
		return r.Dir, nil, "", nil
	}
	b := hist.Build([]hist.History{h})
	if kind == "badblob" {
		b.Store.Drop(b.Store.Blob("package a\n\nfunc f() {}\n"))
	}
	r, err := b.WriteRepo(dir)
	if err != nil {
		return "", nil, "", err
	}
	if kind == "hole" {
		if err := r.SetRefs(map[string]string{"refs/heads/master": b.SHA[0][len(h.Nodes)-1], "refs/heads/m": b.SHA[0][4]}); err != nil {
			return "", nil, "", err
		}
	}
	if kind == "nohead" {
		if err := r.SetHead("ref: refs/heads/none"); err != nil {
			return "", nil, "", err
		}
	}
	if kind != "line" && kind != "one" {
		prs = []string{b.SHA[0][1], b.SHA[0][4], strings.Repeat("1", 40)}
	}
	return r.Dir, prs, b.SHA[0][len(h.Nodes)-1], nil
}

type schedCase struct {
	repo  string
	calls string
	conc  int
	devs  int
	robin bool
	loud  bool
	parts int
	part  int
}

func (s schedCase) String() string {
	p := "run until blocked"
	if s.robin {
		p = "switch at every operation"
	}
	return fmt.Sprintf("%s on repository %s, %d workers, default schedule: %s, up to %d deviations, the first at step %d mod %d", s.calls, s.repo, s.conc, p, s.devs, s.part, s.parts)
}

func schedCases(name string, repos, calls []string, concs []int, devs, parts int) eng.Space {
	var cs []schedCase
	for _, r := range repos {
		for _, c := range calls {
			for _, n := range concs {
				for _, robin := range []bool{false, true} {
					for p := 0; p < parts; p++ {
						cs = append(cs, schedCase{r, c, n, devs, robin, strings.Contains(c, "+"), parts, p})
					}
				}
			}
		}
	}
	return eng.Space{Name: name, Rule: fmt.Sprintf("every schedule with at most %d deviations from each of two default schedules (run until blocked; switch at every operation), of each of the calls %q (+: at the same time) on each of the repositories %q with %v workers; scheduling points are all channel, lock, wait group, pipe, goroutine and process operations of the code under test, and every schedule is checked for data races, deadlocks, goroutines left behind, panics and results other than the plain build's", devs, calls, repos, concs),
		Size: func() int { return len(cs) }, Batch: 1, Solo: true, Timeout: 10 * time.Minute, Desc: func(i int) string { return cs[i].String() },
		Exec: func(c *eng.Ctx, units []int) error {
			for _, u := range units {
				if err := schedOne(c, u, cs[u]); err != nil {
					return err
				}
			}
			return nil
		}}
}

func schedOne(c *eng.Ctx, u int, k schedCase) error {
	bin := os.Getenv("MC_SCHED")
	if bin == "" {
		return fmt.Errorf("MC_SCHED is not set")
	}
	dir := scratch(c)
	repo, prs, tip, err := schedRepo(k.repo, filepath.Join(dir, "r"))
	if err != nil {
		return err
	}
	a := schedscen.Args{Repo: repo, Scratch: filepath.Join(dir, "runs"), Calls: strings.Split(k.calls, "+"), PRs: prs, Tip: tip, Conc: k.conc, Loud: k.loud}
	want := schedscen.Run(a)
	c.State(want)
	if fine := map[string]bool{"one": true, "line": true, "merge": true}[k.repo] && !strings.Contains(k.calls, "without"); fine && strings.Contains(strings.Join(want, ""), "\nerror ") {
		c.Fail(u, "%s: the plain build gives an error: %.300q", k, want)
		return nil
	}
	if k.repo == "hole" && !strings.Contains(strings.Join(want, ""), "error ") {
		c.Fail(u, "%s: the plain build gives no error: %.300q", k, want)
		return nil
	}
	ab, _ := json.Marshal(a)
	j := schedrun.Job{Args: ab, Devs: k.devs, Robin: k.robin, MapDesc: k.robin, Part: k.part, Parts: k.parts, Want: want}
	if k.robin {
		j.Chunk = 700
	}
	rep, fail, err := schedJob(j)
	if err != nil {
		return err
	}
	c.Add("schedules", rep.Schedules)
	c.Add("traces", rep.Schedules)
	c.Add("transitions", rep.Steps)
	if fail != "" {
		c.Fail(u, "%s: %s", k, fail)
	}
	return nil
}

// explorer is a process that explores schedules; a worker keeps one until it
// fails.
type explorer struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err bytes.Buffer
}

var theExplorer *explorer

func startExplorer() (*explorer, error) {
	x := &explorer{cmd: exec.Command(os.Getenv("MC_SCHED"))}
	x.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1", "GOMAXPROCS=2")
	x.cmd.Stderr = &x.err
	var err error
	if x.in, err = x.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := x.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	x.out = bufio.NewReader(o)
	return x, x.cmd.Start()
}

func schedJob(j schedrun.Job) (rep schedrun.Report, fail string, err error) {
	jb, _ := json.Marshal(j)
	if theExplorer == nil {
		if theExplorer, err = startExplorer(); err != nil {
			return rep, "", err
		}
	}
	x := theExplorer
	late := false
	t := time.AfterFunc(10*time.Minute, func() { late = true; x.cmd.Process.Kill() })
	defer t.Stop()
	x.in.Write(append(jb, '\n'))
	for {
		l, err := x.out.ReadString('\n')
		if err != nil {
			break
		}
		// what the code under test prints comes in between
		if i := strings.Index(l, "REPORT {"); i >= 0 {
			if err := json.Unmarshal([]byte(l[i+7:]), &rep); err != nil {
				return rep, "", err
			}
			if rep.Fail != "" {
				theExplorer = nil
				x.in.Close()
				x.cmd.Wait()
				return rep, fmt.Sprintf("schedule %v: %s", rep.Plan, rep.Fail), nil
			}
			return rep, "", nil
		}
	}
	theExplorer = nil
	rerr := x.cmd.Wait()
	if late {
		return rep, "", fmt.Errorf("no answer in time")
	}
	s := x.err.String()
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
		var l []string
		for _, x := range strings.Split(s, "\n") {
			x = strings.TrimSpace(x)
			if strings.HasPrefix(x, "github.com/pinpt/ripsrc/ripsrc") || strings.Contains(x, " at 0x") || strings.Contains(x, "/ripsrc/ripsrc/") {
				if i := strings.Index(x, "/pinpt/ripsrc/"); i >= 0 {
					x = x[i+1:]
				}
				l = append(l, x)
			}
		}
		return rep, "data race: " + strings.Join(l[:min(len(l), 8)], "; "), nil
	}
	return rep, fmt.Sprintf("the process ended: %v\n%.1500s", rerr, s), nil
}

func init() {
	eng.Register(eng.Check{ID: "C17", Level: "model_checking", Assume: []string{"git commands end and their output does not depend on the schedule", "operations the code under test does not see (inside the standard library) are atomic"}, Spaces: func(tier string) []eng.Space {
		d := 0
		if tier == "thorough" {
			d = 1
		}
		single := []string{"meta-slice", "meta-map", "blame", "blame-all"}
		code := []string{"code", "code-slice", "by-commit", "by-commit-apart"}
		return []eng.Space{
			schedCases("readers", []string{"one", "line", "merge"}, single, []int{0}, 2+d, 4),
			schedCases("resume", []string{"line", "merge"}, []string{"resume", "resume-without", "code-resume-without"}, []int{0}, 1+d, 4),
			schedCases("code", []string{"one"}, code, []int{0}, 1+d, 4),
			schedCases("code-merge", []string{"merge"}, code, []int{0}, 1+d, 8),
			schedCases("branch-workers", []string{"merge"}, []string{"branches"}, []int{1, 2, 3}, 2+d, 8),
			schedCases("branches", []string{"merge"}, []string{"branches-slice", "one-object"}, []int{0}, 1, 16),
			schedCases("two-objects", []string{"merge"}, []string{"code-slice+code-slice", "code-slice+branches", "branches+branches", "meta-map+blame"}, []int{2}, 1, 8),
			schedCases("branch-errors", []string{"hole"}, []string{"branches-hole"}, []int{1, 2, 3}, 2+d, 8),
			schedCases("failures", []string{"missing", "plain", "empty", "nohead", "badblob"}, append(append([]string{"branches", "branches-slice"}, single...), code...), []int{2}, 1+d, 1),
		}
	}})
}
