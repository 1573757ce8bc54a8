// Package schedscen uses the public calls the way programs do, and returns
// what they gave in a canonical form. It is built twice: as it is, and
// rewritten for the scheduler.
package schedscen

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/pinpt/ripsrc/ripsrc"
	"github.com/pinpt/ripsrc/ripsrc/branches2"
	"github.com/pinpt/ripsrc/ripsrc/commitmeta"
	"github.com/pinpt/ripsrc/ripsrc/history3/process"
	"github.com/pinpt/ripsrc/ripsrc/parentsgraph"
	"github.com/pinpt/ripsrc/ripsrc/pkg/logger"
)

// Args of a scenario.
type Args struct {
	Repo    string
	Scratch string
	Calls   []string // started at the same time, each in a goroutine
	PRs     []string
	Tip     string
	Conc    int
	Loud    bool // default logger
}

type quiet struct{}

func (quiet) Info(msg string, objs ...interface{})  {}
func (quiet) Debug(msg string, objs ...interface{}) {}
func (quiet) Error(msg string, objs ...interface{}) {}

type discard struct{}

func (discard) Write(b []byte) (int, error) { return len(b), nil }

func (a Args) logger() logger.Logger {
	if a.Loud {
		return logger.NewDefaultLogger(discard{})
	}
	return quiet{}
}

var seq int

// Run runs the calls and returns their results, one string per call.
func Run(a Args) []string {
	seq++
	dir := filepath.Join(a.Scratch, fmt.Sprint("run", seq))
	defer os.RemoveAll(dir)
	res := make([]string, len(a.Calls))
	if len(a.Calls) == 1 {
		res[0] = call(a, a.Calls[0], filepath.Join(dir, "0"))
		return res
	}
	done := make(chan int, len(a.Calls))
	for i := range a.Calls {
		i := i
		go func() {
			res[i] = call(a, a.Calls[i], filepath.Join(dir, fmt.Sprint(i)))
			done <- i
		}()
	}
	for range a.Calls {
		<-done
	}
	return res
}

func blame(b ripsrc.BlameResult) string {
	b2 := b
	b2.Lines, b2.Commit = nil, ripsrc.Commit{}
	s := fmt.Sprintf("%+v\n", b2) + commit(b.Commit)
	for _, l := range b.Lines {
		s += fmt.Sprintf(" %+v\n", *l)
	}
	return s
}

// files gives results in the order they came, except that the order of the
// files of a commit does not matter.
func files(bs []ripsrc.BlameResult) string {
	s := ""
	var l []string
	for i, b := range bs {
		l = append(l, blame(b))
		if i == len(bs)-1 || bs[i+1].Commit.SHA != b.Commit.SHA {
			sort.Strings(l)
			s += strings.Join(l, "")
			l = nil
		}
	}
	return s
}

func commit(c ripsrc.Commit) string {
	var fs []string
	for k, f := range c.Files {
		fs = append(fs, fmt.Sprintf(" %s %+v\n", k, *f))
	}
	sort.Strings(fs)
	c.Files = nil
	return fmt.Sprintf("%+v\n", c) + strings.Join(fs, "")
}

func end(s string, err error) string {
	if err != nil {
		s += "error " + err.Error() + "\n"
	}
	return s
}

func noDir(err error, dir string) error {
	if err == nil {
		return nil
	}
	return fmt.Errorf("%s", strings.Replace(err.Error(), dir, "DIR", -1))
}

func branches(bs []branches2.Branch) string {
	var l []string
	for _, b := range bs {
		l = append(l, fmt.Sprintf("%+v\n", b))
	}
	sort.Strings(l)
	return strings.Join(l, "")
}

func result(r process.Result) string {
	var l []string
	for n, f := range r.Files {
		s := fmt.Sprintf(" %q binary %v\n", n, f.IsBinary)
		for _, x := range f.Lines {
			s += fmt.Sprintf("  %s %q\n", x.Commit, x.Line)
		}
		l = append(l, s)
	}
	sort.Strings(l)
	return r.Commit + "\n" + strings.Join(l, "")
}

func call(a Args, name, dir string) string {
	ctx := context.Background()
	rs := func() *ripsrc.Ripsrc {
		return ripsrc.New(ripsrc.Opts{RepoDir: a.Repo, CheckpointsDir: dir, AllBranches: true, Logger: a.logger(), PullRequestSHAs: a.PRs})
	}
	codeSlice := func(r *ripsrc.Ripsrc) string {
		bs, err := r.CodeSlice(ctx)
		return end(files(bs), err)
	}
	branchesSlice := func(r *ripsrc.Ripsrc) string {
		bs, err := r.BranchesSlice(ctx)
		return end(branches(bs), err)
	}
	switch name {
	case "code-slice":
		return codeSlice(rs())
	case "code": // consumer works on one result while others are made
		ch := make(chan ripsrc.BlameResult)
		done := make(chan string)
		go func() {
			var kept []ripsrc.BlameResult
			var first []string
			for b := range ch {
				kept = append(kept, b)
				first = append(first, blame(b))
			}
			s := ""
			for i, b := range kept {
				// what was delivered stays as it was
				if t := blame(b); t != first[i] {
					s += "changed later: " + t
				}
			}
			done <- s + files(kept)
		}()
		err := rs().Code(ctx, ch)
		return end(<-done, err)
	case "by-commit":
		ch := make(chan ripsrc.CommitCode)
		done := make(chan string)
		go func() {
			s := ""
			for c := range ch {
				s += commit(c.Commit)
				var l []ripsrc.BlameResult
				for b := range c.Blames {
					l = append(l, b)
				}
				s += files(l)
			}
			done <- s
		}()
		err := rs().CodeByCommit(ctx, ch)
		return end(<-done, err)
	case "by-commit-apart": // files of a commit are read by a goroutine of their own
		ch := make(chan ripsrc.CommitCode, 2)
		done := make(chan string)
		go func() {
			var parts []chan string
			for c := range ch {
				c := c
				p := make(chan string, 1)
				parts = append(parts, p)
				go func() {
					var l []ripsrc.BlameResult
					s := commit(c.Commit)
					for b := range c.Blames {
						l = append(l, b)
					}
					p <- s + files(l)
				}()
			}
			s := ""
			for _, p := range parts {
				s += <-p
			}
			done <- s
		}()
		err := rs().CodeByCommit(ctx, ch)
		return end(<-done, err)
	case "branches-slice":
		return branchesSlice(rs())
	case "one-object": // one call after the other
		r := rs()
		s := branchesSlice(r)
		s += codeSlice(r)
		return s + branchesSlice(r)
	case "branches", "branches-hole": // hole: a branch is not in the graph
		gr := parentsgraph.New(parentsgraph.Opts{RepoDir: a.Repo, AllBranches: true, Logger: a.logger()})
		if err := gr.Read(); err != nil {
			return end("", err)
		}
		hole := name == "branches-hole"
		if hole {
			delete(gr.Parents, a.PRs[1])
		}
		ch := make(chan branches2.Branch)
		done := make(chan string)
		go func() {
			var kept []branches2.Branch
			for b := range ch {
				kept = append(kept, b)
			}
			done <- branches(kept)
		}()
		err := branches2.New(branches2.Opts{RepoDir: a.Repo, Logger: a.logger(), CommitGraph: gr, Concurrency: a.Conc, IncludeDefaultBranch: true, PullRequestSHAs: a.PRs}).Run(ctx, ch)
		if hole { // what came before the error is open
			<-done
			return end("", err)
		}
		return end(<-done, err)
	case "meta-slice", "meta-map":
		p := commitmeta.New(a.Repo, commitmeta.Opts{AllBranches: true})
		s := ""
		if name == "meta-slice" {
			cs, err := p.RunSlice()
			for _, c := range cs {
				s += commit(c)
			}
			return end(s, err)
		}
		m, err := p.RunMap()
		var l []string
		for k, c := range m {
			l = append(l, k+" "+commit(c))
		}
		sort.Strings(l)
		return end(strings.Join(l, ""), err)
	case "blame":
		ch := make(chan process.Result)
		done := make(chan string)
		go func() {
			s := ""
			var kept []process.Result
			for r := range ch {
				kept = append(kept, r)
				s += result(r)
			}
			// what was delivered stays as it was
			for _, r := range kept {
				s += result(r)
			}
			done <- s
		}()
		err := process.New(process.Opts{RepoDir: a.Repo, CheckpointsDir: dir, AllBranches: true, Logger: a.logger()}).Run(ch)
		return end(<-done, err)
	case "resume-without", "code-resume-without": // there is nothing to resume from
		if name == "resume-without" {
			rs, err := process.New(process.Opts{RepoDir: a.Repo, CheckpointsDir: dir, Logger: a.logger(), CommitFromIncl: a.Tip}).RunGetAll()
			return end(fmt.Sprintln(len(rs)), noDir(err, dir))
		}
		bs, err := ripsrc.New(ripsrc.Opts{RepoDir: a.Repo, CheckpointsDir: dir, Logger: a.logger(), CommitFromIncl: a.Tip}).CodeSlice(ctx)
		return end(fmt.Sprintln(len(bs)), noDir(err, dir))
	case "resume": // twice: the second run goes on from the first
		s := ""
		for _, from := range []string{"", a.Tip} {
			rs, err := process.New(process.Opts{RepoDir: a.Repo, CheckpointsDir: dir, Logger: a.logger(), CommitFromIncl: from}).RunGetAll()
			for _, r := range rs {
				s += result(r)
			}
			s = end(s, noDir(err, dir))
		}
		return s
	case "blame-all":
		rs, err := process.New(process.Opts{RepoDir: a.Repo, CheckpointsDir: dir, AllBranches: true, Logger: a.logger()}).RunGetAll()
		s := ""
		for _, r := range rs {
			s += result(r)
		}
		return end(s, err)
	}
	panic("unknown call " + name)
}
