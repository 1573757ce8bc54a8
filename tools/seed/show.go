// Command show prints what ripsrc reports for a repository, for demonstrations.
package main

import (
	"context"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/pinpt/ripsrc/ripsrc"
	"github.com/pinpt/ripsrc/ripsrc/branchmeta"
	"github.com/pinpt/ripsrc/ripsrc/commitmeta"
	"github.com/pinpt/ripsrc/ripsrc/history3/process"
	"github.com/pinpt/ripsrc/ripsrc/pkg/logger"
)

type nolog struct{}

func (nolog) Info(string, ...interface{})  {}
func (nolog) Warn(string, ...interface{})  {}
func (nolog) Debug(string, ...interface{}) {}
func (nolog) Error(string, ...interface{}) {}

func fail(err error) {
	if err != nil {
		fmt.Println("error:", err)
		os.Exit(3)
	}
}

func main() {
	dir := os.Args[2]
	arg := ""
	if len(os.Args) > 3 {
		arg = os.Args[3]
	}
	ctx := context.Background()
	var lg logger.Logger = nolog{}
	switch os.Args[1] {
	case "blame", "blameall", "blamefrom", "blamefromany":
		o := process.Opts{Logger: lg, RepoDir: dir, AllBranches: os.Args[1] == "blameall"}
		o.CheckpointsDir = os.Getenv("CKPT")
		if strings.HasPrefix(os.Args[1], "blamefrom") {
			o.CommitFromIncl, o.CommitFromMakeNonIncl = arg, true
			o.NoStrictResume = os.Args[1] == "blamefromany"
		}
		ch := make(chan process.Result)
		done := make(chan bool)
		go func() {
			for r := range ch {
				fmt.Println("commit", r.Commit)
				var ps []string
				for p := range r.Files {
					ps = append(ps, p)
				}
				sort.Strings(ps)
				for _, p := range ps {
					f := r.Files[p]
					fmt.Printf(" %q binary=%v lines=%d\n", p, f.IsBinary, len(f.Lines))
					for _, l := range f.Lines {
						fmt.Printf("  %s %q\n", l.Commit, l.Line)
					}
				}
			}
			done <- true
		}()
		err := process.New(o).Run(ch)
		<-done
		fail(err)
	case "meta", "metaall":
		cs, err := commitmeta.New(dir, commitmeta.Opts{AllBranches: os.Args[1] == "metaall"}).RunSlice()
		for _, c := range cs {
			fmt.Printf("commit %s %d %q %q %q %q %s %q %v\n", c.SHA, c.Ordinal, c.AuthorName, c.AuthorEmail, c.CommitterName, c.CommitterEmail, c.Date, c.Message, c.Parents)
			var ps []string
			for p := range c.Files {
				ps = append(ps, p)
			}
			sort.Strings(ps)
			for _, p := range ps {
				f := c.Files[p]
				fmt.Printf(" %q %q %s renamed=%v %q %q +%d -%d binary=%v\n", p, f.Filename, f.Status, f.Renamed, f.RenamedFrom, f.RenamedTo, f.Additions, f.Deletions, f.Binary)
			}
		}
		fail(err)
	case "code", "codefrom":
		o := ripsrc.Opts{Logger: lg, RepoDir: dir, CheckpointsDir: os.Getenv("CKPT")}
		if os.Args[1] == "codefrom" {
			o.CommitFromIncl, o.CommitFromMakeNonIncl = arg, true
		}
		rs, err := ripsrc.New(o).CodeSlice(ctx)
		// files of a commit come in any order
		sort.SliceStable(rs, func(i, j int) bool {
			return rs[i].Commit.SHA == rs[j].Commit.SHA && rs[i].Filename < rs[j].Filename
		})
		for _, r := range rs {
			fmt.Printf("%s %q %s lang=%q skipped=%q size=%d %d %d %d %d\n", r.Commit.SHA, r.Filename, r.Status, r.Language, r.Skipped, r.Size, r.Loc, r.Sloc, r.Comments, r.Blanks)
			for _, l := range r.Lines {
				fmt.Printf("  %s %q %q %s %v %v %v\n", l.SHA, l.Name, l.Email, l.Date, l.Code, l.Comment, l.Blank)
			}
		}
		fail(err)
	case "branches":
		o := ripsrc.Opts{Logger: lg, RepoDir: dir, AllBranches: true}
		if arg != "" {
			o.PullRequestSHAs = strings.Split(arg, ",")
		}
		bs, err := ripsrc.New(o).BranchesSlice(ctx)
		sort.Slice(bs, func(i, j int) bool { return bs[i].Name+bs[i].HeadSHA < bs[j].Name+bs[j].HeadSHA })
		for _, b := range bs {
			fmt.Printf("%q pr=%v default=%v merged=%v mergecommit=%q head=%s first=%q from=%v commits=%v behind=%d ahead=%d\n", b.Name, b.IsPullRequest, b.IsDefault, b.IsMerged, b.MergeCommit, b.HeadSHA, b.FirstCommit, b.BranchedFromCommits, b.Commits, b.BehindDefaultCount, b.AheadDefaultCount)
		}
		fail(err)
	case "leak": // goroutines left after a failed incremental run
		_, err := process.New(process.Opts{Logger: lg, RepoDir: dir, CheckpointsDir: os.Getenv("CKPT"), CommitFromIncl: arg}).RunGetAll()
		fmt.Println("failed:", err != nil)
		n := 0
		for i := 0; i < 50; i++ {
			time.Sleep(20 * time.Millisecond)
			if n = runtime.NumGoroutine(); n == 1 {
				break
			}
		}
		fmt.Println("goroutines:", n)
	case "branchlist", "originlist", "otherlist":
		bs, err := branchmeta.Get(ctx, branchmeta.Opts{Logger: lg, RepoDir: dir, UseOrigin: os.Args[1] == "originlist", IncludeDefault: os.Args[1] != "otherlist"})
		for _, b := range bs {
			fmt.Printf("%q %s %s\n", b.Name, b.Commit, b.CommitCommitterTime)
		}
		fail(err)
	}
}
