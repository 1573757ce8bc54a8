package hist

import (
	"fmt"
	"sort"
	"strings"

	"github.com/pinpt/ripsrc/ripsrc/history3/incblame"
	"github.com/pinpt/ripsrc/ripsrc/history3/process"
)

// Quiet is a logger that drops everything.
type Quiet struct{}

func (Quiet) Info(string, ...interface{})  {}
func (Quiet) Debug(string, ...interface{}) {}

// CompareFile checks one reported blame against the reference; "" when equal.
func CompareFile(want RefFile, got *incblame.Blame, content, attr bool) string {
	if got == nil {
		return "nil blame"
	}
	if want.Removed {
		if len(got.Lines) != 0 {
			return fmt.Sprintf("removed file reported with %d lines", len(got.Lines))
		}
		return ""
	}
	if got.IsBinary {
		if len(got.Lines) != 0 {
			return "binary file reported with lines"
		}
		if !want.Binary && !want.Either {
			return "text file reported as binary"
		}
		return ""
	}
	if want.Binary {
		return fmt.Sprintf("binary file reported as text with %d lines", len(got.Lines))
	}
	if content {
		if len(got.Lines) != len(want.Lines) {
			return fmt.Sprintf("%d lines reported, file has %d: got %s want %q", len(got.Lines), len(want.Lines), lineStr(got), want.Lines)
		}
		for i, l := range got.Lines {
			if Trim(string(l.Line)) != Trim(want.Lines[i]) {
				return fmt.Sprintf("line %d content: got %q, file has %q", i, l.Line, want.Lines[i])
			}
		}
	}
	if attr {
		if len(got.Lines) != len(want.Attr) {
			return fmt.Sprintf("%d lines reported, file has %d", len(got.Lines), len(want.Attr))
		}
		for i, l := range got.Lines {
			if !contains(want.Attr[i], l.Commit) {
				return fmt.Sprintf("line %d %q attributed to %q, introduced by %q", i, l.Line, l.Commit, want.Attr[i])
			}
		}
	}
	return ""
}

func short(s string) string {
	if len(s) > 10 {
		return s[:10]
	}
	return s
}

func lineStr(b *incblame.Blame) string {
	var r []string
	for _, l := range b.Lines {
		r = append(r, short(l.Commit)+":"+string(l.Line))
	}
	return strings.Join(r, "|")
}

// CompareCommit checks the files reported for one commit.
func CompareCommit(want map[string]RefFile, got map[string]*incblame.Blame) string {
	for _, p := range Keys(want) {
		g, ok := got[p]
		if !ok {
			if want[p].Optional {
				continue
			}
			return fmt.Sprintf("file %q is not reported; reported %q", p, Keys(got))
		}
		if s := CompareFile(want[p], g, true, true); s != "" {
			return fmt.Sprintf("file %q: %s", p, s)
		}
	}
	for p := range got {
		if _, ok := want[p]; !ok {
			return fmt.Sprintf("file %q is reported but did not change; changed: %q", p, Keys(want))
		}
	}
	return ""
}

// RunAll runs the real processor over everything in the repository.
func RunAll(repoDir, cpDir string) ([]process.Result, error) {
	p := process.New(process.Opts{RepoDir: repoDir, AllBranches: true, CheckpointsDir: cpDir, Logger: Quiet{}})
	return p.RunGetAll()
}

func Keys[V any](m map[string]V) (r []string) {
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return
}
