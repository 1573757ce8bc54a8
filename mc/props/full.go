package props

import (
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"syscall"

	"verif/mc/eng"
	"verif/mc/gitx"
	"verif/mc/hist"

	"github.com/pinpt/ripsrc/ripsrc"
	"github.com/pinpt/ripsrc/ripsrc/history3/process"
)

// fullHists: what is run while the disk is full.
func fullHists() []*hist.History {
	e := entries
	merge := chain(one("a\nb\nc\n"), one("a\nx\nc\n"))
	merge.Nodes = append(merge.Nodes, hist.Node{Tree: one("a\nb\ny\n"), Parents: []int{0}}, hist.Node{Tree: one("a\nx\ny\n"), Parents: []int{1, 2}})
	return []*hist.History{
		chain(one("a\n"), one("a\nb\n"), one("b\n")),
		merge,
		chain(gitx.Tree{"b": e["B1"], "l": e["L"]}, gitx.Tree{"b": e["B2"], "l": e["L"], "f": e["E"]}, gitx.Tree{"f": e["T1"]}),
	}
}

type fullUnit struct {
	h, from, to int // from -1: from the beginning
	code, given bool
}

func (u fullUnit) String() string {
	return fmt.Sprintf("history %d, from n%d (-1: all), HEAD at n%d, CodeByCommit %v, CheckpointsDir given %v", u.h, u.from, u.to, u.code, u.given)
}

func fullUnits() (res []fullUnit) {
	for h, x := range fullHists() {
		anc := ancestors(*x)
		for to := range x.Nodes {
			for from := -1; from < to; from++ {
				if from >= 0 && !anc[to].has(from) {
					continue
				}
				for k := 0; k < 4; k++ {
					res = append(res, fullUnit{h, from, to, k&1 != 0, k&2 != 0})
				}
			}
		}
	}
	return
}

// withFileLimit: while f runs a file cannot get longer than n bytes.
func withFileLimit(n int, f func()) error {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		return err
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: old.Max}); err != nil {
		return err
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	f()
	return nil
}

func fullRun(c *eng.Ctx, unit int) error {
	u := fullUnits()[unit]
	x, err := newIncr(c, unit, *fullHists()[u.h])
	if err != nil {
		return err
	}
	defer x.done()
	if c.Failed() {
		return nil
	}
	dflt := filepath.Join(x.p.Repo, "pp-git-cache")
	opts := func(cp string, from int) (o process.Opts) {
		o = process.Opts{RepoDir: x.p.Repo, Logger: hist.Quiet{}, CheckpointsDir: cp}
		if from >= 0 {
			o.CommitFromIncl = x.sha(from)
		}
		return
	}
	// the commits from n on, that included
	since := func(n int) bits {
		want := x.anc[u.to]
		if n >= 0 {
			for _, q := range x.h.Nodes[n].Parents {
				want &^= x.anc[q]
			}
		}
		return want
	}
	before := x.cp()
	if u.from >= 0 {
		if err := x.head(u.from); err != nil {
			return err
		}
		if !x.run("to the first commit", opts(before, -1), x.anc[u.from]) {
			return nil
		}
	}
	if err := x.head(u.to); err != nil {
		return err
	}
	// how much is written when there is room
	whole := x.cp()
	if u.from >= 0 {
		if err := copyDir(before, whole); err != nil {
			return err
		}
	}
	if !x.run("with room", opts(whole, u.from), since(u.from)) {
		return nil
	}
	size := 0
	for _, s := range readDir(whole) {
		if len(s) > size {
			size = len(s)
		}
	}
	// what is written on the way can be longer than what is there in the end
	enough := 4*size + 4096
	for n := 0; n <= enough; n++ {
		if n == size+1 {
			n = enough
		}
		cp := x.cp()
		at := cp
		if u.from >= 0 {
			if err := copyDir(before, cp); err != nil {
				return err
			}
		}
		if !u.given {
			os.RemoveAll(dflt)
			if u.from >= 0 {
				if err := copyDir(filepath.Join(cp, "pp-git-cache"), dflt); err != nil {
					return err
				}
			}
			at, cp = x.p.Repo, ""
		}
		what := fmt.Sprintf("no file can be longer than %d bytes", n)
		var rerr error
		o := opts(cp, u.from)
		if err := withFileLimit(n, func() {
			if u.code {
				_, rerr = runByCommit(ripsrc.Opts{RepoDir: o.RepoDir, Logger: hist.Quiet{}, CheckpointsDir: o.CheckpointsDir, CommitFromIncl: o.CommitFromIncl})
			} else {
				_, rerr = process.New(o).RunGetAll()
			}
		}); err != nil {
			return err
		}
		c.Add("traces", 1)
		c.Add("transitions", 1)
		c.State(u.String(), n, rerr != nil, version(at))
		v := version(at)
		next := u.from
		switch {
		case rerr == nil && v != x.sha(u.to):
			c.Fail(unit, "%s: the run reports no error, but the checkpoint is for %q, not %q", what, v, x.sha(u.to))
			return nil
		case rerr == nil:
			next = u.to
		case n == enough:
			c.Fail(unit, "%s, which is enough: fails: %v", what, rerr)
			return nil
		case u.from >= 0 && v == "":
			// allowed
			continue
		case u.from >= 0 && v != x.sha(u.from) && v != x.sha(u.to):
			c.Fail(unit, "%s: the checkpoint is for %q afterwards", what, v)
			return nil
		case v == x.sha(u.to):
			next = u.to
		}
		want := since(next)
		if !x.run(what+"; the run after it", opts(cp, next), want) {
			return nil
		}
		if cp != "" {
			os.RemoveAll(cp)
		}
	}
	return nil
}

func fullSpace() eng.Space {
	return eng.Space{Name: "full", Rule: "runs of the processor and of CodeByCommit, from the beginning and from every checkpoint of three small histories to every later commit, with the checkpoints in a directory of their own or the default one; no file can get longer than n bytes, for every n up to what the checkpoint needs; then a run with room",
		Size: func() int { return len(fullUnits()) }, Batch: 1, Solo: true, Desc: func(i int) string { return fullUnits()[i].String() },
		Exec: func(c *eng.Ctx, units []int) error {
			for _, u := range units {
				if err := fullRun(c, u); err != nil {
					return err
				}
			}
			return nil
		}}
}
