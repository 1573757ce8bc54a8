package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"verif/mc/eng"
	"verif/mc/gitx"
	"verif/mc/hist"

	"github.com/pinpt/ripsrc/ripsrc/history3/process"
)

// longHist is a main line in which every commit changes a line of m, and a
// branch that leaves it at fork, changes s side times, and comes back at
// merge. The commits of the branch are as old as main commit dated.
type longHist struct {
	fork, side, dated, merge, n int
	fan                         int // more children of the fork, merged by the next commit
}

func (k longHist) String() string {
	return fmt.Sprintf("main line of %d commits, a branch of %d leaves it at commit %d, is dated after commit %d and merged at commit %d; %d more children of that commit, merged by the next", k.n, k.side, k.fork, k.dated, k.merge, k.fan)
}

type longRepo struct {
	r     *gitx.Repo
	main  []string
	sides []string
	want  map[string]map[string]hist.RefFile
	order map[string][]string // parents
}

func (k longHist) build(dir string) (*longRepo, error) {
	s := gitx.NewStore()
	x := &longRepo{want: map[string]map[string]hist.RefFile{}, order: map[string][]string{}}
	type st struct{ m, s, ma, sa []string }
	clone := func(a st) st {
		c := func(l []string) []string { return append([]string(nil), l...) }
		return st{c(a.m), c(a.s), c(a.ma), c(a.sa)}
	}
	id := func(at int, sub int) gitx.Ident {
		return gitx.Ident{Name: "n", Email: "e", Time: hist.BaseTime + int64(at)*100000 + int64(sub), TZ: "+0000"}
	}
	commit := func(v st, at, sub int, name string, parents []string) string {
		t := gitx.Tree{"m": file(strings.Join(v.m, "\n") + "\n"), "s": file(strings.Join(v.s, "\n") + "\n")}
		c := s.Commit(gitx.Commit{Tree: t, Author: id(at, sub), Committer: id(at, sub), Message: name + "\n", Parents: parents})
		x.order[c] = parents
		return c
	}
	var vs []st
	var v st
	var sideTip string
	var sideV st
	var fan []string
	for i := 0; i < k.n; i++ {
		name := fmt.Sprint("main ", i)
		var parents []string
		if i > 0 {
			parents = []string{x.main[i-1]}
		}
		rep := map[string]hist.RefFile{}
		if i == 0 {
			v = st{m: []string{"a", "b", "c"}, s: []string{"x", "y"}, ma: make([]string, 3), sa: make([]string, 2)}
		} else {
			v = clone(v)
		}
		switch {
		case k.fan > 0 && i == k.fork+1:
			parents = append(parents, fan...)
		case i == k.merge:
			parents = append(parents, sideTip)
			v.s, v.sa = sideV.s, sideV.sa
		default:
			v.m[i%3] = fmt.Sprint("m", i)
			v.ma[i%3] = ""
		}
		if i == k.merge+1 {
			v.s[0], v.sa[0] = "after", ""
		}
		sha := commit(v, i, 0, name, parents)
		fix := func(a []string) {
			for j := range a {
				if a[j] == "" {
					a[j] = sha
				}
			}
		}
		fix(v.ma)
		if i == 0 || i == k.merge+1 {
			fix(v.sa)
			rep["s"] = longFile(v.s, v.sa)
		}
		if i != k.merge && !(k.fan > 0 && i == k.fork+1) {
			rep["m"] = longFile(v.m, v.ma)
		}
		x.main, x.want[sha] = append(x.main, sha), rep
		vs = append(vs, v)
		if i == k.fork {
			w := clone(v)
			p := sha
			for j := 0; j < k.side; j++ {
				w = clone(w)
				w.s[j%2] = fmt.Sprint("s", j)
				c := commit(w, k.dated, j+1, fmt.Sprint("side ", j), []string{p})
				w.sa[j%2] = c
				x.want[c] = map[string]hist.RefFile{"s": longFile(w.s, w.sa)}
				x.sides = append(x.sides, c)
				p = c
			}
			sideTip, sideV = p, w
			for j := 0; j < k.fan; j++ {
				c := commit(v, i, j+1, fmt.Sprint("fan ", j), []string{sha})
				x.want[c] = map[string]hist.RefFile{}
				fan = append(fan, c)
			}
		}
	}
	r, err := gitx.InitRepo(dir, "")
	if err != nil {
		return nil, err
	}
	x.r = r
	return x, r.AddPack(s)
}

func longFile(ls, at []string) hist.RefFile {
	f := hist.RefFile{Lines: append([]string(nil), ls...)}
	for _, a := range at {
		f.Attr = append(f.Attr, []string{a})
	}
	return f
}

// check runs a piece and compares it.
// An error is accepted when old: what was reported before it is still checked.
func (x *longRepo) check(c *eng.Ctx, u int, what string, o process.Opts, from map[string]bool, tip string, old bool) bool {
	o.RepoDir, o.Logger = x.r.Dir, hist.Quiet{}
	ch := make(chan process.Result)
	var res []process.Result
	got := make(chan bool)
	go func() {
		for r := range ch {
			res = append(res, r)
		}
		close(got)
	}()
	err := process.New(o).Run(ch)
	<-got
	c.Add("runs", 1)
	if err != nil && !old {
		c.Fail(u, "%s fails: %v", what, err)
		return false
	}
	if err != nil {
		c.Add("runs-beyond-checkpoint", 1)
	}
	want := x.reach(tip)
	for s := range from {
		delete(want, s)
	}
	seen := map[string]bool{}
	for _, y := range res {
		if !want[y.Commit] || seen[y.Commit] {
			c.Fail(u, "%s reports commit %s, not wanted or twice", what, y.Commit)
			return false
		}
		seen[y.Commit] = true
		if s := hist.CompareCommit(x.want[y.Commit], y.Files); s != "" {
			c.Fail(u, "%s: commit %s: %s", what, y.Commit, s)
			return false
		}
	}
	c.Add("transitions", len(res))
	if err != nil {
		return false
	}
	if len(seen) != len(want) {
		c.Fail(u, "%s reports %d commits instead of %d", what, len(seen), len(want))
		return false
	}
	return true
}

func (x *longRepo) reach(tips ...string) map[string]bool {
	m := map[string]bool{}
	for len(tips) > 0 {
		t := tips[len(tips)-1]
		tips = tips[:len(tips)-1]
		if !m[t] {
			m[t] = true
			tips = append(tips, x.order[t]...)
		}
	}
	return m
}

func (x *longRepo) head(sha string, more ...string) error {
	refs := map[string]string{"refs/heads/master": sha}
	for i, s := range more {
		refs[fmt.Sprint("refs/heads/b", i)] = s
	}
	return x.r.SetRefs(refs)
}

var nearLimit = []int{1, 998, 999, 1000, 1001, 1002, 1003}

func longFanSpace() eng.Space {
	var us []longCut
	for _, f := range []int{1, 2, 3, 4, 7, 8, 15, 16, 31} {
		for _, d := range []int{10, 990, 1200} {
			h := longHist{fork: 2, side: 2, dated: 2 + d, merge: 4 + d, n: 10 + d, fan: f}
			us = append(us, longCut{h: h})
			us = append(us, longCut{h: h, cuts: []int{d}}, longCut{h: h, cuts: []int{2, 3, 2 + d}})
		}
	}
	return eng.Space{Name: "long-fans", Rule: "a commit with 3 to 33 children, one of them worked on 10, 990 or 1200 commits later; in one, two or four runs", Batch: 1, Timeout: 3 * time.Minute,
		Size: func() int { return len(us) }, Desc: func(i int) string { return us[i].String() },
		Exec: func(c *eng.Ctx, units []int) error {
			for _, u := range units {
				if err := longCutOne(c, u, us[u]); err != nil {
					return err
				}
			}
			return nil
		}}
}

func longBranchSpace() eng.Space {
	var us []longHist
	for _, d1 := range nearLimit {
		for _, d2 := range nearLimit {
			us = append(us, longHist{fork: 2, side: 1, dated: 2 + d1, merge: 3 + d1 + d2, n: 6 + d1 + d2})
			us = append(us, longHist{fork: 2, side: 1000 + d1%10, dated: 2 + d2, merge: 4 + d2, n: 1010 + d2})
		}
	}
	return eng.Space{Name: "long-branches", Rule: "a branch that leaves the main line, is worked on 1 or about 1000 commits later, has 1 or about 1000 commits, and is merged 1 or about 1000 commits after that (all distances from 998 to 1003, and 1): one run", Batch: 1, Timeout: 3 * time.Minute,
		Size: func() int { return len(us) }, Desc: func(i int) string { return us[i].String() },
		Exec: func(c *eng.Ctx, units []int) error {
			for _, u := range units {
				dir := scratch(c)
				k := us[u]
				x, err := k.build(filepath.Join(dir, "r"))
				if err != nil {
					return err
				}
				tip := x.main[k.n-1]
				if err := x.head(tip); err != nil {
					return err
				}
				c.State(k.String())
				c.Add("traces", 1)
				x.check(c, u, "the run", process.Opts{CheckpointsDir: filepath.Join(dir, "cp"), AllBranches: u%2 == 0}, nil, tip, false)
				os.RemoveAll(dir)
			}
			return nil
		}}
}

type longCut struct {
	h    longHist
	cuts []int
	all  bool // the branch is there and wanted in the first run
}

func (k longCut) String() string {
	return fmt.Sprintf("%v; runs at commits %v, then the last one; branch in the first run: %v", k.h, k.cuts, k.all)
}

func longCuts() (us []longCut) {
	for _, d := range []int{0, 1, 500, 998, 999, 1000, 1001, 1002, 1003} {
		for _, all := range []bool{false, true} {
			cut := 2 + d
			if all && d < 2 {
				continue
			}
			for _, e := range []int{1, 999, 1000, 1001, 1002} {
				h := longHist{fork: 2, side: 1, dated: cut - 1, merge: cut + e + 1, n: cut + e + 4}
				if !all {
					// only known later
					h.dated = cut + e
				}
				us = append(us, longCut{h, []int{cut}, all})
			}
			h := longHist{fork: 2, side: 2, dated: cut + 9, merge: cut + 12, n: cut + 15}
			if all {
				h.dated = cut - 1
			}
			us = append(us, longCut{h, []int{cut, cut + 3, cut + 10}, all})
		}
	}
	return
}

func longCutSpace() eng.Space {
	us := longCuts()
	return eng.Space{Name: "long-cuts", Rule: "the same histories in two or four runs, the first of which ends 0, 1, 500 or 998 to 1003 commits after the branch left the main line, with the branch being there already in the first run, or not (if the branch is new and left the main line over 1000 commits before the checkpoint, the run may return an error)", Batch: 1, Timeout: 3 * time.Minute,
		Size: func() int { return len(us) }, Desc: func(i int) string { return us[i].String() },
		Exec: func(c *eng.Ctx, units []int) error {
			for _, u := range units {
				if err := longCutOne(c, u, us[u]); err != nil {
					return err
				}
			}
			return nil
		}}
}

func longCutOne(c *eng.Ctx, u int, k longCut) error {
	dir := scratch(c)
	defer os.RemoveAll(dir)
	x, err := k.h.build(filepath.Join(dir, "r"))
	if err != nil {
		return err
	}
	c.State(k.String())
	c.Add("traces", 1)
	cp := filepath.Join(dir, "cp")
	done := map[string]bool{}
	from := ""
	for i, cut := range append(k.cuts, k.h.n-1) {
		tip := x.main[cut]
		o := process.Opts{CheckpointsDir: cp}
		var more []string
		if i == 0 && k.all {
			o.AllBranches = true
			more = x.sides[len(x.sides)-1:]
		}
		if err := x.head(tip, more...); err != nil {
			return err
		}
		if from != "" {
			o.CommitFromIncl, o.CommitFromMakeNonIncl = from, true
		}
		if len(more) > 0 {
			x.order["all"] = []string{tip, more[0]}
			if !x.checkAll(c, u, o, tip, more[0]) {
				return nil
			}
			// the branch is not an ancestor of the head, which is all that later runs look at
			done = x.reach(tip)
		} else {
			// a checkpoint is for the last 1000 commits
			old := i > 0 && !k.all && k.cuts[i-1]-k.h.fork+k.h.fan > 1000 && cut >= k.h.merge
			if !x.check(c, u, fmt.Sprintf("run %d", i+1), o, done, tip, old) {
				return nil
			}
			done = x.reach(tip)
		}
		from = version(cp)
		if from != tip {
			if len(more) == 0 || from != more[0] {
				c.Fail(u, "run %d leaves a checkpoint for %q", i+1, from)
				return nil
			}
			// the last one of the log
			done = x.reach(from)
		}
	}
	return nil
}

func (x *longRepo) checkAll(c *eng.Ctx, u int, o process.Opts, tips ...string) bool {
	o.RepoDir, o.Logger = x.r.Dir, hist.Quiet{}
	res, err := process.New(o).RunGetAll()
	if err != nil {
		c.Fail(u, "the first run fails: %v", err)
		return false
	}
	want := x.reach(tips...)
	for _, y := range res {
		if s := hist.CompareCommit(x.want[y.Commit], y.Files); s != "" || !want[y.Commit] {
			c.Fail(u, "the first run: commit %s: %s", y.Commit, s)
			return false
		}
		delete(want, y.Commit)
	}
	if len(want) > 0 {
		c.Fail(u, "the first run does not report %d commits", len(want))
		return false
	}
	return true
}

func init() {
	eng.Register(eng.Check{ID: "C21", Level: "model_checking", Spaces: func(tier string) []eng.Space {
		return []eng.Space{longBranchSpace(), longCutSpace(), longFanSpace()}
	}})
}
