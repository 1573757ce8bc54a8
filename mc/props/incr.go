package props

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/mc/eng"
	"verif/mc/gitx"
	"verif/mc/hist"

	"github.com/pinpt/ripsrc/ripsrc/history3/incblame"
	"github.com/pinpt/ripsrc/ripsrc/history3/process"
	"github.com/pinpt/ripsrc/ripsrc/history3/process/repo"
)

// bits is a set of nodes of a history.
type bits uint64

func (b bits) has(i int) bool { return b&(1<<uint(i)) != 0 }

// ancestors of every node, itself included.
func ancestors(h hist.History) []bits {
	r := make([]bits, len(h.Nodes))
	for i, n := range h.Nodes {
		r[i] = 1 << uint(i)
		for _, p := range n.Parents {
			r[i] |= r[p]
		}
	}
	return r
}

// diffBlames compares two reports of one commit; "" when equal.
func diffBlames(a, b map[string]*incblame.Blame) string {
	for _, p := range hist.Keys(a) {
		y, ok := b[p]
		if !ok {
			return fmt.Sprintf("file %q is not reported", p)
		}
		x := a[p]
		if (x == nil) != (y == nil) {
			return fmt.Sprintf("file %q: nil blame", p)
		}
		if x == nil {
			continue
		}
		if x.IsBinary != y.IsBinary || x.Commit != y.Commit || len(x.Lines) != len(y.Lines) {
			return fmt.Sprintf("file %q: binary %v commit %q %d lines against binary %v commit %q %d lines", p, x.IsBinary, x.Commit, len(x.Lines), y.IsBinary, y.Commit, len(y.Lines))
		}
		for i := range x.Lines {
			if x.Lines[i].Commit != y.Lines[i].Commit || !bytes.Equal(x.Lines[i].Line, y.Lines[i].Line) {
				return fmt.Sprintf("file %q line %d: %s %q against %s %q", p, i, x.Lines[i].Commit, x.Lines[i].Line, y.Lines[i].Commit, y.Lines[i].Line)
			}
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			return fmt.Sprintf("file %q is reported in addition", p)
		}
	}
	return ""
}

// copyDir copies a directory of plain files and directories.
func copyDir(from, to string) error {
	return filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if fi.IsDir() {
			return os.MkdirAll(filepath.Join(to, rel), 0777)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(to, rel), b, 0666)
	})
}

// readDir returns the files below a directory.
func readDir(d string) map[string]string {
	r := map[string]string{}
	filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(d, p)
		if fi.IsDir() {
			r[rel+"/"] = ""
			return nil
		}
		b, _ := os.ReadFile(p)
		r[rel] = string(b)
		return nil
	})
	return r
}

func sameDir(a, b map[string]string) string {
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			return k + " is gone"
		}
		if v != w {
			return k + " changed"
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			return k + " is new"
		}
	}
	return ""
}

// incr drives runs over one history.
type incr struct {
	c    *eng.Ctx
	unit int
	h    hist.History
	p    *prepared
	anc  []bits
	full map[string]map[string]*incblame.Blame
	r    *gitx.Repo
	n    int
}

func (x *incr) sha(i int) string { return x.p.B.SHA[0][i] }

func (x *incr) cp() string {
	x.n++
	return filepath.Join(x.p.Dir, fmt.Sprint("cp", x.n))
}

// names of a set of nodes
func names(b bits) string {
	var s []string
	for i := 0; i < 64; i++ {
		if b.has(i) {
			s = append(s, fmt.Sprint("n", i))
		}
	}
	return strings.Join(s, ",")
}

// run runs the processor and checks that it reports exactly the nodes of want,
// each as the reference and the full run have it.
func (x *incr) run(what string, o process.Opts, want bits) bool {
	o.RepoDir, o.Logger = x.p.Repo, hist.Quiet{}
	res, err := process.New(o).RunGetAll()
	x.c.Add("runs", 1)
	if err != nil {
		x.c.Fail(x.unit, "%s: fails: %v", what, err)
		return false
	}
	seen := bits(0)
	at := map[int]int{}
	for k, y := range res {
		w, ok := x.p.B.Where[y.Commit]
		if !ok {
			x.c.Fail(x.unit, "%s: reported commit %q does not exist", what, y.Commit)
			return false
		}
		ni := w[1]
		if seen.has(ni) {
			x.c.Fail(x.unit, "%s: commit n%d is reported twice", what, ni)
			return false
		}
		seen |= 1 << uint(ni)
		at[ni] = k
		for _, q := range x.h.Nodes[ni].Parents {
			if want.has(q) && !seen.has(q) {
				x.c.Fail(x.unit, "%s: commit n%d is reported before its parent n%d", what, ni, q)
				return false
			}
		}
		if s := hist.CompareCommit(x.p.Refs[0].Reported[ni], y.Files); s != "" {
			x.c.Fail(x.unit, "%s: commit n%d: %s", what, ni, s)
			return false
		}
		if x.full != nil {
			if s := diffBlames(x.full[y.Commit], y.Files); s != "" {
				x.c.Fail(x.unit, "%s: commit n%d differs from a full run: %s", what, ni, s)
				return false
			}
		}
	}
	if seen != want {
		x.c.Fail(x.unit, "%s: reports commits %s, expected %s", what, names(seen), names(want))
		return false
	}
	x.c.Add("transitions", len(res))
	x.c.State(x.sha(len(x.h.Nodes)-1), what)
	return true
}

func (x *incr) head(i int) error {
	if err := x.r.SetRefs(map[string]string{"refs/heads/master": x.sha(i)}); err != nil {
		return err
	}
	return x.r.SetHead("ref: refs/heads/master")
}

func newIncr(c *eng.Ctx, unit int, h hist.History) (*incr, error) {
	p, err := prep(c, []hist.History{h})
	if err != nil {
		return nil, err
	}
	x := &incr{c: c, unit: unit, h: h, p: p, anc: ancestors(h), r: &gitx.Repo{Dir: p.Repo}}
	noteStates(c, h, p.B.SHA[0], p.Refs[0])
	res, err := hist.RunAll(p.Repo, x.cp())
	if err != nil {
		c.Fail(unit, "full run fails: %v", err)
		return x, nil
	}
	x.full = map[string]map[string]*incblame.Blame{}
	for _, y := range res {
		x.full[y.Commit] = y.Files
	}
	return x, nil
}

func (x *incr) done() { os.RemoveAll(x.p.Dir) }

// version is the commit a checkpoint directory says it is for.
func version(cp string) string {
	b, _ := os.ReadFile(filepath.Join(cp, "pp-git-cache", "checkpoint", "checkpoint-version"))
	return string(b)
}

// headSplits: phase one up to any node, phase two at any node, then phase three at any later one.
func headSplits(c *eng.Ctx, unit int, h hist.History, deep bool) error {
	x, err := newIncr(c, unit, h)
	if err != nil {
		return err
	}
	defer x.done()
	for t1 := range h.Nodes {
		if c.Failed() {
			return nil
		}
		if err := x.head(t1); err != nil {
			return err
		}
		cp1 := x.cp()
		if !x.run(fmt.Sprintf("first run at n%d", t1), process.Opts{CheckpointsDir: cp1}, x.anc[t1]) {
			return nil
		}
		for t2 := range h.Nodes {
			if !deep && !x.anc[t2].has(t1) && (t1+t2)%2 == 0 {
				// branch switches: half of them in the quick tier
				continue
			}
			if err := x.head(t2); err != nil {
				return err
			}
			cps := map[bool]string{}
			for _, non := range []bool{true, false} {
				want := x.anc[t2] &^ x.anc[t1]
				if !non && x.anc[t2].has(t1) {
					want |= 1 << uint(t1)
				}
				if !non {
					want = x.anc[t2] &^ excl(x, t1)
				}
				cp2 := x.cp()
				if err := copyDir(cp1, cp2); err != nil {
					return err
				}
				cps[non] = cp2
				if !x.run(fmt.Sprintf("first run at n%d, then at n%d from there (non-inclusive %v)", t1, t2, non), process.Opts{CheckpointsDir: cp2, CommitFromIncl: x.sha(t1), CommitFromMakeNonIncl: non}, want) {
					return nil
				}
				x.c.Add("traces", 1)
			}
			if t2 == t1 || !x.anc[t2].has(t1) {
				continue
			}
			for t3 := t2 + 1; t3 < len(h.Nodes); t3++ {
				if !x.anc[t3].has(t2) {
					continue
				}
				if err := x.head(t3); err != nil {
					return err
				}
				non := (t1+t2+t3)%2 == 0
				for _, via := range []bool{true, false} {
					if !deep && via != non {
						continue
					}
					want := x.anc[t3] &^ x.anc[t2]
					if !non {
						want = x.anc[t3] &^ excl(x, t2)
					}
					cp3 := x.cp()
					if err := copyDir(cps[via], cp3); err != nil {
						return err
					}
					if !x.run(fmt.Sprintf("runs at n%d, n%d (non-inclusive %v), n%d (non-inclusive %v)", t1, t2, via, t3, non), process.Opts{CheckpointsDir: cp3, CommitFromIncl: x.sha(t2), CommitFromMakeNonIncl: non}, want) {
						return nil
					}
					x.c.Add("traces", 1)
					// continuing from an earlier commit with the newer checkpoint
					if !x.run(fmt.Sprintf("runs at n%d, n%d, n%d, then again from n%d without strict resume", t1, t2, t3, t1), process.Opts{CheckpointsDir: cp3, CommitFromIncl: x.sha(t1), NoStrictResume: true}, x.anc[t3]&^excl(x, t1)) {
						return nil
					}
				}
			}
		}
	}
	return nil
}

// excl is what an inclusive start at t leaves out: the ancestors of its parents.
func excl(x *incr, t int) (r bits) {
	for _, q := range x.h.Nodes[t].Parents {
		r |= x.anc[q]
	}
	return
}

// allSplits: phase one with all branches of every down-closed set of nodes,
// phase two with HEAD at every head and all heads wanted.
func allSplits(c *eng.Ctx, unit int, h hist.History) error {
	x, err := newIncr(c, unit, h)
	if err != nil {
		return err
	}
	defer x.done()
	tips := h.Tips()
	allRefs := map[string]string{}
	var wanted []string
	for _, t := range tips {
		allRefs[fmt.Sprint("refs/heads/b", t)] = x.sha(t)
		wanted = append(wanted, x.sha(t))
	}
	all := bits(1)<<uint(len(h.Nodes)) - 1
	for set := bits(1); set < all; set++ {
		// down-closed?
		ok := true
		refs := map[string]string{}
		for i := range h.Nodes {
			if !set.has(i) {
				continue
			}
			ok = ok && x.anc[i]&^set == 0
			tip := true
			for j := i + 1; j < len(h.Nodes); j++ {
				if set.has(j) && x.anc[j].has(i) {
					tip = false
				}
			}
			if tip {
				refs[fmt.Sprint("refs/heads/b", i)] = x.sha(i)
			}
		}
		if !ok {
			continue
		}
		if err := x.r.SetRefs(refs); err != nil {
			return err
		}
		var heads []string
		for k := range refs {
			heads = append(heads, k)
		}
		sort.Strings(heads)
		if err := x.r.SetHead("ref: " + heads[0]); err != nil {
			return err
		}
		cp1 := x.cp()
		if !x.run("first run, all branches of "+names(set), process.Opts{CheckpointsDir: cp1, AllBranches: true}, set) {
			return nil
		}
		w, ok := x.p.B.Where[version(cp1)]
		if !ok {
			c.Fail(unit, "checkpoint after all branches of %s is for commit %q", names(set), version(cp1))
			return nil
		}
		from := w[1]
		if err := x.r.SetRefs(allRefs); err != nil {
			return err
		}
		for _, t := range tips {
			if err := x.r.SetHead("ref: " + fmt.Sprint("refs/heads/b", t)); err != nil {
				return err
			}
			for _, mode := range []int{0, 1, 2} {
				o := process.Opts{CheckpointsDir: x.cp(), AllBranches: true, CommitFromIncl: x.sha(from)}
				want := x.anc[t]
				if mode > 0 {
					o.WantedBranchRefs = wanted
					want = all
				}
				if mode == 2 {
					o.CommitFromMakeNonIncl = true
					want &^= x.anc[from]
				} else {
					want &^= excl(x, from)
				}
				if err := copyDir(cp1, o.CheckpointsDir); err != nil {
					return err
				}
				if !x.run(fmt.Sprintf("first run, all branches of %s, then HEAD n%d from n%d (wanted all: %v, non-inclusive: %v)", names(set), t, from, mode > 0, mode == 2), o, want) {
					return nil
				}
				x.c.Add("traces", 1)
			}
		}
	}
	return nil
}

// guard: every combination of the checkpoint there is and the commit asked for.
func guard(c *eng.Ctx, unit int, h hist.History) error {
	x, err := newIncr(c, unit, h)
	if err != nil {
		return err
	}
	defer x.done()
	n := len(h.Nodes)
	for t1 := -1; t1 < n; t1++ {
		cp1 := x.cp()
		os.MkdirAll(cp1, 0777)
		if t1 >= 0 {
			if err := x.head(t1); err != nil {
				return err
			}
			if !x.run(fmt.Sprintf("first run at n%d", t1), process.Opts{CheckpointsDir: cp1}, x.anc[t1]) {
				return nil
			}
			if version(cp1) != x.sha(t1) {
				c.Fail(unit, "checkpoint of a run at n%d (%s) is for %q", t1, x.sha(t1), version(cp1))
				return nil
			}
		}
		for t2 := 0; t2 < n; t2++ {
			if err := x.head(t2); err != nil {
				return err
			}
			refs := map[string]string{"refs/heads/master": x.sha(t2)}
			if t1 >= 0 {
				refs["refs/tags/have"] = x.sha(t1)
			}
			x.r.SetRefs(refs)
			type ask struct {
				name, commit string
				node         int
			}
			var asks []ask
			for f := 0; f < n; f++ {
				asks = append(asks, ask{fmt.Sprint("n", f), x.sha(f), f})
			}
			if t1 >= 0 {
				asks = append(asks, ask{"an abbreviation", x.sha(t1)[:12], t1}, ask{"upper case", strings.ToUpper(x.sha(t1)), t1}, ask{"a tag", "have", t1})
			}
			for _, a := range asks {
				for _, non := range []bool{false, true} {
					want := x.anc[t2] &^ x.anc[a.node]
					if !non {
						want = x.anc[t2] &^ excl(x, a.node)
					}
					if want == 0 || t1 == a.node && a.commit == x.sha(t1) {
						continue
					}
					what := fmt.Sprintf("checkpoint for n%d, HEAD n%d, from %s (non-inclusive %v)", t1, t2, a.name, non)
					before := readDir(cp1)
					var got []process.Result
					got, err := process.New(process.Opts{RepoDir: x.p.Repo, Logger: hist.Quiet{}, CheckpointsDir: cp1, CommitFromIncl: a.commit, CommitFromMakeNonIncl: non}).RunGetAll()
					c.Add("runs", 1)
					c.Add("traces", 1)
					if err == nil {
						c.Fail(unit, "%s: no error; reports %d commits", what, len(got))
						return nil
					}
					if len(got) != 0 {
						c.Fail(unit, "%s: reports %d commits before the error %v", what, len(got), err)
						return nil
					}
					if s := sameDir(before, readDir(cp1)); s != "" {
						c.Fail(unit, "%s: after the error %v the checkpoint is changed: %s", what, err, s)
						return nil
					}
					c.State("guard", x.sha(n-1), what, errKind(err))
					if t1 < 0 {
						got, err := process.New(process.Opts{RepoDir: x.p.Repo, Logger: hist.Quiet{}, CheckpointsDir: cp1, CommitFromIncl: a.commit, CommitFromMakeNonIncl: non, NoStrictResume: true}).RunGetAll()
						if err == nil || len(got) != 0 {
							c.Fail(unit, "%s without strict resume: reports %d commits, error %v", what, len(got), err)
							return nil
						}
					}
					// without strict resume the checkpoint serves when it has what is needed
					if t1 >= 0 && a.node != t1 && excl(x, a.node)&x.anc[t2]&^x.anc[t1] == 0 && x.anc[a.node]&^x.anc[t1] == 0 {
						cp2 := x.cp()
						if err := copyDir(cp1, cp2); err != nil {
							return err
						}
						if !x.run(what+" without strict resume", process.Opts{CheckpointsDir: cp2, CommitFromIncl: a.commit, CommitFromMakeNonIncl: non, NoStrictResume: true}, want) {
							return nil
						}
					}
				}
			}
			// nothing new: nothing reported, nothing changed
			if t1 >= 0 && x.anc[t1].has(t2) {
				before := readDir(cp1)
				if !x.run(fmt.Sprintf("checkpoint for n%d, HEAD n%d, nothing new", t1, t2), process.Opts{CheckpointsDir: cp1, CommitFromIncl: x.sha(t1), CommitFromMakeNonIncl: true}, 0) {
					return nil
				}
				if s := sameDir(before, readDir(cp1)); s != "" {
					c.Fail(unit, "checkpoint for n%d, HEAD n%d, nothing new: the checkpoint is changed: %s", t1, t2, s)
					return nil
				}
			}
		}
	}
	return nil
}

func errKind(err error) string {
	if err == nil {
		return ""
	}
	if _, ok := err.(repo.ErrCheckpointNotExpected); ok {
		return "not expected"
	}
	s := err.Error()
	if len(s) > 30 {
		s = s[:30]
	}
	return s
}

// each runs f on single histories of a family.
func (x idx) each(name, rule string, f func(c *eng.Ctx, unit int, h hist.History) error) eng.Space {
	return eng.Space{Name: name, Rule: rule + ", for " + x.rule, Size: x.size, Batch: 8, Solo: true,
		Desc: func(i int) string { return hist.Describe(*x.at(i), nil) },
		Exec: func(c *eng.Ctx, units []int) error {
			for _, u := range units {
				if err := f(c, u, *x.at(u)); err != nil {
					return err
				}
			}
			return nil
		}}
}

func slotFamily(o slotOpts) idx {
	s := slotSpace("", o)
	lv := &lazyVectors{f: func(c *Choose) {
		if slotHistory(c, o) == nil {
			c.Prune()
		}
	}}
	return idx{s.Rule, func() int { return len(lv.get()) }, func(i int) *hist.History { return slotHistory(lv.at(i), o) }}
}

func init() {
	eng.Register(eng.Check{ID: "C05", Level: "model_checking", Assume: histAssume, Spaces: func(tier string) []eng.Space {
		deep := tier == "thorough"
		const hr = "every first stop, every second stop (forward or on another branch), every third stop after it, inclusive and not"
		const ar = "every set of branches of the first run, then every HEAD, with and without the other heads"
		hs := func(c *eng.Ctx, u int, h hist.History) error { return headSplits(c, u, h, deep) }
		r := []eng.Space{
			slotFamily(slotOpts{nodes: 4, slots: 1, maxPar: 2, roots: true}).each("stops-slots", hr, hs),
			linearFamily([]string{"f"}, []string{"T1", "T1x", "U", "E", "B1", "L"}, 3).each("stops-kinds", hr, hs),
			linearFamily([]string{"f", "g"}, []string{"T1", "T2", "B1"}, 2).each("stops-two-paths", hr, hs),
			mergeFamily([]string{"f"}, []string{"T1", "T2", "B1"}, 2).each("stops-merges", hr, hs), repeatFamily([]string{"f"}, []string{"T1", "T2"}).each("stops-repeated", hr, hs),
			slotFamily(slotOpts{nodes: 4, slots: 1, maxPar: 2}).each("branches-slots", ar, allSplits),
			slotFamily(slotOpts{nodes: 3, slots: 1, maxPar: 2, roots: true, common: true}).each("branches-slots-3", ar, allSplits),
		}
		if deep {
			r = append(r,
				slotFamily(slotOpts{nodes: 4, slots: 1, maxPar: 3, roots: true, del: true, common: true}).each("stops-slots-deep", hr, hs),
				slotFamily(slotOpts{nodes: 5, slots: 1, maxPar: 2}).each("branches-slots-5", ar, allSplits),
				linearFamily([]string{"f"}, []string{"T1", "T2", "T1x", "U", "E", "Ex", "B1", "B2", "BT", "L", "S"}, 3).each("stops-kinds-deep", hr, hs),
				mergeFamily([]string{"f", "g"}, []string{"T1", "E"}, 2).each("stops-merges-two", hr, hs))
		}
		return r
	}})
	eng.Register(eng.Check{ID: "C06", Level: "model_checking", Assume: histAssume, Spaces: func(tier string) []eng.Space {
		const gr = "no checkpoint and the checkpoint of every commit, times every HEAD, every commit asked for (and other spellings of the right one), inclusive and not"
		r := []eng.Space{
			slotFamily(slotOpts{nodes: 4, slots: 1, maxPar: 2}).each("guard", gr, guard),
			slotFamily(slotOpts{nodes: 3, slots: 1, maxPar: 2, roots: true, del: true, common: true}).each("guard-3", gr, guard),
		}
		if tier == "thorough" {
			r = append(r, slotFamily(slotOpts{nodes: 5, slots: 1, maxPar: 2}).each("guard-5", gr, guard))
		}
		return r
	}})
}
