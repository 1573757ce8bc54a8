package props

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"sort"
	"strings"

	"verif/mc/eng"
	"verif/mc/gitx"
	"verif/mc/hist"

	"github.com/pinpt/ripsrc/ripsrc/branches2"
	"github.com/pinpt/ripsrc/ripsrc/commitmeta"
	"github.com/pinpt/ripsrc/ripsrc/history3/process"
	"github.com/pinpt/ripsrc/ripsrc/parentsgraph"
)

var refKinds = []string{"refs/heads/%s", "refs/tags/%s", "annotated", "refs/remotes/origin/%s", "refs/pull/%s/head", "refs/notes/%s"}

type scopeUnit struct {
	parents  [][]int
	kinds    []int // per node, -1: no ref
	head     int
	detached bool
	clock    int
}

func (u scopeUnit) String() string {
	var b strings.Builder
	for i, p := range u.parents {
		k := "no ref"
		if u.kinds[i] >= 0 {
			k = refKinds[u.kinds[i]]
		}
		fmt.Fprintf(&b, "n%d parents=%v %s\n", i, p, k)
	}
	fmt.Fprintf(&b, "HEAD at n%d, detached %v, clock %d", u.head, u.detached, u.clock)
	return b.String()
}

// genScope: mixed chooses the kind of each ref on its own.
func genScope(c *Choose, n, max int, mixed bool) scopeUnit {
	u := scopeUnit{}
	k := c.Pick(len(refKinds))
	if mixed && k > 0 {
		c.Prune()
	}
	for i := 0; i < n; i++ {
		u.parents = append(u.parents, pickParents(c, i, max, true))
		x := -1
		if mixed {
			x = c.Pick(len(refKinds)+1) - 1
		} else if c.Bool() {
			x = k
		}
		u.kinds = append(u.kinds, x)
	}
	if max < 0 && !repeated(u.parents) {
		c.Prune()
	}
	u.head = c.Pick(n)
	u.detached = c.Bool()
	u.clock = (k + u.head) % 3
	return u
}

func (u scopeUnit) history() hist.History {
	h := hist.History{}
	for i, p := range u.parents {
		n := hist.Node{Parents: p, Tree: one(fmt.Sprint("l", i, "\n"))}
		switch u.clock {
		case 1:
			n.Time = 5
		case 2:
			n.Time = int64(len(u.parents) - i)
		}
		h.Nodes = append(h.Nodes, n)
	}
	return h
}

func scopeSpace(name string, n, max int, mixed bool) eng.Space {
	lv := &lazyVectors{f: func(c *Choose) { genScope(c, n, max, mixed) }}
	rule := fmt.Sprintf("every graph of %d commits with %s in every order, every set of commits that have a ref of a kind (branch, tag, annotated tag, remote, pull request, notes), HEAD on a branch or detached at every commit; clocks that rise, stand still and fall", n, upTo(max))
	if mixed {
		rule += "; kinds mixed"
	}
	return eng.Space{Name: name, Rule: rule, Size: func() int { return len(lv.get()) }, Batch: 40,
		Desc: func(i int) string { return genScope(lv.at(i), n, max, mixed).String() },
		Exec: func(c *eng.Ctx, units []int) error {
			for _, un := range units {
				if err := runScope(c, un, genScope(lv.at(un), n, max, mixed)); err != nil {
					return err
				}
			}
			return nil
		}}
}

func runScope(c *eng.Ctx, unit int, u scopeUnit) error {
	dir := scratch(c)
	defer os.RemoveAll(dir)
	h := u.history()
	b := hist.Build([]hist.History{h})
	shas := b.SHA[0]
	tags := map[int]string{}
	for i, k := range u.kinds {
		if k == 2 {
			tags[i] = b.Store.Tag(shas[i], fmt.Sprint("t", i))
		}
	}
	r, err := b.WriteRepo(filepath.Join(dir, "r"))
	if err != nil {
		return err
	}
	refs := map[string]string{}
	anc := ancestors(h)
	all, one := bits(0), anc[u.head]
	for i, k := range u.kinds {
		if k < 0 {
			continue
		}
		all |= anc[i]
		if k == 2 {
			refs[fmt.Sprint("refs/tags/t", i)] = tags[i]
			continue
		}
		refs[strings.Replace(refKinds[k], "%s", fmt.Sprint("n", i), 1)] = shas[i]
	}
	if u.detached {
		err = r.SetHead(shas[u.head])
	} else {
		refs["refs/heads/main"] = shas[u.head]
		err = r.SetHead("ref: refs/heads/main")
	}
	if err != nil {
		return err
	}
	all |= one
	if err := r.SetRefs(refs); err != nil {
		return err
	}
	c.State(u.String())
	c.Add("traces", 1)
	for _, ab := range []bool{false, true} {
		want := one
		if ab {
			want = all
		}
		checkScope(c, unit, r, b, h, want, ab, filepath.Join(dir, fmt.Sprint("cp", ab)))
		if c.Failed() {
			return nil
		}
	}
	return nil
}

func checkScope(c *eng.Ctx, unit int, r *gitx.Repo, b *hist.Built, h hist.History, want bits, ab bool, cp string) {
	shas := b.SHA[0]
	what := fmt.Sprintf("all branches %v", ab)
	wantP := map[string][]string{}
	wantC := map[string][]string{}
	for i, n := range h.Nodes {
		if !want.has(i) {
			continue
		}
		var ps []string
		for _, p := range n.Parents {
			ps = append(ps, shas[p])
			wantC[shas[p]] = append(wantC[shas[p]], shas[i])
		}
		wantP[shas[i]] = ps
		if wantC[shas[i]] == nil {
			wantC[shas[i]] = nil
		}
	}
	// a child is one child, however often it names its parent
	for k, x := range wantC {
		sort.Strings(x)
		wantC[k] = slices.Compact(x)
	}
	c.Add("transitions", 3)
	g := parentsgraph.New(parentsgraph.Opts{RepoDir: r.Dir, AllBranches: ab, Logger: hist.Quiet{}})
	if err := g.Read(); err != nil {
		c.Fail(unit, "%s: reading the graph fails: %v", what, err)
		return
	}
	if !sameGraph(g.Parents, wantP) {
		c.Fail(unit, "%s: parents in the graph are %v, expected %v", what, g.Parents, wantP)
		return
	}
	for k, x := range g.Children {
		sort.Strings(x)
		g.Children[k] = slices.Compact(x)
	}
	if !sameGraph(g.Children, wantC) {
		c.Fail(unit, "%s: children in the graph are %v, expected %v", what, g.Children, wantC)
		return
	}
	seen := bits(0)
	res, err := process.New(process.Opts{RepoDir: r.Dir, Logger: hist.Quiet{}, CheckpointsDir: cp, AllBranches: ab}).RunGetAll()
	if err != nil {
		c.Fail(unit, "%s: processing fails: %v", what, err)
		return
	}
	for _, x := range res {
		w, ok := b.Where[x.Commit]
		if !ok || seen.has(w[1]) {
			c.Fail(unit, "%s: blame: commit %s (%v) does not exist or comes twice", what, x.Commit, w)
			return
		}
		for _, p := range h.Nodes[w[1]].Parents {
			if !seen.has(p) {
				c.Fail(unit, "%s: blame: commit n%d comes before its parent n%d", what, w[1], p)
				return
			}
		}
		seen |= 1 << uint(w[1])
		if l := strings.TrimSpace(h.Nodes[w[1]].Tree["f"].Data); x.Files["f"] == nil || len(x.Files["f"].Lines) != 1 || string(x.Files["f"].Lines[0].Line) != l || x.Files["f"].Lines[0].Commit != x.Commit {
			c.Fail(unit, "%s: blame: n%d does not have its file with the line %s", what, w[1], l)
			return
		}
	}
	if seen != want {
		c.Fail(unit, "%s: blame covers %s, expected %s", what, names(seen), names(want))
		return
	}
	ms, err := commitmeta.New(r.Dir, commitmeta.Opts{AllBranches: ab}).RunSlice()
	if err != nil {
		c.Fail(unit, "%s: reading metadata fails: %v", what, err)
		return
	}
	seen = 0
	for _, x := range ms {
		w, ok := b.Where[x.SHA]
		if !ok || seen.has(w[1]) {
			c.Fail(unit, "%s: metadata: commit %s (%v) does not exist or comes twice", what, x.SHA, w)
			return
		}
		seen |= 1 << uint(w[1])
		if strings.Join(x.Parents, " ") != strings.Join(wantP[x.SHA], " ") {
			c.Fail(unit, "%s: metadata: parents of n%d are %v, expected %v", what, w[1], x.Parents, wantP[x.SHA])
			return
		}
	}
	if seen != want {
		c.Fail(unit, "%s: metadata covers %s, expected %s", what, names(seen), names(want))
	}
}

func sameGraph(a, b map[string][]string) bool {
	norm := func(m map[string][]string) map[string]string {
		r := map[string]string{}
		for k, v := range m {
			r[k] = strings.Join(v, " ")
		}
		return r
	}
	return reflect.DeepEqual(norm(a), norm(b))
}

// wideSpace: merges with many parents.
func wideSpace(counts []int) eng.Space {
	mk := func(i int) hist.History {
		h := hist.History{Nodes: []hist.Node{{Tree: one("l0\n")}}}
		m := hist.Node{Tree: one("m\n")}
		for k := 1; k <= counts[i]; k++ {
			h.Nodes = append(h.Nodes, hist.Node{Parents: []int{0}, Tree: one(fmt.Sprint("l", k, "\n"))})
			m.Parents = append(m.Parents, k)
		}
		h.Nodes = append(h.Nodes, m)
		return h
	}
	return eng.Space{Name: "wide", Rule: fmt.Sprintf("one merge of n commits, n in %v", counts), Size: func() int { return len(counts) }, Batch: 1,
		Desc: func(i int) string { return fmt.Sprintf("a merge of %d commits", counts[i]) },
		Exec: func(c *eng.Ctx, units []int) error {
			for _, un := range units {
				h := mk(un)
				dir := scratch(c)
				defer os.RemoveAll(dir)
				b := hist.Build([]hist.History{h})
				r, err := b.WriteRepo(filepath.Join(dir, "r"))
				if err != nil {
					return err
				}
				want := map[string][]string{}
				for i, n := range h.Nodes {
					var ps []string
					for _, p := range n.Parents {
						ps = append(ps, b.SHA[0][p])
					}
					want[b.SHA[0][i]] = ps
				}
				c.State("wide", counts[un])
				c.Add("traces", 1)
				c.Add("transitions", len(h.Nodes))
				g := parentsgraph.New(parentsgraph.Opts{RepoDir: r.Dir, Logger: hist.Quiet{}})
				if err := g.Read(); err != nil || !sameGraph(g.Parents, want) {
					c.Fail(un, "graph of a merge of %d commits is wrong (%v): %d commits", counts[un], err, len(g.Parents))
				}
				res, err := process.New(process.Opts{RepoDir: r.Dir, Logger: hist.Quiet{}, CheckpointsDir: filepath.Join(dir, "cp")}).RunGetAll()
				if err != nil || len(res) != len(h.Nodes) {
					c.Fail(un, "processing a merge of %d commits: %d commits, error %v", counts[un], len(res), err)
				}
				ms, err := commitmeta.New(r.Dir, commitmeta.Opts{}).RunSlice()
				if err != nil || len(ms) != len(h.Nodes) {
					c.Fail(un, "metadata of a merge of %d commits: %d commits, error %v", counts[un], len(ms), err)
				}
			}
			return nil
		}}
}

// longSpace: many commits, in a line or as a ladder of merges.
func longGraphs(counts []int) eng.Space {
	kinds := []string{"line", "ladder", "two lines"}
	mk := func(i int) hist.History {
		h := hist.History{}
		for k := 0; k < counts[i/len(kinds)]; k++ {
			n := hist.Node{Tree: gitx.Tree{}}
			switch {
			case k == 0:
			case kinds[i%len(kinds)] == "line" || k < 3:
				n.Parents = []int{k - 1}
			case kinds[i%len(kinds)] == "ladder": // merge, left, right, merge ...
				n.Parents = [][]int{{k - 2, k - 1}, {k - 1}, {k - 2}}[k%3]
			case k == counts[i/len(kinds)]-1:
				n.Parents = []int{k - 1, k - 2}
			default:
				n.Parents = []int{k - 2}
			}
			h.Nodes = append(h.Nodes, n)
		}
		return h
	}
	return eng.Space{Name: "long", Rule: fmt.Sprintf("histories of %v commits: each of %q", counts, kinds), Size: func() int { return len(counts) * len(kinds) }, Batch: 1, Solo: true,
		Desc: func(i int) string { return fmt.Sprintf("%s of %d commits", kinds[i%len(kinds)], counts[i/len(kinds)]) },
		Exec: func(c *eng.Ctx, units []int) error {
			for _, un := range units {
				h := mk(un)
				dir := scratch(c)
				defer os.RemoveAll(dir)
				b := hist.Build([]hist.History{h})
				r, err := b.WriteRepo(filepath.Join(dir, "r"))
				if err != nil {
					return err
				}
				want := map[string][]string{}
				for i, n := range h.Nodes {
					var ps []string
					for _, p := range n.Parents {
						ps = append(ps, b.SHA[0][p])
					}
					want[b.SHA[0][i]] = ps
				}
				c.State("long", un)
				c.Add("traces", 1)
				c.Add("transitions", len(h.Nodes))
				g := parentsgraph.New(parentsgraph.Opts{RepoDir: r.Dir, Logger: hist.Quiet{}, AllBranches: true})
				if err := g.Read(); err != nil || !sameGraph(g.Parents, want) {
					c.Fail(un, "graph of %s is wrong (%v): %d commits", kinds[un%len(kinds)], err, len(g.Parents))
				}
				ms, err := commitmeta.New(r.Dir, commitmeta.Opts{}).RunSlice()
				if err != nil || len(ms) != len(h.Nodes) {
					c.Fail(un, "metadata of %d commits: %d commits, error %v", len(h.Nodes), len(ms), err)
					continue
				}
				seen := map[string]bool{}
				for i, m := range ms {
					ps, ok := want[m.SHA]
					if !ok || seen[m.SHA] || m.Ordinal != int64(i+1) || strings.Join(ps, " ") != strings.Join(m.Parents, " ") {
						c.Fail(un, "commit number %d of the metadata is %s, ordinal %d, parents %v, expected %v", i, m.SHA, m.Ordinal, m.Parents, ps)
						break
					}
					for _, p := range ps {
						if !seen[p] {
							c.Fail(un, "commit number %d comes before its parent", i)
						}
					}
					seen[m.SHA] = true
				}
				bs, err := branches2.New(branches2.Opts{RepoDir: r.Dir, Logger: hist.Quiet{}, CommitGraph: g, PullRequestsOnly: true, PullRequestSHAs: []string{b.SHA[0][0], b.SHA[0][len(h.Nodes)-1]}}).RunSlice(context.Background())
				if err != nil || len(bs) != 2 {
					c.Fail(un, "branches of %d commits: %d, error %v", len(h.Nodes), len(bs), err)
				}
			}
			return nil
		}}
}

// cutUnit is a repository that shows a history with other parents than the commits have.
type cutUnit struct {
	parents [][]int
	kind    string
	cut     bits  // shallow commits
	node    int   // commit with other parents
	other   []int // its parents
	head    int
}

func (u cutUnit) String() string {
	return fmt.Sprintf("parents %v, HEAD n%d, %s: commits %s, n%d gets parents %v", u.parents, u.head, u.kind, names(u.cut), u.node, u.other)
}

func genCut(c *Choose, n int) cutUnit {
	u := cutUnit{}
	for i := 0; i < n; i++ {
		u.parents = append(u.parents, pickParents(c, i, 2, true))
	}
	u.head = c.Pick(n)
	u.kind = []string{"shallow", "grafts", "replace"}[c.Pick(3)]
	if u.kind == "shallow" {
		u.cut = bits(1 + c.Pick(1<<uint(n)-1))
		return u
	}
	u.node = c.Pick(n)
	u.other = pickParents(c, u.node, 2, true)
	return u
}

func cutSpace(name string, n int) eng.Space {
	lv := &lazyVectors{f: func(c *Choose) { genCut(c, n) }}
	return eng.Space{Name: name, Rule: fmt.Sprintf("every graph of %d commits, HEAD at every commit, with every set of shallow commits, or one commit that is given any other parents by a grafts file or a replacement", n), Size: func() int { return len(lv.get()) }, Batch: 20,
		Desc: func(i int) string { return genCut(lv.at(i), n).String() },
		Exec: func(c *eng.Ctx, units []int) error {
			for _, un := range units {
				if err := runCut(c, un, genCut(lv.at(un), n)); err != nil {
					return err
				}
			}
			return nil
		}}
}

func runCut(c *eng.Ctx, unit int, u cutUnit) error {
	dir := scratch(c)
	defer os.RemoveAll(dir)
	h := scopeUnit{parents: u.parents}.history()
	if u.kind == "replace" {
		h.Nodes = append(h.Nodes, hist.Node{Parents: u.other, Tree: one("other\n")})
	}
	b := hist.Build([]hist.History{h})
	r, err := b.WriteRepo(filepath.Join(dir, "r"))
	if err != nil {
		return err
	}
	shas := b.SHA[0]
	refs := map[string]string{"refs/heads/main": shas[u.head], fmt.Sprint("refs/tags/n", len(u.parents)-1): shas[len(u.parents)-1]}
	switch u.kind {
	case "shallow":
		var l []string
		for i := range u.parents {
			if u.cut.has(i) {
				l = append(l, shas[i]+"\n")
				h.Nodes[i].Parents = nil
			}
		}
		sort.Strings(l)
		err = os.WriteFile(filepath.Join(r.Dir, ".git", "shallow"), []byte(strings.Join(l, "")), 0666)
	case "grafts":
		l := shas[u.node]
		for _, p := range u.other {
			l += " " + shas[p]
		}
		h.Nodes[u.node].Parents = u.other
		os.MkdirAll(filepath.Join(r.Dir, ".git", "info"), 0777)
		err = os.WriteFile(filepath.Join(r.Dir, ".git", "info", "grafts"), []byte(l+"\n"), 0666)
	case "replace":
		refs["refs/replace/"+shas[u.node]] = shas[len(u.parents)]
		h.Nodes[u.node] = hist.Node{Parents: u.other, Tree: one("other\n")}
	}
	if err != nil {
		return err
	}
	if err := r.SetHead("ref: refs/heads/main"); err != nil {
		return err
	}
	if err := r.SetRefs(refs); err != nil {
		return err
	}
	c.State(u.String())
	c.Add("traces", 1)
	anc := ancestors(h)
	head := anc[u.head]
	all := head | anc[len(u.parents)-1]
	if u.kind == "replace" {
		all |= anc[len(u.parents)]
	}
	for _, ab := range []bool{false, true} {
		want := head
		if ab {
			want = all
		}
		checkScope(c, unit, r, b, h, want, ab, filepath.Join(dir, fmt.Sprint("cp", ab)))
		if c.Failed() {
			return nil
		}
	}
	return nil
}

func init() {
	eng.Register(eng.Check{ID: "C11", Level: "model_checking", Assume: []string{"with all branches, every ref counts, as in git log --all"}, Spaces: func(tier string) []eng.Space {
		r := []eng.Space{scopeSpace("refs", 3, 2, false), scopeSpace("refs-repeated", 3, -2, false), cutSpace("cut", 3), wideSpace([]int{1, 2, 3, 4, 8, 15, 16, 17, 50}), longGraphs([]int{301, 70000})}
		if tier == "thorough" {
			r = []eng.Space{scopeSpace("refs", 3, 2, false), scopeSpace("refs-4", 4, 2, false), scopeSpace("refs-mixed", 3, 2, true), scopeSpace("refs-repeated", 3, -3, false), cutSpace("cut", 3), cutSpace("cut-4", 4), wideSpace([]int{1, 2, 3, 4, 8, 15, 16, 17, 31, 32, 33, 50, 100, 200, 500}), longGraphs([]int{301, 70000, 300001})}
		}
		return r
	}})
}
