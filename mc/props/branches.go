package props

import (
	"context"
	"crypto/sha1"
	"crypto/sha256"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"

	"verif/mc/eng"
	"verif/mc/gitx"
	"verif/mc/hist"

	"github.com/pinpt/ripsrc/ripsrc"
	"github.com/pinpt/ripsrc/ripsrc/branches2"
	"github.com/pinpt/ripsrc/ripsrc/branchmeta"
	"github.com/pinpt/ripsrc/ripsrc/parentsgraph"
)

// dag is a commit graph by name.
type dag map[string][]string

func (g dag) reach(from string, stop string) map[string]bool {
	r := map[string]bool{}
	todo := []string{from}
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if r[x] {
			continue
		}
		r[x] = true
		if x != stop {
			todo = append(todo, g[x]...)
		}
	}
	return r
}

// wantBranch is the expected relation of a branch head to the default head.
type wantBranch struct {
	commits, from map[string]bool
	merged        bool
	behind        int // -1: open
	mergeCommit   map[string]bool
}

func (g dag) branch(def map[string]bool, defHead, head string) wantBranch {
	w := wantBranch{commits: map[string]bool{}, from: map[string]bool{}, mergeCommit: map[string]bool{}}
	rb := g.reach(head, "")
	w.merged = def[head]
	base := def
	if w.merged {
		base = g.reach(defHead, head)
	}
	for x := range rb {
		if x == head || !base[x] {
			w.commits[x] = true
		}
	}
	cand := map[string]bool{}
	for x := range w.commits {
		for _, p := range g[x] {
			if base[p] {
				cand[p] = true
			}
		}
	}
	for x := range cand {
		min := true
		for y := range g.reach(x, "") {
			if y != x && cand[y] {
				min = false
			}
		}
		if min {
			w.from[x] = true
		}
	}
	if w.merged {
		for x := range def {
			for _, p := range g[x] {
				if p == head {
					w.mergeCommit[x] = true
				}
			}
		}
		if len(w.mergeCommit) == 0 {
			w.mergeCommit[""] = true
		}
		return w
	}
	w.mergeCommit[""] = true
	common := false
	for x := range def {
		if rb[x] {
			common = true
		} else {
			w.behind++
		}
	}
	if !common {
		w.behind = -1
	}
	return w
}

func setOf(a []string) map[string]bool {
	r := map[string]bool{}
	for _, x := range a {
		r[x] = true
	}
	return r
}

func sameSet(got []string, want map[string]bool) bool {
	m := setOf(got)
	if len(m) != len(got) || len(m) != len(want) {
		return false
	}
	for x := range m {
		if !want[x] {
			return false
		}
	}
	return true
}

func compareBranch(g dag, w wantBranch, b branches2.Branch) string {
	if !sameSet(b.Commits, w.commits) {
		return fmt.Sprintf("commits are %v, expected %v", b.Commits, hist.Keys(w.commits))
	}
	if b.Commits[len(b.Commits)-1] != b.HeadSHA {
		return fmt.Sprintf("last of the commits %v is not the head", b.Commits)
	}
	if b.FirstCommit != b.Commits[0] {
		return fmt.Sprintf("first commit is %s, commits are %v", b.FirstCommit, b.Commits)
	}
	// a line of commits comes oldest first
	line := true
	for _, x := range b.Commits {
		n := 0
		for p := range setOf(g[x]) {
			if w.commits[p] {
				n++
			}
		}
		line = line && n < 2
	}
	if line {
		for i := 1; i < len(b.Commits); i++ {
			if !setOf(g[b.Commits[i]])[b.Commits[i-1]] {
				return fmt.Sprintf("commits %v are not in order", b.Commits)
			}
		}
	}
	if b.AheadDefaultCount != len(w.commits) {
		return fmt.Sprintf("ahead count is %d with %d commits", b.AheadDefaultCount, len(w.commits))
	}
	if !sameSet(b.BranchedFromCommits, w.from) {
		return fmt.Sprintf("branched from %v, expected %v", b.BranchedFromCommits, hist.Keys(w.from))
	}
	if b.IsMerged != w.merged {
		return fmt.Sprintf("merged is %v", b.IsMerged)
	}
	if !w.mergeCommit[b.MergeCommit] {
		return fmt.Sprintf("merge commit is %q, expected one of %q", b.MergeCommit, hist.Keys(w.mergeCommit))
	}
	if w.behind >= 0 && b.BehindDefaultCount != w.behind {
		return fmt.Sprintf("behind count is %d, expected %d", b.BehindDefaultCount, w.behind)
	}
	if b.IsDefault {
		return "it is the default branch"
	}
	id := ""
	if b.Name != "" {
		s := b.Name
		if len(b.BranchedFromCommits) > 0 {
			s += b.BranchedFromCommits[0]
		}
		id = fmt.Sprintf("%x", sha256.Sum256([]byte(s)))
	}
	if b.BranchID != id {
		return fmt.Sprintf("branch id is %q, expected %q", b.BranchID, id)
	}
	if b.IsPullRequest != (b.Name == "") {
		return fmt.Sprintf("pull request is %v, name %q", b.IsPullRequest, b.Name)
	}
	return ""
}

// theHeadRepo is a repository with one commit.
func theHeadRepo(c *eng.Ctx) (string, string, error) {
	d := filepath.Join(c.Dir, "headrepo")
	b := hist.Build([]hist.History{{Nodes: []hist.Node{{Tree: one("x\n")}}}})
	if _, err := os.Stat(d); err == nil {
		return d, b.SHA[0][0], nil
	}
	_, err := b.WriteRepo(d)
	return d, b.SHA[0][0], err
}

type dagUnit struct {
	parents [][]int
	def     int
}

func (u dagUnit) String() string {
	var b strings.Builder
	for i, p := range u.parents {
		fmt.Fprintf(&b, "n%d parents=%v\n", i, p)
	}
	fmt.Fprintf(&b, "default head n%d", u.def)
	return b.String()
}

func genDag(c *Choose, n, max int, ordered bool) dagUnit {
	u := dagUnit{}
	for i := 0; i < n; i++ {
		p := pickParents(c, i, max, true)
		if !ordered && !sort.IntsAreSorted(p) {
			c.Prune()
		}
		u.parents = append(u.parents, p)
	}
	if max < 0 && !repeated(u.parents) {
		c.Prune()
	}
	u.def = c.Pick(n)
	return u
}

// runDags asks for all nodes of several graphs, every one as a pull request.
// The default head is the real HEAD: a node of the graph itself, or with
// several graphs, a commit that joins their default heads.
func runDags(c *eng.Ctx, units []int, us []dagUnit) error {
	return runDagHeads(c, units, us, nil)
}

// runDagHeads: heads, if any, are the nodes asked for.
func runDagHeads(c *eng.Ctx, units []int, us []dagUnit, heads []int) error {
	dir, head, err := theHeadRepo(c)
	if err != nil {
		return err
	}
	g := dag{}
	type at struct{ u, n int }
	where := map[string]at{}
	var prs []string
	if len(us) > 1 {
		g[head] = nil
	}
	for k, u := range us {
		name := func(i int) string {
			if len(us) == 1 && i == u.def {
				return head
			}
			return fmt.Sprintf("%x", sha1.Sum([]byte(fmt.Sprint(units[k], " ", i))))
		}
		for i, ps := range u.parents {
			var r []string
			for _, p := range ps {
				r = append(r, name(p))
			}
			g[name(i)] = r
			if heads != nil && !slices.Contains(heads, i) {
				continue
			}
			where[name(i)] = at{k, i}
			prs = append(prs, name(i))
			if i%2 == 0 {
				prs = append(prs, name(i))
			}
		}
		if len(us) > 1 {
			g[head] = append(g[head], name(u.def))
		}
	}
	prs = append(prs, strings.Repeat("0", 40))
	gr := map[string][]string{}
	for k, v := range g {
		gr[k] = append([]string(nil), v...)
	}
	res, err := branches2.New(branches2.Opts{Logger: hist.Quiet{}, RepoDir: dir, CommitGraph: parentsgraph.NewFromMap(gr), PullRequestSHAs: prs, PullRequestsOnly: true}).RunSlice(context.Background())
	if err != nil {
		return err
	}
	def := g.reach(head, "")
	seen := map[string]bool{}
	for _, b := range res {
		w, ok := where[b.HeadSHA]
		if !ok {
			c.Fail(units[0], "a branch with head %q that was not asked for", b.HeadSHA)
			continue
		}
		if seen[b.HeadSHA] {
			c.Fail(units[w.u], "head n%d is reported twice", w.n)
			continue
		}
		seen[b.HeadSHA] = true
		want := g.branch(def, head, b.HeadSHA)
		c.Add("transitions", 1)
		c.State(us[w.u].String(), w.n, want.merged, want.behind)
		if s := compareBranch(g, want, b); s != "" {
			c.Fail(units[w.u], "branch n%d (%s): %.2000s; graph %.3000s, HEAD %s", w.n, b.HeadSHA, s, fmt.Sprint(map[string][]string(g)), head)
		}
	}
	for h, w := range where {
		if !seen[h] {
			c.Fail(units[w.u], "head n%d is not reported", w.n)
		}
	}
	c.Add("traces", len(us))
	return nil
}

func dagSpace(name string, n, max int, ordered bool, batch int) eng.Space {
	lv := &lazyVectors{f: func(c *Choose) { genDag(c, n, max, ordered) }}
	rule := fmt.Sprintf("every graph of %d commits with %s each (order of parents: %v), times every commit as default head; all commits asked for as branch heads", n, upTo(max), ordered)
	if batch > 1 {
		rule += fmt.Sprintf("; up to %d graphs at a time, joined by one default head", batch)
	}
	return eng.Space{Name: name, Rule: rule, Size: func() int { return len(lv.get()) }, Batch: 120,
		Desc: func(i int) string { return genDag(lv.at(i), n, max, ordered).String() },
		Exec: func(c *eng.Ctx, units []int) error {
			for a := 0; a < len(units); a += batch {
				b := a + batch
				if b > len(units) {
					b = len(units)
				}
				var us []dagUnit
				for _, u := range units[a:b] {
					us = append(us, genDag(lv.at(u), n, max, ordered))
				}
				if err := runDags(c, units[a:b], us); err != nil {
					return err
				}
			}
			return nil
		}}
}

// realBranches runs the public interface on real repositories.
func realBranches(name string, n, max int) eng.Space {
	lv := &lazyVectors{f: func(c *Choose) { genDag(c, n, max, true) }}
	return eng.Space{Name: name, Rule: fmt.Sprintf("every real repository of %d commits with %s each in every order, times every commit as HEAD; a branch at every commit (local and origin), and pull requests", n, upTo(max)),
		Size: func() int { return len(lv.get()) }, Batch: 20,
		Desc: func(i int) string { return genDag(lv.at(i), n, max, true).String() },
		Exec: func(c *eng.Ctx, units []int) error {
			for _, u := range units {
				if err := runRealBranches(c, u, genDag(lv.at(u), n, max, true)); err != nil {
					return err
				}
			}
			return nil
		}}
}

func runRealBranches(c *eng.Ctx, unit int, u dagUnit) error {
	dir := scratch(c)
	defer os.RemoveAll(dir)
	h := hist.History{}
	for i, p := range u.parents {
		h.Nodes = append(h.Nodes, hist.Node{Parents: p, Tree: one("x\n"), Time: int64(1 + (i*7+unit)%5)})
	}
	b := hist.Build([]hist.History{h})
	r, err := b.WriteRepo(dir)
	if err != nil {
		return err
	}
	g := dag{}
	for i, p := range u.parents {
		var ps []string
		for _, q := range p {
			ps = append(ps, b.SHA[0][q])
		}
		g[b.SHA[0][i]] = ps
	}
	head := b.SHA[0][u.def]
	def := g.reach(head, "")
	for _, origin := range []bool{false, true} {
		prefix := "refs/heads/"
		if origin {
			prefix = "refs/remotes/origin/"
		}
		refs := map[string]string{"refs/heads/main": head, "refs/remotes/origin/main": head}
		for i := range u.parents {
			refs[fmt.Sprint(prefix, "b", i)] = b.SHA[0][i]
		}
		if err := r.SetRefs(refs); err != nil {
			return err
		}
		if err := r.SetHead("ref: refs/heads/main"); err != nil {
			return err
		}
		pr := b.SHA[0][unit%len(u.parents)]
		res, err := ripsrc.New(ripsrc.Opts{RepoDir: dir, Logger: hist.Quiet{}, AllBranches: true, BranchesUseOrigin: origin, PullRequestSHAs: []string{pr, pr, strings.Repeat("1", 40)}}).BranchesSlice(context.Background())
		if err != nil {
			c.Fail(unit, "listing branches fails: %v", err)
			return nil
		}
		seen := map[string]bool{}
		for _, x := range res {
			key := x.Name
			if x.IsPullRequest {
				key = "pr:" + x.HeadSHA
			}
			if seen[key] {
				c.Fail(unit, "%s is reported twice", key)
			}
			seen[key] = true
			if x.IsDefault {
				roots := map[string]bool{}
				for y := range def {
					if len(g[y]) == 0 {
						roots[y] = true
					}
				}
				if x.Name != "main" || x.HeadSHA != head || !sameSet(x.Commits, def) || x.Commits[len(x.Commits)-1] != head || !roots[x.FirstCommit] ||
					x.IsPullRequest || x.IsMerged || x.BehindDefaultCount != 0 || x.BranchID != fmt.Sprintf("%x", sha256.Sum256([]byte("main"))) {
					c.Fail(unit, "default branch is %+v, expected commits %v", x, hist.Keys(def))
				}
				continue
			}
			want := head
			if x.IsPullRequest {
				want = pr
			} else {
				var k int
				if _, err := fmt.Sscanf(x.Name, "b%d", &k); err != nil || k >= len(u.parents) {
					c.Fail(unit, "unexpected branch %q", x.Name)
					continue
				}
				want = b.SHA[0][k]
			}
			if x.HeadSHA != want {
				c.Fail(unit, "head of %s is %s, expected %s", key, x.HeadSHA, want)
				continue
			}
			if s := compareBranch(g, g.branch(def, head, want), x); s != "" {
				c.Fail(unit, "branch %s: %s", key, s)
			}
		}
		for i := range u.parents {
			if !seen[fmt.Sprint("b", i)] {
				c.Fail(unit, "branch b%d is missing", i)
			}
		}
		if !seen["main"] || !seen["pr:"+pr] || len(seen) != len(u.parents)+2 {
			c.Fail(unit, "reported branches are %v", hist.Keys(seen))
		}
		c.Add("transitions", len(res))
	}
	c.Add("traces", 1)
	c.State(u.String())
	return nil
}

// C10: which branches are listed.

var refNames = []string{"master", "HEAD", "origin/master", "heads/master", "a->b", "\xc3\xa9 x"[:2], "refs/heads/master", "origin", "x;y'\"$(z)", "tags/v1", "main/x", "-d", "x/HEAD", "HEAD/x", "Master", "master2", "@", "0123456789012345678901234567890123456789", "\xe5\x88\x86\xe6\x94\xaf"}

type listUnit struct {
	def, other        int
	otherIn           int // bits: heads, tags, origin, another remote
	defTag, defOrigin bool
	symHead, loose    bool
}

var listPlaces = []string{"refs/heads/", "refs/tags/", "refs/remotes/origin/", "refs/remotes/fork/"}

func (u listUnit) refs(shas []string) map[string]string {
	r := map[string]string{"refs/heads/" + refNames[u.def]: shas[0]}
	for i, p := range listPlaces {
		if u.otherIn&(1<<uint(i)) != 0 {
			r[p+refNames[u.other]] = shas[1+i]
		}
	}
	if u.defTag {
		r["refs/tags/"+refNames[u.def]] = shas[5]
	}
	if u.defOrigin {
		r["refs/remotes/origin/"+refNames[u.def]] = shas[6]
	}
	return r
}

func genList(c *Choose, names int) listUnit {
	u := listUnit{}
	u.def = c.Pick(names)
	u.other = c.Pick(names)
	u.otherIn = c.Pick(16)
	u.defTag, u.defOrigin, u.symHead = c.Bool(), c.Bool(), c.Bool()
	u.loose = (u.def+u.other+u.otherIn)%2 == 0
	shas := make([]string, 8)
	for i := range shas {
		shas[i] = fmt.Sprint(i)
	}
	if u.def == u.other || refNames[u.def] == "-d" || refNames[u.def] == "HEAD" && u.symHead {
		c.Prune()
	}
	r := hist.Keys(u.refs(shas))
	if u.symHead {
		r = append(r, "refs/remotes/origin/HEAD")
	}
	for i, a := range r {
		for j, b := range r {
			if i != j && (a == b || strings.HasPrefix(b, a+"/")) {
				c.Prune()
			}
		}
	}
	return u
}

func (u listUnit) String() string {
	return fmt.Sprintf("HEAD refs/heads/%s, refs %q, origin/HEAD %v, loose %v", refNames[u.def], u.refs([]string{"c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7"}), u.symHead, u.loose)
}

func listSpace(name string, names int, all bool) eng.Space {
	lv := &lazyVectors{f: func(c *Choose) { genList(c, names) }}
	return eng.Space{Name: name, Rule: fmt.Sprintf("every pair out of %d names (also names that look like other refs) as default branch and as another ref, the other in every subset of heads, tags, origin and another remote; the default also as tag or in origin; with and without origin/HEAD; packed or loose; "+map[bool]string{true: "all four ways of listing", false: "one of the four ways of listing each"}[all], names),
		Size: func() int { return len(lv.get()) }, Batch: 100, Desc: func(i int) string { return genList(lv.at(i), names).String() },
		Exec: listExec(func(c *eng.Ctx, un int, b *hist.Built, dir string) error {
			return runList(c, un, genList(lv.at(un), names), b, dir, all)
		})}
}

// listExec runs units on refs to eight commits in a row; the objects are in base.
func listExec(run func(c *eng.Ctx, un int, b *hist.Built, dir string) error) func(c *eng.Ctx, units []int) error {
	return func(c *eng.Ctx, units []int) error {
		dir := scratch(c)
		defer os.RemoveAll(dir)
		h := hist.History{}
		for i := 0; i < 8; i++ {
			n := hist.Node{Tree: one(fmt.Sprint(i, "\n")), Time: int64(i + 1)}
			id := gitx.Ident{Name: "A", Email: "a", Time: hist.BaseTime + int64(i)*1000, TZ: []string{"+0000", "-0730", "+1400"}[i%3]}
			n.Committer = &id
			if i > 0 {
				n.Parents = []int{i - 1}
			}
			h.Nodes = append(h.Nodes, n)
		}
		b := hist.Build([]hist.History{h})
		if _, err := b.WriteRepo(filepath.Join(dir, "base")); err != nil {
			return err
		}
		for _, un := range units {
			if err := run(c, un, b, dir); err != nil {
				return err
			}
		}
		return nil
	}
}

// storedAs: how a ref can be in the store.
var storedAs = []string{"absent", "loose", "packed", "packed, and loose at a newer commit", "a symbolic ref to the default branch", "a symbolic ref to the next one", "a symbolic ref to nothing"}

// storeSpace: every way of storing a few branches.
func storeSpace(branches int) eng.Space {
	size := 2 * 3
	for i := 0; i < branches; i++ {
		size *= len(storedAs)
	}
	names := []string{"a", "b/c", "z", "a.b"}[:branches]
	mk := func(i int) (prefix string, main int, how []int) {
		prefix = []string{"refs/heads/", "refs/remotes/origin/"}[i%2]
		main = 1 + i/2%3
		i /= 6
		for range names {
			how = append(how, i%len(storedAs))
			i /= len(storedAs)
		}
		return
	}
	desc := func(i int) string {
		prefix, main, how := mk(i)
		s := "refs/heads/m: " + storedAs[main]
		for k, n := range names {
			s += "; " + prefix + n + ": " + storedAs[how[k]]
		}
		return s
	}
	return eng.Space{Name: "stores", Rule: fmt.Sprintf("%d branches in heads or origin, each %s; the default branch loose, packed or both", branches, strings.Join(storedAs, ", or ")),
		Size: func() int { return size }, Batch: 100, Desc: desc,
		Exec: listExec(func(c *eng.Ctx, un int, b *hist.Built, dir string) error {
			d := filepath.Join(dir, fmt.Sprint("r", un))
			defer os.RemoveAll(d)
			prefix, main, how := mk(un)
			shas := b.SHA[0]
			packed, loose, sym := map[string]string{}, map[string]string{}, map[string]string{}
			put := func(ref string, how, k int, next string) {
				switch how {
				case 1:
					loose[ref] = shas[k]
				case 2:
					packed[ref] = shas[k]
				case 3:
					packed[ref] = shas[k+4]
					loose[ref] = shas[k]
				case 4:
					sym[ref] = "refs/heads/m"
				case 5:
					sym[ref] = next
				case 6:
					sym[ref] = "refs/heads/nothing"
				}
			}
			put("refs/heads/m", main, 0, "")
			for k, n := range names {
				next := "refs/tags/t"
				if k+1 < len(names) {
					next = prefix + names[k+1]
				}
				put(prefix+n, how[k], 1+k%3, next)
			}
			packed["refs/tags/t"] = shas[7]
			if _, err := writeRefs(d, dir, packed, loose, sym); err != nil {
				return err
			}
			refs := map[string]string{}
			for _, r := range []map[string]string{packed, loose} {
				for k, v := range r {
					refs[k] = v
				}
			}
			for i := 0; i <= len(names); i++ {
				for k, v := range sym {
					if sha := refs[v]; sha != "" {
						refs[k] = sha
					}
				}
			}
			c.State(desc(un))
			c.Add("traces", 1)
			for k := 0; k < 4; k++ {
				if !checkList(c, un, b, d, refs, "m", k&1 != 0, k&2 != 0, true) {
					return nil
				}
			}
			checkDefault(c, un, d, "m", shas[0])
			return nil
		})}
}

// manyBranches: a great number of branches.
func manyBranches(counts []int) eng.Space {
	at := func(i int) (n int, prefix string, loose bool, def int) {
		n = counts[i/12]
		def = []int{0, n / 2, n - 1}[i%3]
		return n, []string{"refs/heads/", "refs/remotes/origin/"}[i/3%2], i/6%2 == 1, def
	}
	return eng.Space{Name: "many", Rule: fmt.Sprintf("%v branches in heads or origin, packed or loose; the default one is the first, one in the middle or the last", counts),
		Size: func() int { return len(counts) * 12 }, Batch: 2, Desc: func(i int) string { return fmt.Sprint(at(i)) },
		Exec: listExec(func(c *eng.Ctx, un int, b *hist.Built, dir string) error {
			d := filepath.Join(dir, fmt.Sprint("r", un))
			defer os.RemoveAll(d)
			n, prefix, loose, def := at(un)
			shas := b.SHA[0]
			name := func(k int) string { return fmt.Sprintf("b%d/%d", k%7, k) }
			refs := map[string]string{"refs/heads/" + name(def): shas[0]}
			for k := 0; k < n; k++ {
				if k != def {
					refs[prefix+name(k)] = shas[k%8]
				}
			}
			packed, ls := refs, map[string]string{}
			if loose {
				packed, ls = ls, packed
			}
			r, err := writeRefs(d, dir, packed, ls, nil)
			if err != nil {
				return err
			}
			if err := r.SetHead("ref: refs/heads/" + name(def)); err != nil {
				return err
			}
			c.State(fmt.Sprint(at(un)))
			c.Add("traces", 1)
			for k := 0; k < 4; k++ {
				if !checkList(c, un, b, d, refs, name(def), k&1 != 0, k&2 != 0, true) {
					return nil
				}
			}
			checkDefault(c, un, d, name(def), shas[0])
			return nil
		})}
}

func checkDefault(c *eng.Ctx, unit int, d, name, sha string) {
	def, err := branchmeta.GetDefault(context.Background(), d)
	if err != nil || def.Name != name || def.Commit != sha {
		c.Fail(unit, "default branch is %+v (%v), expected %q at %s", def, err, name, sha)
	}
}

// writeRefs makes a repository with the given refs on the objects of base; HEAD is refs/heads/m.
func writeRefs(d, dir string, packed, loose, sym map[string]string) (*gitx.Repo, error) {
	r, err := gitx.InitRepo(d, filepath.Join(dir, "base/.git/objects"))
	if err != nil {
		return nil, err
	}
	if len(packed) != 0 {
		if err := r.SetRefs(packed); err != nil {
			return nil, err
		}
	}
	for k, m := range []map[string]string{loose, sym} {
		for ref, v := range m {
			f := filepath.Join(d, ".git", ref)
			if err := os.MkdirAll(filepath.Dir(f), 0777); err != nil {
				return nil, err
			}
			if err := os.WriteFile(f, []byte([]string{"", "ref: "}[k]+v+"\n"), 0666); err != nil {
				return nil, err
			}
		}
	}
	return r, r.SetHead("ref: refs/heads/m")
}

func runList(c *eng.Ctx, unit int, u listUnit, b *hist.Built, dir string, all bool) error {
	d := filepath.Join(dir, fmt.Sprint("r", unit))
	defer os.RemoveAll(d)
	r, err := gitx.InitRepo(d, filepath.Join(dir, "base/.git/objects"))
	if err != nil {
		return err
	}
	shas := b.SHA[0]
	refs := u.refs(shas)
	if u.loose {
		for k, v := range refs {
			f := filepath.Join(d, ".git", k)
			if err := os.MkdirAll(filepath.Dir(f), 0777); err != nil {
				return err
			}
			if err := os.WriteFile(f, []byte(v+"\n"), 0666); err != nil {
				return err
			}
		}
	} else if err := r.SetRefs(refs); err != nil {
		return err
	}
	if err := r.SetHead("ref: refs/heads/" + refNames[u.def]); err != nil {
		return err
	}
	if u.symHead {
		f := filepath.Join(d, ".git/refs/remotes/origin/HEAD")
		os.MkdirAll(filepath.Dir(f), 0777)
		if err := os.WriteFile(f, []byte("ref: refs/remotes/origin/"+refNames[u.def]+"\n"), 0666); err != nil {
			return err
		}
	}
	c.State(u.String())
	c.Add("traces", 1)
	for k := 0; k < 4; k++ {
		origin, incl := k&1 != 0, k&2 != 0
		if !all && k != int(uint32(unit)*2654435761>>16)&3 {
			continue
		}
		if !checkList(c, unit, b, d, refs, refNames[u.def], origin, incl, all || unit%5 == 0) {
			return nil
		}
	}
	checkDefault(c, unit, d, refNames[u.def], shas[0])
	return nil
}

// checkList: the listing of the branches under heads or origin is what the
// refs say; whole: the branches, too.
func checkList(c *eng.Ctx, unit int, b *hist.Built, d string, refs map[string]string, def string, origin, incl, whole bool) bool {
	prefix := "refs/heads/"
	if origin {
		prefix = "refs/remotes/origin/"
	}
	want := map[string]string{}
	for ref, sha := range refs {
		n := strings.TrimPrefix(ref, prefix)
		if n == ref || !incl && n == def || origin && n == "HEAD" {
			continue
		}
		want[n] = sha
	}
	c.Add("transitions", 1)
	got, err := branchmeta.Get(context.Background(), branchmeta.Opts{Logger: hist.Quiet{}, RepoDir: d, UseOrigin: origin, IncludeDefault: incl})
	if err != nil {
		c.Fail(unit, "listing (origin %v, with default %v) fails: %v", origin, incl, err)
		return false
	}
	have := map[string]string{}
	for i, x := range got {
		if _, dup := have[x.Name]; dup {
			c.Fail(unit, "branch %q is listed twice", x.Name)
		}
		have[x.Name] = x.Commit
		if i > 0 && got[i-1].Name > x.Name {
			c.Fail(unit, "branches are not sorted: %q, %q", got[i-1].Name, x.Name)
		}
		w, ok := b.Where[x.Commit]
		if !ok {
			c.Fail(unit, "branch %q has an unknown commit %q", x.Name, x.Commit)
			continue
		}
		id := b.Hists[0].Nodes[w[1]].Committer
		_, off := x.CommitCommitterTime.Zone()
		if x.CommitCommitterTime.Unix() != id.Time || off != []int{0, -(7*60 + 30) * 60, 14 * 3600}[w[1]%3] {
			c.Fail(unit, "branch %q: committer time is %v, expected %d", x.Name, x.CommitCommitterTime, id.Time)
		}
	}
	if fmt.Sprint(have) != fmt.Sprint(want) {
		c.Fail(unit, "listing (origin %v, with default %v): %q, expected %q", origin, incl, have, want)
	}
	if incl {
		return true
	}
	if !whole {
		return true
	}
	bs, err := ripsrc.New(ripsrc.Opts{RepoDir: d, Logger: hist.Quiet{}, AllBranches: true, BranchesUseOrigin: origin}).BranchesSlice(context.Background())
	if err != nil {
		c.Fail(unit, "branches (origin %v) fail: %v", origin, err)
		return false
	}
	c.Add("transitions", 1)
	have = map[string]string{}
	for _, x := range bs {
		if x.IsDefault {
			if x.Name != def || x.HeadSHA != refs["refs/heads/"+def] {
				c.Fail(unit, "default branch is %q at %s", x.Name, x.HeadSHA)
			}
			continue
		}
		have[x.Name] = x.HeadSHA
	}
	if fmt.Sprint(have) != fmt.Sprint(want) || len(bs) != len(want)+1 {
		c.Fail(unit, "branches (origin %v): %q, expected %q and the default", origin, have, want)
	}
	return true
}

var branchCounts = []int{1, 2, 9, 10, 11, 99, 100, 101, 255, 256, 257, 1000, 1001, 3000}

// longDags: one graph of many commits, branch heads all along it.
func longDags(counts []int) eng.Space {
	kinds := []string{"line, default at the end", "line, default at the start", "ladder, default at the end", "ladder, default at the start", "two lines from one commit", "two lines, merged every tenth commit into the default", "many merges of the default into the branch"}
	mk := func(i int) (u dagUnit, heads []int) {
		n, k := counts[i/len(kinds)], i%len(kinds)
		for x := 0; x < n; x++ {
			var p []int
			switch {
			case x == 0:
			case k < 2 || x < 3:
				p = []int{x - 1}
			case k < 4:
				p = [][]int{{x - 2, x - 1}, {x - 1}, {x - 2}}[x%3]
			default: // even: default; odd: branch
				p = []int{x - 2}
				if k == 5 && x%20 == 0 || k == 6 && x%20 == 1 {
					p = append(p, x-1)
				}
			}
			u.parents = append(u.parents, p)
		}
		u.def = n - 1 - (n-1)%2
		if k == 1 || k == 3 {
			u.def = 0
		}
		return u, []int{0, 1, 2, n / 3, n / 2, n/2 + 1, n - 3, n - 2, n - 1}
	}
	return eng.Space{Name: fmt.Sprint("long-", counts[0]), Rule: fmt.Sprintf("graphs of %v commits: each of %q", counts, kinds), Size: func() int { return len(counts) * len(kinds) }, Batch: 1, Solo: true,
		Desc: func(i int) string { return fmt.Sprintf("%s, %d commits", kinds[i%len(kinds)], counts[i/len(kinds)]) },
		Exec: func(c *eng.Ctx, units []int) error {
			for _, un := range units {
				u, heads := mk(un)
				if err := runDagHeads(c, []int{un}, []dagUnit{u}, heads); err != nil {
					return err
				}
			}
			return nil
		}}
}

func init() {
	eng.Register(eng.Check{ID: "C09", Level: "model_checking", Assume: []string{"how far a branch without common history is behind is not specified"}, Spaces: func(tier string) []eng.Space {
		r := []eng.Space{
			dagSpace("graphs-5", 5, 2, true, 1), dagSpace("graphs-4-octopus", 4, 3, true, 1), dagSpace("graphs-6", 6, 2, true, 40), realBranches("real-4", 4, 3), longDags([]int{302, 3002}),
			dagSpace("graphs-repeated", 4, -3, true, 1), realBranches("real-repeated", 4, -2),
		}
		if tier == "thorough" {
			r = append(r, dagSpace("graphs-5-octopus", 5, 4, true, 1), dagSpace("graphs-6-alone", 6, 2, false, 1), dagSpace("graphs-7", 7, 2, false, 40), realBranches("real-5", 5, 2), longDags([]int{30002}))
		}
		return r
	}})
	eng.Register(eng.Check{ID: "C10", Level: "model_checking", Assume: []string{"git's ref store is the files it documents"}, Spaces: func(tier string) []eng.Space {
		if tier == "thorough" {
			return []eng.Space{listSpace("names", len(refNames), true), storeSpace(4), manyBranches(append(branchCounts, 10001, 66000))}
		}
		return []eng.Space{listSpace("names", len(refNames), false), storeSpace(3), manyBranches(branchCounts)}
	}})
}
