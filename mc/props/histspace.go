package props

import (
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"

	"verif/mc/eng"
	"verif/mc/hist"

	"github.com/pinpt/ripsrc/ripsrc/history3/incblame"
	"github.com/pinpt/ripsrc/ripsrc/history3/process"
)

// histSpace makes a space of histories; gen derives one history from choices.
func histSpace(name, rule string, batch int, gen func(c *Choose) *hist.History) eng.Space {
	lv := &lazyVectors{f: func(c *Choose) {
		if gen(c) == nil {
			c.Prune()
		}
	}}
	return histSpaceN(name, rule, batch, func() int { return len(lv.get()) }, func(i int) *hist.History { return gen(lv.at(i)) })
}

// histSpaceN is histSpace over an indexed family.
func histSpaceN(name, rule string, batch int, size func() int, at func(i int) *hist.History) eng.Space {
	return eng.Space{
		Name: name, Rule: rule, Size: size, Batch: batch,
		Desc: func(i int) string { return hist.Describe(*at(i), nil) },
		Exec: func(c *eng.Ctx, units []int) error {
			var hs []hist.History
			for _, u := range units {
				hs = append(hs, *at(u))
			}
			return runHistories(c, units, hs)
		},
	}
}

// checkpointSeq makes scratch names unique within a worker.
var scratchSeq int

func scratch(c *eng.Ctx) string {
	scratchSeq++
	d := filepath.Join(c.Dir, fmt.Sprint("s", scratchSeq))
	if err := os.MkdirAll(d, 0777); err != nil {
		panic(err)
	}
	return d
}

// prep writes the histories to a repository and computes the reference.
type prepared struct {
	B    *hist.Built
	Dir  string // scratch
	Repo string
	Refs []*hist.Ref
}

func prep(c *eng.Ctx, hs []hist.History) (*prepared, error) {
	p := &prepared{Dir: scratch(c)}
	p.B = hist.Build(hs)
	r, err := p.B.WriteRepo(filepath.Join(p.Dir, "r"))
	if err != nil {
		return nil, err
	}
	p.Repo = r.Dir
	raw, err := hist.RawDiffs(r.Dir, p.B)
	if err != nil {
		return nil, err
	}
	als, err := hist.Aligns(r.Dir, p.B, raw)
	if err != nil {
		return nil, err
	}
	for hi, h := range hs {
		p.Refs = append(p.Refs, hist.ComputeRef(h, p.B.SHA[hi], raw, als))
	}
	return p, nil
}

// noteStates records the model states of a history.
func noteStates(c *eng.Ctx, h hist.History, shas []string, ref *hist.Ref) {
	// attribution by node number, content by value
	num := map[string]int{}
	for i, s := range shas {
		num[s] = i
	}
	for ni := range h.Nodes {
		f := fnv.New64a()
		for _, p := range hist.Keys(h.Nodes[ni].Tree) {
			e := h.Nodes[ni].Tree[p]
			fmt.Fprintf(f, "%s\x00%s\x00", p, e.Mode)
			f.Write([]byte(e.Data))
			for _, a := range ref.Attr[ni][p] {
				for _, s := range a {
					fmt.Fprintf(f, "%d,", num[s])
				}
				f.Write([]byte{0})
			}
		}
		fmt.Fprintf(f, "%d%v%s%v%v%v%s", ni, h.Nodes[ni].Parents, h.Nodes[ni].Msg, h.Nodes[ni].Author, h.Nodes[ni].Committer, h.Nodes[ni].RawMsg, h.Nodes[ni].Headers)
		c.StateHash(f.Sum64())
	}
	c.Add("transitions", len(h.Nodes))
	c.Add("traces", 1)
}

func runHistories(c *eng.Ctx, units []int, hs []hist.History) error {
	p, err := prep(c, hs)
	if err != nil {
		return err
	}
	defer os.RemoveAll(p.Dir)
	res, err := hist.RunAll(p.Repo, filepath.Join(p.Dir, "cp"))
	if err != nil {
		if len(units) == 1 {
			c.Fail(units[0], "processing fails: %v", err)
			return nil
		}
		m := len(units) / 2
		if err := runHistories(c, units[:m], hs[:m]); err != nil {
			return err
		}
		if err := runHistories(c, units[m:], hs[m:]); err != nil {
			return err
		}
		if !c.Failed() {
			c.Fail(units[0], "processing several unrelated histories in one repository fails: %v", err)
		}
		return nil
	}
	compareResults(c, units, p, res, nil)
	return nil
}

// compareResults checks a run against the reference; in says which nodes are in scope (nil: all).
func compareResults(c *eng.Ctx, units []int, p *prepared, res []process.Result, in func(hi, ni int) bool) {
	got := map[string]map[string]*incblame.Blame{}
	at := map[string]int{}
	for k, x := range res {
		w, ok := p.B.Where[x.Commit]
		if !ok {
			c.Fail(units[0], "reported commit %q does not exist", x.Commit)
			return
		}
		if got[x.Commit] != nil {
			c.Fail(units[w[0]], "commit n%d is reported more than once", w[1])
			continue
		}
		if in != nil && !in(w[0], w[1]) {
			c.Fail(units[w[0]], "commit n%d is reported but is not in the range asked for", w[1])
		}
		got[x.Commit] = x.Files
		at[x.Commit] = k
	}
	for hi, h := range p.B.Hists {
		noteStates(c, h, p.B.SHA[hi], p.Refs[hi])
		for ni := range h.Nodes {
			if in != nil && !in(hi, ni) {
				continue
			}
			sha := p.B.SHA[hi][ni]
			g := got[sha]
			if g == nil {
				c.Fail(units[hi], "commit n%d %s is not reported", ni, sha)
				break
			}
			for _, q := range h.Nodes[ni].Parents {
				if pk, ok := at[p.B.SHA[hi][q]]; ok && pk > at[sha] {
					c.Fail(units[hi], "commit n%d is reported before its parent n%d", ni, q)
				}
			}
			if s := hist.CompareCommit(p.Refs[hi].Reported[ni], g); s != "" {
				c.Fail(units[hi], "commit n%d %s: %s", ni, sha, s)
				break
			}
		}
	}
}
