package props

import (
	"fmt"
	"strings"

	"verif/mc/eng"
	"verif/mc/gitx"
	"verif/mc/hist"
)

// pickParents chooses an ordered set of at most max parents out of nodes 0..i-1.
// A negative max: a commit may be named more than once, up to -max in all.
func pickParents(c *Choose, i, max int, roots bool) []int {
	if i == 0 {
		return nil
	}
	if max < 0 {
		var ps []int
		for k := b2i(!roots) + c.Pick(-max+b2i(roots)); k > 0; k-- {
			ps = append(ps, c.Pick(i))
		}
		return ps
	}
	lim := max
	if i < lim {
		lim = i
	}
	var np int
	if roots {
		np = c.Pick(lim + 1)
	} else {
		np = 1 + c.Pick(lim)
	}
	var ps []int
	used := make([]bool, i)
	for k := 0; k < np; k++ {
		r := c.Pick(i - k)
		for j := 0; j < i; j++ {
			if used[j] {
				continue
			}
			if r == 0 {
				used[j] = true
				ps = append(ps, j)
				break
			}
			r--
		}
	}
	return ps
}

// repeated: some commit has a parent more than once.
func repeated(parents [][]int) bool {
	for _, ps := range parents {
		m := map[int]bool{}
		for _, p := range ps {
			if m[p] {
				return true
			}
			m[p] = true
		}
	}
	return false
}

// upTo says in words what pickParents takes.
func upTo(max int) string {
	if max < 0 {
		return fmt.Sprintf("up to %d parents, some commit having the same parent more than once", -max)
	}
	return fmt.Sprintf("up to %d parents", max)
}

type slotOpts struct {
	nodes, slots, maxPar int
	roots                bool
	del, common          bool
	probe                bool
}

// slotHistory: one file whose lines are fixed separators and slots; every node
// fills each slot from one of its parents, with a line of its own, with a line
// anyone may write, or not at all.
func slotHistory(c *Choose, o slotOpts) *hist.History {
	h := &hist.History{}
	var vals [][]string
	for i := 0; i < o.nodes; i++ {
		ps := pickParents(c, i, o.maxPar, o.roots)
		v := make([]string, o.slots)
		for s := range v {
			var opts []string
			add := func(x string) {
				for _, y := range opts {
					if x == y {
						return
					}
				}
				opts = append(opts, x)
			}
			for _, p := range ps {
				add(vals[p][s])
			}
			add(fmt.Sprintf("v%d.%d", i, s))
			if o.common {
				add(fmt.Sprintf("X.%d", s))
			}
			if o.del {
				add("")
			}
			v[s] = opts[c.Pick(len(opts))]
		}
		vals = append(vals, v)
		h.Nodes = append(h.Nodes, hist.Node{Parents: ps, Tree: one(slotDoc(v, ""))})
	}
	if o.probe {
		for _, t := range h.Tips() {
			h.Nodes = append(h.Nodes, hist.Node{Parents: []int{t}, Tree: one(slotDoc(vals[t], "probe"))})
		}
	}
	return h
}

// octoSlots: a base, sides that keep or replace each slot, and one merge of all of
// them that fills each slot from any side or with a line of its own.
func octoSlots(name string, sides, slots int, common bool) eng.Space {
	return octoSlotsGap(name, sides, slots, 0, common)
}

// octoSlotsGap: with more lines between the slots, so that each is in a hunk of its own
func octoSlotsGap(name string, sides, slots, gap int, common bool) eng.Space {
	slotDoc := func(v []string, end string) string { return slotDocGap(v, end, gap) }
	return histSpace(name, fmt.Sprintf("a base with %d line slots%s, %d commits on it that each keep every slot, put a line of their own%s, and a merge of them all that fills every slot from any of its parents, with a line of its own or not at all, then a commit touching the file", slots, opt(gap > 0, " far from each other"), sides, opt(common, " or a line any of them may put")), 2000,
		func(c *Choose) *hist.History {
			h := &hist.History{}
			base := make([]string, slots)
			for s := range base {
				base[s] = fmt.Sprint("base.", s)
			}
			h.Nodes = append(h.Nodes, hist.Node{Tree: one(slotDoc(base, ""))})
			var vals [][]string
			var ps []int
			for i := 1; i <= sides; i++ {
				v := make([]string, slots)
				for s := range v {
					v[s] = []string{base[s], fmt.Sprintf("v%d.%d", i, s), fmt.Sprint("X.", s)}[c.Pick(2+b2i(common))]
				}
				vals = append(vals, v)
				ps = append(ps, i)
				h.Nodes = append(h.Nodes, hist.Node{Parents: []int{0}, Tree: one(slotDoc(v, ""))})
			}
			m := make([]string, slots)
			for s := range m {
				opts := []string{fmt.Sprint("merge.", s), ""}
				for _, v := range vals {
					dup := false
					for _, o := range opts {
						dup = dup || o == v[s]
					}
					if !dup {
						opts = append(opts, v[s])
					}
				}
				m[s] = opts[c.Pick(len(opts))]
			}
			h.Nodes = append(h.Nodes,
				hist.Node{Parents: ps, Tree: one(slotDoc(m, ""))},
				hist.Node{Parents: []int{sides + 1}, Tree: one(slotDoc(m, "probe"))})
			return h
		})
}

// repeatSlots: a merge that names a commit as its parent more than once.
func repeatSlots(name string, slots int) eng.Space {
	return histSpace(name, fmt.Sprintf("a base with %d line slots, two commits on it that each keep every slot, put a line of their own or a line both may put, and a merge with as parents %v of the two that fills every slot from any of its parents, with the base's line, with a line of its own or not at all, then a commit touching the file", slots, repeats), 2000,
		func(c *Choose) *hist.History {
			ps := repeats[c.Pick(len(repeats))]
			vals := make([][]string, 4)
			for s := 0; s < slots; s++ {
				b := fmt.Sprint("base.", s)
				vals[0] = append(vals[0], b)
				opts := []string{fmt.Sprint("merge.", s), "", b}
				for i := 1; i <= 2; i++ {
					v := []string{b, fmt.Sprintf("v%d.%d", i, s), fmt.Sprint("X.", s)}[c.Pick(3)]
					vals[i] = append(vals[i], v)
					if !inList(v, opts) {
						opts = append(opts, v)
					}
				}
				vals[3] = append(vals[3], opts[c.Pick(len(opts))])
			}
			return &hist.History{Nodes: []hist.Node{
				{Tree: one(slotDoc(vals[0], ""))}, {Parents: []int{0}, Tree: one(slotDoc(vals[1], ""))}, {Parents: []int{0}, Tree: one(slotDoc(vals[2], ""))},
				{Parents: ps, Tree: one(slotDoc(vals[3], ""))}, {Parents: []int{3}, Tree: one(slotDoc(vals[3], "probe"))},
			}}
		})
}

func slotDoc(v []string, end string) string { return slotDocGap(v, end, 0) }

func slotDocGap(v []string, end string, gap int) string {
	l := []string{"sep"}
	for s, x := range v {
		if x != "" {
			l = append(l, x)
		}
		l = append(l, fmt.Sprint("sep", s))
		for g := 0; g < gap; g++ {
			l = append(l, fmt.Sprint("sep", s, "-", g))
		}
	}
	if end != "" {
		l = append(l, end)
	}
	return doc(l, true)
}

func slotSpace(name string, o slotOpts) eng.Space {
	return histSpace(name, fmt.Sprintf("every DAG of %d commits with up to %d ordered parents each (several roots: %v), times every way to fill %d line slots per commit: from any parent, a line of its own%s%s%s", o.nodes, o.maxPar, o.roots, o.slots,
		opt(o.common, ", a line other commits may write too"), opt(o.del, ", absent"), opt(o.probe, "; then every head gets a child that touches the file, so that the whole state behind it is seen")), 2000,
		func(c *Choose) *hist.History { return slotHistory(c, o) })
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func opt(b bool, s string) string {
	if b {
		return s
	}
	return ""
}

// alphabet of tree entries; lines of all texts keep one common order
func lines(p string, a, b int) string {
	s := ""
	for i := a; i <= b; i++ {
		s += fmt.Sprintf("%s%d\n", p, i)
	}
	return s
}

var entries = map[string]gitx.Entry{
	"T1":  {Mode: "100644", Data: lines("t", 1, 5)},
	"T2":  {Mode: "100644", Data: lines("t", 1, 4) + "x\n"},
	"T3":  {Mode: "100644", Data: "w\n" + lines("t", 2, 5)},
	"T1x": {Mode: "100755", Data: lines("t", 1, 5)},
	"U":   {Mode: "100644", Data: lines("u", 1, 3)},
	"B1":  {Mode: "100644", Data: "\x00b1\nb\nc\n"},
	"B1x": {Mode: "100755", Data: "\x00b1\nb\nc\n"},
	"B2":  {Mode: "100644", Data: "\x00b1\nb2\nc\n"},
	"BT":  {Mode: "100644", Data: "t1\nt2\n\x00\nt4\n"},
	"E":   {Mode: "100644", Data: ""},
	"Ex":  {Mode: "100755", Data: ""},
	"L":   {Mode: "120000", Data: "t1"},
	"L2":  {Mode: "120000", Data: "u1\nu2"},
	"S":   {Mode: "160000", Data: "1234567890123456789012345678901234567890"},
	"S2":  {Mode: "160000", Data: "1234567890123456789012345678901234567891"},
}

// trees over paths: each path absent or one of the entries
func trees(paths, names []string) (res []gitx.Tree) {
	var rec func(i int, t gitx.Tree)
	rec = func(i int, t gitx.Tree) {
		if i == len(paths) {
			if validTree(t) {
				res = append(res, t.Clone())
			}
			return
		}
		rec(i+1, t)
		for _, n := range names {
			t2 := t.Clone()
			t2[paths[i]] = entries[n]
			rec(i+1, t2)
		}
	}
	rec(0, gitx.Tree{})
	return
}

// validTree: no path is both a file and a directory
func validTree(t gitx.Tree) bool {
	for p := range t {
		for q := range t {
			if len(q) > len(p) && q[:len(p)] == p && q[len(p)] == '/' {
				return false
			}
		}
	}
	return true
}

// probed returns the tree with one more line in every text file.
func probed(t gitx.Tree) gitx.Tree {
	r := gitx.Tree{}
	for p, e := range t {
		if e.Mode[:2] == "10" {
			e.Data += "zz probe\n"
		}
		r[p] = e
	}
	return r
}

// linearSpace: every sequence of depth trees, then a probe.
func linearSpace(name string, paths, names []string, depth int) eng.Space {
	ts := trees(paths, names)
	n := 1
	for i := 0; i < depth; i++ {
		n *= len(ts)
	}
	return histSpaceN(name, fmt.Sprintf("every sequence of %d trees over paths %q with entries %v or absent (%d trees), then a commit touching every file", depth, paths, names, len(ts)), 2000,
		func() int { return n },
		func(i int) *hist.History {
			var seq []gitx.Tree
			for k := 0; k < depth; k++ {
				seq = append(seq, ts[i%len(ts)])
				i /= len(ts)
			}
			return chain(append(seq, probed(seq[depth-1]))...)
		})
}

// mergeSpace: base, two sides (from fewer trees when few is set), merge result, probe.
func mergeSpace(name string, paths, names []string, sides int) eng.Space {
	ts := trees(paths, names)
	n := 1
	for i := 0; i < sides+2; i++ {
		n *= len(ts)
	}
	return histSpaceN(name, fmt.Sprintf("every combination of a base tree, %d side trees and a merge result over paths %q with entries %v or absent (%d trees), then a commit touching every file", sides, paths, names, len(ts)), 2000,
		func() int { return n },
		func(i int) *hist.History { return mergeHistory(ts, sides, i) })
}

// forkSpace puts a commit with a tree of its own before the base of mergeSpace.
func forkSpace(name string, first, names []string) eng.Space {
	fs, ts := trees([]string{"f"}, first), trees([]string{"f"}, names)
	n := len(fs) * len(ts) * len(ts) * len(ts) * len(ts)
	return histSpaceN(name, fmt.Sprintf("every first tree of f with entries %v or absent, then every combination of a base tree, 2 side trees and a merge result with entries %v or absent, then a commit touching every file", first, names), 1500,
		func() int { return n },
		func(i int) *hist.History {
			h := mergeHistory(ts, 2, i/len(fs))
			for k := range h.Nodes {
				ps := []int{0}
				if k > 0 {
					ps = nil
					for _, p := range h.Nodes[k].Parents {
						ps = append(ps, p+1)
					}
				}
				h.Nodes[k].Parents = ps
			}
			h.Nodes = append([]hist.Node{{Tree: fs[i%len(fs)]}}, h.Nodes...)
			return h
		})
}

func mergeHistory(ts []gitx.Tree, sides, i int) *hist.History {
	pick := func() gitx.Tree {
		t := ts[i%len(ts)]
		i /= len(ts)
		return t
	}
	h := &hist.History{Nodes: []hist.Node{{Tree: pick()}}}
	var ps []int
	for k := 0; k < sides; k++ {
		h.Nodes = append(h.Nodes, hist.Node{Tree: pick(), Parents: []int{0}})
		ps = append(ps, k+1)
	}
	m := pick()
	h.Nodes = append(h.Nodes, hist.Node{Tree: m, Parents: ps})
	h.Nodes = append(h.Nodes, hist.Node{Tree: probed(m), Parents: []int{sides + 1}})
	return h
}

// timeSpace: DAG shapes with every assignment of commit times, own file per commit
func timeSpace(name string, nodes, times int) eng.Space {
	return histSpace(name, fmt.Sprintf("every DAG of %d commits with up to 3 parents, times every assignment of %d commit times to them (clocks running backwards, equal times)", nodes, times), 2000,
		func(c *Choose) *hist.History {
			h := &hist.History{}
			for i := 0; i < nodes; i++ {
				ps := pickParents(c, i, 3, true)
				t := gitx.Tree{}
				for _, p := range ps {
					for k, v := range h.Nodes[p].Tree {
						t[k] = v
					}
				}
				t[fmt.Sprint("f", i)] = file(fmt.Sprintf("file %d\n", i))
				h.Nodes = append(h.Nodes, hist.Node{Parents: ps, Tree: t, Time: int64(1 + c.Pick(times))})
			}
			return h
		})
}

// nulSpace: a zero byte around the end of the part of a file that git looks at.
func nulSpace() eng.Space {
	offs := []int{0, 1, 7998, 7999, 8000, 8001, 16000}
	return histSpace("nul-offset", fmt.Sprintf("files with a zero byte at the offsets %v, as one line, in short lines, or just before and after a line end, then every sequence of two of: appended to, executable, renamed, renamed and executable, the zero byte replaced, a line put in front; then touched", offs), 100,
		func(c *Choose) *hist.History {
			off := offs[c.Pick(len(offs))]
			b := []byte(strings.Repeat("x", off) + "\x00" + strings.Repeat("y", 300))
			if off > 0 {
				switch c.Pick(4) {
				case 1:
					for i := 39; i < len(b); i += 40 {
						if i != off {
							b[i] = '\n'
						}
					}
				case 2:
					b[off-1] = '\n'
				case 3:
					b[off+1] = '\n'
				}
			}
			p, e := "f", gitx.Entry{Mode: "100644", Data: string(b) + "\n"}
			ts := []gitx.Tree{{p: e}}
			for k := 0; k < 2; k++ {
				switch c.Pick(6) {
				case 0:
					e.Data += "more\n"
				case 1:
					e.Mode = map[string]string{"100644": "100755", "100755": "100644"}[e.Mode]
				case 2:
					p += "r"
				case 3:
					p += "x"
					e.Mode = "100755"
				case 4:
					e.Data = strings.Replace(e.Data, "\x00", "z", 1)
				case 5:
					e.Data = fmt.Sprint("first", k, "\n") + e.Data
				}
				ts = append(ts, gitx.Tree{p: e})
			}
			e.Data += "zz probe\n"
			return chain(append(ts, gitx.Tree{p: e})...)
		})
}

func init() {
	eng.Register(eng.Check{ID: "C02", Level: "model_checking", Assume: histAssume, Spaces: func(tier string) []eng.Space {
		r := []eng.Space{
			slotSpace("slots-4", slotOpts{nodes: 4, slots: 1, maxPar: 3, roots: true, del: true, common: true, probe: true}),
			slotSpace("slots-3x2", slotOpts{nodes: 3, slots: 2, maxPar: 2, roots: true, del: true, common: true, probe: true}),
			slotSpace("slots-4x2", slotOpts{nodes: 4, slots: 2, maxPar: 2, probe: true}),
			slotSpace("slots-5", slotOpts{nodes: 5, slots: 1, maxPar: 2, probe: true}),
			octoSlots("octopus-slots", 3, 2, true), octoSlots("octopus-4", 4, 2, false), octoSlotsGap("merge-hunks", 2, 3, 8, false), repeatSlots("repeated", 2),
			gitBlameSpace(), wideFamily(wideCounts).hist("wide", 2), manyHunks([]int{9, 100, 256, 257, 1025}, true).hist("many-hunks", 2), longMerge([]int{999, 33000, 66000, 132000}).hist("long", 1),
		}
		if tier == "thorough" {
			r = append(r,
				octoSlots("octopus-slots-4", 4, 2, true), octoSlots("octopus-6", 6, 2, false),
				octoSlots("octopus-slots-3x3", 3, 3, true),
				slotSpace("slots-5-full", slotOpts{nodes: 5, slots: 1, maxPar: 3, roots: true, common: true, probe: true}),
				slotSpace("slots-4x2-full", slotOpts{nodes: 4, slots: 2, maxPar: 2, common: true, probe: true}))
		}
		return r
	}})
	eng.Register(eng.Check{ID: "C03", Level: "model_checking", Assume: histAssume, Spaces: func(tier string) []eng.Space {
		r := []eng.Space{
			linearSpace("kinds-3", []string{"f"}, []string{"T1", "T2", "T1x", "U", "E", "L", "L2", "S", "S2"}, 3),
			linearSpace("two-paths", []string{"f", "g"}, []string{"T1", "T2", "U", "E", "L"}, 3),
			linearSpace("dirs", []string{"f", "f/x", "d/f"}, []string{"T1", "U"}, 3),
			mergeSpace("merge-two-paths", []string{"f", "g"}, []string{"T1", "T2", "E"}, 2),
			mergeSpace("merge-kinds", []string{"f"}, []string{"T1", "T2", "T1x", "U", "E", "L", "S"}, 2),
			mergeSpace("octopus", []string{"f"}, []string{"T1", "T2", "T3", "E"}, 3),
			mergeSpace("octopus-kinds", []string{"f"}, []string{"T1", "U", "L", "S"}, 3),
			mergeSpace("octopus-4", []string{"f"}, []string{"T1", "L"}, 4),
			repeatFamily([]string{"f"}, []string{"T1", "T2", "T1x", "U", "L"}).hist("repeated", 2000), repeatFamily([]string{"f", "g"}, []string{"T1", "E"}).hist("repeated-two", 2000),
			timeSpace("clocks", 4, 3),
			manyFamily([]int{1, 99, 100, 101, 130, 1000, 2500}).hist("many-files", 1), manyMerged([]int{1, 99, 100, 101, 256, 300, 1025, 2500}).hist("many-merged", 1), longFamily([]int{1, 2, 50, 300}).hist("long", 1),
		}
		if tier == "thorough" {
			r = append(r,
				linearSpace("kinds-4", []string{"f"}, []string{"T1", "T2", "T1x", "U", "E", "Ex", "L", "L2", "S", "S2"}, 4),
				linearSpace("two-paths-4", []string{"f", "g"}, []string{"T1", "T2", "U", "E"}, 4),
				linearSpace("three-paths", []string{"f", "g", "h"}, []string{"T1", "T2", "E"}, 3),
				mergeSpace("merge-two-paths-more", []string{"f", "g"}, []string{"T1", "T2", "T3", "U", "E"}, 2),
				mergeSpace("octopus-two", []string{"f", "g"}, []string{"T1", "T2"}, 3),
				timeSpace("clocks-5", 5, 2))
		}
		return r
	}})
	eng.Register(eng.Check{ID: "C04", Level: "model_checking", Assume: histAssume, Spaces: func(tier string) []eng.Space {
		r := []eng.Space{
			linearSpace("bin-4", []string{"f"}, []string{"T1", "T2", "B1", "B1x", "B2", "BT", "E"}, 4),
			linearSpace("bin-two-paths", []string{"f", "g"}, []string{"T1", "T2", "B1", "B2", "E"}, 3),
			mergeSpace("bin-merge", []string{"f"}, []string{"T1", "T2", "B1", "B1x", "B2", "BT", "E"}, 2),
			mergeSpace("bin-merge-two", []string{"f", "g"}, []string{"T1", "B1", "E"}, 2),
			mergeSpace("bin-octopus", []string{"f"}, []string{"T1", "T2", "B1", "B2"}, 3),
			forkSpace("bin-fork", []string{"B1", "BT"}, []string{"T1", "T2", "B1", "E"}),
			repeatFamily([]string{"f"}, []string{"T1", "T2", "B1", "B2", "E"}).hist("bin-repeated", 2000),
			nulSpace(),
		}
		if tier == "thorough" {
			r = append(r, forkSpace("bin-fork-more", []string{"B1", "BT", "T1", "E"}, []string{"T1", "T2", "T1x", "U", "B1", "B1x", "BT", "E"}))
		}
		return r
	}})
}

func inList(s string, l []string) bool {
	for _, x := range l {
		if s == x {
			return true
		}
	}
	return false
}
