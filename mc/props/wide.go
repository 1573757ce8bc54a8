package props

import (
	"fmt"
	"strings"

	"verif/mc/gitx"
	"verif/mc/hist"
)

// wideKinds: what the sides of a merge of many parents do.
var wideKinds = []string{
	"each changes a line of its own, the merge has all of them",
	"each changes a line of its own, the merge has every other one",
	"each has the same other content, the merge too",
	"each adds a file, the merge has all of them",
	"each adds a file, the merge has every other one and changes the rest",
	"the last one is a child of another root",
}

func text(s string) gitx.Entry { return gitx.Entry{Mode: "100644", Data: s} }

// wideFamily: merges with many parents.
func wideFamily(ns []int) idx {
	return idx{fmt.Sprintf("merges with %v parents: %s; then a commit touching every file", ns, strings.Join(wideKinds, "; ")),
		func() int { return len(ns) * len(wideKinds) },
		func(i int) *hist.History {
			n, kind := ns[i/len(wideKinds)], i%len(wideKinds)
			slots := func(with func(k int) bool) gitx.Entry {
				var b strings.Builder
				for k := 0; k < n; k++ {
					if with(k) {
						fmt.Fprintf(&b, "side %d\n", k)
					} else {
						fmt.Fprintf(&b, "slot %d\n", k)
					}
					for j := 0; j < 7; j++ {
						fmt.Fprintf(&b, "between %d %d\n", k, j)
					}
				}
				return text(b.String())
			}
			base := gitx.Tree{"g": text("g\n")}
			if kind < 2 {
				base["f"] = slots(func(int) bool { return false })
			} else if kind == 2 || kind == 5 {
				base["f"] = text("a\nb\nc\n")
			}
			h := &hist.History{Nodes: []hist.Node{{Tree: base}}}
			m := base.Clone()
			var ps []int
			for k := 0; k < n; k++ {
				t := base.Clone()
				parents := []int{0}
				switch kind {
				case 0, 1:
					k := k
					t["f"] = slots(func(x int) bool { return x == k })
				case 2:
					t["f"] = text("a\nx\nc\n")
				case 3, 4:
					p := fmt.Sprintf("f%d", k)
					t[p] = text(fmt.Sprintf("file %d\n", k))
					if kind == 3 || k%2 == 0 {
						m[p] = t[p]
					} else {
						m[p] = text(fmt.Sprintf("file %d\nmerged\n", k))
					}
				case 5:
					if k == n-1 {
						parents = nil
						t = gitx.Tree{"f": text("a\nb\nc\nroot\n")}
					} else {
						t["g"] = text(fmt.Sprintf("g\n%d\n", k))
					}
				}
				h.Nodes = append(h.Nodes, hist.Node{Tree: t, Parents: parents})
				ps = append(ps, k+1)
			}
			switch kind {
			case 0:
				m["f"] = slots(func(int) bool { return true })
			case 1:
				m["f"] = slots(func(k int) bool { return k%2 == 1 })
			case 2:
				m["f"] = text("a\nx\nc\n")
			case 5:
				m["f"] = text("a\nb\nc\nroot\n")
			}
			h.Nodes = append(h.Nodes, hist.Node{Tree: m, Parents: ps}, hist.Node{Tree: probed(m), Parents: []int{n + 1}})
			return h
		}}
}

// manyHunks: n places 8 lines apart in a file of which every one is edited.
func manyHunks(ns []int, merge bool) idx {
	kinds := []string{"changed", "removed", "a line added", "two lines added"}
	rule := fmt.Sprintf("a file with %v places 8 lines apart, all of them %s, then the file as before without its first line", ns, strings.Join(kinds, "; all of them "))
	if merge {
		rule = fmt.Sprintf("a file with %v places 8 lines apart, every other one %s on one side, the rest on the other, and the merge of the two", ns, strings.Join(kinds, "; every other one "))
	}
	return idx{rule,
		func() int { return len(ns) * len(kinds) },
		func(i int) *hist.History {
			n, kind := ns[i/len(kinds)], i%len(kinds)
			mk := func(from int, edit func(k int) bool) gitx.Tree {
				var b strings.Builder
				for k := 0; k < n; k++ {
					place := fmt.Sprintf("place %d\n", k)
					if edit(k) {
						place = []string{fmt.Sprintf("changed %d\n", k), "", fmt.Sprintf("place %d\nadded %d\n", k, k), fmt.Sprintf("added %d\nplace %d\nand %d\n", k, k, k)}[kind]
					}
					b.WriteString(place)
					for j := 0; j < 7; j++ {
						fmt.Fprintf(&b, "between %d %d\n", k, j)
					}
				}
				s := b.String()
				for ; from > 0; from-- {
					s = s[strings.IndexByte(s, '\n')+1:]
				}
				return gitx.Tree{"f": text(s)}
			}
			no, all := func(int) bool { return false }, func(int) bool { return true }
			even, odd := func(k int) bool { return k%2 == 0 }, func(k int) bool { return k%2 == 1 }
			if !merge {
				return chain(mk(0, no), mk(0, all), mk(1, no))
			}
			h := chain(mk(0, no), mk(0, even))
			h.Nodes = append(h.Nodes, hist.Node{Tree: mk(0, odd), Parents: []int{0}}, hist.Node{Tree: mk(0, all), Parents: []int{1, 2}}, hist.Node{Tree: probed(mk(0, all)), Parents: []int{3}})
			return h
		}}
}

// manyMerged: merges that have to do with many files.
func manyMerged(ns []int) idx {
	kinds := []string{"takes everything", "drops everything", "has something else everywhere"}
	return idx{fmt.Sprintf("two sides that edit, add and remove %v files each; a merge that %s; then a commit touching every file", ns, strings.Join(kinds, "; one that ")),
		func() int { return len(ns) * len(kinds) },
		func(i int) *hist.History {
			n, kind := ns[i/len(kinds)], i%len(kinds)
			base, a, b, m := gitx.Tree{}, gitx.Tree{}, gitx.Tree{}, gitx.Tree{}
			for k := 0; k < n; k++ {
				f := func(kind string, t gitx.Tree, s string) { t[fmt.Sprintf("%s%d", kind, k)] = text(s) }
				body := fmt.Sprintf("file %d\none\ntwo\nthree\n", k)
				for _, t := range []gitx.Tree{base, b} {
					f("edit-a", t, body)
					f("gone-a", t, body)
				}
				for _, t := range []gitx.Tree{base, a} {
					f("edit-b", t, body)
					f("gone-b", t, body)
				}
				f("edit-a", a, body+"a\n")
				f("edit-b", b, "b\n"+body)
				f("new-a", a, body)
				f("new-b", b, body+"b\n")
				switch kind {
				case 0:
					f("edit-a", m, body+"a\n")
					f("edit-b", m, "b\n"+body)
					f("new-a", m, body)
					f("new-b", m, body+"b\n")
				case 2:
					f("edit-a", m, "m\n"+body+"a\n")
					f("gone-a", m, body)
					f("edit-b", m, "b\n"+body+"m\n")
					f("new-b", m, "m\n"+body+"b\n")
				}
			}
			return &hist.History{Nodes: []hist.Node{{Tree: base}, {Tree: a, Parents: []int{0}}, {Tree: b, Parents: []int{0}}, {Tree: m, Parents: []int{1, 2}}, {Tree: probed(m), Parents: []int{3}}}}
		}}
}

// longMerge: merges of long files, and of long lines.
func longMerge(ns []int) idx {
	return idx{fmt.Sprintf("a file of %v lines, edited at its start, middle and end on two sides, merged with a line of its own", ns),
		func() int { return len(ns) * 9 },
		func(i int) *hist.History {
			n, x, y := ns[i/9], i%3, i/3%3
			mk := func(at ...int) gitx.Tree {
				var b strings.Builder
				for k := 0; k < n; k++ {
					w := "line"
					for j, a := range at {
						if k == []int{0, n / 2, n - 1}[a] {
							w = fmt.Sprint("edit ", j)
						}
					}
					fmt.Fprintf(&b, "%s %d\n", w, k)
				}
				return gitx.Tree{"f": text(b.String())}
			}
			m := mk(x, y)
			m["f"] = text("merged\n" + m["f"].Data)
			if x == y {
				y = (y + 1) % 3
			}
			other := mk(y)
			return &hist.History{Nodes: []hist.Node{{Tree: mk()}, {Tree: mk(x), Parents: []int{0}}, {Tree: other, Parents: []int{0}}, {Tree: m, Parents: []int{1, 2}}, {Tree: probed(m), Parents: []int{3}}}}
		}}
}

var wideCounts = []int{5, 8, 9, 16, 17, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257}
var hunkCounts = []int{9, 10, 99, 100, 101, 128, 255, 256, 257, 1000, 1024, 1025, 5000, 20000}
