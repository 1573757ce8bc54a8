package props

import (
	"fmt"
	"strings"

	"verif/mc/eng"
	"verif/mc/gitx"
	"verif/mc/hist"
)

func file(data string) gitx.Entry { return gitx.Entry{Mode: "100644", Data: data} }

func one(data string) gitx.Tree { return gitx.Tree{"f": file(data)} }

// chain is a linear history of trees.
func chain(ts ...gitx.Tree) *hist.History {
	h := &hist.History{}
	for i, t := range ts {
		n := hist.Node{Tree: t}
		if i > 0 {
			n.Parents = []int{i - 1}
		}
		h.Nodes = append(h.Nodes, n)
	}
	return h
}

// nasty lines: whatever a patch, a log or a quoting layer could take for its own.
var nasty = []string{
	"", " ", "\t", "a", " a", "+", "-", "+a", "-a", "++", "--", "---", "+++", "--- a/f", "+++ b/f", "-- ", "\\", "\\ No newline at end of file",
	"@@", "@@ -1 +1 @@", "@@ -1,2 +1,2 @@ x", "@", "diff", "diff --git a/f b/f", "diff --git a/f b/g", "index 000..111 100644", "commit 0123456789012345678901234567890123456789",
	"commit 0123456789012345678901234567890123456789 (from 0123456789012345678901234567890123456789)",
	"Author: x <y>", "Merge: a b", "Binary files a/f and b/f differ", "rename from f", "rename to g", "new file mode 100644", "deleted file mode 100644", "similarity index 100%",
	"\r", "a\r", "a\rb", "a\r\r\r\r", "\x1b[31m", "\xff\xfe", "é", "\x0c", "\x0b", "\u2028", "\x01", "\"q\"", "::100644", "!SHA: x",
}

func repeat(s string, n int) string { return strings.Repeat(s, n) }

func doc(lines []string, eof bool) string {
	s := strings.Join(lines, "\n")
	if len(lines) > 0 && eof {
		s += "\n"
	}
	return s
}

// geom: edit scripts on a file of distinct lines.
func geomSpace(name string, sizes []int, edits, ops int, second bool) eng.Space {
	return histSpace(name, fmt.Sprintf("every file of %v distinct lines, every choice of up to %d edit positions with an edit of each kind (change, delete, insert one, insert two) at each, with and without a final newline, undone in a further commit%s", sizes, edits, map[bool]string{true: ", followed by a second edit at either end", false: ""}[second]), 1500,
		func(c *Choose) *hist.History {
			n := sizes[c.Pick(len(sizes))]
			var base []string
			for i := 0; i < n; i++ {
				base = append(base, fmt.Sprint("line", i))
			}
			eof := c.Pick(3)
			op := make([]int, n+1)
			from := 0
			for e := 0; e < edits; e++ {
				rest := n + 1 - from
				if rest <= 0 {
					break
				}
				p := c.Pick(rest + 1)
				if p == rest {
					break
				}
				p += from
				op[p] = 1 + c.Pick(ops)
				from = p + 1
			}
			var out []string
			for i := 0; i <= n; i++ {
				switch op[i] {
				case 3:
					out = append(out, fmt.Sprint("ins", i))
				case 4:
					out = append(out, fmt.Sprint("ins", i), fmt.Sprint("insB", i))
				}
				if i == n {
					if op[i] == 1 || op[i] == 2 {
						return nil
					}
					continue
				}
				switch op[i] {
				case 1:
					out = append(out, fmt.Sprint("mod", i))
				case 2:
				default:
					out = append(out, base[i])
				}
			}
			ts := []gitx.Tree{one(doc(base, eof != 1)), one(doc(out, eof != 2))}
			if second {
				s := append([]string{}, out...)
				switch c.Pick(3) {
				case 0:
					s = append([]string{"top"}, s...)
				case 1:
					s = append(s, "end")
				case 2:
					if len(s) > 2 {
						s = append(s[:len(s)/2:len(s)/2], s[len(s)/2+1:]...)
					}
				}
				ts = append(ts, one(doc(s, true)))
			}
			ts = append(ts, one(doc(base, eof != 1)))
			return chain(ts...)
		})
}

// sequences of repeated lines: all pairs of short files.
func seqSpace(name string, alpha []string, maxLen int) eng.Space {
	var docs []string
	var rec func(cur []string)
	rec = func(cur []string) {
		docs = append(docs, doc(cur, true))
		if len(cur) > 0 && cur[len(cur)-1] != "" {
			docs = append(docs, doc(cur, false))
		}
		if len(cur) == maxLen {
			return
		}
		for _, a := range alpha {
			rec(append(cur[:len(cur):len(cur)], a))
		}
	}
	rec(nil)
	n := len(docs)
	return histSpaceN(name, fmt.Sprintf("every ordered pair of files of up to %d lines over %q, with and without final newline", maxLen, alpha), 3000,
		func() int { return n * n },
		func(i int) *hist.History { return chain(one(docs[i/n]), one(docs[i%n])) })
}

func nastySpace(lines []string) eng.Space {
	n := len(lines)
	return histSpaceN("nasty-lines", "every ordered pair of lines that imitate patch or log syntax or carry unusual bytes, created, added, used as context around an edit, swapped, removed, with and without final newline", 600,
		func() int { return n * n },
		func(i int) *hist.History {
			x, y := lines[i/n], lines[i%n]
			d := func(eof bool, l ...string) gitx.Tree { return one(doc(l, eof)) }
			return chain(
				d(true, x), d(true, x, y), d(true, "k", y), d(false, "k", y, x), d(true, y, x, "k"),
				d(true, x, x, x, "m", y, y, y), d(true, x, x, x, "M", y, y, y), d(false, x, x, x, "m", x, y, y, y), d(true, x, x, y, y),
				d(false, y), gitx.Tree{}, d(false, x, y))
		})
}

// hunksSpace: edits in several places far from each other.
func hunksSpace(name string, spots int) eng.Space {
	return histSpace(name, fmt.Sprintf("a file with %d places 9 lines apart, an edit of every kind (none, change, delete, insert one, insert two) at each, then the file without its first line", spots), 1500,
		func(c *Choose) *hist.History {
			var base, out []string
			for s := 0; s < spots; s++ {
				for i := 0; i < 9; i++ {
					l := fmt.Sprint("line", s, ".", i)
					base = append(base, l)
					if i != 4 {
						out = append(out, l)
						continue
					}
					switch c.Pick(5) {
					case 0:
						out = append(out, l)
					case 1:
						out = append(out, fmt.Sprint("mod", s))
					case 2:
					case 3:
						out = append(out, l, fmt.Sprint("ins", s))
					case 4:
						out = append(out, fmt.Sprint("ins", s), fmt.Sprint("insB", s), l)
					}
				}
			}
			return chain(one(doc(base, true)), one(doc(out, true)), one(doc(out[1:], true)))
		})
}

// long files and long lines
func longSpace(tier string) eng.Space {
	lens := []int{1, 1023, 4094, 4095, 4096, 4097, 65534, 65535, 65536, 65537, 131072, 1000000}
	counts := []int{1, 999, 1000, 1001, 4096, 20000, 70000, 140000}
	if tier == "thorough" {
		lens = append(lens, 10<<20, 40<<20)
		counts = append(counts, 200000)
	}
	return histSpace("long", fmt.Sprintf("lines of %v bytes and files of %v lines, edited at start, middle, end and all of them", lens, counts), 4,
		func(c *Choose) *hist.History {
			var base []string
			if c.Bool() {
				n := lens[c.Pick(len(lens))]
				base = []string{"first", repeat("x", n), "mid", repeat("é", n/2), "last"}
			} else {
				n := counts[c.Pick(len(counts))]
				for i := 0; i < n; i++ {
					base = append(base, fmt.Sprint("l", i))
				}
			}
			mod := append([]string{}, base...)
			switch c.Pick(5) {
			case 0:
				mod[0] += "!"
			case 1:
				mod[len(mod)/2] += "!"
			case 2:
				mod[len(mod)-1] += "!"
			case 3:
				mod = append(mod[:len(mod)/2:len(mod)/2], mod[len(mod)/2+1:]...)
			case 4:
				mod[0] = "new\n" + mod[0]
				mod[len(mod)/2] += "!"
				mod[len(mod)-1] += "!"
			}
			return chain(one(doc(base, true)), one(doc(mod, true)), one(doc(base, false)))
		})
}

func init() {
	eng.Register(eng.Check{ID: "C01", Level: "model_checking", Assume: histAssume, Spaces: func(tier string) []eng.Space {
		if tier == "thorough" {
			return []eng.Space{
				geomSpace("edits", []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16, 20}, 3, 4, false),
				geomSpace("edits-twice", []int{3, 8, 14}, 2, 4, true),
				seqSpace("sequences", []string{"a", "b", ""}, 5),
				nastySpace(nasty), longSpace(tier), hunksSpace("hunks", 7), manyHunks(append(hunkCounts, 40000), false).hist("many-hunks", 2),
			}
		}
		return []eng.Space{
			geomSpace("edits", []int{1, 2, 3, 7, 8, 15}, 2, 4, false),
			geomSpace("edits-twice", []int{9}, 2, 4, true),
			seqSpace("sequences", []string{"a", "b", ""}, 4),
			nastySpace(nasty), longSpace(tier), hunksSpace("hunks", 5), manyHunks(hunkCounts, false).hist("many-hunks", 2),
		}
	}})
}

var histAssume = []string{
	"the installed git's raw tree comparison (rename pairing) and line alignment are the reference for which paths pair up and which lines are kept",
	"line contents are compared modulo trailing carriage returns",
}
