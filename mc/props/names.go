package props

import (
	"fmt"
	"strings"

	"verif/mc/eng"
	"verif/mc/gitx"
	"verif/mc/hist"
)

// awkward names: whatever git quotes, and whatever its output formats use as syntax.
var awkward = []string{
	"f", "a b", " a", "a ", "a  b", "é", "é b", "\xff", "日本語", "\t", "a\tb", "\"", "\"a\"", "a\"b c", "\\", "a\\303\\251", "a\nb", "\n", "\r", "a\r", "\x01", "\x7f", "\x1b[m",
	"a/b", "b/b", "a b/b", "b b/b", "a/ b/b", "-", "-f", "--", "--- a", "+++ b", "a => b", "{a => b}", "x{a => b}y", "a/{b => c}/d", "{", " => ", "dev/null", "/dev/null"[1:],
	"@@", "@@@del@@@f", "@@@del@@@", ":", "::a", ":(top)a", "!SHA: a", "commit 1", "diff --git a b", "*", "?", "[a]", "#", "~", "$HOME", "%H", "'", "a'b", "rename to x", "é/a b/\"c\"", "with.ext.", "...", "C:\\x", "\u202e", "e\u0301", "\u00e9",
}

// nameHistory walks two names through everything that can happen to a path.
func nameHistory(x, y string) *hist.History {
	e := entries
	t := func(kv ...interface{}) gitx.Tree {
		r := gitx.Tree{}
		for i := 0; i < len(kv); i += 2 {
			r[kv[i].(string)] = e[kv[i+1].(string)]
		}
		return r
	}
	ts := []gitx.Tree{
		t(x, "T1"), t(x, "T2"), t(y, "T2"), t(x, "T1"), t(), t(x, "E"), t(x, "Ex"), t(y, "Ex"), t(x, "T1", y, "U"), t(x, "U", y, "T1"), t(x, "T1x", y, "L"),
		t(x, "B1"), t(x, "B1x"), t(y, "B1x"), t(y, "B2"), t(x, "B2"), t(x, "T1"), t(x, "T2"), t(x, "S"), t(x, "L"), t(y, "L"),
	}
	h := chain(ts...)
	// sides and merge
	k := len(h.Nodes)
	h.Nodes = append(h.Nodes,
		hist.Node{Parents: []int{k - 1}, Tree: t(x, "T1")},                         // k
		hist.Node{Parents: []int{k}, Tree: t(x, "T2")},                             // k+1
		hist.Node{Parents: []int{k}, Tree: t(x, "T3")},                             // k+2
		hist.Node{Parents: []int{k + 1, k + 2}, Tree: t(x, "T1x")},                 // k+3
		hist.Node{Parents: []int{k}, Tree: t(y, "T1")},                             // k+4
		hist.Node{Parents: []int{k + 3, k + 4}, Tree: t(y, "T2")},                  // k+5
		hist.Node{Parents: []int{k + 5, k + 3}, Tree: t()},                         // k+6
		hist.Node{Parents: []int{k + 6}, Tree: t(y, "B1", x, "T1")},                // k+7
		hist.Node{Parents: []int{k + 7, k + 5}, Tree: probed(t(y, "B2", x, "T2"))}, // k+8
	)
	// a merge removes what all of its parents have, another adds what none has
	k = len(h.Nodes)
	h.Nodes = append(h.Nodes,
		hist.Node{Parents: []int{k - 1}, Tree: t(x, "T1", y, "U")},        // k
		hist.Node{Parents: []int{k}, Tree: t(x, "T2", y, "U")},            // k+1
		hist.Node{Parents: []int{k}, Tree: t(x, "T1x", y, "U")},           // k+2
		hist.Node{Parents: []int{k + 1, k + 2}, Tree: t(y, "U")},          // k+3
		hist.Node{Parents: []int{k + 1, k + 2}, Tree: t()},                // k+4
		hist.Node{Parents: []int{k + 3, k + 4}, Tree: t(y, "U")},          // k+5
		hist.Node{Parents: []int{k + 5, k + 3}, Tree: t(x, "T1")},         // k+6
		hist.Node{Parents: []int{k + 6, k + 4}, Tree: probed(t(x, "T2"))}, // k+7
	)
	// a merge takes what its second parent removed or added
	k = len(h.Nodes)
	h.Nodes = append(h.Nodes,
		hist.Node{Parents: []int{k - 1}, Tree: t(x, "T1")},                         // k
		hist.Node{Parents: []int{k}, Tree: t(x, "T1", y, "U")},                     // k+1
		hist.Node{Parents: []int{k}, Tree: t()},                                    // k+2
		hist.Node{Parents: []int{k + 1, k + 2}, Tree: t(y, "U")},                   // k+3
		hist.Node{Parents: []int{k + 3, k + 1}, Tree: t(x, "T1", y, "U")},          // k+4
		hist.Node{Parents: []int{k + 2, k + 4}, Tree: probed(t(x, "T2", y, "B1"))}, // k+5
		hist.Node{Parents: []int{k + 5, k + 4, k + 2}, Tree: probed(t(x, "Ex"))},   // k+6
	)
	return h
}

func namePairs(names []string) (res [][2]string) {
	for _, x := range names {
		for _, y := range names {
			if x == y || !validTree(gitx.Tree{x: entries["E"], y: entries["E"]}) {
				continue
			}
			res = append(res, [2]string{x, y})
		}
	}
	return
}

// short names over characters that git quotes or that separate fields
func shortNames(chars string, max int) (res []string) {
	var rec func(s string)
	rec = func(s string) {
		if s != "" && s != "." && s != ".." {
			ok := s[0] != '/' && s[len(s)-1] != '/'
			for i := 0; i+1 < len(s); i++ {
				if s[i] == '/' && s[i+1] == '/' {
					ok = false
				}
			}
			if ok {
				res = append(res, s)
			}
		}
		if len(s) == max {
			return
		}
		for i := 0; i < len(chars); i++ {
			rec(s + chars[i:i+1])
		}
	}
	rec("")
	return
}

// longNames: around the limits of file systems and buffers; short ones too, since the pairs include a rename from one to the other.
func longNames() []string {
	r := []string{"f"}
	for _, n := range []int{100, 127, 128, 255, 256, 257, 1000, 1023, 1024, 4000} {
		r = append(r, strings.Repeat("n", n))
	}
	return append(r, strings.Repeat("d/", 127)+"f", strings.Repeat("d/", 1000)+"f", strings.Repeat("long/", 700)+strings.Repeat("f", 300), strings.Repeat("\xc3\xa9", 600), strings.Repeat("a b/", 100)+"\"")
}

func nameSpace(name, what string, names []string) eng.Space {
	pairs := namePairs(names)
	return histSpaceN(name, fmt.Sprintf("every ordered pair of %d names (%s), walked through create, edit, rename (plain, with an edit), delete, empty, mode change, swap, symlink, submodule, binary, and merges", len(names), what), 150,
		func() int { return len(pairs) },
		func(i int) *hist.History { return nameHistory(pairs[i][0], pairs[i][1]) })
}

func init() {
	eng.Register(eng.Check{ID: "C14", Level: "model_checking", Assume: histAssume, Spaces: func(tier string) []eng.Space {
		n := 2
		if tier == "thorough" {
			n = 3
		}
		return []eng.Space{
			nameSpace("awkward", "spaces, quotes, control characters, non-ASCII, syntax of patches and stat output", awkward),
			nameSpace("long", "of up to 4000 bytes and 1000 directories", longNames()),
			nameSpace("short", fmt.Sprintf("all names of up to %d of the characters a, space, quote, backslash, tab, slash, 0xe9", n), shortNames("a \"\\\t/\xe9", n)),
		}
	}})
}
