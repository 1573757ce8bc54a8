package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/pinpt/ripsrc/ripsrc/gitblame2"

	"verif/mc/eng"
	"verif/mc/gitx"
	"verif/mc/hist"
)

// gitBlameCase is a file whose second commit adds a line before or after the
// first line, renames it, or does both.
type gitBlameCase struct {
	a, b  string
	kind  int // 0 append, 1 append without newline, 2 prepend
	names [2]string
	msg   string
}

func (k gitBlameCase) hist() (h hist.History, lines []string, from []int) {
	x, y := k.a+"\n", k.a+"\n"+k.b+"\n"
	lines, from = []string{k.a, k.b}, []int{0, 1}
	switch k.kind {
	case 1:
		y = k.a + "\n" + k.b
		if k.b == "" {
			lines, from = lines[:1], from[:1]
		}
	case 2:
		y = k.b + "\n" + k.a + "\n"
		lines, from = []string{k.b, k.a}, []int{1, 0}
	}
	h.Nodes = []hist.Node{{Tree: gitx.Tree{k.names[0]: file(x)}, Msg: k.msg, RawMsg: k.msg == ""}, {Parents: []int{0}, Tree: gitx.Tree{k.names[1]: file(y)}, Msg: k.msg, RawMsg: k.msg == ""}}
	return
}

func gitBlameSpace() eng.Space {
	var cs []gitBlameCase
	for _, a := range append([]string{"\x00", "a\x00b"}, nasty...) {
		for _, b := range append([]string{"\x00"}, nasty...) {
			for kind := 0; kind < 3; kind++ {
				cs = append(cs, gitBlameCase{a, b, kind, [2]string{"f", "f"}, "m\n"})
			}
		}
	}
	for _, n := range []string{"f", "-f", "a b", "é", "\t", "\"", "a\nb", "boundary", "HEAD", "*", ":f"} {
		for _, m := range append([]string{"", "boundary\n", "filename f\n", "\tx\n"}, nasty...) {
			for kind := 0; kind < 3; kind++ {
				cs = append(cs, gitBlameCase{"a long line of text that is the same in both\nand another one like this", "b", kind, [2]string{n, n}, m})
			}
		}
	}
	return eng.Space{Name: "git-blame", Rule: "the blame of a single file: every pair of lines out of an alphabet of lines that look like git's own output, the second added after (with and without newline) or before the first in a second commit; and every message and file name of such alphabets", Batch: 200,
		Size: func() int { return len(cs) }, Desc: func(i int) string { return fmt.Sprintf("%+v", cs[i]) },
		Exec: func(c *eng.Ctx, units []int) error {
			var hs []hist.History
			for _, u := range units {
				h, _, _ := cs[u].hist()
				hs = append(hs, h)
			}
			b := hist.Build(hs)
			dir := scratch(c)
			defer os.RemoveAll(dir)
			r, err := b.WriteRepo(filepath.Join(dir, "r"))
			if err != nil {
				return err
			}
			for i, u := range units {
				_, lines, from := cs[u].hist()
				var want []gitblame2.Line
				for k, l := range lines {
					for _, x := range strings.Split(l, "\n") {
						want = append(want, gitblame2.Line{Content: x, CommitHash: b.SHA[i][from[k]]})
					}
				}
				c.State(fmt.Sprintf("%q", want))
				c.Add("traces", 1)
				c.Add("transitions", len(want))
				got, err := gitblame2.Run(r.Dir, b.SHA[i][1], cs[u].names[1])
				if err != nil {
					c.Fail(u, "fails: %v", err)
					continue
				}
				same := len(got.Lines) == len(want)
				for k := 0; same && k < len(want); k++ {
					// an equal line could be either of them
					same = got.Lines[k].Content == want[k].Content && (got.Lines[k].CommitHash == want[k].CommitHash || cs[u].a == cs[u].b)
				}
				if !same {
					c.Fail(u, "got %q instead of %q", got.Lines, want)
				}
			}
			return nil
		}}
}
