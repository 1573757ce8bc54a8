package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	mbits "math/bits"
	"os"
	"strings"

	"verif/mc/eng"
	"verif/mc/hist"

	"github.com/pinpt/ripsrc/ripsrc/history3/incblame"
	"github.com/pinpt/ripsrc/ripsrc/history3/process/repo"
)

// canon renders a stored tree of blames: content, and which lines and files
// are shared does not matter.
func canon(r repo.Repo) string {
	var b strings.Builder
	for _, c := range hist.Keys(r) {
		fmt.Fprintf(&b, "commit %q\n", c)
		for _, p := range hist.Keys(r[c]) {
			f := r[c][p]
			if f == nil {
				fmt.Fprintf(&b, " %q nil\n", p)
				continue
			}
			fmt.Fprintf(&b, " %q %q %v\n", p, f.Commit, f.IsBinary)
			for _, l := range f.Lines {
				fmt.Fprintf(&b, "  %q %q\n", l.Commit, l.Line)
			}
		}
	}
	return b.String()
}

// xxh64 collisions: 64 byte lines with the same hash. A block of 32 bytes
// feeds four independent accumulators, so a change of one 8 byte lane in the
// first block can be undone by the same lane of the second.
func collide(l []byte, x uint64) []byte {
	const p1, p2 = uint64(11400714785074694791), uint64(14029467366897019727)
	round := func(acc, in uint64) uint64 {
		acc += in * p2
		return mbits.RotateLeft64(acc, 31) * p1
	}
	inv := func(x uint64) uint64 { // odd x modulo 2^64
		y := x
		for i := 0; i < 6; i++ {
			y *= 2 - x*y
		}
		return y
	}
	s := uint64(0)
	s += p1
	s += p2
	a0 := binary.LittleEndian.Uint64(l)
	b0 := binary.LittleEndian.Uint64(l[32:])
	r := append([]byte{}, l...)
	a1 := a0 ^ x
	binary.LittleEndian.PutUint64(r, a1)
	// round(round(s,a0),b0) == round(round(s,a1),b1)
	x0, x1 := round(s, a0)+b0*p2, round(s, a1)
	b1 := (x0 - x1) * inv(p2)
	binary.LittleEndian.PutUint64(r[32:], b1)
	return r
}

var lineAlpha = func() [][]byte {
	a := []byte(strings.Repeat("collide.", 8))
	return [][]byte{[]byte("a"), {}, []byte("a\r"), []byte("\x00\xff\n"), a, collide(a, 0x0101), collide(a, 0x0202), []byte("b"), nil, bytes.Repeat([]byte("x"), 100000)}
}()

// roundTrip writes and reads a stored tree.
func roundTrip(c *eng.Ctx, unit int, dir string, r repo.Repo, last string) bool {
	want := canon(r)
	c.Add("transitions", 2)
	c.Add("traces", 1)
	c.State(want)
	if err := repo.NewCheckpointWriter(hist.Quiet{}).Write(r, dir, last); err != nil {
		c.Fail(unit, "write fails: %v", err)
		return false
	}
	if canon(r) != want {
		c.Fail(unit, "writing changes what is in memory")
		return false
	}
	for _, exp := range []string{last, ""} {
		g, err := repo.NewCheckpointReader(hist.Quiet{}).Read(dir, exp)
		if err != nil {
			c.Fail(unit, "read (expecting %q) fails: %v", exp, err)
			return false
		}
		if got := canon(g); got != want {
			c.Fail(unit, "read back differs:\n%s\nwritten:\n%s", cutTo(got, 1500), cutTo(want, 1500))
			return false
		}
	}
	if _, err := repo.NewCheckpointReader(hist.Quiet{}).Read(dir, last+"x"); err == nil {
		c.Fail(unit, "a checkpoint for %q is read as one for %q", last, last+"x")
		return false
	}
	return true
}

func cutTo(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// repoSpace enumerates stored trees.
func repoSpace(name, rule string, gen func(c *Choose) repo.Repo) eng.Space {
	lv := &lazyVectors{f: func(c *Choose) {
		if gen(c) == nil {
			c.Prune()
		}
	}}
	return eng.Space{Name: name, Rule: rule, Size: func() int { return len(lv.get()) }, Batch: 500,
		Desc: func(i int) string { return cutTo(canon(gen(lv.at(i))), 3000) },
		Exec: func(c *eng.Ctx, units []int) error {
			d := scratch(c)
			defer os.RemoveAll(d)
			for _, u := range units {
				// every write goes over the previous checkpoint
				if !roundTrip(c, u, d, gen(lv.at(u)), fmt.Sprint("last", u)) {
					os.RemoveAll(d)
				}
			}
			return nil
		}}
}

func hash40(n int) string { return fmt.Sprintf("%040x", n*1234567+1) }

// repoLines: one or two files whose lines are any of the alphabet, shared or not
func repoLines(nl int, alpha [][]byte) func(c *Choose) repo.Repo {
	return func(c *Choose) repo.Repo {
		r := repo.New()
		r.AddCommit("c0")
		r.AddCommit("c1")
		var all []*incblame.Line
		for f := 0; f < 2; f++ {
			b := &incblame.Blame{Commit: hash40(f)}
			n := c.Pick(nl + 1)
			for i := 0; i < n; i++ {
				k := c.Pick(len(alpha) + len(all))
				if k >= len(alpha) {
					b.Lines = append(b.Lines, all[k-len(alpha)])
					continue
				}
				l := &incblame.Line{Line: alpha[k], Commit: hash40(c.Pick(2))}
				all = append(all, l)
				b.Lines = append(b.Lines, l)
			}
			r[fmt.Sprint("c", f)][fmt.Sprint("f", f)] = b
		}
		return r
	}
}

// repoShape: commits and paths, blames shared in any way, binary or empty
func repoShape(commits, paths int) func(c *Choose) repo.Repo {
	pool := []*incblame.Blame{
		nil,
		{Commit: hash40(1)},
		incblame.BlameBinaryFile(hash40(2)),
		{Commit: hash40(3), Lines: []*incblame.Line{{Line: []byte("x"), Commit: hash40(3)}}},
		{Commit: hash40(4), Lines: []*incblame.Line{{Line: []byte("x"), Commit: hash40(3)}, {Line: []byte("y"), Commit: ""}}},
		{Commit: "", Lines: []*incblame.Line{{Line: []byte("y"), Commit: hash40(4)}}},
	}
	pn := []string{"f", "\xff é\n", ""}
	cn := []string{hash40(7), "z", ""}
	return func(c *Choose) repo.Repo {
		r := repo.New()
		for i := 0; i < commits; i++ {
			if c.Bool() {
				continue
			}
			r.AddCommit(cn[i])
			for p := 0; p < paths; p++ {
				if b := pool[c.Pick(len(pool))]; b != nil {
					r[cn[i]][pn[p]] = b
				}
			}
		}
		return r
	}
}

// bigKinds: what there is many of.
var bigKinds = []string{"commits with a file each", "commits without a file", "files in a commit", "commits that have the same file", "files with the same line", "lines of a file", "lines of a file that are one line", "lines of a file that are equal", "lines with the same hash", "bytes in a line", "bytes in a path", "bytes in the name of the last commit"}

// bigRepo: a stored tree with n of something.
func bigRepo(kind, n int) (r repo.Repo, last string) {
	r, last = repo.New(), "last"
	r.AddCommit("c")
	line := func(k int) *incblame.Line {
		return &incblame.Line{Line: []byte(fmt.Sprint("line ", k)), Commit: hash40(k % 300)}
	}
	file := func(ls ...*incblame.Line) *incblame.Blame { return &incblame.Blame{Commit: hash40(n), Lines: ls} }
	r["c"]["f"] = file(line(1), line(2))
	one := line(1)
	f := file(one)
	for k := 0; k < n && kind < 9; k++ {
		cn, pn := fmt.Sprint("c", k), fmt.Sprint("f", k)
		switch kind {
		case 0, 1, 3:
			r.AddCommit(cn)
			if kind == 0 {
				r[cn]["f"] = file(line(k), line(k+1))
			} else if kind == 3 {
				r[cn]["f"] = f
			}
		case 2:
			r["c"][pn] = file(line(k))
		case 4:
			r["c"][pn] = file(line(k), one)
		case 5:
			r["c"]["f"].Lines = append(r["c"]["f"].Lines, line(k))
		case 6:
			r["c"]["f"].Lines = append(r["c"]["f"].Lines, one)
		case 7:
			r["c"]["f"].Lines = append(r["c"]["f"].Lines, line(7))
		case 8:
			r["c"]["f"].Lines = append(r["c"]["f"].Lines, &incblame.Line{Line: collide(lineAlpha[4], uint64(k)), Commit: hash40(k % 3)})
		}
	}
	switch kind {
	case 9:
		r["c"]["f"] = file(&incblame.Line{Line: bytes.Repeat([]byte("x"), n)}, one)
	case 10:
		r["c"][strings.Repeat("p", n)] = f
	case 11:
		last = strings.Repeat("l", n)
	}
	return
}

func bigRepos(counts []int) eng.Space {
	var xs [][2]int
	for _, n := range counts {
		for k := range bigKinds {
			if bigKinds[k] != "lines with the same hash" || n < 10000 {
				xs = append(xs, [2]int{k, n})
			}
		}
	}
	return eng.Space{Name: "big", Rule: fmt.Sprintf("%v of: %s (those fewer than 10000); each checkpoint written over the previous one", counts, strings.Join(bigKinds, "; ")),
		Size: func() int { return len(xs) }, Batch: 4,
		Desc: func(i int) string { return fmt.Sprint(xs[i][1], " ", bigKinds[xs[i][0]]) },
		Exec: func(c *eng.Ctx, units []int) error {
			d := scratch(c)
			defer os.RemoveAll(d)
			for _, u := range units {
				r, last := bigRepo(xs[u][0], xs[u][1])
				if !roundTrip(c, u, d, r, last) {
					os.RemoveAll(d)
				}
			}
			return nil
		}}
}

func init() {
	eng.Register(eng.Check{ID: "C08", Level: "model_checking", Assume: []string{"nothing else writes to the checkpoint directory"}, Spaces: func(tier string) []eng.Space {
		r := []eng.Space{
			repoSpace("lines", "two files of up to two lines each from an alphabet with empty, absent, non-text, colliding (same 64-bit hash) and long lines, each line new or shared with an earlier one, two commits, each checkpoint written over the previous one", repoLines(2, lineAlpha[:7])),
			repoSpace("shapes", "three commits or fewer (one named by the empty string), two paths or fewer, each without a file or with one of five blames that may be shared: without lines, binary, with lines, without a commit", repoShape(3, 2)),
			repoSpace("long-lines", "two files with one line of 100000 bytes, absent or empty data", repoLines(1, lineAlpha[7:])),
			bigRepos([]int{15, 16, 31, 32, 127, 128, 255, 256, 1000, 4095, 4096, 32767, 32768, 65535, 65536, 70000}),
		}
		if tier == "thorough" {
			r[len(r)-1] = bigRepos([]int{15, 16, 31, 32, 127, 128, 255, 256, 1000, 4095, 4096, 32767, 32768, 65535, 65536, 70000, 262144, 1100000})
			r = append(r, repoSpace("lines-3", "as lines, with up to three lines", repoLines(3, lineAlpha[:7])), repoSpace("shapes-3", "as shapes, with three paths", repoShape(3, 3)))
		}
		return r
	}})
}
