// Package hist holds the history model: small commit DAGs with full trees, the
// reference blame computed from tree contents, and the driver that puts many
// histories before the real history processor in one repository.
package hist

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"verif/mc/gitx"
)

// Node is one commit of a history.
type Node struct {
	Parents           []int
	Tree              gitx.Tree
	Time              int64  // offset; 0: position
	Msg               string // "": a default one, unless RawMsg
	RawMsg            bool
	Author, Committer *gitx.Ident // nil: defaults
	Headers           string
}

// History is one unit of exploration: a commit DAG in topological order.
type History struct {
	Name  string
	Nodes []Node
}

// Built is a set of histories in one store.
type Built struct {
	Store *gitx.Store
	Hists []History
	SHA   [][]string // per history, per node
	Where map[string][2]int
}

const BaseTime = 1500000000

// Build puts the histories in one store. Commits of different histories
// interleave in time.
func Build(hs []History) *Built {
	b := &Built{Store: gitx.NewStore(), Hists: hs, Where: map[string][2]int{}}
	for hi, h := range hs {
		var shas []string
		for ni, n := range h.Nodes {
			off := n.Time
			if off == 0 {
				off = int64(ni + 1)
			}
			// distinct histories get distinct times within the same order
			id := gitx.Ident{Name: "A U Thor", Email: "a@example.com", Time: BaseTime + off*10000 + int64(hi%10000), TZ: "+0000"}
			msg := n.Msg
			if msg == "" && !n.RawMsg {
				msg = fmt.Sprintf("h%d n%d\n", hi, ni)
			}
			c := gitx.Commit{Tree: n.Tree, Author: id, Committer: id, Message: msg, ExtraHeaders: n.Headers}
			if n.Author != nil {
				c.Author = *n.Author
			}
			if n.Committer != nil {
				c.Committer = *n.Committer
			}
			for _, p := range n.Parents {
				c.Parents = append(c.Parents, shas[p])
			}
			sha := b.Store.Commit(c)
			if _, dup := b.Where[sha]; dup {
				// same content, message and parents: make it unique
				c.Message += fmt.Sprintf("\nuniq %d %d\n", hi, ni)
				sha = b.Store.Commit(c)
			}
			b.Where[sha] = [2]int{hi, ni}
			shas = append(shas, sha)
		}
		b.SHA = append(b.SHA, shas)
	}
	return b
}

// Tips returns the nodes of a history without children.
func (h History) Tips() (res []int) {
	has := map[int]bool{}
	for _, n := range h.Nodes {
		for _, p := range n.Parents {
			has[p] = true
		}
	}
	for i := range h.Nodes {
		if !has[i] {
			res = append(res, i)
		}
	}
	return
}

// WriteRepo creates a repository at dir with all the histories as branches.
func (b *Built) WriteRepo(dir string) (*gitx.Repo, error) {
	r, err := gitx.InitRepo(dir, "")
	if err != nil {
		return nil, err
	}
	if err := r.AddPack(b.Store); err != nil {
		return nil, err
	}
	refs := map[string]string{}
	for hi, h := range b.Hists {
		for _, t := range h.Tips() {
			refs[fmt.Sprintf("refs/heads/h%d-%d", hi, t)] = b.SHA[hi][t]
		}
	}
	last := b.Hists[len(b.Hists)-1]
	refs["refs/heads/master"] = b.SHA[len(b.Hists)-1][len(last.Nodes)-1]
	return r, r.SetRefs(refs)
}

// RawChange is one entry of git's own tree comparison.
type RawChange struct {
	OldMode, NewMode string
	OldSHA, NewSHA   string
	Status           byte
	Src, Dst         string
}

// RawDiffs asks git (diff-tree, machine format) how each commit differs from
// each of its parents. Result: commit sha -> one list per parent (one list
// against the empty tree for a root).
func RawDiffs(repoDir string, b *Built) (map[string][][]RawChange, error) {
	var in bytes.Buffer
	type key struct {
		c string
		i int
	}
	var keys []key
	for hi, h := range b.Hists {
		for ni, n := range h.Nodes {
			c := b.SHA[hi][ni]
			if len(n.Parents) == 0 {
				fmt.Fprintf(&in, "%s\n", c)
				keys = append(keys, key{c, 0})
			}
			for i, p := range n.Parents {
				fmt.Fprintf(&in, "%s %s\n", c, b.SHA[hi][p])
				keys = append(keys, key{c, i})
			}
		}
	}
	cmd := exec.Command("git", "diff-tree", "--stdin", "--root", "--always", "-r", "-M", "-l10000", "-z", "--raw", "--no-abbrev")
	cmd.Dir = repoDir
	cmd.Stdin = &in
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("git diff-tree: %v", err)
	}
	res := map[string][][]RawChange{}
	k := -1
	toks := strings.Split(string(out), "\x00")
	for i := 0; i < len(toks); {
		t := toks[i]
		if t == "" {
			i++
			continue
		}
		if t[0] != ':' {
			k++
			if k >= len(keys) || !strings.HasPrefix(t, keys[k].c) {
				return nil, fmt.Errorf("diff-tree: unexpected header %q", t)
			}
			res[keys[k].c] = append(res[keys[k].c], nil)
			i++
			continue
		}
		f := strings.Fields(t[1:])
		rc := RawChange{OldMode: f[0], NewMode: f[1], OldSHA: f[2], NewSHA: f[3], Status: f[4][0]}
		rc.Src = toks[i+1]
		rc.Dst = rc.Src
		i += 2
		if rc.Status == 'R' || rc.Status == 'C' {
			rc.Dst = toks[i]
			i++
		}
		l := res[keys[k].c]
		l[len(l)-1] = append(l[len(l)-1], rc)
	}
	if k != len(keys)-1 {
		return nil, fmt.Errorf("diff-tree: %d headers for %d inputs", k+1, len(keys))
	}
	return res, nil
}

// Lines splits content the way a diff does (no trailing newline ignored), one
// raw line each without its newline.
func Lines(data string) []string {
	if data == "" {
		return nil
	}
	data = strings.TrimSuffix(data, "\n")
	return strings.Split(data, "\n")
}

// Trim removes trailing carriage returns: line terminators are normalised by design.
func Trim(s string) string { return strings.TrimRight(s, "\r") }

// IsBinary is git's rule: a NUL in the first 8000 bytes.
func IsBinary(data string) bool {
	if len(data) > 8000 {
		data = data[:8000]
	}
	return strings.IndexByte(data, 0) >= 0
}

// Content of a tree entry as git diff shows it
func Content(e gitx.Entry) string {
	if e.Mode == "160000" {
		return "Subproject commit " + e.Data + "\n"
	}
	return e.Data
}

// Pair is one comparison of a commit with one of its parents (or with the empty tree).
type Pair struct {
	Changes []RawChange
	// Align[k] maps the new line numbers of change k to old line numbers (-1: added).
	// nil when the content did not change.
	Align [][]int
}

// Aligns asks git for the line alignment of every changed file: the pairs of
// RawDiffs in the same order, -a so that binary content is aligned too.
func Aligns(repoDir string, b *Built, raw map[string][][]RawChange) (map[string][][][]int, error) {
	var in bytes.Buffer
	type key struct {
		c    string
		h, n int
		i    int
	}
	var keys []key
	for hi, h := range b.Hists {
		for ni, n := range h.Nodes {
			c := b.SHA[hi][ni]
			if len(n.Parents) == 0 {
				fmt.Fprintf(&in, "%s\n", c)
				keys = append(keys, key{c, hi, ni, 0})
			}
			for i, p := range n.Parents {
				fmt.Fprintf(&in, "%s %s\n", c, b.SHA[hi][p])
				keys = append(keys, key{c, hi, ni, i})
			}
		}
	}
	cmd := exec.Command("git", "diff-tree", "--stdin", "--root", "--always", "-r", "-M", "-l10000", "-p", "-a", "-U1", "--full-index")
	cmd.Dir = repoDir
	cmd.Stdin = &in
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("git diff-tree -p: %v", err)
	}
	lines := bytes.Split(out, []byte("\n"))
	pos := 0
	peek := func() []byte {
		if pos < len(lines) {
			return lines[pos]
		}
		return nil
	}
	res := map[string][][][]int{}
	// one patch: returns the alignment for nl new lines and ol old lines
	patch := func(ol, nl int) ([]int, error) {
		if !bytes.HasPrefix(peek(), []byte("diff --git ")) {
			return nil, fmt.Errorf("expected a patch, got %q", peek())
		}
		pos++
		for pos < len(lines) && !bytes.HasPrefix(peek(), []byte("@@ ")) && !bytes.HasPrefix(peek(), []byte("diff --git ")) && !isHex(peek()) && len(peek()) > 0 {
			pos++
		}
		al := make([]int, nl)
		for i := range al {
			al[i] = -1
		}
		o, n := 0, 0
		for bytes.HasPrefix(peek(), []byte("@@ ")) {
			var os, oc, ns, nc int
			f := bytes.Fields(peek())
			os, oc = rng(string(f[1][1:]))
			ns, nc = rng(string(f[2][1:]))
			if oc == 0 {
				os++
			}
			if nc == 0 {
				ns++
			}
			for o < os-1 {
				if n >= nl {
					return nil, fmt.Errorf("alignment beyond the file")
				}
				al[n] = o
				o++
				n++
			}
			if n != ns-1 {
				return nil, fmt.Errorf("hunk starts at %d, expected %d", ns-1, n)
			}
			pos++
			eo, en := o+oc, n+nc
			for o < eo || n < en {
				l := peek()
				pos++
				switch l[0] {
				case ' ':
					al[n] = o
					o++
					n++
				case '-':
					o++
				case '+':
					n++
				case '\\':
				}
			}
			if bytes.HasPrefix(peek(), []byte("\\")) {
				pos++
			}
		}
		for n < nl {
			al[n] = o
			n++
			o++
		}
		if o != ol {
			return nil, fmt.Errorf("alignment covers %d old lines of %d", o, ol)
		}
		return al, nil
	}
	for _, k := range keys {
		for len(peek()) == 0 && pos < len(lines) {
			pos++
		}
		if !bytes.HasPrefix(peek(), []byte(k.c)) {
			return nil, fmt.Errorf("expected %s, got %q", k.c, peek())
		}
		pos++
		for len(peek()) == 0 && pos < len(lines) {
			pos++
		}
		var als [][]int
		h := b.Hists[k.h]
		node := h.Nodes[k.n]
		var par gitx.Tree
		if len(node.Parents) > 0 {
			par = h.Nodes[node.Parents[k.i]].Tree
		}
		for _, ch := range raw[k.c][k.i] {
			ol := len(Lines(Content(par[ch.Src])))
			nl := len(Lines(Content(node.Tree[ch.Dst])))
			var al []int
			switch ch.Status {
			case 'T':
				if _, err = patch(ol, 0); err != nil {
					return nil, err
				}
				if al, err = patch(0, nl); err != nil {
					return nil, err
				}
			case 'D':
				_, err = patch(ol, 0)
			case 'A':
				al, err = patch(0, nl)
			default:
				al, err = patch(ol, nl)
			}
			if err != nil {
				return nil, fmt.Errorf("%s %v: %v", k.c, ch, err)
			}
			als = append(als, al)
		}
		res[k.c] = append(res[k.c], als)
	}
	return res, nil
}

func isHex(b []byte) bool {
	if len(b) < 40 {
		return false
	}
	for _, c := range b[:40] {
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f') {
			return false
		}
	}
	return true
}

func rng(s string) (a, b int) {
	b = 1
	if i := strings.IndexByte(s, ','); i >= 0 {
		fmt.Sscan(s[i+1:], &b)
		s = s[:i]
	}
	fmt.Sscan(s, &a)
	return
}

// RefFile is the expected report for one path of one commit.
type RefFile struct {
	Removed  bool
	Binary   bool // must be reported without lines
	Either   bool // may be reported as binary
	Optional bool // need not be reported
	Lines    []string
	Attr     [][]string // acceptable commits per line
}

// Ref is the reference model of one history: for every node the reported
// files and the attribution of every line of its tree.
type Ref struct {
	Reported []map[string]RefFile
	Attr     []map[string][][]string
	Mark     []map[string]bool // the last change of the file was shown by git as binary
}

// ComputeRef derives what must be reported from the trees and git's pairing of
// paths. als == nil: every line is unique in its file and the files keep the
// order of common lines, so lines are matched by content.
func ComputeRef(h History, shas []string, raw map[string][][]RawChange, als map[string][][][]int) *Ref {
	r := &Ref{}
	for ni, n := range h.Nodes {
		sha := shas[ni]
		np := len(n.Parents)
		diffs := raw[sha]
		attr := map[string][][]string{}
		mark := map[string]bool{}
		rep := map[string]RefFile{}
		type src struct {
			changed bool
			path    string // "" none
			st      byte
			blob    bool // content changed
			idx     int
		}
		find := func(i int, p string) src {
			for k, d := range diffs[i] {
				if d.Status != 'D' && d.Dst == p {
					s := src{changed: true, st: d.Status, blob: d.OldSHA != d.NewSHA, idx: k}
					if d.Status != 'A' && d.Status != 'T' {
						s.path = d.Src
					}
					return s
				}
			}
			return src{path: p}
		}
		for p, e := range n.Tree {
			ls := Lines(Content(e))
			bin := IsBinary(Content(e))
			a := make([][]string, len(ls))
			for i := range a {
				a[i] = []string{sha}
			}
			ss := make([]src, max(np, 1))
			for i := range ss {
				ss[i] = find(i, p)
			}
			nUnchanged, first := 0, -1
			for i, s := range ss {
				if !s.changed {
					nUnchanged++
					if first < 0 {
						first = i
					}
				}
			}
			switch {
			case np > 0 && nUnchanged == np && np > 1:
				// several parents hold the very same file: any of them may be followed
				for i := range a {
					a[i] = nil
					for _, q := range n.Parents {
						a[i] = union(a[i], r.Attr[q][p][i])
					}
				}
			case np > 0 && nUnchanged > 0:
				a = r.Attr[n.Parents[first]][p]
			default:
				for i := np - 1; i >= 0; i-- {
					s := ss[i]
					if s.path == "" {
						continue
					}
					pa := r.Attr[n.Parents[i]][s.path]
					if als != nil {
						for k, j := range als[sha][i][s.idx] {
							if j >= 0 {
								a[k] = pa[j]
							}
						}
						continue
					}
					idx := map[string]int{}
					for k, l := range Lines(Content(h.Nodes[n.Parents[i]].Tree[s.path])) {
						idx[l] = k
					}
					for k, l := range ls {
						if j, ok := idx[l]; ok {
							a[k] = pa[j]
						}
					}
				}
			}
			attr[p] = a
			// binary?
			must, may := false, false
			for i, s := range ss {
				if np == 0 {
					must = bin
					break
				}
				pm := false
				if s.path != "" {
					pm = r.Mark[n.Parents[i]][s.path]
				}
				if !s.changed {
					if pm {
						may = true
					}
					continue
				}
				ob := false
				if s.path != "" {
					ob = IsBinary(Content(h.Nodes[n.Parents[i]].Tree[s.path]))
				}
				if bin || (s.blob && ob) {
					must = true
				} else if pm && (!s.blob && s.st == 'R' || np > 1) {
					may = true
				}
			}
			f := RefFile{Binary: must, Either: may, Lines: ls, Attr: a}
			mark[p] = must || may
			if np <= 1 {
				if ss[0].changed || np == 0 {
					rep[p] = f
				}
			} else {
				switch {
				case nUnchanged == 0:
					rep[p] = f
				case nUnchanged == np:
				case must:
					// differs from one parent only, but the two sides cannot be resolved line by line
					rep[p] = f
				case may:
					f.Optional = true
					rep[p] = f
				}
			}
		}
		for i := 0; i < np; i++ {
			for _, d := range diffs[i] {
				if d.Status == 'D' {
					if _, ok := n.Tree[d.Src]; ok {
						continue
					}
					rep[d.Src] = RefFile{Removed: true}
				}
			}
		}
		r.Attr = append(r.Attr, attr)
		r.Mark = append(r.Mark, mark)
		r.Reported = append(r.Reported, rep)
	}
	return r
}

func union(a, b []string) []string {
	for _, x := range b {
		if !contains(a, x) {
			a = append(a[:len(a):len(a)], x)
		}
	}
	return a
}

func contains(a []string, x string) bool {
	for _, y := range a {
		if x == y {
			return true
		}
	}
	return false
}

// Describe renders a history for a report.
func Describe(h History, shas []string) string {
	var b strings.Builder
	for i, n := range h.Nodes {
		s := ""
		if shas != nil {
			s = shas[i][:10]
		}
		fmt.Fprintf(&b, "n%d %s parents=%v", i, s, n.Parents)
		if n.Time != 0 {
			fmt.Fprintf(&b, " time=%d", n.Time)
		}
		if n.Msg != "" || n.RawMsg {
			fmt.Fprintf(&b, " message=%q", cut(n.Msg))
		}
		if n.Author != nil {
			fmt.Fprintf(&b, " author=%q", cut(n.Author.String()))
		}
		if n.Committer != nil {
			fmt.Fprintf(&b, " committer=%q", cut(n.Committer.String()))
		}
		if n.Headers != "" {
			fmt.Fprintf(&b, " headers=%q", n.Headers)
		}
		b.WriteString("\n")
		var ps []string
		for p := range n.Tree {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		for _, p := range ps {
			d := n.Tree[p].Data
			if len(d) > 200 {
				d = fmt.Sprintf("%s...(%d bytes)", d[:200], len(d))
			}
			fmt.Fprintf(&b, "   %s %q %q\n", n.Tree[p].Mode, p, d)
		}
	}
	return b.String()
}

func cut(s string) string {
	if len(s) > 200 {
		return fmt.Sprintf("%s...(%d bytes)", s[:200], len(s))
	}
	return s
}

// Scratch makes a scratch directory, in memory where possible.
func Scratch() (string, error) {
	base := os.Getenv("MC_SCRATCH")
	if base == "" {
		base = "/dev/shm"
		if st, err := os.Stat(base); err != nil || !st.IsDir() {
			base = os.TempDir()
		}
	}
	d, err := os.MkdirTemp(base, "mc-")
	if err != nil {
		d, err = os.MkdirTemp("", "mc-")
	}
	return filepath.Clean(d), err
}
