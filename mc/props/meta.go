package props

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/mc/eng"
	"verif/mc/gitx"
	"verif/mc/hist"

	"github.com/pinpt/ripsrc/ripsrc/commitmeta"
)

// gitMeta is what git itself says about a commit, in a machine format.
type gitMeta struct {
	SHA, AName, AEmail, CName, CEmail, Subject string
	Parents                                    []string
	Time                                       int64
	TZ                                         string
}

func readMeta(repo string) (map[string]gitMeta, error) {
	cmd := exec.Command("git", "log", "--all", "-z", "--no-show-signature", "--format=tformat:%H%x01%P%x01%an%x01%ae%x01%cn%x01%ce%x01%ad%x01%s", "--date=raw")
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, err
	}
	res := map[string]gitMeta{}
	for _, rec := range bytes.Split(out, []byte{0}) {
		if len(rec) == 0 {
			continue
		}
		f := strings.SplitN(string(rec), "\x01", 8)
		if len(f) != 8 {
			return nil, fmt.Errorf("git log: %q", rec)
		}
		m := gitMeta{SHA: f[0], AName: f[2], AEmail: f[3], CName: f[4], CEmail: f[5], Subject: f[7]}
		if f[1] != "" {
			m.Parents = strings.Split(f[1], " ")
		}
		d := strings.Fields(f[6])
		if len(d) == 2 {
			m.Time, _ = strconv.ParseInt(d[0], 10, 64)
			m.TZ = d[1]
		}
		res[m.SHA] = m
	}
	return res, nil
}

// metaFile is the expected change entry of a file.
type metaFile struct {
	Status                string
	Renamed               bool
	From, To              string
	Adds, Dels            int
	Binary                bool
	StatusOpen, CountOpen bool
	Removed               bool // the file is not in the commit
	Arrow                 bool // a name involved contains an arrow
}

// wantFiles derives the change entries of a node from git's raw comparison
// with the first parent.
func wantFiles(h hist.History, ni int, raw [][]hist.RawChange, als [][][]int) map[string]metaFile {
	n := h.Nodes[ni]
	res := map[string]metaFile{}
	var par gitx.Tree
	if len(n.Parents) > 0 {
		par = h.Nodes[n.Parents[0]].Tree
	}
	for k, ch := range raw[0] {
		f := metaFile{}
		ol, nl := len(hist.Lines(hist.Content(par[ch.Src]))), len(hist.Lines(hist.Content(n.Tree[ch.Dst])))
		if ch.Status == 'D' {
			nl = 0
		} else if ch.Status == 'A' {
			ol = 0
		}
		if al := als[0][k]; al != nil && ch.Status != 'T' {
			kept := 0
			for _, o := range al {
				if o >= 0 {
					kept++
				}
			}
			f.Adds, f.Dels = nl-kept, ol-kept
		} else {
			f.Adds, f.Dels = nl, ol
		}
		if ch.OldSHA == ch.NewSHA {
			f.Adds, f.Dels = 0, 0
		}
		if ch.Status != 'A' && hist.IsBinary(hist.Content(par[ch.Src])) || ch.Status != 'D' && hist.IsBinary(hist.Content(n.Tree[ch.Dst])) {
			f.Binary = true
			f.Adds, f.Dels = 0, 0
		}
		if ch.Status == 'T' {
			// git counts a type change as one text comparison
			f.CountOpen = true
		}
		plain := ch.NewMode == "100644" || ch.NewMode == "100755" || ch.Status == 'D'
		switch ch.Status {
		case 'A':
			f.Status = "added"
		case 'D':
			f.Status = "removed"
		case 'M', 'T':
			f.Status = "modified"
		case 'R':
			f.Status, f.Renamed, f.From, f.To = "added", true, ch.Src, ch.Dst
			if plain && len(n.Parents) < 2 {
				res[ch.Src] = metaFile{Status: "removed", Renamed: true, From: ch.Src, To: ch.Dst}
			}
		}
		f.Arrow = strings.Contains(ch.Src+"\x00"+ch.Dst, " => ")
		if !plain || len(n.Parents) > 1 {
			// symlinks and submodules, and files of merges: only that they changed
			f.StatusOpen, f.Renamed, f.From, f.To = true, false, "", ""
		}
		f.Removed = ch.Status == 'D'
		res[ch.Dst] = f
	}
	return res
}

func compareMeta(want gitMeta, files map[string]metaFile, got commitmeta.Commit) string {
	eq := func(what, g, w string) string {
		if hist.Trim(g) != hist.Trim(w) {
			return fmt.Sprintf("%s is %q, git says %q", what, g, w)
		}
		return ""
	}
	for _, s := range []string{eq("author name", got.AuthorName, want.AName), eq("author email", got.AuthorEmail, want.AEmail), eq("committer name", got.CommitterName, want.CName),
		eq("committer email", got.CommitterEmail, want.CEmail), eq("message", got.Message, want.Subject), eq("parents", strings.Join(got.Parents, " "), strings.Join(want.Parents, " "))} {
		if s != "" {
			return s
		}
	}
	if want.TZ != "" {
		if got.Date.Unix() != want.Time {
			return fmt.Sprintf("date is %v, git says %d", got.Date, want.Time)
		}
		tz, _ := strconv.Atoi(want.TZ)
		sec := (tz/100)*3600 + (tz%100)*60
		if _, off := got.Date.Zone(); off != sec {
			return fmt.Sprintf("date %v is in zone offset %d, git says %s", got.Date.Format(time.RFC3339), off, want.TZ)
		}
	}
	for _, p := range hist.Keys(files) {
		w := files[p]
		g := got.Files[p]
		if g == nil {
			return fmt.Sprintf("file %q is missing; has %q", p, hist.Keys(got.Files))
		}
		if g.Filename != p {
			return fmt.Sprintf("file %q is called %q", p, g.Filename)
		}
		if !w.StatusOpen {
			if string(g.Status) != w.Status {
				return fmt.Sprintf("file %q is %q, expected %q", p, g.Status, w.Status)
			}
			if g.Renamed != w.Renamed || g.RenamedFrom != w.From || g.RenamedTo != w.To {
				return fmt.Sprintf("file %q: rename %v %q -> %q, expected %v %q -> %q", p, g.Renamed, g.RenamedFrom, g.RenamedTo, w.Renamed, w.From, w.To)
			}
		}
		if w.StatusOpen && (string(g.Status) == "removed") != w.Removed {
			return fmt.Sprintf("file %q is %q, removed: %v", p, g.Status, w.Removed)
		}
		if g.Binary != w.Binary && !w.CountOpen {
			return fmt.Sprintf("file %q: binary %v, expected %v", p, g.Binary, w.Binary)
		}
		if !w.CountOpen && (g.Additions != w.Adds || g.Deletions != w.Dels) {
			return fmt.Sprintf("file %q: +%d -%d, expected +%d -%d", p, g.Additions, g.Deletions, w.Adds, w.Dels)
		}
	}
	for p := range got.Files {
		if _, ok := files[p]; !ok {
			return fmt.Sprintf("file %q did not change; changed: %q", p, hist.Keys(files))
		}
	}
	return ""
}

// runMeta checks commit metadata. arrows: also look at files of merges whose
// names contain an arrow (their own space).
func runMeta(c *eng.Ctx, units []int, hs []hist.History, arrows bool) error {
	dir := scratch(c)
	defer os.RemoveAll(dir)
	b := hist.Build(hs)
	r, err := b.WriteRepo(dir + "/r")
	if err != nil {
		return err
	}
	raw, err := hist.RawDiffs(r.Dir, b)
	if err != nil {
		return err
	}
	als, err := hist.Aligns(r.Dir, b, raw)
	if err != nil {
		return err
	}
	want, err := readMeta(r.Dir)
	if err != nil {
		return err
	}
	res, err := commitmeta.New(r.Dir, commitmeta.Opts{AllBranches: true}).RunSlice()
	if err != nil {
		if len(units) == 1 {
			c.Fail(units[0], "reading fails: %v", err)
			return nil
		}
		m := len(units) / 2
		if err := runMeta(c, units[:m], hs[:m], arrows); err != nil {
			return err
		}
		return runMeta(c, units[m:], hs[m:], arrows)
	}
	got := map[string]commitmeta.Commit{}
	for i, x := range res {
		w, ok := b.Where[x.SHA]
		if !ok {
			c.Fail(units[0], "commit %q does not exist", x.SHA)
			continue
		}
		if _, dup := got[x.SHA]; dup {
			c.Fail(units[w[0]], "commit n%d comes twice", w[1])
		}
		if x.Ordinal != int64(i+1) {
			c.Fail(units[w[0]], "commit n%d is number %d of the stream, its ordinal is %d", w[1], i+1, x.Ordinal)
		}
		got[x.SHA] = x
	}
	for hi, h := range hs {
		for ni := range h.Nodes {
			sha := b.SHA[hi][ni]
			g, ok := got[sha]
			if !ok {
				c.Fail(units[hi], "commit n%d is missing", ni)
				break
			}
			w := wantFiles(h, ni, raw[sha], als[sha])
			m := want[sha]
			if !arrows && len(m.Parents) > 1 && arrowed(w) {
				continue
			}
			c.State(m.AName, m.AEmail, m.CName, m.CEmail, m.TZ, m.Subject, len(m.Parents), sortedFiles(w))
			c.Add("transitions", 1)
			if s := compareMeta(m, w, g); s != "" {
				c.Fail(units[hi], "commit n%d %s: %s", ni, sha, s)
				break
			}
		}
		c.Add("traces", 1)
	}
	return nil
}

func arrowed(w map[string]metaFile) bool {
	for _, f := range w {
		if f.Arrow {
			return true
		}
	}
	return false
}

// arrowMerges: a merge changes, adds or renames a file with an arrow in its name.
func arrowMerges() idx {
	names := []string{"a => b", " => ", "a/{b => c}/d", "{a => b}"}
	e := entries
	return idx{"merges that change, add or rename to a file named with an arrow", func() int { return len(names) * 3 }, func(i int) *hist.History {
		n := names[i/3]
		h := chain(gitx.Tree{n: e["T1"], "o": e["U"]})
		if i%3 != 0 {
			h = chain(gitx.Tree{"f": e["T1"], "o": e["U"]})
		}
		m := gitx.Tree{n: e["T2"]}
		if i%3 == 1 {
			m["f"] = e["T1"]
		}
		h.Nodes = append(h.Nodes, hist.Node{Parents: []int{0}, Tree: h.Nodes[0].Tree}, hist.Node{Parents: []int{0, 1}, Tree: m})
		return h
	}}
}

func sortedFiles(w map[string]metaFile) string {
	var r []string
	for k, v := range w {
		r = append(r, fmt.Sprintf("%q%+v", k, v))
	}
	sort.Strings(r)
	return strings.Join(r, ",")
}

// metaSpace turns a space of histories into one of commit metadata.
func metaSpace(name, rule string, batch int, size func() int, at func(i int) *hist.History) eng.Space {
	return eng.Space{Name: name, Rule: rule, Size: size, Batch: batch,
		Desc: func(i int) string { return hist.Describe(*at(i), nil) },
		Exec: func(c *eng.Ctx, units []int) error {
			var hs []hist.History
			for _, u := range units {
				hs = append(hs, *at(u))
			}
			return runMeta(c, units, hs, strings.Contains(name, "arrow"))
		}}
}

var messages = []string{
	"", "\n", "plain\n", "no newline", "two\nlines\n", "subject\n\nbody\n", "\n\nleading blank lines\n", "  indented\n\n  body\n", "tab\there\tand\tthere\n", "1\t2\tf\n", "trailing space \nnext\n", "cr\r\nlf\r\n\r\nbody\r\n",
	"commit 0123456789012345678901234567890123456789\n", "s\n\ncommit 0123456789012345678901234567890123456789\nAuthor: x <y>\n\n    z\n\ndiff --git a/f b/f\nindex 1..2 100644\n--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n+b\n",
	"diff --git a/f b/f\n--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n+b\n", "Merge: 1 2\nAuthor: x <y>\n", "!SHA: 0123456789012345678901234567890123456789\n", "a\n!SHA: 0123456789012345678901234567890123456789\n!Parents: \n!Message: x\n",
	":100644 100644 1234567 1234567 M\tf\n", "!Message: x\n", "!Date: x\n", "%H %n %x00 %s\n", "\x01\n", "\x1b[31mred\x1b[0m\n", "é latin \xe9\n", "日本語\n", "\xff\xfe\n", "-\t-\tf\n", "@@ -1 +1 @@\n",
	" \n \n", "---\n", "Binary files a and b differ\n", "a => b\n", "\"quoted\"\n", "\\n\n", "\xef\xbb\xbfbom\n", "a\x0bb\x0cc\n", "\u2028\u2029\u0085\n", repeat("long ", 20000) + "\n", repeat("x", 70000) + "\n", repeat("word\n", 3000), repeat("y", 300000) + "\n\nbody\n",
}

var people = []string{"A U Thor", "", "É ÿ", "\xe9", "a\tb", "!SHA: 1", "commit 1", "O'Neil \"x\" \\", "a  b", "diff --git a/f b/f", "日本", "%an", repeat("n", 70000), "x (from y)", "\x1b[m", `"q"`, `"`, "'q'", ".,:;", "\\n", "[a]", "-", "..."}
var mails = []string{"a@example.com", "", "a b", "é@x", "[a@b]", "1\t2\tf", repeat("m", 70000), `"q"@b`, "\"m\"", "\u0027m\u0027", ".,;:"}
var zones = []string{"+0000", "-0000", "+0530", "-0930", "+1400", "-1200", "+0001", "-0059", "+0545", "+1245"}
var stamps = []int64{1500000000, 0, 1, 86399, 2147483647, 2147483648, 4102444800, 951782400}

// metaHistory is a history in which three commits carry the given metadata: a
// root, an empty one and a merge.
func metaHistory(msg string, a, cm *gitx.Ident, enc string) *hist.History {
	h := chain(one("x\n"), one("x\n"), one("x\ny\n"))
	h.Nodes = append(h.Nodes, hist.Node{Parents: []int{1}, Tree: one("x\n")}, hist.Node{Parents: []int{2, 3}, Tree: one("z\nx\ny\n")}, hist.Node{Parents: []int{4}, Tree: gitx.Tree{}})
	for i := range h.Nodes {
		if i == 2 {
			continue
		}
		h.Nodes[i].Msg, h.Nodes[i].RawMsg = msg, true
		h.Nodes[i].Headers = enc
		h.Nodes[i].Author, h.Nodes[i].Committer = a, cm
	}
	return h
}

func ident(n, e string, t int64, z string) *gitx.Ident {
	return &gitx.Ident{Name: n, Email: e, Time: t, TZ: z}
}

type idx struct {
	rule string
	size func() int
	at   func(i int) *hist.History
}

func messageFamily(pairs bool) idx {
	headers := []string{"", "encoding ISO-8859-1\n", "encoding nonsense\n", "gpgsig -----BEGIN PGP SIGNATURE-----\n \n x\n -----END PGP SIGNATURE-----\n", "mergetag object 0123456789012345678901234567890123456789\n type commit\n tag x\n tagger x <y> 1 +0000\n \n msg\n", "x-unknown diff --git a/f b/f\n"}
	n := len(messages)
	if pairs {
		n *= len(messages)
	}
	return idx{"every message of the alphabet (empty, multi-line, imitating log, patch, raw and stat lines, control characters, invalid encodings, up to 300 KB) with every extra commit header, on a root, an empty, a merge and a deleting commit" + opt(pairs, ", in every pair of messages"),
		func() int { return n * len(headers) },
		func(i int) *hist.History {
			hd := headers[i%len(headers)]
			i /= len(headers)
			h := metaHistory(messages[i%len(messages)], nil, nil, hd)
			if pairs {
				h.Nodes[2].Msg, h.Nodes[2].RawMsg = messages[i/len(messages)], true
			}
			return h
		}}
}

func peopleFamily() idx {
	return idx{"every combination of author name and email, with the committer's reversed through the same alphabets (empty, spaces, tabs, quotes, syntax, invalid encodings, 70 KB)",
		func() int { return len(people) * len(mails) * 2 },
		func(i int) *hist.History {
			sw := i%2 == 1
			i /= 2
			n, m := i%len(people), i/len(people)
			a := ident(people[n], mails[m], hist.BaseTime, "+0100")
			k := ident(people[len(people)-1-n], mails[len(mails)-1-m], hist.BaseTime+5, "-0200")
			if sw {
				a, k = k, a
			}
			return metaHistory("m\n", a, k, "")
		}}
}

func dateFamily(zs []string, ts []int64) idx {
	return idx{fmt.Sprintf("every combination of author time %v and zone %q, with committer times in another order", ts, zs),
		func() int { return len(zs) * len(ts) },
		func(i int) *hist.History {
			z, t := i%len(zs), i/len(zs)
			return metaHistory("m\n", ident("A", "a@b", ts[t], zs[z]), ident("C", "c@d", ts[len(ts)-1-t], zs[len(zs)-1-z]), "")
		}}
}

var oddZones = []string{"+2400", "-2500", "+9959", "+0060", "-7420", "+0000", "-0001"}
var oddStamps = []int64{0, 1, 59, 90000, 1500000000, 253402300799, 253402300800, 1 << 40, 8640000000000}
var rawIdents = []string{"A U Thor <a@b>", "A U Thor <a@b> x", "A U Thor <a@b> 1500000000", "A U Thor <a@b>  1500000000  +0100", "A <a@b> -5 +0000", "A <a@b> 99999999999999999999 +0000", "A <a@b> 1500000000 +01000", "A <a@b> 1500000000 0100", "A <a@b> 1500000000 UTC", "A <a <b> c> 1500000000 +0000", "A > b <c@d> 1500000000 +0000", "<> 1 +0000", "A 1500000000 +0000"}

func rawFamily() idx {
	return idx{fmt.Sprintf("every ordered pair of author and committer lines git may find in old or converted repositories: %q", rawIdents),
		func() int { return len(rawIdents) * len(rawIdents) },
		func(i int) *hist.History {
			return metaHistory("m\n", &gitx.Ident{Raw: rawIdents[i%len(rawIdents)]}, &gitx.Ident{Raw: rawIdents[i/len(rawIdents)]}, "")
		}}
}

func linearFamily(paths, names []string, depth int) idx {
	s := linearSpace("", paths, names, depth)
	ts := trees(paths, names)
	return idx{s.Rule, s.Size, func(i int) *hist.History {
		var seq []gitx.Tree
		for k := 0; k < depth; k++ {
			seq = append(seq, ts[i%len(ts)])
			i /= len(ts)
		}
		return chain(append(seq, probed(seq[depth-1]))...)
	}}
}

func mergeFamily(paths, names []string, sides int) idx {
	s := mergeSpace("", paths, names, sides)
	ts := trees(paths, names)
	return idx{s.Rule, s.Size, func(i int) *hist.History { return mergeHistory(ts, sides, i) }}
}

var repeats = [][]int{{1, 1}, {1, 2, 1}, {1, 1, 2}, {2, 1, 1}, {1, 2, 2}, {1, 1, 1}, {1, 2, 1, 2}}

// repeatFamily: merges that name the same commit as a parent more than once.
func repeatFamily(paths, names []string) idx {
	ts := trees(paths, names)
	return idx{fmt.Sprintf("every combination of a base tree, two side trees and a merge result over paths %q with entries %v or absent (%d trees), the merge having as parents %v of the base's children 1 and 2, then a commit touching every file", paths, names, len(ts), repeats),
		func() int { return len(ts) * len(ts) * len(ts) * len(ts) * len(repeats) },
		func(i int) *hist.History {
			h := mergeHistory(ts, 2, i/len(repeats))
			h.Nodes[3].Parents = repeats[i%len(repeats)]
			return h
		}}
}

// countFamily: every ordered pair of line counts around the limits of number
// representations, one file growing or shrinking and one replaced altogether.
func countFamily(counts []int) idx {
	return idx{fmt.Sprintf("every ordered pair of line counts %v of two files, one growing or shrinking at its end, one replaced altogether, then removed", counts),
		func() int { return len(counts) * len(counts) },
		func(i int) *hist.History {
			a, b := counts[i%len(counts)], counts[i/len(counts)]
			t := func(l string, n int) gitx.Entry { return gitx.Entry{Mode: "100644", Data: repeat(l, n)} }
			return chain(gitx.Tree{"f": t("x\n", a), "g": t("y\n", a), "o": t("o\n", 1)}, gitx.Tree{"f": t("x\n", b), "g": t("z\n", b), "o": t("o\n", 1)}, gitx.Tree{"o": t("o\n", 1)})
		}}
}

// manyFamily: many files, many commits, deep and long names.
func manyFamily(files []int) idx {
	return idx{fmt.Sprintf("commits that add, change, rename and remove %v files at once, in one directory or each in its own", files),
		func() int { return len(files) * 2 },
		func(i int) *hist.History {
			n, deep := files[i/2], i%2 == 1
			var ts [4]gitx.Tree
			for k := range ts {
				ts[k] = gitx.Tree{"keep": entries["U"]}
			}
			for k := 0; k < n; k++ {
				p := fmt.Sprint("f", k)
				if deep {
					p = fmt.Sprintf("%s/%d/x", strings.TrimSuffix(repeat(fmt.Sprintf("d%d/", k%7), 20), "/"), k)
				}
				body := fmt.Sprintf("file %d\n", k) + lines("t", 1, 4)
				ts[0][p] = gitx.Entry{Mode: "100644", Data: body}
				ts[1][p] = gitx.Entry{Mode: "100644", Data: body + "end\n"}
				ts[2]["r/"+p] = ts[1][p]
			}
			return chain(ts[:]...)
		}}
}

// longFamily: a chain of n commits touching one of two files in turn.
func longFamily(ns []int) idx {
	return idx{fmt.Sprintf("chains of %v commits", ns), func() int { return len(ns) },
		func(i int) *hist.History {
			var ts []gitx.Tree
			for k := 0; k < ns[i]; k++ {
				ts = append(ts, gitx.Tree{"f": {Mode: "100644", Data: fmt.Sprintf("a\n%d\nb\n", k/2)}, "g": {Mode: "100644", Data: lines("t", 0, (k+1)/2%5) + fmt.Sprintln(k)}})
			}
			return chain(ts...)
		}}
}

var lineCounts = []int{0, 1, 9, 100, 127, 128, 255, 256, 999, 1000, 9999, 32767, 32768, 65535, 65536, 100001}

func nameFamily(names []string) idx {
	pairs := namePairs(names)
	return idx{fmt.Sprintf("every ordered pair of %d awkward names walked through create, edit, rename, delete, swap, type and mode changes and merges", len(names)),
		func() int { return len(pairs) }, func(i int) *hist.History { return nameHistory(pairs[i][0], pairs[i][1]) }}
}

func (x idx) meta(name string, batch int) eng.Space {
	return metaSpace(name, x.rule, batch, x.size, x.at)
}
func (x idx) hist(name string, batch int) eng.Space {
	return histSpaceN(name, x.rule, batch, x.size, x.at)
}

func init() {
	eng.Register(eng.Check{ID: "C12", Level: "model_checking", Assume: []string{"git's own NUL-separated output is the reference for names, subjects and dates; the status of files in merges is not specified"}, Spaces: func(tier string) []eng.Space {
		r := []eng.Space{
			linearFamily([]string{"f", "g"}, []string{"T1", "T2", "T1x", "U", "E", "L", "B1", "B2"}, 2).meta("changes", 2000),
			linearFamily([]string{"f"}, []string{"T1", "T2", "T3", "T1x", "U", "E", "Ex", "L", "L2", "S", "S2", "B1", "B1x", "B2"}, 3).meta("kinds", 1000),
			linearFamily([]string{"a/f", "a/b/f", "f"}, []string{"T1", "T2"}, 3).meta("dirs", 2000),
			mergeFamily([]string{"f"}, []string{"T1", "T2", "T1x", "U", "E", "L", "B1"}, 2).meta("merges", 1000),
			mergeFamily([]string{"f", "g"}, []string{"T1", "T2", "E"}, 2).meta("merges-two", 2000),
			mergeFamily([]string{"f"}, []string{"T1", "T2", "B1"}, 3).meta("octopus", 1000),
			mergeFamily([]string{"f"}, []string{"T1", "B1"}, 4).meta("octopus-4", 1000),
			repeatFamily([]string{"f"}, []string{"T1", "T2", "U", "B1"}).meta("repeated", 1000),
			nameFamily(awkward).meta("names", 100),
			messageFamily(false).meta("messages", 30), peopleFamily().meta("people", 20), dateFamily(zones, stamps).meta("dates", 80),
			dateFamily(oddZones, oddStamps).meta("odd-dates", 30), rawFamily().meta("raw-idents", 30),
			countFamily(lineCounts).meta("counts", 16), manyFamily([]int{1, 99, 100, 101, 130, 1000, 2500}).meta("many-files", 1), wideFamily(wideCounts).meta("wide", 2), longFamily([]int{1, 2, 50, 300}).meta("long", 1),
			arrowMerges().meta("merge-arrows", 1),
		}
		return r
	}})
	eng.Register(eng.Check{ID: "C13", Level: "model_checking", Assume: histAssume, Spaces: func(tier string) []eng.Space {
		return []eng.Space{
			messageFamily(tier == "thorough").hist("messages", 30), peopleFamily().hist("people", 20), dateFamily(zones, stamps).hist("dates", 80),
			dateFamily(oddZones, oddStamps).hist("odd-dates", 30), rawFamily().hist("raw-idents", 30),
		}
	}})
}
