package props

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	"verif/mc/eng"
	"verif/mc/gitx"
	"verif/mc/hist"

	"github.com/boyter/scc/processor"
	"github.com/pinpt/ripsrc/ripsrc"
	"github.com/pinpt/ripsrc/ripsrc/fileinfo"
)

const skipRemoved, skipGenerated = "File was removed", "file was a generated file"

// lineKinds classifies lines with the line counter itself.
type lineKinds struct {
	kind []processor.LineType
}

func (k *lineKinds) ProcessLine(job *processor.FileJob, line int64, t processor.LineType) bool {
	for int64(len(k.kind)) < line {
		k.kind = append(k.kind, processor.LineType(-1))
	}
	k.kind[line-1] = t
	return true
}

var generatedMarks = []string{"GENERATED", "DO NOT EDIT", "DO NOT MODIFY", "machine generated"}

// wantCode is the expected join for one file of one commit.
type wantCode struct {
	ref  hist.RefFile
	meta metaFile
	open bool // the status is open
}

type author struct {
	name, email string
	time        int64
	tz          int
}

// codeAuthors gives every node its own author, with names that repeat now and then.
func codeAuthors(h hist.History) (hist.History, []author) {
	r := hist.History{Name: h.Name}
	var as []author
	for i, n := range h.Nodes {
		a := author{fmt.Sprint("Author ", i%3), fmt.Sprintf("a%d@example.com", i), hist.BaseTime + int64(i)*77, []int{0, 3600, -5400}[i%3]}
		n.Author = &gitx.Ident{Name: a.name, Email: a.email, Time: a.time, TZ: []string{"+0000", "+0100", "-0130"}[i%3]}
		if i == 1 {
			a.name = ""
			n.Author.Name = ""
		}
		as = append(as, a)
		r.Nodes = append(r.Nodes, n)
	}
	return r, as
}

// compareCode checks one result against blame reference, metadata and the line counter.
func compareCode(path string, w wantCode, got ripsrc.BlameResult, who func(sha string) (author, bool)) string {
	if got.Filename != path {
		return fmt.Sprintf("is called %q", got.Filename)
	}
	if !w.open && string(got.Status) != w.meta.Status {
		return fmt.Sprintf("status is %q, expected %q", got.Status, w.meta.Status)
	}
	if (got.Skipped == skipRemoved) != w.ref.Removed {
		return fmt.Sprintf("removed is %v, skipped is %q", w.ref.Removed, got.Skipped)
	}
	if (string(got.Status) == "removed") != w.ref.Removed {
		return fmt.Sprintf("removed is %v, status is %q", w.ref.Removed, got.Status)
	}
	if w.ref.Removed {
		if len(got.Lines) != 0 || got.Loc != 0 || got.Size != 0 {
			return "removed file has content"
		}
		return ""
	}
	lines := w.ref.Lines
	if w.ref.Binary || w.ref.Either && len(got.Lines) == 0 {
		lines = nil
	}
	var content []byte
	var bl [][]byte
	for _, l := range lines {
		l = hist.Trim(l)
		bl = append(bl, []byte(l))
		content = append(content, l+"\n"...)
	}
	info, skip := fileinfo.New().GetInfo(fileinfo.InfoArgs{FilePath: path, Content: content, Lines: bl})
	if !reflect.DeepEqual(got.License, info.License) {
		return fmt.Sprintf("license is %v, expected %v", got.License, info.License)
	}
	if skip != "" {
		if got.Skipped != skip {
			return fmt.Sprintf("skipped is %q, expected %q", got.Skipped, skip)
		}
		if len(got.Lines) != 0 {
			return fmt.Sprintf("skipped (%s) and has %d lines", skip, len(got.Lines))
		}
		return ""
	}
	if len(got.Lines) != len(lines) {
		return fmt.Sprintf("has %d lines, expected %d", len(got.Lines), len(lines))
	}
	k := &lineKinds{}
	job := &processor.FileJob{Filename: path, Language: info.Language, Content: content, Callback: k}
	processor.CountStats(job)
	gen := false
	for i := range lines {
		if i < len(k.kind) && k.kind[i] == processor.LINE_COMMENT {
			for _, m := range generatedMarks {
				gen = gen || strings.Contains(string(bl[i]), m)
			}
		}
	}
	if (got.Skipped == skipGenerated) != gen || !gen && got.Skipped != "" {
		return fmt.Sprintf("skipped is %q, generated is %v", got.Skipped, gen)
	}
	lang := info.Language
	if gen {
		lang = ""
	}
	if got.Language != lang {
		return fmt.Sprintf("language is %q, expected %q", got.Language, lang)
	}
	if got.Size != int64(len(content)) {
		return fmt.Sprintf("size is %d, expected %d", got.Size, len(content))
	}
	if !gen {
		if got.Loc != job.Lines || got.Sloc != job.Code || got.Comments != job.Comment || got.Blanks != job.Blank || got.Complexity != job.Complexity || got.WeightedComplexity != job.WeightedComplexity {
			return fmt.Sprintf("counts are %d %d %d %d %d, expected %d %d %d %d %d", got.Loc, got.Sloc, got.Comments, got.Blanks, got.Complexity, job.Lines, job.Code, job.Comment, job.Blank, job.Complexity)
		}
		if got.Loc != int64(len(lines)) || got.Loc != got.Sloc+got.Comments+got.Blanks {
			return fmt.Sprintf("%d lines are counted as %d: %d code, %d comments, %d blank", len(lines), got.Loc, got.Sloc, got.Comments, got.Blanks)
		}
	}
	for i, l := range got.Lines {
		ok := false
		for _, s := range w.ref.Attr[i] {
			ok = ok || s == l.SHA
		}
		if !ok {
			return fmt.Sprintf("line %d is from %q, expected %q", i, l.SHA, w.ref.Attr[i])
		}
		a, ok := who(l.SHA)
		if !ok || l.Name != a.name || l.Email != a.email || l.Date.Unix() != a.time {
			return fmt.Sprintf("line %d of commit %s has author %q <%s> %v, expected %q <%s> %v", i, l.SHA, l.Name, l.Email, l.Date, a.name, a.email, time.Unix(a.time, 0))
		}
		if _, z := l.Date.Zone(); z != a.tz {
			return fmt.Sprintf("line %d: date %v is not in zone %d", i, l.Date, a.tz)
		}
		if gen {
			continue
		}
		n := 0
		for _, f := range []bool{l.Code, l.Comment, l.Blank} {
			if f {
				n++
			}
		}
		if n != 1 || l.Code != (k.kind[i] == processor.LINE_CODE) || l.Comment != (k.kind[i] == processor.LINE_COMMENT) || l.Blank != (k.kind[i] == processor.LINE_BLANK) {
			return fmt.Sprintf("line %d %q: code %v, comment %v, blank %v", i, bl[i], l.Code, l.Comment, l.Blank)
		}
	}
	return ""
}

// codeRun is what the public interface reports, by commit.
type codeCommit struct {
	sha   string
	c     ripsrc.Commit
	files map[string]ripsrc.BlameResult
	dup   string
}

func runByCommit(o ripsrc.Opts) (res []codeCommit, _ error) {
	ch := make(chan ripsrc.CommitCode)
	done := make(chan bool)
	go func() {
		for x := range ch {
			cc := codeCommit{sha: x.SHA, c: x.Commit, files: map[string]ripsrc.BlameResult{}}
			for f := range x.Blames {
				if _, ok := cc.files[f.Filename]; ok {
					cc.dup = f.Filename
				}
				cc.files[f.Filename] = f
			}
			res = append(res, cc)
		}
		done <- true
	}()
	err := ripsrc.New(o).CodeByCommit(context.Background(), ch)
	<-done
	return res, err
}

// codeCheck compares the results of one run. scope: which nodes must be there.
type codeCase struct {
	p    *prepared
	raw  map[string][][]hist.RawChange
	als  map[string][][][]int
	auth [][]author
}

func prepCode(c *eng.Ctx, hs []hist.History) (*codeCase, []hist.History, error) {
	k := &codeCase{}
	var xs []hist.History
	for _, h := range hs {
		h, a := codeAuthors(h)
		xs = append(xs, h)
		k.auth = append(k.auth, a)
	}
	p, err := prep(c, xs)
	if err != nil {
		return nil, nil, err
	}
	k.p = p
	if k.raw, err = hist.RawDiffs(p.Repo, p.B); err != nil {
		return nil, nil, err
	}
	if k.als, err = hist.Aligns(p.Repo, p.B, k.raw); err != nil {
		return nil, nil, err
	}
	return k, xs, nil
}

func (k *codeCase) who(sha string) (author, bool) {
	w, ok := k.p.B.Where[sha]
	if !ok {
		return author{}, false
	}
	return k.auth[w[0]][w[1]], true
}

// check compares; in says which nodes are in scope.
func (k *codeCase) check(c *eng.Ctx, units []int, what string, res []codeCommit, in func(hi, ni int) bool) {
	seen := map[string]bool{}
	for _, x := range res {
		w, ok := k.p.B.Where[x.sha]
		if !ok {
			c.Fail(units[0], "%s: unknown commit %q", what, x.sha)
			return
		}
		u := units[w[0]]
		h := k.p.B.Hists[w[0]]
		pre := fmt.Sprintf("%scommit n%d", what, w[1])
		if !in(w[0], w[1]) {
			c.Fail(u, "%s is not in the range asked for", pre)
			continue
		}
		if seen[x.sha] {
			c.Fail(u, "%s comes twice", pre)
			continue
		}
		seen[x.sha] = true
		for _, q := range h.Nodes[w[1]].Parents {
			if in(w[0], q) && !seen[k.p.B.SHA[w[0]][q]] {
				c.Fail(u, "%s comes before its parent n%d", pre, q)
			}
		}
		if x.dup != "" {
			c.Fail(u, "%s: file %q comes twice", pre, x.dup)
			continue
		}
		a := k.auth[w[0]][w[1]]
		if x.c.AuthorName != a.name || x.c.AuthorEmail != a.email || x.c.Date.Unix() != a.time {
			c.Fail(u, "%s: author is %q <%s>", pre, x.c.AuthorName, x.c.AuthorEmail)
			continue
		}
		var par []string
		for _, q := range h.Nodes[w[1]].Parents {
			par = append(par, k.p.B.SHA[w[0]][q])
		}
		if strings.Join(x.c.Parents, " ") != strings.Join(par, " ") {
			c.Fail(u, "%s: parents are %q, expected %q", pre, x.c.Parents, par)
			continue
		}
		merge := len(h.Nodes[w[1]].Parents) > 1
		meta := wantFiles(h, w[1], k.raw[x.sha], k.als[x.sha])
		if merge && arrowed(meta) {
			// known finding of C12
			continue
		}
		for _, p := range hist.Keys(k.p.Refs[w[0]].Reported[w[1]]) {
			ref := k.p.Refs[w[0]].Reported[w[1]][p]
			m, ok := meta[p]
			g, have := x.files[p]
			if !have {
				if ok && !ref.Optional {
					c.Fail(u, "%s: file %q is missing", pre, p)
				}
				continue
			}
			c.Add("files", 1)
			if !reflect.DeepEqual(g.Commit, x.c) {
				c.Fail(u, "%s: file %q has commit %.300v, the commit is %.300v", pre, p, g.Commit, x.c)
			}
			if s := compareCode(p, wantCode{ref, m, m.StatusOpen || merge}, g, k.who); s != "" {
				c.Fail(u, "%s: file %q: %s", pre, p, s)
			}
		}
		for p := range x.files {
			if _, ok := k.p.Refs[w[0]].Reported[w[1]][p]; !ok {
				c.Fail(u, "%s: file %q did not change", pre, p)
			}
		}
	}
	for hi, h := range k.p.B.Hists {
		for ni := range h.Nodes {
			if in(hi, ni) && !seen[k.p.B.SHA[hi][ni]] {
				c.Fail(units[hi], "%scommit n%d is missing", what, ni)
			}
		}
	}
}

func runCode(c *eng.Ctx, units []int, hs []hist.History) error {
	k, xs, err := prepCode(c, hs)
	if err != nil {
		return err
	}
	defer os.RemoveAll(k.p.Dir)
	o := ripsrc.Opts{RepoDir: k.p.Repo, Logger: hist.Quiet{}, AllBranches: true, CheckpointsDir: filepath.Join(k.p.Dir, "cp")}
	res, err := runByCommit(o)
	if err != nil {
		c.Fail(units[0], "processing fails: %v", err)
		return nil
	}
	for hi, h := range xs {
		noteStates(c, h, k.p.B.SHA[hi], k.p.Refs[hi])
	}
	k.check(c, units, "", res, func(int, int) bool { return true })
	if c.Failed() {
		return nil
	}
	// the other entry points give the same
	flat, err := ripsrc.New(o).CodeSlice(context.Background())
	if err != nil {
		c.Fail(units[0], "the second run fails: %v", err)
		return nil
	}
	i := 0
	for _, x := range res {
		for range x.files {
			if i >= len(flat) || !reflect.DeepEqual(x.files[flat[i].Filename], flat[i]) {
				c.Fail(units[0], "the list of files differs from the list by commit at %d", i)
				return nil
			}
			i++
		}
	}
	if i != len(flat) {
		c.Fail(units[0], "the list of files has %d entries, the list by commit %d", len(flat), i)
	}
	return nil
}

func (x idx) code(name string, batch int) eng.Space {
	return eng.Space{Name: name, Rule: x.rule, Size: x.size, Batch: batch,
		Desc: func(i int) string { return hist.Describe(*x.at(i), nil) },
		Exec: func(c *eng.Ctx, units []int) error {
			var hs []hist.History
			for _, u := range units {
				hs = append(hs, *x.at(u))
			}
			return runCode(c, units, hs)
		}}
}

// goFiles gives all files of a family a name with a known language.
func (x idx) goFiles() idx {
	at := x.at
	x.at = func(i int) *hist.History {
		h := *at(i)
		r := &hist.History{Name: h.Name}
		for _, n := range h.Nodes {
			t := gitx.Tree{}
			for p, e := range n.Tree {
				t[p+".go"] = e
			}
			n.Tree = t
			r.Nodes = append(r.Nodes, n)
		}
		return r
	}
	return x
}

// codeIncr: every stop, then everything after it.
func codeIncr(c *eng.Ctx, unit int, h hist.History) error {
	k, xs, err := prepCode(c, []hist.History{h})
	if err != nil {
		return err
	}
	defer os.RemoveAll(k.p.Dir)
	h = xs[0]
	noteStates(c, h, k.p.B.SHA[0], k.p.Refs[0])
	anc := ancestors(h)
	r := &gitx.Repo{Dir: k.p.Repo}
	set := func(i int) error {
		return r.SetRefs(map[string]string{"refs/heads/master": k.p.B.SHA[0][i]})
	}
	for t1 := range h.Nodes {
		if err := set(t1); err != nil {
			return err
		}
		cp1 := filepath.Join(k.p.Dir, fmt.Sprint("cp", t1))
		res, err := runByCommit(ripsrc.Opts{RepoDir: k.p.Repo, Logger: hist.Quiet{}, CheckpointsDir: cp1})
		what := fmt.Sprintf("HEAD n%d: ", t1)
		if err != nil {
			c.Fail(unit, "%s%v", what, err)
			return nil
		}
		k.check(c, []int{unit}, what, res, func(_, ni int) bool { return anc[t1].has(ni) })
		for t2 := t1 + 1; t2 < len(h.Nodes); t2++ {
			if !anc[t2].has(t1) {
				continue
			}
			if err := set(t2); err != nil {
				return err
			}
			for _, non := range []bool{false, true} {
				cp2 := filepath.Join(k.p.Dir, fmt.Sprint("cp", t1, "-", t2, non))
				if err := copyDir(cp1, cp2); err != nil {
					return err
				}
				what := fmt.Sprintf("HEAD n%d, from n%d (non-inclusive %v): ", t2, t1, non)
				res, err := runByCommit(ripsrc.Opts{RepoDir: k.p.Repo, Logger: hist.Quiet{}, CheckpointsDir: cp2, CommitFromIncl: k.p.B.SHA[0][t1], CommitFromMakeNonIncl: non, AllBranches: t2%2 == 0})
				if err != nil {
					c.Fail(unit, "%s%v", what, err)
					return nil
				}
				want := anc[t2] &^ anc[t1]
				if !non {
					want = anc[t2]
					for _, q := range h.Nodes[t1].Parents {
						want &^= anc[q]
					}
				}
				k.check(c, []int{unit}, what, res, func(_, ni int) bool { return want.has(ni) })
				c.Add("traces", 1)
			}
		}
	}
	return nil
}

// contentFamily: files of token sequences, many in one commit.
func contentSpace(name string, exts []string, toks []string, depth int) eng.Space {
	size := len(exts)
	for i := 0; i < depth; i++ {
		size *= len(toks)
	}
	at := func(i int) (string, string) {
		p := fmt.Sprintf("d%d/main%s", i, exts[i%len(exts)])
		s := ""
		for i /= len(exts); len(s) < 1000 && depth > 0; {
			for k := 0; k < depth; k++ {
				s += toks[i%len(toks)]
				i /= len(toks)
			}
			break
		}
		return p, s
	}
	return fileSpace(name, fmt.Sprintf("every file of %d tokens out of %q, for every extension of %q", depth, toks, exts), size, 4000, at)
}

// markSpace: what makes a file generated, and what does not.
func markSpace() eng.Space {
	exts := []string{".go", ".py", ".c", ".html", ".sql", ".zzz"}
	words := append([]string{"generated", "Do not edit", "GENERATE", "DONOTEDIT", "DO NOT  EDIT", "xGENERATEDx", "DO NOT EDIT\r", "Machine generated", "DO NOT MODIFY!"}, generatedMarks...)
	forms := []string{"// %s", "# %s", "-- %s", "/* %s */", "/*\n %s\n*/", "<!-- %s -->", "x = \"%s\"", "x // %s", "%s", "\"\"\"\n%s\n\"\"\"", "/* a */ x /* %s */", "\t//%s", "//\n//\n//%s"}
	before := []int{0, 1, 2, 10, 49, 50, 99, 100, 101, 255, 256, 999, 1000, 5000, 20000}
	size := len(exts) * len(words) * len(forms) * len(before)
	return fileSpace("marks", fmt.Sprintf("each of the words %q in each of the forms %q after each of %v lines of code, for every extension of %q", words, forms, before, exts), size, 400, func(i int) (string, string) {
		p := fmt.Sprintf("d%d/main%s", i, exts[i%len(exts)])
		i /= len(exts)
		n := before[i%len(before)]
		i /= len(before)
		return p, repeat("a\n", n) + fmt.Sprintf(forms[i%len(forms)], words[i/len(forms)]) + "\nb\n"
	})
}

// bigSpace: files around the limits, through the public interface.
func bigSpace() eng.Space {
	exts := []string{".go", ".zzz"}
	counts := []int{255, 256, 1000, 32767, 32768, 39998, 39999, 40000, 40001}
	widths := []int{0, 1, 22, 1090, 1095, 1096, 1097}
	size := len(exts) * len(counts) * len(widths)
	return fileSpace("big", fmt.Sprintf("files of each of %v lines, one of %v bytes, for every extension of %q", counts, widths, exts), size, 6, func(i int) (string, string) {
		p := fmt.Sprintf("d%d/main%s", i, exts[i%len(exts)])
		i /= len(exts)
		n := counts[i%len(counts)]
		w := widths[i/len(counts)]
		return p, repeat("x // y\n\n", (n-1)/2) + repeat("z", w) + "\n"
	})
}

// fileSpace: files that are added, then changed at the end, many in one commit.
func fileSpace(name, rule string, size, batch int, at func(i int) (string, string)) eng.Space {
	return eng.Space{Name: name, Rule: rule, Size: func() int { return size }, Batch: batch,
		Desc: func(i int) string { p, s := at(i); return fmt.Sprintf("%s: %q", p, s) },
		Exec: func(c *eng.Ctx, units []int) error {
			h := hist.History{Nodes: []hist.Node{{Tree: gitx.Tree{}}, {Tree: gitx.Tree{}, Parents: []int{0}}}}
			for _, u := range units {
				p, s := at(u)
				h.Nodes[0].Tree[p] = gitx.Entry{Mode: "100644", Data: s}
				h.Nodes[1].Tree[p] = gitx.Entry{Mode: "100644", Data: s + "zz\n"}
			}
			k, _, err := prepCode(c, []hist.History{h})
			if err != nil {
				return err
			}
			defer os.RemoveAll(k.p.Dir)
			res, err := runByCommit(ripsrc.Opts{RepoDir: k.p.Repo, Logger: hist.Quiet{}, CheckpointsDir: filepath.Join(k.p.Dir, "cp")})
			if err != nil || len(res) != 2 {
				c.Fail(units[0], "processing fails: %v, %d commits", err, len(res))
				return nil
			}
			for ni := range h.Nodes {
				for _, u := range units {
					p, s := at(u)
					g, ok := res[ni].files[p]
					if !ok {
						c.Fail(u, "commit n%d: file is missing", ni)
						continue
					}
					st := []string{"added", "modified"}[ni]
					if m := compareCode(p, wantCode{k.p.Refs[0].Reported[ni][p], metaFile{Status: st}, false}, g, k.who); m != "" {
						c.Fail(u, "commit n%d: %s", ni, m)
						continue
					}
					c.Add("transitions", 1)
					c.State(filepath.Ext(p), s, g.Loc, g.Sloc, g.Comments)
				}
			}
			c.Add("traces", len(units))
			return nil
		}}
}

func init() {
	eng.Register(eng.Check{ID: "C15", Level: "model_checking", Assume: []string{"which language a file is in and which lines are code or comments is what the used libraries say; built without license detection"}, Spaces: func(tier string) []eng.Space {
		toks := []string{"a", "\n", "//", "/*", "*/", "\"", "#", "GENERATED", " ", "\\"}
		const ir = "every HEAD, then every later HEAD from there, inclusive and not, through the public interface"
		r := []eng.Space{
			contentSpace("contents", []string{".go", ".py", ".zzz"}, toks, 4),
			contentSpace("characters", []string{".go", ".zzz"}, []string{"a", "\n", "\r\n", "\rb", "\t", "\xc3\xa9", "\xff", "\f", "\u2028", "\xef\xbb\xbf"}, 4), markSpace(), bigSpace(),
			linearFamily([]string{"f.go"}, []string{"T1", "T2", "T1x", "U", "E", "L", "B1", "S"}, 3).code("kinds", 700),
			linearFamily([]string{"f.go", "d/g.go"}, []string{"T1", "T2", "B1"}, 2).code("two-paths", 700),
			mergeFamily([]string{"f.go"}, []string{"T1", "T2", "U", "E", "L", "B1"}, 2).code("merges", 1000),
			mergeFamily([]string{"f.go", "g.go"}, []string{"T1", "T2"}, 2).code("merges-two", 1000),
			repeatFamily([]string{"f.go"}, []string{"T1", "T2", "B1"}).code("repeated", 1000),
			slotFamily(slotOpts{nodes: 4, slots: 1, maxPar: 2}).goFiles().each("stops", ir, codeIncr),
			nameFamily(awkward[:len(awkward)/2]).goFiles().code("names", 100),
			manyFamily([]int{1, 99, 100, 101, 130, 1000}).goFiles().code("many-files", 1), manyMerged([]int{1, 100, 101, 256}).goFiles().code("many-merged", 1),
			wideFamily([]int{3, 9, 60, 66}).goFiles().code("wide", 2), manyHunks([]int{9, 256, 1025}, true).goFiles().code("many-hunks", 2),
		}
		if tier == "thorough" {
			r = append(r, mergeFamily([]string{"f.go", "g.go"}, []string{"T1", "T2", "U"}, 2).code("merges-two-deep", 1000), nameFamily(awkward).goFiles().code("names-all", 100), contentSpace("contents-5", []string{".go", ".py", ".html", ".c", ".sql"}, toks, 5),
				linearFamily([]string{"f.go"}, []string{"T1", "T2", "U", "B1", "L"}, 3).each("stops-kinds", ir, codeIncr),
				mergeFamily([]string{"f.go"}, []string{"T1", "T2", "B1"}, 2).each("stops-merges", ir, codeIncr),
				mergeFamily([]string{"f.go"}, []string{"T1", "T2", "U", "B1"}, 3).code("octopus", 1000))
		}
		return r
	}})
}
