package props

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/pinpt/ripsrc/ripsrc"

	"verif/mc/eng"
	"verif/mc/gitx"
	"verif/mc/hist"
)

// A repository that is changed by somebody else between the git commands of a
// call.

// turnState is what HEAD and the refs are; values are names of commits.
type turnState struct{ head, main, dev, extra string }

func (s turnState) String() string {
	return fmt.Sprintf("HEAD=%s main=%s dev=%s extra=%s", s.head, s.main, s.dev, s.extra)
}

func (s turnState) get(ref string) string {
	switch ref {
	case "main":
		return s.main
	case "dev":
		return s.dev
	case "extra":
		return s.extra
	}
	return ""
}

// turn is one change; gc drops what cannot be reached any longer.
type turn struct{ field, value string }

func (t turn) apply(s turnState) turnState {
	switch t.field {
	case "HEAD":
		s.head = t.value
	case "main":
		s.main = t.value
	case "dev":
		s.dev = t.value
	case "extra":
		s.extra = t.value
	}
	return s
}

func (t turn) String() string {
	if t.field == "gc" {
		return "gc"
	}
	return fmt.Sprintf("%s becomes %q", t.field, t.value)
}

// m1 - m2 on r, d1 on r, d2 merges m1 into d1, x is m2 rewritten, o another root.
var turnCommits = []string{"r", "m1", "m2", "d1", "d2", "x", "o", "p"}

var allTurns = []turn{
	{"HEAD", "main"}, {"HEAD", "dev"}, {"HEAD", "@m1"}, {"HEAD", "none"},
	{"main", "m1"}, {"main", "m2"}, {"main", "x"}, {"main", "o"}, {"main", "d2"}, {"main", ""},
	{"dev", "d1"}, {"dev", "d2"}, {"dev", "m2"}, {"dev", ""},
	{"extra", "o"}, {"extra", "m1"},
}

var turnInits = []turnState{
	{"main", "m1", "d1", ""},
	{"main", "m2", "d2", ""},
	{"main", "d2", "d1", "x"},
	{"dev", "m2", "d1", ""},
	{"main", "x", "d2", "m2"},
	{"dev", "m1", "d2", "o"},
}

type turnEnv struct {
	*failEnv
	sha    map[string]string
	packs  string
	static map[string]turnResult
}

type turnResult struct {
	items []item
	err   error
}

func newTurnEnv(c *eng.Ctx) (*turnEnv, error) {
	f := &turnEnv{failEnv: &failEnv{dir: scratch(c)}, sha: map[string]string{}, static: map[string]turnResult{}}
	text := func(ls ...string) gitx.Tree {
		t := gitx.Tree{}
		for i := 0; i+1 < len(ls); i += 2 {
			t[ls[i]] = gitx.Entry{Mode: "100644", Data: ls[i+1]}
		}
		return t
	}
	h := hist.History{Nodes: []hist.Node{
		{Tree: text("a.go", "package a\n", "b.go", "// b\n")},
		{Parents: []int{0}, Tree: text("a.go", "package a\n", "b.go", "// b\n// m1\n")},
		{Parents: []int{1}, Tree: text("a.go", "package a\n", "b.go", "// b\n// m1\n// m2\n")},
		{Parents: []int{0}, Tree: text("a.go", "package a\n\nfunc f() {}\n", "b.go", "// b\n")},
		{Parents: []int{3, 1}, Tree: text("a.go", "package a\n\nfunc f() {}\n", "b.go", "// b\n// m1\n// d2\n")},
		{Parents: []int{1}, Tree: text("a.go", "package a\n", "b.go", "// b\n// m1\n// x\n")},
		{Tree: text("b.go", "// o\n")},
		{Parents: []int{0}, Tree: text("a.go", "package a\n", "b.go", "// b\n// p\n")}}}
	b := hist.Build([]hist.History{h})
	r, err := b.WriteRepo(filepath.Join(f.dir, "r"))
	if err != nil {
		return nil, err
	}
	f.repo = r
	for i, n := range turnCommits {
		f.sha[n] = b.SHA[0][i]
	}
	f.tip, f.from = f.sha["m1"], f.sha["m1"]
	f.prs = []string{f.sha["r"], f.sha["p"]}
	f.packs = filepath.Join(f.dir, "packs")
	if err := copyDir(filepath.Join(r.Dir, ".git/objects/pack"), f.packs); err != nil {
		return nil, err
	}
	if err := f.set(turnState{"@m1", "m1", "", ""}); err != nil {
		return nil, err
	}
	f.cp = filepath.Join(f.dir, "cp")
	if _, err := ripsrc.New(ripsrc.Opts{RepoDir: r.Dir, CheckpointsDir: f.cp, Logger: mute{}}).CodeSlice(context.Background()); err != nil {
		return nil, err
	}
	return f, nil
}

func (f *turnEnv) files(s turnState) (head, refs string) {
	head = "ref: refs/heads/" + s.head
	if s.head[0] == '@' {
		head = f.sha[s.head[1:]]
	}
	m := map[string]string{"keep": "p", "main": s.main, "dev": s.dev, "extra": s.extra}
	refs = "# pack-refs with: sorted \n"
	for _, n := range []string{"dev", "extra", "keep", "main"} {
		if m[n] != "" {
			refs += f.sha[m[n]] + " refs/heads/" + n + "\n"
		}
	}
	return head + "\n", refs
}

// headSHA is "" when HEAD is no commit.
func (f *turnEnv) headSHA(s turnState) string {
	if s.head[0] == '@' {
		return f.sha[s.head[1:]]
	}
	return f.sha[s.get(s.head)]
}

func (f *turnEnv) set(s turnState) error {
	head, refs := f.files(s)
	g := filepath.Join(f.repo.Dir, ".git")
	if err := os.WriteFile(filepath.Join(g, "HEAD"), []byte(head), 0666); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(g, "packed-refs"), []byte(refs), 0666)
}

// script makes the turn from state s on.
func (f *turnEnv) script(dir string, n int, s turnState, t turn) (string, error) {
	g := filepath.Join(f.repo.Dir, ".git")
	if t.field == "gc" {
		return fmt.Sprintf("TG_DIR= \"$FG_GIT\" -C '%s' repack -adq\ntrue\n", g), nil
	}
	head, refs := f.files(t.apply(s))
	a, b := filepath.Join(dir, fmt.Sprint("head.", n)), filepath.Join(dir, fmt.Sprint("refs.", n))
	if err := os.WriteFile(a, []byte(head), 0666); err != nil {
		return "", err
	}
	if err := os.WriteFile(b, []byte(refs), 0666); err != nil {
		return "", err
	}
	return fmt.Sprintf("mv '%s' '%s/HEAD'\nmv '%s' '%s/packed-refs'\n", a, g, b, g), nil
}

// still is what the call gives when nothing changes.
func (f *turnEnv) still(name string, s turnState) (turnResult, error) {
	k := name + " " + s.String()
	if r, ok := f.static[k]; ok {
		return r, nil
	}
	if err := f.set(s); err != nil {
		return turnResult{}, err
	}
	items, err := failCalls(name)(f.failEnv)()
	r := turnResult{noOrdinal(items), err}
	f.static[k] = r
	return r, nil
}

// mixed are the states with the default branch's name, its commit and the other
// branches from states that followed each other.
func mixed(ss []turnState) (l []turnState) {
	for i := range ss {
		if ss[i].head[0] == '@' {
			continue
		}
		for j := i; j < len(ss); j++ {
			for k := j; k < len(ss); k++ {
				s := ss[k]
				s.head = ss[i].head
				v := ss[j].get(s.head)
				if v == "" {
					continue
				}
				switch s.head {
				case "main":
					s.main = v
				case "dev":
					s.dev = v
				}
				l = append(l, s)
			}
		}
	}
	return
}

// allowed are the results a call may give.
func (f *turnEnv) allowed(name string, ss []turnState) ([]turnResult, error) {
	if name == "branches" || name == "branches-worker" || name == "default" {
		ss = mixed(ss)
	}
	var l []turnResult
	for _, s := range ss {
		if (name == "code" || name == "code-by-commit") && f.headSHA(s) == "" {
			// that HEAD is a commit is checked before
			s.head = "@p"
		}
		r, err := f.still(name, s)
		if err != nil {
			return nil, err
		}
		l = append(l, r)
	}
	return l, nil
}

func split(l []item) (code, branches []item) {
	for _, x := range l {
		if x.group == "branches" {
			x.group = ""
			branches = append(branches, x)
		} else {
			code = append(code, x)
		}
	}
	return
}

// position of the commit in the metadata, which is read before the log
var ordinal = regexp.MustCompile(`Ordinal:\d+`)

func noOrdinal(l []item) (r []item) {
	for _, x := range l {
		x.text = ordinal.ReplaceAllString(x.text, "")
		r = append(r, x)
	}
	return
}

func (f *turnEnv) judge(name string, got []item, goterr error, ss []turnState) (string, error) {
	if name == "code-then-branches" {
		a, b := split(got)
		var e error
		if goterr != nil && len(b) == 0 {
			e = goterr
		}
		d, err := f.judge("code", a, e, ss)
		if d != "" || err != nil || e != nil {
			return d, err
		}
		return f.judge("branches", b, goterr, ss)
	}
	got = noOrdinal(got)
	as, err := f.allowed(name, ss)
	if err != nil {
		return "", err
	}
	if goterr != nil && len(got) == 0 {
		return "", nil
	}
	why := []string{"that is none of the states' results"}
	var d string
	for _, a := range as {
		if goterr != nil {
			if d = part(got, a.items); d == "" {
				return "", nil
			}
		} else if a.err == nil {
			if d = whole(got, a.items); d == "" {
				return "", nil
			}
		} else {
			d = fmt.Sprint("the error is missing: ", a.err)
		}
		why = append(why, d)
	}
	return strings.Join(why, "; "), nil
}

// resume continues from the checkpoint the last call wrote.
func (f *turnEnv) resume(cp, from string) (l []item, err error) {
	d := f.fresh()
	if _, err := os.Stat(cp); err == nil {
		if err := copyDir(cp, d); err != nil {
			return nil, err
		}
	}
	defer os.RemoveAll(d)
	bs, err := ripsrc.New(ripsrc.Opts{RepoDir: f.repo.Dir, CheckpointsDir: d, Logger: mute{}, CommitFromIncl: from}).CodeSlice(context.Background())
	for _, b := range bs {
		l = append(l, blameItem(b))
	}
	l = noOrdinal(l)
	return
}

var turnNames = []string{"code", "code-head", "code-by-commit", "code-resume", "branches", "branches-worker", "blame", "blame-resume", "meta", "meta-map", "graph", "branch-list", "default", "code-then-branches"}

type turnCase struct {
	call string
	init turnState
}

func (k turnCase) String() string { return k.call + " on " + k.init.String() }

func turnSpace(name, rule string, inits []turnState, pairs func(a, b turn) bool, solo bool) eng.Space {
	var cs []turnCase
	for _, call := range turnNames {
		for _, i := range inits {
			cs = append(cs, turnCase{call, i})
		}
	}
	return eng.Space{Name: name, Rule: rule, Size: func() int { return len(cs) }, Batch: 1, Timeout: 15 * time.Minute,
		Desc: func(i int) string { return cs[i].String() },
		Exec: func(c *eng.Ctx, units []int) error {
			for _, u := range units {
				if err := turnOne(c, u, cs[u], pairs, solo); err != nil {
					return err
				}
			}
			return nil
		}}
}

type timed struct {
	at int
	turn
}

func turnOne(c *eng.Ctx, u int, k turnCase, pairs func(a, b turn) bool, solo bool) error {
	bin := os.Getenv("MC_GIT")
	if bin == "" {
		return fmt.Errorf("MC_GIT is not set")
	}
	real, err := exec.LookPath("git")
	if err != nil {
		return err
	}
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer null.Close()
	defer func(e *os.File, p string) { os.Stderr = e; os.Setenv("PATH", p); os.Setenv("TG_DIR", "") }(os.Stderr, os.Getenv("PATH"))
	os.Stderr = null
	f, err := newTurnEnv(c)
	if err != nil {
		return err
	}
	path := os.Getenv("PATH")
	os.Setenv("FG_GIT", real)
	n := 0
	defer func() { c.Add("traces", n); c.Add("transitions", n) }()
	call := failCalls(k.call)
	// one run, with these turns; how many commands it ran
	one := func(ts []timed) (int, error) {
		n++
		if err := f.set(k.init); err != nil {
			return 0, err
		}
		g := call(f.failEnv)
		cp := filepath.Join(f.dir, fmt.Sprint("w", f.n))
		defer os.RemoveAll(cp)
		dir := f.fresh()
		defer os.RemoveAll(dir)
		if err := os.MkdirAll(dir, 0777); err != nil {
			return 0, err
		}
		ss := []turnState{k.init}
		scripts := map[int]string{}
		gc := false
		for i, t := range ts {
			s, err := f.script(dir, i, ss[len(ss)-1], t.turn)
			if err != nil {
				return 0, err
			}
			scripts[t.at] += s
			gc = gc || t.field == "gc"
			ss = append(ss, t.apply(ss[len(ss)-1]))
		}
		for at, s := range scripts {
			if err := os.WriteFile(filepath.Join(dir, fmt.Sprint("turn.", at)), []byte(s), 0666); err != nil {
				return 0, err
			}
		}
		os.Setenv("TG_DIR", dir)
		os.Setenv("PATH", filepath.Dir(bin)+":"+path)
		got, goterr := g()
		os.Setenv("TG_DIR", "")
		os.Setenv("PATH", path)
		es, err := os.ReadDir(dir)
		if err != nil {
			return 0, err
		}
		cmds := 0
		for _, e := range es {
			if !strings.Contains(e.Name(), ".") {
				cmds++
			}
		}
		if gc {
			p := filepath.Join(f.repo.Dir, ".git/objects/pack")
			os.RemoveAll(p)
			if err := copyDir(f.packs, p); err != nil {
				return 0, err
			}
		}
		what := func() string {
			var l []string
			for _, t := range ts {
				l = append(l, fmt.Sprintf("before git command %d %s", t.at, t.turn))
			}
			return fmt.Sprintf("%s, %s", k, strings.Join(l, ", "))
		}
		d, err := f.judge(k.call, got, goterr, ss)
		if err != nil {
			return 0, err
		}
		if d != "" {
			c.Fail(u, "%s: returned error %v, and %s", what(), goterr, d)
			return cmds, nil
		}
		last := ss[len(ss)-1]
		if k.call == "code" || k.call == "code-head" || k.call == "code-by-commit" || k.call == "code-resume" {
			// the checkpoint is of one of the states
			for _, s := range ss {
				from := f.headSHA(s)
				if from == "" {
					continue
				}
				key := fmt.Sprintf("resume %s: %s, %s", k.call, from, last)
				want, ok := f.static[key]
				if !ok {
					if err := f.set(s); err != nil {
						return 0, err
					}
					g := call(f.failEnv)
					d := filepath.Join(f.dir, fmt.Sprint("w", f.n))
					if _, err := g(); err == nil {
						if err := f.set(last); err != nil {
							return 0, err
						}
						want.items, want.err = f.resume(d, from)
					}
					f.static[key] = want
				}
				if err := f.set(last); err != nil {
					return 0, err
				}
				l, err := f.resume(cp, from)
				if err != nil {
					continue
				}
				if d := whole(l, want.items); d != "" || want.err != nil {
					c.Fail(u, "%s: returned error %v; resuming from %s then %s (%v)", what(), goterr, from, d, want.err)
					return cmds, nil
				}
			}
		}
		// again, on the same object
		if err := f.set(last); err != nil {
			return 0, err
		}
		got, goterr = g()
		if goterr == nil && k.call != "code-resume" && k.call != "blame-resume" {
			d, err := f.judge(k.call, got, goterr, []turnState{last})
			if err != nil {
				return 0, err
			}
			if d != "" {
				c.Fail(u, "%s: the second call on the object %s", what(), d)
			}
		}
		return cmds, nil
	}
	// the number of commands is the number of positions
	m, err := one(nil)
	if err != nil {
		return err
	}
	if c.Failed() {
		return nil
	}
	for ai, a := range allTurns {
		for p := 1; p <= m; p++ {
			s := a.apply(k.init)
			if s == k.init {
				continue
			}
			if solo {
				if _, err := one([]timed{{p, a}}); err != nil || c.Failed() {
					return err
				}
			}
			if pairs == nil {
				continue
			}
			for _, b := range append(allTurns[:len(allTurns):len(allTurns)], turn{"gc", ""}) {
				if (b.apply(s) == s && b.field != "gc") || !pairs(a, b) {
					continue
				}
				for q := p; q <= m; q++ {
					if _, err := one([]timed{{p, a}, {q, b}}); err != nil || c.Failed() {
						return err
					}
				}
			}
		}
		c.State(fmt.Sprint(k, ai, m))
	}
	var keys []string
	for k := range f.static {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, x := range keys {
		_, m := byGroup(f.static[x].items)
		c.State(x + fmt.Sprint(m, f.static[x].err != nil))
	}
	return nil
}

func init() {
	eng.Register(eng.Check{ID: "C22", Level: "model_checking", Assume: []string{"one git command sees one state of HEAD and the refs"}, Spaces: func(tier string) []eng.Space {
		sp := []eng.Space{turnSpace("one", "every call, a few states of the repository, every change of HEAD, of a branch, or a new branch, before every git command of the call: an error, or the results for a state the repository had (branches: default branch's name, its commit, and the other branches, in this order); before an error a prefix; the checkpoint is of one of the states", turnInits, nil, true)}
		if tier == "thorough" {
			sp = append(sp, turnSpace("two", "the same with every two changes, each before every command, and with unreachable objects dropped after a change", turnInits, func(a, b turn) bool { return true }, false))
		} else {
			sp = append(sp, turnSpace("gc", "the same with unreachable objects dropped after a change", turnInits[1:2], func(a, b turn) bool { return b.field == "gc" }, false))
		}
		return sp
	}})
}
