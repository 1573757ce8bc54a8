// Package eng is the exploration engine: it enumerates every unit of a bounded
// space, runs the units in worker processes (a crash or hang of the code under
// test must not end the run), narrows a failing batch to a single unit,
// confirms it in fresh processes and writes evidence.
package eng

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Space is one bounded set of units, identified by index.
type Space struct {
	Name  string
	Rule  string // what is enumerated and what makes a unit non-trivial
	Size  func() int
	Batch int // units handed to Exec at once
	// Exec runs the units. A failure is reported through the context; an error
	// returned means the machinery itself could not work.
	Exec func(c *Ctx, units []int) error
	Desc func(i int) string
	// Timeout of a batch in which nothing is reported (default 150 s).
	Timeout time.Duration
	// Workers limits the number of concurrent workers (default 8).
	Workers int
	Solo    bool // run each failing unit only alone; no cross-unit interaction is possible
}

// Check is the machinery of one property.
type Check struct {
	ID     string
	Level  string
	Assume []string
	Spaces func(tier string) []Space
}

// Ctx collects what a batch covered.
type Ctx struct {
	Dir  string // scratch directory of this worker
	Tier string
	rep  report
	seen map[uint64]bool
}

type fail struct {
	Unit int
	Msg  string
}

type report struct {
	From, To int
	Fails    []fail
	Skipped  int
	Counts   map[string]int64
	States   []uint64
	Err      string
}

func (c *Ctx) Fail(unit int, format string, a ...interface{}) {
	m := fmt.Sprintf(format, a...)
	if len(m) > 4000 {
		m = m[:4000] + "..."
	}
	for _, f := range c.rep.Fails {
		if f.Unit == unit {
			return
		}
	}
	c.rep.Fails = append(c.rep.Fails, fail{unit, m})
}

// Failed tells whether a unit was reported.
func (c *Ctx) Failed() bool { return len(c.rep.Fails) > 0 }

func (c *Ctx) Skip(unit int) { c.rep.Skipped++ }

// Add counts something covered: transitions, traces, ...
func (c *Ctx) Add(name string, n int) { c.rep.Counts[name] += int64(n) }

// State notes a distinct state or outcome.
func (c *Ctx) State(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v\x00", p)
	}
	c.seen[h.Sum64()] = true
}

func (c *Ctx) StateHash(h uint64) { c.seen[h] = true }

var checks = map[string]Check{}

func Register(c Check) { checks[c.ID] = c }

// IDs of all checks.
func IDs() (r []string) {
	for k := range checks {
		r = append(r, k)
	}
	sort.Strings(r)
	return
}

func space(ck Check, tier, name string) *Space {
	for _, s := range ck.Spaces(tier) {
		if s.Name == name {
			s := s
			return &s
		}
	}
	return nil
}

// Main is the entry point of the binary.
func Main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc check ID | replay FILE | list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		worker(os.Args[2], os.Args[3], os.Args[4])
	case "check":
		os.Exit(runCheck(os.Args[2]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "list":
		for _, id := range IDs() {
			for _, t := range []string{"quick", "thorough"} {
				n := 0
				for _, s := range checks[id].Spaces(t) {
					n += s.Size()
					fmt.Println(id, t, s.Name, s.Size())
				}
			}
		}
	case "rules":
		// mc rules: the enumerated spaces, for DESIGN.md
		for _, id := range IDs() {
			quick := map[string]bool{}
			for _, t := range []string{"quick", "thorough"} {
				for _, s := range checks[id].Spaces(t) {
					if t == "quick" {
						quick[s.Name] = true
					} else if quick[s.Name] {
						continue
					}
					fmt.Printf("%s\t%s\t%s\t%d\t%s\n", id, t, s.Name, s.Size(), s.Rule)
				}
			}
		}
	case "show":
		s := space(checks[os.Args[2]], Tier(), os.Args[3])
		i, _ := strconv.Atoi(os.Args[4])
		fmt.Println(s.Desc(i))
	case "one":
		// mc one ID SPACE FROM TO: in-process run, for development
		s := space(checks[os.Args[2]], Tier(), os.Args[3])
		a, _ := strconv.Atoi(os.Args[4])
		b, _ := strconv.Atoi(os.Args[5])
		root := scratchRoot()
		defer os.RemoveAll(root)
		c := &Ctx{Dir: root, Tier: Tier(), seen: map[uint64]bool{}}
		c.rep.Counts = map[string]int64{}
		t := time.Now()
		err := s.Exec(c, seq(a, b))
		fmt.Println("err", err, "states", len(c.seen), c.rep.Counts, time.Since(t))
		cls := map[string]int{}
		for _, f := range c.rep.Fails {
			k := f.Msg
			if len(k) > 40 {
				k = k[:40]
			}
			cls[k]++
			if cls[k] <= 2 {
				fmt.Println("FAIL", f.Unit, f.Msg)
				fmt.Println(s.Desc(f.Unit))
			}
		}
		fmt.Println(len(c.rep.Fails), "fails", cls)
	default:
		os.Exit(2)
	}
}

func Tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func seq(a, b int) (r []int) {
	for ; a < b; a++ {
		r = append(r, a)
	}
	return
}

func scratchRoot() string {
	base := "/dev/shm"
	if st, err := os.Stat(base); err != nil || !st.IsDir() {
		base = os.TempDir()
	}
	d, err := os.MkdirTemp(base, "ripsrc-mc-")
	if err != nil {
		d, err = os.MkdirTemp("", "ripsrc-mc-")
		if err != nil {
			panic(err)
		}
	}
	return d
}

func worker(id, tier, name string) {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	s := space(checks[id], tier, name)
	if s == nil {
		os.Exit(3)
	}
	out := os.NewFile(3, "out")
	w := bufio.NewWriter(out)
	dir := os.Getenv("MC_SCRATCH")
	in := bufio.NewScanner(os.Stdin)
	enc := json.NewEncoder(w)
	k := 0
	for in.Scan() {
		var a, b int
		if _, err := fmt.Sscan(in.Text(), &a, &b); err != nil {
			os.Exit(3)
		}
		k++
		c := &Ctx{Dir: filepath.Join(dir, fmt.Sprint("b", k)), Tier: tier, seen: map[uint64]bool{}}
		c.rep = report{From: a, To: b, Counts: map[string]int64{}}
		if err := os.MkdirAll(c.Dir, 0777); err != nil {
			panic(err)
		}
		if err := s.Exec(c, seq(a, b)); err != nil {
			c.rep.Err = err.Error()
		}
		os.RemoveAll(c.Dir)
		for h := range c.seen {
			c.rep.States = append(c.rep.States, h)
		}
		if err := enc.Encode(&c.rep); err != nil {
			os.Exit(3)
		}
		w.Flush()
	}
}

// proc is one worker process.
type proc struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	outF  *os.File
	errB  *tail
	dir   string
	lines chan []byte
}

type tail struct {
	mu  sync.Mutex
	buf []byte
	hd  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.hd) < 6000 {
		t.hd = append(t.hd, p...)
	}
	t.buf = append(t.buf, p...)
	if len(t.buf) > 8000 {
		t.buf = append([]byte{}, t.buf[len(t.buf)-4000:]...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	s := string(t.hd)
	if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
	} else if i := strings.Index(s, "fatal error:"); i >= 0 {
		s = s[i:]
	} else if j := strings.Index(string(t.buf), "panic:"); j >= 0 {
		s = string(t.buf)[j:]
	}
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

type runner struct {
	ck   Check
	tier string
	sp   Space
	root string
	n    int64
}

func (r *runner) start() (*proc, error) {
	k := atomic.AddInt64(&r.n, 1)
	dir := filepath.Join(r.root, fmt.Sprintf("%s-%d", r.sp.Name, k))
	tmp := filepath.Join(dir, "tmp")
	if err := os.MkdirAll(tmp, 0777); err != nil {
		return nil, err
	}
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	p := &proc{dir: dir}
	p.cmd = exec.Command(self, "worker", r.ck.ID, r.tier, r.sp.Name)
	p.cmd.Env = CleanEnv(dir)
	rd, wr, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	p.cmd.ExtraFiles = []*os.File{wr}
	p.errB = &tail{}
	p.cmd.Stderr = p.errB
	p.cmd.Stdout = p.errB
	setPgid(p.cmd)
	p.in, err = p.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	wr.Close()
	p.outF = rd
	p.out = bufio.NewReaderSize(rd, 1<<20)
	p.lines = make(chan []byte, 1)
	go func() {
		for {
			l, err := p.out.ReadBytes('\n')
			if err != nil {
				close(p.lines)
				return
			}
			p.lines <- l
		}
	}()
	return p, nil
}

func (p *proc) stop() {
	if p == nil {
		return
	}
	p.in.Close()
	killGroup(p.cmd)
	p.cmd.Wait()
	p.outF.Close()
	os.RemoveAll(p.dir)
}

// CleanEnv is the environment of everything that runs the code under test.
func CleanEnv(dir string) []string {
	env := []string{
		"HOME=" + dir, "TMPDIR=" + filepath.Join(dir, "tmp"), "MC_SCRATCH=" + dir,
		"GIT_CONFIG_NOSYSTEM=1", "GIT_CONFIG_GLOBAL=/dev/null", "LC_ALL=C", "TZ=UTC", "GIT_TERMINAL_PROMPT=0",
		"GOTRACEBACK=all",
	}
	for _, k := range []string{"PATH", "VERIF_SEED", "VERIF_TIER", "GOFLAGS", "GOPATH", "GOMODCACHE", "GOCACHE", "GOTOOLCHAIN", "GOPROXY", "MC_BIN", "MC_VERIF", "MC_LIC", "MC_SCHED", "MC_GIT", "MC_CLI"} {
		if v := os.Getenv(k); v != "" {
			env = append(env, k+"="+v)
		}
	}
	return env
}

type outcome struct {
	rep   *report
	crash string // process ended
	hang  bool
}

func (p *proc) do(a, b int, timeout time.Duration) outcome {
	fmt.Fprintf(p.in, "%d %d\n", a, b)
	t := time.NewTimer(timeout)
	defer t.Stop()
	select {
	case l, ok := <-p.lines:
		if !ok {
			p.cmd.Wait()
			return outcome{crash: "process ended: " + p.errB.String()}
		}
		var rep report
		if err := json.Unmarshal(l, &rep); err != nil {
			return outcome{crash: "bad report: " + err.Error()}
		}
		return outcome{rep: &rep}
	case <-t.C:
		return outcome{hang: true}
	}
}

// Violation is a confirmed failure.
type Violation struct {
	Property   string
	Space      string
	Tier       string
	From, To   int
	Msg        string
	Unit       string
	Reproduced string
}

func (v Violation) Key() string { return v.Space + "|" + v.Unit }

type result struct {
	mu        sync.Mutex
	units     int
	skipped   int
	counts    map[string]int64
	states    map[uint64]bool
	viol      []Violation
	unconf    []string
	machinery []string
	done      bool
	completed int
}

// freshRun runs units a..b once in a new process.
func (r *runner) freshRun(a, b int, timeout time.Duration) (bad bool, msg string, unit int, rep *report) {
	p, err := r.start()
	if err != nil {
		return false, "", 0, nil
	}
	defer p.stop()
	o := p.do(a, b, timeout)
	if o.hang {
		return true, "hangs: no result after " + timeout.String(), a, nil
	}
	if o.crash != "" {
		return true, "crashes: " + o.crash, a, nil
	}
	if o.rep.Err != "" {
		return false, "machinery: " + o.rep.Err, a, o.rep
	}
	if len(o.rep.Fails) > 0 {
		return true, o.rep.Fails[0].Msg, o.rep.Fails[0].Unit, o.rep
	}
	return false, "", 0, o.rep
}

// narrow finds a failing single unit in [a,b), which failed by crash or hang.
func (r *runner) narrow(a, b int, timeout time.Duration) (int, string, bool) {
	for b-a > 1 {
		k := 8
		if b-a < k {
			k = b - a
		}
		type res struct {
			a, b int
			bad  bool
			unit int
			msg  string
		}
		rs := make([]res, k)
		var wg sync.WaitGroup
		for j := 0; j < k; j++ {
			x, y := a+(b-a)*j/k, a+(b-a)*(j+1)/k
			wg.Add(1)
			go func(j int) {
				defer wg.Done()
				bad, msg, unit, rep := r.freshRun(x, y, timeout)
				rs[j] = res{x, y, bad, unit, msg}
				if bad && rep != nil {
					rs[j].a, rs[j].b = unit, unit+1
				}
			}(j)
		}
		wg.Wait()
		found := false
		for _, x := range rs {
			if x.bad {
				a, b = x.a, x.b
				found = true
				break
			}
		}
		if !found {
			return 0, "", false
		}
	}
	return a, "", true
}

func (r *runner) confirm(unit int, timeout time.Duration) (msg string, times, tries int) {
	var mu sync.Mutex
	for round := 0; round < 5 && times == 0; round++ {
		n := 5
		if round > 0 {
			n = 8
		}
		var wg sync.WaitGroup
		for j := 0; j < n; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				bad, m, _, _ := r.freshRun(unit, unit+1, timeout)
				mu.Lock()
				defer mu.Unlock()
				tries++
				if bad {
					times++
					msg = m
				}
			}()
		}
		wg.Wait()
	}
	return
}

func (r *runner) explore(res *result, deadline time.Time, from, to int) {
	sp := r.sp
	if sp.Batch == 0 {
		sp.Batch = 1
	}
	timeout := sp.Timeout
	if timeout == 0 {
		timeout = 150 * time.Second
	}
	nw := sp.Workers
	if nw == 0 {
		nw = 8
	}
	var next = int64(from)
	var wg sync.WaitGroup
	var stop int32
	handle := func(a, b int, o outcome) {
		var unit int
		var msg string
		if o.rep != nil && len(o.rep.Fails) > 0 {
			unit, msg = o.rep.Fails[0].Unit, o.rep.Fails[0].Msg
		} else {
			// crash or hang
			u, m, ok := r.narrow(a, b, timeout/5)
			if !ok {
				// only the whole batch?
				bad, m2, _, _ := r.freshRun(a, b, 2*timeout)
				if bad {
					res.mu.Lock()
					res.viol = append(res.viol, Violation{Property: r.ck.ID, Space: sp.Name, Tier: r.tier, From: a, To: b, Msg: m2, Unit: fmt.Sprintf("units %d..%d together", a, b), Reproduced: "batch"})
					res.mu.Unlock()
				} else {
					res.mu.Lock()
					res.unconf = append(res.unconf, fmt.Sprintf("%s %d..%d: %s", sp.Name, a, b, o.crash))
					res.mu.Unlock()
				}
				return
			}
			unit, msg = u, m
		}
		m, times, tries := r.confirm(unit, 60*time.Second)
		if times > 0 {
			res.mu.Lock()
			res.viol = append(res.viol, Violation{Property: r.ck.ID, Space: sp.Name, Tier: r.tier, From: unit, To: unit + 1, Msg: m, Unit: sp.Desc(unit), Reproduced: fmt.Sprintf("%d of %d", times, tries)})
			res.mu.Unlock()
			return
		}
		if !sp.Solo {
			// depends on the batch
			n := 0
			var m2 string
			for k := 0; k < 4; k++ {
				if bad, mm, _, _ := r.freshRun(a, b, timeout); bad {
					n++
					m2 = mm
				}
			}
			if n > 0 {
				res.mu.Lock()
				res.viol = append(res.viol, Violation{Property: r.ck.ID, Space: sp.Name, Tier: r.tier, From: a, To: b, Msg: m2, Unit: sp.Desc(unit) + "(with the other histories of its batch)", Reproduced: fmt.Sprintf("batch %d of 4", n)})
				res.mu.Unlock()
				return
			}
		}
		res.mu.Lock()
		res.unconf = append(res.unconf, fmt.Sprintf("%s unit %d: %s", sp.Name, unit, msg))
		res.mu.Unlock()
	}
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var p *proc
			defer func() { p.stop() }()
			for atomic.LoadInt32(&stop) == 0 {
				a := int(atomic.AddInt64(&next, int64(sp.Batch))) - sp.Batch
				if a >= to {
					return
				}
				if time.Now().After(deadline) {
					res.mu.Lock()
					res.done = false
					res.mu.Unlock()
					return
				}
				b := a + sp.Batch
				if b > to {
					b = to
				}
				if p == nil {
					var err error
					p, err = r.start()
					if err != nil {
						res.mu.Lock()
						res.machinery = append(res.machinery, err.Error())
						res.mu.Unlock()
						return
					}
				}
				o := p.do(a, b, timeout)
				if o.rep == nil {
					p.stop()
					p = nil
					handle(a, b, o)
				} else {
					res.mu.Lock()
					res.units += b - a
					res.completed += b - a
					res.skipped += o.rep.Skipped
					for k, v := range o.rep.Counts {
						res.counts[k] += v
					}
					for _, h := range o.rep.States {
						res.states[h] = true
					}
					if o.rep.Err != "" {
						res.machinery = append(res.machinery, fmt.Sprintf("%s %d..%d: %s", sp.Name, a, b, o.rep.Err))
					}
					res.mu.Unlock()
					if len(o.rep.Fails) > 0 {
						handle(a, b, o)
					}
				}
				res.mu.Lock()
				if (len(unlisted(res.viol)) >= 1 && os.Getenv("MC_ALL") == "") || len(res.unconf) > 20 || len(res.machinery) > 5 {
					atomic.StoreInt32(&stop, 1)
					res.done = false
				}
				res.mu.Unlock()
			}
		}()
	}
	wg.Wait()
}

func verifDir() string {
	if v := os.Getenv("MC_VERIF"); v != "" {
		return v
	}
	return "/verif"
}

// Known is one known finding.
type Known struct {
	Property string `json:"property"`
	Space    string `json:"space"`
	Unit     string `json:"unit"`
	Msg      string `json:"msg"` // what the violation reads
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

// is tells whether the entry lists this very violation.
func (k Known) is(v Violation) bool {
	return k.Property == v.Property && k.Space == v.Space && k.Unit == v.Unit && k.Msg != "" && strings.Contains(v.Msg, k.Msg)
}

func loadKnown() (res []Known) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []Known `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, "known-findings.json:", err)
	}
	return f.Findings
}

func runCheck(id string) int {
	ck, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such check", id)
		return 2
	}
	tier := Tier()
	start := time.Now()
	limit := 780 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	if v, err := strconv.Atoi(os.Getenv("MC_LIMIT")); err == nil {
		limit = time.Duration(v) * time.Second
	}
	deadline := start.Add(limit)
	root := scratchRoot()
	defer os.RemoveAll(root)
	onSignal(func() { os.RemoveAll(root) })

	var viol []Violation
	total := result{counts: map[string]int64{}, states: map[uint64]bool{}}
	exhaustive := true
	var spaces []map[string]interface{}
	var samples []interface{}
	var rules []string
	for _, sp := range ck.Spaces(tier) {
		t := time.Now()
		r := &runner{ck: ck, tier: tier, sp: sp, root: root}
		res := &result{counts: map[string]int64{}, states: map[uint64]bool{}, done: true}
		r.explore(res, deadline, 0, sp.Size())
		if !res.done {
			exhaustive = false
		}
		spaces = append(spaces, map[string]interface{}{"space": sp.Name, "rule": sp.Rule, "units": sp.Size(), "run": res.completed, "symmetric_or_invalid_skipped": res.skipped, "distinct_states": len(res.states), "counts": res.counts, "complete": res.done && len(res.machinery) == 0, "wall_s": time.Since(t).Seconds(), "unconfirmed": res.unconf})
		rules = append(rules, sp.Name+": "+sp.Rule)
		for _, i := range []int{sp.Size() / 3, sp.Size() * 2 / 3} {
			if i < sp.Size() && len(samples) < 12 {
				samples = append(samples, map[string]interface{}{"space": sp.Name, "unit": i, "case": sp.Desc(i)})
			}
		}
		total.units += res.completed
		total.skipped += res.skipped
		for k, v := range res.counts {
			total.counts[k] += v
		}
		for h := range res.states {
			total.states[h^fnvs(sp.Name)] = true
		}
		total.machinery = append(total.machinery, res.machinery...)
		total.unconf = append(total.unconf, res.unconf...)
		viol = append(viol, res.viol...)
		if len(unlisted(viol)) > 0 {
			exhaustive = false
			if os.Getenv("MC_ALL") == "" {
				break
			}
		}
	}
	known := loadKnown()
	n := 0
	for _, v := range viol {
		listed := false
		for _, k := range known {
			if k.Fixed == "" && k.is(v) {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", v.Property, k.What)
				listed = true
			}
		}
		if listed {
			continue
		}
		n++
		f := writeReplay(v)
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, f)
		fmt.Printf("  space %s, units %d..%d, reproduced %s\n  %s\n%s\n", v.Space, v.From, v.To, v.Reproduced, v.Msg, indent(v.Unit))
	}
	for _, m := range total.machinery {
		fmt.Println("machinery:", m)
	}
	for _, m := range total.unconf {
		fmt.Println("unconfirmed (not reported):", m)
	}
	cov := map[string]interface{}{
		"evaluations": total.units - total.skipped, "distinct_nontrivial": len(total.states), "rule": strings.Join(rules, " || "), "samples": samples,
		"exhaustive": exhaustive && len(total.machinery) == 0 && len(total.unconf) == 0, "spaces": spaces,
		"states": len(total.states), "transitions": total.counts["transitions"], "traces_validated_against_impl": total.counts["traces"],
	}
	for k, v := range total.counts {
		if _, ok := cov[k]; !ok {
			cov[k] = v
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": ck.Level, "coverage": cov, "assumptions": ck.Assume, "wall_s": time.Since(start).Seconds(), "violations": n}
	writeJSON(filepath.Join(verifDir(), "evidence", id+".json"), ev)
	fmt.Printf("%s %s: %d units run, %d distinct states, %v, exhaustive=%v, %.1fs\n", id, tier, total.units-total.skipped, len(total.states), total.counts, cov["exhaustive"], time.Since(start).Seconds())
	if n > 0 {
		return 1
	}
	if len(total.machinery) > 0 {
		return 2
	}
	return 0
}

func unlisted(vs []Violation) (r []Violation) {
	known := loadKnown()
	for _, v := range vs {
		l := false
		for _, k := range known {
			if k.Fixed == "" && k.is(v) {
				l = true
			}
		}
		if !l {
			r = append(r, v)
		}
	}
	return
}

func fnvs(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func indent(s string) string {
	return "    " + strings.Replace(strings.TrimRight(s, "\n"), "\n", "\n    ", -1)
}

func writeReplay(v Violation) string {
	dir := filepath.Join(verifDir(), "replays")
	os.MkdirAll(dir, 0777)
	f := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%d.json", v.Property, v.Space, v.From, v.To))
	writeJSON(f, v)
	return f
}

func writeJSON(f string, v interface{}) {
	os.MkdirAll(filepath.Dir(f), 0777)
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.SetIndent("", " ")
	if err := e.Encode(v); err != nil {
		panic(err)
	}
	if err := os.WriteFile(f, b.Bytes(), 0666); err != nil {
		panic(err)
	}
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 2
	}
	ck := checks[v.Property]
	sp := space(ck, v.Tier, v.Space)
	if sp == nil {
		fmt.Println("no such space")
		return 2
	}
	root := scratchRoot()
	defer os.RemoveAll(root)
	r := &runner{ck: ck, tier: v.Tier, sp: *sp, root: root}
	fmt.Println(sp.Desc(v.From))
	for k := 0; k < 20; k++ {
		bad, msg, _, _ := r.freshRun(v.From, v.To, 60*time.Second)
		if bad {
			fmt.Printf("VIOLATION property=%s replay=%s\n  run %d: %s\n", v.Property, file, k+1, msg)
			return 1
		}
	}
	fmt.Println("not reproduced in 20 runs")
	return 0
}
