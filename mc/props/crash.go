package props

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"

	"verif/mc/eng"
	"verif/mc/hist"

	"github.com/pinpt/ripsrc/ripsrc/history3/incblame"
	"github.com/pinpt/ripsrc/ripsrc/history3/process/repo"
)

// Helpers are the subcommands that run as child processes of a check.
var Helpers = map[string]func(args []string){"ckptwriter": ckptWriter}

// exitError: the writer returned an error. (Calls may be made to fail, so the
// helper speaks through its exit code.)
const exitError = 10

const markBegin, markEnd = "/mc-marker-begin", "/mc-marker-end"

// ckptWriter DIR A B: writes scenario checkpoint A (unless negative), then B between markers.
func ckptWriter(args []string) {
	runtime.GOMAXPROCS(1)
	dir := args[0]
	a, _ := strconv.Atoi(args[1])
	b, _ := strconv.Atoi(args[2])
	w := repo.NewCheckpointWriter(hist.Quiet{})
	if a >= 0 {
		if err := w.Write(crashRepo(a), dir, crashName(a)); err != nil {
			fmt.Println("setup:", err)
			os.Exit(4)
		}
	}
	rb := crashRepo(b)
	os.Stat(markBegin)
	err := w.Write(rb, dir, crashName(b))
	os.Stat(markEnd)
	if err != nil {
		os.Exit(exitError)
	}
}

func crashName(i int) string {
	if i == 4 {
		i = 1
	}
	return hash40(1000 + i)
}

func crashRepo(i int) repo.Repo {
	r := repo.New()
	ln := func(s string, c int) *incblame.Line { return &incblame.Line{Line: []byte(s), Commit: hash40(c)} }
	switch i {
	case 0:
	case 1:
		r[hash40(1)] = map[string]*incblame.Blame{"f": {Commit: hash40(1), Lines: []*incblame.Line{ln("one", 1), ln("two", 1)}}}
	case 2:
		b := &incblame.Blame{Commit: hash40(2), Lines: []*incblame.Line{ln("x", 2), ln("y", 3), ln("x", 2)}}
		r[hash40(2)] = map[string]*incblame.Blame{"f": b, "g": b}
		r[hash40(3)] = map[string]*incblame.Blame{}
		r[hash40(4)] = map[string]*incblame.Blame{"f": b, "bin": incblame.BlameBinaryFile(hash40(4)), "empty": {Commit: hash40(4)}}
	case 3:
		rnd := rand.New(rand.NewSource(1))
		b := &incblame.Blame{Commit: hash40(5)}
		for k := 0; k < 60; k++ {
			l := make([]byte, 100)
			rnd.Read(l)
			b.Lines = append(b.Lines, ln(string(l), k))
		}
		for k := 0; k < 30; k++ {
			r[hash40(100+k*k)] = map[string]*incblame.Blame{"f": b, fmt.Sprint("g", k): {Commit: hash40(k), Lines: b.Lines[k : k+k%7]}}
		}
	case 4:
		r[hash40(1)] = map[string]*incblame.Blame{"f": {Commit: hash40(1), Lines: []*incblame.Line{ln("three", 1)}}, "h": {Commit: hash40(1)}}
	}
	return r
}

// fsOp is one successful operation of the traced writer below its directory.
type fsOp struct {
	kind     byte // c create/truncate, w write, r rename, u unlink, d mkdir, x rmdir, s sync
	path, to string
	data     []byte
	call     string
}

// fsCall is a call made between the markers: the nth of its name in the process.
type fsCall struct {
	name string
	nth  int
}

const tracedCalls = "open,openat,creat,write,pwrite64,writev,close,rename,renameat,renameat2,unlink,unlinkat,rmdir,mkdir,mkdirat,ftruncate,truncate,link,linkat,symlinkat,fsync,fdatasync,newfstatat,copy_file_range,fchmod,fchmodat"

func unhex(s string) []byte {
	var b []byte
	for i := 0; i < len(s); {
		if s[i] == '\\' && i+3 < len(s) && s[i+1] == 'x' {
			v, _ := strconv.ParseUint(s[i+2:i+4], 16, 8)
			b = append(b, byte(v))
			i += 4
			continue
		}
		b = append(b, s[i])
		i++
	}
	return b
}

// straceRun runs the writer under strace.
func straceRun(dir string, a, b int, extra ...string) (log string, out string, err error) {
	self, err := os.Executable()
	if err != nil {
		return "", "", err
	}
	lf := dir + ".strace"
	defer os.Remove(lf)
	args := append([]string{"-f", "-y", "-xx", "-s", "10000000", "-e", "trace=" + tracedCalls, "-o", lf}, extra...)
	args = append(args, self, "ckptwriter", dir, fmt.Sprint(a), fmt.Sprint(b))
	cmd := exec.Command("strace", args...)
	var ob bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &ob
	runErr := cmd.Run()
	lb, err := os.ReadFile(lf)
	if err != nil {
		return "", ob.String(), fmt.Errorf("strace: %v %v %s", err, runErr, ob.String())
	}
	switch st := cmd.ProcessState; {
	case st.Success():
		out = "ok"
	case st.ExitCode() == exitError:
		out = "error"
	default:
		out = st.String() + " " + ob.String()
	}
	return string(lb), out, nil
}

// parseTrace extracts the operations and calls between the markers.
func parseTrace(dir, log string) (ops []fsOp, calls []fsCall, err error) {
	pid := ""
	count := map[string]int{}
	in := false
	under := func(p string) (string, bool) {
		if p == dir {
			return "", true
		}
		if strings.HasPrefix(p, dir+"/") {
			return p[len(dir)+1:], true
		}
		return "", false
	}
	pending := map[string]string{}
	for _, l := range strings.Split(log, "\n") {
		i := strings.IndexByte(l, ' ')
		if i < 0 {
			continue
		}
		p, rest := l[:i], strings.TrimLeft(l[i:], " ")
		if pid == "" {
			pid = p
		}
		if p != pid {
			continue
		}
		if strings.HasSuffix(rest, "<unfinished ...>") {
			pending[p] = strings.TrimSuffix(rest, "<unfinished ...>")
			continue
		}
		if strings.HasPrefix(rest, "<... ") {
			k := strings.Index(rest, "resumed>")
			rest = pending[p] + rest[k+len("resumed>"):]
		}
		k := strings.IndexByte(rest, '(')
		if k < 0 || rest[0] == '+' || rest[0] == '-' {
			continue
		}
		call := rest[:k]
		count[call]++
		body := rest[k+1:]
		e := strings.LastIndex(body, " = ")
		if e < 0 {
			continue
		}
		ret := body[e+3:]
		body = body[:e]
		// arguments: fd<path> and "string" parts
		var strs [][]byte
		var fds []string
		for j := 0; j < len(body); j++ {
			switch body[j] {
			case '"':
				z := strings.IndexByte(body[j+1:], '"')
				strs = append(strs, unhex(body[j+1:j+1+z]))
				j += z + 1
			case '<':
				z := strings.IndexByte(body[j+1:], '>')
				fds = append(fds, string(unhex(body[j+1:j+1+z])))
				j += z + 1
			}
		}
		if len(strs) > 0 && string(strs[0]) == markBegin {
			in = true
			continue
		}
		if len(strs) > 0 && string(strs[0]) == markEnd {
			return ops, calls, nil
		}
		if !in {
			continue
		}
		calls = append(calls, fsCall{call, count[call]})
		if strings.HasPrefix(ret, "-1") || strings.HasPrefix(ret, "?") {
			continue
		}
		full := func(i int) string {
			s := string(strs[i])
			if filepath.IsAbs(s) || i >= len(fds) {
				return filepath.Clean(s)
			}
			return filepath.Join(fds[i], s)
		}
		op := fsOp{call: call}
		var ok bool
		switch call {
		case "open", "openat", "creat":
			if !strings.Contains(body, "O_CREAT") && !strings.Contains(body, "O_TRUNC") && call != "creat" {
				continue
			}
			op.kind = 'c'
			op.path, ok = under(full(0))
		case "write", "pwrite64":
			op.kind = 'w'
			op.path, ok = under(fds[0])
			w, _ := strconv.Atoi(strings.Fields(ret)[0])
			if ok {
				op.data = strs[0][:w]
			}
		case "rename", "renameat", "renameat2":
			op.kind = 'r'
			op.path, ok = under(full(0))
			op.to, _ = under(full(1))
		case "unlink", "unlinkat", "rmdir":
			op.kind = 'u'
			op.path, ok = under(full(0))
		case "mkdir", "mkdirat":
			op.kind = 'd'
			op.path, ok = under(full(0))
		case "fsync", "fdatasync":
			op.kind = 's'
			op.path, ok = under(fds[0])
		case "newfstatat", "close", "fchmod", "fchmodat":
			continue
		default:
			for _, f := range append(fds, func() (r []string) {
				for _, s := range strs {
					r = append(r, string(s))
				}
				return
			}()...) {
				if _, u := under(f); u {
					return nil, nil, fmt.Errorf("call %s is not modelled: %s", call, rest)
				}
			}
			continue
		}
		if ok {
			ops = append(ops, op)
		}
	}
	return nil, nil, fmt.Errorf("trace without end marker")
}

// fsState is a modelled directory: files with content, directories with nil.
type fsState map[string][]byte

func (s fsState) clone() fsState {
	r := fsState{}
	for k, v := range s {
		r[k] = v
	}
	return r
}

// apply performs an operation; content slices are never shared for writing.
func (s fsState) apply(o fsOp, partial int) {
	switch o.kind {
	case 'c':
		s[o.path] = []byte{}
	case 'w':
		d := o.data
		if partial >= 0 {
			d = d[:partial]
		}
		s[o.path] = append(s[o.path][:len(s[o.path]):len(s[o.path])], d...)
	case 'r':
		for k := range s {
			if k == o.to || strings.HasPrefix(k, o.to+"/") {
				delete(s, k)
			}
		}
		for k, v := range s.clone() {
			if k == o.path || strings.HasPrefix(k, o.path+"/") {
				delete(s, k)
				s[o.to+k[len(o.path):]] = v
			}
		}
	case 'u':
		delete(s, o.path)
	case 'd':
		s[o.path] = nil
	}
}

func loadState(dir string) fsState {
	s := fsState{}
	for k, v := range readDir(dir) {
		if k == "./" {
			continue
		}
		if strings.HasSuffix(k, "/") {
			s[strings.TrimSuffix(k, "/")] = nil
		} else {
			s[k] = []byte(v)
		}
	}
	return s
}

func (s fsState) write(dir string) error {
	if err := os.MkdirAll(dir, 0777); err != nil {
		return err
	}
	for _, k := range hist.Keys(s) {
		p := filepath.Join(dir, k)
		if s[k] == nil {
			if err := os.MkdirAll(p, 0777); err != nil {
				return err
			}
		} else {
			if err := os.WriteFile(p, s[k], 0666); err != nil {
				return err
			}
		}
	}
	return nil
}

func (s fsState) hash() uint64 {
	f := fnv.New64a()
	for _, k := range hist.Keys(s) {
		fmt.Fprintf(f, "%q %v %d ", k, s[k] == nil, len(s[k]))
		f.Write(s[k])
	}
	return f.Sum64()
}

func (s fsState) list() string {
	var r []string
	for _, k := range hist.Keys(s) {
		if s[k] == nil {
			r = append(r, k+"/")
		} else {
			r = append(r, fmt.Sprintf("%s(%d)", k, len(s[k])))
		}
	}
	return strings.Join(r, " ")
}

// crashJudge checks what the reader makes of a state after a crash of the
// write of b over a.
type crashJudge struct {
	c      *eng.Ctx
	unit   int
	a, b   int
	dir    string
	seen   map[uint64]bool
	n      int
	canons map[int]string
	// outcomes
	old, new, err int
}

func (j *crashJudge) allowed(name string) (r []string) {
	for _, i := range []int{j.a, j.b} {
		if i >= 0 && (name == "" || crashName(i) == name) {
			r = append(r, j.canons[i])
		}
	}
	return
}

// judge returns false after reporting a failure.
func (j *crashJudge) judge(what string, s fsState) (bool, error) {
	h := s.hash()
	if j.seen[h] {
		return true, nil
	}
	j.seen[h] = true
	j.c.StateHash(h)
	j.c.Add("transitions", 1)
	d := filepath.Join(j.dir, "s")
	os.RemoveAll(d)
	if err := s.write(d); err != nil {
		return false, err
	}
	ok := j.judgeDir(what, d, s.list())
	return ok, nil
}

func (j *crashJudge) judgeDir(what, d, list string) bool {
	// every commit the checkpoint could be asked for, and no strict resume
	for _, name := range []string{hash40(1), "", crashName(j.a), crashName(j.b)} {
		g, err := readCkpt(d, name)
		if err != nil {
			if strings.HasPrefix(err.Error(), "panic:") {
				j.c.Fail(j.unit, "%s: reading (expecting %q) crashes: %v; files: %s", what, name, err, list)
				return false
			}
			j.err++
			continue
		}
		got := canon(g)
		found := false
		for _, w := range j.allowed(name) {
			found = found || w == got
		}
		if !found {
			j.c.Fail(j.unit, "%s: reading (expecting %q) succeeds with neither the old nor the new checkpoint; files: %s; read:\n%s", what, name, list, cutTo(got, 1000))
			return false
		}
		if j.a >= 0 && got == j.canons[j.a] {
			j.old++
		} else {
			j.new++
		}
	}
	// the next write is not disturbed
	next := 2
	if j.b == 2 {
		next = 1
	}
	if err := repo.NewCheckpointWriter(hist.Quiet{}).Write(crashRepo(next), d, crashName(next)); err != nil {
		j.c.Fail(j.unit, "%s: the next write fails: %v; files: %s", what, err, list)
		return false
	}
	g, err := readCkpt(d, crashName(next))
	if err != nil || canon(g) != j.canons[next] {
		j.c.Fail(j.unit, "%s: the next checkpoint cannot be read back: %v; files: %s", what, err, list)
		return false
	}
	return true
}

func readCkpt(d, name string) (r repo.Repo, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	return repo.NewCheckpointReader(hist.Quiet{}).Read(d, name)
}

func newJudge(c *eng.Ctx, unit, a, b int) *crashJudge {
	j := &crashJudge{c: c, unit: unit, a: a, b: b, dir: scratch(c), seen: map[uint64]bool{}, canons: map[int]string{}}
	for i := 0; i <= 4; i++ {
		j.canons[i] = canon(crashRepo(i))
	}
	return j
}

var crashPairs = [][2]int{{-1, 1}, {-1, 2}, {0, 1}, {1, 0}, {1, 2}, {2, 1}, {1, 4}, {2, 3}, {3, 2}}

// traceWrite runs the real writer under strace and returns the state before and its operations.
func traceWrite(j *crashJudge) (fsState, []fsOp, []fsCall, error) {
	d := filepath.Join(j.dir, "trace")
	before := fsState{}
	if j.a >= 0 {
		// a deterministic copy of what is there before: map order differs between runs
		if err := repo.NewCheckpointWriter(hist.Quiet{}).Write(crashRepo(j.a), d, crashName(j.a)); err != nil {
			return nil, nil, nil, err
		}
		before = loadState(d)
	}
	log, out, err := straceRun(d, -1, j.b)
	if err != nil {
		return nil, nil, nil, err
	}
	if out != "ok" {
		j.c.Fail(j.unit, "write fails: %s", out)
		return nil, nil, nil, nil
	}
	ops, calls, err := parseTrace(d, log)
	if err != nil {
		return nil, nil, nil, err
	}
	// the model's end state is the real one
	s := before.clone()
	for _, o := range ops {
		s.apply(o, -1)
	}
	real := loadState(d)
	delete(real, "")
	delete(s, "")
	if s.hash() != real.hash() {
		return nil, nil, nil, fmt.Errorf("model of the file system differs from the real one: %s against %s", s.list(), real.list())
	}
	j.c.Add("traces", 1)
	os.RemoveAll(d)
	return before, ops, calls, nil
}

// crashKill: every operation boundary and every torn write.
func crashKill(c *eng.Ctx, unit int) error {
	p := crashPairs[unit]
	j := newJudge(c, unit, p[0], p[1])
	defer os.RemoveAll(j.dir)
	s, ops, _, err := traceWrite(j)
	if err != nil || s == nil {
		return err
	}
	delete(s, "")
	for k := 0; k <= len(ops); k++ {
		if ok, err := j.judge(fmt.Sprintf("process killed before operation %d of %d", k, len(ops)), s); !ok || err != nil {
			return err
		}
		if k == len(ops) {
			break
		}
		o := ops[k]
		if o.kind == 'w' {
			for i := 1; i < len(o.data); i++ {
				t := s.clone()
				t.apply(o, i)
				if ok, err := j.judge(fmt.Sprintf("process killed with %d of %d bytes of operation %d written", i, len(o.data), k), t); !ok || err != nil {
					return err
				}
			}
		}
		if o.kind == 'u' {
			// files of one directory may be removed in any order
			e := k
			for e < len(ops) && ops[e].kind == 'u' && filepath.Dir(ops[e].path) == filepath.Dir(o.path) {
				e++
			}
			if (k == 0 || ops[k-1].kind != 'u') && e-k <= 10 {
				for m := 0; m < 1<<uint(e-k); m++ {
					t := s.clone()
					for x := k; x < e; x++ {
						if m&(1<<uint(x-k)) != 0 {
							t.apply(ops[x], -1)
						}
					}
					if ok, err := j.judge(fmt.Sprintf("process killed with part (%b) of operations %d..%d done", m, k, e), t); !ok || err != nil {
						return err
					}
				}
			}
		}
		s.apply(o, -1)
		delete(s, "")
	}
	c.State("outcomes", j.old > 0, j.new > 0, j.err > 0)
	return nil
}

// crashPower: the machine stops; what was not synced of each file may be cut at
// any of several lengths, independently.
func crashPower(c *eng.Ctx, unit int) error {
	p := crashPairs[unit]
	j := newJudge(c, unit, p[0], p[1])
	defer os.RemoveAll(j.dir)
	s, ops, _, err := traceWrite(j)
	if err != nil || s == nil {
		return err
	}
	unsynced := map[string]bool{}
	for k := 0; k <= len(ops); k++ {
		var fs []string
		for f := range unsynced {
			if len(s[f]) > 0 {
				fs = append(fs, f)
			}
		}
		sort.Strings(fs)
		lens := func(n int) []int {
			r := []int{0, 1, n / 2, n - 8, n - 1, n}
			if len(fs) > 3 {
				r = []int{0, n / 2, n - 1, n}
				if c.Tier == "quick" && (p[0] == 3 || p[1] == 3) {
					r = []int{0, n - 1, n}
				}
			}
			var q []int
			for _, x := range r {
				if x >= 0 && (len(q) == 0 || x > q[len(q)-1]) {
					q = append(q, x)
				}
			}
			return q
		}
		if k == len(ops) || ops[k].kind == 'r' || ops[k].kind == 'u' || k > 0 && ops[k-1].kind == 'r' {
			var rec func(i int, t fsState) (bool, error)
			rec = func(i int, t fsState) (bool, error) {
				if i == len(fs) {
					return j.judge(fmt.Sprintf("power lost before operation %d of %d, files cut: %s", k, len(ops), t.list()), t)
				}
				for _, n := range lens(len(s[fs[i]])) {
					u := t.clone()
					u[fs[i]] = s[fs[i]][:n]
					if ok, err := rec(i+1, u); !ok || err != nil {
						return ok, err
					}
				}
				return true, nil
			}
			if ok, err := rec(0, s.clone()); !ok || err != nil {
				return err
			}
		}
		if k == len(ops) {
			break
		}
		o := ops[k]
		s.apply(o, -1)
		delete(s, "")
		switch o.kind {
		case 'w':
			unsynced[o.path] = true
		case 's':
			delete(unsynced, o.path)
		case 'r':
			for f := range unsynced {
				if f == o.path || strings.HasPrefix(f, o.path+"/") {
					delete(unsynced, f)
					unsynced[o.to+f[len(o.path):]] = true
				}
			}
		case 'u':
			delete(unsynced, o.path)
		}
	}
	return nil
}

// crashDamage: every file of a finished checkpoint cut at every length, with
// every byte changed, or missing.
func crashDamage(c *eng.Ctx, unit int) error {
	j := newJudge(c, unit, -1, unit)
	defer os.RemoveAll(j.dir)
	d := filepath.Join(j.dir, "w")
	if err := repo.NewCheckpointWriter(hist.Quiet{}).Write(crashRepo(unit), d, crashName(unit)); err != nil {
		c.Fail(unit, "write fails: %v", err)
		return nil
	}
	s := loadState(d)
	c.Add("traces", 1)
	for _, f := range hist.Keys(s) {
		if s[f] == nil {
			continue
		}
		t := s.clone()
		delete(t, f)
		if ok, err := j.judge("file "+f+" is missing", t); !ok || err != nil {
			return err
		}
		for n := 0; n < len(s[f]); n++ {
			t[f] = s[f][:n]
			if ok, err := j.judge(fmt.Sprintf("file %s has %d of its %d bytes", f, n, len(s[f])), t); !ok || err != nil {
				return err
			}
		}
		for n := 0; n < len(s[f]); n++ {
			for _, x := range []byte{1, 0x80, 0xff} {
				b := append([]byte{}, s[f]...)
				b[n] ^= x
				t[f] = b
				if ok, err := j.judge(fmt.Sprintf("byte %d of file %s is changed", n, f), t); !ok || err != nil {
					return err
				}
			}
		}
		t[f] = append(append([]byte{}, s[f]...), 0)
		if ok, err := j.judge("file "+f+" has one more byte", t); !ok || err != nil {
			return err
		}
	}
	return nil
}

// crashFault: every call of the writer fails, once or from then on, or the
// process is killed for real.
func crashFault(c *eng.Ctx, unit int) error {
	modes := []string{"error=ENOSPC:when=%d", "error=EIO:when=%d+", "signal=SIGKILL:when=%d"}
	// what a call that fails at once and what all calls that change something do
	changing := []string{"openat", "write", "close", "renameat", "unlinkat", "mkdirat"}
	p := crashPairs[unit/len(modes)]
	mode := modes[unit%len(modes)]
	j := newJudge(c, unit, p[0], p[1])
	defer os.RemoveAll(j.dir)
	s, ops, calls, err := traceWrite(j)
	if err != nil || s == nil {
		return err
	}
	// names a killed run can leave, from the model
	names := map[string]bool{}
	nm := func(s fsState) string {
		delete(s, "")
		return strings.Join(hist.Keys(s), " ")
	}
	t := s.clone()
	names[nm(t)] = true
	for _, o := range ops {
		t.apply(o, -1)
		names[nm(t)] = true
	}
	if len(calls) > 400 {
		return fmt.Errorf("%d calls", len(calls))
	}
	for k, call := range calls {
		if call.name == "newfstatat" {
			// asked only to see what is there
			continue
		}
		inject := []string{"-e", "inject=" + call.name + ":" + fmt.Sprintf(mode, call.nth)}
		if strings.HasSuffix(mode, "+") {
			for _, n := range changing {
				at := 0
				for _, x := range calls[k:] {
					if x.name == n && at == 0 {
						at = x.nth
					}
				}
				if n != call.name && at > 0 {
					inject = append(inject, "-e", "inject="+n+":"+fmt.Sprintf(mode, at))
				}
			}
		}
		d := filepath.Join(j.dir, fmt.Sprint("f", k))
		if err := s.write(d); err != nil {
			return err
		}
		what := fmt.Sprintf("call %d of %d (%s) with %s", k, len(calls), call.name, fmt.Sprintf(mode, call.nth))
		_, out, err := straceRun(d, -1, p[1], inject...)
		if err != nil {
			return err
		}
		c.Add("transitions", 1)
		c.Add("traces", 1)
		c.State(unit, call, k, strings.SplitN(out, " ", 2)[0])
		after := loadState(d)
		if os.Getenv("MC_DEBUG") != "" {
			fmt.Println(what, "->", cutTo(out, 200), after.list())
		}
		if strings.Contains(mode, "KILL") {
			if !names[nm(after.clone())] && !partialRemoval(s, after) {
				return fmt.Errorf("%s: the real state is not one of the model: %s", what, after.list())
			}
		} else {
			switch {
			case out == "ok":
				g, err := readCkpt(d, crashName(p[1]))
				if err != nil || canon(g) != j.canons[p[1]] {
					c.Fail(unit, "%s: the writer reports success, but the checkpoint cannot be read back: %v; files: %s", what, err, after.list())
					return nil
				}
			case out == "error":
			default:
				c.Fail(unit, "%s: the writer does not return an error but ends with: %s", what, cutTo(out, 600))
				return nil
			}
		}
		if !j.judgeDir(what, d, after.list()) {
			return nil
		}
		os.RemoveAll(d)
	}
	return nil
}

// partialRemoval: everything that is left was there before, in the old checkpoint.
func partialRemoval(before, after fsState) bool {
	for k := range after {
		if strings.HasPrefix(k, "checkpoint/") {
			if _, ok := before[k]; !ok {
				return false
			}
		}
	}
	return true
}

func pairDesc(p [2]int) string {
	return fmt.Sprintf("checkpoint %d written over checkpoint %d (-1: none; 0: empty; 1: one file; 2: shared, binary and empty files, an empty commit; 3: 30 commits with random data; 4: same commit as 1, other files)", p[1], p[0])
}

func init() {
	single := func(f func(c *eng.Ctx, unit int) error) func(c *eng.Ctx, units []int) error {
		return func(c *eng.Ctx, units []int) error {
			for _, u := range units {
				if err := f(c, u); err != nil {
					return err
				}
			}
			return nil
		}
	}
	eng.Register(eng.Check{ID: "C07", Level: "model_checking", Assume: []string{
		"renames, creations and removals of names reach the disk in the order they were made; file data that was not synced may be cut anywhere",
		"the traced writer works in one thread; the model of the file system is compared with the real one after every traced write and with really killed writers",
	}, Spaces: func(tier string) []eng.Space {
		pairs := len(crashPairs)
		return []eng.Space{
			{Name: "kill", Rule: "the real writer's file operations are recorded; every prefix of them, every byte length of a torn write, every subset of a removal in progress, then reading for every commit and without strict resume, and one more write", Size: func() int { return pairs }, Batch: 1, Solo: true,
				Desc: func(i int) string { return pairDesc(crashPairs[i]) }, Exec: single(crashKill)},
			{Name: "power", Rule: "as kill, but at every rename or removal the data of every file not synced is cut at each of several lengths, all combinations", Size: func() int { return pairs }, Batch: 1, Solo: true,
				Desc: func(i int) string { return pairDesc(crashPairs[i]) }, Exec: single(crashPower)},
			{Name: "damage", Rule: "every file of a finished checkpoint missing, cut at every length, longer, or with every byte changed in three ways", Size: func() int { return 3 }, Batch: 1, Solo: true,
				Desc: func(i int) string { return fmt.Sprint("checkpoint ", i) }, Exec: single(crashDamage)},
			{Name: "faults", Rule: "every call of the writer fails with no space, or fails from then on, or the process is killed for real at it", Size: func() int { return pairs * 3 }, Batch: 1, Solo: true,
				Desc: func(i int) string {
					return pairDesc(crashPairs[i/3]) + []string{" call fails once (ENOSPC)", " calls fail from then on (EIO)", " killed"}[i%3]
				}, Exec: single(crashFault)},
			fullSpace(),
		}
	}})
}
