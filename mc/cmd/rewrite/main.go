// Command rewrite copies packages to a directory, with every channel
// operation, go statement, map iteration, lock, pipe and command replaced by
// the scheduler's.
//
//	rewrite OUT PACKAGE-PREFIX PATTERN... (run in the module that builds them)
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkg struct {
	ImportPath, Dir, Export string
	GoFiles, EmbedFiles     []string
	ImportMap               map[string]string
}

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "rewrite:", err)
		os.Exit(2)
	}
}

func main() {
	out, prefixes, patterns := os.Args[1], strings.Split(os.Args[2], ","), os.Args[3:]
	cmd := exec.Command("go", append([]string{"list", "-tags", "no_license", "-deps", "-export", "-json=ImportPath,Dir,Export,GoFiles,EmbedFiles,ImportMap"}, patterns...)...)
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	fatal(err)
	exports := map[string]string{}
	var todo []pkg
	d := json.NewDecoder(bytes.NewReader(b))
	for {
		var p pkg
		err := d.Decode(&p)
		if err == io.EOF {
			break
		}
		fatal(err)
		exports[p.ImportPath] = p.Export
		for _, pre := range prefixes {
			if p.ImportPath == pre || strings.HasPrefix(p.ImportPath, pre+"/") {
				todo = append(todo, p)
				break
			}
		}
	}
	for _, p := range todo {
		fatal(rewrite(out, p, exports))
	}
}

type edit struct {
	from, to int
	text     string
	seq      int
}

type rw struct {
	fset  *token.FileSet
	info  *types.Info
	src   []byte
	edits []edit
	used  bool
	n     int
	io    bool
	ctx   map[ast.Node]bool // done with
}

func rewrite(out string, p pkg, exports map[string]string) error {
	fset := token.NewFileSet()
	var files []*ast.File
	var srcs [][]byte
	for _, f := range p.GoFiles {
		b, err := os.ReadFile(filepath.Join(p.Dir, f))
		if err != nil {
			return err
		}
		a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), b, parser.ParseComments)
		if err != nil {
			return err
		}
		files, srcs = append(files, a), append(srcs, b)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp, GoVersion: "go1.21"}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		return err
	}
	dir := filepath.Join(out, p.ImportPath)
	if err := os.MkdirAll(dir, 0777); err != nil {
		return err
	}
	for i, f := range files {
		r := &rw{fset: fset, info: info, src: srcs[i], ctx: map[ast.Node]bool{}}
		res, err := r.file(f)
		if err != nil {
			return fmt.Errorf("%s: %v", p.GoFiles[i], err)
		}
		if err := os.WriteFile(filepath.Join(dir, p.GoFiles[i]), res, 0666); err != nil {
			return err
		}
	}
	for _, e := range p.EmbedFiles {
		b, err := os.ReadFile(filepath.Join(p.Dir, e))
		if err != nil {
			return err
		}
		os.MkdirAll(filepath.Dir(filepath.Join(dir, e)), 0777)
		if err := os.WriteFile(filepath.Join(dir, e), b, 0666); err != nil {
			return err
		}
	}
	return nil
}

func (r *rw) off(p token.Pos) int { return r.fset.Position(p).Offset }

func (r *rw) put(from, to token.Pos, text string) {
	r.edits = append(r.edits, edit{r.off(from), r.off(to), text, len(r.edits)})
}

func (r *rw) text(n ast.Node) string { return string(r.src[r.off(n.Pos()):r.off(n.End())]) }

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (r *rw) isChan(e ast.Expr) bool {
	_, ok := under(r.info.TypeOf(e)).(*types.Chan)
	return ok
}

func (r *rw) builtin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func (r *rw) pkgName(e ast.Expr) string {
	if id, ok := e.(*ast.Ident); ok {
		if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
			return pn.Imported().Path()
		}
	}
	return ""
}

func recvOf(e ast.Expr) *ast.UnaryExpr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (r *rw) recv(u *ast.UnaryExpr, f string) {
	r.put(u.OpPos, u.OpPos+2, "sched."+f+"(")
	r.put(u.X.End(), u.X.End(), ")")
	r.ctx[u] = true
	r.used = true
}

func (r *rw) file(f *ast.File) ([]byte, error) {
	for _, im := range f.Imports {
		switch p, _ := strconv.Unquote(im.Path.Value); p {
		case "sync":
			if im.Name == nil {
				r.put(im.Pos(), im.Pos(), "sync ")
			}
			r.put(im.Path.Pos(), im.Path.End(), `"verif/mc/sched/syncshim"`)
		case "os/exec":
			if im.Name == nil {
				r.put(im.Pos(), im.Pos(), "exec ")
			}
			r.put(im.Path.Pos(), im.Path.End(), `"verif/mc/sched/execshim"`)
		}
	}
	var err error
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 && !r.ctx[x] {
				if u := recvOf(x.Rhs[0]); u != nil {
					r.recv(u, "Recv2")
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u := recvOf(x.Values[0]); u != nil {
					r.recv(u, "Recv2")
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !r.ctx[x] {
				r.recv(x, "Recv")
			}
		case *ast.SendStmt:
			if !r.ctx[x] {
				r.put(x.Pos(), x.Pos(), "sched.Send(")
				r.put(x.Arrow, x.Arrow+2, ", ")
				r.put(x.End(), x.End(), ")")
				r.used = true
			}
		case *ast.CallExpr:
			switch {
			case r.ctx[x]:
			case r.builtin(x.Fun, "close"):
				r.put(x.Fun.Pos(), x.Fun.End(), "sched.Close")
				r.used = true
			case r.builtin(x.Fun, "len") && r.isChan(x.Args[0]):
				r.put(x.Fun.Pos(), x.Fun.End(), "sched.Len")
				r.used = true
			case r.builtin(x.Fun, "make") && r.isChan(x):
				r.put(x.Pos(), x.Pos(), "sched.Reg(")
				r.put(x.End(), x.End(), ")")
				r.used = true
			}
		case *ast.SelectorExpr:
			if r.pkgName(x.X) == "io" {
				switch x.Sel.Name {
				case "Pipe", "PipeReader", "PipeWriter":
					r.put(x.X.Pos(), x.X.End(), "sched")
					r.used, r.io = true, true
				}
			}
		case *ast.GoStmt:
			r.goStmt(x)
		case *ast.RangeStmt:
			r.rangeStmt(x)
		case *ast.SelectStmt:
			if e := r.selectStmt(x); e != nil {
				err = e
			}
		}
		return true
	})
	if err != nil {
		return nil, err
	}
	if r.used {
		r.put(f.Name.End(), f.Name.End(), "; import sched \"verif/mc/sched\"")
	}
	sort.SliceStable(r.edits, func(i, j int) bool {
		a, b := r.edits[i], r.edits[j]
		if a.from != b.from {
			return a.from < b.from
		}
		// insertions that close something come before those that open
		ac, bc := strings.HasPrefix(a.text, ")"), strings.HasPrefix(b.text, ")")
		if ac != bc {
			return ac
		}
		if ac && bc { // inner ones were added later
			return a.seq > b.seq
		}
		return a.seq < b.seq
	})
	var o bytes.Buffer
	at := 0
	for _, e := range r.edits {
		if e.from < at {
			return nil, fmt.Errorf("overlapping edits at offset %d", e.from)
		}
		o.Write(r.src[at:e.from])
		o.WriteString(e.text)
		at = e.to
	}
	o.Write(r.src[at:])
	if r.io {
		o.WriteString("\nvar _ = io.EOF\n")
	}
	return o.Bytes(), nil
}

func (r *rw) goStmt(x *ast.GoStmt) {
	r.used = true
	c := x.Call
	if r.builtin(c.Fun, "close") {
		r.put(x.Go, x.Go+2, "sched.GoClose(")
		r.put(c.Fun.Pos(), c.Lparen+1, "")
		r.ctx[c] = true
		return
	}
	if _, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		r.put(x.Go, x.Go+2, "sched.Go(")
		r.put(c.Lparen, c.Rparen+1, ")")
		return
	}
	r.n++
	fn := fmt.Sprintf("__f%d", r.n)
	var names, pass []string
	konst := make([]bool, len(c.Args))
	for i, a := range c.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			konst[i] = true
			pass = append(pass, r.text(a))
			continue
		}
		v := fmt.Sprintf("__a%d_%d", r.n, i)
		names = append(names, v)
		pass = append(pass, v)
	}
	dots := ""
	if c.Ellipsis.IsValid() {
		dots = "..."
	}
	r.put(x.Go, x.Go+2, "{ "+fn+" := ")
	// drop constants, separate the others
	if len(names) == 0 {
		r.put(c.Lparen, c.Rparen+1, "; sched.Go(func() { "+fn+"("+strings.Join(pass, ", ")+dots+") }) }")
		return
	}
	pos := c.Lparen
	first := true
	for i, a := range c.Args {
		if konst[i] {
			continue
		}
		t := ", "
		if first {
			t = "; " + strings.Join(names, ", ") + " := "
			first = false
		}
		r.put(pos, a.Pos(), t)
		pos = a.End()
	}
	r.put(pos, c.Rparen+1, "; sched.Go(func() { "+fn+"("+strings.Join(pass, ", ")+dots+") }) }")
}

func (r *rw) rangeStmt(x *ast.RangeStmt) {
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	switch under(r.info.TypeOf(x.X)).(type) {
	case *types.Chan:
		r.used = true
		r.n++
		c, ok := fmt.Sprintf("__c%d", r.n), fmt.Sprintf("__ok%d", r.n)
		body := fmt.Sprintf("; ; { var %s bool; ", ok)
		switch {
		case blank(x.Key):
			r.put(x.For+3, x.X.Pos(), " "+c+" := ")
			body += "_, " + ok + " = sched.Recv2(" + c + ")"
		case x.Tok == token.DEFINE:
			k := r.text(x.Key)
			r.put(x.For+3, x.X.Pos(), fmt.Sprintf(" %s, %s := ", c, k))
			r.put(x.X.End(), x.X.End(), ", sched.Zero("+r.text(x.X)+")")
			body += k + ", " + ok + " = sched.Recv2(" + c + ")"
		default:
			r.put(x.For+3, x.X.Pos(), " "+c+" := ")
			body += r.text(x.Key) + ", " + ok + " = sched.Recv2(" + c + ")"
		}
		body += "; if !" + ok + " { break }; "
		r.put(x.Body.Lbrace, x.Body.Lbrace+1, body)
	case *types.Map:
		switch x.X.(type) {
		case *ast.Ident, *ast.SelectorExpr:
		default:
			return
		}
		r.used = true
		r.n++
		m, ks, i := fmt.Sprintf("__m%d", r.n), fmt.Sprintf("__ks%d", r.n), fmt.Sprintf("__i%d", r.n)
		src := r.text(x.X)
		k, v := fmt.Sprintf("__k%d", r.n), "_"
		lhs, rhs := m+", "+ks+", "+i, src+", sched.Keys("+src+"), 0"
		if x.Tok == token.DEFINE || blank(x.Key) {
			if !blank(x.Key) {
				k = r.text(x.Key)
			}
			lhs, rhs = lhs+", "+k, rhs+", sched.ZK("+src+")"
		} else {
			k = r.text(x.Key)
		}
		if !blank(x.Value) {
			v = r.text(x.Value)
			if x.Tok == token.DEFINE {
				lhs, rhs = lhs+", "+v, rhs+", sched.ZV("+src+")"
			}
		}
		ok := fmt.Sprintf("__ok%d", r.n)
		r.put(x.For+3, x.Body.Lbrace+1, fmt.Sprintf(" %s := %s; %s < len(%s); %s++ { var %s bool; %s = %s[%s]; %s, %s = %s[%s]; if !%s { continue }; ",
			lhs, rhs, i, ks, i, ok, k, ks, i, v, ok, m, k, ok))
	}
}

func (r *rw) selectStmt(x *ast.SelectStmt) error {
	r.used = true
	r.n++
	sel := fmt.Sprintf("__s%d", r.n)
	var cases []string
	def := false
	for _, s := range x.Body.List {
		cc := s.(*ast.CommClause)
		n := len(cases)
		switch c := cc.Comm.(type) {
		case nil:
			def = true
		case *ast.SendStmt:
			r.ctx[c] = true
			cases = append(cases, "sched.SC("+r.text(c.Chan)+", "+r.text(c.Value)+")")
			r.put(cc.Case, cc.Colon+1, fmt.Sprintf("case %d:", n))
		case *ast.ExprStmt:
			u := recvOf(c.X)
			r.ctx[u] = true
			cases = append(cases, "sched.R("+r.text(u.X)+")")
			r.put(cc.Case, cc.Colon+1, fmt.Sprintf("case %d:", n))
		case *ast.AssignStmt:
			u := recvOf(c.Rhs[0])
			r.ctx[u] = true
			cases = append(cases, "sched.R("+r.text(u.X)+")")
			f := "Got"
			lhs := r.text(c.Lhs[0])
			if len(c.Lhs) == 2 {
				f = "Got2"
				lhs += ", " + r.text(c.Lhs[1])
			}
			r.ctx[c] = true
			r.put(cc.Case, cc.Colon+1, fmt.Sprintf("case %d: %s %s sched.%s(%s, %s);", n, lhs, c.Tok, f, sel, r.text(u.X)))
		}
		if cc.Comm != nil {
			ast.Inspect(cc.Comm, func(n ast.Node) bool {
				if n == nil {
					return true
				}
				r.ctx[n] = true
				return true
			})
		}
	}
	if len(cases) == 0 && !def {
		return fmt.Errorf("empty select is not supported")
	}
	r.put(x.Select, x.Body.Lbrace+1, fmt.Sprintf("switch %s := sched.Select(%s); %s.I {", sel, strings.Join(append([]string{fmt.Sprint(def)}, cases...), ", "), sel))
	return nil
}
