package props

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/mc/eng"
	"verif/mc/gitx"
)

var (
	stObjects = []string{"pack", "loose", "alternates", "twice"}
	stRefs    = []string{"packed", "loose", "stale"}
	stLayout  = []string{".git", "bare", "gitfile", "worktree"}
	stExtra   = []string{"", "files", "rebase", "merge", "locks", "bisect", "graph"}
	stPath    = []string{"", "/", "relative", "link", "."}
)

type storage struct{ obj, refs, layout, extra, path string }

// storageSpace keeps one and the same history in every way, and gets at it in
// every way.
func storageSpace() eng.Space {
	var us []storage
	for _, o := range stObjects {
		for _, r := range stRefs {
			for _, l := range stLayout {
				for _, e := range stExtra {
					for _, p := range stPath {
						us = append(us, storage{o, r, l, e, p})
					}
				}
			}
		}
	}
	return eng.Space{Name: "storage", Rule: "objects in a pack, in files, elsewhere, twice; refs packed, in files, in files with old packed ones; a .git directory, a bare repository, a .git file, a linked work tree; with files of a rebase, merge or bisection in progress, changed files and an index, lock files, a commit graph file; named absolutely, relatively, through a link, with a slash, as the current directory: the results are the same", Batch: 30,
		Size: func() int { return len(us) }, Desc: func(i int) string { return fmt.Sprintf("%+v", us[i]) },
		Exec: func(c *eng.Ctx, units []int) error {
			e, err := newEnvRun(c)
			if err != nil {
				return err
			}
			defer os.RemoveAll(e.f.dir)
			for _, u := range units {
				if err := e.storage(c, u, us[u]); err != nil {
					return err
				}
			}
			return nil
		}}
}

func (e *envRun) storage(c *eng.Ctx, u int, k storage) error {
	f2, b, err := richRepo(filepath.Join(e.f.dir, "st it"))
	if err != nil {
		return err
	}
	defer os.RemoveAll(f2.dir)
	top, git := f2.repo.Dir, filepath.Join(f2.repo.Dir, ".git")
	write := func(p, t string) {
		if err == nil {
			if err = os.MkdirAll(filepath.Dir(p), 0777); err == nil {
				err = os.WriteFile(p, []byte(t), 0666)
			}
		}
	}
	// objects
	obj := filepath.Join(git, "objects")
	switch k.obj {
	case "loose":
		os.RemoveAll(filepath.Join(obj, "pack"))
		err = b.Store.WriteLoose(obj)
	case "twice":
		err = b.Store.WriteLoose(obj)
	case "alternates":
		if err = os.Rename(filepath.Join(obj, "pack"), filepath.Join(f2.dir, "pack")); err == nil {
			write(filepath.Join(obj, "info", "alternates"), filepath.Join(f2.dir, "alt")+"\n")
			os.Mkdir(filepath.Join(f2.dir, "alt"), 0777)
			if err == nil {
				err = os.Rename(filepath.Join(f2.dir, "pack"), filepath.Join(f2.dir, "alt", "pack"))
			}
		}
	}
	// refs
	pr, _ := os.ReadFile(filepath.Join(git, "packed-refs"))
	refs := map[string]string{}
	for _, l := range strings.Split(string(pr), "\n") {
		if i := strings.Index(l, " refs/"); i == 40 {
			refs[l[41:]] = l[:40]
		}
	}
	if k.refs != "packed" {
		for n, s := range refs {
			write(filepath.Join(git, n), s+"\n")
		}
		if k.refs == "loose" {
			os.Remove(filepath.Join(git, "packed-refs"))
		} else {
			for n := range refs {
				if !strings.HasPrefix(n, "refs/notes") {
					refs[n] = b.SHA[0][0]
				}
			}
			if err == nil {
				err = f2.repo.SetRefs(refs)
			}
		}
	}
	// what else is in there
	switch k.extra {
	case "files":
		var ns []string
		for n, x := range b.Hists[0].Nodes[7].Tree {
			if x.Mode[:2] == "10" {
				ns = append(ns, n)
			}
		}
		sort.Strings(ns)
		for i, n := range ns {
			if i%3 != 0 {
				write(filepath.Join(top, n), strings.Repeat("changed\n", i))
			}
		}
		write(filepath.Join(top, "untracked.go"), "package x\n")
		write(filepath.Join(git, "index"), "DIRC\x00\x00\x00\x02\x00\x00\x00\x00\x39\xd8\x90\x13\x9e\xe5\x35\x6c\x7e\xf5\x72\x21\x6c\xeb\xcd\x27\xaa\x41\xf9\xdf")
	case "rebase":
		write(filepath.Join(git, "rebase-merge", "head-name"), "refs/heads/master\n")
		write(filepath.Join(git, "rebase-merge", "onto"), b.SHA[0][0]+"\n")
		write(filepath.Join(git, "ORIG_HEAD"), b.SHA[0][1]+"\n")
	case "merge":
		write(filepath.Join(git, "MERGE_HEAD"), b.SHA[0][2]+"\n")
		write(filepath.Join(git, "MERGE_MSG"), "x\n")
		write(filepath.Join(git, "FETCH_HEAD"), b.SHA[0][2]+"\t\tbranch 'x' of y\n")
		write(filepath.Join(git, "CHERRY_PICK_HEAD"), b.SHA[0][1]+"\n")
	case "locks":
		for _, n := range []string{"index.lock", "HEAD.lock", "packed-refs.lock", "config.lock", "refs/heads/master.lock", "gc.pid"} {
			write(filepath.Join(git, n), "")
		}
	case "bisect":
		write(filepath.Join(git, "BISECT_START"), "master\n")
		write(filepath.Join(git, "BISECT_LOG"), "x\n")
		write(filepath.Join(git, "logs", "HEAD"), strings.Repeat("0", 40)+" "+b.SHA[0][0]+" n <e> 1500000000 +0000\tx\n")
		write(filepath.Join(git, "description"), "x\n")
		write(filepath.Join(git, "info", "exclude"), "*\n")
	case "graph":
		if err == nil {
			err = gitx.Git(top, "commit-graph", "write", "--reachable", "--changed-paths")
		}
	}
	if err != nil {
		return err
	}
	// layout
	conf := filepath.Join(git, "config")
	switch k.layout {
	case "bare":
		at := filepath.Join(f2.dir, "b.git")
		if err := os.Rename(git, at); err != nil {
			return err
		}
		top = at
		write(filepath.Join(at, "config"), "[core]\n\trepositoryformatversion = 0\n\tbare = true\n")
	case "gitfile":
		at := filepath.Join(f2.dir, "elsewhere")
		if err := os.Rename(git, at); err != nil {
			return err
		}
		write(git, "gitdir: "+at+"\n")
	case "worktree":
		wt := filepath.Join(f2.dir, "wt")
		adm := filepath.Join(git, "worktrees", "wt")
		write(filepath.Join(wt, ".git"), "gitdir: "+adm+"\n")
		write(filepath.Join(adm, "gitdir"), filepath.Join(wt, ".git")+"\n")
		write(filepath.Join(adm, "commondir"), "../..\n")
		write(filepath.Join(adm, "HEAD"), "ref: refs/heads/master\n")
		write(filepath.Join(wt, ".mailmap"), "Mapped <mapped@x> <old@x>\n")
		top = wt
		_ = conf
	}
	if err != nil {
		return err
	}
	// path
	wd, err := os.Getwd()
	if err != nil {
		return err
	}
	defer os.Chdir(wd)
	arg := top
	switch k.path {
	case "/":
		arg += "/"
	case "relative":
		arg = filepath.Base(top)
		err = os.Chdir(filepath.Dir(top))
	case ".":
		arg = "."
		err = os.Chdir(top)
	case "link":
		arg = filepath.Join(f2.dir, "a link")
		err = os.Symlink(top, arg)
	}
	if err != nil {
		return err
	}
	good := e.good
	r := envRun{f: &failEnv{repo: &gitx.Repo{Dir: arg}, dir: f2.dir, prs: e.f.prs, tip: e.f.tip}, good: good, null: e.null}
	r.check(c, u)
	return nil
}
