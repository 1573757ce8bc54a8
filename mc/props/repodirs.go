package props

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/pinpt/ripsrc/ripsrc/pkg/gitrepos"

	"verif/mc/eng"
)

// dirNode is a directory: what is called .git and objects in it (0 nothing,
// 1 a directory, 2 a file), and other directories.
type dirNode struct {
	name     string
	git, obj int
	file     bool
	subs     []*dirNode
}

func (d *dirNode) String() string {
	s := fmt.Sprintf("%s[.git %d objects %d", d.name, d.git, d.obj)
	for _, x := range d.subs {
		s += " " + x.String()
	}
	return s + "]"
}

func (d *dirNode) write(at string) error {
	if err := os.MkdirAll(at, 0777); err != nil {
		return err
	}
	for n, k := range map[string]int{".git": d.git, "objects": d.obj} {
		p := filepath.Join(at, n)
		switch k {
		case 1:
			if err := os.Mkdir(p, 0777); err != nil {
				return err
			}
		case 2:
			if err := os.WriteFile(p, []byte("gitdir: x\n"), 0666); err != nil {
				return err
			}
		}
	}
	if d.file {
		if err := os.WriteFile(filepath.Join(at, "a-file"), nil, 0666); err != nil {
			return err
		}
		// a link to a directory is a file, too
		if err := os.Symlink(".", filepath.Join(at, "link.git")); err != nil {
			return err
		}
	}
	for _, x := range d.subs {
		if err := x.write(filepath.Join(at, x.name)); err != nil {
			return err
		}
	}
	return nil
}

// repos are the directories that are repositories, by the documentation of
// the command line tool.
func (d *dirNode) repos(at string, deep int) (l []string) {
	if d.git == 1 || strings.HasSuffix(filepath.Base(at), ".git") && d.obj == 1 {
		return []string{at}
	}
	if deep == 0 {
		return nil
	}
	for _, x := range d.subs {
		l = append(l, x.repos(filepath.Join(at, x.name), deep-1)...)
	}
	return
}

func pickDir(c *Choose, names []string, subs int) *dirNode {
	d := &dirNode{name: names[c.Pick(len(names))], git: c.Pick(3), obj: c.Pick(3)}
	if subs > 0 && c.Bool() {
		d.file = true
		d.subs = append(d.subs, pickDir(c, []string{"m", "m.git"}, subs-1))
	}
	return d
}

var errStop = errors.New("stop")

func repoDirsSpace(deep int) eng.Space {
	gen := func(c *Choose) *dirNode {
		root := &dirNode{name: []string{"r", "r.git"}[c.Pick(2)], git: c.Pick(3), obj: c.Pick(3)}
		for i, n := 0, c.Pick(3); i < n; i++ {
			s := deep
			if i > 0 {
				s = 0
			}
			root.subs = append(root.subs, pickDir(c, [][]string{{"k", "k.git"}, {"b", "p.git"}}[i], s))
		}
		// in the order of their names
		if len(root.subs) == 2 && root.subs[0].name > root.subs[1].name {
			root.subs[0], root.subs[1] = root.subs[1], root.subs[0]
		}
		return root
	}
	return dirSpace("directories", fmt.Sprintf("every tree of directories with up to two below the first and a chain of up to %d below one of them, each with or without .git and objects (directory or file) and a name that ends with .git or not, every limit of the depth, every way to name the directory, and a callback that fails at the first or second call or never", deep), deep, gen)
}

// dirNames are names that a tool could think special.
var dirNames = []string{".k", "..k", "...", "-k", "k k", " ", "k\nk", "\n", "é", "\xff", "K.GIT", "k.git.", "k.git ", ".k.git", "git", "objects", "refs", "hooks", "modules", "worktrees", "node_modules", "vendor", "tmp", "lost+found", "%d%s", "*", "[a-z]", "?", "~", "$HOME", "\\", "'", "\"", "con", "k.git.git", "k.bundle", "0", strings.Repeat("k", 255)}

func dirNameSpace() eng.Space {
	return dirSpace("directory-names", fmt.Sprintf("two directories with every pair of %d unusual names, each with or without .git and objects, below a directory that is no repository", len(dirNames)), 1, func(c *Choose) *dirNode {
		root := &dirNode{name: "r"}
		a, b := c.Pick(len(dirNames)), c.Pick(len(dirNames))
		if a == b {
			c.Prune()
		}
		for _, i := range []int{a, b} {
			root.subs = append(root.subs, &dirNode{name: dirNames[i], git: c.Pick(2), obj: c.Pick(2)})
		}
		if root.subs[0].name > root.subs[1].name {
			c.Prune()
		}
		return root
	})
}

func dirSpace(name, rule string, deep int, gen func(c *Choose) *dirNode) eng.Space {
	lv := &lazyVectors{f: func(c *Choose) { gen(c) }}
	get := func(i int) *dirNode { return gen(lv.at(i)) }
	return eng.Space{Name: name, Rule: rule, Batch: 500,
		Size: func() int { return len(lv.get()) },
		Desc: func(i int) string { return get(i).String() },
		Exec: func(c *eng.Ctx, units []int) error {
			dir := scratch(c)
			defer os.RemoveAll(dir)
			wd, err := os.Getwd()
			if err != nil {
				return err
			}
			defer os.Chdir(wd)
			for _, u := range units {
				root := get(u)
				up := filepath.Join(dir, fmt.Sprint(u))
				top := filepath.Join(up, root.name)
				if err := root.write(top); err != nil {
					return err
				}
				// how the directory is named, from where
				forms := []struct{ wd, arg string }{{up, top}, {up, top + "/"}, {top, "."}, {up, root.name}, {up, "./" + root.name}, {top, "../" + root.name}}
				for _, f := range forms {
					if err := os.Chdir(f.wd); err != nil {
						return err
					}
					for level := 0; level < deep+2; level++ {
						for stop := 0; stop < 3; stop++ {
							want := root.repos(top, level)
							wantErr := false
							if stop > 0 && len(want) >= stop {
								want, wantErr = want[:stop], true
							}
							for i, w := range want {
								want[i] = filepath.Clean(filepath.Clean(f.arg) + strings.TrimPrefix(w, top))
							}
							var got []string
							err := gitrepos.IterDir(f.arg, level, func(r string) error {
								got = append(got, filepath.Clean(r))
								if len(got) == stop {
									return errStop
								}
								return nil
							})
							c.State(fmt.Sprint(want, wantErr))
							c.Add("transitions", 1)
							if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
								c.Fail(u, "%s from %s to depth %d: got %q instead of %q", f.arg, f.wd, level, got, want)
							} else if wantErr != (err != nil) || wantErr && !errors.Is(err, errStop) {
								c.Fail(u, "%s from %s to depth %d: error %v, although the callback failed: %v", f.arg, f.wd, level, err, wantErr)
							}
						}
					}
				}
				if err := os.Chdir(wd); err != nil {
					return err
				}
				os.RemoveAll(up)
			}
			return nil
		}}
}
