// Package gitx writes git repositories directly (objects, pack, index, refs)
// without running git, so that thousands of small histories can be put before
// the real code cheaply and with known hashes.
package gitx

import (
	"bytes"
	"compress/zlib"
	"crypto/sha1"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"hash/crc32"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type Entry struct {
	Mode string // "100644", "100755", "120000", "160000"
	Data string // content, or the hex sha for 160000
}

type Tree map[string]Entry

func (t Tree) Clone() Tree {
	r := Tree{}
	for k, v := range t {
		r[k] = v
	}
	return r
}

type Ident struct {
	Name, Email string
	Time        int64
	TZ          string
	Raw         string // replaces the whole line when set
}

func (i Ident) String() string {
	if i.Raw != "" {
		return i.Raw
	}
	return fmt.Sprintf("%s <%s> %d %s", i.Name, i.Email, i.Time, i.TZ)
}

type Commit struct {
	Parents           []string // hex shas
	Tree              Tree
	Author, Committer Ident
	Message           string
	ExtraHeaders      string // raw header lines, each with its newline
}

type object struct {
	typ  int
	data []byte
}

// Store collects objects.
type Store struct {
	objs  map[[20]byte]object
	trees map[string][20]byte // cache of canonical tree
}

func NewStore() *Store {
	return &Store{objs: map[[20]byte]object{}, trees: map[string][20]byte{}}
}

var typeName = map[int]string{1: "commit", 2: "tree", 3: "blob", 4: "tag"}

func (s *Store) put(typ int, data []byte) [20]byte {
	h := sha1.New()
	fmt.Fprintf(h, "%s %d\x00", typeName[typ], len(data))
	h.Write(data)
	var id [20]byte
	copy(id[:], h.Sum(nil))
	if _, ok := s.objs[id]; !ok {
		s.objs[id] = object{typ, data}
	}
	return id
}

func (s *Store) Blob(data string) string {
	id := s.put(3, []byte(data))
	return hex.EncodeToString(id[:])
}

// Tag stores an annotated tag object.
func (s *Store) Tag(target, name string) string {
	id := s.put(4, []byte(fmt.Sprintf("object %s\ntype commit\ntag %s\ntagger n <n@n> 1500000000 +0000\n\nmsg\n", target, name)))
	return hex.EncodeToString(id[:])
}

func (s *Store) Len() int { return len(s.objs) }

func (s *Store) tree(t Tree) [20]byte {
	type ent struct {
		name string
		mode string
		id   [20]byte
	}
	subs := map[string]Tree{}
	var ents []ent
	for p, e := range t {
		if i := strings.IndexByte(p, '/'); i >= 0 {
			d := p[:i]
			if subs[d] == nil {
				subs[d] = Tree{}
			}
			subs[d][p[i+1:]] = e
			continue
		}
		var id [20]byte
		if e.Mode == "160000" {
			b, _ := hex.DecodeString(e.Data)
			copy(id[:], b)
		} else {
			id = s.put(3, []byte(e.Data))
		}
		ents = append(ents, ent{p, e.Mode, id})
	}
	for d, st := range subs {
		ents = append(ents, ent{d, "40000", s.tree(st)})
	}
	key := func(e ent) string {
		if e.mode == "40000" {
			return e.name + "/"
		}
		return e.name
	}
	sort.Slice(ents, func(i, j int) bool { return key(ents[i]) < key(ents[j]) })
	var b bytes.Buffer
	for _, e := range ents {
		fmt.Fprintf(&b, "%s %s\x00", e.mode, e.name)
		b.Write(e.id[:])
	}
	return s.put(2, b.Bytes())
}

func (s *Store) Commit(c Commit) string {
	tid := s.tree(c.Tree)
	var b bytes.Buffer
	fmt.Fprintf(&b, "tree %s\n", hex.EncodeToString(tid[:]))
	for _, p := range c.Parents {
		fmt.Fprintf(&b, "parent %s\n", p)
	}
	fmt.Fprintf(&b, "author %s\ncommitter %s\n", c.Author, c.Committer)
	b.WriteString(c.ExtraHeaders)
	b.WriteString("\n")
	b.WriteString(c.Message)
	id := s.put(1, b.Bytes())
	return hex.EncodeToString(id[:])
}

// WritePack writes every object of the store as one pack with its index into
// dir (an objects/pack directory).
func (s *Store) WritePack(dir string) error {
	if err := os.MkdirAll(dir, 0777); err != nil {
		return err
	}
	ids := make([][20]byte, 0, len(s.objs))
	for id := range s.objs {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return bytes.Compare(ids[i][:], ids[j][:]) < 0 })
	var pk bytes.Buffer
	pk.WriteString("PACK")
	binary.Write(&pk, binary.BigEndian, uint32(2))
	binary.Write(&pk, binary.BigEndian, uint32(len(ids)))
	offs := make([]uint32, len(ids))
	crcs := make([]uint32, len(ids))
	var zbuf bytes.Buffer
	zw, _ := zlib.NewWriterLevel(&zbuf, zlib.BestSpeed)
	for i, id := range ids {
		o := s.objs[id]
		offs[i] = uint32(pk.Len())
		start := pk.Len()
		n := len(o.data)
		c := byte(o.typ<<4) | byte(n&15)
		n >>= 4
		for n > 0 {
			pk.WriteByte(c | 0x80)
			c = byte(n & 0x7f)
			n >>= 7
		}
		pk.WriteByte(c)
		zbuf.Reset()
		zw.Reset(&zbuf)
		zw.Write(o.data)
		zw.Close()
		pk.Write(zbuf.Bytes())
		crcs[i] = crc32.ChecksumIEEE(pk.Bytes()[start:])
	}
	sum := sha1.Sum(pk.Bytes())
	pk.Write(sum[:])
	var ix bytes.Buffer
	ix.Write([]byte{0xff, 't', 'O', 'c'})
	binary.Write(&ix, binary.BigEndian, uint32(2))
	var fan [256]uint32
	for _, id := range ids {
		fan[id[0]]++
	}
	tot := uint32(0)
	for i := range fan {
		tot += fan[i]
		binary.Write(&ix, binary.BigEndian, tot)
	}
	for _, id := range ids {
		ix.Write(id[:])
	}
	for _, c := range crcs {
		binary.Write(&ix, binary.BigEndian, c)
	}
	for _, o := range offs {
		binary.Write(&ix, binary.BigEndian, o)
	}
	ix.Write(sum[:])
	isum := sha1.Sum(ix.Bytes())
	ix.Write(isum[:])
	name := "pack-" + hex.EncodeToString(sum[:])
	if err := os.WriteFile(filepath.Join(dir, name+".pack"), pk.Bytes(), 0444); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, name+".idx"), ix.Bytes(), 0444)
}

// WriteLoose writes every object of the store as a file of its own into dir (an
// objects directory).
func (s *Store) WriteLoose(dir string) error {
	for id, o := range s.objs {
		h := hex.EncodeToString(id[:])
		if err := os.MkdirAll(filepath.Join(dir, h[:2]), 0777); err != nil {
			return err
		}
		var b bytes.Buffer
		z := zlib.NewWriter(&b)
		fmt.Fprintf(z, "%s %d\x00", []string{1: "commit", 2: "tree", 3: "blob", 4: "tag"}[o.typ], len(o.data))
		z.Write(o.data)
		z.Close()
		if err := os.WriteFile(filepath.Join(dir, h[:2], h[2:]), b.Bytes(), 0444); err != nil {
			return err
		}
	}
	return nil
}

// Repo is a (non-bare, no checked-out files) repository on disk.
type Repo struct {
	Dir string
}

// InitRepo makes dir/.git. When alternates is not empty the repository takes
// its objects from there.
func InitRepo(dir string, alternates string) (*Repo, error) {
	g := filepath.Join(dir, ".git")
	for _, d := range []string{"objects/info", "objects/pack", "refs/heads"} {
		if err := os.MkdirAll(filepath.Join(g, d), 0777); err != nil {
			return nil, err
		}
	}
	r := &Repo{Dir: dir}
	if alternates != "" {
		if err := os.WriteFile(filepath.Join(g, "objects/info/alternates"), []byte(alternates+"\n"), 0666); err != nil {
			return nil, err
		}
	}
	if err := os.WriteFile(filepath.Join(g, "config"), []byte("[core]\n\trepositoryformatversion = 0\n\tbare = false\n"), 0666); err != nil {
		return nil, err
	}
	return r, r.SetHead("ref: refs/heads/master")
}

func (r *Repo) SetHead(v string) error {
	return os.WriteFile(filepath.Join(r.Dir, ".git/HEAD"), []byte(v+"\n"), 0666)
}

// SetRefs replaces all refs (as packed-refs). Keys are full names.
func (r *Repo) SetRefs(refs map[string]string) error {
	var names []string
	for n := range refs {
		names = append(names, n)
	}
	sort.Strings(names)
	var b bytes.Buffer
	b.WriteString("# pack-refs with: sorted \n")
	for _, n := range names {
		fmt.Fprintf(&b, "%s %s\n", refs[n], n)
	}
	return os.WriteFile(filepath.Join(r.Dir, ".git/packed-refs"), b.Bytes(), 0666)
}

func (r *Repo) AddPack(s *Store) error {
	return s.WritePack(filepath.Join(r.Dir, ".git/objects/pack"))
}

// Drop forgets an object, so that a repository misses it.
func (s *Store) Drop(sha string) {
	b, _ := hex.DecodeString(sha)
	var id [20]byte
	copy(id[:], b)
	delete(s.objs, id)
}

// Git runs the installed git.
func Git(dir string, args ...string) error {
	c := exec.Command("git", args...)
	c.Dir = dir
	if out, err := c.CombinedOutput(); err != nil {
		return fmt.Errorf("git %v: %v %s", args, err, out)
	}
	return nil
}
