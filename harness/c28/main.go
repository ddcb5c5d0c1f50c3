// C28: trees survive the conversion between formats.
package main

import (
	"archive/tar"
	"io/fs"
	"strings"
	"syscall"
	"time"

	"github.com/dpeckett/archivefs/arfs"
	"github.com/dpeckett/archivefs/erofs"
	"github.com/dpeckett/archivefs/memfs"
	"github.com/dpeckett/archivefs/tarfs"

	"verif.local/harness/lib"
	"verif.local/harness/sym"
)

// through makes an archive of the given kind of src and opens it.
func through(kind byte, src fs.FS) fs.FS {
	dst := &lib.Mem{}
	var fsys fs.FS
	var err error
	switch kind {
	case 'a':
		err = arfs.Create(dst, src)
	case 't':
		err = tarfs.Create(dst, src)
	default:
		err = erofs.Create(dst, src)
	}
	sym.Assert(err == nil, "the tree is accepted")
	switch kind {
	case 'a':
		fsys, err = arfs.Open(dst)
	case 't':
		fsys, err = tarfs.Open(dst)
	default:
		fsys, err = erofs.Open(dst)
	}
	sym.Assert(err == nil, "what Create wrote opens")
	return fsys
}

// chain is a sequence of conversions, a for ar, t for tar, e for erofs.
func chain(kinds ...string) string {
	n := sym.Choose("chain", len(kinds))
	return kinds[n]
}

// links adds what ar lacks.
type links struct{ fs.FS }

func (l links) ReadDir(name string) ([]fs.DirEntry, error) { return fs.ReadDir(l.FS, name) }
func (l links) Stat(name string) (fs.FileInfo, error)      { return fs.Stat(l.FS, name) }
func (l links) StatLink(name string) (fs.FileInfo, error)  { return fs.Stat(l.FS, name) }
func (l links) ReadLink(name string) (string, error)       { return "", fs.ErrInvalid }

func same(fsys fs.FS, root *lib.Node, times string, owners map[*lib.Node][2]int) {
	l, ok := fsys.(lib.LinkFS)
	if !ok {
		l = links{fsys}
	}
	lib.SameTree(l, root, ".", func(n *lib.Node, p string, fi fs.FileInfo) {
		sym.Assert(fi.Mode() == n.M, "mode of "+p)
		switch times {
		case "none":
		default:
			d := fi.ModTime().Sub(n.MTime)
			sym.Assert(d > -time.Second && d < time.Second && fi.ModTime().Nanosecond() == 0, "second of "+p)
		}
		uid, gid := -1, -1
		switch sys := fi.Sys().(type) {
		case *tar.Header:
			uid, gid = sys.Uid, sys.Gid
		case *arfs.Entry:
			uid, gid = int(sys.Uid), int(sys.Gid)
		case *erofs.Inode:
			uid, gid = int(sys.UID()), int(sys.GID())
		}
		o := owners[n]
		sym.Assert(uid == o[0] && gid == o[1], "owner of "+p)
	})
}

// mode gives n any permissions and special bits.
func mode(n *lib.Node) {
	n.M = n.M.Type() | fs.FileMode(sym.U16("perm")&0o777)
	special := sym.Choose("special", 4)
	n.M |= []fs.FileMode{0, fs.ModeSetuid, fs.ModeSetgid, fs.ModeSticky}[special]
}

// owner gives n any owner, in one of the forms that Create knows.
func owner(n *lib.Node, ugid [2]int) {
	if n.Nm != "a" {
		n.SysV = &tar.Header{Uid: ugid[0], Gid: ugid[1]}
		return
	}
	n.SysV = &syscall.Stat_t{Uid: uint32(ugid[0]), Gid: uint32(ugid[1]), Nlink: 1}
}

// meta gives the k-th entry arbitrary metadata of one kind.
func meta(all []*lib.Node, k, maxID int) map[*lib.Node][2]int {
	owners := map[*lib.Node][2]int{}
	any := sym.Choose("any", k)
	field := sym.Choose("field", 3)
	for i, n := range all {
		n.M = n.M.Type() | 0o640
		n.MTime = time.Unix(1000000000+int64(i), 0)
		o := [2]int{i, 10 * i}
		if i == any {
			switch field {
			case 0:
				mode(n)
			case 1:
				nsec := sym.Choose("nsec", 3)
				base := sym.Choose("second", 3)
				sec := []int64{0, 1<<31 - 50, 1<<33 - 100}[base] + int64(sym.Range("sec", 0, 99))
				n.MTime = time.Unix(sec, []int64{0, 1, 999999999}[nsec])
			case 2:
				base := sym.Choose("base", 3)
				which := sym.Choose("which", 2)
				o[which] = []int{0, 1<<16 - 50, maxID - 99}[base] + sym.Range("id", 0, 99)
			}
		}
		owner(n, o)
		owners[n] = o
	}
	return owners
}

// HarnessTrees: trees with directories and links go through tar archives and
// erofs images.
func HarnessTrees() {
	kinds := []string{"te", "et", "tet", "ete"}
	kinds = append(kinds, []string{"ttee", "teet"}[:sym.Param("long", 0, 2)]...)
	c := chain(kinds...)
	size := sym.Choose("size", 2+sym.Param("large", 0, 1))
	f := lib.File("b", 0, sym.Bytes("data", []int{2, 0, 1025}[size]))
	d := lib.Dir("a", 0, f)
	l := lib.Link("c", "../"+string(sym.Bytes("target", 1)))
	sym.Assume(l.Link[3] >= 'a' && l.Link[3] <= 'z')
	root := lib.Dir(".", 0o755, d, l)
	owners := meta([]*lib.Node{d, f, l}, 3, 1<<17-1)
	var fsys fs.FS = &lib.Src{Root: root}
	for i := range c {
		fsys = through(c[i], fsys)
	}
	same(fsys, root, "seconds", owners)
	sym.Reach("done")
}

// HarnessFiles: flat trees go through ar archives, too.
func HarnessFiles() {
	kinds := []string{"at", "ae", "ta", "ea", "aea", "ata", "tae"}
	kinds = append(kinds, []string{"aeta", "eate"}[:sym.Param("long", 0, 2)]...)
	c := chain(kinds...)
	a := lib.File("a", 0, sym.Bytes("data", 1))
	b := lib.File("b", 0, sym.Bytes("data", 2))
	root := lib.Dir(".", 0o755, a, b)
	owners := meta([]*lib.Node{a, b}, 2, 999999)
	var fsys fs.FS = &lib.Src{Root: root}
	for i := range c {
		fsys = through(c[i], fsys)
	}
	same(fsys, root, "seconds", owners)
	sym.Reach("done")
}

// HarnessMem: in-memory trees go through archives.
func HarnessMem() {
	c := chain("t", "e", "te", "et")
	m := memfs.New()
	perm := fs.FileMode(sym.U16("perm") & 0o777)
	data := sym.Bytes("data", 1)
	sym.Assert(m.MkdirAll("a/b", perm) == nil, "MkdirAll")
	sym.Assert(m.WriteFile("a/f", data, perm) == nil, "WriteFile")
	sym.Assert(m.WriteFile("a/b/g", nil, 0o600) == nil, "WriteFile")
	root := lib.Dir(".", 0o755, lib.Dir("a", perm, lib.Dir("b", perm, lib.File("g", 0o600, nil)), lib.File("f", perm, data)))
	var fsys fs.FS = m
	for i := range c {
		fsys = through(c[i], fsys)
	}
	same(fsys, root, "none", map[*lib.Node][2]int{})
	sym.Reach("done")
}

// HarnessScale: large files, large and deep directories.
func HarnessScale() {
	sym.StepLimit(400000000)
	root := lib.Dir(".", 0o755)
	c := chain("te", "et")
	switch sym.Choose("what", 4) {
	case 0:
		size := []int{65536, 70001, 1<<20 + 1}[sym.Choose("size", 3)]
		root.Kids = append(root.Kids, lib.File("a", 0o600, lib.Blob("data", size)), lib.File("b", 0o600, lib.Blob("more", 1500)))
		c = chain("te", "et", "at", "ae", "ta", "ea")
		sym.Reach("large file")
	case 1:
		root.Kids = append(root.Kids, lib.Wide("w", sym.Param("wide", 200, 700), 7), lib.File("z", 0o600, []byte{sym.Byte("data")}))
		sym.Reach("many entries")
	case 2:
		root.Kids = append(root.Kids, lib.Wide("w", sym.Param("long", 60, 300), 200), lib.File("z", 0o600, []byte{sym.Byte("data")}))
		sym.Reach("long names")
	case 3:
		n := lib.File("file", 0o640, []byte{sym.Byte("data")})
		for i := 0; i < sym.Param("deep", 40, 60); i++ {
			n = lib.Dir("d"+lib.Dec(i), 0o750, n, lib.Link("l", strings.Repeat("x", i*2+1)))
		}
		root.Kids = append(root.Kids, n)
		sym.Reach("deep")
	}
	owners := map[*lib.Node][2]int{}
	i := 0
	var give func(n *lib.Node)
	give = func(n *lib.Node) {
		for _, k := range n.Kids {
			i++
			k.MTime = time.Unix(1000000000+int64(i), 0)
			owners[k] = [2]int{i % 70000, 65000 + i%1000}
			k.SysV = &tar.Header{Uid: owners[k][0], Gid: owners[k][1]}
			give(k)
		}
	}
	give(root)
	var fsys fs.FS = &lib.Src{Root: root}
	for i := range c {
		fsys = through(c[i], fsys)
	}
	same(fsys, root, "seconds", owners)
}

func main() {
	sym.Main(sym.Entry{"HarnessTrees", HarnessTrees}, sym.Entry{"HarnessFiles", HarnessFiles}, sym.Entry{"HarnessMem", HarnessMem},
		sym.Entry{"HarnessScale", HarnessScale})
}
