package lib

import (
	"io"
	"io/fs"

	"verif.local/harness/sym"
)

// Linked adds the operations on links to filesystems that lack them.
func Linked(fsys fs.FS) LinkFS {
	if l, ok := fsys.(LinkFS); ok {
		return l
	}
	return linked{fsys}
}

type linked struct{ fs.FS }

func (l linked) ReadDir(name string) ([]fs.DirEntry, error) { return fs.ReadDir(l.FS, name) }
func (l linked) Stat(name string) (fs.FileInfo, error)      { return fs.Stat(l.FS, name) }
func (l linked) StatLink(name string) (fs.FileInfo, error)  { return fs.Stat(l.FS, name) }
func (l linked) ReadLink(name string) (string, error)       { return "", fs.ErrInvalid }

// Two makes two filesystems with the same names, but other contents and modes,
// and asserts that neither they nor what they returned affect one another.
func Two(mk func(root *Node) fs.FS, dirs, links bool) {
	pre, post := Blob("alike", 350), Blob("alike", 348)
	tree := func(id string, perm fs.FileMode, small, large int) *Node {
		blob := Blob(id, large)
		// alike in name, mode, size, and all of the content but a few bytes
		like := func(which string) []byte {
			return append(append(append([]byte{}, pre...), sym.Bytes(id+which, 2)...), post...)
		}
		root := Dir(".", 0o755, File("a", perm|0o600, sym.Bytes(id, small)), File("b", perm|0o400, blob), File("c", 0o640, like(" c")), File("ca", 0o640, like(" ca")))
		if dirs {
			d := Dir("d", perm|0o700, File("a", perm|0o640, sym.Bytes(id, 2)), File("b", 0o600, nil))
			if links {
				d.Kids = append(d.Kids, Link("l", id+"target"))
			}
			e := Dir("e", 0o700, Dir("d", 0o711, File("a", 0o604, []byte(id))))
			root.Kids = append(root.Kids, d, e)
			if id == "second" {
				d.Kids[1].Data = sym.Bytes(id, 4)
				e.Kids = append(e.Kids, File("f", 0o660, blob[:700]))
			}
		}
		return root
	}
	a, b := tree("first", 0o040, 3, 5000), tree("second", 0o004, 2, 1500)
	swap := sym.Choose("swap", 2) == 1
	if swap {
		a, b = b, a
	}
	x := Linked(mk(a))
	var y LinkFS
	late := sym.Choose("late", 2) == 1
	if !late {
		y = Linked(mk(b))
	}
	// held while the rest happens
	lx, err := x.ReadDir(".")
	sym.Assert(err == nil && len(lx) == len(a.Kids), "listing")
	sx, err := x.Stat("a")
	sym.Assert(err == nil, "stat")
	hx, err := x.Open("b")
	sym.Assert(err == nil, "open")
	big := a.Find("b").Data
	buf := make([]byte, 600)
	n, err := io.ReadFull(hx, buf)
	sym.Assert(err == nil && sym.EqBytes(buf[:n], big[:n]), "content of an open file")
	if late {
		y = Linked(mk(b))
	}
	hy, err := y.Open("b")
	sym.Assert(err == nil, "open")
	c, err := ReadAll(hy, 512, 6000)
	sym.Assert(err == nil && sym.EqBytes(c, b.Find("b").Data), "content of the other")
	hx2, err := x.Open("b")
	sym.Assert(err == nil, "open")
	// a listing belongs to the caller
	for _, f := range []LinkFS{x, y} {
		for _, p := range []string{".", "d"} {
			if l, err := f.ReadDir(p); err == nil {
				clear(l)
			}
		}
	}
	modes := func(n *Node, p string, fi fs.FileInfo) { sym.Assert(fi.Mode() == n.M, "mode of "+p) }
	SameTree(y, b, ".", modes)
	SameTree(x, a, ".", modes)
	// what was held is as before
	for i, k := range a.Kids {
		fi, err := lx[i].Info()
		sym.Assert(err == nil && lx[i].Name() == k.Nm && fi.Name() == k.Nm && fi.Mode() == k.M, "a listing that was made before")
	}
	sym.Assert(sx.Name() == "a" && sx.Size() == int64(len(a.Kids[0].Data)) && sx.Mode() == a.Kids[0].M, "information that was asked for before")
	c, err = ReadAll(hx, 512, 6000)
	sym.Assert(err == nil && sym.EqBytes(c, big[n:]), "the rest of an open file")
	sym.Assert(hx.Close() == nil, "close")
	c, err = ReadAll(hx2, 300, 6000)
	sym.Assert(err == nil && sym.EqBytes(c, big), "content of a second handle")
	SameTree(y, b, ".", modes)
	sym.Reach("done")
}
