// C24: archive read errors surface as errors.
package main

import (
	"errors"
	"io"
	"io/fs"

	"github.com/dpeckett/archivefs/arfs"
	"github.com/dpeckett/archivefs/erofs"
	"github.com/dpeckett/archivefs/tarfs"

	"verif.local/harness/lib"
	"verif.local/harness/sym"
)

// Formats of an archive.
const (
	ar = iota
	tar
	ero
)

type readFS interface {
	fs.FS
	fs.ReadDirFS
	fs.StatFS
}

func open(kind int, ra io.ReaderAt) (readFS, error) {
	switch kind {
	case ar:
		f, err := arfs.Open(ra)
		if err != nil {
			return nil, err
		}
		return f, nil
	case tar:
		f, err := tarfs.Open(ra)
		if err != nil {
			return nil, err
		}
		return f, nil
	}
	f, err := erofs.Open(ra)
	if err != nil {
		return nil, err
	}
	return f, nil
}

// tree is what the archives of a kind hold.
func tree(kind int, data []byte) *lib.Node {
	kids := []*lib.Node{
		lib.File("b", 0o644, data),
		lib.File("c", 0o600, []byte("second")),
	}
	if kind != ar {
		kids = []*lib.Node{
			lib.Dir("d", 0o755, lib.File("in", 0o640, []byte("inner"))),
			lib.Link("l", "d/in"),
			lib.File("c", 0o600, []byte("second")),
			lib.File("b", 0o644, data),
		}
	}
	return lib.Dir(".", 0o755, kids...).Join()
}

func build(kind int, root *lib.Node) []byte {
	switch kind {
	case ar:
		b := []byte(lib.ArMagic)
		for _, k := range root.Kids {
			b = append(b, lib.ArHeader(lib.ArMember{Name: k.Nm, Mtime: "0", Uid: "0", Gid: "0", Mode: lib.Oct(int64(k.M.Perm())), Size: lib.Dec(len(k.Data))})...)
			b = append(b, k.Data...)
			if len(k.Data)%2 == 1 {
				b = append(b, '\n')
			}
		}
		return b
	case tar:
		return lib.TarOf(root)
	}
	return lib.ErofsOf(root)
}

// view checks every operation on an opened archive: each either fails, which
// bad judges, or is right. With subset, entries may be missing.
type view struct {
	fsys   readFS
	bad    func(err error, what string)
	subset bool
	buf    int
}

func (v view) visit(n *lib.Node, p string) {
	if p != "." {
		v.entry(n, p)
	}
	switch {
	case n.IsDir():
		l, err := v.fsys.ReadDir(p)
		if err != nil {
			v.bad(err, "listing of "+p)
			for _, k := range n.Kids {
				v.visit(k, join(p, k.Nm))
			}
			return
		}
		if !v.subset {
			sym.Assert(len(l) == len(n.Kids), "every entry is listed in "+p)
		}
		for _, e := range l {
			k := n.Find(e.Name())
			sym.Assert(k != nil, "listed entries exist in "+p)
			sym.Assert(e.IsDir() == k.IsDir(), "listed type in "+p)
			fi, err := e.Info()
			if err != nil {
				v.bad(err, "information of entry "+k.Nm)
			} else {
				v.info(k, fi, k.Nm)
			}
			v.visit(k, join(p, k.Nm))
		}
	case n.IsFile():
		f, err := v.fsys.Open(p)
		if err != nil {
			v.bad(err, "opening "+p)
			return
		}
		if fi, err := f.Stat(); err != nil {
			v.bad(err, "handle of "+p)
		} else {
			v.info(n, fi, p)
		}
		c, err := lib.ReadAll(f, v.buf, len(n.Data)+64)
		if err != nil {
			v.bad(err, "reading "+p)
			sym.Assert(len(c) <= len(n.Data), "no more than the content is read of "+p)
			sym.Assert(sym.EqBytes(c, n.Data[:len(c)]), "what is read before an error of "+p)
		} else {
			sym.Assert(sym.EqBytes(c, n.Data), "content of "+p)
		}
		f.Close()
	}
}

func (v view) entry(n *lib.Node, p string) {
	if l, ok := v.fsys.(lib.LinkFS); ok {
		if fi, err := l.StatLink(p); err != nil {
			v.bad(err, "StatLink of "+p)
		} else {
			v.info(n, fi, p)
		}
		if t, err := l.ReadLink(p); err != nil {
			if n.IsLink() {
				v.bad(err, "link "+p)
			}
		} else {
			sym.Assert(n.IsLink() && t == n.Link, "target of "+p)
		}
	}
	if !n.IsLink() {
		if fi, err := v.fsys.Stat(p); err != nil {
			v.bad(err, "Stat of "+p)
		} else {
			v.info(n, fi, p)
		}
	} else if fi, err := v.fsys.Stat(p); err != nil {
		v.bad(err, "Stat of "+p)
	} else {
		sym.Assert(fi.Mode().IsRegular() && fi.Size() == 5, "what the link "+p+" leads to")
	}
}

func (v view) info(n *lib.Node, fi fs.FileInfo, what string) {
	sym.Assert(fi.Mode().Type() == n.M.Type(), "type of "+what)
	if !n.IsLink() {
		sym.Assert(fi.Mode().Perm() == n.M.Perm(), "mode of "+what)
	}
	if n.IsFile() {
		sym.Assert(fi.Size() == int64(len(n.Data)), "size of "+what)
	}
}

func join(dir, name string) string {
	if dir == "." {
		return name
	}
	return dir + "/" + name
}

// HarnessError: the reader fails at any call, for good or once, after half of
// the data or none.
func HarnessError() {
	kind := sym.Choose("kind", 3)
	root := tree(kind, sym.Bytes("data", 9))
	img := build(kind, root)
	d := &lib.Dev{Segs: []lib.Seg{{Off: 0, Data: img}}, Total: int64(len(img))}
	d.FailAt = 1 + sym.Choose("at", sym.Param("calls", 40, 160))
	d.FailOnce = sym.Bool("once")
	d.FailPartial = sym.Bool("partial")
	d.EOFWithLast = sym.Bool("eof")
	bad := func(err error, what string) {
		sym.Assert(d.Calls >= d.FailAt, what+" works while the reader does")
		sym.Assert(!errors.Is(err, io.EOF), what+": an i/o error is not the end of a file")
		sym.Assert(!errors.Is(err, fs.ErrNotExist), what+": an i/o error is not a missing file")
		sym.Reach("failed")
	}
	fsys, err := open(kind, d)
	if err != nil {
		bad(err, "opening")
		return
	}
	sym.Reach("opened")
	view{fsys: fsys, bad: bad, buf: 7}.visit(root, ".")
}

// HarnessCut: the archive is cut off anywhere. What is left of it is right.
func HarnessCut() {
	kind := sym.Choose("kind", 3)
	root := tree(kind, sym.Bytes("data", 9))
	img := build(kind, root)
	cut := sym.Concrete(sym.Choose("block", len(img)/64+1))*64 + sym.Choose("cut", 64)
	sym.Assume(cut <= len(img))
	if kind == tar {
		// The places within a block are alike but for its ends.
		in := cut % 512
		sym.Assume(in < sym.Param("head", 12, 300) || in > 512-sym.Param("tail", 4, 40))
	}
	if kind == ero {
		sym.Assume(cut >= 1024)
	}
	d := &lib.Dev{Segs: []lib.Seg{{Off: 0, Data: img[:cut]}}, Total: int64(cut), EOFWithLast: sym.Bool("eof")}
	fsys, err := open(kind, d)
	if err != nil {
		sym.Assert(cut < len(img), "the whole archive opens")
		sym.Reach("rejected")
		return
	}
	sym.Reach("opened")
	view{fsys: fsys, subset: kind != ero, buf: 7, bad: func(err error, what string) {
		sym.Assert(cut < len(img), what+" works for the whole archive")
		if kind == ero {
			sym.Assert(!errors.Is(err, fs.ErrNotExist), what+": cut off is not missing")
		}
	}}.visit(root, ".")
}

// HarnessBeyond: the data of a file lies anywhere in or beyond the image.
func HarnessBeyond() {
	im := lib.NewEImage(0)
	dir := lib.EBlock([]lib.EEntry{{Name: ".", Nid: 0, Type: 2}, {Name: "..", Nid: 0, Type: 2}, {Name: "f", Nid: 4, Type: 1}})
	im.Inode(0, lib.EInode{Layout: 2, Nlink: 2, Mode: 0o40755, Size: uint64(len(dir))}, dir)
	total := 2048 + 512*2
	if sym.Bool("odd") {
		total += 100
	}
	ino := lib.EInode{Ext: sym.Bool("extended"), Nlink: 1, Mode: 0o100644, Addr: uint32(4 + sym.Choose("addr", 6)), Size: uint64([]int{0, 1, 100, 511, 512, 513, 612, 1000, 1024, 1100, 1536}[sym.Choose("size", 11)])}
	tail := 0
	if sym.Bool("inline") {
		ino.Layout = 2
		tail = 1 + 9*sym.Choose("tail", 3)
		ino.Size = uint64(512*sym.Choose("blocks", 4) + tail)
	}
	im.Inode(4, ino, make([]byte, 20))
	im.Put(2047, []byte{0})
	data := sym.Bytes("content", 4)
	d := &lib.Dev{Segs: []lib.Seg{{Off: 0, Data: im.B}, {Off: 2048, Data: data}, {Off: int64(total - 2), Data: data[:2]}}, Total: int64(total), EOFWithLast: sym.Bool("eof")}
	fsys, err := erofs.Open(d)
	sym.Assert(err == nil, "image opens")
	f, err := fsys.Open("f")
	if err != nil {
		sym.Fail("file opens")
	}
	size := int64(ino.Size)
	fi, err := f.Stat()
	sym.Assert(err == nil && fi.Size() == size, "size of the file")
	c, err := lib.ReadAll(f, 600, 4096)
	whole := int64(ino.Addr)*512+size-int64(tail) <= int64(total) || size == int64(tail)
	if err == nil {
		sym.Assert(int64(len(c)) == size, "a file is read to its end or with an error")
		sym.Reach("complete")
	} else {
		sym.Assert(!whole, "a file that is all there can be read")
		sym.Reach("incomplete")
	}
}

// HarnessReader: whether the end of the archive is reported along with the
// last bytes makes no difference, whatever the archive holds.
func HarnessReader() {
	kind := sym.Choose("kind", 3)
	root := tree(kind, sym.Bytes("data", sym.Choose("size", 4)))
	img := build(kind, root)
	if kind == ar && sym.Bool("newline") {
		img = append(img, '\n')
	}
	cut := sym.Choose("cut", sym.Param("cut", 260, 2600))
	img = img[:len(img)-min(cut, len(img))]
	var log [2][]byte
	for i := range log {
		d := &lib.Dev{Segs: []lib.Seg{{Off: 0, Data: img}}, Total: int64(len(img)), EOFWithLast: i == 1}
		fsys, err := open(kind, d)
		if err != nil {
			log[i] = append(log[i], 'x')
			continue
		}
		sym.Reach("opened")
		log[i] = dump(fsys, ".", log[i], 2)
	}
	sym.Assert(len(log[0]) == len(log[1]), "the same results")
	sym.Assert(sym.EqBytes(log[0], log[1]), "the same contents")
}

// dump describes everything below a directory.
func dump(fsys readFS, p string, b []byte, depth int) []byte {
	l, err := fsys.ReadDir(p)
	b = result(b, err)
	for _, e := range l {
		ep := join(p, e.Name())
		b = append(append(b, ep...), ':')
		fi, err := e.Info()
		b = result(b, err)
		if err == nil {
			b = lib.LE(lib.LE(b, uint64(fi.Size()), 8), uint64(fi.Mode()), 4)
		}
		if lf, ok := fsys.(lib.LinkFS); ok {
			t, err := lf.ReadLink(ep)
			b = append(result(b, err), t...)
		}
		if e.IsDir() && depth > 0 {
			b = dump(fsys, ep, b, depth-1)
			continue
		}
		f, err := fsys.Open(ep)
		b = result(b, err)
		if err == nil {
			c, err := lib.ReadAll(f, 7, 100)
			b = append(result(b, err), c...)
			f.Close()
		}
	}
	return b
}

func result(b []byte, err error) []byte {
	switch {
	case err == nil:
		return append(b, 'o')
	case errors.Is(err, fs.ErrNotExist):
		return append(b, 'm')
	}
	return append(b, 'e')
}

// HarnessLarge: the reader fails or ends while a large file is read.
func HarnessLarge() {
	sym.StepLimit(400000000)
	kind := sym.Choose("kind", 3)
	size := []int{65536, 70001}[sym.Choose("size", 2)]
	data := lib.Blob("data", size)
	root := tree(kind, data)
	img := build(kind, root)
	d := &lib.Dev{Segs: []lib.Seg{{Off: 0, Data: img}}, Total: int64(len(img)), EOFWithLast: sym.Bool("eof")}
	fsys, err := open(kind, d)
	sym.Assert(err == nil, "the archive opens")
	if sym.Bool("fails") {
		d.FailAt = d.Calls + 1 + sym.Choose("at", 24)
		d.FailOnce = sym.Bool("once")
		d.FailPartial = sym.Bool("partial")
	}
	f, err := fsys.Open("b")
	if err != nil {
		sym.Assert(d.FailAt > 0 && d.Calls >= d.FailAt, "the file opens")
		return
	}
	c, err := lib.ReadAll(f, []int{4096, 33000}[sym.Choose("buf", 2)], size+64)
	if err != nil {
		sym.Assert(d.FailAt > 0 && d.Calls >= d.FailAt, "the file is read while the reader works")
		sym.Assert(len(c) <= size && sym.EqBytes(c, data[:len(c)]), "what is read before an error")
		sym.Reach("failed")
		return
	}
	sym.Assert(sym.EqBytes(c, data), "content")
	sym.Reach("read")
}

func main() {
	sym.Main(
		sym.Entry{"HarnessError", HarnessError},
		sym.Entry{"HarnessCut", HarnessCut},
		sym.Entry{"HarnessBeyond", HarnessBeyond},
		sym.Entry{"HarnessReader", HarnessReader},
		sym.Entry{"HarnessLarge", HarnessLarge},
	)
}
