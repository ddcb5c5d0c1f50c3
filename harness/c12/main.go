// C12: erofs images are laid out without overlap and within bounds.
package main

import (
	"encoding/binary"
	"io"
	"io/fs"
	"strings"
	"time"

	"github.com/dpeckett/archivefs/erofs"

	"verif.local/harness/lib"
	"verif.local/harness/sym"
)

// extent is a range of an image.
type extent struct {
	off, end int64
}

const block = 4096

// layout asserts that the image holds what the tree needs, without overlap.
func layout(dst io.ReaderAt, root *lib.Node) {
	fsys, err := erofs.Open(dst)
	sym.Assert(err == nil, "what Create wrote opens")
	im, err := erofs.OpenImage(dst)
	sym.Assert(err == nil, "image opens")
	sb := im.SuperBlock()
	sym.Assert(sb.BlockSizeBits == 12, "block size")
	ext := []extent{{1024, 1024 + 128}}
	count := 0
	var walk func(n *lib.Node, p string)
	walk = func(n *lib.Node, p string) {
		count++
		fi, err := fsys.StatLink(p)
		sym.Assert(err == nil, "stat")
		ino, ok := fi.Sys().(*erofs.Inode)
		sym.Assert(ok, "inode")
		off := int64(sb.MetaBlockAddr)*block + 32*int64(ino.Nid())
		size := int64(32)
		if ino.Layout() == erofs.InodeLayoutExtended {
			size = 64
		}
		raw := make([]byte, 64)
		dst.ReadAt(raw[:size], off)
		sym.Assert(uint64(binary.LittleEndian.Uint32(raw[20:])) == ino.Nid(), "the inode stores its number")
		ext = append(ext, extent{off, off + size})
		length := int64(ino.Size())
		if n.IsFile() || n.IsLink() {
			sym.Assert(length == n.Size(), "size of "+p)
			length = n.Size()
		}
		var data int64
		switch ino.DataLayout() {
		case erofs.InodeDataLayoutFlatInline:
			data = off + size
			sym.Assert(sym.And(length > 0, length < block, data/block == (data+length-1)/block),
				"inline data stays inside of one block")
			ext = append(ext, extent{data, data + length})
		case erofs.InodeDataLayoutFlatPlain:
			data = int64(binary.LittleEndian.Uint32(raw[16:])) * block
			if length > 0 {
				ext = append(ext, extent{data, data + length})
			}
		default:
			sym.Fail("unknown data layout")
		}
		if n.IsFile() && n.Reader != nil {
			b := make([]byte, 2)
			if length > 0 {
				h := n.Reader().(*lib.Hole)
				dst.ReadAt(b[:1], data)
				if length == 1 {
					b[1] = b[0]
				} else {
					dst.ReadAt(b[1:], data+length-1)
				}
				sym.Assert(sym.And(b[0] == sym.IteByte(length == 1, h.Last, h.First), b[1] == h.Last), "content of "+p)
			}
		}
		for _, k := range n.Kids {
			if p == "." {
				walk(k, k.Nm)
			} else {
				walk(k, p+"/"+k.Nm)
			}
		}
	}
	walk(root, ".")
	sym.Assert(sb.Inodes == uint64(count), "number of inodes")
	apart := true
	for i, e := range ext {
		sym.Assert(sym.And(e.off >= 1024, e.end <= int64(sb.Blocks)*block), "everything is inside of the image")
		for _, f := range ext[:i] {
			apart = sym.And(apart, sym.Or(e.end <= f.off, f.end <= e.off))
		}
	}
	sym.Assert(apart, "nothing overlaps")
}

func covered(dst *lib.Sparse) {
	im, err := erofs.OpenImage(dst)
	sym.Assert(err == nil, "image opens")
	for _, g := range dst.Segs {
		sym.Assert(g.Off+int64(len(g.Data)) <= int64(im.Blocks())*block, "every byte written is inside of the image")
	}
}

func hole(name string, size int64) *lib.Node {
	n := lib.File(name, 0o644, nil)
	n.HasRep, n.Rep = true, size
	first, last := sym.Byte("first"), sym.Byte("last")
	n.Reader = func() io.Reader { return &lib.Hole{Size: size, First: first, Last: last} }
	return n
}

// HarnessSizes: files of any size.
func HarnessSizes() {
	root := lib.Dir(".", 0o755)
	k := sym.Param("files", 2, 3)
	form := sym.Choose("extended", k+1)
	for i := 0; i < k; i++ {
		n := hole("f"+lib.Dec(i), int64(sym.Range("size", 0, 1<<42)))
		if i == form {
			n.MTime = time.Unix(1, 0)
		}
		root.Kids = append(root.Kids, n)
	}
	dst := &lib.Sparse{}
	sym.Assert(erofs.Create(dst, &lib.Src{Root: root}) == nil, "the tree is accepted")
	layout(dst, root)
	covered(dst)
	sym.Reach("done")
}

// HarnessInline: small files behind each other, so that their data falls
// anywhere in a block.
func HarnessInline() {
	root := lib.Dir(".", 0o755)
	for i, n := 0, sym.Choose("fill", 4); i < n; i++ {
		root.Kids = append(root.Kids, lib.File("a"+lib.Dec(i), 0o600, make([]byte, 1000)))
	}
	for i := 0; i < sym.Param("files", 3, 4); i++ {
		n := hole("f"+lib.Dec(i), int64(sym.Range("size", 1, 1024)))
		if i == 1 && sym.Bool("extended") {
			n.MTime = time.Unix(1, 0)
		}
		root.Kids = append(root.Kids, n)
	}
	dst := &lib.Sparse{}
	sym.Assert(erofs.Create(dst, &lib.Src{Root: root}) == nil, "the tree is accepted")
	layout(dst, root)
	covered(dst)
	sym.Reach("done")
}

// HarnessTrees: directories and links of all sizes between the files.
func HarnessTrees() {
	root := lib.Dir(".", 0o755)
	d := lib.Dir("d", 0o755)
	a, f := int64(10), int64(3000)
	if sym.Bool("which") {
		a = int64(sym.Range("size", 0, 5000))
	} else {
		f = int64(sym.Range("size", 0, 1<<33))
	}
	d.Kids = append(d.Kids, hole("f", f))
	long := string(make([]byte, 0, 240))
	for i := 0; i < 240; i++ {
		long += "n"
	}
	for i, n := 0, []int{0, 3, 16, 40}[sym.Choose("entries", sym.Param("dirs", 3, 4))]; i < n; i++ {
		d.Kids = append(d.Kids, lib.File(long+lib.Dec(10+i), 0o600, nil))
	}
	l := lib.Link("l", (long + long + long + long + long)[:[]int{1, 1024, 1025}[sym.Choose("target", 3)]])
	if sym.Bool("extended") {
		l.MTime, d.MTime = time.Unix(1, 0), time.Unix(2, 0)
	}
	root.Kids = []*lib.Node{hole("a", a), d, l, hole("z", int64(700*sym.Choose("last", 3)))}
	dst := &lib.Sparse{}
	sym.Assert(erofs.Create(dst, &lib.Src{Root: root}) == nil, "the tree is accepted")
	layout(dst, root)
	covered(dst)
	sym.Reach("done")
}

// HarnessHuge: what does not fit in 32-bit block addresses is refused.
func HarnessHuge() {
	var most, least int64 = 4, 2 // superblock, metadata
	root := lib.Dir(".", 0o755)
	for i := 0; i < 2; i++ {
		size := int64(sym.Range("size", 0, 1<<44))
		most += size/block + 1
		least += size / block
		root.Kids = append(root.Kids, hole("f"+lib.Dec(i), size))
	}
	dst := &lib.Sparse{}
	err := erofs.Create(dst, &lib.Src{Root: root})
	if least > 0xffffffff {
		sym.Assert(err != nil, "an image with too many blocks is refused")
		sym.Reach("refused")
		return
	}
	if err == nil {
		layout(dst, root)
		sym.Reach("accepted")
	} else {
		sym.Assert(most > 0xffffffff, "an image that fits is accepted")
	}
}

// HarnessFilled: files with all of their content.
func HarnessFilled() {
	root := lib.Dir(".", 0o755)
	for i := 0; i < sym.Param("files", 3, 4); i++ {
		size := []int{0, 1, 31, 1000, 1024, 1025, 4096, 5000}[sym.Choose("size", 8)]
		d := make([]byte, size)
		for j := range d {
			d[j] = byte(7*i + j)
		}
		n := lib.File("f"+lib.Dec(i), 0o600, d)
		if i == 1 {
			n.MTime = time.Unix(9, 0)
		}
		root.Kids = append(root.Kids, n)
	}
	dst := &lib.Mem{}
	sym.Assert(erofs.Create(dst, &lib.Src{Root: root}) == nil, "the tree is accepted")
	layout(dst, root)
	im, _ := erofs.OpenImage(dst)
	sym.Assert(len(dst.B) <= int(im.Blocks())*block, "every byte written is inside of the image")
	fsys, _ := erofs.Open(dst)
	for _, n := range root.Kids {
		b, err := fs.ReadFile(fsys, n.Nm)
		sym.Assert(err == nil && sym.EqBytes(b, n.Data), "content")
	}
	sym.Reach("done")
}

// HarnessFile: a destination that is a file, with content of before.
func HarnessFile() {
	root := lib.Dir(".", 0o755)
	sizes := []int{0, 1, 1024, 1025, 4096, 5000}
	for i := 0; i < 2; i++ {
		root.Kids = append(root.Kids, lib.File("f"+lib.Dec(i), 0o644, sym.Bytes("data", sizes[sym.Choose("size", len(sizes))])))
	}
	old := []int{0, 5000, 8192, 12288, 20000, 40000}[sym.Choose("old", 6)]
	f := lib.NewOSFile([]byte(strings.Repeat("o", old)), false)
	err := erofs.Create(f, &lib.Src{Root: root})
	b := lib.OSContent(f)
	sym.Assert(err == nil, "the tree is accepted")
	im, err := erofs.OpenImage(&lib.Mem{B: b})
	sym.Assert(err == nil, "image opens")
	sym.Assert(int64(len(b)) == int64(im.Blocks())*block, "the file is as long as the image")
	fsys, err := erofs.Open(&lib.Mem{B: b})
	sym.Assert(err == nil, "image opens")
	lib.SameTree(fsys, root, ".", nil)
	if old > len(b) {
		sym.Reach("cut")
	}
}

func main() {
	sym.Main(sym.Entry{"HarnessSizes", HarnessSizes}, sym.Entry{"HarnessInline", HarnessInline}, sym.Entry{"HarnessTrees", HarnessTrees},
		sym.Entry{"HarnessHuge", HarnessHuge}, sym.Entry{"HarnessFilled", HarnessFilled}, sym.Entry{"HarnessFile", HarnessFile})
}
