// C16: malformed erofs images give errors, never panics or hangs.
package main

import (
	"encoding/binary"
	"errors"
	"io"

	"github.com/dpeckett/archivefs/erofs"

	"verif.local/harness/lib"
	"verif.local/harness/sym"
)

const (
	steps = 4000000
	alloc = 1 << 20
)

func limit() {
	sym.StepLimit(steps)
	sym.AllocLimit(alloc)
}

// inode calls every operation on an inode.
func inode(im *erofs.Image, nid uint64, name string) {
	ino, err := im.Inode(nid)
	if err != nil {
		sym.Reach("bad inode")
		return
	}
	sym.Reach("inode")
	ino.Layout()
	ino.DataLayout()
	ino.Mode()
	ino.Size()
	if _, err := ino.Readlink(); err == nil {
		sym.Reach("link")
	}
	if _, err := ino.Lookup(name); err == nil {
		sym.Reach("found")
	}
	n := 0
	if ino.IterDirents(func(string, uint8, uint64) error {
		if n++; n > 3 {
			return errors.New("enough")
		}
		return nil
	}) == nil {
		sym.Reach("listed")
	}
	if r, err := ino.Data(); err == nil {
		b := make([]byte, 64)
		for i := 0; i < 2; i++ {
			if _, err := r.Read(b); err != nil {
				break
			}
		}
		if s, ok := r.(io.Seeker); ok {
			s.Seek(0, io.SeekEnd)
		}
	}
}

// dev is an image whose offsets may be symbolic.
func dev(im *lib.EImage) *lib.Dev {
	return &lib.Dev{Segs: []lib.Seg{{Off: 0, Data: im.B}}, Total: int64(len(im.B)), EOFWithLast: sym.Choose("eof", 2) == 1}
}

// HarnessSuper: any superblock in front of a small image.
func HarnessSuper() {
	im := lib.NewEImage(0)
	im.B = append(im.B, make([]byte, 512)...)
	sb := sym.Bytes("super", 128)
	copy(im.B[1024:], sb)
	// block sizes are judged by C15, checksums as well
	bits := []uint8{9, 12, 16}[sym.Choose("bits", sym.Param("bits", 2, 3))]
	sym.Assume(sb[8]&1 == 0 && sb[12] == bits)
	im.B[1024+12] = bits
	// an inode inside the superblock is as any inode
	off := int64(binary.LittleEndian.Uint32(sb[40:]))<<bits + 32*int64(binary.LittleEndian.Uint16(sb[14:]))
	sym.Assume(off <= 1024-64 || off >= 1024+128)
	// what is not zero is an inode
	root := lib.EInode{Mode: 0o40755, Layout: 2, Nlink: 2, Size: 44}
	im.Inode(0, root, lib.EBlock([]lib.EEntry{{Name: ".", Type: 2}, {Name: "..", Type: 2}, {Name: "f", Type: 1}}))
	d := dev(im)
	limit()
	fsys, err := erofs.Open(d)
	if err != nil {
		sym.Reach("refused")
		return
	}
	sym.Reach("opened")
	if sym.Choose("way", 2) == 0 {
		lib.Touch(fsys, ".")
		return
	}
	if _, err := fsys.Stat("f"); err == nil {
		sym.Reach("found")
	}
}

// HarnessInode: any inode.
func HarnessInode() {
	im := lib.NewEImage(0)
	raw := sym.Bytes("inode", 64)
	if sym.Choose("zero data", 2) == 0 {
		sym.Assume(raw[0]&^1 == 0) // plain data
	}
	im.Put(lib.EMeta, raw)
	im.Put(lib.EMeta+64, []byte("....target of a link........"))
	im.Put(2048, lib.EBlock([]lib.EEntry{{Name: "a", Nid: 0, Type: 2}, {Name: "b", Nid: 3, Type: 1}}))
	im.Put(2560, []byte("end"))
	// its data is in the image or beyond
	size := uint64(0)
	for i := 0; i < 8; i++ {
		size |= uint64(raw[8+i]) << (8 * i)
	}
	if raw[0]&1 == 0 {
		size &= 0xffffffff
	}
	small := sym.Choose("small", 2) == 1
	if small {
		size = []uint64{0, 1, 26, 511, 512, 513, 1024}[sym.Choose("size", 7)]
		lib.LE(raw[8:8], size, 4)
		if raw[0]&1 == 1 {
			lib.LE(raw[8:8], size, 8)
		}
	} else {
		sym.Assume(size > 1024)
		// the rest is as for a small size
		sym.Assume(size&511 <= 1)
	}
	im.Put(lib.EMeta, raw)
	d := dev(im)
	limit()
	i, err := erofs.OpenImage(d)
	sym.Assert(err == nil, "image opens")
	inode(i, 0, "a")
}

// HarnessNid: any inode number.
func HarnessNid() {
	im := lib.NewEImage(0)
	im.Inode(0, lib.EInode{Mode: 0o40755, Layout: 2, Nlink: 2, Size: 44}, lib.EBlock([]lib.EEntry{{Name: ".", Type: 2}, {Name: "..", Type: 2}, {Name: "f", Nid: 4, Type: 1}}))
	im.Inode(4, lib.EInode{Mode: 0o100644, Layout: 2, Nlink: 1, Size: 3}, []byte("abc"))
	d := dev(im)
	nid := sym.U64("nid")
	limit()
	i, err := erofs.OpenImage(d)
	sym.Assert(err == nil, "image opens")
	inode(i, nid, "f")
}

// HarnessDirents: any bytes in a directory block.
func HarnessDirents() {
	n := sym.Param("bytes", 28, 30)
	b := sym.Bytes("dir", n)
	for k := 0; k+12 <= n && k < 24; k += 12 {
		// inode numbers are examined by HarnessNid
		nid := []uint64{0, 6, 8, 1 << 40}[sym.Choose("nid", 4)]
		lib.LE(b[k:k], nid, 8)
	}
	way := sym.Choose("way", 3)
	if way == 2 {
		for k := 24; k < n; k++ {
			b[k] = sym.Char("name byte", "a/.\x00")
		}
		// names start behind the entries
		sym.Assume(b[9] == 0 && b[8] >= 24)
	}
	root := lib.EInode{Mode: 0o40755, Layout: 2, Nlink: 2, Size: uint64(n)}
	im := lib.NewEImage(0)
	im.Inode(6, lib.EInode{Mode: 0o100644, Layout: 2, Nlink: 1, Size: 3}, []byte("abc"))
	im.Inode(8, lib.EInode{Mode: 0o120777, Layout: 2, Nlink: 1, Size: 1}, []byte("/"))
	im.Inode(0, root, b)
	d := dev(im)
	limit()
	i, err := erofs.OpenImage(d)
	sym.Assert(err == nil, "image opens")
	ino, err := i.Inode(0)
	sym.Assert(err == nil, "root inode")
	switch way {
	case 0:
		if _, err := ino.Lookup(sym.String("name", sym.Choose("len", 3), "\x00ab\xff")); err == nil {
			sym.Reach("found")
		}
	case 1:
		k := 0
		if ino.IterDirents(func(string, uint8, uint64) error { k++; return nil }) == nil {
			sym.Reach("listed")
		}
	default:
		fsys, err := erofs.Open(d)
		sym.Assert(err == nil, "image opens")
		lib.Explore(fsys, ".", 1)
	}
}

// HarnessBlocks: any bytes at the start of two directory blocks and a tail.
func HarnessBlocks() {
	n := sym.Param("bytes", 14, 26)
	var bs [3][]byte
	for i := range bs {
		bs[i] = lib.EBlock([]lib.EEntry{{Name: string(rune('b' + i)), Nid: 8, Type: 1}, {Name: string(rune('b'+i)) + "x", Nid: 8, Type: 1}})
	}
	k := sym.Choose("block", 3)
	copy(bs[k], sym.Bytes("dir", n))
	lib.LE(bs[k][:0], 8, 8)
	im := lib.NewEImage(0)
	im.Inode(8, lib.EInode{Mode: 0o100644, Layout: 2, Nlink: 1, Size: 3}, []byte("abc"))
	im.Block(4, bs[0])
	im.Block(5, bs[1])
	im.Put(3070, []byte{0, 0})
	im.Inode(0, lib.EInode{Mode: 0o40755, Layout: 2, Nlink: 2, Addr: 4, Size: uint64(1024 + len(bs[2]))}, bs[2])
	d := dev(im)
	limit()
	i, err := erofs.OpenImage(d)
	sym.Assert(err == nil, "image opens")
	ino, err := i.Inode(0)
	sym.Assert(err == nil, "root inode")
	if sym.Choose("way", 2) == 0 {
		if _, err := ino.Lookup(sym.String("name", 1+sym.Choose("len", 2), "bcx")); err == nil {
			sym.Reach("found")
		}
		return
	}
	if ino.IterDirents(func(string, uint8, uint64) error { return nil }) == nil {
		sym.Reach("listed")
	}
}

// HarnessLinks: any link targets.
func HarnessLinks() {
	im := lib.NewEImage(0)
	root := lib.EBlock([]lib.EEntry{{Name: "a", Nid: 8, Type: 7}, {Name: "b", Nid: 10, Type: 7}, {Name: "d", Nid: 0, Type: 2}})
	im.Inode(0, lib.EInode{Mode: 0o40755, Layout: 2, Nlink: 2, Size: uint64(len(root))}, root)
	t := sym.Bytes("target", sym.Choose("len", sym.Param("target", 5, 6)))
	im.Inode(8, lib.EInode{Mode: 0o120777, Layout: uint16(2 * min(len(t), 1)), Nlink: 1, Size: uint64(len(t))}, t)
	im.Inode(10, lib.EInode{Mode: 0o120777, Layout: 2, Nlink: 1, Size: 3}, []byte("d/a"))
	d := dev(im)
	limit()
	fsys, err := erofs.Open(d)
	sym.Assert(err == nil, "image opens")
	if _, err := fsys.Stat([]string{"a", "b", "a/b", "b/", "d/../a"}[sym.Choose("path", 5)]); err == nil {
		sym.Reach("found")
	} else {
		sym.Reach("not found")
	}
}

// HarnessBomb: links that expand to many components.
func HarnessBomb() {
	im := lib.NewEImage(0)
	es := []lib.EEntry{{Name: "a", Nid: 16, Type: 7}, {Name: "b", Nid: 24, Type: 7}}
	link := func(nid int, t string) {
		im.Inode(nid, lib.EInode{Mode: 0o120777, Layout: 2, Nlink: 1, Size: uint64(len(t))}, []byte(t))
	}
	if sym.Choose("shape", 2) == 0 {
		// two links of forty parts, which may be themselves
		c := sym.String("parts", 2, "abd.")
		var t []byte
		for i := 0; i < 40; i++ {
			t = append(t, c[i%2], '/')
		}
		link(16, string(t))
		link(24, string(t))
	} else {
		// every link goes through the next one twice
		between := []string{"/../", "/./../", "/d/"}[sym.Choose("between", 3)]
		start := []string{"", "/", "d/../"}[sym.Choose("start", 3)]
		link(16, "c00")
		link(24, "a")
		for i := 0; i < 20; i++ {
			next := "c" + lib.Dec((i+1)/10) + lib.Dec((i+1)%10)
			if i == 19 {
				next = "d"
			}
			es = append(es, lib.EEntry{Name: "c" + lib.Dec(i/10) + lib.Dec(i%10), Nid: uint64(32 + 4*i), Type: 7})
			link(32+4*i, start+next+between+next)
		}
	}
	es = append(es, lib.EEntry{Name: "d", Nid: 0, Type: 2})
	root := lib.EBlock(es)
	im.Inode(0, lib.EInode{Mode: 0o40755, Layout: 2, Nlink: 2, Size: uint64(len(root))}, root)
	d := dev(im)
	sym.StepLimit(40 * steps)
	fsys, err := erofs.Open(d)
	sym.Assert(err == nil, "image opens")
	if _, err := fsys.Stat("a"); err == nil {
		sym.Reach("found")
	} else {
		sym.Reach("not found")
	}
}

// HarnessPaths: any path.
func HarnessPaths() {
	im := lib.NewEImage(0)
	root := lib.EBlock([]lib.EEntry{{Name: "a", Nid: 8, Type: 7}, {Name: "b", Nid: 10, Type: 1}, {Name: "d", Nid: 0, Type: 2}, {Name: "e", Nid: 1 << 50, Type: 1}})
	im.Inode(0, lib.EInode{Mode: 0o40755, Layout: 2, Nlink: 2, Size: uint64(len(root))}, root)
	im.Inode(8, lib.EInode{Mode: 0o120777, Layout: 2, Nlink: 1, Size: 1}, []byte("d"))
	im.Inode(10, lib.EInode{Mode: 0o100644, Layout: 2, Nlink: 1, Size: 3}, []byte("abc"))
	d := dev(im)
	limit()
	fsys, err := erofs.Open(d)
	sym.Assert(err == nil, "image opens")
	n := sym.Choose("len", sym.Param("path", 5, 6))
	p := string(sym.Bytes("path", n))
	lib.Touch(fsys, p)
	if _, err := fsys.Stat(p); err == nil {
		sym.Reach("found")
	}
}

func main() {
	sym.Main(sym.Entry{"HarnessSuper", HarnessSuper}, sym.Entry{"HarnessInode", HarnessInode}, sym.Entry{"HarnessNid", HarnessNid},
		sym.Entry{"HarnessDirents", HarnessDirents}, sym.Entry{"HarnessBlocks", HarnessBlocks}, sym.Entry{"HarnessLinks", HarnessLinks},
		sym.Entry{"HarnessBomb", HarnessBomb}, sym.Entry{"HarnessPaths", HarnessPaths})
}
