// C14: the erofs reader decodes images per the on-disk format.
package main

import (
	"io"
	"io/fs"

	"github.com/dpeckett/archivefs/erofs"

	"verif.local/harness/lib"
	"verif.local/harness/sym"
)

// geometry is a superblock and what it implies.
type geometry struct {
	lib.Super
	dev *lib.Dev
}

func newGeometry(bits uint8) *geometry {
	g := &geometry{dev: &lib.Dev{Total: 1 << 62}}
	g.Super = lib.Super{Magic: lib.ErofsMagic, Bits: bits, RootNid: sym.U16("root"), Meta: sym.U32("meta"),
		BuildTime: uint64(sym.U32("build")), BuildNsec: sym.U32("build.nsec"), Blocks: sym.U32("blocks"), Inodes: sym.U64("inodes")}
	// metadata behind the superblock
	sym.Assume(int64(g.Meta)<<bits >= 1024+128)
	g.dev.Segs = append(g.dev.Segs, lib.Seg{Off: 1024, Data: g.Super.Bytes()})
	return g
}

// offset is where the format puts an inode.
func (g *geometry) offset(nid uint64) int64 { return int64(g.Meta)<<g.Bits + 32*int64(nid) }

// put places data, apart from everything else.
func (g *geometry) put(off int64, b []byte) {
	apart := off >= 1024
	for _, s := range g.dev.Segs {
		apart = sym.And(apart, sym.Or(off >= s.Off+int64(len(s.Data)), s.Off >= off+int64(len(b))))
	}
	sym.Assume(apart)
	g.dev.Segs = append(g.dev.Segs, lib.Seg{Off: off, Data: b})
}

func (g *geometry) open() *erofs.Image {
	im, err := erofs.OpenImage(g.dev)
	sym.Assert(err == nil, "a valid superblock is accepted")
	return im
}

func blockBits() uint8 {
	return []uint8{12, 9, 16, 10, 11, 13, 14, 15}[sym.Choose("bits", sym.Param("bits", 4, 8))]
}

func nid(name string) uint64 { return uint64(sym.Range(name, 0, 1<<48)) }

// mode is the reference for the decoding of a mode.
func mode(m uint16) fs.FileMode {
	r := fs.FileMode(m & 0o777)
	if m&0o4000 != 0 {
		r |= fs.ModeSetuid
	}
	if m&0o2000 != 0 {
		r |= fs.ModeSetgid
	}
	if m&0o1000 != 0 {
		r |= fs.ModeSticky
	}
	switch m >> 12 {
	case 1:
		r |= fs.ModeNamedPipe
	case 2:
		r |= fs.ModeDevice | fs.ModeCharDevice
	case 4:
		r |= fs.ModeDir
	case 6:
		r |= fs.ModeDevice
	case 10:
		r |= fs.ModeSymlink
	case 12:
		r |= fs.ModeSocket
	}
	return r
}

func anyInode() lib.EInode {
	i := lib.EInode{Ext: sym.Bool("ext"), Mode: sym.U16("mode"), Addr: sym.U32("addr"), Ino: sym.U32("ino")}
	if i.Ext {
		i.Size = uint64(sym.Range("size", 0, 1<<60))
		i.Uid, i.Gid, i.Nlink = sym.U32("uid"), sym.U32("gid"), sym.U32("nlink")
		i.Mtime, i.Nsec = sym.U64("mtime"), sym.U32("nsec")
	} else {
		i.Size = uint64(sym.U32("size"))
		i.Uid, i.Gid, i.Nlink = uint32(sym.U16("uid")), uint32(sym.U16("gid")), uint32(sym.U16("nlink"))
	}
	return i
}

// HarnessFields: every field of an inode anywhere.
func HarnessFields() {
	g := newGeometry(blockBits())
	n := nid("nid")
	i := anyInode()
	g.put(g.offset(n), append(i.Bytes(), make([]byte, 32)...)[:64])
	im := g.open()
	sb := im.SuperBlock()
	sym.Assert(sym.And(sb.RootNid == g.RootNid, sb.MetaBlockAddr == g.Meta, sb.Blocks == g.Blocks, sb.Inodes == g.Inodes,
		sb.BuildTime == g.BuildTime, sb.BuildTimeNsec == g.BuildNsec), "superblock fields")
	sym.Assert(sym.And(im.Blocks() == g.Blocks, im.RootNid() == uint64(g.RootNid), im.BlockSize() == 1<<g.Bits), "superblock accessors")
	ino, err := im.Inode(n)
	sym.Assert(err == nil, "the inode is valid")
	sym.Assert(sym.And(ino.Nid() == n, ino.Size() == i.Size, ino.UID() == i.Uid, ino.GID() == i.Gid, ino.Nlink() == i.Nlink), "fields as stored")
	if i.Ext {
		sym.Assert(sym.And(ino.Mtime() == i.Mtime, ino.MtimeNsec() == i.Nsec), "time as stored")
		sym.Reach("extended")
	} else {
		sym.Assert(sym.And(ino.Mtime() == g.BuildTime, ino.MtimeNsec() == g.BuildNsec), "compact inodes have the build time")
		sym.Reach("compact")
	}
	t := i.Mode >> 12
	sym.Assert(ino.Mode() == mode(i.Mode), "mode")
	sym.Assert(sym.And(ino.IsRegular() == (t == 8), ino.IsDir() == (t == 4), ino.IsCharDev() == (t == 2), ino.IsBlockDev() == (t == 6)), "type")
	sym.Assert(sym.And(ino.IsFIFO() == (t == 1), ino.IsSocket() == (t == 12), ino.IsSymlink() == (t == 10)), "type")
	lay := uint16(erofs.InodeLayoutCompact)
	if i.Ext {
		lay = erofs.InodeLayoutExtended
	}
	sym.Assert(ino.Layout() == lay && ino.DataLayout() == erofs.InodeDataLayoutFlatPlain, "layout")
}

func content(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(3*i + i>>8)
	}
	if n > 0 {
		b[0], b[n-1] = sym.Byte("first"), sym.Byte("last")
	}
	return b
}

// HarnessData: the data of a file is read from where the format has it.
func HarnessData() {
	bits := blockBits()
	bs := 1 << bits
	g := newGeometry(bits)
	n := nid("nid")
	i := lib.EInode{Ext: sym.Bool("ext"), Mode: 0o100644, Addr: sym.U32("addr")}
	isize := 32
	if i.Ext {
		isize = 64
	}
	tails := []int{1, 2, 33, bs - isize - 1, bs - isize}
	if sym.Bool("inline") {
		i.Layout = 2
		blocks := sym.Choose("blocks", 3)
		tail := tails[sym.Choose("tail", len(tails))]
		i.Size = uint64(blocks*bs + tail)
		data := content(int(i.Size))
		if blocks > 0 {
			g.put(int64(i.Addr)<<bits, data[:blocks*bs])
			sym.Reach("blocks before the tail")
		}
		g.put(g.offset(n), append(i.Bytes(), data[blocks*bs:]...))
		same(g, n, data)
		return
	}
	size := []int{0, 1, bs - 1, bs, bs + 1, 2*bs + 5}[sym.Choose("size", 6)]
	i.Size = uint64(size)
	data := content(size)
	g.put(g.offset(n), append(i.Bytes(), make([]byte, 32)...)[:64])
	if size > 0 {
		g.put(int64(i.Addr)<<bits, data)
	}
	same(g, n, data)
	sym.Reach("plain")
}

func same(g *geometry, n uint64, data []byte) {
	ino, err := g.open().Inode(n)
	sym.Assert(err == nil, "the inode is valid")
	r, err := ino.Data()
	sym.Assert(err == nil, "data of the inode")
	got, err := lib.ReadAll(r, []int{4 << g.Bits, 300 << (g.Bits - 9)}[sym.Choose("buffer", 2)], len(data)+64)
	sym.Assert(err == nil, "data can be read")
	sym.Assert(sym.EqBytes(got, data), "data of the inode")
}

// HarnessLarge: the first bytes of files of any size.
func HarnessLarge() {
	g := newGeometry(blockBits())
	n := nid("nid")
	i := anyInode()
	i.Mode = 0o100644
	b := sym.Bytes("data", 8)
	g.put(g.offset(n), append(i.Bytes(), make([]byte, 32)...)[:64])
	g.put(int64(i.Addr)<<g.Bits, b)
	sym.Assume(i.Size >= 8)
	ino, err := g.open().Inode(n)
	sym.Assert(err == nil, "the inode is valid")
	r, err := ino.Data()
	sym.Assert(err == nil, "data of the inode")
	got := make([]byte, 8)
	_, err = io.ReadFull(r, got)
	sym.Assert(err == nil && sym.EqBytes(got, b), "first bytes of the data")
	// the end, when the reader can seek
	if s, ok := r.(io.Seeker); ok {
		end, err := s.Seek(0, io.SeekEnd)
		sym.Assert(err == nil && end == int64(i.Size), "end of the data")
	}
	sym.Reach("done")
}

// HarnessLinks: link targets are read from where the format has them.
func HarnessLinks() {
	bits := blockBits()
	bs := 1 << bits
	g := newGeometry(bits)
	n := nid("nid")
	i := lib.EInode{Ext: sym.Bool("ext"), Mode: 0o120777, Addr: sym.U32("addr")}
	isize := 32
	if i.Ext {
		isize = 64
	}
	if sym.Bool("inline") {
		i.Layout = 2
		target := content([]int{1, 2, 100, bs - isize}[sym.Choose("size", 4)])
		i.Size = uint64(len(target))
		g.put(g.offset(n), append(i.Bytes(), target...))
		link(g, n, target)
		sym.Reach("inline")
		return
	}
	target := content([]int{1, 2, 100, bs - 1}[sym.Choose("size", 4)])
	i.Size = uint64(len(target))
	g.put(g.offset(n), append(i.Bytes(), make([]byte, 32)...)[:64])
	g.put(int64(i.Addr)<<bits, target)
	link(g, n, target)
	sym.Reach("plain")
}

func link(g *geometry, n uint64, target []byte) {
	ino, err := g.open().Inode(n)
	sym.Assert(err == nil, "the inode is valid")
	s, err := ino.Readlink()
	sym.Assert(err == nil && sym.EqString(s, string(target)), "link target")
}

// HarnessFilesystem: the same through names.
func HarnessFilesystem() {
	bits := blockBits()
	g := newGeometry(bits)
	n := nid("nid")
	i := anyInode()
	i.Mode = i.Mode&0o7777 | 0o100000
	if !i.Ext {
		i.Size = 5
	}
	data := sym.Bytes("data", 5)
	sym.Assume(i.Size == 5)
	root := lib.EInode{Mode: 0o40755, Layout: 2, Nlink: 2}
	tail := lib.EBlock([]lib.EEntry{{Name: ".", Nid: uint64(g.RootNid), Type: 2}, {Name: "..", Nid: uint64(g.RootNid), Type: 2}, {Name: "file", Nid: n, Type: 1}})
	root.Size = uint64(len(tail))
	g.put(g.offset(uint64(g.RootNid)), append(root.Bytes(), tail...))
	g.put(g.offset(n), append(i.Bytes(), make([]byte, 32)...)[:64])
	g.put(int64(i.Addr)<<bits, data)
	fsys, err := erofs.Open(g.dev)
	sym.Assert(err == nil, "image opens")
	fi, err := fsys.Stat("file")
	sym.Assert(err == nil, "stat")
	ino := fi.Sys().(*erofs.Inode)
	sym.Assert(sym.And(ino.Nid() == n, ino.UID() == i.Uid, ino.GID() == i.Gid, fi.Size() == 5), "fields as stored")
	sym.Assert(fi.Mode() == mode(i.Mode), "mode")
	if i.Ext {
		sec := int64(i.Mtime)
		sym.Assume(sym.And(sec > -1<<61, sec < 1<<61, i.Nsec < 1000000000))
		sym.Assert(sym.And(fi.ModTime().Unix() == sec, fi.ModTime().Nanosecond() == int(i.Nsec)), "time as stored")
	}
	f, err := fsys.Open("file")
	sym.Assert(err == nil, "open")
	b, err := lib.ReadAll(f, 512, 512)
	sym.Assert(err == nil && sym.EqBytes(b, data), "content")
	l, err := fsys.ReadDir(".")
	sym.Assert(err == nil && len(l) == 1 && l[0].Name() == "file", "listing")
	sym.Reach("done")
}

func main() {
	sym.Main(sym.Entry{"HarnessFields", HarnessFields}, sym.Entry{"HarnessData", HarnessData}, sym.Entry{"HarnessLarge", HarnessLarge},
		sym.Entry{"HarnessLinks", HarnessLinks}, sym.Entry{"HarnessFilesystem", HarnessFilesystem})
}
