package lib

// LE appends the n low bytes of v in little-endian order.
func LE(b []byte, v uint64, n int) []byte {
	for i := 0; i < n; i++ {
		b = append(b, byte(v>>(8*i)))
	}
	return b
}

// Super is an erofs superblock.
type Super struct {
	Magic, Checksum, Compat uint32
	Bits                    uint8
	RootNid                 uint16
	Inodes                  uint64
	BuildTime               uint64
	BuildNsec               uint32
	Blocks, Meta            uint32
	Incompat                uint32
}

// ErofsMagic identifies an image.
const ErofsMagic = 0xe0f5e1e2

// Bytes is the 128 byte on-disk form.
func (s Super) Bytes() []byte {
	var b []byte
	b = LE(b, uint64(s.Magic), 4)
	b = LE(b, uint64(s.Checksum), 4)
	b = LE(b, uint64(s.Compat), 4)
	b = append(b, s.Bits, 0)
	b = LE(b, uint64(s.RootNid), 2)
	b = LE(b, s.Inodes, 8)
	b = LE(b, s.BuildTime, 8)
	b = LE(b, uint64(s.BuildNsec), 4)
	b = LE(b, uint64(s.Blocks), 4)
	b = LE(b, uint64(s.Meta), 4)
	b = LE(b, 0, 4)
	b = append(b, make([]byte, 32)...) // uuid and volume name
	b = LE(b, uint64(s.Incompat), 4)
	return append(b, make([]byte, 44)...)
}

// EInode is an erofs inode.
type EInode struct {
	Ext    bool
	Layout uint16 // 0 plain, 2 inline
	Xattr  uint16
	Mode   uint16
	Nlink  uint32
	Size   uint64
	Addr   uint32
	Ino    uint32
	Uid    uint32
	Gid    uint32
	Mtime  uint64
	Nsec   uint32
}

// Bytes is the 32 or 64 byte on-disk form.
func (i EInode) Bytes() []byte {
	var b []byte
	f := i.Layout << 1
	if i.Ext {
		f |= 1
	}
	b = LE(b, uint64(f), 2)
	b = LE(b, uint64(i.Xattr), 2)
	b = LE(b, uint64(i.Mode), 2)
	if !i.Ext {
		b = LE(b, uint64(i.Nlink), 2)
		b = LE(b, i.Size, 4)
		b = LE(b, 0, 4)
		b = LE(b, uint64(i.Addr), 4)
		b = LE(b, uint64(i.Ino), 4)
		b = LE(b, uint64(i.Uid), 2)
		b = LE(b, uint64(i.Gid), 2)
		return LE(b, 0, 4)
	}
	b = LE(b, 0, 2)
	b = LE(b, i.Size, 8)
	b = LE(b, uint64(i.Addr), 4)
	b = LE(b, uint64(i.Ino), 4)
	b = LE(b, uint64(i.Uid), 4)
	b = LE(b, uint64(i.Gid), 4)
	b = LE(b, i.Mtime, 8)
	b = LE(b, uint64(i.Nsec), 4)
	b = LE(b, uint64(i.Nlink), 4)
	return append(b, make([]byte, 16)...)
}

// EEntry is a directory entry.
type EEntry struct {
	Name string
	Nid  uint64
	Type uint8
}

// EBlock is a directory block of entries, not padded.
func EBlock(es []EEntry) []byte {
	var b, names []byte
	for _, e := range es {
		b = LE(b, e.Nid, 8)
		b = LE(b, uint64(12*len(es)+len(names)), 2)
		b = append(b, e.Type, 0)
		names = append(names, e.Name...)
	}
	return append(b, names...)
}

// EImage is an image with blocks of 512 bytes whose metadata area starts at
// block 3, so that inode n is at 1536 + 32 n.
type EImage struct {
	B []byte
}

// EMeta is the offset of inode 0 in an EImage, and EShift its block size.
const (
	EMeta  = 1536
	EShift = 9
)

// NewEImage starts an image.
func NewEImage(rootNid uint16) *EImage {
	im := &EImage{}
	im.Put(1024, Super{Magic: ErofsMagic, Bits: EShift, RootNid: rootNid, Meta: EMeta >> EShift, BuildTime: 1000, BuildNsec: 7}.Bytes())
	return im
}

// Put writes at an offset.
func (im *EImage) Put(off int, b []byte) {
	for len(im.B) < off+len(b) {
		im.B = append(im.B, make([]byte, off+len(b)-len(im.B))...)
	}
	copy(im.B[off:], b)
}

// Inode writes an inode and its inline tail.
func (im *EImage) Inode(nid int, i EInode, tail []byte) {
	b := i.Bytes()
	im.Put(EMeta+32*nid, append(b, tail...))
}

// Block writes a block.
func (im *EImage) Block(addr int, b []byte) { im.Put(addr<<EShift, b) }

// ErofsOf is the image of a tree, written independently of the code under test.
func ErofsOf(root *Node) []byte {
	next := 0
	nids := map[*Node]int{}
	var all []*Node
	var place func(n *Node)
	place = func(n *Node) {
		size := 32 + len(n.Data) + len(n.Link)
		if len(n.Data) > 480 {
			size = 32 // in blocks behind the metadata
		}
		if n.IsDir() {
			size += 12*2 + 3
			for _, k := range n.Kids {
				size += 12 + len(k.Nm)
			}
		}
		if size > 1<<EShift {
			panic("node too large")
		}
		// inline data stays in the block of the inode
		if (next*32)>>EShift != (next*32+size-1)>>EShift {
			next = ((next*32)>>EShift + 1) << EShift / 32
		}
		nids[n] = next
		all = append(all, n)
		next += (size + 31) / 32
		for _, k := range n.Kids {
			place(k)
		}
	}
	place(root)
	im := NewEImage(0)
	addr := (EMeta+32*next)>>EShift + 1
	for _, n := range all {
		ino := EInode{Layout: 2, Nlink: 1, Mode: uint16(n.M.Perm())}
		var tail []byte
		switch {
		case n.IsDir():
			ino.Mode |= 0o40000
			ino.Nlink = 2
			up := n.Up
			if up == nil {
				up = n
			}
			es := []EEntry{{".", uint64(nids[n]), 2}, {"..", uint64(nids[up]), 2}}
			for _, k := range n.Kids {
				t := uint8(1)
				if k.IsDir() {
					t = 2
				} else if k.IsLink() {
					t = 7
				}
				e := EEntry{k.Nm, uint64(nids[k]), t}
				at := len(es)
				for at > 0 && es[at-1].Name > e.Name {
					at--
				}
				es = append(es, EEntry{})
				copy(es[at+1:], es[at:])
				es[at] = e
			}
			tail = EBlock(es)
		case n.IsLink():
			ino.Mode |= 0o120000
			tail = []byte(n.Link)
		default:
			ino.Mode |= 0o100000
			tail = n.Data
		}
		ino.Size = uint64(len(tail))
		if len(tail) == 0 {
			ino.Layout = 0
		}
		if n.IsFile() && len(tail) > 480 {
			ino.Layout, ino.Addr = 0, uint32(addr)
			im.Block(addr, tail)
			addr += (len(tail) + 511) / 512
			tail = nil
		}
		im.Inode(nids[n], ino, tail)
	}
	return im.B
}
