// C15: the erofs superblock is validated before use.
package main

import (
	"encoding/binary"
	"hash/crc32"
	"time"

	"github.com/dpeckett/archivefs/erofs"

	"verif.local/harness/lib"
	"verif.local/harness/sym"
)

const (
	start    = 1024
	checksum = 4 // offsets in the superblock
	compat   = 8
	bits     = 12
	incompat = 80
)

// reference is the checksum that the format demands.
func reference(image []byte, shift uint8) uint32 {
	n := 1 << shift
	if n > start {
		n -= start
	}
	b := append([]byte(nil), image[start:start+n]...)
	copy(b[checksum:], make([]byte, 4))
	return ^crc32.Update(0, crc32.MakeTable(crc32.Castagnoli), b)
}

// opens reports whether an image is accepted, which both ways of opening have to
// agree on.
func opens(b []byte) bool {
	_, err := erofs.OpenImage(&lib.Mem{B: b})
	_, err2 := erofs.Open(&lib.Mem{B: b})
	sym.Assert((err == nil) == (err2 == nil), "Open and OpenImage agree")
	return err == nil
}

// HarnessAccept: any superblock without a checksum.
func HarnessAccept() {
	b := make([]byte, 4096)
	copy(b[start:], sym.Bytes("super", 128))
	sb := b[start:]
	sym.Assume(sb[compat]&1 == 0)
	valid := sym.And(
		binary.LittleEndian.Uint32(sb) == lib.ErofsMagic,
		binary.LittleEndian.Uint32(sb[incompat:]) == 0,
		sb[bits] >= 9, sb[bits] <= 16)
	if opens(b) {
		sym.Assert(valid, "only a valid superblock is accepted")
		sym.Reach("accepted")
	} else {
		sym.Assert(sym.Not(valid), "a valid superblock is accepted")
		sym.Reach("refused")
	}
}

func shift() uint8 {
	return []uint8{12, 9, 10, 11, 13, 16}[sym.Choose("shift", sym.Param("shift", 5, 6))]
}

// HarnessChecksum: any superblock that claims a checksum.
func HarnessChecksum() {
	s := shift()
	b := make([]byte, start+1<<s)
	copy(b[start:], sym.Bytes("super", 128))
	sb := b[start:]
	sb[bits] = s
	sb[compat] |= 1
	// what follows is covered as well
	sb[128], sb[200] = sym.Byte("rest"), sym.Byte("rest")
	valid := sym.And(
		binary.LittleEndian.Uint32(sb) == lib.ErofsMagic,
		binary.LittleEndian.Uint32(sb[incompat:]) == 0,
		binary.LittleEndian.Uint32(sb[checksum:]) == reference(b, s))
	if opens(b) {
		sym.Assert(valid, "only a matching checksum is accepted")
		sym.Reach("accepted")
	} else {
		sym.Assert(sym.Not(valid), "a matching checksum is accepted")
		sym.Reach("refused")
	}
}

// HarnessBurst: any change of up to 32 adjacent bits in what is covered.
func HarnessBurst() {
	s := shift()
	n := 1 << s
	if n > start {
		n -= start
	}
	b := make([]byte, start+n)
	super := lib.Super{Magic: lib.ErofsMagic, Bits: s, Compat: 1, RootNid: 3, Inodes: 9, Meta: 7, Blocks: 99, BuildTime: 12345}
	copy(b[start:], super.Bytes())
	for i := start + 128; i < len(b); i++ {
		b[i] = byte(i * 7)
	}
	binary.LittleEndian.PutUint32(b[start+checksum:], reference(b, s))
	sym.Assert(opens(b), "the intact superblock is accepted")
	at := 4 * sym.Choose("at", 128)
	if at >= 256 {
		// the rest in steps, up to the last bytes
		k := (n - 256) / 128 &^ 3
		at = min(256+(at-256)/4*max(k, 4), n-4)
	}
	change := sym.Bytes("change", 4)
	sym.Assume(string(change) != "\x00\x00\x00\x00")
	switch at {
	case compat:
		sym.Assume(change[0]&1 == 0) // or there is no checksum
	case bits:
		sym.Assume(change[0] == 0) // or it covers something else
	}
	for i := range change {
		b[start+at+i] ^= change[i]
	}
	sym.Assert(!opens(b), "a corrupted superblock is refused")
	sym.Reach("done")
	if at == n-4 {
		sym.Reach("end")
	}
}

// HarnessCut: a device that ends within what is needed.
func HarnessCut() {
	b := make([]byte, 4096)
	super := lib.Super{Magic: lib.ErofsMagic, Bits: 12}
	if sym.Bool("claim") {
		super.Compat = 1
	}
	copy(b[start:], super.Bytes())
	binary.LittleEndian.PutUint32(b[start+checksum:], reference(b, 12))
	size := []int{0, 1, 1023, 1024, 1025, 1151, 1152, 1153, 4095, 4096}[sym.Choose("size", 10)]
	ok := opens(b[:size])
	switch {
	case size < start+128:
		sym.Assert(!ok, "an image without a superblock is refused")
	case super.Compat == 0 || size == 4096:
		sym.Assert(ok, "a complete superblock is accepted")
	default:
		sym.Assert(!ok, "an image without the covered bytes is refused")
		sym.Reach("cut")
	}
}

// HarnessWritten: what Create writes.
func HarnessWritten() {
	root := lib.Dir(".", 0o755)
	d := root
	count := 1
	for i := 0; i < sym.Param("entries", 4, 6); i++ {
		var n *lib.Node
		switch sym.Choose("kind", 4) {
		case 0:
			continue
		case 1:
			n = lib.File("f"+lib.Dec(i), 0o600, make([]byte, []int{0, 10, 1000, 5000}[sym.Choose("size", 4)]))
			for j := range n.Data {
				n.Data[j] = 0xff
			}
		case 2:
			n = lib.Link("l"+lib.Dec(i), "target")
		case 3:
			n = lib.Dir("d"+lib.Dec(i), 0o700)
			n.MTime = time.Unix(77, 0)
		}
		count++
		d.Kids = append(d.Kids, n)
		if n.IsDir() {
			d = n
		}
	}
	dst := &lib.Mem{}
	if sym.Bool("old") {
		for i := 0; i < 8192; i++ {
			dst.B = append(dst.B, 0xee) // the destination had other content
		}
		sym.Reach("old content")
	}
	sym.Assert(erofs.Create(dst, &lib.Src{Root: root}) == nil, "the tree is accepted")
	im, err := erofs.OpenImage(dst)
	sym.Assert(err == nil, "what Create wrote opens")
	sb := im.SuperBlock()
	sym.Assert(sb.Magic == lib.ErofsMagic && sb.FeatureIncompat == 0, "magic and features")
	sym.Assert(sb.Inodes == uint64(count), "number of inodes")
	sym.Assert(sb.BlockSizeBits == 12 && im.BlockSize() == 4096, "block size")
	sym.Assert(sb.Checksum == reference(dst.B, 12), "checksum")
	ino, err := im.Inode(im.RootNid())
	sym.Assert(err == nil && ino.IsDir(), "the root inode is a directory")
	found := 0
	err = ino.IterDirents(func(name string, typ uint8, nid uint64) error { found++; return nil })
	sym.Assert(err == nil && found == len(root.Kids)+2, "the root inode is the one of the root")
	// with the flag set, the checksum is verified
	b := append([]byte(nil), dst.B...)
	b[start+compat] |= 1
	binary.LittleEndian.PutUint32(b[start+checksum:], reference(b, 12))
	sym.Assert(opens(b), "the checksum can be verified")
	sym.Reach("done")
}

func main() {
	sym.Main(sym.Entry{"HarnessAccept", HarnessAccept}, sym.Entry{"HarnessChecksum", HarnessChecksum}, sym.Entry{"HarnessBurst", HarnessBurst},
		sym.Entry{"HarnessCut", HarnessCut}, sym.Entry{"HarnessWritten", HarnessWritten})
}
