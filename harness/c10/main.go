// C10: erofs Create then Open gives back the same tree and contents.
package main

import (
	"io/fs"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/dpeckett/archivefs/erofs"

	"verif.local/harness/lib"
	"verif.local/harness/sym"
)

func trip(root *lib.Node) *erofs.Filesystem {
	dst := &lib.Mem{}
	src := &lib.Src{Root: root}
	err := erofs.Create(dst, src)
	sym.Assert(err == nil, "the tree is accepted")
	sym.Assert(src.Opened == src.Closed, "every file is closed")
	fsys, err := erofs.Open(dst)
	sym.Assert(err == nil, "what Create wrote opens")
	return fsys
}

func same(root *lib.Node) {
	lib.SameTree(trip(root), root, ".", func(n *lib.Node, p string, fi fs.FileInfo) {
		if n.IsFile() || n.IsLink() {
			sym.Assert(fi.Size() == n.Size(), "size of "+p)
		}
	})
}

// HarnessTrees: trees of any shape with up to a few entries.
func HarnessTrees() {
	left := sym.Param("entries", 4, 5)
	names := []string{".a", "b", "c d"}
	var fill func(d *lib.Node, depth int)
	fill = func(d *lib.Node, depth int) {
		for _, name := range names {
			if left == 0 {
				return
			}
			kinds := 4
			if depth == 2 {
				kinds = 3
			}
			var n *lib.Node
			switch sym.Choose("kind", kinds) {
			case 0:
				continue
			case 1:
				n = lib.File(name, 0o600, sym.Bytes("data", sym.Choose("size", 2)))
			case 2:
				n = lib.Link(name, "../"+names[left%3])
			case 3:
				n = lib.Dir(name, 0o710)
			}
			left--
			if left%2 == 0 {
				n.MTime = time.Unix(int64(left), 0)
			}
			d.Kids = append(d.Kids, n)
			if n.IsDir() {
				sym.Reach("depth" + lib.Dec(depth))
				fill(n, depth+1)
			}
		}
	}
	root := lib.Dir(".", 0o755)
	fill(root, 0)
	same(root)
}

// HarnessNames: any bytes in names and link targets, of any length.
func HarnessNames() {
	name := func(id string, max int) string {
		b := sym.Bytes(id, 1+sym.Choose(id+".len", max))
		for _, c := range b {
			sym.Assume(c != 0 && c != '/')
		}
		sym.Assume(utf8.Valid(b)) // what fs.ValidPath allows
		return string(b)
	}
	n, target := "n", "t"
	refused := false
	switch sym.Choose("where", 3) {
	case 0:
		long := []int{0, 100, 253, 254, 255, 300}[sym.Choose("long", 6)]
		n = name("name", sym.Param("bytes", 3, 4))
		sym.Assume(n != "." && n != "..")
		n += strings.Repeat("n", long)
		refused = len(n) > 255
		if refused {
			sym.Reach("name too long")
		}
	case 1:
		long := []int{0, 1000, 1022, 1023, 1024, 4000, 4094, 4095, 5000}[sym.Choose("long", 9)]
		target = name("target", 1) + strings.Repeat("x", long)
		if long >= 4000 {
			sym.Reach("long target")
		}
		refused = len(target) > 4095
	case 2:
		target = "/" + name("target", 2) + "/x"
	}
	root := lib.Dir(".", 0o755, lib.Dir("dir", 0o755, lib.File(n, 0o600, []byte{sym.Byte("data")})), lib.Link("link", target))
	if refused {
		err := erofs.Create(&lib.Mem{}, &lib.Src{Root: root})
		sym.Assert(err != nil, "what the format cannot hold is refused")
		return
	}
	same(root)
}

// HarnessContent: files of sizes around the limits, so that inline data falls
// everywhere in a block.
func HarnessContent() {
	sizes := []int{0, 1, 31, 32, 33, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 9000}
	root := lib.Dir(".", 0o755)
	k := sym.Param("files", 2, 3)
	fill := []int{0, 2, 3}[sym.Choose("fill", 3)]
	for i := 0; i < fill; i++ {
		root.Kids = append(root.Kids, lib.File("a"+lib.Dec(i), 0o600, make([]byte, 900)))
	}
	for i := 0; i < k; i++ {
		size := sizes[sym.Choose("size", len(sizes))]
		d := make([]byte, size)
		for j := 0; j < 3 && j < size; j++ {
			d[j], d[size-1-j] = sym.Byte("first"), sym.Byte("last")
		}
		f := lib.File("f"+lib.Dec(i), 0o600, d)
		if i%2 == 1 {
			f.MTime = time.Unix(9, 0)
		}
		root.Kids = append(root.Kids, f)
	}
	same(root)
	sym.Reach("done")
}

// HarnessFull: directories that fill blocks to about the last byte.
func HarnessFull() {
	root := lib.Dir(".", 0o755)
	var d *lib.Node = root
	if sym.Bool("below") {
		d = lib.Dir("d", 0o755)
		root.Kids = append(root.Kids, d)
	}
	add := func(n int) {
		i := len(d.Kids)
		k := lib.File(string([]byte{byte('A' + i/16), byte('A' + i%16)})+strings.Repeat("n", n-2), 0o600, []byte{byte(i)})
		if i == 3 {
			k = lib.Link(k.Nm, "x")
		}
		d.Kids = append(d.Kids, k)
	}
	// dot, dot-dot and 15 long names leave 64 bytes
	for i := 0; i < 15; i++ {
		add(255)
	}
	add(48 + sym.Choose("last", 7))
	for i := sym.Choose("rest", 2); i > 0; i-- {
		add(20)
	}
	same(root)
	sym.Reach("done")
}

// HarnessTypes: any mode of an entry, at any place.
func HarnessTypes() {
	n := lib.File("m", fs.FileMode(sym.U32("mode")), []byte{1})
	sym.Assume(n.M&^(fs.ModeType|0o777|fs.ModeSetuid|fs.ModeSetgid|fs.ModeSticky) == 0)
	types := n.M & fs.ModeType
	sym.Assume(types != fs.ModeDir && types != fs.ModeSymlink)
	d := lib.Dir("d", 0o755, lib.File("a", 0o600, nil), n, lib.File("z", 0o600, nil))
	dst := &lib.Mem{}
	root := lib.Dir(".", 0o755, d)
	err := erofs.Create(dst, &lib.Src{Root: root})
	if err != nil {
		sym.Assert(types != 0, "a regular file is accepted")
		sym.Reach("refused")
		return
	}
	sym.Assert(types == 0, "an entry that the writer does not support is refused")
	fsys, err := erofs.Open(dst)
	sym.Assert(err == nil, "what Create wrote opens")
	lib.SameTree(fsys, root, ".", nil)
	sym.Reach("accepted")
}

func refused(d *lib.Node) {
	err := erofs.Create(&lib.Mem{}, &lib.Src{Root: lib.Dir(".", 0o755, d)})
	sym.Assert(err != nil, "names that cannot be stored are refused")
}

// HarnessBadNames: names that cannot be stored.
func HarnessBadNames() {
	switch sym.Choose("what", 3) {
	case 1: // two entries of one name
		refused(lib.Dir("d", 0o755, lib.File("a", 0o600, []byte{1}), lib.File("a", 0o600, []byte{2})))
		return
	case 2: // links of a source without links
		err := erofs.Create(&lib.Mem{}, lib.NoLinks{S: &lib.Src{Root: lib.Dir(".", 0o755, lib.Link("l", "t"))}})
		sym.Assert(err != nil, "a link that cannot be read is refused")
		return
	}
	b := sym.Bytes("name", sym.Choose("len", sym.Param("bytes", 4, 6)))
	bad := string(b) == "" || string(b) == "." || string(b) == ".."
	for _, c := range b {
		if c == 0 || c == '/' {
			bad = true
		}
	}
	sym.Assume(bad)
	refused(lib.Dir("d", 0o755, lib.File(string(b), 0o600, []byte{1})))
	sym.Reach("refused")
}

// HarnessDeep: nested directories.
func HarnessDeep() {
	depth := 1 + sym.Choose("depth", sym.Param("depth", 8, 16))
	n := lib.File("file", 0o640, []byte{sym.Byte("data")})
	for i := 0; i < depth; i++ {
		n = lib.Dir("d"+lib.Dec(i), 0o750, n, lib.File("x", 0o600, []byte{byte(i)}))
	}
	same(lib.Dir(".", 0o755, n))
	sym.Reach("done")
}

// HarnessRoot: any names in the root directory, around dot and dot-dot.
func HarnessRoot() {
	b := sym.Bytes("name", 2)
	for _, c := range b {
		sym.Assume(sym.And(c != 0, c != '/', c < 0x80))
	}
	sym.Assume(string(b) != "..")
	var kids [3]*lib.Node
	for i := range kids {
		switch sym.Choose("kind", 3) {
		case 0:
			kids[i] = lib.File("f", 0o600, []byte{sym.Byte("data")})
		case 1:
			kids[i] = lib.Dir("d", 0o755, lib.File("!x", 0o600, []byte{1, 2}), lib.File("x", 0o600, nil))
		case 2:
			kids[i] = lib.Link("l", "+b")
		}
	}
	kids[0].Nm, kids[2].Nm = "!", "+b"
	kids[1].Nm = string(b)
	sym.Assume(kids[1].Nm > "!" && kids[1].Nm != "+b")
	root := lib.Dir(".", 0o755, kids[0], kids[1], kids[2])
	if kids[1].Nm > "+b" {
		root.Kids = []*lib.Node{kids[0], kids[2], kids[1]}
		sym.Reach("last")
	}
	same(root)
}

// HarnessScale: large files, large and deep directories.
func HarnessScale() {
	sym.StepLimit(400000000)
	root := lib.Dir(".", 0o755)
	switch sym.Choose("what", 5) {
	case 4:
		d := lib.Wide("w", 2100, 7) // inode numbers of more than 16 bits
		for _, k := range d.Kids {
			k.Data = append(make([]byte, 1000), k.Data...)
		}
		root.Kids = append(root.Kids, d, lib.File("z", 0o600, []byte{sym.Byte("data")}))
		sym.Reach("large metadata")
	case 0:
		size := []int{32768, 40000, 65537, 70001, 1<<20 + 1, 1<<22 + 1}[sym.Choose("size", sym.Param("large", 5, 6))]
		root.Kids = append(root.Kids, lib.File("a", 0o600, lib.Blob("data", size)), lib.File("b", 0o600, lib.Blob("more", 1500)))
	case 1:
		root.Kids = append(root.Kids, lib.Wide("w", sym.Param("long", 700, 1500), 250), lib.File("z", 0o600, []byte{sym.Byte("data")}))
		sym.Reach("many blocks")
	case 2:
		root.Kids = append(root.Kids, lib.Wide("w", sym.Param("short", 700, 1500), 7), lib.File("z", 0o600, []byte{sym.Byte("data")}))
		sym.Reach("many entries")
	case 3:
		n := lib.File("file", 0o640, []byte{sym.Byte("data")})
		for i := 0; i < sym.Param("deep", 40, 60); i++ {
			n = lib.Dir("d"+lib.Dec(i), 0o750, n)
		}
		root.Kids = append(root.Kids, n)
		sym.Reach("deep")
	}
	same(root)
}

// HarnessStale: a destination that held something else before.
func HarnessStale() {
	sym.StepLimit(400000000)
	zero := sym.Choose("zero", 2) == 1
	content := func(size int) []byte {
		if zero {
			return make([]byte, size)
		}
		b := make([]byte, size)
		b[0], b[size/2], b[size-1] = sym.Byte("first"), sym.Byte("middle"), sym.Byte("last")
		return b
	}
	root := lib.Dir(".", 0o755,
		lib.File("a", 0o600, content([]int{1, 100, 1024, 1025, 4096, 4097, 12289}[sym.Choose("size", 7)])),
		lib.Dir("d", 0o755, lib.File("e", 0o600, nil), lib.Link("l", strings.Repeat("x", 1+sym.Choose("long", 2)*1500))),
		lib.File("z", 0o600, content(5000)))
	old := []byte{0xff, sym.Byte("old"), 0x2e}
	dst := &lib.Mem{}
	for i := 0; i < 48*1024; i++ {
		dst.B = append(dst.B, old[i%3])
	}
	sym.Assert(erofs.Create(dst, &lib.Src{Root: root}) == nil, "create")
	fsys, err := erofs.Open(&lib.Mem{B: dst.B})
	sym.Assert(err == nil, "open")
	lib.SameTree(fsys, root, ".", func(n *lib.Node, p string, fi fs.FileInfo) {
		if n.IsFile() || n.IsLink() {
			sym.Assert(fi.Size() == n.Size(), "size of "+p)
		}
	})
	sym.Reach("done")
}

// HarnessTwo: two archives with the same names.
func HarnessTwo() {
	lib.Two(func(root *lib.Node) fs.FS {
		dst := &lib.Mem{}
		sym.Assert(erofs.Create(dst, &lib.Src{Root: root}) == nil, "create")
		fsys, err := erofs.Open(dst)
		sym.Assert(err == nil, "open")
		return fsys
	}, true, true)
}

func main() {
	sym.Main(sym.Entry{"HarnessTrees", HarnessTrees}, sym.Entry{"HarnessNames", HarnessNames}, sym.Entry{"HarnessContent", HarnessContent},
		sym.Entry{"HarnessTypes", HarnessTypes}, sym.Entry{"HarnessBadNames", HarnessBadNames}, sym.Entry{"HarnessFull", HarnessFull}, sym.Entry{"HarnessDeep", HarnessDeep},
		sym.Entry{"HarnessRoot", HarnessRoot}, sym.Entry{"HarnessScale", HarnessScale}, sym.Entry{"HarnessStale", HarnessStale}, sym.Entry{"HarnessTwo", HarnessTwo})
}
