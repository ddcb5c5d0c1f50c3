// C08: tar Create then Open gives back the same tree.
package main

import (
	"archive/tar"
	"io/fs"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"

	"github.com/dpeckett/archivefs/tarfs"

	"verif.local/harness/lib"
	"verif.local/harness/sym"
)

func trip(root *lib.Node) *tarfs.FS {
	dst := &lib.Mem{}
	src := &lib.Src{Root: root}
	err := tarfs.Create(dst, src)
	sym.Assert(err == nil, "the tree is accepted")
	sym.Assert(src.Opened == src.Closed, "every file is closed")
	sym.Assert(len(dst.B)%512 == 0, "whole blocks")
	fsys, err := tarfs.Open(dst)
	sym.Assert(err == nil, "what Create wrote opens")
	return fsys
}

func attrs(n *lib.Node, p string, fi fs.FileInfo) {
	sym.Assert(fi.Mode() == n.M, "mode of "+p)
	if n.IsFile() {
		sym.Assert(fi.Size() == int64(len(n.Data)), "size of "+p)
	}
	sym.Assert(fi.ModTime().Unix() == n.MTime.Unix(), "time of "+p)
}

// HarnessMeta: any mode, owner and time of a file, directory or link.
func HarnessMeta() {
	field := sym.Choose("field", 6)
	mode := fs.FileMode(0o641)
	if field == 5 {
		mode = fs.FileMode(sym.U16("perm") & 0o777)
		for _, b := range []fs.FileMode{fs.ModeSetuid, fs.ModeSetgid, fs.ModeSticky} {
			if sym.Bool("special") {
				mode |= b
			}
		}
	}
	n := lib.File("name", mode, nil)
	switch sym.Choose("type", 3) {
	case 0:
		n.Data = []byte{sym.Byte("data")}
	case 1:
		n.M |= fs.ModeDir
	case 2:
		n.M |= fs.ModeSymlink
		n.Link = "target"
	}
	var uid, gid uint32 = 1, 2
	var sec int64 = 5
	nsec := int64(0)
	switch field {
	case 0:
		uid = sym.U32("uid")
	case 1:
		gid = sym.U32("gid")
	case 2:
		sec = int64(sym.Range("sec", 0, 1<<34))
	case 3:
		sec = int64(sym.Range("sec", -(1 << 34), 0))
		sym.Reach("before 1970")
	case 4:
		nsec = int64(sym.Range("nsec", 0, 999999999))
	}
	n.MTime = time.Unix(sec, nsec)
	if field > 1 || sym.Choose("owner", 2) == 0 {
		n.SysV = &tar.Header{Uid: int(uid), Gid: int(gid)}
	} else {
		n.SysV = &syscall.Stat_t{Uid: uid, Gid: gid}
		sym.Reach("stat owner")
	}
	fsys := trip(lib.Dir(".", 0o755, n))
	fi, err := fsys.StatLink("name")
	sym.Assert(err == nil, "stat")
	sym.Assert(fi.Mode() == n.M, "mode")
	if nsec >= 500000000 {
		sec++
		sym.Reach("rounded up")
	}
	sym.Assert(fi.ModTime().Unix() == sec, "time to the nearest second")
	h := fi.Sys().(*tar.Header)
	sym.Assert(sym.And(h.Uid == int(uid), h.Gid == int(gid)), "owner")
	if n.IsLink() {
		t, err := fsys.ReadLink("name")
		sym.Assert(err == nil && t == "target", "link target")
	}
}

// HarnessTrees: trees of any shape with up to a few entries.
func HarnessTrees() {
	left := sym.Param("entries", 4, 5)
	names := []string{".a", "b", "c d"}
	var fill func(d *lib.Node, depth int)
	fill = func(d *lib.Node, depth int) {
		for _, name := range names {
			if left == 0 {
				return
			}
			kinds := 4
			if depth == 2 {
				kinds = 3
			}
			var n *lib.Node
			switch sym.Choose("kind", kinds) {
			case 0:
				continue
			case 1:
				n = lib.File(name, 0o600, sym.Bytes("data", sym.Choose("size", 2)))
			case 2:
				n = lib.Link(name, "../"+names[sym.Choose("target", 2)])
			case 3:
				n = lib.Dir(name, 0o710)
			}
			left--
			n.MTime = time.Unix(int64(left), 0)
			d.Kids = append(d.Kids, n)
			if n.IsDir() {
				sym.Reach("depth" + lib.Dec(depth))
				fill(n, depth+1)
			}
		}
	}
	root := lib.Dir(".", 0o755)
	fill(root, 0)
	lib.SameTree(trip(root), root, ".", attrs)
}

// HarnessNames: any bytes in names and link targets, and long ones.
func HarnessNames() {
	name := func(id string) string {
		b := sym.Bytes(id, 1+sym.Choose(id+".len", sym.Param("bytes", 2, 3)))
		for _, c := range b {
			sym.Assume(c != 0 && c != '/')
		}
		return string(b)
	}
	n, target := "n", "t"
	long := []int{0, 99, 260}
	switch sym.Choose("where", 3) {
	case 0:
		n = name("name")
		sym.Assume(n != "." && n != "..")
		n += strings.Repeat("n", long[sym.Choose("long", len(long))]%255)
	case 1:
		target = strings.Repeat("../t", long[sym.Choose("long", len(long))]/4) + name("target")
		sym.Reach("long target")
	case 2:
		target = name("target") + "/x"
	}
	d := lib.Dir("dir", 0o755, lib.File(n, 0o600, []byte{sym.Byte("data")}))
	root := lib.Dir(".", 0o755, d, lib.Link("link", target))
	if !utf8.ValidString(n) || !utf8.ValidString(target) {
		// refused, or kept
		dst := &lib.Mem{}
		if err := tarfs.Create(dst, &lib.Src{Root: root}); err == nil {
			fsys, err := tarfs.Open(dst)
			sym.Assert(err == nil, "what Create wrote opens")
			lib.SameTree(fsys, root, ".", nil)
		}
		return
	}
	lib.SameTree(trip(root), root, ".", nil)
	if len(n) > 100 {
		sym.Reach("long name")
	}
}

// HarnessDeep: directories nested so that paths pass the limits of the format.
func HarnessDeep() {
	depth := 1 + sym.Choose("depth", sym.Param("depth", 6, 9))
	n := lib.File("file", 0o640, []byte{sym.Byte("data")})
	for i := 0; i < depth; i++ {
		n = lib.Dir(strings.Repeat(lib.Dec(i), 50), 0o750, n)
	}
	root := lib.Dir(".", 0o755, n)
	for m := n; ; m = m.Kids[0] {
		m.MTime = time.Unix(77, 0)
		if m.IsFile() {
			break
		}
	}
	lib.SameTree(trip(root), root, ".", attrs)
	if depth > 5 {
		sym.Reach("deep")
	}
}

// HarnessContent: contents of sizes around the block size.
func HarnessContent() {
	sizes := []int{0, 1, 511, 512, 513, 1024, 1025, 33000}
	root := lib.Dir(".", 0o755)
	for i := 0; i < 2; i++ {
		size := sizes[sym.Choose("size", len(sizes))]
		d := make([]byte, size)
		for j := 0; j < 3 && j < size; j++ {
			d[j], d[size-1-j] = sym.Byte("first"), sym.Byte("last")
		}
		root.Kids = append(root.Kids, lib.File("f"+lib.Dec(i), 0o600, d))
	}
	lib.SameTree(trip(root), root, ".", nil)
	sym.Reach("done")
}

// HarnessLinksNeeded: links cannot be read from a source without links.
func HarnessLinksNeeded() {
	root := lib.Dir(".", 0o755, lib.Link("link", "target"))
	err := tarfs.Create(&lib.Mem{}, lib.NoLinks{S: &lib.Src{Root: root}})
	sym.Assert(err != nil, "a link that cannot be read is refused")
	sym.Reach("refused")
}

// HarnessScale: large files, large and deep directories.
func HarnessScale() {
	sym.StepLimit(400000000)
	root := lib.Dir(".", 0o755)
	switch sym.Choose("what", 4) {
	case 0:
		size := []int{65536, 70001, 140000, 1<<20 + 1, 1<<22 + 1}[sym.Choose("size", sym.Param("large", 4, 5))]
		root.Kids = append(root.Kids, lib.File("a", 0o600, lib.Blob("data", size)), lib.File("b", 0o600, lib.Blob("more", 1500)))
	case 1:
		root.Kids = append(root.Kids, lib.Wide("w", sym.Param("wide", 300, 1000), 7), lib.File("z", 0o600, []byte{sym.Byte("data")}))
		sym.Reach("many entries")
	case 2:
		root.Kids = append(root.Kids, lib.Wide("w", sym.Param("long", 60, 300), 200), lib.File("z", 0o600, []byte{sym.Byte("data")}))
		sym.Reach("long names")
	case 3:
		n := lib.File("file", 0o640, []byte{sym.Byte("data")})
		for i := 0; i < sym.Param("deep", 60, 100); i++ {
			n = lib.Dir("d"+lib.Dec(i), 0o750, n, lib.Link("l", strings.Repeat("x", i*2+1)))
		}
		root.Kids = append(root.Kids, n)
		sym.Reach("deep")
	}
	lib.SameTree(trip(root), root, ".", func(n *lib.Node, p string, fi fs.FileInfo) {
		sym.Assert(fi.Mode() == n.M, "mode of "+p)
	})
}

// HarnessTwo: two archives with the same names.
func HarnessTwo() {
	lib.Two(func(root *lib.Node) fs.FS {
		dst := &lib.Mem{}
		sym.Assert(tarfs.Create(dst, &lib.Src{Root: root}) == nil, "create")
		fsys, err := tarfs.Open(dst)
		sym.Assert(err == nil, "open")
		return fsys
	}, true, true)
}

func main() {
	sym.Main(sym.Entry{"HarnessMeta", HarnessMeta}, sym.Entry{"HarnessTrees", HarnessTrees}, sym.Entry{"HarnessNames", HarnessNames},
		sym.Entry{"HarnessDeep", HarnessDeep}, sym.Entry{"HarnessContent", HarnessContent}, sym.Entry{"HarnessLinksNeeded", HarnessLinksNeeded},
		sym.Entry{"HarnessScale", HarnessScale}, sym.Entry{"HarnessTwo", HarnessTwo})
}
