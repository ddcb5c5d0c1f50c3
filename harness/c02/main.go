// C02: ar Create then Open gives back the same files.
package main

import (
	"archive/tar"
	"io/fs"
	"syscall"
	"time"

	"github.com/dpeckett/archivefs/arfs"

	"verif.local/harness/lib"
	"verif.local/harness/sym"
)

func create(src fs.FS) (*arfs.FS, []byte) {
	dst := &lib.Mem{}
	err := arfs.Create(dst, src)
	sym.Assert(err == nil, "what ar can represent is accepted")
	fsys, err := arfs.Open(dst)
	sym.Assert(err == nil, "what Create wrote opens")
	return fsys, dst.B
}

// owner makes n report an owner in one of the ways a source can.
func owner(n *lib.Node, uid, gid int64) {
	switch sym.Choose("owner", 3) {
	case 0:
		n.SysV = &tar.Header{Uid: int(uid), Gid: int(gid)}
		sym.Reach("tar owner")
	case 1:
		n.SysV = &syscall.Stat_t{Uid: uint32(uid), Gid: uint32(gid)}
		sym.Reach("stat owner")
	case 2:
		n.SysV = &arfs.Entry{Uid: uid, Gid: gid}
		sym.Reach("ar owner")
	}
}

// HarnessMeta: any mode, owner and time.
func HarnessMeta() {
	mode := fs.FileMode(sym.U16("perm") & 0o777)
	for _, b := range []fs.FileMode{fs.ModeSetuid, fs.ModeSetgid, fs.ModeSticky} {
		if sym.Bool("special") {
			mode |= b
		}
	}
	n := lib.File("name", mode, []byte{1})
	var uid, gid, mtime int64 = 12, 34, 56
	switch sym.Choose("field", 3) {
	case 0:
		uid = int64(sym.Range("uid", 0, 999999))
	case 1:
		gid = int64(sym.Range("gid", 0, 999999))
	case 2:
		mtime = int64(sym.Range("mtime", -99999999999, 999999999999))
	}
	n.MTime = time.Unix(mtime, int64(sym.Range("nsec", 0, 999999999)))
	owner(n, uid, gid)
	fsys, _ := create(&lib.Src{Root: lib.Dir(".", 0o755, n)})
	fi, err := fsys.Stat("name")
	sym.Assert(err == nil, "stat")
	sym.Assert(fi.Mode() == mode, "mode")
	sym.Assert(fi.ModTime().Unix() == mtime, "time")
	e := fi.Sys().(*arfs.Entry)
	sym.Assert(sym.And(e.Uid == uid, e.Gid == gid), "owner")
	sym.Assert(fi.Size() == 1, "size")
}

// HarnessFiles: any number of files with any contents.
func HarnessFiles() {
	k := sym.Choose("files", sym.Param("files", 4, 5))
	names := []string{"a", "b c", "debian-binary", "sixteen--letters"}
	root := lib.Dir(".", 0o755)
	for i := 0; i < k; i++ {
		n := sym.Choose("size", sym.Param("size", 4, 5))
		f := lib.File(names[i], 0o644, sym.Bytes("data"+lib.Dec(i), n))
		f.MTime = time.Unix(int64(i), 0)
		root.Kids = append(root.Kids, f)
	}
	fsys, b := create(&lib.Src{Root: root})
	// the emitted bytes: magic, and per file a header and padded content
	sym.Assert(len(b) >= 8 && string(b[:8]) == lib.ArMagic, "magic")
	off := 8
	l, err := fsys.ReadDir(".")
	sym.Assert(err == nil && len(l) == k, "number of files")
	for i, f := range root.Kids {
		size := len(f.Data)
		h := lib.ArHeader(lib.ArMember{Name: f.Nm, Mtime: lib.Dec(i), Uid: "0", Gid: "0", Mode: "0000644", Size: lib.Dec(size)})
		sym.Assert(len(b) >= off+60+size+size%2, "length of the archive")
		sym.Assert(string(b[off:off+60]) == string(h), "header")
		sym.Assert(sym.EqBytes(b[off+60:off+60+size], f.Data), "content in the archive")
		off += 60 + size + size%2
		if size%2 == 1 {
			sym.Assert(b[off-1] == '\n', "padding")
			sym.Reach("odd")
		}
		fi, err := l[i].Info()
		sym.Assert(err == nil && l[i].Name() == f.Nm && fi.Size() == int64(size), "listing")
		h2, err := fsys.Open(f.Nm)
		sym.Assert(err == nil, "open")
		c, err := lib.ReadAll(h2, 4, 16)
		sym.Assert(err == nil && sym.EqBytes(c, f.Data), "content")
	}
	sym.Assert(len(b) == off, "nothing follows the last member")
	if k > 2 {
		sym.Reach("three")
	}
}

// HarnessNames: any name.
func HarnessNames() {
	n := 1 + sym.Choose("len", 16)
	b := []byte("sixteen--letters")[:n]
	for _, i := range []int{0, n / 2, n - 1} {
		b[i] = sym.Byte("byte")
		sym.Assume(sym.And(b[i] >= ' ', b[i] < 0x7f, b[i] != '/'))
	}
	sym.Assume(b[0] != ' ' && b[n-1] != ' ')
	name := string(b)
	sym.Assume(name != "." && name != "..")
	f := lib.File(name, 0o600, []byte{sym.Byte("data")})
	f.MTime = time.Unix(1, 0)
	fsys, _ := create(&lib.Src{Root: lib.Dir(".", 0o755, f)})
	l, err := fsys.ReadDir(".")
	sym.Assert(err == nil && len(l) == 1 && l[0].Name() == name, "name")
	h, err := fsys.Open(name)
	sym.Assert(err == nil, "open")
	c, err := lib.ReadAll(h, 4, 8)
	sym.Assert(err == nil && sym.EqBytes(c, f.Data), "content")
	sym.Reach("read")
}

// HarnessSizes: sizes with any number of digits that are feasible to copy.
func HarnessSizes() {
	size := []int{9, 10, 99, 100, 101, 999, 1000, 33000}[sym.Choose("size", 8)]
	d := make([]byte, size)
	d[0], d[size-1] = sym.Byte("first"), sym.Byte("last")
	f, g := lib.File("a", 0o600, d), lib.File("b", 0o600, []byte{sym.Byte("next")})
	f.MTime, g.MTime = time.Unix(1, 0), time.Unix(1, 0)
	fsys, _ := create(&lib.Src{Root: lib.Dir(".", 0o755, f, g)})
	for _, n := range []*lib.Node{f, g} {
		fi, err := fsys.Stat(n.Nm)
		sym.Assert(err == nil && fi.Size() == int64(len(n.Data)), "size")
		h, err := fsys.Open(n.Nm)
		sym.Assert(err == nil, "open")
		c, err := lib.ReadAll(h, 4096, 40000)
		sym.Assert(err == nil && sym.EqBytes(c, n.Data), "content")
	}
	sym.Reach("read")
}

// HarnessScale: many files and large ones.
func HarnessScale() {
	sym.StepLimit(400000000)
	root := lib.Dir(".", 0o755)
	large := sym.Choose("large", sym.Param("large", 4, 5))
	for i, name := range lib.Sorted(sym.Param("files", 400, 1500), 13) {
		f := lib.File(name, fs.FileMode(0o600+i%64), []byte{byte(i), byte(i >> 8), sym.Byte("any")}[:i%4])
		f.MTime = time.Unix(int64(i), 0)
		if i == 3 {
			f.Data = lib.Blob("data", []int{65537, 70000, 140001, 1<<20 + 1, 1<<22 + 1}[large])
		}
		root.Kids = append(root.Kids, f)
	}
	fsys, _ := create(&lib.Src{Root: root})
	l, err := fsys.ReadDir(".")
	sym.Assert(err == nil && len(l) == len(root.Kids), "number of files")
	for i, n := range root.Kids {
		fi, err := fsys.Stat(n.Nm)
		sym.Assert(err == nil && fi.Size() == n.Size() && fi.Mode() == n.M && fi.ModTime().Unix() == int64(i), "metadata")
		sym.Assert(l[i].Name() == n.Nm, "listing")
		h, err := fsys.Open(n.Nm)
		sym.Assert(err == nil, "open")
		c, err := lib.ReadAll(h, 4096, len(n.Data)+8)
		sym.Assert(err == nil && sym.EqBytes(c, n.Data), "content")
	}
	sym.Reach("done")
}

// HarnessTwo: two archives with the same names.
func HarnessTwo() {
	lib.Two(func(root *lib.Node) fs.FS {
		dst := &lib.Mem{}
		sym.Assert(arfs.Create(dst, &lib.Src{Root: root}) == nil, "create")
		fsys, err := arfs.Open(dst)
		sym.Assert(err == nil, "open")
		return fsys
	}, false, false)
}

func main() {
	sym.Main(sym.Entry{"HarnessMeta", HarnessMeta}, sym.Entry{"HarnessFiles", HarnessFiles}, sym.Entry{"HarnessNames", HarnessNames}, sym.Entry{"HarnessSizes", HarnessSizes},
		sym.Entry{"HarnessScale", HarnessScale}, sym.Entry{"HarnessTwo", HarnessTwo})
}
