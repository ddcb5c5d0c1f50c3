// C11: erofs preserves mode, ownership and time metadata.
package main

import (
	"archive/tar"
	"io/fs"
	"strings"
	"syscall"
	"time"

	"github.com/dpeckett/archivefs/arfs"
	"github.com/dpeckett/archivefs/erofs"
	"github.com/dpeckett/archivefs/memfs"
	"github.com/dpeckett/archivefs/tarfs"

	"verif.local/harness/lib"
	"verif.local/harness/sym"
)

func create(src fs.FS) *erofs.Filesystem {
	dst := &lib.Mem{}
	sym.Assert(erofs.Create(dst, src) == nil, "the tree is accepted")
	fsys, err := erofs.Open(dst)
	sym.Assert(err == nil, "what Create wrote opens")
	return fsys
}

// want is the metadata that an image must report.
type want struct {
	mode     fs.FileMode
	uid, gid uint32
	zero     bool // no modification time
	sec      int64
	nsec     int
}

func check(fi fs.FileInfo, w want, what string) {
	sym.Assert(fi.Mode() == w.mode, "mode of "+what)
	ino, ok := fi.Sys().(*erofs.Inode)
	sym.Assert(ok, "system info of "+what)
	sym.Assert(sym.And(ino.UID() == w.uid, ino.GID() == w.gid), "owner of "+what)
	sym.Assert(fi.Mode() == ino.Mode(), "inode mode of "+what)
	t := fi.ModTime()
	if w.zero {
		sym.Assert(t.IsZero() || t.Equal(time.Unix(0, 0)), "no time of "+what)
		return
	}
	sym.Assert(t.Unix() == w.sec, "seconds of "+what)
	sym.Assert(t.Nanosecond() == w.nsec, "nanoseconds of "+what)
}

// checkAll compares every view of an entry.
func checkAll(fsys *erofs.Filesystem, p string, w want) {
	fi, err := fsys.StatLink(p)
	sym.Assert(err == nil, "StatLink")
	check(fi, w, "StatLink")
	dir := "."
	if i := strings.LastIndexByte(p, '/'); i >= 0 {
		dir = p[:i]
	}
	l, err := fsys.ReadDir(dir)
	sym.Assert(err == nil, "ReadDir")
	found := false
	for _, e := range l {
		if e.Name() == p[strings.LastIndexByte(p, '/')+1:] {
			fi, err = e.Info()
			sym.Assert(err == nil, "Info")
			check(fi, w, "the listed entry")
			found = true
		}
	}
	sym.Assert(found, "entry is listed")
	if w.mode&fs.ModeSymlink != 0 {
		return
	}
	fi, err = fsys.Stat(p)
	sym.Assert(err == nil, "Stat")
	check(fi, w, "Stat")
	f, err := fsys.Open(p)
	sym.Assert(err == nil, "Open")
	fi, err = f.Stat()
	sym.Assert(err == nil, "File.Stat")
	check(fi, w, "the handle")
}

func perm() fs.FileMode {
	m := fs.FileMode(sym.U16("perm") & 0o777)
	for _, b := range []fs.FileMode{fs.ModeSetuid, fs.ModeSetgid, fs.ModeSticky} {
		if sym.Bool("special") {
			m |= b
		}
	}
	return m
}

// entry is any kind of entry, at the root or below.
func entry(m fs.FileMode) (root, n *lib.Node, p string) {
	n = lib.File("name", m, nil)
	switch sym.Choose("type", 5) {
	case 0:
	case 1:
		n.Data = []byte{sym.Byte("data")}
	case 2:
		n.Data = make([]byte, 1200)
		sym.Reach("plain data")
	case 3:
		n.M |= fs.ModeDir
	case 4:
		n.M |= fs.ModeSymlink
		n.Link = "target"
	}
	if sym.Bool("nested") {
		return lib.Dir(".", 0o755, lib.Dir("d", 0o711, n, lib.File("z", 0o600, nil))), n, "d/name"
	}
	return lib.Dir(".", 0o755, lib.File("a", 0o600, []byte("x")), n), n, "name"
}

// HarnessMeta: any mode, owner and time of any kind of entry.
func HarnessMeta() {
	root, n, p := entry(perm())
	w := want{mode: n.M, uid: sym.U32("uid"), gid: sym.U32("gid"), zero: sym.Bool("zero")}
	if !w.zero {
		w.sec = int64(sym.U64("sec"))
		w.nsec = sym.Range("nsec", 0, 999999999)
		// the seconds that time.Time represents
		sym.Assume(sym.And(w.sec > -1<<62, w.sec < 1<<62))
		n.MTime = time.Unix(w.sec, int64(w.nsec))
	}
	switch sym.Choose("source", 3) {
	case 0:
		n.SysV = &tar.Header{Uid: int(w.uid), Gid: int(w.gid)}
	case 1:
		n.SysV = &syscall.Stat_t{Uid: w.uid, Gid: w.gid}
	case 2:
		sym.Assume(w.uid == 0 && w.gid == 0)
		sym.Reach("no owner")
	}
	fsys := create(&lib.Src{Root: root})
	fi, err := fsys.StatLink(p)
	sym.Assert(err == nil, "stat")
	if ino, ok := fi.Sys().(*erofs.Inode); ok && ino.Layout() == erofs.InodeLayoutCompact {
		sym.Reach("compact")
	} else {
		sym.Reach("extended")
	}
	checkAll(fsys, p, w)
}

// HarnessOwner: owners that do not fit are refused, and not changed.
func HarnessOwner() {
	root, n, p := entry(0o640)
	uid, gid := int64(sym.U64("uid")), int64(sym.U64("gid"))
	if sym.Bool("ar") {
		n.SysV = &arfs.Entry{Uid: uid, Gid: gid}
	} else {
		n.SysV = &tar.Header{Uid: int(uid), Gid: int(gid)}
	}
	fits := sym.And(uid >= 0, uid <= 0xffffffff, gid >= 0, gid <= 0xffffffff)
	dst := &lib.Mem{}
	err := erofs.Create(dst, &lib.Src{Root: root})
	if err != nil {
		sym.Assert(!fits, "an owner of 32 bits is accepted")
		sym.Reach("refused")
		return
	}
	sym.Assert(fits, "an owner that does not fit is refused")
	fsys, err := erofs.Open(dst)
	sym.Assert(err == nil, "what Create wrote opens")
	fi, err := fsys.StatLink(p)
	sym.Assert(err == nil, "stat")
	ino, ok := fi.Sys().(*erofs.Inode)
	sym.Assert(ok && int64(ino.UID()) == uid && int64(ino.GID()) == gid, "owner")
	sym.Reach("accepted")
}

// HarnessRoot: the root directory has metadata as well.
func HarnessRoot() {
	root := lib.Dir(".", perm(), lib.File("f", 0o600, nil))
	w := want{mode: root.M, uid: sym.U32("uid"), gid: sym.U32("gid")}
	w.sec, w.nsec = int64(sym.Range("sec", 0, 1<<40)), sym.Range("nsec", 0, 999999999)
	root.MTime = time.Unix(w.sec, int64(w.nsec))
	root.SysV = &tar.Header{Uid: int(w.uid), Gid: int(w.gid)}
	fsys := create(&lib.Src{Root: root})
	fi, err := fsys.Stat(".")
	sym.Assert(err == nil, "stat of the root")
	check(fi, w, "the root")
	f, err := fsys.Open(".")
	sym.Assert(err == nil, "open of the root")
	fi, err = f.Stat()
	sym.Assert(err == nil, "handle of the root")
	check(fi, w, "the handle of the root")
	sym.Reach("done")
}

// HarnessPair: the form of one inode does not affect the others.
func HarnessPair() {
	root := lib.Dir(".", 0o755)
	var ws []want
	for i := 0; i < sym.Param("files", 3, 4); i++ {
		n := lib.File("f"+lib.Dec(i), fs.FileMode(sym.U16("perm")&0o777), make([]byte, []int{0, 5, 1500}[sym.Choose("size", 3)]))
		w := want{mode: n.M, uid: sym.U32("uid"), gid: sym.U32("gid"), zero: true}
		if sym.Bool("time") {
			w.zero, w.sec = false, int64(sym.U32("sec"))
			n.MTime = time.Unix(w.sec, 0)
		}
		n.SysV = &tar.Header{Uid: int(w.uid), Gid: int(w.gid)}
		root.Kids = append(root.Kids, n)
		ws = append(ws, w)
	}
	fsys := create(&lib.Src{Root: root})
	for i, w := range ws {
		fi, err := fsys.Stat("f" + lib.Dec(i))
		sym.Assert(err == nil, "stat")
		check(fi, w, "f"+lib.Dec(i))
		sym.Assert(fi.Size() == int64(len(root.Kids[i].Data)), "size")
	}
	sym.Reach("done")
}

// HarnessImage: another erofs image as the source.
func HarnessImage() {
	root, n, p := entry(perm())
	w := want{mode: n.M, uid: sym.U32("uid"), gid: sym.U32("gid")}
	w.sec, w.nsec = int64(sym.U32("sec")), sym.Range("nsec", 0, 999999999)
	n.MTime = time.Unix(w.sec, int64(w.nsec))
	n.SysV = &tar.Header{Uid: int(w.uid), Gid: int(w.gid)}
	checkAll(create(create(&lib.Src{Root: root})), p, w)
	sym.Reach("done")
}

// HarnessTar: a tar archive as the source.
func HarnessTar() {
	uid, gid, sec := sym.U32("uid")&0o7777777, sym.U32("gid")&0o7777777, sym.U32("sec")
	mode := int64(sym.U16("mode") & 0o7777)
	h := tar.Header{Name: "name", Mode: mode, Uid: int(uid), Gid: int(gid), ModTime: time.Unix(int64(sec), 0)}
	w := want{mode: fs.FileMode(mode & 0o777), uid: uid, gid: gid, sec: int64(sec)}
	h.Typeflag = '0'
	var data []byte
	switch sym.Choose("type", 3) {
	case 0:
		data = []byte("data")
		h.Size = 4
	case 1:
		h.Typeflag, h.Name = '5', "name/"
		w.mode |= fs.ModeDir
	case 2:
		h.Typeflag, h.Linkname = '2', "target"
		w.mode |= fs.ModeSymlink
	}
	for i, b := range []fs.FileMode{fs.ModeSticky, fs.ModeSetgid, fs.ModeSetuid} {
		if mode>>(9+i)&1 != 0 {
			w.mode |= b
		}
	}
	dst := &lib.Mem{}
	tw := tar.NewWriter(dst)
	sym.Assume(tw.WriteHeader(&h) == nil)
	tw.Write(data)
	sym.Assume(tw.Close() == nil)
	src, err := tarfs.Open(dst)
	sym.Assert(err == nil, "tar opens")
	checkAll(create(src), "name", w)
	sym.Reach("done")
}

// HarnessOthers: an in-memory filesystem and an ar archive as the source.
func HarnessOthers() {
	m := fs.FileMode(sym.U16("perm") & 0o777)
	if sym.Bool("ar") {
		dst := &lib.Mem{}
		n := lib.File("name", m, []byte("data"))
		n.MTime = time.Unix(int64(sym.Range("sec", 0, 999999)), 0)
		sym.Assert(arfs.Create(dst, &lib.Src{Root: lib.Dir(".", 0o755, n)}) == nil, "ar accepted")
		src, err := arfs.Open(dst)
		sym.Assert(err == nil, "ar opens")
		fi, err := src.Stat("name")
		sym.Assert(err == nil, "ar stat")
		checkAll(create(src), "name", want{mode: fi.Mode(), sec: fi.ModTime().Unix()})
		sym.Reach("ar")
		return
	}
	src := memfs.New()
	sym.Assert(src.MkdirAll("d", m) == nil, "mkdir")
	sym.Assert(src.WriteFile("name", []byte("data"), m) == nil, "write")
	fsys := create(src)
	for _, p := range []string{"d", "name"} {
		fi, err := fs.Stat(src, p)
		sym.Assert(err == nil, "memfs stat")
		t := fi.ModTime()
		checkAll(fsys, p, want{mode: fi.Mode(), zero: t.IsZero(), sec: t.Unix(), nsec: t.Nanosecond()})
	}
	sym.Reach("memfs")
}

func main() {
	sym.Main(sym.Entry{"HarnessMeta", HarnessMeta}, sym.Entry{"HarnessOwner", HarnessOwner}, sym.Entry{"HarnessRoot", HarnessRoot}, sym.Entry{"HarnessPair", HarnessPair},
		sym.Entry{"HarnessImage", HarnessImage}, sym.Entry{"HarnessTar", HarnessTar}, sym.Entry{"HarnessOthers", HarnessOthers})
}
