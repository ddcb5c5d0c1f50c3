// C03: ar Create refuses what it cannot represent.
package main

import (
	"archive/tar"
	"io/fs"
	"time"

	"github.com/dpeckett/archivefs/arfs"

	"verif.local/harness/lib"
	"verif.local/harness/sym"
)

// same asserts that the archive reads back as the one file n.
func same(b *lib.Mem, n *lib.Node, uid, gid int64) {
	fsys, err := arfs.Open(b)
	sym.Assert(err == nil, "an archive that Create reported as written opens")
	l, err := fsys.ReadDir(".")
	sym.Assert(err == nil && len(l) == 1, "number of files")
	sym.Assert(l[0].Name() == n.Nm, "name")
	fi, err := l[0].Info()
	sym.Assert(err == nil && fi.Mode() == n.M, "mode")
	sym.Assert(fi.ModTime().Unix() == n.MTime.Unix(), "time")
	e := fi.Sys().(*arfs.Entry)
	sym.Assert(sym.And(e.Uid == uid, e.Gid == gid), "owner")
	sym.Assert(fi.Size() == int64(len(n.Data)), "size")
	h, err := fsys.Open(n.Nm)
	sym.Assert(err == nil, "open")
	c, err := lib.ReadAll(h, 8, 64)
	sym.Assert(err == nil && sym.EqBytes(c, n.Data), "content")
}

func node() *lib.Node {
	n := lib.File("name", 0o644, []byte{1, sym.Byte("data")})
	n.MTime = time.Unix(1, 0)
	n.SysV = &tar.Header{}
	return n
}

// HarnessTypes: any file mode.
func HarnessTypes() {
	n := node()
	n.M = fs.FileMode(sym.U32("mode"))
	types := n.M & fs.ModeType
	rest := n.M &^ (fs.ModeType | 0o777 | fs.ModeSetuid | fs.ModeSetgid | fs.ModeSticky)
	sym.Assume(rest == 0)
	dst := &lib.Mem{}
	err := arfs.Create(dst, &lib.Src{Root: lib.Dir(".", 0o755, n)})
	if err == nil {
		sym.Assert(types == 0, "only regular files are accepted")
		same(dst, n, 0, 0)
		sym.Reach("accepted")
		return
	}
	sym.Assert(types != 0, "a regular file is accepted")
	sym.Reach("refused")
}

// HarnessNames: any name of up to 18 bytes.
func HarnessNames() {
	n := node()
	k := sym.Choose("len", 19)
	b := []byte("eighteen---letters")[:k]
	for i := 0; i < k; i++ {
		if i < 2 || i >= k-sym.Param("tail", 1, 2) {
			b[i] = sym.Byte("byte")
		}
	}
	n.Nm = string(b)
	dst := &lib.Mem{}
	err := arfs.Create(dst, &lib.Src{Root: lib.Dir(".", 0o755, n)})
	if err == nil {
		sym.Assert(k <= 16, "a name of more than 16 bytes is refused")
		same(dst, n, 0, 0)
		sym.Reach("accepted")
		return
	}
	sym.Reach("refused")
	if k > 16 {
		sym.Reach("too long")
	}
}

// HarnessNumbers: any owner, group and time.
func HarnessNumbers() {
	n := node()
	var uid, gid int64
	switch sym.Choose("field", 4) {
	case 0:
		uid = int64(sym.U64("uid"))
	case 1:
		gid = int64(sym.U64("gid"))
	case 2:
		n.MTime = time.Unix(int64(sym.U64("mtime"))>>2, 0)
	case 3:
		n.MTime = time.Time{}
	}
	if sym.Choose("owner", 2) == 0 {
		n.SysV = &tar.Header{Uid: int(uid), Gid: int(gid)}
	} else {
		n.SysV = &arfs.Entry{Uid: uid, Gid: gid}
	}
	dst := &lib.Mem{}
	err := arfs.Create(dst, &lib.Src{Root: lib.Dir(".", 0o755, n)})
	fits := sym.And(uid >= -99999, uid <= 999999, gid >= -99999, gid <= 999999, n.MTime.Unix() >= -99999999999, n.MTime.Unix() <= 999999999999)
	if err == nil {
		sym.Assert(fits, "a number that does not fit its column is refused")
		same(dst, n, uid, gid)
		sym.Reach("accepted")
		return
	}
	sym.Assert(!fits, "a number that fits its column is accepted")
	sym.Reach("refused")
}

// HarnessSizes: any reported size.
func HarnessSizes() {
	n := node()
	n.HasRep = true
	n.Rep = int64(sym.U64("size"))
	dst := &lib.Mem{}
	err := arfs.Create(dst, &lib.Src{Root: lib.Dir(".", 0o755, n)})
	if err == nil {
		same(dst, n, 0, 0)
		sym.Reach("accepted")
		return
	}
	sym.Assert(n.Rep != 2, "the right size is accepted")
	sym.Reach("refused")
}

// HarnessAmong: an entry that cannot be represented among others.
func HarnessAmong() {
	kids := []*lib.Node{lib.File("a", 0o644, []byte{1}), lib.File("b", 0o644, nil), lib.File("c", 0o644, []byte{2, 3})}
	for _, k := range kids {
		k.MTime = time.Unix(1, 0)
	}
	bad := sym.Choose("bad", 3)
	switch sym.Choose("how", 4) {
	case 0:
		kids[bad] = lib.Dir(kids[bad].Nm, 0o755, lib.File("x", 0o644, nil))
	case 1:
		kids[bad] = lib.Link(kids[bad].Nm, "a")
	case 2:
		kids[bad].M |= fs.ModeNamedPipe
	case 3:
		kids[bad].SysV = &tar.Header{Uid: sym.Range("uid", 1000000, 1<<40)}
	}
	err := arfs.Create(&lib.Mem{}, &lib.Src{Root: lib.Dir(".", 0o755, kids...)})
	sym.Assert(err != nil, "an entry that cannot be represented is refused")
	sym.Reach("refused")
}

func main() {
	sym.Main(sym.Entry{"HarnessTypes", HarnessTypes}, sym.Entry{"HarnessNames", HarnessNames}, sym.Entry{"HarnessNumbers", HarnessNumbers},
		sym.Entry{"HarnessSizes", HarnessSizes}, sym.Entry{"HarnessAmong", HarnessAmong})
}
