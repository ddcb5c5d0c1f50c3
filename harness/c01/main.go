// C01: reading an ar archive yields exactly its members.
package main

import (
	"io/fs"

	"github.com/dpeckett/archivefs/arfs"

	"verif.local/harness/lib"
	"verif.local/harness/sym"
)

// unixMode is the fs.FileMode of a Unix mode word.
func unixMode(m int64) fs.FileMode {
	r := fs.FileMode(m & 0o777)
	if m&0o4000 != 0 {
		r |= fs.ModeSetuid
	}
	if m&0o2000 != 0 {
		r |= fs.ModeSetgid
	}
	if m&0o1000 != 0 {
		r |= fs.ModeSticky
	}
	switch m & 0o170000 {
	case 0o040000:
		r |= fs.ModeDir
	case 0o120000:
		r |= fs.ModeSymlink
	case 0o140000:
		r |= fs.ModeSocket
	case 0o010000:
		r |= fs.ModeNamedPipe
	case 0o060000:
		r |= fs.ModeDevice
	case 0o020000:
		r |= fs.ModeDevice | fs.ModeCharDevice
	}
	return r
}

// HarnessFields: every numeric header field, with any digits.
func HarnessFields() {
	m := lib.ArMember{Name: "f", Mtime: "7", Uid: "8", Gid: "9", Mode: "100644", Size: "0"}
	digits := func(max int) string {
		// left-aligned or right-aligned digits, or blank
		n := sym.Choose("len", max+1)
		return sym.String("digits", n, "0123456789")
	}
	which := sym.Choose("field", 5)
	switch which {
	case 0:
		m.Mtime = digits(12)
	case 1:
		m.Uid = digits(6)
	case 2:
		m.Gid = digits(6)
	case 3:
		m.Size = digits(10)
	case 4:
		n := 1 + sym.Choose("len", sym.Param("modeDigits", 6, 8))
		m.Mode = sym.String("digits", n, "01234567")
		// the type field is a type Unix knows (or none)
		t := lib.Num(m.Mode, 8) &^ 0o7777
		sym.Assume(sym.Or(t == 0, t == 0o100000, t == 0o40000, t == 0o120000, t == 0o140000, t == 0o10000, t == 0o60000, t == 0o20000))
	}
	size := lib.Num(m.Size, 10)
	data := &lib.Dev{Segs: []lib.Seg{{Off: 0, Data: []byte(lib.ArMagic)}, {Off: 8, Data: lib.ArHeader(m)}}, Total: 68 + size + size%2}
	fsys, err := arfs.Open(data)
	sym.Assert(err == nil, "a well-formed archive opens")
	fi, err := fsys.Stat("f")
	sym.Assert(err == nil, "the member can be statted")
	e, ok := fi.Sys().(*arfs.Entry)
	sym.Assert(ok, "Sys is the entry")
	sym.Assert(fi.Name() == "f", "name")
	sym.Assert(fi.Size() == size, "size")
	sym.Assert(fi.ModTime().Unix() == lib.Num(m.Mtime, 10), "mtime")
	sym.Assert(e.Uid == lib.Num(m.Uid, 10), "uid")
	sym.Assert(e.Gid == lib.Num(m.Gid, 10), "gid")
	sym.Assert(fi.Mode() == unixMode(lib.Num(m.Mode, 8)), "mode")
	if which == 4 {
		sym.Reach("mode")
	}
	if which == 3 && size > 1000000000 {
		sym.Reach("bigsize")
	}
	l, err := fsys.ReadDir(".")
	sym.Assert(err == nil && len(l) == 1 && l[0].Name() == "f", "listing")
}

// HarnessNames: any member name of up to 16 bytes.
func HarnessNames() {
	n := 1 + sym.Choose("len", 16)
	mid := "x-sixteen-bytes!"[:n]
	b := []byte(mid)
	// the ends of the name are where trimming happens
	b[0] = sym.Byte("first")
	b[n-1] = sym.Byte("last")
	if n > 2 {
		b[1] = sym.Byte("second")
	}
	name := string(b)
	for _, c := range b {
		sym.Assume(sym.And(c > ' ', c < 0x7f, c != '/'))
	}
	sym.Assume(name != "." && name != "..")
	m := lib.ArMember{Name: name, Mtime: "1", Uid: "0", Gid: "0", Mode: "644", Size: "1"}
	data := &lib.Mem{B: append(append([]byte(lib.ArMagic), lib.ArHeader(m)...), 'D', '\n')}
	fsys, err := arfs.Open(data)
	sym.Assert(err == nil, "a well-formed archive opens")
	l, err := fsys.ReadDir(".")
	sym.Assert(err == nil && len(l) == 1, "one entry")
	sym.Assert(l[0].Name() == name, "the name is kept")
	f, err := fsys.Open(name)
	sym.Assert(err == nil, "opens by its name")
	c, err := lib.ReadAll(f, 4, 16)
	sym.Assert(err == nil && string(c) == "D", "content")
	sym.Reach("read")
}

// HarnessLayout: members of any size, found at the offsets their sizes imply.
func HarnessLayout() {
	k := sym.Param("members", 2, 3)
	names := []string{"m1", "m0", "m2"}[:k]
	d := &lib.Dev{Segs: []lib.Seg{{Off: 0, Data: []byte(lib.ArMagic)}}}
	off := int64(8)
	var begin, sizes []int64
	for i := 0; i < k; i++ {
		digits := sym.String("size"+lib.Dec(i), 10, "0123456789")
		if i == k-1 {
			sym.Assume(sym.EqString(digits[:6], "000000"))
		}
		size := lib.Num(digits, 10)
		m := lib.ArMember{Name: names[i], Mtime: lib.Dec(i), Uid: "0", Gid: "0", Mode: "644", Size: digits}
		d.Segs = append(d.Segs, lib.Seg{Off: off, Data: lib.ArHeader(m)})
		begin = append(begin, off+60)
		sizes = append(sizes, size)
		mark := []byte{sym.Byte("mark" + lib.Dec(i)), 1, 2, 3}
		sym.Assume(size >= 4)
		d.Segs = append(d.Segs, lib.Seg{Off: off + 60, Data: mark})
		off += 60 + size + size%2
	}
	d.Total = off
	fsys, err := arfs.Open(d)
	sym.Assert(err == nil, "a well-formed archive opens")
	l, err := fsys.ReadDir(".")
	sym.Assert(err == nil && len(l) == k, "number of entries")
	for i := 1; i < len(l); i++ {
		sym.Assert(l[i-1].Name() < l[i].Name(), "sorted listing")
	}
	for i := 0; i < k; i++ {
		fi, err := fsys.Stat(names[i])
		sym.Assert(err == nil, "stat")
		sym.Assert(fi.Size() == sizes[i], "size")
		sym.Assert(fi.ModTime().Unix() == int64(i), "metadata belongs to the member")
		f, err := fsys.Open(names[i])
		sym.Assert(err == nil, "open")
		b := make([]byte, 4)
		n, err := f.Read(b)
		sym.Assert(n == 4 && (err == nil), "read")
		sym.Assert(sym.EqBytes(b, d.Segs[2+2*i].Data), "content starts right behind the header")
	}
	if sizes[0]%2 == 1 {
		sym.Reach("odd")
	} else {
		sym.Reach("even")
	}
}

// HarnessContent: small members, read back whole, with duplicate names.
func HarnessContent() {
	k := 1 + sym.Choose("members", sym.Param("members", 3, 3))
	buf := 1 + sym.Choose("buf", sym.Param("buf", 2, 3))*2
	b := []byte(lib.ArMagic)
	var names []string
	var contents [][]byte
	for i := 0; i < k; i++ {
		name := "ab.c"[sym.Choose("name"+lib.Dec(i), 2)*2:][:2]
		size := sym.Choose("size"+lib.Dec(i), sym.Param("sizes", 4, 5))
		c := sym.Bytes("data"+lib.Dec(i), size)
		m := lib.ArMember{Name: name, Mtime: "", Uid: "", Gid: "", Mode: "644", Size: lib.Dec(size)}
		if size == 0 {
			m.Size = ""
		}
		b = append(b, lib.ArHeader(m)...)
		b = append(b, c...)
		if size%2 == 1 {
			b = append(b, '\n')
		}
		names = append(names, name)
		contents = append(contents, c)
	}
	if k == 1 && len(contents[0])%2 == 1 && sym.Choose("pad", 2) == 1 {
		b = b[:len(b)-1] // the padding of the last member may be missing
		sym.Reach("nopad")
	}
	fsys, err := arfs.Open(&lib.Mem{B: b, EOFWithLast: sym.Choose("eof", 2) == 1})
	sym.Assert(err == nil, "a well-formed archive opens")
	distinct := 0
	for i := 0; i < k; i++ {
		last := true
		for j := i + 1; j < k; j++ {
			if names[j] == names[i] {
				last = false
				sym.Reach("duplicate")
			}
		}
		if !last {
			continue
		}
		distinct++
		fi, err := fsys.Stat(names[i])
		sym.Assert(err == nil && fi.Size() == int64(len(contents[i])), "size")
		sym.Assert(fi.ModTime().Unix() == 0 && fi.Sys().(*arfs.Entry).Uid == 0, "blank fields are zero")
		f, err := fsys.Open(names[i])
		sym.Assert(err == nil, "open")
		c, err := lib.ReadAll(f, buf, 64)
		sym.Assert(err == nil && sym.EqBytes(c, contents[i]), "content")
		sym.Assert(f.Close() == nil, "close")
	}
	l, err := fsys.ReadDir(".")
	sym.Assert(err == nil && len(l) == distinct, "number of entries")
	for i := 1; i < len(l); i++ {
		sym.Assert(l[i-1].Name() < l[i].Name(), "sorted listing")
	}
	sym.Reach("done")
}

// HarnessScale: many members and large ones.
func HarnessScale() {
	sym.StepLimit(400000000)
	b := []byte(lib.ArMagic)
	names := lib.Sorted(sym.Param("members", 400, 1500), 9)
	var contents [][]byte
	large := sym.Choose("large", sym.Param("large", 4, 5))
	for i, name := range names {
		c := []byte{byte(i), byte(i >> 8), sym.Byte("any")}[:i%4]
		if i == 7 {
			c = lib.Blob("data", []int{40001, 65536, 70001, 1<<20 + 1, 1<<22 + 1}[large])
		}
		contents = append(contents, c)
		b = append(b, lib.ArHeader(lib.ArMember{Name: name, Mtime: lib.Dec(i), Uid: lib.Dec(i % 10), Gid: "0", Mode: "100644", Size: lib.Dec(len(c))})...)
		b = append(b, c...)
		if len(c)%2 == 1 {
			b = append(b, '\n')
		}
	}
	fsys, err := arfs.Open(&lib.Mem{B: b})
	sym.Assert(err == nil, "a well-formed archive opens")
	l, err := fsys.ReadDir(".")
	sym.Assert(err == nil && len(l) == len(names), "number of entries")
	for i, name := range names {
		sym.Assert(l[i].Name() == name, "sorted listing")
		fi, err := fsys.Stat(name)
		sym.Assert(err == nil && fi.Size() == int64(len(contents[i])) && fi.ModTime().Unix() == int64(i), "metadata belongs to the member")
		f, err := fsys.Open(name)
		sym.Assert(err == nil, "open")
		c, err := lib.ReadAll(f, 4096, len(contents[i])+8)
		sym.Assert(err == nil && sym.EqBytes(c, contents[i]), "content")
	}
	sym.Reach("done")
}

// HarnessSpellings: names with blanks, a trailing slash (as GNU ar writes them)
// or a leading dot-slash are those they clean up to.
func HarnessSpellings() {
	name := sym.String("name", 1+sym.Choose("len", 4), "ab.-_")
	sym.Assume(name != "." && name != "..")
	stored := []string{"", " ", "./", "/", ".//"}[sym.Choose("before", 5)] + name + []string{"", "/", "/.", "//"}[sym.Choose("after", 4)]
	m := lib.ArMember{Name: stored, Mtime: "1", Uid: "0", Gid: "0", Mode: "644", Size: "1"}
	b := append(append([]byte(lib.ArMagic), lib.ArHeader(m)...), sym.Byte("data"), '\n')
	fsys, err := arfs.Open(&lib.Mem{B: b})
	sym.Assert(err == nil, "the archive opens")
	l, err := fsys.ReadDir(".")
	sym.Assert(err == nil && len(l) == 1, "one entry")
	sym.Assert(l[0].Name() == name, "the cleaned name")
	f, err := fsys.Open(name)
	sym.Assert(err == nil, "opens by its name")
	c, err := lib.ReadAll(f, 4, 16)
	sym.Assert(err == nil && sym.EqBytes(c, b[68:69]), "content")
	sym.Reach("read")
}

// HarnessTwo: two archives with the same names.
func HarnessTwo() {
	lib.Two(func(root *lib.Node) fs.FS {
		b := []byte(lib.ArMagic)
		for _, k := range root.Kids {
			b = append(b, lib.ArHeader(lib.ArMember{Name: k.Nm, Mtime: "1", Uid: "2", Gid: "3", Mode: lib.Oct(int64(k.M.Perm())), Size: lib.Dec(len(k.Data))})...)
			b = append(b, k.Data...)
			if len(k.Data)%2 == 1 {
				b = append(b, '\n')
			}
		}
		fsys, err := arfs.Open(&lib.Mem{B: b})
		sym.Assert(err == nil, "a well-formed archive opens")
		return fsys
	}, false, false)
}

func main() {
	sym.Main(sym.Entry{"HarnessFields", HarnessFields}, sym.Entry{"HarnessNames", HarnessNames},
		sym.Entry{"HarnessLayout", HarnessLayout}, sym.Entry{"HarnessContent", HarnessContent},
		sym.Entry{"HarnessScale", HarnessScale}, sym.Entry{"HarnessSpellings", HarnessSpellings}, sym.Entry{"HarnessTwo", HarnessTwo})
}
