// C09: no archive member or path makes the tar filesystem panic or hang.
package main

import (
	"github.com/dpeckett/archivefs/tarfs"

	"verif.local/harness/lib"
	"verif.local/harness/sym"
)

const steps = 3000000

// HarnessPath: any bytes as a path, for a filesystem with every kind of entry.
func HarnessPath() {
	root := lib.Dir(".", 0o755,
		lib.Dir("0", 0o751, lib.Link("0", "../1"), lib.Link("1", "1"), lib.File("2", 0o642, []byte("01"))),
		lib.Link("1", "0"),
		lib.File("2", 0o600, nil)).Join()
	fsys, err := tarfs.Open(&lib.Mem{B: lib.TarOf(root)})
	sym.Assert(err == nil, "the archive opens")
	n := sym.Choose("len", sym.Param("path", 5, 6))
	name := string(sym.Bytes("path", n))
	sym.StepLimit(steps)
	lib.Touch(fsys, name)
	if fi, err := fsys.Stat(name); err == nil && !fi.IsDir() {
		sym.Reach("file")
	}
}

// HarnessMembers: members of any type, with any bytes as name and target.
func HarnessMembers() {
	k := 1 + sym.Choose("members", 2)
	var b []byte
	for i := 0; i < k; i++ {
		id := lib.Dec(i)
		max := sym.Param("name", 2, 3)
		if k == 2 {
			max = 1
		}
		m := lib.TarMember{Mode: "0644", Uid: "0", Gid: "0", Mtime: "0"}
		switch {
		case k == 1:
			m.Type = sym.Byte("type")
			m.Name = string(sym.Bytes("name", sym.Choose("len", max+1)))
		case i == 0:
			m.Type = "0512L"[sym.Choose("kind0", 5)]
			m.Name = string(sym.Bytes("name", 1))
		default:
			m.Type = "0512"[sym.Choose("kind1", 4)]
			m.Name = []string{"a", "a/b"}[sym.Choose("second", 2)]
		}
		m.Link = string(sym.Bytes("link"+id, sym.Choose("linklen"+id, max+1)))
		b = lib.TarAppend(b, m)
	}
	sym.StepLimit(steps)
	fsys, err := tarfs.Open(&lib.Mem{B: lib.TarEnd(b)})
	if err != nil {
		sym.Reach("rejected")
		return
	}
	sym.Reach("opened")
	lib.Explore(fsys, ".", 2)
}

// HarnessType: a member of an unsupported type is rejected.
func HarnessType() {
	typ := sym.Byte("type")
	for _, c := range []byte("\x0001257SgxLK") {
		sym.Assume(typ != c)
	}
	m := lib.TarMember{Name: "x", Mode: "0644", Uid: "0", Gid: "0", Mtime: "0", Type: typ}
	first := sym.Choose("before", 2) == 1
	var b []byte
	if first {
		b = lib.TarAppend(b, lib.TarMember{Name: "d", Mode: "0644", Uid: "0", Gid: "0", Mtime: "0", Type: '5'})
	}
	b = lib.TarAppend(b, m)
	_, err := tarfs.Open(&lib.Mem{B: lib.TarEnd(b)})
	sym.Assert(err != nil, "an unsupported member type is rejected")
	sym.Reach("rejected")
}

// HarnessHeader: arbitrary bytes in the fields of a header.
func HarnessHeader() {
	m := lib.TarMember{Name: "x", Mode: "0644", Uid: "0", Gid: "0", Mtime: "0", Type: "052"[sym.Choose("type", 3)], Link: "y"}
	h := lib.TarHeader(m)
	n := sym.Param("bytes", 3, 4)
	off := []int{100, 108, 124, 124 + 8, 136, 257, 263, 329, 345, 386, 482}[sym.Choose("field", 11)]
	copy(h[off:], sym.Bytes("bytes", n))
	lib.TarSum(h)
	sym.StepLimit(steps)
	fsys, err := tarfs.Open(&lib.Mem{B: lib.TarEnd(h)})
	if err != nil {
		sym.Reach("rejected")
		return
	}
	sym.Reach("opened")
	lib.Explore(fsys, ".", 2)
}

// HarnessExtended: PAX records and GNU long names with arbitrary bytes.
func HarnessExtended() {
	key := []string{"path=", "linkpath=", "size=", "mtime=", "uid=", "GNU.sparse.name=", "GNU.sparse.major=", "GNU.sparse.map=", "hdrcharset=", ""}[sym.Choose("key", 10)]
	n := 1 + sym.Choose("len", sym.Param("value", 2, 3))
	rec := key + string(sym.Bytes("value", n)) + "\n"
	rec = lib.Dec(len(rec)+3) + " " + rec
	if len(rec) < 10 {
		rec = lib.Dec(len(rec)-1) + rec[len(rec)-len(key)-n-2:]
	}
	typ := "xLKg"[sym.Choose("type", 4)]
	if typ == 'L' || typ == 'K' {
		sym.Assume(key == "")
		rec = string(sym.Bytes("name", n))
	}
	b := lib.TarAppend(nil, lib.TarMember{Name: "ext", Mode: "0644", Uid: "0", Gid: "0", Mtime: "0", Type: typ, Data: []byte(rec)})
	b = lib.TarAppend(b, lib.TarMember{Name: "m", Link: "l", Mode: "0644", Uid: "0", Gid: "0", Mtime: "0", Type: "0521"[sym.Choose("kind", 4)]})
	b = lib.TarAppend(b, lib.TarMember{Name: "l", Mode: "0644", Uid: "0", Gid: "0", Mtime: "0", Type: '0', Data: []byte{7}})
	sym.StepLimit(steps)
	fsys, err := tarfs.Open(&lib.Mem{B: lib.TarEnd(b)})
	if err != nil {
		sym.Reach("rejected")
		return
	}
	sym.Reach("opened")
	lib.Explore(fsys, ".", 2)
}

// HarnessTruncated: an archive cut off anywhere.
func HarnessTruncated() {
	size := []int{0, 1, 512, 600}[sym.Choose("size", 4)]
	d := make([]byte, size)
	if size > 0 {
		d[size-1] = sym.Byte("last")
	}
	b := lib.TarAppend(nil, lib.TarMember{Name: "a", Mode: "0644", Uid: "0", Gid: "0", Mtime: "0", Type: '0', Data: d})
	one := len(b)
	if sym.Choose("members", 2) == 1 {
		b = lib.TarAppend(b, lib.TarMember{Name: "d/b", Mode: "0644", Uid: "0", Gid: "0", Mtime: "0", Type: '0', Data: d})
	}
	total := len(b)
	b = lib.TarEnd(b)
	step := sym.Param("step", 16, 4)
	cut := sym.Choose("cut", total/step+1) * step
	cut += sym.Choose("off", 2)
	sym.Assume(cut < total)
	sym.StepLimit(steps)
	fsys, err := tarfs.Open(&lib.Mem{B: b[:cut], EOFWithLast: sym.Choose("eof", 2) == 1})
	if err != nil {
		sym.Reach("rejected")
		return
	}
	// only the padding of the last member may be missing
	ok := cut == 0 || cut >= 512+size && cut <= one || cut >= one+512+size
	sym.Assert(ok, "a truncated archive is rejected")
	sym.Reach("padding")
	lib.Explore(fsys, ".", 2)
}

// HarnessHuge: a header may claim any size.
func HarnessHuge() {
	digits := sym.String("size", 11, "01234567")
	data := make([]byte, 512*sym.Choose("blocks", 3))
	// somewhat larger than what there is, or much larger
	size := lib.Num(digits, 8)
	sym.Assume(size > int64(len(data)) && (size <= int64(len(data))+int64(sym.Param("near", 40, 600)) || size > 70000))
	b := append(lib.TarHeader(lib.TarMember{Name: "a", Mode: "0644", Uid: "0", Gid: "0", Mtime: "0", Type: '0', Size: digits}), data...)
	sym.StepLimit(steps)
	_, err := tarfs.Open(&lib.Mem{B: b, EOFWithLast: sym.Choose("eof", 2) == 1})
	sym.Assert(err != nil, "a member that is larger than the archive is rejected")
	sym.Reach("rejected")
}

// sparse is an archive with a file whose holes are described by the given text.
func sparse(form int, m lib.TarMember, off, n [2]string, size string) []byte {
	var b []byte
	switch form {
	case 0:
		m.Type = 'S'
		h := lib.TarHeader(m)
		copy(h[257:], "ustar  \x00")
		for i := range off {
			copy(h[386+i*24:], off[i])
			copy(h[398+i*24:], n[i])
		}
		copy(h[483:495], size)
		lib.TarSum(h)
		b = append(append(b, h...), m.Data...)
		b = append(b, make([]byte, (512-len(m.Data)%512)%512)...)
	case 1:
		b = lib.TarPax(b, "GNU.sparse.name=s", "GNU.sparse.size="+size, "GNU.sparse.numblocks=2", "GNU.sparse.map="+off[0]+","+n[0]+","+off[1]+","+n[1])
		b = lib.TarAppend(b, m)
	case 2:
		b = lib.TarPax(b, "GNU.sparse.major=1", "GNU.sparse.minor=0", "GNU.sparse.name=s", "GNU.sparse.realsize="+size)
		l := "2\n" + off[0] + "\n" + n[0] + "\n" + off[1] + "\n" + n[1] + "\n"
		m.Data = append(append([]byte(l), make([]byte, 512-len(l))...), m.Data...)
		b = lib.TarAppend(b, m)
	}
	return lib.TarEnd(b)
}

// HarnessSparse: files that are stored with holes in any places.
func HarnessSparse() {
	form := sym.Choose("form", 3)
	var off, n [2]string
	arbitrary := sym.Choose("arbitrary", 6)
	for i := range off {
		off[i], n[i] = lib.Dec(i*4), lib.Dec(3-i)
	}
	size := "7"
	any := string(sym.Bytes("field", sym.Choose("len", sym.Param("field", 3, 4))))
	switch arbitrary {
	case 0, 1:
		off[arbitrary] = any
	case 2, 3:
		n[arbitrary-2] = any
	case 4:
		size = any
	case 5: // any digits
		for i := range off {
			off[i], n[i] = sym.String("offset", 1, "01234567"), sym.String("length", 1, "01234567")
		}
		size = sym.String("size", 1, "01234567")
		sym.Assume(any == "")
	}
	m := lib.TarMember{Name: "s", Mode: "0644", Uid: "0", Gid: "0", Mtime: "0", Type: '0', Data: []byte("12345")}
	b := sparse(form, m, off, n, size)
	sym.StepLimit(steps)
	fsys, err := tarfs.Open(&lib.Mem{B: b, EOFWithLast: true})
	if err != nil {
		sym.Reach("rejected")
		return
	}
	sym.Reach("opened")
	lib.Explore(fsys, ".", 1)
}

// HarnessHole: a short archive with a hole of 2^56 or 2^63 bytes.
func HarnessHole() {
	form := sym.Choose("form", 3)
	size := ""
	if form == 0 {
		size = "\x80\x00\x00\x00" + []string{"\x01\x00\x00\x00\x00\x00\x00\x03", "\x7f\xff\xff\xff\xff\xff\xff\xff"}[sym.Choose("size", 2)]
	} else {
		size = []string{"72057594037927939", "9223372036854775807"}[sym.Choose("size", 2)]
	}
	m := lib.TarMember{Name: "s", Mode: "0644", Uid: "0", Gid: "0", Mtime: "0", Type: '0', Data: []byte("123")}
	b := sparse(form, m, [2]string{"0", "3"}, [2]string{"3", "0"}, size)
	sym.StepLimitKnown(300000, "KF-tar-hole")
	fsys, err := tarfs.Open(&lib.Mem{B: b})
	if err != nil {
		return
	}
	sym.StepLimit(steps)
	lib.Touch(fsys, "s")
}

// HarnessBomb: links that expand to many components.
func HarnessBomb() {
	var b []byte
	add := func(name string, typ byte, link string) {
		b = lib.TarAppend(b, lib.TarMember{Name: name, Mode: "0755", Uid: "0", Gid: "0", Mtime: "0", Type: typ, Link: link})
	}
	add("d/", '5', "")
	add("d/e", '2', "../c00")
	if sym.Choose("shape", 2) == 0 {
		// two links of forty parts, which may be themselves
		c := sym.String("parts", 2, "abd.")
		var t []byte
		for i := 0; i < 40; i++ {
			t = append(t, c[i%2], '/')
		}
		add("a", '2', string(t))
		add("b", '2', string(t))
	} else {
		// every link goes through the next one twice
		between := []string{"/../", "/./../", "/e/../", "/../d/../"}[sym.Choose("between", 4)]
		start := []string{"", "/", "d/../"}[sym.Choose("start", 3)]
		add("a", '2', "c00")
		for i := 0; i < 40; i++ {
			next := "c" + lib.Dec((i+1)/10) + lib.Dec((i+1)%10)
			if i == 39 {
				next = "d"
			}
			add("c"+lib.Dec(i/10)+lib.Dec(i%10), '2', start+next+between+next)
		}
	}
	sym.StepLimit(40 * steps)
	fsys, err := tarfs.Open(&lib.Mem{B: lib.TarEnd(b)})
	sym.Assert(err == nil, "the archive opens")
	if _, err := fsys.Stat("a"); err == nil {
		sym.Reach("found")
	} else {
		sym.Reach("not found")
	}
}

func main() {
	sym.Main(sym.Entry{"HarnessPath", HarnessPath}, sym.Entry{"HarnessMembers", HarnessMembers}, sym.Entry{"HarnessType", HarnessType},
		sym.Entry{"HarnessHeader", HarnessHeader}, sym.Entry{"HarnessExtended", HarnessExtended}, sym.Entry{"HarnessTruncated", HarnessTruncated}, sym.Entry{"HarnessHuge", HarnessHuge},
		sym.Entry{"HarnessSparse", HarnessSparse}, sym.Entry{"HarnessHole", HarnessHole}, sym.Entry{"HarnessBomb", HarnessBomb})
}
