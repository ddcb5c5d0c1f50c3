// C05: a tar filesystem shows exactly the archive's tree.
package main

import (
	"archive/tar"
	"io/fs"
	"strings"

	"github.com/dpeckett/archivefs/tarfs"

	"verif.local/harness/lib"
	"verif.local/harness/sym"
)

func mode(octal int64, typ byte) fs.FileMode {
	m := fs.FileMode(octal & 0o777)
	if octal&0o4000 != 0 {
		m |= fs.ModeSetuid
	}
	if octal&0o2000 != 0 {
		m |= fs.ModeSetgid
	}
	if octal&0o1000 != 0 {
		m |= fs.ModeSticky
	}
	switch typ {
	case '5':
		m |= fs.ModeDir
	case '2':
		m |= fs.ModeSymlink
	}
	return m
}

func octal(name string, n int) string { return sym.String(name, n, "01234567") }

// HarnessFields: any mode, owner and time, for every type of member.
func HarnessFields() {
	typ := "0025"[sym.Choose("type", 4)]
	m := lib.TarMember{Name: "d/x", Type: typ, Mode: octal("mode", 4), Uid: octal("uid", 7), Gid: octal("gid", 7), Mtime: octal("mtime", 11)}
	switch typ {
	case '0':
		m.Data = sym.Bytes("data", sym.Choose("size", 4))
		if sym.Choose("v7", 2) == 1 {
			m.Old = true
			m.Type = 0
		}
	case '2':
		m.Link = "t"
	}
	b := lib.TarEnd(lib.TarAppend(nil, m))
	fsys, err := tarfs.Open(&lib.Mem{B: b})
	sym.Assert(err == nil, "a well-formed archive opens")
	fi, err := fsys.StatLink("d/x")
	sym.Assert(err == nil, "the member can be statted")
	sym.Assert(fi.Name() == "x", "name")
	sym.Assert(fi.Mode() == mode(lib.Num(m.Mode, 8), typ), "mode")
	sym.Assert(fi.ModTime().Unix() == lib.Num(m.Mtime, 8), "mtime")
	sym.Assert(fi.Size() == int64(len(m.Data)), "size")
	h, ok := fi.Sys().(*tar.Header)
	sym.Assert(ok, "Sys is the header")
	sym.Assert(sym.And(h.Uid == int(lib.Num(m.Uid, 8)), h.Gid == int(lib.Num(m.Gid, 8))), "owner")
	sym.Reach(string(typ))
	l, err := fsys.ReadDir("d")
	sym.Assert(err == nil && len(l) == 1 && l[0].Name() == "x", "listing")
	li, err := l[0].Info()
	sym.Assert(err == nil && li.Mode() == fi.Mode() && li.Size() == fi.Size(), "entry information")
	sym.Assert(l[0].Type() == fi.Mode().Type(), "entry type")
	di, err := fsys.Stat("d")
	sym.Assert(err == nil && di.Mode() == fs.ModeDir|0o755, "implied directory")
}

// HarnessNames: a member of any name.
func HarnessNames() {
	n := 1 + sym.Choose("len", sym.Param("name", 5, 6))
	name := sym.String("name", n, "./ab")
	typ := "05"[sym.Choose("type", 2)]
	root := lib.Dir(".", 0o755)
	cur := root
	comps := lib.Clean(name)
	m := lib.TarMember{Name: name, Type: typ, Mode: "0640", Uid: "1", Gid: "2", Mtime: "3"}
	if typ == '0' {
		m.Data = []byte{sym.Byte("data")}
	}
	for i, c := range comps {
		k := lib.Dir(c, 0o755)
		if i == len(comps)-1 {
			k.M = mode(0o640, typ)
			k.Data = m.Data
			sym.Reach("depth" + lib.Dec(len(comps)))
		}
		cur.Kids = append(cur.Kids, k)
		cur = k
	}
	fsys, err := tarfs.Open(&lib.Mem{B: lib.TarEnd(lib.TarAppend(nil, m))})
	sym.Assert(err == nil, "a well-formed archive opens")
	lib.SameTree(fsys, root, ".", func(n *lib.Node, p string, fi fs.FileInfo) {
		sym.Assert(fi.Mode() == n.M, "mode of "+p)
	})
}

type want struct {
	typ     byte
	mode    int64
	data    []byte
	link    string
	implied bool
}

// HarnessOrder: members in any order, with implied and explicit directories and
// repeated paths.
func HarnessOrder() {
	paths := []string{"a", "a/b", "a/b/c", "a/.h", ".d/x", "a/b/d"}
	k := 2 + sym.Choose("members", sym.Param("members", 2, 3))
	model := map[string]want{}
	var b []byte
	for i := 0; i < k; i++ {
		id := lib.Dec(i)
		p := paths[sym.Choose("path"+id, sym.Param("paths", 5, 6))]
		typ := "052"[sym.Choose("type"+id, 3)]
		m := lib.TarMember{Name: p, Type: typ, Mode: octal("mode"+id, 3), Uid: "1", Gid: "2", Mtime: "3"}
		switch typ {
		case '0':
			m.Data = sym.Bytes("data"+id, 1+i)
		case '2':
			m.Link = "t" + id
		case '5':
			m.Name += "/"
		}
		b = lib.TarAppend(b, m)
		old, seen := model[p]
		if seen && !old.implied {
			sym.Reach("duplicate")
		}
		if seen && old.implied {
			sym.Reach("explicit after implied")
		}
		// nothing is both a directory and something else
		sym.Assume(!seen || (old.typ == '5') == (typ == '5'))
		model[p] = want{typ, lib.Num(m.Mode, 8), m.Data, m.Link, false}
		for j := range p {
			if p[j] != '/' {
				continue
			}
			d := p[:j]
			w, ok := model[d]
			sym.Assume(!ok || w.typ == '5')
			if !ok {
				model[d] = want{'5', 0o755, nil, "", true}
			}
		}
	}
	root := build(model, "")
	fsys, err := tarfs.Open(&lib.Mem{B: lib.TarEnd(b)})
	sym.Assert(err == nil, "a well-formed archive opens")
	lib.SameTree(fsys, root, ".", func(n *lib.Node, p string, fi fs.FileInfo) {
		sym.Assert(fi.Mode() == n.M, "mode of "+p)
	})
	if k > 2 {
		sym.Reach("three")
	}
}

// build is the tree of a model below a directory, in sorted order.
func build(model map[string]want, dir string) *lib.Node {
	d := lib.Dir(".", 0o755)
	for _, name := range []string{".d", ".h", "a", "b", "c", "d", "x"} {
		p := name
		if dir != "" {
			p = dir + "/" + name
		}
		w, ok := model[p]
		if !ok {
			continue
		}
		k := &lib.Node{Nm: name}
		if w.typ == '5' {
			k = build(model, p)
			k.Nm = name
		}
		k.M = mode(w.mode, w.typ)
		k.Data, k.Link = w.data, w.link
		d.Kids = append(d.Kids, k)
	}
	return d
}

// HarnessContent: members of all sizes, read at their place.
func HarnessContent() {
	sizes := []int{0, 1, 511, 512, 513, 1024, 1025, 2048}
	k := 1 + sym.Choose("members", sym.Param("members", 2, 3))
	root := lib.Dir(".", 0o755)
	var b []byte
	for i := 0; i < k; i++ {
		id := lib.Dec(i)
		n := sizes[sym.Choose("size"+id, sym.Param("sizes", 6, 8))]
		d := make([]byte, n)
		if n > 0 {
			d[0], d[n-1] = sym.Byte("first"+id), sym.Byte("last"+id)
		}
		name := "f" + id
		switch sym.Choose("form"+id, 3) {
		case 1: // a GNU long name before the member
			name += strings.Repeat("n", 100)
			b = lib.TarAppend(b, lib.TarMember{Name: "././@LongLink", Type: 'L', Mode: "0", Uid: "0", Gid: "0", Mtime: "0", Data: []byte(name + "\x00")})
			sym.Reach("longname")
		case 2: // a PAX header before the member
			name += strings.Repeat("p", 100)
			rec := "path=" + name + "\n"
			b = lib.TarAppend(b, lib.TarMember{Name: "PaxHeaders.0/x", Type: 'x', Mode: "0", Uid: "0", Gid: "0", Mtime: "0", Data: []byte(lib.Dec(len(rec)+4) + " " + rec)})
			sym.Reach("pax")
		}
		short := name
		if len(short) > 100 {
			short = short[:100]
		}
		b = lib.TarAppend(b, lib.TarMember{Name: short, Type: '0', Mode: "644", Uid: "0", Gid: "0", Mtime: "0", Data: d})
		root.Kids = append(root.Kids, lib.File(name, 0o644, d))
		if sym.Choose("global"+id, 2) == 1 {
			b = lib.TarAppend(b, lib.TarMember{Name: "pax_global_header", Type: 'g', Mode: "0", Uid: "0", Gid: "0", Mtime: "0", Data: []byte("15 comment=abc\n")})
			sym.Reach("global")
		}
	}
	fsys, err := tarfs.Open(&lib.Mem{B: lib.TarEnd(b), EOFWithLast: sym.Choose("eof", 2) == 1})
	sym.Assert(err == nil, "a well-formed archive opens")
	lib.SameTree(fsys, root, ".", nil)
}

// HarnessScale: many members and large ones, in any order, deep in the tree.
func HarnessScale() {
	sym.StepLimit(400000000)
	root := lib.Dir(".", 0o755)
	n := sym.Param("members", 300, 1000)
	deep := lib.File("file", 0o644, lib.Blob("data", []int{40001, 65536, 70001, 1<<20 + 1, 1<<22 + 1}[sym.Choose("large", sym.Param("large", 4, 5))]))
	for i := 0; i < 45; i++ {
		deep = lib.Dir("d", 0o755, deep)
	}
	root.Kids = append(root.Kids, lib.Wide("a", n, 40), deep, lib.Wide("e", 50, 90))
	var b []byte
	var put func(k *lib.Node, p string)
	put = func(k *lib.Node, p string) {
		if k.IsDir() {
			for i := range k.Kids {
				// in an order that is not the one of the names
				c := k.Kids[(i*7+3)%len(k.Kids)]
				put(c, p+"/"+c.Nm)
			}
			return
		}
		b = lib.TarAppend(b, lib.TarMember{Name: p[2:], Type: '0', Mode: lib.Oct(int64(k.M)), Uid: "0", Gid: "0", Mtime: "0", Data: k.Data})
	}
	put(root, ".")
	fsys, err := tarfs.Open(&lib.Mem{B: lib.TarEnd(b)})
	sym.Assert(err == nil, "a well-formed archive opens")
	lib.SameTree(fsys, root, ".", func(n *lib.Node, p string, fi fs.FileInfo) {
		sym.Assert(fi.Mode() == n.M, "mode of "+p)
	})
	sym.Reach("done")
}

// HarnessPax: metadata that a PAX header in front of the member has.
func HarnessPax() {
	m := lib.TarMember{Name: "short", Type: '0', Mode: "644", Uid: "1", Gid: "2", Mtime: "3", Data: []byte("0123456789ab")}
	key, val := "", ""
	digits := func(id string, n int) string {
		d := sym.String(id, n, "0123456789")
		sym.Assume(d[0] != '0')
		return d
	}
	what := sym.Choose("what", 6)
	switch what {
	case 0:
		key, val = "uid", digits("uid", 10)
	case 1:
		key, val = "gid", digits("gid", 10)
	case 2:
		key, val = "mtime", digits("mtime", 10)
	case 3:
		key, val = "mtime", digits("mtime", 9)+"."+sym.String("nsec", 9, "0123456789")
	case 4:
		key, val = "path", "dir/"+strings.Repeat("x", 120)+sym.String("name", 2, "ab.")
	case 5:
		m.Type, m.Data = '2', nil
		key, val = "linkpath", strings.Repeat("../", 50)+sym.String("link", 2, "ab.")
	}
	rec := key + "=" + val + "\n"
	size := len(rec) + 3
	if size >= 100 {
		size++
	}
	x := lib.TarMember{Name: "PaxHeaders.0/short", Type: 'x', Mode: "0", Uid: "0", Gid: "0", Mtime: "0", Data: []byte(lib.Dec(size) + " " + rec)}
	b := lib.TarEnd(lib.TarAppend(lib.TarAppend(nil, x), m))
	fsys, err := tarfs.Open(&lib.Mem{B: b})
	sym.Assert(err == nil, "a well-formed archive opens")
	p := "short"
	if what == 4 {
		p = val
	}
	fi, err := fsys.StatLink(p)
	sym.Assert(err == nil, "the member can be statted")
	h, ok := fi.Sys().(*tar.Header)
	sym.Assert(ok, "Sys is the header")
	uid, gid, sec, nsec := int64(1), int64(2), int64(3), int64(0)
	switch what {
	case 0:
		uid = lib.Num(val, 10)
	case 1:
		gid = lib.Num(val, 10)
	case 2:
		sec = lib.Num(val, 10)
	case 3:
		sec, nsec = lib.Num(val[:9], 10), lib.Num(val[10:], 10)
		sym.Reach("nanoseconds")
	case 5:
		t, err := fsys.ReadLink("short")
		sym.Assert(err == nil && t == val, "link target")
	}
	sym.Assert(h.Uid == int(uid) && h.Gid == int(gid), "owner")
	sym.Assert(fi.ModTime().Unix() == sec && fi.ModTime().Nanosecond() == int(nsec), "time")
	if m.Type == '0' {
		f, err := fsys.Open(p)
		sym.Assert(err == nil, "open")
		c, err := lib.ReadAll(f, 8, 64)
		sym.Assert(err == nil && string(c) == string(m.Data), "content")
	}
	sym.Reach("read")
}

// HarnessSparse: files that are stored with holes, in each of the ways in which
// tar stores them.
func HarnessSparse() {
	var s lib.Holes
	total := 0
	add := func(hole, n int) {
		s.Off = append(s.Off, s.Size+hole)
		s.Len = append(s.Len, n)
		s.Size += hole + n
		total += n
	}
	switch sym.Choose("shape", 5) {
	case 0: // nothing but a hole
		s.Size = 700
	case 1:
		add(sym.Choose("hole", 2)*300, 1+sym.Choose("len", 2)*511)
		s.Size += sym.Choose("end", 2) * 100
	case 2:
		add(5, 3)
		add(600, 40)
	case 3: // more than there are in a header
		for i := 0; i < 7; i++ {
			add(i*3, 90)
		}
		s.Size += 9
		sym.Reach("many extents")
	case 4: // and more than in one block behind it
		for i := 0; i < 30; i++ {
			add(2, 1+i%3)
		}
	}
	data := make([]byte, total)
	for i := 0; i < total; i += 89 {
		data[i] = sym.Byte("data")
	}
	if total > 0 {
		data[total-1] = sym.Byte("last")
	}
	m := lib.TarMember{Name: "d/sparse", Type: '0', Mode: "640", Uid: "0", Gid: "0", Mtime: "7", Data: data}
	list := func(sep string) string {
		out := ""
		for i, o := range s.Off {
			out += lib.Dec(o) + sep + lib.Dec(s.Len[i]) + sep
		}
		return out
	}
	b := lib.TarAppend(nil, lib.TarMember{Name: "a", Type: '0', Mode: "600", Uid: "0", Gid: "0", Mtime: "0", Data: []byte("before")})
	switch sym.Choose("form", 4) {
	case 0:
		b = lib.TarSparse(b, m, s)
	case 1:
		r := []string{"GNU.sparse.size=" + lib.Dec(s.Size), "GNU.sparse.numblocks=" + lib.Dec(len(s.Off))}
		for i, o := range s.Off {
			r = append(r, "GNU.sparse.offset="+lib.Dec(o), "GNU.sparse.numbytes="+lib.Dec(s.Len[i]))
		}
		sym.Assume(total > 0)
		b = lib.TarAppend(lib.TarPax(b, r...), m)
	case 2:
		l := list(",")
		sym.Assume(l != "")
		b = lib.TarPax(b, "GNU.sparse.name=d/sparse", "GNU.sparse.size="+lib.Dec(s.Size), "GNU.sparse.numblocks="+lib.Dec(len(s.Off)), "GNU.sparse.map="+l[:len(l)-1])
		m.Name = "d/GNUSparseFile.0/sparse"
		b = lib.TarAppend(b, m)
	case 3:
		b = lib.TarPax(b, "GNU.sparse.major=1", "GNU.sparse.minor=0", "GNU.sparse.name=d/sparse", "GNU.sparse.realsize="+lib.Dec(s.Size))
		l := lib.Dec(len(s.Off)) + "\n" + list("\n")
		m.Name = "d/GNUSparseFile.0/sparse"
		m.Data = append(append([]byte(l), make([]byte, (512-len(l)%512)%512)...), data...)
		b = lib.TarAppend(b, m)
		sym.Reach("map in front of the data")
	}
	b = lib.TarAppend(b, lib.TarMember{Name: "z", Type: '0', Mode: "600", Uid: "0", Gid: "0", Mtime: "0", Data: []byte("behind")})
	fsys, err := tarfs.Open(&lib.Mem{B: lib.TarEnd(b)})
	sym.Assert(err == nil, "a well-formed archive opens")
	root := lib.Dir(".", 0o755, lib.File("a", 0o600, []byte("before")), lib.Dir("d", 0o755, lib.File("sparse", 0o640, s.Whole(data))), lib.File("z", 0o600, []byte("behind")))
	lib.SameTree(fsys, root, ".", func(n *lib.Node, p string, fi fs.FileInfo) {
		sym.Assert(fi.Mode() == n.M, "mode of "+p)
	})
	sym.Reach("read")
}

// HarnessForms: the forms in which names, targets and numbers that do not fit
// into their fields are stored.
func HarnessForms() {
	m := lib.TarMember{Name: "x", Type: '0', Mode: "644", Uid: "1", Gid: "2", Mtime: "3", Data: []byte{sym.Byte("data")}}
	root := lib.Dir(".", 0o755)
	var b []byte
	uid, gid, mtime := int64(1), int64(2), int64(3)
	p := "x"
	what := sym.Choose("what", 6)
	last := sym.Bytes("number", 7)
	n := int64(0)
	for _, c := range last {
		n = n<<8 | int64(c)
	}
	number := func(h []byte, neg bool) {
		for i := range h {
			h[i] = 0
			if neg {
				h[i] = 0xff
			}
		}
		h[0] |= 0x80
		copy(h[len(h)-7:], last)
	}
	switch what {
	case 0, 1, 2, 3: // numbers in binary
		h := lib.TarHeader(m)
		copy(h[257:], "ustar  \x00")
		switch what {
		case 0:
			number(h[108:116], false)
			uid = n
		case 1:
			number(h[116:124], false)
			gid = n
		case 2:
			number(h[136:148], false)
			mtime = n
		case 3:
			number(h[136:148], true)
			mtime = n - 1<<56
			sym.Reach("negative")
		}
		lib.TarSum(h)
		b = append(append(b, h...), append(m.Data, make([]byte, 511)...)...)
		root.Kids = append(root.Kids, lib.File("x", 0o644, m.Data))
	case 4: // a long link target
		m.Type, m.Data = '2', nil
		t := strings.Repeat("../", 40+sym.Choose("long", 2)*130) + sym.String("target", 2, "ab.")
		b = lib.TarAppend(b, lib.TarMember{Name: "././@LongLink", Type: 'K', Mode: "0", Uid: "0", Gid: "0", Mtime: "0", Data: []byte(t + "\x00")})
		m.Link = t[:100]
		b = lib.TarAppend(b, m)
		root.Kids = append(root.Kids, lib.Link("x", t))
	case 5: // a name in two parts
		m.Prefix = "p/" + sym.String("prefix", 2, "ab") + strings.Repeat("q", sym.Choose("long", 2)*151)
		d := m.Prefix[2:]
		b = lib.TarAppend(b, m)
		p = m.Prefix + "/x"
		root.Kids = append(root.Kids, lib.Dir("p", 0o755, lib.Dir(d, 0o755, lib.File("x", 0o644, m.Data))))
	}
	b = lib.TarAppend(b, lib.TarMember{Name: "z", Type: '0', Mode: "600", Uid: "0", Gid: "0", Mtime: "0", Data: []byte("behind")})
	root.Kids = append(root.Kids, lib.File("z", 0o600, []byte("behind")))
	fsys, err := tarfs.Open(&lib.Mem{B: lib.TarEnd(b)})
	sym.Assert(err == nil, "a well-formed archive opens")
	lib.SameTree(fsys, root, ".", nil)
	fi, err := fsys.StatLink(p)
	sym.Assert(err == nil, "the member can be statted")
	h, ok := fi.Sys().(*tar.Header)
	sym.Assert(ok, "Sys is the header")
	sym.Assert(int64(h.Uid) == uid && int64(h.Gid) == gid, "owner")
	sym.Assert(fi.ModTime().Unix() == mtime, "time")
	sym.Reach("read")
}

// HarnessTwo: two archives with the same names.
func HarnessTwo() {
	lib.Two(func(root *lib.Node) fs.FS {
		var b []byte
		var put func(n *lib.Node, p string)
		put = func(n *lib.Node, p string) {
			for _, k := range n.Kids {
				m := lib.TarMember{Name: p + k.Nm, Mode: lib.Oct(int64(k.M.Perm())), Uid: "0", Gid: "0", Mtime: "5", Type: '0', Data: k.Data}
				switch {
				case k.IsDir():
					m.Type = '5'
					m.Name += "/"
				case k.IsLink():
					m.Type, m.Link = '2', k.Link
				}
				b = lib.TarAppend(b, m)
				put(k, p+k.Nm+"/")
			}
		}
		put(root, "")
		fsys, err := tarfs.Open(&lib.Mem{B: lib.TarEnd(b)})
		sym.Assert(err == nil, "a well-formed archive opens")
		return fsys
	}, true, true)
}

func main() {
	sym.Main(sym.Entry{"HarnessFields", HarnessFields}, sym.Entry{"HarnessNames", HarnessNames},
		sym.Entry{"HarnessOrder", HarnessOrder}, sym.Entry{"HarnessContent", HarnessContent},
		sym.Entry{"HarnessScale", HarnessScale}, sym.Entry{"HarnessPax", HarnessPax},
		sym.Entry{"HarnessSparse", HarnessSparse}, sym.Entry{"HarnessForms", HarnessForms}, sym.Entry{"HarnessTwo", HarnessTwo})
}
