// C13: erofs directory lookup and listing agree and are complete.
package main

import (
	"errors"
	"io/fs"
	"strings"
	"unicode/utf8"

	"github.com/dpeckett/archivefs/erofs"

	"verif.local/harness/lib"
	"verif.local/harness/sym"
)

// listing is what IterDirents yields.
func listing(ino *erofs.Inode) []lib.EEntry {
	var l []lib.EEntry
	err := ino.IterDirents(func(name string, typ uint8, nid uint64) error {
		l = append(l, lib.EEntry{Name: name, Type: typ, Nid: nid})
		return nil
	})
	sym.Assert(err == nil, "the directory can be listed")
	for i := 1; i < len(l); i++ {
		sym.Assert(l[i-1].Name < l[i].Name, "names are listed in ascending order")
	}
	return l
}

// lookup asserts that q is found exactly when it is listed.
func lookup(ino *erofs.Inode, l []lib.EEntry, q string) {
	d, err := ino.Lookup(q)
	for _, e := range l {
		if len(e.Name) == len(q) && e.Name == q {
			sym.Assert(err == nil, "a listed name is found")
			sym.Assert(sym.And(d.Nid == e.Nid, d.FileType == e.Type), "lookup gives the listed entry")
			sym.Reach("found")
			return
		}
	}
	sym.Assert(errors.Is(err, fs.ErrNotExist), "a name that is not listed does not exist")
	sym.Reach("missing")
}

func inode(fsys *erofs.Filesystem, p string) *erofs.Inode {
	fi, err := fsys.Stat(p)
	sym.Assert(err == nil, "stat of "+p)
	ino, ok := fi.Sys().(*erofs.Inode)
	sym.Assert(ok, "system info")
	return ino
}

// complete asserts that a created directory lists what the source has.
func complete(fsys *erofs.Filesystem, p string, d *lib.Node, parent uint64) []lib.EEntry {
	ino := inode(fsys, p)
	l := listing(ino)
	sym.Assert(len(l) == len(d.Kids)+2, "number of entries")
	for _, e := range l {
		switch e.Name {
		case ".":
			sym.Assert(e.Nid == ino.Nid() && e.Type == erofs.FT_DIR, "dot is the directory itself")
		case "..":
			sym.Assert(e.Nid == parent && e.Type == erofs.FT_DIR, "dot-dot is the parent")
		default:
			n := d.Find(e.Name)
			sym.Assert(n != nil, "a listed entry is in the source")
			typ := uint8(erofs.FT_REG_FILE)
			if n.IsDir() {
				typ = erofs.FT_DIR
			} else if n.IsLink() {
				typ = erofs.FT_SYMLINK
			}
			sym.Assert(e.Type == typ, "type of a listed entry")
			im := inodeOf(fsys, p, e.Name)
			sym.Assert(im.Nid() == e.Nid, "inode of a listed entry")
			sym.Assert(n.IsDir() || im.Size() == uint64(n.Size()), "a listed entry is the one of the source")
		}
	}
	// the same through the filesystem
	des, err := fsys.ReadDir(p)
	sym.Assert(err == nil && len(des) == len(d.Kids), "ReadDir gives the entries without the dots")
	i := 0
	for _, e := range l {
		if e.Name == "." || e.Name == ".." {
			continue
		}
		sym.Assert(sym.EqString(des[i].Name(), e.Name), "ReadDir gives the listed names")
		sym.Assert(des[i].IsDir() == (e.Type == erofs.FT_DIR), "ReadDir gives the listed types")
		i++
	}
	return l
}

func inodeOf(fsys *erofs.Filesystem, dir, name string) *erofs.Inode {
	l, err := fsys.ReadDir(dir)
	sym.Assert(err == nil, "ReadDir")
	for _, e := range l {
		if e.Name() == name {
			fi, err := e.Info()
			sym.Assert(err == nil, "Info")
			return fi.Sys().(*erofs.Inode)
		}
	}
	sym.Fail("entry is not listed")
	return nil
}

func create(root *lib.Node) *erofs.Filesystem {
	dst := &lib.Mem{}
	sym.Assert(erofs.Create(dst, &lib.Src{Root: root}) == nil, "the tree is accepted")
	fsys, err := erofs.Open(dst)
	sym.Assert(err == nil, "what Create wrote opens")
	return fsys
}

func query(max int) string {
	b := sym.Bytes("query", 1+sym.Choose("query.len", max))
	return string(b)
}

// HarnessNames: any name among others, looked up with any name.
func HarnessNames() {
	b := sym.Bytes("name", 1+sym.Choose("len", sym.Param("bytes", 3, 4)))
	for _, c := range b {
		sym.Assume(sym.And(c != 0, c != '/'))
	}
	sym.Assume(utf8.Valid(b))
	name := []string{"", ".", "a"}[sym.Choose("prefix", 3)] + string(b)
	d := lib.Dir("d", 0o755, lib.File(name, 0o600, []byte("xyz")))
	for i, k := range []string{"-", "..a", "a.b"}[:sym.Choose("others", 4)] {
		d.Kids = append(d.Kids, lib.File(k, 0o600, make([]byte, i)))
	}
	sym.Assume(name != "." && name != "..")
	for _, k := range d.Kids[1:] {
		sym.Assume(name != k.Nm)
	}
	fsys := create(lib.Dir(".", 0o755, d))
	ino := inode(fsys, "d")
	if sym.Bool("query") {
		lookup(ino, listing(ino), query(1))
		return
	}
	root := inode(fsys, ".").Nid()
	l := complete(fsys, "d", d, root)
	for _, e := range l {
		lookup(ino, l, e.Name)
	}
}

// HarnessBlocks: directories over several blocks, looked up with any name that
// is similar to one of theirs.
func HarnessBlocks() {
	size := []int{255, 254, 100}[sym.Choose("length", 3)]
	count := []int{1, 15, 16, 31, 14, 30, 46, 13, 17, 29, 45, 47}[sym.Choose("count", sym.Param("counts", 4, 12))]
	if size < 200 {
		count *= 2
	}
	fill := strings.Repeat("n", size-2)
	d := lib.Dir("d", 0o755)
	for i := 0; i < count; i++ {
		d.Kids = append(d.Kids, lib.File(string([]byte{byte('A' + i/16), byte('A' + i%16)})+fill, 0o600, make([]byte, i%3)))
	}
	// up to two names of other lengths, before and after the dots and the others
	short := sym.Choose("short", sym.Param("shorts", 2, 4))
	if short&1 != 0 {
		d.Kids = append(d.Kids, lib.File("!z", 0o600, nil))
	}
	if short&2 != 0 {
		d.Kids = append(d.Kids, lib.File("\u00ff", 0o600, nil))
	}
	fsys := create(lib.Dir(".", 0o755, d))
	ino := inode(fsys, "d")
	l := listing(ino)
	sym.Assert(len(l) == len(d.Kids)+2, "number of entries")
	if ino.Size() > 4096 {
		sym.Reach("several blocks")
	}
	if ino.Size() > 8192 {
		sym.Reach("three blocks")
	}
	what := sym.Choose("query", 5)
	if what == 4 {
		for _, n := range d.Kids {
			fi, err := fsys.StatLink("d/" + n.Nm)
			sym.Assert(err == nil && fi.Size() == n.Size(), "an entry of the source is found")
		}
		for _, e := range l {
			lookup(ino, l, e.Name)
		}
		return
	}
	q := []byte(string(sym.Bytes("query", 2)) + fill)
	switch what {
	case 1:
		q = q[:size-1]
	case 2:
		q = append(q, 'n')
	case 3:
		q = q[:2]
	}
	lookup(ino, l, string(q))
}

// HarnessImages: directory blocks of an image that others wrote.
func HarnessImages() {
	k := 1 + sym.Choose("entries", sym.Param("entries", 5, 6))
	var es []lib.EEntry
	last := ""
	for i := 0; i < k; i++ {
		n := 1
		if i == 1 || i == 3 {
			n = 2
		}
		b := sym.Bytes("name", n)
		for _, c := range b {
			sym.Assume(c != 0)
		}
		name := string(b)
		sym.Assume(last < name)
		last = name
		es = append(es, lib.EEntry{Name: name, Nid: sym.U64("nid"), Type: sym.Byte("type")})
	}
	ino, l := image(es)
	sym.Assert(len(l) == k, "number of entries")
	for i, e := range l {
		sym.Assert(sym.And(sym.EqString(e.Name, es[i].Name), e.Nid == es[i].Nid, e.Type == es[i].Type), "entries as stored")
	}
	lookup(ino, l, query(2))
}

// image spreads entries over blocks in some way and gives the inode of the
// directory.
func image(es []lib.EEntry) (*erofs.Inode, []lib.EEntry) {
	im := lib.NewEImage(0)
	addr := 16
	i := lib.EInode{Mode: 0o40755, Nlink: 2, Addr: uint32(addr)}
	var tail []byte
	for len(es) > 0 {
		n := 1 + sym.Choose("block", min(len(es), 3))
		b := lib.EBlock(es[:n])
		es = es[n:]
		sym.Assert(len(b) <= 512, "the harness fills blocks")
		if len(es) > 0 {
			im.Block(addr, b)
			im.Put(addr<<lib.EShift+511, []byte{0})
			if len(b) == 512 {
				im.Block(addr, b)
				sym.Reach("full block")
			}
			addr++
			i.Size += 512
			continue
		}
		switch sym.Choose("pad", 3) {
		case 1:
			b = append(b, 0)
		case 2:
			b = append(b, make([]byte, max(0, min(30, 470-len(b))))...)
		}
		i.Size += uint64(len(b))
		if sym.Bool("inline") && len(b) <= 480 {
			i.Layout = 2
			tail = b
			sym.Reach("inline")
		} else {
			im.Block(addr, b)
			im.Put(addr<<lib.EShift+511, []byte{0})
			if len(b) == 512 {
				im.Block(addr, b)
			}
		}
	}
	im.Inode(0, i, tail)
	ei, err := erofs.OpenImage(&lib.Mem{B: im.B})
	sym.Assert(err == nil, "image opens")
	ino, err := ei.Inode(0)
	sym.Assert(err == nil, "inode is valid")
	return &ino, listing(&ino)
}

// HarnessLong: names of up to 255 bytes that fill blocks exactly.
func HarnessLong() {
	k := 1 + sym.Choose("entries", sym.Param("entries", 3, 4))
	var es []lib.EEntry
	for i := 0; i < k; i++ {
		n := []int{1, 233, 255, 200}[sym.Choose("length", sym.Param("lengths", 3, 4))]
		name := string([]byte{byte('b' + 2*i)}) + strings.Repeat("x", n-1)
		es = append(es, lib.EEntry{Name: name, Nid: uint64(i + 1), Type: 1})
	}
	// only arrangements whose blocks hold their entries
	im := lib.NewEImage(0)
	addr, size := 16, 0
	i := lib.EInode{Mode: 0o40755, Nlink: 2, Addr: 16}
	want := es
	for len(es) > 0 {
		n := 1 + sym.Choose("block", min(len(es), 2))
		b := lib.EBlock(es[:n])
		es = es[n:]
		sym.Assume(len(b) <= 512)
		im.Block(addr, make([]byte, 512))
		im.Block(addr, b)
		if len(b) == 512 {
			sym.Reach("full block")
		}
		addr++
		size += 512
		if len(es) == 0 && sym.Bool("cut") {
			size += len(b) - 512
		}
	}
	i.Size = uint64(size)
	im.Inode(0, i, nil)
	ei, err := erofs.OpenImage(&lib.Mem{B: im.B})
	sym.Assert(err == nil, "image opens")
	ino, err := ei.Inode(0)
	sym.Assert(err == nil, "inode is valid")
	l := listing(&ino)
	sym.Assert(len(l) == k, "number of entries")
	for i := range l {
		sym.Assert(l[i] == want[i], "entries as stored")
	}
	what := sym.Choose("query", 4)
	if what == 3 {
		for _, e := range l {
			lookup(&ino, l, e.Name)
		}
		return
	}
	q := want[sym.Choose("like", k)].Name
	b := []byte(q)
	b[sym.Choose("at", 2)*(len(b)-1)] = sym.Byte("byte")
	switch what {
	case 1:
		b = b[:len(b)-1]
	case 2:
		b = append(b, sym.Byte("byte"))
	}
	lookup(&ino, l, string(b))
}

// HarnessExact: created blocks that their entries fill to about the last byte.
func HarnessExact() {
	d := lib.Dir("d", 0o755)
	add := func(n int) {
		i := len(d.Kids)
		d.Kids = append(d.Kids, lib.File(string([]byte{byte('A' + i/16), byte('A' + i%16)})+strings.Repeat("n", n-2), 0o600, make([]byte, i%3)))
	}
	// dot, dot-dot and 15 long names leave 64 bytes
	at := sym.Choose("at", sym.Param("places", 2, 3))
	last := 49 + sym.Choose("last", 5)
	for i := 0; i < 15; i++ {
		if i == []int{14, 0, 7}[at] {
			add(last)
		}
		add(255)
	}
	if rest := sym.Choose("rest", 4); rest == 3 {
		// 15 long names leave 91 bytes
		for i := 0; i < 15; i++ {
			add(255)
		}
		add(76 + sym.Choose("last", 5))
		if sym.Bool("more") {
			add(9)
		}
	} else {
		for i := 0; i < rest; i++ {
			add(20)
		}
	}
	fsys := create(lib.Dir(".", 0o755, d))
	ino := inode(fsys, "d")
	l := listing(ino)
	sym.Assert(len(l) == len(d.Kids)+2, "number of entries")
	if ino.Size() > 4096 {
		sym.Reach("several blocks")
	}
	q := sym.Choose("query", 2)
	if q == 0 {
		for _, n := range d.Kids {
			fi, err := fsys.StatLink("d/" + n.Nm)
			sym.Assert(err == nil && fi.Size() == n.Size(), "an entry of the source is found")
		}
		for _, e := range l {
			lookup(ino, l, e.Name)
		}
		return
	}
	b := []byte(d.Kids[sym.Choose("like", 2)*(len(d.Kids)-1)].Nm)
	b[len(b)-1] = sym.Byte("byte")
	lookup(ino, l, string(b))
}

// HarnessNested: dot and dot-dot of nested directories.
func HarnessNested() {
	depth := 1 + sym.Choose("depth", sym.Param("depth", 6, 12))
	root := lib.Dir(".", 0o755)
	d := root
	for i := 0; i < depth; i++ {
		if sym.Bool("before") {
			d.Kids = append(d.Kids, lib.File("-", 0o600, make([]byte, 900)))
		}
		k := lib.Dir("d"+lib.Dec(i), 0o755)
		d.Kids = append(d.Kids, k, lib.Link("z", "x"))
		d = k
	}
	fsys := create(root)
	p, parent := ".", inode(fsys, ".").Nid()
	d = root
	for i := 0; ; i++ {
		complete(fsys, p, d, parent)
		if i == depth {
			break
		}
		parent = inode(fsys, p).Nid()
		d = d.Find("d" + lib.Dec(i))
		if p == "." {
			p = d.Nm
		} else {
			p += "/" + d.Nm
		}
	}
	sym.Reach("done")
}

// HarnessMany: directories of many blocks, looked up with any name.
func HarnessMany() {
	sym.StepLimit(400000000)
	n := []int{2, 5, 17, 64, 257, 300}[sym.Choose("blocks", 6)]
	per := 1 + sym.Choose("per", 2)
	im := lib.NewEImage(0)
	var all []lib.EEntry
	for i := 0; i < n; i++ {
		var es []lib.EEntry
		for j := 0; j < per; j++ {
			k := i*per + j
			es = append(es, lib.EEntry{Name: string([]byte{byte('0' + k/40), byte('0' + k%40)}), Nid: uint64(k + 1), Type: uint8(1 + k%3)})
		}
		im.Block(16+i, lib.EBlock(es))
		all = append(all, es...)
	}
	im.Put((16+n)<<lib.EShift-1, []byte{0})
	im.Inode(0, lib.EInode{Mode: 0o40755, Nlink: 2, Addr: 16, Size: uint64(n * 512)}, nil)
	ei, err := erofs.OpenImage(&lib.Mem{B: im.B})
	sym.Assert(err == nil, "image opens")
	ino, err := ei.Inode(0)
	sym.Assert(err == nil, "inode is valid")
	l := listing(&ino)
	sym.Assert(len(l) == len(all), "number of entries")
	for i := range l {
		sym.Assert(l[i] == all[i], "entries as stored")
	}
	if n < 50 {
		lookup(&ino, l, string([]byte{'0', sym.Byte("query")}))
		return
	}
	for i, e := range l {
		if i%7 == 0 || i+3 > len(l) {
			d, err := ino.Lookup(e.Name)
			sym.Assert(err == nil && d.Nid == e.Nid && d.FileType == e.Type, "a listed name is found")
			_, err = ino.Lookup(e.Name + "0")
			sym.Assert(errors.Is(err, fs.ErrNotExist), "a name that is not listed does not exist")
		}
	}
	sym.Reach("many blocks")
}

// HarnessWide: Create with large directories.
func HarnessWide() {
	sym.StepLimit(400000000)
	d := lib.Wide("d", []int{60, 120, 400}[sym.Choose("n", 3)], []int{7, 250}[sym.Choose("length", 2)])
	fsys := create(lib.Dir(".", 0o755, d))
	ino := inode(fsys, "d")
	l := listing(ino)
	sym.Assert(len(l) == len(d.Kids)+2, "number of entries")
	for _, n := range d.Kids {
		e, err := ino.Lookup(n.Nm)
		sym.Assert(err == nil && e.FileType == erofs.FT_REG_FILE, "an entry of the source is found")
	}
	for _, e := range l {
		f, err := ino.Lookup(e.Name)
		sym.Assert(err == nil && f.Nid == e.Nid && f.FileType == e.Type, "a listed name is found")
	}
	sym.Reach("done")
}

func main() {
	sym.Main(sym.Entry{"HarnessNames", HarnessNames}, sym.Entry{"HarnessBlocks", HarnessBlocks}, sym.Entry{"HarnessImages", HarnessImages},
		sym.Entry{"HarnessLong", HarnessLong}, sym.Entry{"HarnessExact", HarnessExact}, sym.Entry{"HarnessNested", HarnessNested},
		sym.Entry{"HarnessMany", HarnessMany}, sym.Entry{"HarnessWide", HarnessWide})
}
