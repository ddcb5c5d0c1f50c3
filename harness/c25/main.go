// C25: all views of a filesystem agree.
package main

import (
	"errors"
	"io/fs"
	"strings"

	"github.com/dpeckett/archivefs/arfs"
	"github.com/dpeckett/archivefs/erofs"
	"github.com/dpeckett/archivefs/memfs"
	"github.com/dpeckett/archivefs/tarfs"

	"verif.local/harness/lib"
	"verif.local/harness/sym"
)

// Kinds of filesystem.
const (
	ar = iota
	tar
	ero
	mem
	kinds
)

// open makes a filesystem that holds a tree. The entries of a tar archive may
// be in reverse order, and those of parents left out.
func open(kind int, root *lib.Node, odd bool) fs.FS {
	var fsys fs.FS
	var err error
	switch kind {
	case ar:
		b := []byte(lib.ArMagic)
		for _, k := range root.Kids {
			b = append(b, lib.ArHeader(lib.ArMember{Name: k.Nm, Mtime: "1", Uid: "2", Gid: "3", Mode: lib.Oct(int64(k.M.Perm())), Size: lib.Dec(len(k.Data))})...)
			b = append(b, k.Data...)
			if len(k.Data)%2 == 1 {
				b = append(b, '\n')
			}
		}
		fsys, err = arfs.Open(&lib.Mem{B: b})
	case tar:
		fsys, err = tarfs.Open(&lib.Mem{B: tarOf(root, odd)})
	case ero:
		fsys, err = erofs.Open(&lib.Mem{B: lib.ErofsOf(root)})
	default:
		f := memfs.New()
		fill(f, root, ".")
		fsys = f
	}
	sym.Assert(err == nil, "opens")
	return fsys
}

func tarOf(root *lib.Node, odd bool) []byte {
	var ms []lib.TarMember
	var walk func(n *lib.Node, p string)
	walk = func(n *lib.Node, p string) {
		for _, k := range n.Kids {
			m := lib.TarMember{Name: join(p, k.Nm), Mode: lib.Oct(int64(k.M.Perm())), Uid: "0", Gid: "0", Mtime: "5", Type: '0', Data: k.Data}
			switch {
			case k.IsDir():
				m.Type = '5'
				m.Name += "/"
			case k.IsLink():
				m.Type, m.Link = '2', k.Link
			}
			if !odd || !k.IsDir() || len(k.Kids) == 0 {
				ms = append(ms, m)
			}
			walk(k, join(p, k.Nm))
		}
	}
	walk(root, ".")
	var b []byte
	for i := range ms {
		m := ms[i]
		if odd {
			m = ms[len(ms)-1-i]
			m.Name = "./" + m.Name
		}
		b = lib.TarAppend(b, m)
	}
	return lib.TarEnd(b)
}

func fill(f *memfs.FS, n *lib.Node, p string) {
	for _, k := range n.Kids {
		var err error
		if k.IsDir() {
			err = f.MkdirAll(join(p, k.Nm), k.M.Perm())
			fill(f, k, join(p, k.Nm))
		} else {
			err = f.WriteFile(join(p, k.Nm), k.Data, k.M.Perm())
		}
		sym.Assert(err == nil, "filling")
	}
}

func join(dir, name string) string {
	if dir == "." {
		return name
	}
	return dir + "/" + name
}

// same asserts that two descriptions of an entry agree.
func same(a, b fs.FileInfo, names bool, what string) {
	if names {
		sym.Assert(sym.EqString(a.Name(), b.Name()), what+": name")
	}
	sym.Assert(a.Size() == b.Size(), what+": size")
	sym.Assert(a.Mode() == b.Mode(), what+": mode")
	sym.Assert(a.IsDir() == b.IsDir() && a.IsDir() == a.Mode().IsDir(), what+": directory")
	sym.Assert(a.ModTime().Equal(b.ModTime()), what+": time")
}

// agree compares all views of the entries below a directory, and returns their
// paths in the order of the listings.
func agree(fsys fs.FS, dir string, depth int) []string {
	l, err := fs.ReadDir(fsys, dir)
	sym.Assert(err == nil, "directories are listed")
	var out []string
	for i, e := range l {
		name := e.Name()
		sym.Assert(name != "" && name != "." && name != ".." && !strings.Contains(name, "/"), "listed names are names")
		if i > 0 {
			sym.Assert(l[i-1].Name() < name, "listings are in order and without duplicates")
		}
		p := join(dir, name)
		out = append(out, p)
		fi, err := e.Info()
		sym.Assert(err == nil, "listed entries have information")
		sym.Assert(fi.Name() == name, "entry and information: name")
		sym.Assert(e.IsDir() == fi.IsDir(), "entry and information: directory")
		sym.Assert(e.Type().Type() == fi.Mode().Type(), "entry and information: type")
		link := fi.Mode().Type() == fs.ModeSymlink
		if lf, ok := fsys.(lib.LinkFS); ok {
			ls, err := lf.StatLink(p)
			sym.Assert(err == nil, "StatLink finds listed entries")
			same(fi, ls, true, "entry and StatLink")
			_, err = lf.ReadLink(p)
			sym.Assert((err == nil) == link, "ReadLink works for links")
		}
		st, serr := fs.Stat(fsys, p)
		f, oerr := fsys.Open(p)
		sym.Assert((serr == nil) == (oerr == nil), "Stat and Open agree")
		if !link {
			sym.Assert(serr == nil, "Stat finds listed entries")
			same(fi, st, true, "entry and Stat")
		}
		if oerr != nil {
			sym.Assert(errors.Is(serr, fs.ErrNotExist) == errors.Is(oerr, fs.ErrNotExist), "Stat and Open fail alike")
			sym.Reach("dangling")
			continue
		}
		hs, err := f.Stat()
		sym.Assert(err == nil, "handles have information")
		same(st, hs, !link, "Stat and handle")
		if hs.Mode().IsRegular() {
			c, err := lib.ReadAll(f, 5+int(hs.Size()>>5), 100+int(hs.Size()))
			sym.Assert(err == nil && int64(len(c)) == hs.Size(), "content and size")
			_, err = fs.ReadDir(fsys, p)
			sym.Assert(err != nil, "files have no listing")
		}
		sym.Assert(f.Close() == nil, "handles close")
		if e.IsDir() {
			sym.Assert(depth > 0, "depth")
			out = append(out, agree(fsys, p, depth-1)...)
		} else if link && st.IsDir() {
			_, err := fs.ReadDir(fsys, p)
			sym.Assert(err == nil, "links to directories are listed")
			sym.Reach("dirlink")
		}
	}
	clear(l) // it belongs to the caller
	return out
}

func walk(fsys fs.FS, want []string) {
	n := 0
	err := fs.WalkDir(fsys, ".", func(p string, d fs.DirEntry, err error) error {
		sym.Assert(err == nil, "walk")
		if n == 0 {
			sym.Assert(p == "." && d.IsDir(), "a walk starts at the root")
		} else {
			sym.Assert(n <= len(want) && p == want[n-1], "order of a walk")
		}
		n++
		return nil
	})
	sym.Assert(err == nil && n == len(want)+1, "a walk visits everything once")
}

// HarnessViews: trees of up to three entries with any names, modes and sizes.
func HarnessViews() {
	kind := sym.Choose("kind", kinds)
	root := lib.Dir(".", 0o755)
	dir := root
	most := sym.Param("entries", 3, 4)
	if kind == tar || kind == ero {
		most = sym.Param("linkentries", 2, 3)
	}
	n := sym.Choose("entries", most) + 1
	for i := 0; i < n; i++ {
		var k *lib.Node
		name := sym.String("name"+lib.Dec(i), 1+sym.Choose("len"+lib.Dec(i), 2), "abA-")
		perm := fs.FileMode(sym.U16("perm"+lib.Dec(i))) & fs.ModePerm
		if kind == ar || kind == tar {
			perm = 0o640
		}
		shape := 0
		switch kind {
		case ar:
		case mem:
			shape = sym.Choose("shape"+lib.Dec(i), 3)
		default:
			shape = sym.Choose("shape"+lib.Dec(i), 4)
		}
		switch shape {
		case 0:
			k = lib.File(name, perm, make([]byte, sym.Choose("size"+lib.Dec(i), 2)*3))
		case 1, 2:
			k = lib.Dir(name, perm)
		default:
			t := []string{"a", "b/a", "-"}
			k = lib.Link(name, t[sym.Choose("target"+lib.Dec(i), 3)])
		}
		for _, o := range dir.Kids {
			sym.Assume(o.Nm != name)
		}
		dir.Kids = append(dir.Kids, k)
		if shape == 1 {
			dir = k
		}
	}
	fsys := open(kind, root.Join(), kind == tar && sym.Bool("odd"))
	sym.Reach("opened")
	walk(fsys, agree(fsys, ".", 4))
}

// fixed is a tree with a directory, files and links.
func fixed(kind int) *lib.Node {
	if kind == ar {
		return lib.Dir(".", 0o755, lib.File("a", 0o644, []byte("one")), lib.File("bb", 0o600, []byte("two2"))).Join()
	}
	d := lib.Dir("b", 0o711, lib.File("a", 0o600, []byte("two2")), lib.Dir("bb", 0o700))
	root := lib.Dir(".", 0o755, lib.File("a", 0o644, []byte("one")), d)
	if kind != mem {
		d.Kids = append(d.Kids, lib.Link("c", "a"))
		root.Kids = append(root.Kids, lib.Link("c", "b"), lib.Link("d", "none"))
	}
	return root.Join()
}

// HarnessLookup: any path leads to the entry its spelling stands for, in every
// operation, or to an error.
func HarnessLookup() {
	kind := sym.Choose("kind", kinds)
	root := fixed(kind)
	fsys := open(kind, root, false)
	q := sym.String("path", sym.Choose("len", sym.Param("len", 6, 8)), "abcd./")
	comps := lib.Clean(q)
	n, res := lib.Resolve(root, comps, false)
	st, serr := fs.Stat(fsys, q)
	f, oerr := fsys.Open(q)
	_, derr := fs.ReadDir(fsys, q)
	if len(comps) == 0 && kind == ar {
		oerr = serr // the archive itself cannot be opened
	}
	sym.Assert((serr == nil) == (oerr == nil), "Stat and Open agree")
	if serr != nil {
		sym.Assert(derr != nil, "Stat and ReadDir agree")
		if res == lib.Found {
			// A filesystem may insist on one spelling.
			sym.Assert(!fs.ValidPath(q) && (kind == mem || kind == ar && strings.Contains(q, "..")), "what is there is found")
			sym.Reach("refused")
			return
		}
		if res == lib.Missing && fs.ValidPath(q) {
			sym.Assert(errors.Is(serr, fs.ErrNotExist), "Stat: a name that does not exist")
			sym.Assert(errors.Is(oerr, fs.ErrNotExist), "Open: a name that does not exist")
			sym.Assert(errors.Is(derr, fs.ErrNotExist), "ReadDir: a name that does not exist")
			if lf, ok := fsys.(lib.LinkFS); ok {
				if _, r := lib.Resolve(root, comps, true); r == lib.Missing {
					_, err := lf.StatLink(q)
					sym.Assert(errors.Is(err, fs.ErrNotExist), "StatLink: a name that does not exist")
					_, err = lf.ReadLink(q)
					sym.Assert(errors.Is(err, fs.ErrNotExist), "ReadLink: a name that does not exist")
				}
			}
			sym.Reach("missing")
		}
		return
	}
	sym.Assert(res == lib.Found, "what is not there is not found")
	sym.Assert(st.IsDir() == n.IsDir(), "the right entry: type")
	sym.Assert((derr == nil) == n.IsDir(), "directories are listed")
	if n.IsFile() {
		sym.Assert(st.Size() == int64(len(n.Data)), "the right entry: size")
		c, err := lib.ReadAll(f, 5, 100)
		sym.Assert(err == nil && string(c) == string(n.Data), "the right entry: content")
		sym.Reach("file")
	} else {
		sym.Reach("dir")
	}
	// The plain spelling is always accepted and says the same.
	p := strings.Join(comps, "/")
	if p == "" {
		p = "."
	}
	pst, err := fs.Stat(fsys, p)
	sym.Assert(err == nil, "the plain spelling is accepted")
	same(st, pst, true, "two spellings")
	if lf, ok := fsys.(lib.LinkFS); ok {
		ls, err := lf.StatLink(q)
		sym.Assert(err == nil, "StatLink finds what Stat does")
		pls, err := lf.StatLink(p)
		sym.Assert(err == nil, "StatLink accepts the plain spelling")
		same(ls, pls, true, "two spellings of a link")
		t, err := lf.ReadLink(q)
		pt, perr := lf.ReadLink(p)
		sym.Assert((err == nil) == (perr == nil) && t == pt, "two spellings for ReadLink")
	}
	hs, err := f0(fsys, p)
	if err == nil && oerr == nil && f != nil {
		h, err := f.Stat()
		sym.Assert(err == nil, "handles have information")
		same(h, hs, true, "two spellings of a handle")
	}
}

// f0 is the information of a new handle.
func f0(fsys fs.FS, p string) (fs.FileInfo, error) {
	f, err := fsys.Open(p)
	if err != nil {
		return nil, err
	}
	return f.Stat()
}

// HarnessTarOdd: whatever a tar archive holds, its views agree.
func HarnessTarOdd() {
	var b []byte
	n := sym.Param("members", 2, 3)
	for i := 0; i < n; i++ {
		s := lib.Dec(i)
		m := lib.TarMember{Mode: "644", Uid: "0", Gid: "0", Mtime: "5"}
		m.Name = []string{"a", "a/b", "./a/", "/b", "b/../a", "..", "a//c", "a/b/c"}[sym.Choose("name"+s, 8)]
		m.Type = []byte{'0', '5', '2', '1', 0}[sym.Choose("type"+s, 5)]
		switch m.Type {
		case '2':
			m.Link = []string{"a", "../b", ".", "c"}[sym.Choose("link"+s, 4)]
		case '1':
			m.Link = []string{"a", "b", "a/b"}[sym.Choose("link"+s, 3)]
		case '0', 0:
			m.Data = make([]byte, sym.Choose("size"+s, 2)*4)
		}
		b = lib.TarAppend(b, m)
	}
	fsys, err := tarfs.Open(&lib.Mem{B: lib.TarEnd(b)})
	if err != nil {
		sym.Reach("rejected")
		return
	}
	sym.Reach("opened")
	walk(fsys, agree(fsys, ".", 4))
}

// HarnessArOdd: members with the same or odd names.
func HarnessArOdd() {
	b := []byte(lib.ArMagic)
	for i := 0; i < sym.Param("members", 2, 3); i++ {
		s := lib.Dec(i)
		name := sym.String("name"+s, sym.Choose("len"+s, 4), "aA ./")
		size := sym.Choose("size"+s, 3)
		b = append(b, lib.ArHeader(lib.ArMember{Name: name, Mtime: "1", Uid: "2", Gid: "3", Mode: "100644", Size: lib.Dec(size)})...)
		b = append(b, make([]byte, size+size%2)...)
	}
	fsys, err := arfs.Open(&lib.Mem{B: b})
	if err != nil {
		sym.Reach("rejected")
		return
	}
	sym.Reach("opened")
	walk(fsys, agree(fsys, ".", 0))
}

// HarnessErofsBlocks: a directory of several blocks, with names of any length.
func HarnessErofsBlocks() {
	im := lib.NewEImage(0)
	blocks := 1 + sym.Choose("blocks", sym.Param("blocks", 3, 4))
	es := []lib.EEntry{{Name: ".", Nid: 0, Type: 2}, {Name: "..", Nid: 0, Type: 2}}
	var want []string
	for i := 0; i < blocks; i++ {
		n := 1 + sym.Choose("entries"+lib.Dec(i), 3)
		for j := 0; j < n; j++ {
			name := string([]byte{byte('a' + i), byte('a' + j)})
			if j == n-1 {
				name += strings.Repeat("x", []int{0, 100}[sym.Choose("long"+lib.Dec(i), 2)])
			}
			want = append(want, name)
			es = append(es, lib.EEntry{Name: name, Nid: 4, Type: 1})
		}
		b := lib.EBlock(es)
		if i < blocks-1 || sym.Bool("padded") {
			b = append(b, make([]byte, 512-len(b))...)
		}
		im.Block(5+i, b)
		es = nil
		if i == blocks-1 {
			im.Inode(0, lib.EInode{Layout: 0, Nlink: 2, Mode: 0o40755, Size: uint64(512*i + len(b)), Addr: 5}, nil)
		}
	}
	im.Inode(4, lib.EInode{Layout: 2, Nlink: 1, Mode: 0o100640, Size: 3}, []byte("abc"))
	fsys, err := erofs.Open(&lib.Mem{B: im.B})
	sym.Assert(err == nil, "opens")
	got := agree(fsys, ".", 0)
	sym.Assert(len(got) == len(want), "every entry is listed")
	for i, p := range got {
		sym.Assert(p == want[i], "listed names")
	}
	walk(fsys, want)
	q := sym.String("path", 2, "abcdz")
	_, err = fsys.Stat(q)
	found := false
	for _, w := range want {
		found = sym.Or(found, sym.EqString(w, q))
	}
	if err != nil {
		sym.Assert(errors.Is(err, fs.ErrNotExist), "absent names do not exist")
		sym.Reach("missing")
	} else {
		sym.Reach("found")
	}
	sym.Assert((err == nil) == found, "names are found when they are listed")
}

// HarnessScale: large files, large and deep directories.
func HarnessScale() {
	sym.StepLimit(400000000)
	kind := sym.Choose("kind", kinds)
	root := lib.Dir(".", 0o755)
	what := sym.Choose("what", 3)
	if kind == ar {
		what = 1
	}
	switch what {
	case 0:
		n := lib.File("file", 0o640, []byte{sym.Byte("data")})
		for i := 0; i < sym.Param("deep", 40, 60); i++ {
			n = lib.Dir("d"+lib.Dec(i), 0o750, n)
			if kind != mem {
				n.Kids = append(n.Kids, lib.Link("l", strings.Repeat("x", i*2+1)), lib.Link("m", "file"))
			}
		}
		root.Kids = append(root.Kids, n)
		sym.Reach("deep")
	case 1:
		size := []int{65536, 70001, 1<<20 + 1}[sym.Choose("size", 3)]
		root.Kids = append(root.Kids, lib.File("a", 0o600, lib.Blob("data", size)), lib.File("b", 0o600, lib.Blob("more", 1500)))
		root.Kids = append(root.Kids, lib.Wide("", sym.Param("wide", 200, 700), 9).Kids...)
		sym.Reach("many entries")
	case 2:
		root.Kids = append(root.Kids, lib.Wide("w", 60, 200), lib.Dir("x", 0o700, lib.Wide("y", 60, 99), lib.File("z", 0o600, []byte{sym.Byte("data")})))
		sym.Reach("long names")
	}
	var fsys fs.FS
	if kind == ero {
		dst := &lib.Mem{}
		sym.Assert(erofs.Create(dst, &lib.Src{Root: root}) == nil, "Create")
		f, err := erofs.Open(dst)
		sym.Assert(err == nil, "opens")
		fsys = f
	} else {
		fsys = open(kind, root.Join(), kind == tar && sym.Choose("odd", 2) == 1)
	}
	walk(fsys, agree(fsys, ".", 100))
}

func main() {
	sym.Main(
		sym.Entry{"HarnessViews", HarnessViews},
		sym.Entry{"HarnessLookup", HarnessLookup},
		sym.Entry{"HarnessTarOdd", HarnessTarOdd},
		sym.Entry{"HarnessArOdd", HarnessArOdd},
		sym.Entry{"HarnessErofsBlocks", HarnessErofsBlocks},
		sym.Entry{"HarnessScale", HarnessScale},
	)
}
