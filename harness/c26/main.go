// C26: opened archives can be read concurrently.
package main

import (
	"io"
	"io/fs"
	"sync"

	"github.com/dpeckett/archivefs/arfs"
	"github.com/dpeckett/archivefs/erofs"
	"github.com/dpeckett/archivefs/tarfs"

	"verif.local/harness/lib"
	"verif.local/harness/sym"
)

// Formats of an archive.
const (
	ar = iota
	tar
	ero
	kinds
)

// dev lets other goroutines run at every read.
type dev struct {
	b     []byte
	yield bool
}

func (d dev) ReadAt(p []byte, off int64) (int, error) {
	if d.yield {
		sym.Yield()
	}
	m := lib.Mem{B: d.b}
	return m.ReadAt(p, off)
}

func open(kind int, ra io.ReaderAt) fs.ReadDirFS {
	var fsys fs.ReadDirFS
	var err error
	switch kind {
	case ar:
		fsys, err = arfs.Open(ra)
	case tar:
		fsys, err = tarfs.Open(ra)
	default:
		fsys, err = erofs.Open(ra)
	}
	sym.Assert(err == nil, "opens")
	return fsys
}

// image is an archive of a small tree with symbolic contents.
func image(kind int) []byte {
	data := sym.Bytes("data", 5)
	if kind == ar {
		b := []byte(lib.ArMagic)
		b = append(b, lib.ArHeader(lib.ArMember{Name: "f", Mtime: "1", Uid: "2", Gid: "3", Mode: "100644", Size: "2"})...)
		b = append(b, data[:2]...)
		b = append(b, lib.ArHeader(lib.ArMember{Name: "g", Mtime: "4", Uid: "5", Gid: "6", Mode: "100600", Size: "3"})...)
		return append(append(b, data[2:]...), '\n')
	}
	root := lib.Dir(".", 0o755,
		lib.Dir("d", 0o711, lib.File("x", 0o640, data[:2]), lib.Link("up", "../f")),
		lib.File("f", 0o644, data[2:]),
		lib.Link("l", "d/x"),
		lib.Link("m", "d"),
	).Join()
	if kind == tar {
		return lib.TarOf(root)
	}
	return lib.ErofsOf(root)
}

// call is one operation on one path.
type call struct {
	op   int
	path string
}

func calls(kind int) []call {
	paths := []string{"f", "d/x", "l", "m/up", "d", "m", ".", "none", "f/x"}
	if kind == ar {
		paths = []string{"f", "g", ".", "none"}
	}
	var cs []call
	for op := 0; op < 5; op++ {
		for _, p := range paths {
			if kind != ar || op != 3 {
				cs = append(cs, call{op, p})
			}
		}
	}
	return cs
}

func failed(b []byte, err error) []byte {
	if err == fs.ErrNotExist {
		return append(b, 'm')
	}
	return append(b, 'e')
}

func info(b []byte, fi fs.FileInfo) []byte {
	b = append(append(b, fi.Name()...), 0)
	b = lib.LE(lib.LE(b, uint64(fi.Size()), 8), uint64(fi.Mode()), 4)
	return lib.LE(b, uint64(fi.ModTime().Unix()), 8)
}

// do makes a call and describes the result.
func (c call) do(fsys fs.ReadDirFS) (b []byte) {
	switch c.op {
	case 0: // the handle and the content
		f, err := fsys.Open(c.path)
		if err != nil {
			return failed(b, err)
		}
		fi, err := f.Stat()
		if err != nil {
			return failed(b, err)
		}
		b = info(b, fi)
		if !fi.IsDir() {
			d, err := lib.ReadAll(f, 2, 20)
			if err != nil {
				return failed(b, err)
			}
			b = append(b, d...)
		}
		f.Close()
	case 1:
		fi, err := fsys.(fs.StatFS).Stat(c.path)
		if err != nil {
			return failed(b, err)
		}
		b = info(b, fi)
	case 2: // the listing and its entries
		l, err := fsys.ReadDir(c.path)
		if err != nil {
			return failed(b, err)
		}
		for _, e := range l {
			b = entry(b, e)
		}
	case 3:
		s, err := fsys.(lib.LinkFS).ReadLink(c.path)
		if err != nil {
			return failed(b, err)
		}
		b = append(b, s...)
	case 4:
		lf, ok := fsys.(lib.LinkFS)
		if !ok {
			return nil
		}
		fi, err := lf.StatLink(c.path)
		if err != nil {
			return failed(b, err)
		}
		b = info(b, fi)
	}
	return b
}

func entry(b []byte, e fs.DirEntry) []byte {
	fi, err := e.Info()
	if err != nil {
		return failed(b, err)
	}
	b = append(append(b, e.Name()...), 0)
	if e.IsDir() {
		b = append(b, 'd')
	}
	return info(lib.LE(b, uint64(e.Type()), 4), fi)
}

// together runs functions at once and compares what they describe with what
// they describe alone.
func together(fs []func() []byte, want [][]byte) {
	got := make([][]byte, len(fs))
	var wg sync.WaitGroup
	for i, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			got[i] = f()
		}()
	}
	wg.Wait()
	for i := range got {
		sym.Assert(len(got[i]) == len(want[i]), "as much as alone")
		sym.Assert(sym.EqBytes(got[i], want[i]), "the same as alone")
	}
	sym.Reach("done")
}

// HarnessPairs: any two calls at once.
func HarnessPairs() {
	kind := sym.Concrete(sym.Choose("kind", kinds))
	img := image(kind)
	cs := calls(kind)
	a := sym.Choose("a", len(cs))
	b := sym.Choose("b", len(cs))
	sym.Assume(a <= b)
	c := []call{cs[a], cs[b]}
	var want [][]byte
	for i := range c {
		want = append(want, c[i].do(open(kind, dev{b: img})))
	}
	fsys := open(kind, dev{b: img})
	sym.Preemptions(sym.Param("preempt", 1, 3))
	together([]func() []byte{
		func() []byte { return c[0].do(fsys) },
		func() []byte { return c[1].do(fsys) },
	}, want)
}

// HarnessReads: calls that are interleaved at every read of the archive.
func HarnessReads() {
	kind := sym.Concrete(sym.Choose("kind", kinds))
	img := image(kind)
	c := []call{{0, "f"}, {0, "f"}}
	if kind != ar {
		c = []call{{0, "l"}, {2, "m"}}
		switch sym.Choose("with", 3) {
		case 1:
			c[1] = call{0, "m/up"}
		case 2:
			c[1] = call{0, "l"}
		}
	} else if sym.Bool("other") {
		c[1].path = "g"
	}
	var want [][]byte
	for i := range c {
		want = append(want, c[i].do(open(kind, dev{b: img})))
	}
	fsys := open(kind, dev{b: img, yield: true})
	sym.Preemptions(sym.Param("preempt2", 1, 3))
	together([]func() []byte{
		func() []byte { return c[0].do(fsys) },
		func() []byte { return c[1].do(fsys) },
	}, want)
}

// HarnessThree: three goroutines that make two calls each.
func HarnessThree() {
	kind := sym.Concrete(sym.Choose("kind", kinds))
	img := image(kind)
	cs := calls(kind)
	step := sym.Param("step", 4, 2)
	k := sym.Choose("k", len(cs)/step)
	var c [3][2]call
	var want [][]byte
	for i := range c {
		c[i] = [2]call{cs[(k*step+7*i)%len(cs)], cs[(k*step+7*i+3)%len(cs)]}
		w := c[i][0].do(open(kind, dev{b: img}))
		want = append(want, append(w, c[i][1].do(open(kind, dev{b: img}))...))
	}
	fsys := open(kind, dev{b: img})
	sym.Preemptions(sym.Param("preempt3", 1, 2))
	var run []func() []byte
	for i := range c {
		run = append(run, func() []byte {
			return append(c[i][0].do(fsys), c[i][1].do(fsys)...)
		})
	}
	together(run, want)
}

// HarnessEntries: the entries of one listing used by two goroutines.
func HarnessEntries() {
	kind := sym.Concrete(sym.Choose("kind", kinds))
	img := image(kind)
	read := func(l []fs.DirEntry) func() []byte {
		return func() (b []byte) {
			for _, e := range l {
				b = entry(b, e)
			}
			return b
		}
	}
	l, err := open(kind, dev{b: img}).ReadDir(".")
	sym.Assert(err == nil, "listing")
	want := read(l)()
	l, err = open(kind, dev{b: img}).ReadDir(".")
	sym.Assert(err == nil, "listing")
	sym.Preemptions(sym.Param("preempt4", 2, 3))
	together([]func() []byte{read(l), read(l)}, [][]byte{want, want})
}

func main() {
	sym.Main(
		sym.Entry{"HarnessPairs", HarnessPairs},
		sym.Entry{"HarnessReads", HarnessReads},
		sym.Entry{"HarnessThree", HarnessThree},
		sym.Entry{"HarnessEntries", HarnessEntries},
	)
}
