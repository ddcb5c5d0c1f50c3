// C27: archives are reproducible.
package main

import (
	"archive/tar"
	"io"
	"io/fs"
	"sync"
	"syscall"
	"time"

	"github.com/dpeckett/archivefs/arfs"
	"github.com/dpeckett/archivefs/erofs"
	"github.com/dpeckett/archivefs/memfs"
	"github.com/dpeckett/archivefs/tarfs"

	"verif.local/harness/lib"
	"verif.local/harness/sym"
)

const (
	ar = iota
	tarK
	erofsK
)

func create(kind int, src fs.FS) []byte {
	dst := &lib.Mem{}
	var err error
	switch kind {
	case ar:
		err = arfs.Create(dst, src)
	case tarK:
		err = tarfs.Create(dst, src)
	default:
		err = erofs.Create(dst, src)
	}
	sym.Assert(err == nil, "the tree is accepted")
	return dst.B
}

func open(kind int, b []byte) fs.FS {
	var fsys fs.FS
	var err error
	switch kind {
	case ar:
		fsys, err = arfs.Open(&lib.Mem{B: b})
	case tarK:
		fsys, err = tarfs.Open(&lib.Mem{B: b})
	default:
		fsys, err = erofs.Open(&lib.Mem{B: b})
	}
	sym.Assert(err == nil, "what Create wrote opens")
	return fsys
}

func equal(a, b []byte, what string) {
	sym.Assert(len(a) == len(b), "length of "+what)
	sym.Assert(sym.EqBytes(a, b), what)
}

// pieces reads data a few bytes at a time.
type pieces struct {
	b []byte
	n int
}

func (c *pieces) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p[:min(len(p), c.n)], c.b)
	c.b = c.b[n:]
	if len(c.b) == 0 {
		return n, io.EOF
	}
	return n, nil
}

// tree is a source with k entries of any metadata.
func tree(kind, k int) *lib.Node {
	root := lib.Dir(".", 0o755)
	any := sym.Choose("any", k+2)
	if any == k+1 {
		// no arbitrary metadata, but other orders of maps
		sym.MapOrder(2)
	}
	if kind != ar {
		meta(kind, root, any == k)
	}
	d := root
	for i := 0; i < k; i++ {
		kinds := 3
		if kind == ar {
			kinds = 1
		}
		var n *lib.Node
		name := string([]byte{byte('a' + i)})
		switch sym.Choose("kind", kinds) {
		case 0:
			n = lib.File(name, 0, sym.Bytes("data", []int{0, 1, 2, 1025}[sym.Choose("size", 3+i&1)]))
		case 1:
			n = lib.Dir(name, 0)
		case 2:
			n = lib.Link(name, "../"+string(sym.Bytes("target", 1)))
			sym.Assume(n.Link[3] >= 'a' && n.Link[3] <= 'z')
		}
		meta(kind, n, i == any)
		d.Kids = append(d.Kids, n)
		if n.IsDir() && sym.Bool("into") {
			d = n
		}
	}
	return root
}

// meta gives an entry metadata, one kind of it arbitrary for the chosen entry.
func meta(kind int, n *lib.Node, any bool) {
	n.M = n.M.Type() | 0o644
	n.MTime = time.Unix(1000000000, 0)
	if !any {
		if n.Nm == "b" {
			n.MTime = time.Time{}
			n.SysV = &tar.Header{Uid: 1, Gid: 2, Mode: 0o644}
		}
		return
	}
	switch sym.Choose("field", 5) {
	case 0:
		n.M = n.M.Type() | fs.FileMode(sym.U16("perm")&0o777)
	case 1:
		n.MTime = time.Unix(int64(sym.Range("sec", 1<<30, 1<<30+99)), []int64{0, 1, 500000000, 999999999}[sym.Choose("nsec", 4)])
	case 2:
		n.MTime = time.Time{}
	case 3:
		n.SysV = &tar.Header{Uid: sym.Range("uid", 0, 999), Gid: sym.Range("gid", 0, 9), Mode: 0o644}
	case 4:
		n.SysV = &syscall.Stat_t{Uid: uint32(sym.Range("uid", 0, 9)), Gid: uint32(sym.Range("gid", 0, 999)), Nlink: 1}
	}
}

// HarnessTwice: two archives made from one source, at other times, with other
// orders of maps, and with the content in other pieces.
func HarnessTwice() {
	kind := sym.Choose("format", 3)
	root := tree(kind, 1+sym.Choose("entries", sym.Param("entries", 2, 3)))
	a := create(kind, &lib.Src{Root: root})
	sym.Tick()
	if sym.Bool("pieces") {
		cut(root)
	}
	b := create(kind, &lib.Src{Root: root})
	equal(a, b, "both archives are the same")
	sym.Reach("done")
}

func cut(n *lib.Node) {
	for _, k := range n.Kids {
		k := k
		cut(k)
		if k.IsFile() {
			k.Reader = func() io.Reader { return &pieces{k.Data, 1 + len(k.Data)/3} }
		}
	}
}

// HarnessCopies: an archive made from an archive is the same.
func HarnessCopies() {
	kind := sym.Choose("format", 3)
	root := tree(kind, 1+sym.Choose("entries", sym.Param("entries", 2, 3)))
	a := create(kind, &lib.Src{Root: root})
	sym.Tick()
	if kind == erofsK {
		// entries without a time have the epoch from now on
		a = create(kind, open(kind, a))
		sym.Tick()
	}
	b := create(kind, open(kind, a))
	equal(a, b, "a copy is the same")
	sym.Reach("done")
}

// HarnessMem: archives made from in-memory filesystems that were filled in
// another order.
func HarnessMem() {
	kind := sym.Choose("format", 3)
	names := []string{"a", "b", "c"}
	if kind != ar {
		names = []string{"d/a", "b", "d/e"}[:sym.Param("files", 2, 3)]
	}
	x, y := memfs.New(), memfs.New()
	data := [][]byte{sym.Bytes("data", 2), sym.Bytes("data", 1), nil}
	sym.MapOrder(sym.Param("orders", 2, 6))
	put := func(fsys *memfs.FS, i int) {
		if kind != ar {
			sym.Assert(fsys.MkdirAll("d", 0o700) == nil, "MkdirAll")
		}
		sym.Assert(fsys.WriteFile(names[i], data[i], 0o600) == nil, "WriteFile")
	}
	for i := range names {
		put(x, i)
	}
	for i := range names {
		put(y, len(names)-1-i)
	}
	a := create(kind, x)
	sym.Tick()
	equal(a, create(kind, y), "both archives are the same")
	sym.Reach("done")
}

// HarnessTogether: archives that are made and opened at the same time are as
// when made alone.
func HarnessTogether() {
	kinds := []int{sym.Concrete(sym.Choose("first", 3)), sym.Concrete(sym.Choose("second", 3))}
	sym.Assume(kinds[0] <= kinds[1])
	var roots []*lib.Node
	var want, got [][]byte
	for i, kind := range kinds {
		root := lib.Dir(".", 0o755, lib.File("f", 0o600, sym.Bytes("data", 3)), lib.File("g", 0o640, lib.Blob("large", 1030)))
		if kind != ar {
			root.Kids = append(root.Kids, lib.Dir("h", 0o711, lib.File("x", 0o604, sym.Bytes("data", 1)), lib.Link("y", "../f")))
		}
		roots = append(roots, root)
		got = append(got, nil)
		want = append(want, create(kind, &lib.Src{Root: roots[i]}))
	}
	sym.Preemptions(sym.Param("together", 1, 2))
	var wg sync.WaitGroup
	for i, kind := range kinds {
		wg.Add(1)
		go func() {
			defer wg.Done()
			b := create(kind, &lib.Src{Root: roots[i]})
			got[i] = b
			c, err := fs.ReadFile(open(kind, b), "g")
			sym.Assert(err == nil && sym.EqBytes(c, roots[i].Kids[1].Data), "content of what was made at the same time")
		}()
	}
	wg.Wait()
	for i := range kinds {
		equal(want[i], got[i], "an archive made at the same time as another is the same")
	}
	sym.Reach("done")
}

// HarnessScale: large files and directories.
func HarnessScale() {
	sym.StepLimit(400000000)
	kind := sym.Choose("format", 3)
	root := lib.Dir(".", 0o755)
	switch sym.Choose("what", 2) {
	case 0:
		size := []int{65536, 70001, 1<<20 + 1}[sym.Choose("size", 3)]
		root.Kids = append(root.Kids, lib.File("a", 0o600, lib.Blob("data", size)), lib.File("b", 0o600, lib.Blob("more", 1500)))
		sym.Reach("large file")
	case 1:
		d := lib.Wide("w", sym.Param("wide", 100, 400), 13)
		if kind == ar {
			root = d
			root.Nm = "."
		} else {
			root.Kids = append(root.Kids, lib.Wide("v", 20, 40), d, lib.File("z", 0o600, []byte{sym.Byte("data")}))
		}
		sym.Reach("many entries")
	}
	var give func(n *lib.Node)
	give = func(n *lib.Node) {
		for i, k := range n.Kids {
			k.MTime = time.Unix(1000000000+int64(i), 0)
			give(k)
		}
	}
	give(root)
	a := create(kind, &lib.Src{Root: root})
	sym.Tick()
	if sym.Choose("copy", 2) == 1 {
		if kind == erofsK {
			a = create(kind, open(kind, a))
		}
		equal(a, create(kind, open(kind, a)), "a copy is the same")
		return
	}
	cut(root)
	sym.MapOrder(2)
	equal(a, create(kind, &lib.Src{Root: root}), "both archives are the same")
}

func main() {
	sym.Main(sym.Entry{"HarnessTwice", HarnessTwice}, sym.Entry{"HarnessCopies", HarnessCopies}, sym.Entry{"HarnessMem", HarnessMem},
		sym.Entry{"HarnessScale", HarnessScale}, sym.Entry{"HarnessTogether", HarnessTogether})
}
