// C20: reading an in-memory directory handle lists each entry once.
package main

import (
	"io"
	"io/fs"

	"github.com/dpeckett/archivefs/memfs"

	"verif.local/harness/lib"
	"verif.local/harness/sym"
)

// tree is a directory of n entries: files and directories, in an order of
// creation that is not the order of their names.
func tree(n int) (*memfs.FS, *lib.Node) {
	fsys := memfs.New()
	model := lib.Dir(".", 0)
	at := "d"
	if sym.Choose("root", 2) == 1 {
		at = "."
	}
	sym.Assert(fsys.MkdirAll("d", 0o755) == nil, "mkdir")
	lib.ModelMkdirAll(model, "d", 0o755)
	for i := 0; i < n; i++ {
		p := string([]byte{"bdacf"[i]})
		if at == "d" {
			p = "d/" + p
		} else if p == "d" {
			continue
		}
		perm := fs.FileMode(sym.U16("perm") & 0o777)
		if i%2 == 0 {
			lib.ModelWrite(model, p, make([]byte, i), perm)
			sym.Assert(fsys.WriteFile(p, make([]byte, i), perm) == nil, "write")
		} else {
			lib.ModelMkdirAll(model, p, perm)
			sym.Assert(fsys.MkdirAll(p, perm) == nil, "mkdir")
		}
	}
	d, _ := lib.ModelGet(model, at)
	return fsys, d
}

func openDir(fsys fs.FS, d *lib.Node) fs.ReadDirFile {
	f, err := fsys.Open(d.Nm)
	sym.Assert(err == nil, "open")
	r, ok := f.(fs.ReadDirFile)
	sym.Assert(ok, "a directory can be listed")
	return r
}

// lister checks the chunks of one handle.
type lister struct {
	r    fs.ReadDirFile
	d    *lib.Node
	kids []*lib.Node
	seen map[string]int
	// ended is set when everything has been listed.
	got   int
	ended bool
}

func newLister(fsys fs.FS, d *lib.Node) *lister {
	return &lister{r: openDir(fsys, d), d: d, kids: d.Kids, seen: map[string]int{}}
}

func (l *lister) next(n int) {
	es, err := l.r.ReadDir(n)
	rest := len(l.kids) - l.got
	if n > 0 {
		sym.Assert(len(es) <= n, "at most n entries")
		if rest == 0 {
			sym.Assert(len(es) == 0 && err == io.EOF, "io.EOF with no entries left")
			sym.Reach("eof")
		} else {
			sym.Assert(err == nil && len(es) > 0, "entries are left")
			sym.Reach("chunk")
		}
	} else {
		sym.Assert(err == nil, "no error for all entries")
		sym.Assert(len(es) == rest, "all entries that are left")
		sym.Reach("all")
	}
	for _, e := range es {
		k := l.d.Find(e.Name())
		sym.Assert(k != nil, "an entry of the directory")
		l.seen[e.Name()]++
		sym.Assert(l.seen[e.Name()] == 1, "each entry once")
		sym.Assert(e.IsDir() == k.IsDir() && e.Type() == k.M.Type(), "type")
		fi, err := e.Info()
		sym.Assert(err == nil && fi.Name() == k.Nm && fi.Mode() == k.M && fi.IsDir() == k.IsDir(), "information")
		if !k.IsDir() {
			sym.Assert(fi.Size() == int64(len(k.Data)), "size")
		}
	}
	l.got += len(es)
}

func (l *lister) finish() {
	l.next(-1)
	sym.Assert(l.got == len(l.kids), "every entry")
}

// HarnessChunks: any sizes of chunks and any order of the map.
func HarnessChunks() {
	sym.MapOrder(24)
	fsys, d := tree(sym.Choose("n", 5))
	l := newLister(fsys, d)
	for i := 0; i < sym.Param("calls", 3, 4); i++ {
		n := sym.Choose("chunk", 5) - 1
		l.next(n)
	}
	l.finish()
}

// HarnessAny: chunks of any size at all.
func HarnessAny() {
	fsys, d := tree(sym.Choose("n", 6))
	l := newLister(fsys, d)
	l.next(int(sym.U64("first")))
	l.next(int(sym.U64("second")))
	l.finish()
}

// HarnessTwo: two handles do not disturb each other.
func HarnessTwo() {
	sym.MapOrder(6)
	fsys, d := tree(4)
	ls := []*lister{newLister(fsys, d), newLister(fsys, d)}
	for i := 0; i < sym.Param("calls", 4, 5); i++ {
		which := sym.Choose("handle", 2)
		n := sym.Choose("chunk", 3)
		ls[which].next(n)
	}
	ls[0].finish()
	ls[1].finish()
}

// HarnessChanges: entries that exist when listing begins are listed once even
// when files are rewritten and entries are added meanwhile.
func HarnessChanges() {
	sym.MapOrder(6)
	fsys, d := tree(3)
	r := openDir(fsys, d)
	seen := map[string]int{}
	list := func(n int) {
		es, err := r.ReadDir(n)
		sym.Assert(err == nil || (n > 0 && err == io.EOF && len(es) == 0), "listing")
		for _, e := range es {
			seen[e.Name()]++
		}
	}
	pre := ""
	if d.Nm == "d" {
		pre = "d/"
	}
	n1 := sym.Choose("chunk", 3)
	list(n1 + 1)
	what := sym.Choose("change", 4)
	switch what {
	case 0:
		sym.Assert(fsys.WriteFile(pre+"b", []byte("again"), 0o600) == nil, "write")
	case 1:
		sym.Assert(fsys.WriteFile(pre+"0", nil, 0o600) == nil, "write")
	case 2:
		sym.Assert(fsys.MkdirAll(pre+"aa/x", 0o700) == nil, "mkdir")
	}
	n2 := sym.Choose("chunk", 3)
	list(n2)
	list(-1)
	list(1)
	for _, k := range d.Kids {
		sym.Assert(seen[k.Nm] == 1, "each entry once")
	}
	for _, c := range seen {
		sym.Assert(c == 1, "nothing twice")
	}
	sym.Reach("done")
}

// HarnessWide: large directories.
func HarnessWide() {
	sym.StepLimit(400000000)
	fsys := memfs.New()
	d := lib.Dir("d", 0o755)
	sym.Assert(fsys.MkdirAll("d", 0o755) == nil, "mkdir")
	names := lib.Sorted([]int{20, 100, 300, 1100}[sym.Choose("n", 4)], 5)
	for i, name := range names {
		d.Kids = append(d.Kids, lib.File(name, 0o600, nil))
		name = names[(i*7+3)%len(names)]
		sym.Assert(fsys.WriteFile("d/"+name, nil, 0o600) == nil, "write")
	}
	l := newLister(fsys, d)
	chunk := []int{1, 7, 16, 100, 128, 1000, 1024, 5000}[sym.Choose("chunk", 8)]
	for l.got < len(names) {
		was := l.got
		l.next(chunk)
		if l.got == was || sym.Choose("rest", 2) == 1 {
			break
		}
		for i := 0; i < 40 && l.got < len(names); i++ {
			l.next(chunk)
		}
	}
	l.finish()
	l.next(1)
	sym.Reach("done")
}

func main() {
	sym.Main(sym.Entry{"HarnessChunks", HarnessChunks}, sym.Entry{"HarnessAny", HarnessAny}, sym.Entry{"HarnessTwo", HarnessTwo}, sym.Entry{"HarnessChanges", HarnessChanges},
		sym.Entry{"HarnessWide", HarnessWide})
}
