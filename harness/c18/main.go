// C18: the in-memory filesystem behaves as a map from paths to entries.
package main

import (
	"io/fs"

	"github.com/dpeckett/archivefs/memfs"

	"verif.local/harness/lib"
	"verif.local/harness/sym"
)

func perm(name string) fs.FileMode { return fs.FileMode(sym.U16(name)) & 0o777 }

// path is a path of up to max components.
func path(name string, max int, alphabet string) string {
	n := 1 + sym.Choose(name+".depth", max)
	b := sym.String(name, n, alphabet)
	p := b[:1]
	for i := 1; i < n; i++ {
		p += "/" + b[i:i+1]
	}
	return p
}

// step is one call, the i-th.
func step(fsys lib.MemFS, model *lib.Node, i int, p string, prm fs.FileMode) {
	if sym.Choose("op", 2) == 0 {
		want := lib.ModelMkdirAll(model, p, prm)
		lib.SameErr(fsys.MkdirAll(p, prm), want, "MkdirAll")
		if want != nil {
			sym.Reach("mkdir refused")
		}
		return
	}
	data := sym.Bytes("data"+lib.Dec(i), i)
	want := lib.ModelWrite(model, p, data, prm)
	lib.SameErr(fsys.WriteFile(p, data, prm), want, "WriteFile")
	if want != nil {
		sym.Reach("write refused")
	}
}

// query compares every lookup of p with the model.
func query(fsys lib.MemFS, model *lib.Node, p string) {
	n, want := lib.ModelGet(model, p)
	_, err := fs.Stat(fsys, p)
	lib.SameErr(err, want, "Stat")
	f, err := fsys.Open(p)
	lib.SameErr(err, want, "Open")
	if err == nil {
		f.Close()
	}
	b, err := fs.ReadFile(fsys, p)
	_, lerr := fs.ReadDir(fsys, p)
	sub, serr := fsys.Sub(p)
	if want != nil {
		lib.SameErr(err, want, "ReadFile")
		lib.SameErr(lerr, want, "ReadDir")
		lib.SameErr(serr, want, "Sub")
		sym.Reach("absent")
		return
	}
	if !n.IsDir() {
		sym.Assert(err == nil && sym.EqBytes(b, n.Data), "ReadFile")
		sym.Assert(lerr != nil, "a file is not listed")
		sym.Assert(serr != nil, "a file is no subtree")
		sym.Reach("file")
		return
	}
	sym.Assert(err != nil, "a directory is not read")
	sym.Assert(lerr == nil && serr == nil, "ReadDir and Sub")
	lib.SameMem(sub, n, ".")
	lib.SameWalk(sub, n)
	sym.Reach("directory")
}

// HarnessHistories: any calls in any order.
func HarnessHistories() {
	fsys := memfs.New()
	model := lib.Dir(".", 0)
	n := sym.Param("ops", 4, 5)
	for i := 0; i < n; i++ {
		step(fsys, model, i, path("p"+lib.Dec(i), sym.Param("depth", 3, 3), "ab"), perm("perm"))
	}
	lib.SameMem(fsys, model, ".")
	lib.SameWalk(fsys, model)
	sym.Reach("done")
}

func fixed() (*memfs.FS, *lib.Node) {
	fsys := memfs.New()
	model := lib.Dir(".", 0)
	for i, p := range []string{"a", "b/a", "b/c", "c/a/b"} {
		lib.ModelMkdirAll(model, p, fs.FileMode(0o700+i))
		sym.Assert(fsys.MkdirAll(p, fs.FileMode(0o700+i)) == nil, "MkdirAll")
	}
	for i, p := range []string{"d", "b/b", "c/a/a", "c/.b"} {
		data := sym.Bytes("fixed"+lib.Dec(i), i)
		lib.ModelWrite(model, p, data, fs.FileMode(0o600+i))
		sym.Assert(fsys.WriteFile(p, data, fs.FileMode(0o600+i)) == nil, "WriteFile")
	}
	return fsys, model
}

// HarnessPaths: one call and one lookup with any path.
func HarnessPaths() {
	fsys, model := fixed()
	p := sym.String("path", sym.Choose("len", sym.Param("path", 9, 11)), "./abd")
	switch sym.Choose("way", 2) {
	case 0:
		step(fsys, model, 3, p, perm("perm"))
		lib.SameMem(fsys, model, ".")
	default:
		query(fsys, model, p)
	}
}

// HarnessNames: any bytes in names.
func HarnessNames() {
	fsys, model := fixed()
	p := string(sym.Bytes("path", 1+sym.Choose("len", sym.Param("name", 4, 5))))
	step(fsys, model, 2, p, perm("perm"))
	query(fsys, model, p)
	query(fsys, model, "c")
	lib.SameWalk(fsys, model)
}

// HarnessSub: calls on a subtree are calls on the tree.
func HarnessSub() {
	fsys, model := fixed()
	at := []string{"b", "c/a", "."}[sym.Choose("at", 3)]
	s, err := fsys.Sub(at)
	sym.Assert(err == nil, "Sub")
	sub, ok := s.(lib.MemFS)
	if !ok {
		return
	}
	n, _ := lib.ModelGet(model, at)
	step(sub, n, 3, path("p", 2, "abc"), perm("perm"))
	step(fsys, model, 2, path("q", 2, "bc"), perm("perm"))
	lib.SameMem(fsys, model, ".")
	lib.SameMem(sub, n, ".")
	sym.Reach("done")
}

// HarnessScale: large files, large and deep directories.
func HarnessScale() {
	sym.StepLimit(400000000)
	fsys := memfs.New()
	model := lib.Dir(".", 0)
	mkdir := func(p string, perm fs.FileMode) {
		lib.SameErr(fsys.MkdirAll(p, perm), lib.ModelMkdirAll(model, p, perm), "MkdirAll")
	}
	write := func(p string, data []byte, perm fs.FileMode) {
		lib.SameErr(fsys.WriteFile(p, data, perm), lib.ModelWrite(model, p, data, perm), "WriteFile")
	}
	switch sym.Choose("what", 3) {
	case 0:
		size := []int{511, 4097, 65537, 70001, 1<<20 + 1, 1<<22 + 1}[sym.Choose("size", sym.Param("large", 5, 6))]
		write("big", lib.Blob("data", size), 0o600)
		write("other", lib.Blob("more", 700), 0o640)
		if sym.Choose("again", 2) == 1 {
			write("big", lib.Blob("new", 600), 0o644)
			sym.Reach("shrunk")
		}
	case 1:
		mkdir("w", 0o700)
		names := lib.Sorted(sym.Param("wide", 300, 1000), 6)
		for i := range names {
			name := "w/" + names[(i*7+3)%len(names)]
			if i%5 == 4 {
				mkdir(name+"/sub", fs.FileMode(0o700+i%64))
			} else {
				write(name, []byte{byte(i), sym.Byte("any")}[:i%3], fs.FileMode(0o600+i%64))
			}
		}
		sym.Reach("wide")
	case 2:
		p := "d"
		for i := 1; i < sym.Param("deep", 40, 80); i++ {
			if i%9 == 0 {
				mkdir(p, fs.FileMode(0o700+i))
				write(p+"/f", []byte{byte(i), sym.Byte("any")}, fs.FileMode(0o600+i))
			}
			p += "/d" + lib.Dec(i)
		}
		mkdir(p, 0o711)
		write(p+"/f", []byte{sym.Byte("any")}, 0o600)
		sym.Reach("deep")
	}
	lib.SameMem(fsys, model, ".")
	lib.SameWalk(fsys, model)
}

// HarnessTwo: two archives with the same names.
func HarnessTwo() {
	lib.Two(func(root *lib.Node) fs.FS {
		fsys := memfs.New()
		var put func(n *lib.Node, p string)
		put = func(n *lib.Node, p string) {
			for _, k := range n.Kids {
				if k.IsDir() {
					sym.Assert(fsys.MkdirAll(p+k.Nm, k.M.Perm()) == nil, "MkdirAll")
					put(k, p+k.Nm+"/")
				} else {
					sym.Assert(fsys.WriteFile(p+k.Nm, k.Data, k.M.Perm()) == nil, "WriteFile")
				}
			}
		}
		put(root, "")
		return fsys
	}, true, false)
}

func main() {
	sym.Main(sym.Entry{"HarnessHistories", HarnessHistories}, sym.Entry{"HarnessPaths", HarnessPaths},
		sym.Entry{"HarnessNames", HarnessNames}, sym.Entry{"HarnessSub", HarnessSub},
		sym.Entry{"HarnessScale", HarnessScale}, sym.Entry{"HarnessTwo", HarnessTwo})
}
