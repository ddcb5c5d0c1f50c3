// C07: hard links in a tar filesystem are aliases of their target.
package main

import (
	"archive/tar"
	"io/fs"

	"github.com/dpeckett/archivefs/tarfs"

	"verif.local/harness/lib"
	"verif.local/harness/sym"
)

// HarnessAliases: hard links with any targets, in any order, to a file, a
// symbolic link and each other.
func HarnessAliases() {
	sym.MapOrder(sym.Param("orders", 2, 4))
	mode := sym.String("mode", 3, "01234567")
	uid := sym.String("uid", 5, "01234567")
	mtime := sym.String("mtime", 10, "01234567")
	data := sym.Bytes("data", 3)
	n := sym.Param("target", 3, 4)
	link := func(name string) string {
		return sym.String(name, 1+sym.Choose(name+".len", n), "./0123")
	}
	ms := []lib.TarMember{
		{Name: "0", Type: '0', Mode: mode, Uid: uid, Gid: "7", Mtime: mtime, Data: data},
		{Name: "1", Type: '2', Mode: "777", Uid: "1", Gid: "2", Mtime: "5", Link: "0"},
		{Name: "2", Type: '1', Mode: "111", Uid: "3", Gid: "3", Mtime: "1", Link: link("first")},
		{Name: "3", Type: '1', Mode: "222", Uid: "4", Gid: "4", Mtime: "2", Link: link("second")},
	}
	orders := []string{"2031", "3210", "0123", "1302"}
	order := orders[sym.Choose("order", sym.Param("archive", 2, 4))]
	var b []byte
	for i := range order {
		m := ms[order[i]-'0']
		m.Size = lib.Oct(int64(len(m.Data)))
		b = lib.TarAppend(b, m)
	}
	fsys, err := tarfs.Open(&lib.Mem{B: lib.TarEnd(b)})
	sym.MapOrder(1)

	// the member a hard link ultimately names
	var final [4]*lib.TarMember
	bad := ""
	for i := range ms {
		m := &ms[i]
		for hops := 0; m != nil && m.Type == '1'; hops++ {
			if hops > 4 {
				bad = "cycle"
				m = nil
				break
			}
			comps := lib.Clean(m.Link)
			m = nil
			if len(comps) == 1 {
				for j := range ms {
					if comps[0] == ms[j].Name {
						m = &ms[j]
					}
				}
			}
			if m == nil {
				bad = "missing"
			}
		}
		final[i] = m
	}
	if bad != "" {
		sym.Assert(err != nil, "opening fails for a link to a missing member or a cycle")
		sym.Reach(bad)
		return
	}
	sym.Assert(err == nil, "the archive opens")
	for i := range ms {
		m := final[i]
		name := ms[i].Name
		fi, err := fsys.StatLink(name)
		sym.Assert(err == nil && fi.Name() == name, "the alias has its own name")
		typ := fs.FileMode(0)
		if m.Type == '2' {
			typ = fs.ModeSymlink
		}
		sym.Assert(fi.Mode() == fs.FileMode(lib.Num(m.Mode, 8))|typ, "mode and type of the target")
		h := fi.Sys().(*tar.Header)
		sym.Assert(h.Uid == int(lib.Num(m.Uid, 8)) && h.Gid == int(lib.Num(m.Gid, 8)), "owner of the target")
		sym.Assert(fi.ModTime().Unix() == lib.Num(m.Mtime, 8), "time of the target")
		sym.Assert(fi.Size() == int64(len(m.Data)), "size of the target")
		if m.Type == '2' {
			t, err := fsys.ReadLink(name)
			sym.Assert(err == nil && t == "0", "link target")
			sym.Reach("alias of a symbolic link")
		}
		f, err := fsys.Open(name)
		sym.Assert(err == nil, "open")
		c, err := lib.ReadAll(f, 8, 16)
		sym.Assert(err == nil && sym.EqBytes(c, data), "content of the target")
		if i == 3 && ms[3].Link == "2" {
			sym.Reach("alias of an alias")
		}
	}
	l, err := fsys.ReadDir(".")
	sym.Assert(err == nil && len(l) == 4, "listing")
	for i := range l {
		sym.Assert(l[i].Name() == ms[i].Name, "listed names")
		sym.Assert(l[i].Type().IsRegular() == (final[i].Type == '0'), "listed types")
	}
}

// HarnessPlaces: a hard link and its target anywhere in the tree.
func HarnessPlaces() {
	sym.MapOrder(2)
	paths := []string{"a", "d/b", "d/e/c", ".h"}
	i := sym.Choose("target", 4)
	j := sym.Choose("alias", 4)
	k := sym.Choose("alias2", 4)
	sym.Assume(i != j && j != k && i != k)
	size := sym.Choose("size", 2) * 600
	data := make([]byte, size)
	if size > 0 {
		data[0], data[size-1] = sym.Byte("first"), sym.Byte("last")
	}
	ref := []string{"", "./", "/"}[sym.Choose("spelling", 3)] + paths[i]
	target := lib.TarMember{Name: paths[i], Type: '0', Mode: sym.String("mode", 4, "01234567"), Uid: "1", Gid: "2", Mtime: "3", Data: data}
	alias := lib.TarMember{Name: paths[j], Type: '1', Mode: "0", Uid: "0", Gid: "0", Mtime: "0", Link: ref}
	alias2 := lib.TarMember{Name: paths[k], Type: '1', Mode: "0", Uid: "0", Gid: "0", Mtime: "0", Link: paths[j]}
	var b []byte
	switch sym.Choose("order", 3) {
	case 0:
		b = lib.TarAppend(lib.TarAppend(lib.TarAppend(nil, target), alias), alias2)
	case 1:
		b = lib.TarAppend(lib.TarAppend(lib.TarAppend(nil, alias2), alias), target)
		sym.Reach("target last")
	case 2:
		b = lib.TarAppend(lib.TarAppend(lib.TarAppend(nil, alias), target), alias2)
	}
	fsys, err := tarfs.Open(&lib.Mem{B: lib.TarEnd(b)})
	sym.MapOrder(1)
	sym.Assert(err == nil, "the archive opens")
	orig, err := fsys.Stat(paths[i])
	sym.Assert(err == nil, "stat of the target")
	for _, p := range []string{paths[i], paths[j], paths[k]} {
		fi, err := fsys.Stat(p)
		sym.Assert(err == nil && fi.Mode() == orig.Mode() && fi.Size() == int64(size) && fi.ModTime().Equal(orig.ModTime()), "metadata of the target")
		c := p[len(p)-1:]
		if p == ".h" {
			c = p
		}
		sym.Assert(fi.Name() == c, "own name")
		f, err := fsys.Open(p)
		sym.Assert(err == nil, "open")
		hi, err := f.Stat()
		sym.Assert(err == nil && hi.Name() == c, "own name in the handle")
		got, err := lib.ReadAll(f, 512, 2000)
		sym.Assert(err == nil && sym.EqBytes(got, data), "content of the target")
	}
	sym.Reach("done")
}

// HarnessChain: a chain of hard links of any length, and one that has no end.
func HarnessChain() {
	sym.MapOrder(2)
	n := 2 + sym.Choose("n", sym.Param("chain", 8, 20))
	name := func(i int) string { return "l" + lib.Dec(i) }
	cyc := sym.Choose("cycle", n+1) // where the last link points, or the file
	var b []byte
	for i := 0; i < n; i++ {
		t := name(i + 1)
		if i == n-1 {
			t = "file"
			if cyc < n {
				t = name(cyc)
			}
		}
		b = lib.TarAppend(b, lib.TarMember{Name: name(i), Type: '1', Mode: "0", Uid: "0", Gid: "0", Mtime: "0", Link: t})
	}
	c := []byte{sym.Byte("data")}
	b = lib.TarAppend(b, lib.TarMember{Name: "file", Type: '0', Mode: "0644", Uid: "0", Gid: "0", Mtime: "0", Data: c})
	fsys, err := tarfs.Open(&lib.Mem{B: lib.TarEnd(b)})
	sym.MapOrder(1)
	if cyc < n {
		sym.Assert(err != nil, "a cycle is rejected")
		sym.Reach("cycle")
		return
	}
	sym.Assert(err == nil, "a chain is resolved")
	for i := 0; i < n; i++ {
		f, err := fsys.Open(name(i))
		sym.Assert(err == nil, "open")
		got, err := lib.ReadAll(f, 4, 8)
		sym.Assert(err == nil && sym.EqBytes(got, c), "content")
	}
	sym.Reach("chain")
}

// HarnessLong: chains of many hard links, and many links to one file.
func HarnessLong() {
	sym.StepLimit(400000000)
	n := sym.Param("links", 150, 600)
	names := lib.Sorted(n, 9)
	chain := sym.Choose("chain", 2) == 0
	last := sym.Choose("last", 2) == 1
	c := lib.Blob("data", 700)
	file := lib.TarMember{Name: "file", Type: '0', Mode: "0641", Uid: "0", Gid: "0", Mtime: "5", Data: c}
	var b []byte
	if !last {
		b = lib.TarAppend(b, file)
	}
	for i := range names {
		t := "file"
		if chain && i > 0 {
			t = names[i-1]
		}
		b = lib.TarAppend(b, lib.TarMember{Name: names[i], Type: '1', Mode: "0", Uid: "0", Gid: "0", Mtime: "0", Link: t})
	}
	if last {
		b = lib.TarAppend(b, file)
	}
	fsys, err := tarfs.Open(&lib.Mem{B: lib.TarEnd(b)})
	sym.Assert(err == nil, "hard links are resolved")
	for _, p := range names {
		fi, err := fsys.Stat(p)
		sym.Assert(err == nil && fi.Mode() == 0o641 && fi.Size() == 700 && fi.ModTime().Unix() == 5 && fi.Name() == p, "metadata of the target")
		f, err := fsys.Open(p)
		sym.Assert(err == nil, "open")
		got, err := lib.ReadAll(f, 512, 800)
		sym.Assert(err == nil && sym.EqBytes(got, c), "content of the target")
	}
	sym.Reach("done")
}

func main() {
	sym.Main(sym.Entry{"HarnessAliases", HarnessAliases}, sym.Entry{"HarnessPlaces", HarnessPlaces}, sym.Entry{"HarnessChain", HarnessChain},
		sym.Entry{"HarnessLong", HarnessLong})
}
