package lib

import (
	"errors"
	"io/fs"
	"strings"

	"verif.local/harness/sym"
)

// MemFS is what an in-memory filesystem provides.
type MemFS interface {
	fs.FS
	MkdirAll(path string, perm fs.FileMode) error
	WriteFile(path string, data []byte, perm fs.FileMode) error
	Sub(path string) (fs.FS, error)
}

// add puts a child in its place in the order of names.
func (n *Node) add(k *Node) {
	k.Up = n
	at := len(n.Kids)
	for at > 0 && n.Kids[at-1].Nm > k.Nm {
		at--
	}
	n.Kids = append(n.Kids, nil)
	copy(n.Kids[at+1:], n.Kids[at:])
	n.Kids[at] = k
}

// ModelMkdir makes one directory (its parent has to exist) in the model.
func ModelMkdir(dir *Node, name string, perm fs.FileMode) (*Node, error) {
	k := dir.Find(name)
	if k == nil {
		k = Dir(name, perm)
		dir.add(k)
	}
	if !k.IsDir() {
		return nil, fs.ErrInvalid
	}
	return k, nil
}

// ModelMkdirAll is the reference of MkdirAll.
func ModelMkdirAll(root *Node, path string, perm fs.FileMode) error {
	if !fs.ValidPath(path) {
		return fs.ErrInvalid
	}
	if path == "." {
		return nil
	}
	cur := root
	for _, c := range strings.Split(path, "/") {
		var err error
		if cur, err = ModelMkdir(cur, c, perm); err != nil {
			return err
		}
	}
	return nil
}

// ModelGet is the reference of a lookup.
func ModelGet(root *Node, path string) (*Node, error) {
	if !fs.ValidPath(path) {
		return nil, fs.ErrInvalid
	}
	cur := root
	if path == "." {
		return cur, nil
	}
	for _, c := range strings.Split(path, "/") {
		if !cur.IsDir() {
			return nil, fs.ErrNotExist
		}
		if cur = cur.Find(c); cur == nil {
			return nil, fs.ErrNotExist
		}
	}
	return cur, nil
}

// ModelWrite is the reference of WriteFile.
func ModelWrite(root *Node, path string, data []byte, perm fs.FileMode) error {
	if !fs.ValidPath(path) || path == "." {
		return fs.ErrInvalid
	}
	dir, name := ".", path
	if i := strings.LastIndex(path, "/"); i >= 0 {
		dir, name = path[:i], path[i+1:]
	}
	d, err := ModelGet(root, dir)
	if err != nil {
		return err
	}
	if !d.IsDir() {
		return fs.ErrNotExist
	}
	k := d.Find(name)
	if k == nil {
		k = File(name, perm, nil)
		d.add(k)
	}
	if k.IsDir() {
		return fs.ErrExist
	}
	k.Data = append([]byte(nil), data...)
	return nil
}

// SameErr asserts that err is as the reference says.
func SameErr(err, want error, what string) {
	if want == nil {
		sym.Assert(err == nil, what+" succeeds")
		return
	}
	sym.Assert(err != nil, what+" fails")
	sym.Assert(errors.Is(err, want), what+" reports the matching error")
}

// SameMem asserts that fsys shows the tree below n at path p, and nothing else.
func SameMem(fsys fs.FS, n *Node, p string) {
	fi, err := fs.Stat(fsys, p)
	sym.Assert(err == nil, "stat")
	sym.Assert(fi.Mode() == n.M, "mode")
	sym.Assert(fi.IsDir() == n.IsDir(), "type")
	if p != "." {
		sym.Assert(fi.Name() == n.Nm, "name")
	}
	if !n.IsDir() {
		sym.Assert(fi.Size() == int64(len(n.Data)), "size")
		b, err := fs.ReadFile(fsys, p)
		sym.Assert(err == nil && sym.EqBytes(b, n.Data), "content")
		_, err = fs.ReadDir(fsys, p)
		sym.Assert(err != nil, "a file is not listed")
		return
	}
	l, err := fs.ReadDir(fsys, p)
	sym.Assert(err == nil && len(l) == len(n.Kids), "number of entries")
	for i, k := range n.Kids {
		sym.Assert(l[i].Name() == k.Nm, "listed name")
		sym.Assert(l[i].IsDir() == k.IsDir() && l[i].Type() == k.M.Type(), "listed type")
		fi, err := l[i].Info()
		sym.Assert(err == nil && fi.Mode() == k.M && fi.Name() == k.Nm, "listed information")
		SameMem(fsys, k, join(p, k.Nm))
	}
}

// Paths lists a tree in the order of WalkDir.
func Paths(n *Node, p string) []string {
	out := []string{p}
	for _, k := range n.Kids {
		out = append(out, Paths(k, join(p, k.Nm))...)
	}
	return out
}

// SameWalk asserts that WalkDir visits a tree in lexical order.
func SameWalk(fsys fs.FS, n *Node) {
	want := Paths(n, ".")
	i := 0
	err := fs.WalkDir(fsys, ".", func(p string, d fs.DirEntry, err error) error {
		sym.Assert(err == nil, "walk")
		sym.Assert(i < len(want) && p == want[i], "order of the walk")
		i++
		return nil
	})
	sym.Assert(err == nil && i == len(want), "the walk visits every entry")
}
