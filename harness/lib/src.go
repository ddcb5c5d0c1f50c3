package lib

import (
	"errors"
	"io"
	"io/fs"
	"strings"
	"time"

	"verif.local/harness/sym"
)

// Node is an entry of a source tree, which is also the model that an archive
// made from it is compared with.
type Node struct {
	Nm     string
	M      fs.FileMode
	MTime  time.Time
	Data   []byte
	Rep    int64 // reported size, when not the size of Data
	HasRep bool
	Link   string
	SysV   any
	Kids   []*Node
	Up     *Node
	// Reader replaces the content of a file.
	Reader func() io.Reader
}

// Dir, File and Link make nodes.
func Dir(name string, perm fs.FileMode, kids ...*Node) *Node {
	return &Node{Nm: name, M: fs.ModeDir | perm, Kids: kids}
}

func File(name string, perm fs.FileMode, data []byte) *Node {
	return &Node{Nm: name, M: perm, Data: data}
}

func Link(name, target string) *Node {
	return &Node{Nm: name, M: fs.ModeSymlink | 0o777, Link: target}
}

// Join sets the parents of a tree.
func (n *Node) Join() *Node {
	for _, k := range n.Kids {
		k.Up = n
		k.Join()
	}
	return n
}

// Find is the child with that name.
func (n *Node) Find(name string) *Node {
	for _, k := range n.Kids {
		if k.Nm == name {
			return k
		}
	}
	return nil
}

func (n *Node) Name() string       { return n.Nm }
func (n *Node) IsDir() bool        { return n.M&fs.ModeDir != 0 }
func (n *Node) Mode() fs.FileMode  { return n.M }
func (n *Node) Type() fs.FileMode  { return n.M.Type() }
func (n *Node) ModTime() time.Time { return n.MTime }
func (n *Node) Sys() any           { return n.SysV }
func (n *Node) IsLink() bool       { return n.M&fs.ModeSymlink != 0 }
func (n *Node) IsFile() bool       { return n.M&fs.ModeType == 0 }

func (n *Node) Size() int64 {
	if n.HasRep {
		return n.Rep
	}
	if n.IsLink() {
		return int64(len(n.Link))
	}
	return int64(len(n.Data))
}

// entry is a Node seen through a filesystem that can fail.
type entry struct {
	*Node
	s *Src
}

func (e entry) Info() (fs.FileInfo, error) {
	if err := e.s.step(); err != nil {
		return nil, err
	}
	return e.Node, nil
}

// MaxOpen is the number of files of a Src that can be open at the same time.
const MaxOpen = 64

// Src is a read-only filesystem over a tree of nodes. The call with the number
// FailAt (from 1) fails with Err.
type Src struct {
	Root   *Node
	FailAt int
	// FailRead makes a failing Read deliver some bytes with the error.
	FailRead bool
	Err      error
	Calls    int
	Failed   bool
	Opened   int
	Closed   int
}

func (s *Src) step() error {
	s.Calls++
	if s.FailAt != 0 && s.Calls == s.FailAt {
		s.Failed = true
		if s.Err != nil {
			return s.Err
		}
		return ErrIO
	}
	return nil
}

func (s *Src) find(name string) (*Node, error) {
	if !fs.ValidPath(name) {
		return nil, fs.ErrInvalid
	}
	n := s.Root
	if name == "." {
		return n, nil
	}
	for _, c := range strings.Split(name, "/") {
		if n = n.Find(c); n == nil {
			return nil, fs.ErrNotExist
		}
	}
	return n, nil
}

func (s *Src) Open(name string) (fs.File, error) {
	if err := s.step(); err != nil {
		return nil, err
	}
	n, err := s.find(name)
	if err != nil {
		return nil, err
	}
	if s.Opened-s.Closed >= MaxOpen {
		return nil, errors.New("too many open files")
	}
	s.Opened++
	f := &srcFile{s: s, n: n}
	if n.Reader != nil {
		f.r = n.Reader()
		if wt, ok := f.r.(io.WriterTo); ok {
			return &srcFileTo{f, wt}, nil
		}
	}
	return f, nil
}

func (s *Src) ReadDir(name string) ([]fs.DirEntry, error) {
	if err := s.step(); err != nil {
		return nil, err
	}
	n, err := s.find(name)
	if err != nil {
		return nil, err
	}
	if !n.IsDir() {
		return nil, errors.New("not a directory")
	}
	var out []fs.DirEntry
	for _, k := range n.Kids {
		out = append(out, entry{k, s})
	}
	return out, nil
}

func (s *Src) Stat(name string) (fs.FileInfo, error) {
	if err := s.step(); err != nil {
		return nil, err
	}
	return s.find(name)
}

func (s *Src) StatLink(name string) (fs.FileInfo, error) { return s.Stat(name) }

func (s *Src) ReadLink(name string) (string, error) {
	if err := s.step(); err != nil {
		return "", err
	}
	n, err := s.find(name)
	if err != nil {
		return "", err
	}
	if !n.IsLink() {
		return "", fs.ErrInvalid
	}
	return n.Link, nil
}

// NoLinks hides the link methods of a filesystem.
type NoLinks struct{ S *Src }

func (n NoLinks) Open(name string) (fs.File, error)          { return n.S.Open(name) }
func (n NoLinks) ReadDir(name string) ([]fs.DirEntry, error) { return n.S.ReadDir(name) }
func (n NoLinks) Stat(name string) (fs.FileInfo, error)      { return n.S.Stat(name) }

type srcFile struct {
	s      *Src
	n      *Node
	pos    int
	r      io.Reader
	closed bool
}

type srcFileTo struct {
	*srcFile
	wt io.WriterTo
}

func (f *srcFileTo) WriteTo(w io.Writer) (int64, error) { return f.wt.WriteTo(w) }

func (f *srcFile) Stat() (fs.FileInfo, error) {
	if err := f.s.step(); err != nil {
		return nil, err
	}
	return f.n, nil
}

func (f *srcFile) Read(p []byte) (int, error) {
	err := f.s.step()
	if err != nil && (!f.s.FailRead || f.r != nil) {
		return 0, err
	}
	if f.r != nil {
		return f.r.Read(p)
	}
	if err != nil && f.pos < len(f.n.Data) && len(p) > 0 {
		p[0] = f.n.Data[f.pos]
		f.pos++
		return 1, err
	}
	if err != nil {
		return 0, err
	}
	if f.pos >= len(f.n.Data) {
		return 0, io.EOF
	}
	n := copy(p, f.n.Data[f.pos:])
	f.pos += n
	return n, nil
}

func (f *srcFile) Close() error {
	if !f.closed {
		f.closed = true
		f.s.Closed++
	}
	return nil
}

// LinkFS is what archives with symbolic links provide.
type LinkFS interface {
	fs.FS
	fs.ReadDirFS
	fs.StatFS
	ReadLink(name string) (string, error)
	StatLink(name string) (fs.FileInfo, error)
}

func join(dir, name string) string {
	if dir == "." {
		return name
	}
	return dir + "/" + name
}

// SameTree asserts that fsys shows the tree below n at path p, and nothing else.
// meta is called for every entry but the root.
func SameTree(fsys LinkFS, n *Node, p string, meta func(n *Node, p string, fi fs.FileInfo)) {
	if p != "." {
		fi, err := fsys.StatLink(p)
		sym.Assert(err == nil, "StatLink finds "+p)
		if fi.Mode().Type() != n.M.Type() {
			sym.Fail("type of " + p)
		}
		sym.Assert(fi.Name() == n.Nm, "name of "+p)
		if meta != nil {
			meta(n, p, fi)
		}
	}
	switch {
	case n.IsDir():
		l, err := fsys.ReadDir(p)
		sym.Assert(err == nil, "listing "+p)
		sym.Assert(len(l) == len(n.Kids), "number of entries in "+p)
		for i, k := range n.Kids {
			sym.Assert(l[i].Name() == k.Nm, "listed names in "+p)
			sym.Assert(l[i].IsDir() == k.IsDir(), "listed type in "+p)
			SameTree(fsys, k, join(p, k.Nm), meta)
		}
	case n.IsLink():
		t, err := fsys.ReadLink(p)
		sym.Assert(err == nil, "readlink "+p)
		sym.Assert(sym.EqString(t, n.Link), "link target of "+p)
	default:
		fi, err := fsys.Stat(p)
		sym.Assert(err == nil && fi.Size() == int64(len(n.Data)), "size of "+p)
		f, err := fsys.Open(p)
		sym.Assert(err == nil, "open "+p)
		c, err := ReadAll(f, 512, len(n.Data)+64)
		sym.Assert(err == nil, "reading "+p)
		sym.Assert(sym.EqBytes(c, n.Data), "content of "+p)
		sym.Assert(f.Close() == nil, "closing "+p)
	}
}
