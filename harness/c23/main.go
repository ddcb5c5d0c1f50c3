// C23: a failing or lying source never yields a silently wrong archive.
package main

import (
	"io"
	"io/fs"
	"time"

	"github.com/dpeckett/archivefs/arfs"
	"github.com/dpeckett/archivefs/erofs"
	"github.com/dpeckett/archivefs/tarfs"

	"verif.local/harness/lib"
	"verif.local/harness/sym"
)

func create(kind int, dst *lib.Mem, src fs.FS) error {
	switch kind {
	case 0:
		return arfs.Create(dst, src)
	case 1:
		return tarfs.Create(dst, src)
	}
	return erofs.Create(dst, src)
}

func open(kind int, dst *lib.Mem) fs.FS {
	var fsys fs.FS
	var err error
	switch kind {
	case 0:
		fsys, err = arfs.Open(dst)
	case 1:
		fsys, err = tarfs.Open(dst)
	default:
		fsys, err = erofs.Open(dst)
	}
	sym.Assert(err == nil, "the archive opens")
	return fsys
}

func file(name string, size int) *lib.Node {
	b := make([]byte, size)
	for i := range b {
		b[i] = byte(i)
	}
	if size > 0 {
		b[0], b[size-1] = sym.Byte(name), sym.Byte(name)
	}
	f := lib.File(name, 0o644, b)
	f.MTime = time.Unix(int64(size), 0)
	return f
}

func tree(kind int) *lib.Node {
	flat := lib.Dir(".", 0o755, file("a", 3), file("b", 0), file("c", 8))
	if kind == 0 {
		return flat
	}
	return lib.Dir(".", 0o755, flat.Kids[0], lib.Dir("dir", 0o755, file("big", []int{1500, 513}[sym.Choose("big", 2)]), lib.Link("link", "../a"), lib.Dir("sub", 0o700, file("x", 2))), lib.Dir("e", 0o755), lib.Link("link", "e"), flat.Kids[1])
}

var errs = []error{lib.ErrIO, fs.ErrNotExist, io.ErrUnexpectedEOF, fs.ErrPermission}

// faults makes any one call of the source fail.
func faults(kind int) {
	root := tree(kind)
	good := &lib.Mem{}
	count := &lib.Src{Root: root}
	sym.Assert(create(kind, good, count) == nil, "creating from a healthy source")
	sym.Assert(count.Opened == count.Closed, "every file is closed")
	src := &lib.Src{Root: root}
	src.FailAt = 1 + sym.Choose("call", count.Calls)
	src.Err = errs[sym.Choose("error", len(errs))]
	src.FailRead = sym.Choose("with data", 2) == 1
	dst := &lib.Mem{}
	err := create(kind, dst, src)
	sym.Assert(src.Failed, "the source failed")
	if err == nil {
		sym.Assert(len(dst.B) == len(good.B) && sym.EqBytes(dst.B, good.B), "a failed call of the source makes Create fail")
	} else {
		sym.Reach("failed")
	}
	sym.Assert(src.Opened == src.Closed, "every file is closed")
}

func HarnessAr()    { faults(0) }
func HarnessTar()   { faults(1) }
func HarnessErofs() { faults(2) }

// HarnessSizes: a file reports another size than it has.
func HarnessSizes() {
	kind := sym.Choose("kind", 3)
	size := []int{0, 1, 2, 5, 511, 512, 1024, 1025, 4096, 5000}[sym.Choose("size", sym.Param("sizes", 7, 10))]
	f := file("f", size)
	f.HasRep = true
	how := sym.Choose("how", 6)
	switch how {
	case 0:
		f.Rep = int64(sym.Choose("reported", 4))
	case 1:
		f.Rep = int64(size) + int64([]int{-1, 1, 2, 511, 512, 1024, 4096, 1 << 33}[sym.Choose("more", 8)])
	case 2:
		f.Rep = int64(size) + 1<<32
	case 3:
		f.Rep = -int64(1 + sym.Choose("negative", 3))
	case 4:
		f.Rep = int64(sym.Choose("block", 10)) * 512
	case 5:
		f.Rep = int64(size)
	}
	first := sym.Choose("first", 2) == 1
	root := lib.Dir(".", 0o755, f, file("z", 3))
	if !first {
		root = lib.Dir(".", 0o755, file("a", 3), f)
	}
	src := &lib.Src{Root: root}
	err := create(kind, &lib.Mem{}, src)
	if f.Rep == int64(size) {
		sym.Assert(err == nil, "the reported size is right")
		sym.Reach("right")
	} else {
		sym.Assert(err != nil, "a file that yields another number of bytes than it reported is refused")
		sym.Reach("wrong")
	}
	sym.Assert(src.Opened == src.Closed, "every file is closed")
}

// lyingInfo reports one size with the entry and another with the open file.
type lyingInfo struct {
	fs.FileInfo
	size int64
}

func (l lyingInfo) Size() int64 { return l.size }

type lyingEntry struct {
	fs.DirEntry
	size int64
}

func (l lyingEntry) Info() (fs.FileInfo, error) {
	fi, err := l.DirEntry.Info()
	if err != nil {
		return nil, err
	}
	return lyingInfo{fi, l.size}, nil
}

// lyingFS lists file f with another size than the open file reports.
type lyingFS struct {
	*lib.Src
	size int64
}

func (l lyingFS) ReadDir(name string) ([]fs.DirEntry, error) {
	es, err := l.Src.ReadDir(name)
	for i, e := range es {
		if e.Name() == "f" {
			es[i] = lyingEntry{e, l.size}
		}
	}
	return es, err
}

// HarnessListed: entry and open file disagree on the size. An archive is right
// only if it has the bytes read.
func HarnessListed() {
	kind := sym.Choose("kind", 3)
	size := []int{0, 1, 2, 600, 1024, 1025}[sym.Choose("size", 6)]
	listed := []int{0, 1, 3, 600, 1024, 1 << 40}[sym.Choose("listed", 6)]
	f := file("f", size)
	src := lyingFS{&lib.Src{Root: lib.Dir(".", 0o755, f, file("z", 3))}, int64(listed)}
	dst := &lib.Mem{}
	err := create(kind, dst, src)
	sym.Assert(src.Opened == src.Closed, "every file is closed")
	if err != nil {
		sym.Assert(size != listed, "an honest source is accepted")
		sym.Reach("refused")
		return
	}
	sym.Reach("created")
	fsys := open(kind, dst)
	for _, n := range src.Root.Kids {
		r, err := fsys.Open(n.Nm)
		sym.Assert(err == nil, "open")
		b, err := lib.ReadAll(r, 512, 4096)
		sym.Assert(err == nil && sym.EqBytes(b, n.Data), "the archive agrees with what was read")
	}
}

// HarnessChanging: a file has other content each time it is opened.
func HarnessChanging() {
	kind := sym.Choose("kind", 3)
	sizes := []int{0, 1, 4, 1024, 1030}
	a, b := sizes[sym.Choose("first", 5)], sizes[sym.Choose("later", 5)]
	early, late := sym.Bytes("early", 1), sym.Bytes("late", 1)
	f := lib.File("f", 0o644, make([]byte, a))
	opens := 0
	f.Reader = func() io.Reader {
		opens++
		d, n := early, a
		if opens > 1 {
			d, n = late, b
		}
		c := make([]byte, n)
		if n > 0 {
			c[n-1] = d[0]
		}
		return &stream{c}
	}
	src := &lib.Src{Root: lib.Dir(".", 0o755, f, file("z", 3))}
	dst := &lib.Mem{}
	err := create(kind, dst, src)
	sym.Assert(src.Opened == src.Closed, "every file is closed")
	if a == b || opens == 1 {
		sym.Assert(err == nil, "the size is as reported")
		sym.Reach("same size")
	}
	if err != nil {
		sym.Reach("other size")
		return
	}
	r, err := open(kind, dst).Open("f")
	sym.Assert(err == nil, "open")
	got, err := lib.ReadAll(r, 512, 4096)
	sym.Assert(err == nil && len(got) == a, "the size is as reported")
	if a > 0 {
		sym.Assert(sym.Or(got[a-1] == early[0], sym.And(a == b, got[a-1] == late[0])), "the archive agrees with what was read")
	}
}

type stream struct{ b []byte }

func (s *stream) Read(p []byte) (int, error) {
	n := copy(p, s.b)
	s.b = s.b[n:]
	if len(s.b) == 0 {
		return n, io.EOF
	}
	return n, nil
}

// HarnessLarge: any one call of the source fails while large files are copied,
// or one of them has another size.
func HarnessLarge() {
	sym.StepLimit(400000000)
	kind := sym.Choose("kind", 3)
	size := []int{65536, 70001}[sym.Choose("size", 2)]
	f := lib.File("a", 0o600, lib.Blob("data", size))
	root := lib.Dir(".", 0o755, f, file("b", 3))
	good := &lib.Mem{}
	count := &lib.Src{Root: root}
	sym.Assert(create(kind, good, count) == nil, "creating from a healthy source")
	dst := &lib.Mem{}
	src := &lib.Src{Root: root}
	what := sym.Choose("what", 2)
	if what == 0 {
		src.FailAt = 1 + sym.Choose("call", count.Calls)
		src.FailRead = sym.Choose("with data", 2) == 1
	} else {
		f.HasRep = true
		f.Rep = int64(size + []int{-1, 1, -512, 512, -4096, 4096, -32768, 32768, 1 - size}[sym.Choose("differs", 9)])
	}
	err := create(kind, dst, src)
	if what == 1 {
		sym.Assert(err != nil, "a file that yields another number of bytes than it reported is refused")
	} else if err == nil {
		sym.Assert(len(dst.B) == len(good.B) && sym.EqBytes(dst.B, good.B), "a failed call of the source makes Create fail")
	} else {
		sym.Reach("failed")
	}
	sym.Assert(src.Opened == src.Closed, "every file is closed")
}

func main() {
	sym.Main(sym.Entry{"HarnessAr", HarnessAr}, sym.Entry{"HarnessTar", HarnessTar}, sym.Entry{"HarnessErofs", HarnessErofs},
		sym.Entry{"HarnessSizes", HarnessSizes}, sym.Entry{"HarnessListed", HarnessListed}, sym.Entry{"HarnessChanging", HarnessChanging},
		sym.Entry{"HarnessLarge", HarnessLarge})
}
