// C22: failed destination writes are never reported as success.
package main

import (
	"errors"
	"io"
	"io/fs"
	"strings"
	"time"

	"github.com/dpeckett/archivefs/arfs"
	"github.com/dpeckett/archivefs/erofs"
	"github.com/dpeckett/archivefs/tarfs"

	"verif.local/harness/lib"
	"verif.local/harness/sym"
)

// create makes an archive of a kind.
func create(kind int, dst *lib.Mem, src fs.FS) error {
	switch kind {
	case 0:
		return arfs.Create(plain{dst}, src)
	case 1:
		return tarfs.Create(plain{dst}, src)
	}
	return erofs.Create(dst, src)
}

// plain is a destination that can only write.
type plain struct{ w io.Writer }

func (p plain) Write(b []byte) (int, error) { return p.w.Write(b) }

// chunks reads data a few bytes at a time, so that it takes several writes.
type chunks struct {
	b []byte
	n int
}

func (c *chunks) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p[:min(len(p), c.n)], c.b)
	c.b = c.b[n:]
	return n, nil
}

func file(name string, size, chunk int) *lib.Node {
	b := make([]byte, size)
	for i := range b {
		b[i] = byte(i)
	}
	if size > 0 {
		b[0], b[size-1] = sym.Byte(name), sym.Byte(name)
	}
	f := lib.File(name, 0o644, b)
	f.MTime = time.Unix(int64(size), 0)
	if chunk > 0 {
		f.Reader = func() io.Reader { return &chunks{b, chunk} }
	}
	return f
}

func tree(kind int) *lib.Node {
	flat := lib.Dir(".", 0o755, file("a", 3, 2), file("b", 0, 0), file("c", 8, 5), file("d", []int{1, 0, 2, 511, 512, 513}[sym.Choose("last", sym.Param("last", 4, 6))], 0))
	if kind == 0 {
		return flat
	}
	if last := flat.Kids[3]; sym.Choose("flat", 2) == 1 {
		// the archive ends with this file
		return lib.Dir(".", 0o755, flat.Kids[0], lib.Dir("dir", 0o755, last))
	}
	long := file(strings.Repeat("n", 101), 5, 0)
	return lib.Dir(".", 0o755, flat.Kids[0], flat.Kids[1], lib.Dir("dir", 0o755, file("big", []int{1300, 1024, 4096, 4100}[sym.Choose("big", sym.Param("big", 2, 4))], 400), lib.Link("link", "../a")), lib.Dir("e", 0o755), file("f", 1024, 600), long)
}

func check(kind int, root *lib.Node) {
	healthy := &lib.Mem{}
	sym.Assert(create(kind, healthy, &lib.Src{Root: root}) == nil, "creating on a healthy destination")
	dst := &lib.Mem{}
	dst.FailAt = 1 + sym.Choose("write", healthy.Writes)
	dst.Accept = []int{0, 1, -1}[sym.Choose("accept", 3)]
	dst.Err = []error{lib.ErrIO, io.ErrShortWrite, io.EOF, io.ErrClosedPipe}[sym.Choose("error", 4)]
	dst.Dead = sym.Choose("dead", 2) == 1
	err := create(kind, dst, &lib.Src{Root: root})
	sym.Assert(dst.Failed, "the destination failed")
	sym.Assert(err != nil, "a failed write makes Create fail")
	if errors.Is(err, dst.Err) {
		sym.Reach("the error")
	}
	sym.Reach("failed")
}

// HarnessAr, HarnessTar and HarnessErofs: any one write fails, with any part of
// it accepted, and later ones fail or not.
func HarnessAr()    { check(0, tree(0)) }
func HarnessTar()   { check(1, tree(1)) }
func HarnessErofs() { check(2, tree(2)) }

// HarnessHealthy: nothing is lost however the content is cut into writes.
func HarnessHealthy() {
	kind := sym.Choose("kind", 3)
	size := sym.Choose("size", sym.Param("size", 8, 12))
	chunk := 1 + sym.Choose("chunk", 4)
	w := &lib.Mem{}
	c := &lib.Mem{}
	f := file("f", size, 0)
	f2 := *f
	f2.Reader = func() io.Reader { return &chunks{f.Data, chunk} }
	sym.Assert(create(kind, c, &lib.Src{Root: lib.Dir(".", 0o755, f)}) == nil, "creating at once")
	sym.Assert(create(kind, w, &lib.Src{Root: lib.Dir(".", 0o755, &f2)}) == nil, "creating in small writes")
	sym.Assert(sym.EqBytes(c.B, w.B), "every byte has been accepted")
	sym.Reach("done")
}

// HarnessFile: files of a fixed length, which Create cannot cut or extend to
// that of the image.
func HarnessFile() {
	root := tree(2)
	healthy := &lib.Mem{}
	sym.Assert(erofs.Create(healthy, &lib.Src{Root: root}) == nil, "creating on a healthy destination")
	size := (len(healthy.B) + 4095) / 4096 * 4096
	more := []int{1, 4096, -1, -4096, 8192}[sym.Choose("size", 5)]
	f := lib.NewOSFile(make([]byte, size+more), true)
	err := erofs.Create(f, &lib.Src{Root: root})
	lib.OSContent(f)
	sym.Assert(err != nil, "a file that cannot get the length of the image makes Create fail")
	sym.Reach("failed")
}

// HarnessLarge: any one write fails while large files are copied.
func HarnessLarge() {
	sym.StepLimit(400000000)
	kind := sym.Choose("kind", 3)
	size := []int{65536, 70001}[sym.Choose("size", 2)]
	root := lib.Dir(".", 0o755, lib.File("a", 0o600, lib.Blob("data", size)), file("b", 3, 0))
	check(kind, root)
}

func main() {
	sym.Main(sym.Entry{"HarnessAr", HarnessAr}, sym.Entry{"HarnessTar", HarnessTar}, sym.Entry{"HarnessErofs", HarnessErofs}, sym.Entry{"HarnessHealthy", HarnessHealthy}, sym.Entry{"HarnessFile", HarnessFile},
		sym.Entry{"HarnessLarge", HarnessLarge})
}
