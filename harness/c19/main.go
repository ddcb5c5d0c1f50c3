// C19: in-memory files are isolated from callers and from each other.
package main

import (
	"errors"
	"io"
	"io/fs"

	"github.com/dpeckett/archivefs/memfs"

	"verif.local/harness/lib"
	"verif.local/harness/sym"
)

// handle is an open file and what it has to show.
type handle struct {
	f      fs.File
	data   []byte
	pos    int
	closed bool
}

// read reads with a buffer of n bytes that the caller then scribbles over.
func (h *handle) read(n int) {
	b := make([]byte, n)
	k, err := h.f.Read(b)
	if h.closed {
		sym.Assert(k == 0 && errors.Is(err, fs.ErrClosed), "reading a closed handle")
		sym.Reach("closed")
		return
	}
	sym.Assert(k >= 0 && k <= n && k <= len(h.data)-h.pos, "bytes read")
	sym.Assert(sym.EqBytes(b[:k], h.data[h.pos:h.pos+k]), "content in order")
	h.pos += k
	if h.pos == len(h.data) {
		sym.Assert(err == nil || err == io.EOF, "reading at the end")
		if n > 0 && k == 0 {
			sym.Assert(err == io.EOF, "end of file")
			sym.Reach("end")
		}
	} else {
		sym.Assert(err == nil, "no end of file before the end")
		sym.Assert(n == 0 || k > 0, "progress")
	}
	scribble(b)
}

func (h *handle) stat() {
	fi, err := h.f.Stat()
	if h.closed {
		sym.Assert(errors.Is(err, fs.ErrClosed), "stat of a closed handle")
		return
	}
	sym.Assert(err == nil && fi.Size() == int64(len(h.data)) && fi.Name() == "f", "stat of a handle")
}

func (h *handle) close() {
	err := h.f.Close()
	if h.closed {
		sym.Assert(errors.Is(err, fs.ErrClosed), "closing twice")
		return
	}
	sym.Assert(err == nil, "close")
	h.closed = true
}

func scribble(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] ^= 0xff
	}
}

type world struct {
	fsys  *memfs.FS
	data  []byte
	held  [2]*handle
	seq   int
	slice []byte
	kept  []byte
}

// write replaces the file and keeps the slice.
func (w *world) write(n int, spare bool) {
	w.data = sym.Bytes("data"+lib.Dec(w.seq), n)
	w.seq++
	c := n
	if spare {
		c = n + 5
	}
	w.slice = make([]byte, n, c)
	copy(w.slice, w.data)
	sym.Assert(w.fsys.WriteFile(w.path(), w.slice, 0o644) == nil, "write")
}

func (w *world) path() string { return "d/f" }

func (w *world) open(slot int) {
	f, err := w.fsys.Open(w.path())
	sym.Assert(err == nil, "open")
	w.held[slot] = &handle{f: f, data: w.data}
}

func (w *world) check() {
	b, err := fs.ReadFile(w.fsys, w.path())
	sym.Assert(err == nil && sym.EqBytes(b, w.data), "content of the file")
	fi, err := fs.Stat(w.fsys, w.path())
	sym.Assert(err == nil && fi.Size() == int64(len(w.data)), "size of the file")
	scribble(w.kept)
	w.kept = b
}

// finish reads everything that is open to the end.
func (w *world) finish() {
	w.check()
	w.check()
	for _, h := range w.held {
		h.stat()
		if !h.closed {
			b, err := lib.ReadAll(h.f, 2, 32)
			sym.Assert(err == nil && sym.EqBytes(b, h.data[h.pos:]), "the rest of an open file")
		}
		h.stat()
	}
}

func begin() *world {
	w := &world{fsys: memfs.New()}
	sym.Assert(w.fsys.MkdirAll("d", 0o755) == nil, "mkdir")
	w.write(3+sym.Choose("spare", 2), true)
	w.open(0)
	w.open(1)
	return w
}

// HarnessHistories: any operations in any order.
func HarnessHistories() {
	w := begin()
	n := sym.Param("ops", 5, 6)
	for i := 0; i < n; i++ {
		op := sym.Choose("op", 9)
		switch op {
		case 0:
			w.write(2+i, i%2 == 0)
		case 1:
			w.open(i % 2)
		case 2:
			scribble(w.slice)
		case 3, 4:
			w.held[op-3].read(2)
		case 5:
			w.held[0].read(1 + i)
		case 6, 7:
			w.held[op-6].close()
		default:
			w.held[0].stat()
			w.check()
		}
	}
	w.finish()
	sym.Reach("done")
}

// HarnessReads: any sizes of reads.
func HarnessReads() {
	w := &world{fsys: memfs.New()}
	sym.Assert(w.fsys.MkdirAll("d", 0o755) == nil, "mkdir")
	w.write(sym.Choose("size", 6), false)
	w.open(0)
	w.open(1)
	for i := 0; i < 4; i++ {
		n := sym.Choose("n", 7)
		w.held[i%2].read(n)
	}
	w.finish()
	sym.Reach("done")
}

// HarnessAliases: slices that overlap those passed in or obtained.
func HarnessAliases() {
	fsys := memfs.New()
	buf := sym.Bytes("buf", 8)
	orig := append([]byte(nil), buf...)
	lo := sym.Choose("lo", 4)
	hi := lo + sym.Choose("n", 4)
	sym.Assert(fsys.WriteFile("a", buf[lo:hi], 0o600) == nil, "write")
	sym.Assert(fsys.WriteFile("b", buf[hi:], 0o600) == nil, "write")
	f, err := fsys.Open("a")
	sym.Assert(err == nil, "open")
	if sym.Choose("early", 2) == 0 {
		scribble(buf)
	}
	a, err := fs.ReadFile(fsys, "a")
	sym.Assert(err == nil && sym.EqBytes(a, orig[lo:hi]), "content of the first file")
	scribble(a)
	sym.Assert(fsys.WriteFile("b", a, 0o600) == nil, "write")
	if sym.Choose("feed", 2) == 0 {
		// what an io.WriterTo hands out is the caller's to read only, but a
		// buffer that grows behind it is not the file
		a = append(a, 1, 2, 3)
	}
	scribble(a)
	got, err := lib.ReadAll(f, 3, 32)
	sym.Assert(err == nil && sym.EqBytes(got, orig[lo:hi]), "content through the handle")
	again, err := fs.ReadFile(fsys, "a")
	sym.Assert(err == nil && sym.EqBytes(again, orig[lo:hi]), "content of the first file")
	b, err := fs.ReadFile(fsys, "b")
	sym.Assert(err == nil && len(b) == hi-lo, "content of the second file")
	for i := range b {
		sym.Assert(b[i] == orig[lo+i]^0xff, "content of the second file")
	}
	sym.Reach("done")
}

// HarnessLarge: large contents.
func HarnessLarge() {
	sym.StepLimit(400000000)
	size := []int{17, 65, 257, 600, 1025, 5000, 33000, 70001, 1<<20 + 1, 1<<22 + 1}[sym.Choose("size", sym.Param("large", 9, 10))]
	poke := func(b []byte) {
		for i := 0; i < len(b); i += len(b)/5 + 1 {
			b[i] ^= 0xff
		}
	}
	fsys := memfs.New()
	data := lib.Blob("data", size)
	buf := append(make([]byte, 0, size+sym.Choose("spare", 2)*100), data...)
	sym.Assert(fsys.WriteFile("f", buf, 0o600) == nil, "write")
	f, err := fsys.Open("f")
	sym.Assert(err == nil, "open")
	g, err := fsys.Open("f")
	sym.Assert(err == nil, "open")
	b := make([]byte, 16)
	n, err := g.Read(b)
	sym.Assert(err == nil && sym.EqBytes(b[:n], data[:n]), "content in order")
	poke(buf)
	again, err := fs.ReadFile(fsys, "f")
	sym.Assert(err == nil && sym.EqBytes(again, data), "content of the file")
	poke(again)
	last := data
	switch sym.Choose("then", 3) {
	case 1:
		last = lib.Blob("new", size)
		sym.Assert(fsys.WriteFile("f", last, 0o600) == nil, "write")
	case 2:
		last = lib.Blob("new", size/2)
		sym.Assert(fsys.WriteFile("f", last, 0o600) == nil, "write")
	}
	got, err := lib.ReadAll(f, 4096, size+8)
	sym.Assert(err == nil && sym.EqBytes(got, data), "content through an open handle")
	poke(got)
	got, err = lib.ReadAll(g, 4096, size+8)
	sym.Assert(err == nil && sym.EqBytes(got, data[n:]), "content through an open handle")
	fi, err := f.Stat()
	sym.Assert(err == nil && fi.Size() == int64(size), "size of an open handle")
	again, err = fs.ReadFile(fsys, "f")
	sym.Assert(err == nil && sym.EqBytes(again, last), "content of the file")
	fi, err = fs.Stat(fsys, "f")
	sym.Assert(err == nil && fi.Size() == int64(len(last)), "size of the file")
	sym.Reach("done")
}

func main() {
	sym.Main(sym.Entry{"HarnessHistories", HarnessHistories}, sym.Entry{"HarnessReads", HarnessReads}, sym.Entry{"HarnessAliases", HarnessAliases},
		sym.Entry{"HarnessLarge", HarnessLarge})
}
