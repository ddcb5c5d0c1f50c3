package lib

import (
	"errors"
	"io"
	"os"
	"syscall"
	"unsafe"
)

// Destinations that are an *os.File: a memory file of the system when run
// natively, the stand-ins below in the engine, which calls them in place of
// what they are named after.

// NewOSFile makes a file with some content. The size of a sealed one cannot be
// changed.
func NewOSFile(content []byte, sealed bool) *os.File { return openFile(content, sealed) }

// OSContent is the content of a file, which it closes.
func OSContent(f *os.File) []byte { return drainFile(f) }

func openFile(content []byte, sealed bool) *os.File {
	name := []byte("verif\x00")
	const allowSealing, addSeals, shrinkGrow = 2, 1033, 2 | 4
	fd, _, e := syscall.Syscall(319, uintptr(unsafe.Pointer(&name[0])), allowSealing, 0) // memfd_create
	if e != 0 {
		panic(e)
	}
	f := os.NewFile(fd, "verif")
	if _, err := f.Write(content); err != nil {
		panic(err)
	}
	if sealed {
		if _, _, e := syscall.Syscall(syscall.SYS_FCNTL, fd, addSeals, shrinkGrow); e != 0 {
			panic(e)
		}
	}
	return f
}

func drainFile(f *os.File) []byte {
	st, err := f.Stat()
	if err != nil {
		panic(err)
	}
	b := make([]byte, st.Size())
	if _, err := f.ReadAt(b, 0); err != nil && len(b) > 0 {
		panic(err)
	}
	f.Close()
	return b
}

type osModel struct {
	f      *os.File
	b      []byte
	sealed bool
}

var (
	osModels  []*osModel
	errSealed = errors.New("sealed")
)

func osFind(f *os.File) *osModel {
	for _, m := range osModels {
		if m.f == f {
			return m
		}
	}
	return nil
}

func modelOpenFile(content []byte, sealed bool) *os.File {
	m := &osModel{f: new(os.File), b: append([]byte(nil), content...), sealed: sealed}
	osModels = append(osModels, m)
	return m.f
}

func modelDrainFile(f *os.File) []byte { return osFind(f).b }

func modelWriteAt(f *os.File, p []byte, off int64) (int, error) {
	m := osFind(f)
	if m == nil || off < 0 {
		return 0, os.ErrInvalid
	}
	if n := int(off) + len(p); n > len(m.b) {
		if m.sealed {
			return 0, errSealed
		}
		m.b = append(m.b, make([]byte, n-len(m.b))...)
	}
	return copy(m.b[off:], p), nil
}

func modelReadAt(f *os.File, p []byte, off int64) (int, error) {
	m := osFind(f)
	if m == nil || off < 0 {
		return 0, os.ErrInvalid
	}
	if off >= int64(len(m.b)) {
		return 0, io.EOF
	}
	n := copy(p, m.b[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func modelTruncate(f *os.File, size int64) error {
	m := osFind(f)
	if m == nil || size < 0 {
		return os.ErrInvalid
	}
	if m.sealed && size != int64(len(m.b)) {
		return errSealed
	}
	if size < int64(len(m.b)) {
		m.b = m.b[:size:size]
	} else {
		m.b = append(m.b, make([]byte, int(size)-len(m.b))...)
	}
	return nil
}
