// Package lib holds what the harnesses share: devices, source filesystems,
// archive builders and reference models.
package lib

import (
	"errors"
	"io"

	"verif.local/harness/sym"
)

// ErrIO is the error injected by failing devices and sources.
var ErrIO = errors.New("injected i/o error")

// Seg is a run of bytes at an offset that may be symbolic.
type Seg struct {
	Off  int64
	Data []byte
}

// Dev is a sparse io.ReaderAt: zero bytes but for its segments.
type Dev struct {
	Segs  []Seg
	Total int64
	// EOFWithLast makes a read that ends exactly at Total report io.EOF.
	EOFWithLast bool
	// FailAt makes the call with that number (from 1) and all later ones fail.
	FailAt int
	// FailOnce makes only that call fail.
	FailOnce bool
	// FailPartial makes the failing call deliver half of the data first.
	FailPartial bool
	Calls       int
}

func (d *Dev) ReadAt(p []byte, off int64) (int, error) {
	d.Calls++
	if d.FailAt > 0 && (d.Calls == d.FailAt || d.Calls > d.FailAt && !d.FailOnce) {
		if d.FailPartial && off >= 0 && off < d.Total {
			n, err := d.read(p[:len(p)/2], off)
			if err == nil || n > 0 {
				return n, ErrIO
			}
		}
		return 0, ErrIO
	}
	return d.read(p, off)
}

func (d *Dev) read(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	if off >= d.Total {
		if len(p) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := len(p)
	var err error
	if off > d.Total-int64(n) {
		n = sym.Concrete(int(d.Total - off))
		err = io.EOF
	} else if d.EOFWithLast && off == d.Total-int64(n) {
		err = io.EOF
	}
	overlay(p[:n], off, d.Segs)
	return n, err
}

// Mem is a growing in-memory destination and source.
type Mem struct {
	B           []byte
	EOFWithLast bool
	// FailAt makes the write with that number (from 1) fail with Err, and all
	// later ones when Dead is set. It accepts Accept bytes before, or all but
	// as many when that is negative.
	FailAt int
	Accept int
	Err    error
	Dead   bool
	Failed bool
	Writes int
}

func (m *Mem) fail(p []byte) (int, error) {
	m.Writes++
	if m.FailAt == 0 || m.Writes < m.FailAt || (m.Writes > m.FailAt && !m.Dead) {
		return len(p), nil
	}
	m.Failed = true
	n := m.Accept
	if n < 0 {
		n += len(p)
	}
	if m.Writes > m.FailAt || n < 0 || n >= len(p) {
		n = 0
	}
	if m.Err == nil {
		return n, ErrIO
	}
	return n, m.Err
}

func (m *Mem) Write(p []byte) (int, error) {
	n, err := m.fail(p)
	m.B = append(m.B, p[:n]...)
	return n, err
}

func (m *Mem) WriteAt(p []byte, off int64) (int, error) {
	n, err := m.fail(p)
	end := int(off) + n
	if end > len(m.B) {
		m.B = append(m.B, make([]byte, end-len(m.B))...)
	}
	copy(m.B[off:], p[:n])
	return n, err
}

func (m *Mem) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	if off >= int64(len(m.B)) {
		if len(p) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(p, m.B[off:])
	if n < len(p) || (m.EOFWithLast && int(off)+n == len(m.B)) {
		return n, io.EOF
	}
	return n, nil
}

// ReadAll reads r with a buffer of the given size, without the limits and
// growth of io.ReadAll. It gives up after max bytes.
func ReadAll(r io.Reader, buf, max int) ([]byte, error) {
	var out []byte
	b := make([]byte, buf)
	for idle := 0; ; {
		n, err := r.Read(b)
		out = append(out, b[:n]...)
		if err == io.EOF {
			// the end of a file is its end
			if n, err := r.Read(b[:1]); n != 0 || err != io.EOF {
				return out, errors.New("the end of the file is not final")
			}
			return out, nil
		}
		if err != nil {
			return out, err
		}
		if n == 0 {
			idle++
		} else {
			idle = 0
		}
		if len(out) > max || idle > 8 {
			return out, errors.New("no end of file")
		}
	}
}
