package lib

import (
	"errors"
	"io"

	"verif.local/harness/sym"
)

// Sparse is a destination and source that only holds what was written to it,
// at offsets that may be symbolic and far apart.
type Sparse struct {
	Segs []Seg
}

func (s *Sparse) WriteAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	s.Segs = append(s.Segs, Seg{off, append([]byte(nil), p...)})
	return len(p), nil
}

func (s *Sparse) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	overlay(p, off, s.Segs)
	return len(p), nil
}

// overlay reads from segments, of which the last ones win.
func overlay(p []byte, off int64, segs []Seg) {
	for i := range p {
		p[i] = 0
	}
	n := int64(len(p))
	// Most of what was written at an unrelated offset is somewhere else.
	apart := true
	for _, g := range segs {
		if !sym.Known(int(off - g.Off)) {
			apart = sym.And(apart, sym.Or(off >= g.Off+int64(len(g.Data)), g.Off >= off+n))
		}
	}
	skip := sym.ConcreteBool(apart)
	for _, g := range segs {
		if skip && !sym.Known(int(off-g.Off)) {
			continue
		}
		if off >= g.Off+int64(len(g.Data)) || g.Off >= off+n {
			continue
		}
		delta := sym.Concrete(int(off - g.Off))
		if delta >= 0 {
			copy(p, g.Data[delta:])
		} else {
			copy(p[-delta:], g.Data)
		}
	}
}

// Hole is the content of a file of any size that is zero but for the first and
// the last byte. It writes only these when the destination can seek.
type Hole struct {
	Size        int64
	First, Last byte
	pos         int64
}

// MaxFilled is the size up to which a Hole is written out to a destination that
// cannot seek.
const MaxFilled = 16384

func (h *Hole) Read(p []byte) (int, error) {
	if h.pos >= h.Size {
		return 0, io.EOF
	}
	sym.Assume(h.Size <= MaxFilled)
	n := sym.Concrete(int(min(int64(len(p)), h.Size-h.pos)))
	for i := range p[:n] {
		p[i] = 0
		if h.pos == 0 {
			p[i] = h.First
		}
		if h.pos == h.Size-1 {
			p[i] = h.Last
		}
		h.pos++
	}
	return n, nil
}

func (h *Hole) WriteTo(w io.Writer) (int64, error) {
	if h.Size == 0 {
		return 0, nil
	}
	ws, ok := w.(io.WriteSeeker)
	if !ok || h.Size == 1 {
		return io.Copy(w, struct{ io.Reader }{h})
	}
	if _, err := w.Write([]byte{h.First}); err != nil {
		return 0, err
	}
	if _, err := ws.Seek(h.Size-2, io.SeekCurrent); err != nil {
		return 1, err
	}
	if _, err := w.Write([]byte{h.Last}); err != nil {
		return 1, err
	}
	return h.Size, nil
}
