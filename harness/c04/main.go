// C04: malformed ar input is rejected without panic or hang.
package main

import (
	"github.com/dpeckett/archivefs/arfs"

	"verif.local/harness/lib"
	"verif.local/harness/sym"
)

const steps = 2000000

func space(c byte) bool {
	return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r'
}

func trim(b []byte) []byte {
	for len(b) > 0 && space(b[0]) {
		b = b[1:]
	}
	for len(b) > 0 && space(b[len(b)-1]) {
		b = b[:len(b)-1]
	}
	return b
}

// number tells whether b is a number (blank is none), and a negative one.
func number(b []byte) (ok, neg bool) {
	if len(b) > 0 && (b[0] == '-' || b[0] == '+') {
		neg = b[0] == '-'
		b = b[1:]
	}
	if len(b) == 0 {
		return false, false
	}
	zero := true
	for _, c := range b {
		if c < '0' || c > '9' {
			return false, false
		}
		if c != '0' {
			zero = false
		}
	}
	return true, neg && !zero
}

var good = lib.ArMember{Name: "f", Mtime: "7", Uid: "8", Gid: "9", Mode: "100644", Size: "2"}

func archive(m lib.ArMember) []byte {
	b := append([]byte(lib.ArMagic), lib.ArHeader(m)...)
	return append(b, 'x', 'y')
}

// HarnessMagic: any first bytes.
func HarnessMagic() {
	n := sym.Choose("len", 10)
	b := sym.Bytes("magic", n)
	if n == 8 && sym.Choose("rest", 2) == 1 {
		b = append(b, archive(good)[8:]...)
	}
	sym.StepLimit(steps)
	_, err := arfs.Open(&lib.Mem{B: b, EOFWithLast: sym.Choose("eof", 2) == 1})
	right := n >= 8 && sym.EqBytes(b[:8], []byte(lib.ArMagic))
	if err == nil {
		sym.Assert(right, "a wrong magic is rejected")
		sym.Reach("opened")
	} else {
		sym.Reach("rejected")
	}
}

// HarnessTerminator: any two bytes at the end of a header.
func HarnessTerminator() {
	b := archive(good)
	second := sym.Choose("second", 2) == 1
	if second {
		b = append(b, lib.ArHeader(good)...)
		b = append(b, 'x', 'y')
	}
	t := b[66:68]
	if second {
		t = b[128:130]
	}
	t[0], t[1] = sym.Byte("t0"), sym.Byte("t1")
	sym.StepLimit(steps)
	_, err := arfs.Open(&lib.Mem{B: b})
	sym.Assert((err == nil) == (t[0] == '`' && t[1] == '\n'), "a header with a wrong terminator is rejected")
	if err == nil {
		sym.Reach("opened")
	} else {
		sym.Reach("rejected")
	}
}

// HarnessNumbers: any bytes in a numeric field.
func HarnessNumbers() {
	b := archive(good)
	f := []struct{ off, n int }{{24, 12}, {36, 6}, {42, 6}, {48, 8}, {56, 10}}[sym.Choose("field", 5)]
	field := b[f.off : f.off+f.n]
	k := sym.Param("bytes", 3, 4)
	at := []int{0, f.n - k}[sym.Choose("at", 2)]
	for i := 0; i < k; i++ {
		c := sym.Byte("byte")
		sym.Assume(c < 0x80)
		field[at+i] = c
	}
	sym.StepLimit(steps)
	fsys, err := arfs.Open(&lib.Mem{B: b})
	v := trim(field)
	ok, neg := number(v)
	switch {
	case f.off == 48:
		// the mode is octal and has no sign
		for _, c := range v {
			if c < '0' || c > '7' {
				ok = false
			}
		}
		ok = ok && len(v) > 0
	case len(v) == 0:
		ok = true
	case f.off == 56 && neg:
		ok = false
	}
	if !ok {
		sym.Assert(err != nil, "an unparsable numeric field is rejected")
		sym.Reach("rejected")
		return
	}
	if err != nil {
		sym.Reach("size")
		sym.Assert(f.off == 56, "a well-formed header is accepted")
		return
	}
	sym.Reach("opened")
	lib.Explore(fsys, ".", 1)
}

// name is what a name field stands for, and whether that is a file name.
func name(b []byte) (string, bool) {
	b = trim(b)
	rooted := len(b) > 0 && b[0] == '/'
	var stack []string
	up := false
	start := 0
	for i := 0; i <= len(b); i++ {
		if i < len(b) && b[i] != '/' {
			continue
		}
		c := string(b[start:i])
		start = i + 1
		switch {
		case c == "" || c == ".":
		case c == "..":
			if len(stack) > 0 {
				stack = stack[:len(stack)-1]
			} else if !rooted {
				up = true
			}
		default:
			stack = append(stack, c)
		}
	}
	if up || len(stack) != 1 {
		return "", false
	}
	return stack[0], true
}

// HarnessNames: any bytes in the name field.
func HarnessNames() {
	b := archive(good)
	field := b[8:24]
	n := sym.Param("bytes", 4, 5)
	for i := 0; i < n; i++ {
		field[i] = sym.Byte("byte")
		sym.Assume(field[i] < 0x80)
	}
	if sym.Choose("full", 2) == 1 {
		for i := n; i < 15; i++ {
			field[i] = 'x'
		}
		field[15] = sym.Byte("last")
		sym.Assume(field[15] < 0x80)
	}
	sym.StepLimit(steps)
	fsys, err := arfs.Open(&lib.Mem{B: b})
	want, ok := name(field)
	if !ok {
		sym.Assert(err != nil, "a name that is no file name is rejected")
		sym.Reach("rejected")
		return
	}
	sym.Assert(err == nil, "a file name is accepted")
	l, err := fsys.ReadDir(".")
	sym.Assert(err == nil && len(l) == 1 && l[0].Name() == want, "name")
	sym.Reach("opened")
}

// HarnessAnything: bytes outside ASCII anywhere in the header.
func HarnessAnything() {
	b := archive(good)
	at := 8 + sym.Choose("at", 58/sym.Param("step", 3, 1))*sym.Param("step", 3, 1)
	for i := 0; i < 3 && at+i < len(b); i++ {
		b[at+i] = sym.Byte("byte")
	}
	sym.StepLimit(steps)
	fsys, err := arfs.Open(&lib.Mem{B: b})
	if err != nil {
		sym.Reach("rejected")
		return
	}
	sym.Reach("opened")
	lib.Explore(fsys, ".", 1)
}

// HarnessTruncated: an archive cut off anywhere.
func HarnessTruncated() {
	b := archive(good)
	b = append(b, lib.ArHeader(good)...)
	b = append(b, 'x', 'y')
	cut := sym.Choose("cut", len(b))
	sym.StepLimit(steps)
	fsys, err := arfs.Open(&lib.Mem{B: b[:cut], EOFWithLast: sym.Choose("eof", 2) == 1})
	if err != nil {
		sym.Assert(cut != 8 && cut != 70, "whole members are accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(cut == 8 || cut == 70, "a truncated archive is rejected")
	lib.Explore(fsys, ".", 1)
	sym.Reach("opened")
}

// HarnessPath: any bytes as a path.
func HarnessPath() {
	fsys, err := arfs.Open(&lib.Mem{B: archive(good)})
	sym.Assert(err == nil, "opens")
	n := sym.Choose("len", sym.Param("path", 5, 6))
	p := string(sym.Bytes("path", n))
	sym.StepLimit(steps)
	lib.Touch(fsys, p)
	if _, err := fsys.Open(p); err == nil {
		sym.Reach("file")
	}
}

// HarnessProgress: the walk over the headers ends whatever sizes they claim.
func HarnessProgress() {
	d := &lib.Dev{Segs: []lib.Seg{{Off: 0, Data: []byte(lib.ArMagic)}}}
	off := int64(8)
	for i := 0; i < 2; i++ {
		m := good
		m.Size = sym.String("size"+lib.Dec(i), 10, "0123456789")
		size := lib.Num(m.Size, 10)
		d.Segs = append(d.Segs, lib.Seg{Off: off, Data: lib.ArHeader(m)})
		off += 60 + size + size%2
		if i == 0 {
			sym.Assume(size < 1<<32)
		}
	}
	sym.StepLimit(steps)
	// the device ends somewhere in the last member
	d.Total = off - int64(sym.Range("cut", 1, 1<<33))
	sym.Assume(d.Total > d.Segs[2].Off+60)
	_, err := arfs.Open(d)
	size := lib.Num(string(d.Segs[2].Data[48:58]), 10)
	if d.Total < d.Segs[2].Off+60+size {
		sym.Assert(err != nil, "a member that ends beyond the archive is rejected")
		sym.Reach("rejected")
	} else {
		sym.Assert(err == nil, "the padding of the last member may be missing")
		sym.Reach("opened")
	}
}

func main() {
	sym.Main(sym.Entry{"HarnessMagic", HarnessMagic}, sym.Entry{"HarnessTerminator", HarnessTerminator}, sym.Entry{"HarnessNumbers", HarnessNumbers},
		sym.Entry{"HarnessNames", HarnessNames}, sym.Entry{"HarnessAnything", HarnessAnything}, sym.Entry{"HarnessTruncated", HarnessTruncated},
		sym.Entry{"HarnessPath", HarnessPath}, sym.Entry{"HarnessProgress", HarnessProgress})
}
