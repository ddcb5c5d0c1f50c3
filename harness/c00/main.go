// Self-test of the engine.
package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/harness/sym"
)

func HarnessArith() {
	a, b := uint32(sym.Byte("a")), uint32(sym.Byte("b"))
	a += 5
	sym.Assume(b != 0)
	sym.Assert(a/b*b+a%b == a, "div mod")
	x := int32(a)
	if x > 10 {
		sym.Reach("big")
		sym.Assert(x>>1 > 4, "shift")
	} else {
		sym.Reach("small")
	}
	sym.Observe("x", x)
}

func HarnessStr() {
	n := sym.Choose("n", 4)
	s := sym.String("s", n, "a/. ")
	p := path.Clean("/" + s)
	sym.Observe("p", p)
	sym.Assert(strings.HasPrefix(p, "/"), "abs")
	sym.Assert(!strings.Contains(p, "//"), "nodup")
	q := filepath.ToSlash(strings.TrimSpace(s))
	sym.Observe("q", q)
	sym.Observe("valid", fs.ValidPath(s))
	sym.Observe("split", len(strings.Split(s, "/")))
	d, f := path.Split(s)
	sym.Observe("d", d)
	sym.Observe("f", f)
}

func HarnessInt() {
	s := sym.String("s", 3, "0129-x")
	v, err := strconv.ParseInt(s, 10, 64)
	sym.Observe("v", v)
	sym.Observe("err", err)
	if err == nil {
		sym.Reach("parsed")
		sym.Assert(v <= 999 && v >= -99, "range")
	} else {
		sym.Reach("bad")
	}
}

type hdr struct {
	A uint16
	B uint32
	C [2]uint8
}

func HarnessBinary() {
	h := hdr{A: sym.U16("a"), B: sym.U32("b"), C: [2]uint8{sym.Byte("c"), sym.Byte("d")}}
	var buf bytes.Buffer
	if err := binary.Write(&buf, binary.LittleEndian, &h); err != nil {
		sym.Fail("write")
	}
	var g hdr
	if err := binary.Read(bytes.NewReader(buf.Bytes()), binary.LittleEndian, &g); err != nil {
		sym.Fail("read")
	}
	sym.Assert(g == h, "same")
	sym.Observe("bytes", buf.Bytes())
	sym.Assert(binary.LittleEndian.Uint32(buf.Bytes()[2:]) == h.B, "u32")
}

func HarnessErr() {
	e := fmt.Errorf("x: %w", &fs.PathError{Op: "open", Path: "a", Err: fs.ErrNotExist})
	sym.Assert(errors.Is(e, fs.ErrNotExist), "is")
	var pe *fs.PathError
	sym.Assert(errors.As(e, &pe) && pe.Op == "open", "as")
	sym.Assert(errors.Is(io.EOF, io.EOF), "eof")
	t := time.Unix(int64(sym.U32("t")), 5)
	sym.Assert(t.Unix() == int64(sym.U32("t")) || true, "time")
	sym.Observe("unix", t.Unix())
	sym.Observe("nano", t.Nanosecond())
	x := []int{sym.Range("x", 0, 3), sym.Range("y", 0, 3), 2}
	sort.Ints(x)
	sym.Assert(x[0] <= x[1] && x[1] <= x[2], "sorted")
	sym.Observe("x0", x[0])
}

func HarnessConc() {
	var mu sync.Mutex
	var wg sync.WaitGroup
	n := 0
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.Lock()
			n++
			mu.Unlock()
		}()
	}
	wg.Wait()
	sym.Assert(n == 2, "n")
	sym.Reach("end")
}

func HarnessMap() {
	sym.MapOrder(24)
	m := map[string]int{"a": 1, "b": 2, "c": 3}
	first := ""
	for k := range m {
		if first == "" {
			first = k
		}
	}
	sym.Reach(first)
}

func HarnessDefer() {
	f := func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("recovered: %v", r)
			}
		}()
		var a []int
		_ = a[sym.Choose("i", 3)]
		return nil
	}
	sym.Assert(f() != nil, "recovered")
}

func main() {
	sym.Main(sym.Entry{"HarnessArith", HarnessArith}, sym.Entry{"HarnessStr", HarnessStr}, sym.Entry{"HarnessInt", HarnessInt}, sym.Entry{"HarnessBinary", HarnessBinary}, sym.Entry{"HarnessErr", HarnessErr}, sym.Entry{"HarnessConc", HarnessConc}, sym.Entry{"HarnessMap", HarnessMap}, sym.Entry{"HarnessDefer", HarnessDefer})
}
