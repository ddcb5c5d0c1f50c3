// C21: the in-memory filesystem is safe under concurrent use.
package main

import (
	"errors"
	"io/fs"
	"sort"
	"strings"
	"sync"

	"github.com/dpeckett/archivefs/memfs"

	"verif.local/harness/lib"
	"verif.local/harness/sym"
)

// kinds of calls
const (
	write = iota
	mkdir
	read
	stat
	list
	sub
)

type call struct {
	kind int
	path string
	data []byte
	perm fs.FileMode
}

// menu is what a goroutine may call. Contents differ in length.
func menu(seq int) []call {
	data := func(n int) []byte { return sym.Bytes("data"+lib.Dec(seq), n) }
	n := 3 * (seq + 1)
	return []call{
		{write, "d/f", data(n), fs.FileMode(0o600 + seq)},
		{write, "d/g", data(n + 1), fs.FileMode(0o610 + seq)},
		{mkdir, "d/g/h", nil, fs.FileMode(0o700 + seq)},
		{mkdir, "d/f/x", nil, fs.FileMode(0o710 + seq)},
		{read, "d/g", nil, 0},
		{stat, "d/f", nil, 0},
		{list, "d", nil, 0},
		{write, "n/x", data(n + 2), fs.FileMode(0o620 + seq)},
		{mkdir, "n/d", nil, fs.FileMode(0o720 + seq)},
		{list, "d/g", nil, 0},
		{read, "d/f", nil, 0},
		{stat, "d/g", nil, 0},
		{list, ".", nil, 0},
		{sub, "d/g", nil, 0},
	}
}

func class(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, fs.ErrNotExist):
		return "missing"
	case errors.Is(err, fs.ErrExist):
		return "exists"
	case errors.Is(err, fs.ErrInvalid):
		return "invalid"
	}
	return "error"
}

func info(name string, m fs.FileMode, size int) string {
	if m.IsDir() {
		size = 0
	}
	return name + ":" + lib.Dec(int(m.Perm())) + ":" + lib.Dec(int(m>>31)) + ":" + lib.Dec(size)
}

// do makes a call and describes its result; the bytes of a file are returned
// separately.
func (c call) do(fsys *memfs.FS) (string, []byte) {
	switch c.kind {
	case write:
		return class(fsys.WriteFile(c.path, c.data, c.perm)), nil
	case mkdir:
		return class(fsys.MkdirAll(c.path, c.perm)), nil
	case read:
		b, err := fs.ReadFile(fsys, c.path)
		if err != nil {
			return class(err), nil
		}
		return "read:" + lib.Dec(len(b)), b
	case stat:
		fi, err := fs.Stat(fsys, c.path)
		if err != nil {
			return class(err), nil
		}
		return info(fi.Name(), fi.Mode(), int(fi.Size())), nil
	case sub:
		_, err := fsys.Sub(c.path)
		return class(err), nil
	}
	l, err := fs.ReadDir(fsys, c.path)
	if err != nil {
		return class(err), nil
	}
	var parts []string
	for _, e := range l {
		fi, err := e.Info()
		sym.Assert(err == nil, "information of an entry")
		parts = append(parts, info(e.Name(), fi.Mode(), int(fi.Size())))
	}
	return "list:" + strings.Join(parts, ","), nil
}

// steps is the number of atomic steps of the call: MkdirAll makes one
// directory after the other.
func (c call) steps() int {
	if c.kind == mkdir {
		return 1 + strings.Count(c.path, "/")
	}
	return 1
}

// model is a step of the reference; the result is valid after the last one or
// when it is not "ok".
func (c call) model(root *lib.Node, step int) (string, []byte) {
	switch c.kind {
	case write:
		return class(lib.ModelWrite(root, c.path, c.data, c.perm)), nil
	case mkdir:
		parts := strings.Split(c.path, "/")
		return class(lib.ModelMkdirAll(root, strings.Join(parts[:step+1], "/"), c.perm)), nil
	}
	n, err := lib.ModelGet(root, c.path)
	if err != nil {
		return class(err), nil
	}
	switch c.kind {
	case read:
		if n.IsDir() {
			return "error", nil
		}
		return "read:" + lib.Dec(len(n.Data)), n.Data
	case stat:
		return info(n.Nm, n.M, len(n.Data)), nil
	case sub:
		if !n.IsDir() {
			return "missing", nil
		}
		return "ok", nil
	}
	if !n.IsDir() {
		return "error", nil
	}
	return "list:" + shape(n), nil
}

// shape describes the entries of a directory.
func shape(n *lib.Node) string {
	var parts []string
	for _, k := range n.Kids {
		parts = append(parts, info(k.Nm, k.M, len(k.Data)))
	}
	sort.Strings(parts)
	return strings.Join(parts, ",")
}

func all(n *lib.Node) string {
	s := "(" + shape(n)
	for _, k := range n.Kids {
		if k.IsDir() {
			s += k.Nm + all(k)
		}
	}
	return s + ")"
}

func clone(n *lib.Node) *lib.Node {
	c := *n
	c.Kids = nil
	for _, k := range n.Kids {
		kk := clone(k)
		kk.Up = &c
		c.Kids = append(c.Kids, kk)
	}
	return &c
}

// thread is the calls of one goroutine and their results.
type thread struct {
	calls []call
	res   []string
	bytes [][]byte
}

func (t *thread) run(fsys *memfs.FS) {
	for _, c := range t.calls {
		r, b := c.do(fsys)
		t.res = append(t.res, r)
		t.bytes = append(t.bytes, b)
	}
}

type at struct{ call, step int }

// explained reports whether some order of the steps gives all the results and
// the final tree.
func explained(root *lib.Node, ts []*thread, pos []at, final string) bool {
	done := true
	for i, t := range ts {
		p := pos[i]
		if p.call == len(t.calls) {
			continue
		}
		done = false
		c := t.calls[p.call]
		r := clone(root)
		res, data := c.model(r, p.step)
		next := at{p.call, p.step + 1}
		if res != "ok" || next.step == c.steps() {
			if res != t.res[p.call] {
				continue
			}
			if c.kind == read && data != nil {
				sym.Assert(sym.EqBytes(data, t.bytes[p.call]), "the complete content of one write")
			}
			next = at{p.call + 1, 0}
		}
		q := append([]at(nil), pos...)
		q[i] = next
		if explained(r, ts, q, final) {
			return true
		}
	}
	return done && all(root) == final
}

func setup() (*memfs.FS, *lib.Node) {
	fsys := memfs.New()
	model := lib.Dir(".", 0)
	lib.ModelMkdirAll(model, "d", 0o755)
	sym.Assert(fsys.MkdirAll("d", 0o755) == nil, "mkdir")
	data := sym.Bytes("data", 2)
	lib.ModelWrite(model, "d/f", data, 0o644)
	sym.Assert(fsys.WriteFile("d/f", data, 0o644) == nil, "write")
	return fsys, model
}

// observed reads the whole tree afterwards, which also finds locks left held.
func observed(fsys fs.FS, p string) string {
	l, err := fs.ReadDir(fsys, p)
	sym.Assert(err == nil, "listing afterwards")
	var parts []string
	sub := ""
	for _, e := range l {
		fi, err := e.Info()
		sym.Assert(err == nil, "information of an entry")
		parts = append(parts, info(e.Name(), fi.Mode(), int(fi.Size())))
		if e.IsDir() {
			q := e.Name()
			if p != "." {
				q = p + "/" + q
			}
			sub += e.Name() + observed(fsys, q)
		}
	}
	sort.Strings(parts)
	return "(" + strings.Join(parts, ",") + sub + ")"
}

func run(ts []*thread) {
	fsys, model := setup()
	var wg sync.WaitGroup
	for _, t := range ts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			t.run(fsys)
		}()
	}
	wg.Wait()
	final := observed(fsys, ".")
	sym.Assert(explained(model, ts, make([]at, len(ts)), final), "results match some sequential order")
	sym.Reach("done")
}

func pick(seq int) call {
	m := menu(seq)
	return m[sym.Choose("call"+lib.Dec(seq), sym.Param("menu", 9, len(m)))]
}

// HarnessPairs: two goroutines that make one call each, any two.
func HarnessPairs() {
	m, k := menu(0), menu(1)
	a := m[sym.Choose("a", len(m))]
	b := k[sym.Choose("b", len(k))]
	sym.Preemptions(sym.Param("preempt", 6, 12))
	run([]*thread{{calls: []call{a}}, {calls: []call{b}}})
}

// HarnessSequences: two goroutines, one of which makes two calls (thorough: both).
func HarnessSequences() {
	ts := []*thread{{calls: []call{pick(0), pick(1)}}, {calls: []call{pick(2)}}}
	sym.Preemptions(sym.Param("preempt2", 2, 3))
	run(ts)
}

// HarnessThree: three goroutines that make one call each.
func HarnessThree() {
	ts := []*thread{{calls: []call{pick(0)}}, {calls: []call{pick(1)}}, {calls: []call{pick(2)}}}
	sym.Preemptions(sym.Param("preempt3", 1, 2))
	run(ts)
}

// HarnessHandles: handles of one directory and one file used at once.
func HarnessHandles() {
	fsys, _ := setup()
	sym.Preemptions(sym.Param("preempt4", 3, 4))
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f, err := fsys.Open("d/f")
			sym.Assert(err == nil, "open")
			b, err := lib.ReadAll(f, 8, 64)
			sym.Assert(err == nil && len(b) == 2, "read")
			sym.Assert(f.Close() == nil, "close")
			d, err := fsys.Open("d")
			sym.Assert(err == nil, "open")
			l, err := d.(fs.ReadDirFile).ReadDir(1)
			sym.Assert(err == nil && len(l) == 1 && l[0].Name() == "f", "list")
			fi, err := d.Stat()
			sym.Assert(err == nil && fi.IsDir(), "stat")
		}()
	}
	wg.Wait()
	sym.Reach("done")
}

func main() {
	sym.Main(sym.Entry{"HarnessPairs", HarnessPairs}, sym.Entry{"HarnessSequences", HarnessSequences}, sym.Entry{"HarnessThree", HarnessThree}, sym.Entry{"HarnessHandles", HarnessHandles})
}
