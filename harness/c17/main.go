// C17: symbolic links in an erofs image resolve as in a rooted tree.
package main

import (
	"github.com/dpeckett/archivefs/erofs"

	"verif.local/harness/lib"
	"verif.local/harness/sym"
)

// Names are digits: they follow dot and slash, so that any string over the
// alphabet is a run of consecutive characters.
const alphabet = "./012"

func open(root *lib.Node) *erofs.Filesystem {
	fsys, err := erofs.Open(&lib.Mem{B: lib.ErofsOf(root)})
	sym.Assert(err == nil, "the image opens")
	return fsys
}

func created(root *lib.Node) *erofs.Filesystem {
	dst := &lib.Mem{}
	err := erofs.Create(dst, &lib.Src{Root: root})
	sym.Assert(err == nil, "the image is created")
	fsys, err := erofs.Open(dst)
	sym.Assert(err == nil, "the image opens")
	return fsys
}

func target(name string, max int) string {
	n := 1 + sym.Choose(name+".len", max)
	return sym.String(name, n, alphabet)
}

// HarnessTargets: links with any targets at two levels, reached from several paths.
func HarnessTargets() {
	top := target("top", sym.Param("top", 3, 5))
	deep := target("deep", sym.Param("deep", 4, 5))
	root := lib.Dir(".", 0o755,
		lib.Dir("0", 0o751,
			lib.Dir("0", 0o752, lib.File("1", 0o641, []byte("001"))),
			lib.File("1", 0o642, []byte("01")),
			lib.Link("2", deep)),
		lib.File("1", 0o643, []byte("1")),
		lib.Link("2", top)).Join()
	fsys := open(root)
	name := []string{"2", "0/2", "2/1", "0/2/1", "2/2", "0/2/2"}[sym.Choose("query", 6)]
	sym.Reach(lib.SameLookup(fsys, root, name).String())
}

// HarnessCycles: three links in one directory with any targets.
func HarnessCycles() {
	n := sym.Param("links", 2, 3)
	root := lib.Dir(".", 0o755, lib.Link("0", target("t0", n)), lib.Link("1", target("t1", n)), lib.Link("2", target("t2", 2)), lib.File("f", 0o644, []byte("f"))).Join()
	fsys := open(root)
	name := "012"[sym.Choose("query", 2):][:1]
	sym.Reach(lib.SameLookup(fsys, root, name).String())
}

// HarnessPaths: any path string, over a tree with fixed links.
func HarnessPaths() {
	root := lib.Dir(".", 0o755,
		lib.Dir("0", 0o751,
			lib.Link("0", "../2"),
			lib.File("1", 0o642, []byte("01")),
			lib.Link("2", "..")),
		lib.Link("1", "0/1"),
		lib.Dir("2", 0o753,
			lib.Link("0", "/0/"),
			lib.Link("1", "missing"),
			lib.Link("2", "2"))).Join()
	fsys := open(root)
	if sym.Choose("created", 2) == 1 {
		fsys = created(root)
	}
	n := sym.Choose("len", sym.Param("path", 7, 8))
	name := sym.String("path", n, alphabet)
	sym.Reach(lib.SameLookup(fsys, root, name).String())
}

// HarnessChain: a chain of links that is long but ends.
func HarnessChain() {
	n := sym.Param("chain", 40, 60)
	root := lib.Dir(".", 0o755)
	for i := 0; i < n; i++ {
		root.Kids = append(root.Kids, lib.Link(string([]byte{'a' + byte(i/10), '0' + byte(i%10)}), string([]byte{'a' + byte((i+1)/10), '0' + byte((i+1)%10)})))
	}
	end := string([]byte{'a' + byte(n/10), '0' + byte(n%10)})
	root.Kids = append(root.Kids, lib.File(end, 0o644, []byte("end")))
	root.Join()
	start := sym.Choose("start", n)
	name := root.Kids[start].Nm
	res := lib.SameLookup(created(root), root, name)
	sym.Assert(res == lib.Found, "reference")
	sym.Reach("found")
}

func main() {
	sym.Main(sym.Entry{"HarnessTargets", HarnessTargets}, sym.Entry{"HarnessCycles", HarnessCycles},
		sym.Entry{"HarnessPaths", HarnessPaths}, sym.Entry{"HarnessChain", HarnessChain})
}
