package lib

import (
	"errors"
	"io/fs"
	"strings"

	"verif.local/harness/sym"
)

// MaxHops is more links than any lookup without a cycle follows in the trees
// of the harnesses.
const MaxHops = 100

// Result of a reference lookup.
type Result int

const (
	Found Result = iota
	Missing
	NotDir
	Loop
)

// Clean is the list of components of a path given by a caller: slashes and dots
// are resolved lexically below the root.
func Clean(name string) []string {
	var out []string
	for _, c := range strings.Split(name, "/") {
		switch c {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, c)
		}
	}
	return out
}

// Resolve looks up comps below root as a POSIX lookup confined to the root
// does. The last component is not followed when nofollow is set.
func Resolve(root *Node, comps []string, nofollow bool) (*Node, Result) {
	cur := root
	todo := append([]string(nil), comps...)
	hops := 0
	for len(todo) > 0 {
		c := todo[0]
		todo = todo[1:]
		if !cur.IsDir() {
			return nil, NotDir
		}
		switch c {
		case "", ".":
			continue
		case "..":
			if cur.Up != nil {
				cur = cur.Up
			}
			continue
		}
		k := cur.Find(c)
		if k == nil {
			return nil, Missing
		}
		if k.IsLink() && !(nofollow && len(todo) == 0) {
			hops++
			if hops > MaxHops {
				return nil, Loop
			}
			if strings.HasPrefix(k.Link, "/") {
				cur = root
			}
			// a trailing slash asks for a directory
			todo = append(strings.Split(k.Link, "/"), todo...)
			continue
		}
		cur = k
	}
	return cur, Found
}

// SameLookup compares every lookup of name with the reference. kinds of errors
// are not compared, but that a missing name is reported as missing.
func SameLookup(fsys LinkFS, root *Node, name string) Result {
	comps := Clean(name)
	want, res := Resolve(root, comps, false)
	fi, err := fsys.Stat(name)
	f, ferr := fsys.Open(name)
	l, lerr := fsys.ReadDir(name)
	if res != Found {
		sym.Assert(err != nil, "Stat fails like a rooted lookup")
		sym.Assert(lerr != nil, "ReadDir fails like a rooted lookup")
		if ferr == nil {
			_, ferr = ReadAll(f, 16, 64)
		}
		sym.Assert(ferr != nil, "Open fails like a rooted lookup")
		if res == Missing {
			sym.Assert(errors.Is(err, fs.ErrNotExist), "a missing name is reported as such")
		}
	} else {
		sym.Assert(err == nil, "Stat succeeds like a rooted lookup")
		sym.Assert(ferr == nil, "Open succeeds like a rooted lookup")
		sym.Assert(fi.Mode() == want.M, "Stat reports the entry a rooted lookup finds")
		hi, herr := f.Stat()
		sym.Assert(herr == nil && hi.Mode() == want.M, "Open opens the entry a rooted lookup finds")
		if want.IsDir() {
			sym.Assert(lerr == nil && len(l) == len(want.Kids), "ReadDir lists the directory a rooted lookup finds")
			for i, k := range want.Kids {
				sym.Assert(l[i].Name() == k.Nm, "ReadDir lists the directory a rooted lookup finds")
			}
		} else {
			sym.Assert(lerr != nil, "a file is not listed")
			sym.Assert(fi.Size() == int64(len(want.Data)), "Stat reports the size")
			c, cerr := ReadAll(f, 16, 64)
			sym.Assert(cerr == nil && sym.EqBytes(c, want.Data), "Open reads the file a rooted lookup finds")
		}
	}
	if len(comps) == 0 {
		return res
	}
	lnk, lres := Resolve(root, comps, true)
	fi, err = fsys.StatLink(name)
	t, terr := fsys.ReadLink(name)
	if lres != Found {
		sym.Assert(err != nil, "StatLink fails like a rooted lookup")
		sym.Assert(terr != nil, "ReadLink fails like a rooted lookup")
		return res
	}
	sym.Assert(err == nil && fi.Mode() == lnk.M, "StatLink does not follow the last component")
	sym.Assert(fi.Name() == lnk.Nm, "StatLink reports the name")
	if lnk.IsLink() {
		sym.Assert(terr == nil && sym.EqString(t, lnk.Link), "ReadLink returns the target")
	} else {
		sym.Assert(terr != nil, "ReadLink fails for what is no link")
	}
	return res
}

// String is used for reachability labels.
func (r Result) String() string { return []string{"found", "missing", "notdir", "loop"}[r] }
