package lib

import "io/fs"

// Touch calls every read operation with a path. What they return does not
// matter; that they return does.
func Touch(fsys fs.FS, name string) {
	if s, ok := fsys.(fs.StatFS); ok {
		if fi, err := s.Stat(name); err == nil {
			touchInfo(fi)
		}
	}
	if d, ok := fsys.(fs.ReadDirFS); ok {
		d.ReadDir(name)
	}
	if l, ok := fsys.(LinkFS); ok {
		l.ReadLink(name)
		if fi, err := l.StatLink(name); err == nil {
			touchInfo(fi)
		}
	}
	f, err := fsys.Open(name)
	if err != nil {
		return
	}
	if fi, err := f.Stat(); err == nil {
		touchInfo(fi)
	}
	b := make([]byte, 700)
	for i := 0; i < 3; i++ {
		if _, err := f.Read(b); err != nil {
			break
		}
	}
	f.Close()
}

func touchInfo(fi fs.FileInfo) {
	fi.Name()
	fi.Size()
	fi.Mode()
	fi.IsDir()
	fi.ModTime()
	fi.Sys()
}

// Explore walks a filesystem through its listings, up to depth levels, and
// touches everything it meets.
func Explore(fsys fs.FS, dir string, depth int) {
	Touch(fsys, dir)
	l, err := fsys.(fs.ReadDirFS).ReadDir(dir)
	if err != nil || depth == 0 {
		return
	}
	for i, e := range l {
		if i == 4 {
			break
		}
		e.Type()
		e.IsDir()
		if fi, err := e.Info(); err == nil {
			touchInfo(fi)
		}
		Explore(fsys, join(dir, e.Name()), depth-1)
	}
}
