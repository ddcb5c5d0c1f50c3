From a84260da549143f6a0471657e5c8b39f29a41339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 01/53] fix: arfs: keep the leading dot of hidden file names

---
 arfs/arfs.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 0102238..837ae40 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -214,7 +214,11 @@ func checkAr(ra io.ReaderAt) (int64, error) {
 }
 
 func sanitizePath(name string) string {
-	return strings.TrimPrefix(strings.TrimPrefix(filepath.Clean(filepath.ToSlash(strings.TrimSpace(name))), "."), "/")
+	name = filepath.ToSlash(filepath.Clean(filepath.ToSlash(strings.TrimSpace(name))))
+	if name == "." {
+		return ""
+	}
+	return strings.TrimPrefix(name, "/")
 }
 
 type file struct {
-- 
2.43.0


From 8972ff7355daa8017cd69a17ca0c97686992429a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:55 +0000
Subject: [PATCH 02/53] fix: arfs: reject a header when either terminator byte
 is wrong

---
 arfs/arfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 837ae40..930615b 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -162,7 +162,7 @@ func parseArEntry(line []byte) (*Entry, error) {
 		return nil, errors.New("malformed file entry line length")
 	}
 
-	if line[58] != 0x60 && line[59] != 0x0A {
+	if line[58] != 0x60 || line[59] != 0x0A {
 		return nil, errors.New("malformed file entry line endings")
 	}
 
-- 
2.43.0


From 53beab34a87fd596fc3305c3f95d80c3b3645eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:55 +0000
Subject: [PATCH 03/53] fix: arfs: reject negative member sizes

---
 arfs/arfs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 930615b..fd9111a 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -197,6 +197,10 @@ func parseArEntry(line []byte) (*Entry, error) {
 		*target = int64(intValue)
 	}
 
+	if e.FileSize < 0 {
+		return nil, fmt.Errorf("invalid file size: %d", e.FileSize)
+	}
+
 	return &e, nil
 }
 
-- 
2.43.0


From 1aaafbf033e68d97163af7b5b572324767c80a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:56 +0000
Subject: [PATCH 04/53] fix: arfs: do not lose a header that is read together
 with io.EOF

---
 arfs/arfs.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index fd9111a..040fcf4 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -68,20 +68,18 @@ func Open(ra io.ReaderAt) (*FS, error) {
 	for {
 		line := make([]byte, 60)
 
+		// A reader may report io.EOF along with the last complete header.
 		n, err := ra.ReadAt(line, offset)
-		if err != nil {
-			if errors.Is(err, io.EOF) {
-				break
+		if n != 60 {
+			if err != nil && !errors.Is(err, io.EOF) {
+				return nil, err
 			}
 
-			return nil, err
-		}
+			if n == 0 || (n == 1 && line[0] == '\n') {
+				break
+			}
 
-		if n == 1 && line[0] == '\n' {
-			return nil, io.EOF
-		}
-		if n != 60 {
-			return nil, errors.New("short read")
+			return nil, io.ErrUnexpectedEOF
 		}
 
 		e, err := parseArEntry(line)
@@ -208,7 +206,7 @@ func parseArEntry(line []byte) (*Entry, error) {
 // like an `ar(1)` archive, and not some random file.
 func checkAr(ra io.ReaderAt) (int64, error) {
 	header := make([]byte, 8)
-	if _, err := ra.ReadAt(header, 0); err != nil {
+	if n, err := ra.ReadAt(header, 0); n != len(header) {
 		return 0, err
 	}
 	if string(header) != "!<arch>\n" {
-- 
2.43.0


From e4c24a7d2772b9eeb1050b06ecc4c9a31cbab828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:57 +0000
Subject: [PATCH 05/53] fix: arfs: report truncated member data

---
 arfs/arfs.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 040fcf4..b587705 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -92,6 +92,18 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		}
 
 		begin := offset + int64(n)
+
+		// Make sure that the archive holds all of the member's data.
+		if e.FileSize > 0 {
+			if n, err := ra.ReadAt(make([]byte, 1), begin+e.FileSize-1); n != 1 {
+				if errors.Is(err, io.EOF) {
+					err = io.ErrUnexpectedEOF
+				}
+
+				return nil, err
+			}
+		}
+
 		e.data = func() io.Reader {
 			return io.NewSectionReader(ra, begin, e.FileSize)
 		}
-- 
2.43.0


From 042e1a60e9398a540c42de47c7a10110fb3f3a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:58 +0000
Subject: [PATCH 06/53] fix: arfs: reject members without a usable name

---
 arfs/arfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index b587705..6005e51 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -87,7 +87,7 @@ func Open(ra io.ReaderAt) (*FS, error) {
 			return nil, err
 		}
 
-		if strings.Contains(e.Filename, "/") {
+		if e.Filename == "" || e.Filename == ".." || strings.Contains(e.Filename, "/") {
 			return nil, fmt.Errorf("invalid filename: %s", e.Filename)
 		}
 
-- 
2.43.0


From 66cb2aed806ce1374696848cc11c7f2098fe7b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:58 +0000
Subject: [PATCH 07/53] fix: arfs: listing a missing name reports
 fs.ErrNotExist

---
 arfs/arfs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 6005e51..41f184a 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -131,6 +131,10 @@ func (fsys *FS) Open(name string) (fs.File, error) {
 func (fsys *FS) ReadDir(name string) ([]fs.DirEntry, error) {
 	name = sanitizePath(name)
 	if name != "" {
+		if _, ok := fsys.entries[name]; !ok {
+			return nil, fs.ErrNotExist
+		}
+
 		return nil, errors.New("ar does not support directories")
 	}
 
-- 
2.43.0


From 06a2e63fa9c747d92c73e8c95f35ba1fd1884283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 08/53] fix: arfs: refuse metadata that is wider than its
 header column

---
 arfs/create.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/arfs/create.go b/arfs/create.go
index a76be3d..11135b8 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -71,15 +71,22 @@ func writeArHeader(w io.Writer, hdr *tar.Header) error {
 		return fmt.Errorf("file name too long: %s", name)
 	}
 
+	modTime := strconv.FormatInt(hdr.ModTime.Unix(), 10)
+	uid, gid := strconv.Itoa(hdr.Uid), strconv.Itoa(hdr.Gid)
+	size := strconv.FormatInt(hdr.Size, 10)
+	if len(modTime) > 12 || len(uid) > 6 || len(gid) > 6 || len(size) > 10 {
+		return fmt.Errorf("file metadata does not fit in an ar header: %s", name)
+	}
+
 	// Construct the ar(1) header
 	arHeader := fmt.Sprintf(
 		"%-16s%-12s%-6s%-6s%-8s%-10s`\n",
 		name,
-		strconv.Itoa(int(hdr.ModTime.Unix())),
-		strconv.Itoa(hdr.Uid),
-		strconv.Itoa(hdr.Gid),
+		modTime,
+		uid,
+		gid,
 		fmt.Sprintf("%07o", hdr.Mode),
-		fmt.Sprintf("%-10d", hdr.Size),
+		size,
 	)
 
 	// Write the ar header to the output
-- 
2.43.0


From e124e2ce69289deb295850abf7df3c4f5b3e69d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:00 +0000
Subject: [PATCH 09/53] fix: arfs: detect content that does not match the
 reported size

---
 arfs/create.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arfs/create.go b/arfs/create.go
index 11135b8..8c62469 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -111,6 +111,10 @@ func writeArData(w io.Writer, src fs.FS, path string, size int64) error {
 		return err
 	}
 
+	if n != size {
+		return fmt.Errorf("file size changed: %s: read %d bytes, expected %d", path, n, size)
+	}
+
 	// Handle padding if the file size is odd (ar format requires even size)
 	if n%2 != 0 {
 		if _, err := io.WriteString(w, "\n"); err != nil {
-- 
2.43.0


From 07633e2e9454e75c9017fb275a95038aee159850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:01 +0000
Subject: [PATCH 10/53] fix: arfs: keep the owner when the source is an ar
 archive

---
 arfs/create.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arfs/create.go b/arfs/create.go
index 8c62469..eb050b5 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -49,6 +49,11 @@ func Create(dst io.Writer, src fs.FS) error {
 			return err
 		}
 
+		// The tar package does not know about the owner of ar(1) entries.
+		if e, ok := fi.Sys().(*Entry); ok {
+			hdr.Uid, hdr.Gid = int(e.Uid), int(e.Gid)
+		}
+
 		// Write ar(1) header for the file
 		if err := writeArHeader(dst, hdr); err != nil {
 			return err
-- 
2.43.0


From e5b6b604c9f4093b5b1c565862459d8a8bbbe4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:02 +0000
Subject: [PATCH 11/53] fix: arfs: refuse names and special files that do not
 survive the format

---
 arfs/create.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/arfs/create.go b/arfs/create.go
index eb050b5..197a81d 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -39,6 +39,10 @@ func Create(dst io.Writer, src fs.FS) error {
 			return errors.New("symlinks are not supported")
 		}
 
+		if !d.Type().IsRegular() {
+			return errors.New("special files are not supported")
+		}
+
 		fi, err := d.Info()
 		if err != nil {
 			return err
@@ -72,6 +76,9 @@ func Create(dst io.Writer, src fs.FS) error {
 
 func writeArHeader(w io.Writer, hdr *tar.Header) error {
 	name := sanitizePath(hdr.Name)
+	if name != hdr.Name || name == "" || name == ".." {
+		return fmt.Errorf("file name cannot be represented: %q", hdr.Name)
+	}
 	if len(name) > 16 {
 		return fmt.Errorf("file name too long: %s", name)
 	}
-- 
2.43.0


From fe0d198f7368a6f50c3946793746496fb2e1fcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:56 +0000
Subject: [PATCH 12/53] fix: tarfs: keep leading dots and surrounding spaces of
 member names

---
 tarfs/tarfs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 9e7e20e..3d8f6cb 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -15,6 +15,7 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
+	"path"
 	"path/filepath"
 	"slices"
 	"strings"
@@ -281,7 +282,7 @@ func resolve(root *dirent, name string) (*dirent, error) {
 }
 
 func sanitizePath(name string) string {
-	return strings.TrimPrefix(strings.TrimPrefix(filepath.Clean(filepath.ToSlash(strings.TrimSpace(name))), "."), "/")
+	return strings.TrimPrefix(path.Clean("/"+filepath.ToSlash(name)), "/")
 }
 
 type file struct {
-- 
2.43.0


From 82c5d015f35dc4d50ffb000f79dba95de6c98a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:57 +0000
Subject: [PATCH 13/53] fix: tarfs: do not replace explicit directories by
 implied ones

---
 tarfs/tarfs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 3d8f6cb..69961c2 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -85,6 +85,10 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		for dir := filepath.Dir(h.Name); dir != "." && dir != "/"; dir = filepath.Dir(dir) {
 			// Create a default directory entry if it doesn't exist.
 			// Don't worry if we see one later, we'll just overwrite it.
+			if existing, ok := dirents[dir]; ok && existing.Typeflag == tar.TypeDir {
+				continue
+			}
+
 			dirents[dir] = &dirent{
 				Header: tar.Header{
 					Typeflag: tar.TypeDir,
-- 
2.43.0


From 4d4227daa3aa80f570b8397b5bfaff7d0c71fd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:58 +0000
Subject: [PATCH 14/53] fix: tarfs: opening the root or an implied directory
 must not panic

---
 tarfs/tarfs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 69961c2..4dd291d 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -158,6 +158,11 @@ func (fsys *FS) Open(name string) (fs.File, error) {
 		return nil, err
 	}
 
+	// Directories have no content (and might be implied, so have no header either).
+	if d.IsDir() {
+		return &file{dirent: d, r: strings.NewReader("")}, nil
+	}
+
 	tr := tar.NewReader(d.data())
 	if _, err := tr.Next(); err != nil {
 		return nil, fmt.Errorf("failed to read file %s: %w", name, err)
-- 
2.43.0


From d7fcc63022f7fd8fec048192bdb1d0edee7027a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:58 +0000
Subject: [PATCH 15/53] fix: tarfs: resolve symbolic links from the directory
 that holds them

---
 tarfs/tarfs.go | 69 ++++++++++++++++++++++++++++----------------------
 1 file changed, 39 insertions(+), 30 deletions(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 4dd291d..b02ed0b 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -73,14 +73,6 @@ func Open(ra io.ReaderAt) (*FS, error) {
 			continue
 		}
 
-		// Make archive relative paths absolute.
-		if h.Typeflag == tar.TypeSymlink {
-			if strings.HasPrefix(h.Linkname, "./") {
-				h.Linkname = strings.TrimPrefix(h.Linkname, ".")
-			}
-			h.Linkname = filepath.Clean(h.Linkname)
-		}
-
 		// Create a default directory entry for each parent directory.
 		for dir := filepath.Dir(h.Name); dir != "." && dir != "/"; dir = filepath.Dir(dir) {
 			// Create a default directory entry if it doesn't exist.
@@ -252,39 +244,56 @@ func (fsys *FS) StatLink(name string) (fs.FileInfo, error) {
 	return d.Info()
 }
 
-func resolve(root *dirent, name string) (*dirent, error) {
-	d := root
+// maxSymlinks is the number of symbolic links that are followed in one lookup.
+const maxSymlinks = 255
 
-	name = sanitizePath(name)
-	if name == "" {
-		return d, nil
-	}
+func resolve(root *dirent, name string) (*dirent, error) {
+	var links int
+	return walk(root, root, sanitizePath(name), &links)
+}
 
+// walk looks up name starting at the directory d, following symbolic links.
+func walk(root, d *dirent, name string, links *int) (*dirent, error) {
 	for _, component := range strings.Split(name, "/") {
-		var found bool
-		d, found = d.findChild(component)
+		if !d.IsDir() {
+			return nil, fs.ErrNotExist
+		}
+
+		switch component {
+		case "", ".":
+			continue
+		case "..":
+			if d.parent != nil {
+				d = d.parent
+			}
+			continue
+		}
+
+		child, found := d.findChild(component)
 		if !found {
 			return nil, fs.ErrNotExist
 		}
 
-		if d.Type()&fs.ModeSymlink != 0 {
-			// Resolve the symlink.
-			target := d.Linkname
+		if child.Type()&fs.ModeSymlink != 0 {
+			*links++
+			if *links > maxSymlinks {
+				return nil, errors.New("too many levels of symbolic links")
+			}
+
+			// Targets are relative to the directory holding the symlink.
+			dir := d
+			if strings.HasPrefix(child.Linkname, "/") {
+				dir = root
+			}
 
 			var err error
-			if !filepath.IsAbs(target) && d.parent != nil {
-				d, err = resolve(d.parent, target)
-				if err != nil {
-					return nil, err
-				}
-			} else {
-				// The target is an absolute path or the dirent is the root dirent.
-				d, err = resolve(root, target)
-				if err != nil {
-					return nil, err
-				}
+			child, err = walk(root, dir, child.Linkname, links)
+			if err != nil {
+				return nil, err
 			}
 		}
+
+		d = child
 	}
 
 	return d, nil
-- 
2.43.0


From c0b42cd1c1ea51326873108256783e08691ef2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:36 +0000
Subject: [PATCH 16/53] fix: tarfs: follow chains of hardlinks to the member
 they name

---
 tarfs/tarfs.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index b02ed0b..0b3fb07 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -103,10 +103,19 @@ func Open(ra io.ReaderAt) (*FS, error) {
 	// Point hardlinks to the underlying dirent.
 	for path, d := range dirents {
 		if d.Typeflag == tar.TypeLink {
-			name := sanitizePath(d.Linkname)
-			target, ok := dirents[name]
-			if !ok {
-				return nil, fmt.Errorf("failed to resolve hardlink %q: %w", name, fs.ErrNotExist)
+			// The target might be another hardlink.
+			target := d
+			for n := 0; target.Typeflag == tar.TypeLink; n++ {
+				name := sanitizePath(target.Linkname)
+				next, ok := dirents[name]
+				if !ok {
+					return nil, fmt.Errorf("failed to resolve hardlink %q: %w", name, fs.ErrNotExist)
+				}
+				if n > len(dirents) {
+					return nil, fmt.Errorf("failed to resolve hardlink %q: cycle of hardlinks", name)
+				}
+
+				target = next
 			}
 
 			targetCopy := *target
-- 
2.43.0


From 348fad3b348dddb93f256f56a6bdfef98059e50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:37 +0000
Subject: [PATCH 17/53] fix: tarfs: StatLink and ReadLink accept the same
 spellings of a path as Stat

---
 tarfs/tarfs.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 0b3fb07..9716cc7 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -210,7 +210,7 @@ func (fsys *FS) Stat(name string) (fs.FileInfo, error) {
 
 	// Use the original name (as we may be resolving a symlink).
 	renamed := *d
-	renamed.Header.Name = name
+	renamed.Header.Name = sanitizePath(name)
 
 	return renamed.Info()
 }
@@ -219,6 +219,11 @@ func (fsys *FS) Stat(name string) (fs.FileInfo, error) {
 // Experimental implementation of fs.ReadLinkFS:
 // https://github.com/golang/go/issues/49580
 func (fsys *FS) ReadLink(name string) (string, error) {
+	name = sanitizePath(name)
+	if name == "" {
+		return "", fs.ErrInvalid
+	}
+
 	d, err := resolve(&fsys.root, filepath.Dir(name))
 	if err != nil {
 		return "", err
@@ -240,6 +245,11 @@ func (fsys *FS) ReadLink(name string) (string, error) {
 // Experimental implementation of fs.ReadLinkFS:
 // https://github.com/golang/go/issues/49580
 func (fsys *FS) StatLink(name string) (fs.FileInfo, error) {
+	name = sanitizePath(name)
+	if name == "" {
+		return fsys.Stat(name)
+	}
+
 	d, err := resolve(&fsys.root, filepath.Dir(name))
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 86d9d7713a5e8e2282611223b77894073ef4d7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:38 +0000
Subject: [PATCH 18/53] fix: tarfs: listing something that is not a directory
 is an error

---
 tarfs/tarfs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 9716cc7..b104e9f 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -178,6 +178,10 @@ func (fsys *FS) ReadDir(name string) ([]fs.DirEntry, error) {
 		return nil, err
 	}
 
+	if !d.IsDir() {
+		return nil, &fs.PathError{Op: "readdir", Path: name, Err: errors.New("not a directory")}
+	}
+
 	var children []fs.DirEntry
 	for _, child := range d.children {
 		children = append(children, child)
-- 
2.43.0


From 05c40148d5e4fc5970786561fe1468f5679f8da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:38 +0000
Subject: [PATCH 19/53] fix: tarfs: sparse files are regular files

---
 tarfs/tarfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index b104e9f..c3c3aae 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -383,7 +383,7 @@ func (d *dirent) IsDir() bool {
 
 func (d *dirent) Type() fs.FileMode {
 	switch d.Typeflag {
-	case tar.TypeReg:
+	case tar.TypeReg, tar.TypeGNUSparse:
 		return 0
 	case tar.TypeSymlink:
 		return fs.ModeSymlink
-- 
2.43.0


From 16054fb17a217b599c503faa6b8c372665012ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:39 +0000
Subject: [PATCH 20/53] fix: tarfs: report errors while completing the archive

---
 tarfs/create.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tarfs/create.go b/tarfs/create.go
index b8a105e..849efd0 100644
--- a/tarfs/create.go
+++ b/tarfs/create.go
@@ -23,7 +23,7 @@ func Create(dst io.Writer, src fs.FS) error {
 	tw := tar.NewWriter(dst)
 	defer tw.Close()
 
-	return fs.WalkDir(src, ".", func(path string, d fs.DirEntry, err error) error {
+	if err := fs.WalkDir(src, ".", func(path string, d fs.DirEntry, err error) error {
 		if err != nil {
 			return err
 		}
@@ -78,5 +78,10 @@ func Create(dst io.Writer, src fs.FS) error {
 		}
 
 		return nil
-	})
+	}); err != nil {
+		return err
+	}
+
+	// Flush the padding of the last file and the archive trailer.
+	return tw.Close()
 }
-- 
2.43.0


From 65466519eb3e400f1a53a07753ae1c648a32180a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:24 +0000
Subject: [PATCH 21/53] fix: erofs: store empty files so that the image can be
 read

The reader, like Linux, rejects an inline inode without inline data.
---
 erofs/writer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index ff65dcd..33143b0 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -105,7 +105,8 @@ func (w *writer) firstPass() (metaSize, dataSize int64, err error) {
 		}
 		_ = data.Close()
 
-		inlined := size <= MaxInlineDataSize
+		// Empty files have no data that could be inlined.
+		inlined := size > 0 && size <= MaxInlineDataSize
 		if inlined {
 			// if the size of the inode and data exceeds the block size, we need to
 			// pad to the next block boundary before inlining the data.
-- 
2.43.0


From bea35067ecce40f8ab49148c53d9b2d73716750e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:25 +0000
Subject: [PATCH 22/53] fix: erofs: report unreadable inodes instead of
 panicking

---
 erofs/erofs.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/erofs/erofs.go b/erofs/erofs.go
index 28998b3..c02d689 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -242,6 +242,7 @@ type dirEntry struct {
 	nid           uint64
 	readInodeOnce sync.Once
 	inode         *Inode
+	inodeErr      error
 }
 
 func (de *dirEntry) Name() string {
@@ -297,10 +298,14 @@ func (de *dirEntry) getInode() (Inode, error) {
 	de.readInodeOnce.Do(func() {
 		ino, err := de.image.Inode(de.nid)
 		if err != nil {
-			panic(err)
+			de.inodeErr = err
+			return
 		}
 		de.inode = &ino
 	})
+	if de.inodeErr != nil {
+		return Inode{}, de.inodeErr
+	}
 
 	return *de.inode, nil
 }
-- 
2.43.0


From ddbbc87eb16008c6c93d38f52149807b08b68494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:26 +0000
Subject: [PATCH 23/53] fix: erofs: sort dot and dot-dot with the other
 directory entries

Names such as "-a" sort before ".", and could not be looked up.
---
 erofs/writer.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/erofs/writer.go b/erofs/writer.go
index 33143b0..05745c1 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -19,6 +19,7 @@ import (
 	"math"
 	"os"
 	"path/filepath"
+	"sort"
 	"time"
 )
 
@@ -368,6 +369,9 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 			names = append(names, de.Name())
 		}
 
+		// Entries are looked up by binary search.
+		sort.Sort(&byName{dirents: dirents, names: names})
+
 		buf, err := encodeDirents(dirents, names)
 		if err != nil {
 			return nil, 0, fmt.Errorf("failed to encode directory entries: %w", err)
@@ -424,6 +428,19 @@ func toInode(fi fs.FileInfo, nlink int) any {
 	}
 }
 
+// byName sorts directory entries by their names.
+type byName struct {
+	dirents []Dirent
+	names   []string
+}
+
+func (b *byName) Len() int           { return len(b.names) }
+func (b *byName) Less(i, j int) bool { return b.names[i] < b.names[j] }
+func (b *byName) Swap(i, j int) {
+	b.dirents[i], b.dirents[j] = b.dirents[j], b.dirents[i]
+	b.names[i], b.names[j] = b.names[j], b.names[i]
+}
+
 func encodeDirents(dirents []Dirent, names []string) ([]byte, error) {
 	blocks := splitIntoDirentBlocks(dirents, names)
 
-- 
2.43.0


From d43bf8789004268f51e2fcf600913aa59fafc7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:50 +0000
Subject: [PATCH 24/53] fix: erofs: refuse file names that cannot be stored

---
 erofs/writer.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/erofs/writer.go b/erofs/writer.go
index 05745c1..1f7d692 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -20,6 +20,7 @@ import (
 	"os"
 	"path/filepath"
 	"sort"
+	"strings"
 	"time"
 )
 
@@ -273,6 +274,14 @@ func (w *writer) populateInodes() error {
 			return err
 		}
 
+		if err := checkName(d.Name()); path != "." && err != nil {
+			return fmt.Errorf("cannot store %q: %w", path, err)
+		}
+
+		if _, ok := w.inodes[path]; ok {
+			return fmt.Errorf("duplicate entry %q", path)
+		}
+
 		fi, err := d.Info()
 		if err != nil {
 			return err
@@ -300,6 +309,19 @@ func (w *writer) populateInodes() error {
 	return nil
 }
 
+// checkName checks that name can be stored in a directory entry.
+func checkName(name string) error {
+	if name == "" || name == "." || name == ".." || strings.ContainsAny(name, "/\x00") {
+		return errors.New("invalid file name")
+	}
+
+	if len(name) > MaxNameLen {
+		return errors.New("file name too long")
+	}
+
+	return nil
+}
+
 func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error) {
 	type readLinkFS interface {
 		ReadLink(name string) (string, error)
-- 
2.43.0


From 11973b7a739e804a8947ed7649e47a7cd45a1b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 25/53] fix: erofs: strip the padding of a directory block
 before checking the name

The last name of every block but the last of a directory is followed by
padding, and was rejected as too long.
---
 erofs/reader.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index e31e4a1..80925a8 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -687,9 +687,13 @@ func (ino *Inode) getBlockDataInfo(blockIdx uint64) blockData {
 //
 // Refer: https://docs.kernel.org/filesystems/erofs.html#directories
 func (ino *Inode) getDirentName(d *Dirent, direntOff int64, block blockData, lastDirent bool) ([]byte, error) {
+	if uint32(d.NameOff) >= block.size {
+		return nil, errors.New("corrupted dirent")
+	}
 	var nameLen uint32
 	if lastDirent {
-		nameLen = block.size - uint32(d.NameOff)
+		// The name may be followed by padding up to the end of the block.
+		nameLen = min(block.size-uint32(d.NameOff), MaxNameLen+1)
 	} else {
 		next, err := ino.image.direntAt(direntOff + DirentSize)
 		if err != nil {
@@ -698,7 +702,7 @@ func (ino *Inode) getDirentName(d *Dirent, direntOff int64, block blockData, las
 
 		nameLen = uint32(next.NameOff - d.NameOff)
 	}
-	if uint32(d.NameOff)+nameLen > block.size || nameLen > MaxNameLen || nameLen == 0 {
+	if uint32(d.NameOff)+nameLen > block.size || nameLen > MaxNameLen+1 || nameLen == 0 {
 		return nil, errors.New("corrupted dirent")
 	}
 	name, err := ino.image.bytesAt(int64(block.base)+int64(d.NameOff), int64(nameLen))
@@ -715,6 +719,9 @@ func (ino *Inode) getDirentName(d *Dirent, direntOff int64, block blockData, las
 			name = name[:n]
 		}
 	}
+	if len(name) > MaxNameLen {
+		return nil, errors.New("corrupted dirent")
+	}
 	return name, nil
 }
 
-- 
2.43.0


From 280273f0c306ae59383b03f26c62c349a45b8812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:14 +0000
Subject: [PATCH 26/53] fix: erofs: point dot and dot-dot at the directory and
 its parent

They all pointed at the root directory, which had no dot-dot at all.
---
 erofs/writer.go | 52 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index 1f7d692..5f199a5 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -358,30 +358,26 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 			return nil, 0, fmt.Errorf("failed to read directory entries: %w", err)
 		}
 
-		dirents := []Dirent{{FileType: uint8(fileTypeFromFileMode(fs.ModeDir))}}
-		names := []string{"."}
+		// The parent of the root directory is the root directory itself.
+		nid, err := w.nidForPath(path)
+		if err != nil {
+			return nil, 0, err
+		}
+		parentNid, err := w.nidForPath(filepath.Dir(path))
+		if err != nil {
+			return nil, 0, err
+		}
 
-		if path != "." {
-			dirents = append(dirents, Dirent{FileType: uint8(fileTypeFromFileMode(fs.ModeDir))})
-			names = append(names, "..")
+		dirents := []Dirent{
+			{Nid: uint64(nid), FileType: uint8(fileTypeFromFileMode(fs.ModeDir))},
+			{Nid: uint64(parentNid), FileType: uint8(fileTypeFromFileMode(fs.ModeDir))},
 		}
+		names := []string{".", ".."}
 
 		for _, de := range entries {
-			path := filepath.Clean(filepath.Join(path, de.Name()))
-
-			ino, ok := w.inodes[path]
-			if !ok {
-				return nil, 0, fmt.Errorf("failed to find inode for path %q", path)
-			}
-
-			var nid uint32
-			switch ino := ino.(type) {
-			case InodeCompact:
-				nid = ino.Ino
-			case InodeExtended:
-				nid = ino.Ino
-			default:
-				return nil, 0, fmt.Errorf("unsupported inode type %T", ino)
+			nid, err := w.nidForPath(filepath.Clean(filepath.Join(path, de.Name())))
+			if err != nil {
+				return nil, 0, err
 			}
 
 			dirents = append(dirents, Dirent{
@@ -421,6 +417,22 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 	}
 }
 
+func (w *writer) nidForPath(path string) (uint32, error) {
+	ino, ok := w.inodes[path]
+	if !ok {
+		return 0, fmt.Errorf("failed to find inode for path %q", path)
+	}
+
+	switch ino := ino.(type) {
+	case InodeCompact:
+		return ino.Ino, nil
+	case InodeExtended:
+		return ino.Ino, nil
+	default:
+		return 0, fmt.Errorf("unsupported inode type %T", ino)
+	}
+}
+
 func toInode(fi fs.FileInfo, nlink int) any {
 	uid, gid := getOwner(fi)
 
-- 
2.43.0


From d0bdf9782214b4aac7e79ea3dc00bead4074c5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:15 +0000
Subject: [PATCH 27/53] fix: erofs: report the setuid, setgid and sticky bits

---
 erofs/reader.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/erofs/reader.go b/erofs/reader.go
index 80925a8..7226687 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -598,6 +598,16 @@ func (ino *Inode) Mode() fs.FileMode {
 		mode |= fs.ModeSymlink
 	}
 
+	if ino.mode&S_ISUID != 0 {
+		mode |= fs.ModeSetuid
+	}
+	if ino.mode&S_ISGID != 0 {
+		mode |= fs.ModeSetgid
+	}
+	if ino.mode&S_ISVTX != 0 {
+		mode |= fs.ModeSticky
+	}
+
 	return mode
 }
 
-- 
2.43.0


From 4c9026970f57f5c6f059c1e9816323bb6e454461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 28/53] fix: erofs: report modification times to the nanosecond

---
 erofs/erofs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/erofs/erofs.go b/erofs/erofs.go
index c02d689..a23c9db 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -329,7 +329,7 @@ func (fi *fileInfo) Mode() fs.FileMode {
 }
 
 func (fi *fileInfo) ModTime() time.Time {
-	return time.Unix(int64(fi.inode.Mtime()), 0)
+	return time.Unix(int64(fi.inode.Mtime()), int64(fi.inode.MtimeNsec()))
 }
 
 func (fi *fileInfo) IsDir() bool {
-- 
2.43.0


From 3319f83b08a977b95a4f79fc83feb54cc7db394f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:35 +0000
Subject: [PATCH 29/53] fix: erofs: keep the owner when the source is an erofs
 image

---
 erofs/owner_unix.go    | 6 ++++++
 erofs/owner_windows.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/erofs/owner_unix.go b/erofs/owner_unix.go
index 57ae752..d9b3d66 100644
--- a/erofs/owner_unix.go
+++ b/erofs/owner_unix.go
@@ -31,6 +31,12 @@ func getOwner(fi fs.FileInfo) (uid, gid int) {
 
 		uid = hdr.Uid
 		gid = hdr.Gid
+
+	case *Inode:
+		ino := fi.Sys().(*Inode)
+
+		uid = int(ino.UID())
+		gid = int(ino.GID())
 	}
 
 	return
diff --git a/erofs/owner_windows.go b/erofs/owner_windows.go
index d497daa..3d1fd19 100644
--- a/erofs/owner_windows.go
+++ b/erofs/owner_windows.go
@@ -24,6 +24,12 @@ func getOwner(fi fs.FileInfo) (uid, gid int) {
 
 		uid = hdr.Uid
 		gid = hdr.Gid
+
+	case *Inode:
+		ino := fi.Sys().(*Inode)
+
+		uid = int(ino.UID())
+		gid = int(ino.GID())
 	}
 
 	return
-- 
2.43.0


From 7525989d85250c84688b05d5e6afb01f27dd0804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:36 +0000
Subject: [PATCH 30/53] fix: erofs: recognise character devices

Go reports them as ModeDevice|ModeCharDevice; they were stored as regular files.
---
 erofs/constants.go | 6 +++---
 erofs/reader.go    | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/erofs/constants.go b/erofs/constants.go
index 3e33128..dd6e97f 100644
--- a/erofs/constants.go
+++ b/erofs/constants.go
@@ -32,7 +32,7 @@ func fileTypeFromFileMode(mode fs.FileMode) uint8 {
 		return FT_SYMLINK
 	case fs.ModeDevice:
 		return FT_BLKDEV
-	case fs.ModeCharDevice:
+	case fs.ModeCharDevice, fs.ModeDevice | fs.ModeCharDevice:
 		return FT_CHRDEV
 	case fs.ModeNamedPipe:
 		return FT_FIFO
@@ -68,13 +68,13 @@ func statModeFromFileMode(mode fs.FileMode) uint16 {
 		stMode |= S_IFLNK
 	case fs.ModeDevice:
 		stMode |= S_IFBLK
-	case fs.ModeCharDevice:
+	case fs.ModeCharDevice, fs.ModeDevice | fs.ModeCharDevice:
 		stMode |= S_IFCHR
 	case fs.ModeNamedPipe:
 		stMode |= S_IFIFO
 	case fs.ModeSocket:
 		stMode |= S_IFSOCK
-	default:
+	case 0:
 		stMode |= S_IFREG
 	}
 
diff --git a/erofs/reader.go b/erofs/reader.go
index 7226687..9b31ba3 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -583,7 +583,7 @@ func (ino *Inode) Mode() fs.FileMode {
 		mode |= fs.ModeDir
 	}
 	if ino.IsCharDev() {
-		mode |= fs.ModeCharDevice
+		mode |= fs.ModeDevice | fs.ModeCharDevice
 	}
 	if ino.IsBlockDev() {
 		mode |= fs.ModeDevice
-- 
2.43.0


From bf2da1e45376b345c40cf757d6aeef9229e83b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:15 +0000
Subject: [PATCH 31/53] fix: erofs: resolve symbolic links from the directory
 that holds them

Targets were joined lexically to the path of the link, dot-dot could not
cross other links and cycles overflowed the stack.
---
 erofs/erofs.go | 55 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 13 deletions(-)

diff --git a/erofs/erofs.go b/erofs/erofs.go
index a23c9db..7281391 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -29,6 +29,7 @@ import (
 	"errors"
 	"io"
 	"io/fs"
+	"path"
 	"path/filepath"
 	"strings"
 	"sync"
@@ -166,11 +167,34 @@ func (fsys *Filesystem) StatLink(name string) (fs.FileInfo, error) {
 	}, nil
 }
 
+// maxSymlinks is the number of symbolic links followed in a single lookup.
+const maxSymlinks = 255
+
 func (fsys *Filesystem) resolve(name string, noResolveLastSymlink bool) (*dirEntry, error) {
-	de := fsys.root
+	// As for any fs.FS, dot and dot-dot in name itself are resolved lexically.
+	name = path.Clean("/" + filepath.ToSlash(name))
+
+	// The entries that lead from the root to the current one.
+	parents := []*dirEntry{fsys.root}
+	links := 0
 
 	components := splitPath(name)
-	for i, comp := range components {
+	for len(components) > 0 {
+		comp := components[0]
+		components = components[1:]
+
+		de := parents[len(parents)-1]
+
+		if comp == "." || comp == ".." {
+			if !de.IsDir() {
+				return nil, fs.ErrInvalid
+			}
+			if comp == ".." && len(parents) > 1 {
+				parents = parents[:len(parents)-1]
+			}
+			continue
+		}
+
 		child, err := de.lookup(comp)
 		if err != nil {
 			return nil, err
@@ -181,28 +205,33 @@ func (fsys *Filesystem) resolve(name string, noResolveLastSymlink bool) (*dirEnt
 			return nil, err
 		}
 
-		if ino.IsSymlink() && !(noResolveLastSymlink && i == len(components)-1) {
+		if ino.IsSymlink() && !(noResolveLastSymlink && len(components) == 0) {
+			links++
+			if links > maxSymlinks {
+				return nil, errors.New("too many levels of symbolic links")
+			}
+
 			link, err := ino.Readlink()
 			if err != nil {
 				return nil, err
 			}
-			link = filepath.Clean(link)
 
+			// Targets are relative to the directory holding the symlink.
 			if strings.HasPrefix(link, "/") {
-				link = strings.TrimPrefix(link, "/")
-			} else {
-				link = filepath.Join(strings.Join(components[:i], "/"), link)
+				parents = parents[:1]
 			}
-
-			child, err = fsys.resolve(link, noResolveLastSymlink)
-			if err != nil {
-				return nil, err
+			target := splitPath(link)
+			if strings.HasSuffix(link, "/") {
+				target = append(target, ".")
 			}
+			components = append(target, components...)
+			continue
 		}
 
-		de = child
+		parents = append(parents, child)
 	}
-	return de, nil
+
+	return parents[len(parents)-1], nil
 }
 
 type file struct {
-- 
2.43.0


From 7e16653858e92d50fa6f2b5605877a624a35fc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:43 +0000
Subject: [PATCH 32/53] fix: erofs: validate the block size of an image

Absurd block sizes made the reader divide by zero or panic, and the checksum
of images with small blocks was computed over the wrong range.
---
 erofs/reader.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index 9b31ba3..411b575 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -51,6 +51,10 @@ const (
 
 	// Max file name length.
 	MaxNameLen = 255
+
+	// Supported block sizes in bit shift.
+	MinBlockSizeBits = 9
+	MaxBlockSizeBits = 16
 )
 
 // Bit definitions for Inode*::Format.
@@ -228,6 +232,10 @@ func (i *Image) initSuperBlock() error {
 		return fmt.Errorf("unknown magic: 0x%x", i.sb.Magic)
 	}
 
+	if i.sb.BlockSizeBits < MinBlockSizeBits || i.sb.BlockSizeBits > MaxBlockSizeBits {
+		return fmt.Errorf("unsupported block size: 1 << %d", i.sb.BlockSizeBits)
+	}
+
 	if err := i.verifyChecksum(); err != nil {
 		return err
 	}
@@ -256,8 +264,15 @@ func (i *Image) verifyChecksum() error {
 	table := crc32.MakeTable(crc32.Castagnoli)
 	checksum := crc32.Checksum(marshalledSb.Bytes(), table)
 
-	off := SuperBlockOffset + int64(binary.Size(i.sb))
-	if buf, err := i.bytesAt(off, int64(i.BlockSize())-off); err != nil {
+	// The checksum covers the rest of the block that holds the superblock, or
+	// a whole block when blocks are no larger than the offset of the superblock.
+	size := int64(i.BlockSize())
+	if size > SuperBlockOffset {
+		size -= SuperBlockOffset
+	}
+
+	sbSize := int64(binary.Size(i.sb))
+	if buf, err := i.bytesAt(SuperBlockOffset+sbSize, size-sbSize); err != nil {
 		return errors.New("image size is too small")
 	} else {
 		checksum = ^crc32.Update(checksum, table, buf)
-- 
2.43.0


From 62474aa79d980c242a33574176523ab128222874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:44 +0000
Subject: [PATCH 33/53] fix: erofs: accept data that is read together with
 io.EOF

---
 erofs/reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index 411b575..52e951b 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -461,7 +461,8 @@ func (i *Image) Inode(nid uint64) (Inode, error) {
 // bytesAt returns the bytes at [off, off+n) of the image.
 func (i *Image) bytesAt(off, n int64) ([]byte, error) {
 	buf := make([]byte, n)
-	if _, err := i.src.ReadAt(buf, off); err != nil {
+	// ReadAt may report io.EOF along with the last bytes of the image.
+	if read, err := i.src.ReadAt(buf, off); err != nil && read < len(buf) {
 		return nil, err
 	}
 	return buf, nil
-- 
2.43.0


From 97f6ab20144811f8aaa531807fd08af9057e1115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 34/53] fix: erofs: name the root directory

---
 erofs/erofs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/erofs/erofs.go b/erofs/erofs.go
index 7281391..28478de 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -58,6 +58,7 @@ func Open(src io.ReaderAt) (*Filesystem, error) {
 		image: image,
 		root: &dirEntry{
 			image: image,
+			name:  ".",
 			nid:   image.RootNid(),
 			typ:   FT_DIR,
 		},
-- 
2.43.0


From d8c9287bb2edabeaf918c54d45096b876db9eafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:19 +0000
Subject: [PATCH 35/53] fix: erofs: detect content that does not match the
 reported size

Excess data overwrote the files that follow, missing data read as garbage.
---
 erofs/writer.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index 5f199a5..1aa4ac6 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -221,11 +221,14 @@ func (w *writer) writeMetadata(metaBlockAddr int64) error {
 			}
 
 			// Write the inlined data.
-			_, err = io.Copy(io.NewOffsetWriter(w.dst, off+int64(binary.Size(ino))), data)
+			n, err := io.Copy(io.NewOffsetWriter(w.dst, off+int64(binary.Size(ino))), data)
 			_ = data.Close()
 			if err != nil {
 				return fmt.Errorf("failed to write inline data for %q: %w", path, err)
 			}
+			if n != dataSize(ino) {
+				return fmt.Errorf("size of %q changed from %d to %d bytes", path, dataSize(ino), n)
+			}
 		}
 	}
 
@@ -256,11 +259,14 @@ func (w *writer) writeData() error {
 			return fmt.Errorf("failed to get data for %q: %w", path, err)
 		}
 
-		_, err = io.Copy(io.NewOffsetWriter(w.dst, int64(rawBlockAddr)*BlockSize), data)
+		n, err := io.Copy(io.NewOffsetWriter(w.dst, int64(rawBlockAddr)*BlockSize), data)
 		_ = data.Close()
 		if err != nil {
 			return fmt.Errorf("failed to write data for %q: %w", path, err)
 		}
+		if n != dataSize(ino) {
+			return fmt.Errorf("size of %q changed from %d to %d bytes", path, dataSize(ino), n)
+		}
 	}
 
 	return nil
@@ -576,6 +582,18 @@ func isInlined(ino any) bool {
 	return bitRange(format, InodeDataLayoutBit, InodeDataLayoutBits) == InodeDataLayoutFlatInline
 }
 
+// dataSize returns the size of the data that was laid out for the inode.
+func dataSize(ino any) int64 {
+	switch ino := ino.(type) {
+	case InodeCompact:
+		return int64(ino.Size)
+	case InodeExtended:
+		return int64(ino.Size)
+	default:
+		return 0
+	}
+}
+
 func setBits(value, newValue, bit, bits uint16) uint16 {
 	mask := uint16((1<<bits)-1) << bit
 	return (value & ^mask) | ((newValue << bit) & mask)
-- 
2.43.0


From 5eedda3b1977ff2e489122e3d157f4320d8746dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:20 +0000
Subject: [PATCH 36/53] fix: erofs: reject inodes with an impossible size

Reading a link of more than MaxInt64 bytes panicked.
---
 erofs/reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/erofs/reader.go b/erofs/reader.go
index 52e951b..ec17b6a 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -39,6 +39,7 @@ import (
 	"hash/crc32"
 	"io"
 	"io/fs"
+	"math"
 )
 
 const (
@@ -434,6 +435,9 @@ func (i *Image) Inode(nid uint64) (Inode, error) {
 	}
 
 	blockSize := int64(i.BlockSize())
+	if inode.size > uint64(math.MaxInt64-blockSize) {
+		return Inode{}, fmt.Errorf("invalid size %d at inode %d", inode.size, nid)
+	}
 	inode.blocks = (int64(inode.size) + (blockSize - 1)) / blockSize
 
 	switch dataLayout := inode.DataLayout(); dataLayout {
-- 
2.43.0


From d385f76e3185974e6dc246dd5b31aedf8cd9a435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:40 +0000
Subject: [PATCH 37/53] fix: erofs: do not truncate the link count of large
 directories

---
 erofs/writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/erofs/writer.go b/erofs/writer.go
index 1aa4ac6..de2f880 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -445,6 +445,7 @@ func toInode(fi fs.FileInfo, nlink int) any {
 	// Can we use a compact inode?
 	compact := fi.Size() <= math.MaxUint32 &&
 		uid <= math.MaxUint16 && gid <= math.MaxUint16 &&
+		nlink <= math.MaxUint16 &&
 		fi.ModTime() == time.Time{}
 
 	if compact {
-- 
2.43.0


From 58ff0956c057c0f2c3193494cef0346e5dc9f125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:40 +0000
Subject: [PATCH 38/53] fix: erofs: clear the rest of the superblock's block

It is covered by the checksum, and need not be zero when an existing file
is overwritten.
---
 erofs/writer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/erofs/writer.go b/erofs/writer.go
index de2f880..ddcad26 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -87,6 +87,12 @@ func (w *writer) write() error {
 		return fmt.Errorf("failed to write superblock: %w", err)
 	}
 
+	// The checksum covers the remainder of the block.
+	off := SuperBlockOffset + int64(binary.Size(&sb))
+	if _, err := w.dst.WriteAt(make([]byte, BlockSize-off), off); err != nil {
+		return fmt.Errorf("failed to write superblock padding: %w", err)
+	}
+
 	if f, ok := w.dst.(*os.File); ok {
 		if err := f.Truncate(int64(sb.Blocks) * BlockSize); err != nil {
 			return fmt.Errorf("failed to truncate destination file: %w", err)
-- 
2.43.0


From 8c213c921bec31b6966edeb02c593194e869e4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:32 +0000
Subject: [PATCH 39/53] fix: memfs: do not leave a directory locked when
 MkdirAll fails

---
 memfs/memfs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 6f09735..b597277 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -102,6 +102,7 @@ func (rootFS *FS) MkdirAll(path string, perm os.FileMode) error {
 		} else {
 			childDir, ok := child.(*dir)
 			if !ok {
+				cur.mu.Unlock()
 				return fmt.Errorf("not a directory: %s: %w", part, fs.ErrInvalid)
 			}
 			next = childDir
-- 
2.43.0


From e32c526e7011bb82ae2ba3a4dd5a131bcca36a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:33 +0000
Subject: [PATCH 40/53] fix: memfs: replace files in one step

Concurrent readers could see a file before its content was set, the content
aliased the caller's slice, and a rewrite changed the permissions.
---
 memfs/memfs.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index b597277..609223f 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -190,7 +190,7 @@ func (rootFS *FS) get(path string) (childI, error) {
 	return chld, nil
 }
 
-func (rootFS *FS) create(path string) (*File, error) {
+func (rootFS *FS) create(path string, data []byte, perm os.FileMode) (*File, error) {
 	if !fs.ValidPath(path) {
 		return nil, fmt.Errorf("invalid path: %s: %w", path, fs.ErrInvalid)
 	}
@@ -212,16 +212,17 @@ func (rootFS *FS) create(path string) (*File, error) {
 	defer dir.mu.Unlock()
 	existing := dir.children[filePart]
 	if existing != nil {
-		_, ok := existing.(*File)
+		f, ok := existing.(*File)
 		if !ok {
 			return nil, fmt.Errorf("path is a directory: %s: %w", path, fs.ErrExist)
 		}
+		perm = f.perm
 	}
 
 	newFile := &File{
 		name:    filePart,
-		perm:    0666,
-		content: &bytes.Buffer{},
+		perm:    perm,
+		content: bytes.NewBuffer(bytes.Clone(data)),
 	}
 	dir.children[filePart] = newFile
 
@@ -241,13 +242,8 @@ func (rootFS *FS) WriteFile(path string, data []byte, perm os.FileMode) error {
 		path = ""
 	}
 
-	f, err := rootFS.create(path)
-	if err != nil {
-		return err
-	}
-	f.content = bytes.NewBuffer(data)
-	f.perm = perm
-	return nil
+	_, err := rootFS.create(path, data, perm)
+	return err
 }
 
 // Open opens the named file.
-- 
2.43.0


From b2f6e77cb1de22fc952f552565cb00f3ea17608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:34 +0000
Subject: [PATCH 41/53] fix: memfs: report the size of a file independent of
 the read position

---
 memfs/memfs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 609223f..ade9913 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -222,6 +222,7 @@ func (rootFS *FS) create(path string, data []byte, perm os.FileMode) (*File, err
 	newFile := &File{
 		name:    filePart,
 		perm:    perm,
+		size:    int64(len(data)),
 		content: bytes.NewBuffer(bytes.Clone(data)),
 	}
 	dir.children[filePart] = newFile
@@ -271,6 +272,7 @@ func (rootFS *FS) Open(name string) (fs.File, error) {
 		handle := &File{
 			name:    cc.name,
 			perm:    cc.perm,
+			size:    cc.size,
 			content: bytes.NewBuffer(cc.content.Bytes()),
 		}
 		return handle, nil
@@ -370,6 +372,7 @@ func (d *fhDir) ReadDir(n int) ([]fs.DirEntry, error) {
 type File struct {
 	name    string
 	perm    os.FileMode
+	size    int64
 	content *bytes.Buffer
 	modTime time.Time
 	closed  bool
@@ -381,7 +384,7 @@ func (f *File) Stat() (fs.FileInfo, error) {
 	}
 	fi := fileInfo{
 		name:    f.name,
-		size:    int64(f.content.Len()),
+		size:    f.size,
 		modTime: f.modTime,
 		mode:    f.perm,
 	}
-- 
2.43.0


From 27e259fbf0105995f0b651916d80d2f7d4c3af8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:34 +0000
Subject: [PATCH 42/53] fix: memfs: list every entry of a directory exactly
 once

Reading a directory in steps repeated and skipped entries and never ended.
---
 memfs/memfs.go | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index ade9913..6c371c0 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -44,9 +44,11 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"io"
 	"io/fs"
 	"os"
 	syspath "path"
+	"sort"
 	"strings"
 	"sync"
 	"time"
@@ -305,7 +307,11 @@ type dir struct {
 
 type fhDir struct {
 	dir *dir
-	idx int
+
+	// names are the entries found by the first call to ReadDir,
+	// idx is the position of the next one to return.
+	names []string
+	idx   int
 }
 
 func (d *fhDir) Stat() (fs.FileInfo, error) {
@@ -330,19 +336,26 @@ func (d *fhDir) ReadDir(n int) ([]fs.DirEntry, error) {
 	d.dir.mu.Lock()
 	defer d.dir.mu.Unlock()
 
-	names := make([]string, 0, len(d.dir.children))
-	for name := range d.dir.children {
-		names = append(names, name)
+	if d.names == nil {
+		d.names = make([]string, 0, len(d.dir.children))
+		for name := range d.dir.children {
+			d.names = append(d.names, name)
+		}
+		sort.Strings(d.names)
 	}
 
-	if n <= 0 {
-		n = len(names)
+	names := d.names[d.idx:]
+	if n > 0 {
+		if len(names) == 0 {
+			return nil, io.EOF
+		}
+		names = names[:min(n, len(names))]
 	}
+	d.idx += len(names)
 
-	out := make([]fs.DirEntry, 0, n)
+	out := make([]fs.DirEntry, 0, len(names))
 
-	for i := d.idx; i < n && i < len(names); i++ {
-		name := names[i]
+	for _, name := range names {
 		child := d.dir.children[name]
 
 		f, isFile := child.(*File)
@@ -363,8 +376,6 @@ func (d *fhDir) ReadDir(n int) ([]fs.DirEntry, error) {
 				info: &fi,
 			})
 		}
-
-		d.idx = i
 	}
 	return out, nil
 }
-- 
2.43.0


From fdb3555836768147a0a4e42049c5e19785a8e87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 43/53] fix: memfs: the type of a directory entry has no
 permission bits

---
 memfs/memfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 6c371c0..8b211a6 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -470,7 +470,7 @@ func (de *dirEntry) IsDir() bool {
 }
 
 func (de *dirEntry) Type() fs.FileMode {
-	return de.info.Mode()
+	return de.info.Mode().Type()
 }
 
 func (de *dirEntry) Info() (fs.FileInfo, error) {
-- 
2.43.0


From cc47336a9c0b15e05ad370fe7949a5131b8dd92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:36 +0000
Subject: [PATCH 44/53] fix: memfs: Sub takes the same paths as every other
 operation

---
 memfs/memfs.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 8b211a6..9dc64b5 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -290,6 +290,15 @@ func (rootFS *FS) Open(name string) (fs.File, error) {
 
 // Sub returns an FS corresponding to the subtree rooted at path.
 func (rootFS *FS) Sub(path string) (fs.FS, error) {
+	if !fs.ValidPath(path) {
+		return nil, fmt.Errorf("invalid path: %s: %w", path, fs.ErrInvalid)
+	}
+
+	if path == "." {
+		// root dir
+		path = ""
+	}
+
 	dir, err := rootFS.getDir(path)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 1f54ceb3648894876eff7d593cdecc4654c90ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:30 +0000
Subject: [PATCH 45/53] fix: erofs: refuse link targets that cannot be read
 back

---
 erofs/writer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/erofs/writer.go b/erofs/writer.go
index ddcad26..e5c80ce 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -420,6 +420,11 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 			return nil, 0, fmt.Errorf("failed to read symlink target: %w", err)
 		}
 
+		// Longer targets are cut off when they are read back.
+		if len(target) > BlockSize-1 {
+			return nil, 0, fmt.Errorf("target of symlink %q is too long", path)
+		}
+
 		return io.NopCloser(bytes.NewReader([]byte(target))), int64(len(target)), nil
 
 	// TODO: device files, named pipes, sockets, etc.
-- 
2.43.0


From 33b4a8b430ebe9929af5e1c0cdbe97dbdcded9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:31 +0000
Subject: [PATCH 46/53] fix: erofs: refuse images that exceed 32-bit block
 addresses

---
 erofs/writer.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index e5c80ce..b948e51 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -59,6 +59,12 @@ func (w *writer) write() error {
 		return fmt.Errorf("failed to calculate metadata and data size: %w", err)
 	}
 
+	// Block addresses have 32 bits.
+	blocks := 1 + (metaSize+dataSize)/BlockSize
+	if blocks > math.MaxUint32 {
+		return fmt.Errorf("image of %d blocks is too large", blocks)
+	}
+
 	// Reserve the first block for the superblock.
 	metaBlockAddr := int64(1)
 
@@ -74,7 +80,7 @@ func (w *writer) write() error {
 		Magic:         SuperBlockMagicV1,
 		BlockSizeBits: BlockSizeBits,
 		Inodes:        uint64(len(w.inodes)),
-		Blocks:        uint32(1 + (metaSize+dataSize)/BlockSize),
+		Blocks:        uint32(blocks),
 		MetaBlockAddr: uint32(metaBlockAddr),
 		// TODO: other fields (volume name, etc.)
 	}
@@ -576,8 +582,12 @@ func offsetToNID(metaOffset int64) (uint32, error) {
 		return 0, fmt.Errorf("offset %d is not properly aligned", metaOffset)
 	}
 
-	nid := uint32(metaOffset >> InodeSlotBits)
-	return nid, nil
+	nid := metaOffset >> InodeSlotBits
+	if nid > math.MaxUint32 {
+		return 0, fmt.Errorf("offset %d is too large for an inode number", metaOffset)
+	}
+
+	return uint32(nid), nil
 }
 
 func isInlined(ino any) bool {
-- 
2.43.0


From e43a8fa75e311feaa286c126ae280967d5b648ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:37 +0000
Subject: [PATCH 47/53] fix: arfs: pad names with multi-byte characters to 16
 bytes

---
 arfs/create.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/arfs/create.go b/arfs/create.go
index 197a81d..5c8dab7 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -16,6 +16,7 @@ import (
 	"io"
 	"io/fs"
 	"strconv"
+	"strings"
 )
 
 // Create creates an ar(1) archive from the given filesystem.
@@ -90,10 +91,11 @@ func writeArHeader(w io.Writer, hdr *tar.Header) error {
 		return fmt.Errorf("file metadata does not fit in an ar header: %s", name)
 	}
 
-	// Construct the ar(1) header
+	// Construct the ar(1) header. The width of the name is counted in bytes
+	// (and not in characters, as the fmt package does).
 	arHeader := fmt.Sprintf(
-		"%-16s%-12s%-6s%-6s%-8s%-10s`\n",
-		name,
+		"%s%-12s%-6s%-6s%-8s%-10s`\n",
+		name+strings.Repeat(" ", 16-len(name)),
 		modTime,
 		uid,
 		gid,
-- 
2.43.0


From ff2aef89cf544a6e716a825f1bba7af619ef4559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:46 +0000
Subject: [PATCH 48/53] fix: erofs: report an error when an image ends before
 the data of a file

---
 erofs/reader.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index ec17b6a..322e624 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -641,19 +641,35 @@ func (ino *Inode) GID() uint32 {
 	return ino.gid
 }
 
+// dataReader reads file data, all of which must be in the image.
+type dataReader struct {
+	*io.SectionReader
+}
+
+func (r *dataReader) Read(p []byte) (int, error) {
+	n, err := r.SectionReader.Read(p)
+	if errors.Is(err, io.EOF) {
+		// The image might end before the data does.
+		if pos, _ := r.Seek(0, io.SeekCurrent); pos < r.Size() {
+			err = io.ErrUnexpectedEOF
+		}
+	}
+	return n, err
+}
+
 // Data returns the read-only file data of this inode.
 func (ino *Inode) Data() (io.Reader, error) {
 	switch dataLayout := ino.DataLayout(); dataLayout {
 	case InodeDataLayoutFlatPlain:
-		return io.NewSectionReader(ino.image.src, int64(ino.dataOff), int64(ino.size)), nil
+		return &dataReader{io.NewSectionReader(ino.image.src, int64(ino.dataOff), int64(ino.size))}, nil
 
 	case InodeDataLayoutFlatInline:
 		readers := make([]io.Reader, 0, 2)
 		idataSize := ino.size & (uint64(ino.image.BlockSize()) - 1)
 		if ino.size > idataSize {
-			readers = append(readers, io.NewSectionReader(ino.image.src, int64(ino.dataOff), int64(ino.size-idataSize)))
+			readers = append(readers, &dataReader{io.NewSectionReader(ino.image.src, int64(ino.dataOff), int64(ino.size-idataSize))})
 		}
-		readers = append(readers, io.NewSectionReader(ino.image.src, int64(ino.idataOff), int64(idataSize)))
+		readers = append(readers, &dataReader{io.NewSectionReader(ino.image.src, int64(ino.idataOff), int64(idataSize))})
 		return io.MultiReader(readers...), nil
 
 	default:
-- 
2.43.0


From ef74a735b3ba9f1aca3ce506c82bbf96f9b49401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:04 +0000
Subject: [PATCH 49/53] fix: arfs: do not strip spaces from names being looked
 up

---
 arfs/arfs.go   | 4 ++--
 arfs/create.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 41f184a..79d17cb 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -189,7 +189,7 @@ func parseArEntry(line []byte) (*Entry, error) {
 	fileMode := (&tar.Header{Mode: int64(mode)}).FileInfo().Mode()
 
 	e := Entry{
-		Filename: sanitizePath(string(line[0:16])),
+		Filename: sanitizePath(strings.TrimSpace(string(line[0:16]))),
 		FileMode: fileMode,
 	}
 
@@ -232,7 +232,7 @@ func checkAr(ra io.ReaderAt) (int64, error) {
 }
 
 func sanitizePath(name string) string {
-	name = filepath.ToSlash(filepath.Clean(filepath.ToSlash(strings.TrimSpace(name))))
+	name = filepath.ToSlash(filepath.Clean(filepath.ToSlash(name)))
 	if name == "." {
 		return ""
 	}
diff --git a/arfs/create.go b/arfs/create.go
index 5c8dab7..ac8e591 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -76,7 +76,7 @@ func Create(dst io.Writer, src fs.FS) error {
 }
 
 func writeArHeader(w io.Writer, hdr *tar.Header) error {
-	name := sanitizePath(hdr.Name)
+	name := sanitizePath(strings.TrimSpace(hdr.Name))
 	if name != hdr.Name || name == "" || name == ".." {
 		return fmt.Errorf("file name cannot be represented: %q", hdr.Name)
 	}
-- 
2.43.0


From 6281fa836025e4730922005a14f5e0cfe1a87d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 50/53] fix: keep the owners of ar and erofs sources in tar
 archives

---
 tarfs/create.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tarfs/create.go b/tarfs/create.go
index 849efd0..67faf62 100644
--- a/tarfs/create.go
+++ b/tarfs/create.go
@@ -16,6 +16,8 @@ import (
 	"io/fs"
 
 	"github.com/dpeckett/archivefs"
+	"github.com/dpeckett/archivefs/arfs"
+	"github.com/dpeckett/archivefs/erofs"
 )
 
 // Create creates a tar archive from the given filesystem.
@@ -58,6 +60,14 @@ func Create(dst io.Writer, src fs.FS) error {
 		}
 		hdr.Name = path
 
+		// The tar package does not know about the owners in other archives.
+		switch sys := fi.Sys().(type) {
+		case *arfs.Entry:
+			hdr.Uid, hdr.Gid = int(sys.Uid), int(sys.Gid)
+		case *erofs.Inode:
+			hdr.Uid, hdr.Gid = int(sys.UID()), int(sys.GID())
+		}
+
 		if err := tw.WriteHeader(hdr); err != nil {
 			return err
 		}
-- 
2.43.0


From 780a509d899a15cb6019226ceaf90d126aa9db81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 51/53] fix: keep the owners of erofs sources in ar archives

---
 arfs/create.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/arfs/create.go b/arfs/create.go
index ac8e591..c1f0de9 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -54,9 +54,16 @@ func Create(dst io.Writer, src fs.FS) error {
 			return err
 		}
 
-		// The tar package does not know about the owner of ar(1) entries.
-		if e, ok := fi.Sys().(*Entry); ok {
-			hdr.Uid, hdr.Gid = int(e.Uid), int(e.Gid)
+		// The tar package does not know about the owners of ar(1) entries, nor
+		// of the inodes of filesystem images.
+		switch sys := fi.Sys().(type) {
+		case *Entry:
+			hdr.Uid, hdr.Gid = int(sys.Uid), int(sys.Gid)
+		case interface {
+			UID() uint32
+			GID() uint32
+		}:
+			hdr.Uid, hdr.Gid = int(sys.UID()), int(sys.GID())
 		}
 
 		// Write ar(1) header for the file
-- 
2.43.0


From d5730ca7c0a8539cd0ffbb07647ab34f72e0419c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 52/53] fix: keep the owners of ar sources in erofs images

---
 erofs/owner_unix.go    | 8 ++++++++
 erofs/owner_windows.go | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/erofs/owner_unix.go b/erofs/owner_unix.go
index d9b3d66..1b5319b 100644
--- a/erofs/owner_unix.go
+++ b/erofs/owner_unix.go
@@ -16,6 +16,8 @@ import (
 	"archive/tar"
 	"io/fs"
 	"syscall"
+
+	"github.com/dpeckett/archivefs/arfs"
 )
 
 func getOwner(fi fs.FileInfo) (uid, gid int) {
@@ -32,6 +34,12 @@ func getOwner(fi fs.FileInfo) (uid, gid int) {
 		uid = hdr.Uid
 		gid = hdr.Gid
 
+	case *arfs.Entry:
+		entry := fi.Sys().(*arfs.Entry)
+
+		uid = int(entry.Uid)
+		gid = int(entry.Gid)
+
 	case *Inode:
 		ino := fi.Sys().(*Inode)
 
diff --git a/erofs/owner_windows.go b/erofs/owner_windows.go
index 3d1fd19..1ddc1cb 100644
--- a/erofs/owner_windows.go
+++ b/erofs/owner_windows.go
@@ -15,6 +15,8 @@ package erofs
 import (
 	"archive/tar"
 	"io/fs"
+
+	"github.com/dpeckett/archivefs/arfs"
 )
 
 func getOwner(fi fs.FileInfo) (uid, gid int) {
@@ -25,6 +27,12 @@ func getOwner(fi fs.FileInfo) (uid, gid int) {
 		uid = hdr.Uid
 		gid = hdr.Gid
 
+	case *arfs.Entry:
+		entry := fi.Sys().(*arfs.Entry)
+
+		uid = int(entry.Uid)
+		gid = int(entry.Gid)
+
 	case *Inode:
 		ino := fi.Sys().(*Inode)
 
-- 
2.43.0


From 95e4edc1aa04103bd97b989a7a45dc221f852fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:08 +0000
Subject: [PATCH 53/53] fix: erofs: refuse owners that do not fit into 32 bits

---
 erofs/writer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/erofs/writer.go b/erofs/writer.go
index b948e51..10b790b 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -305,6 +305,13 @@ func (w *writer) populateInodes() error {
 			return err
 		}
 
+		uid, gid := getOwner(fi)
+		for _, id := range []int64{int64(uid), int64(gid)} {
+			if id < 0 || id > math.MaxUint32 {
+				return fmt.Errorf("owner of %q out of range: %d", path, id)
+			}
+		}
+
 		nlink := 1
 		if fi.IsDir() {
 			entries, err := fs.ReadDir(w.src, path)
-- 
2.43.0

