#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as Python so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe or [], hook_needed=None)))

p("C01", "Reading an ar archive yields exactly its members",
  "Opening a well-formed ar archive gives a flat filesystem whose listing is exactly the set of member names in sorted order; for each member, Stat reports the size, mode, owner, group and timestamp recorded in its header, and Open yields exactly its bytes, whatever the sizes (odd sizes are padded to even offsets) and number of members. Blank time, owner, group and size fields read as zero (a blank mode is an error), and the last of several members with one name wins. A member's name is what its name field cleans up to: blanks around it, a leading / or ./ and a trailing slash (as GNU ar writes) do not count.",
  ["inputs"], "every well-formed archive: any member sizes up to the ten-digit field, any header field values, any member order and any member content",
  "The tests read one two-member archive with two 13-byte files; nothing there depends on even/odd offset arithmetic, big sizes, blank fields or duplicate names.",
  ["arfs/arfs.go"], [("Open header walk and offset arithmetic","arfs/arfs.go:Open"),("header field parsing","arfs/arfs.go:parseArEntry"),("listing","arfs/arfs.go:ReadDir")],
  observe=["arfs.Open","FS.Open","FS.Stat","FS.ReadDir"])
p("C02", "ar Create then Open gives back the same files",
  "For every flat filesystem of regular files that ar can represent, Create followed by Open gives back exactly the same names, contents, sizes, modes (including setuid, setgid and sticky), modification times (in seconds) and, when the source reports them (as a tar header, a system stat or an ar entry), owner and group ids. The emitted bytes are the magic followed by one 60-byte header and the content padded to an even length per file.",
  ["inputs"], "every set of files with representable names (1-16 bytes), contents of any length, and representable metadata",
  "The only round trip in the tests copies one fixed archive with two files and compares a hash of names and contents; no metadata, no odd sizes, no other names.",
  ["arfs/create.go","arfs/arfs.go"], [("header emission","arfs/create.go:writeArHeader"),("data emission and padding","arfs/create.go:writeArData")],
  observe=["arfs.Create","arfs.Open"])
p("C03", "ar Create refuses what it cannot represent",
  "When a source entry cannot be represented (a directory, a symbolic link, a name longer than 16 bytes, or a numeric field too wide for its column), Create returns an error; it never returns success for an archive that does not read back as the source.",
  ["inputs"], "every source filesystem entry: any type, name length, owner, group, time and size",
  "No test feeds an unrepresentable entry to Create.",
  ["arfs/create.go"], [("type checks","arfs/create.go:Create"),("name and field width checks","arfs/create.go:writeArHeader")], observe=["arfs.Create"])
p("C04", "Malformed ar input is rejected without panic or hang",
  "For any byte sequence, opening it as an ar archive terminates without panicking; a wrong magic, a header whose two-byte terminator is wrong, an unparsable numeric field, a negative size, and a name that is empty, dot-dot or still contains a slash after cleaning are rejected with an error, and no path given to the filesystem afterwards panics.",
  ["inputs"], "every byte sequence presented as an archive and every path string",
  "No test opens a malformed archive.",
  ["arfs/arfs.go"], [("magic check","arfs/arfs.go:checkAr"),("header validation","arfs/arfs.go:parseArEntry"),("progress of the header walk","arfs/arfs.go:Open")], observe=["arfs.Open"])
p("C05", "A tar filesystem shows exactly the archive's tree",
  "Opening a tar archive gives a tree in which every member is reachable at its cleaned archive path with the type, mode, owner, size, time and content from its header, regardless of the order of members; names beginning with a dot keep it. Directories that are only implied by deeper members appear as 0755 directories, explicit directory members keep their own metadata whether they come before or after their contents, the last of several members with one path wins, and nothing else appears. Headers have permission, setuid, setgid and sticky bits only, no path is used both as a directory and as something else, and a member for the root itself is ignored.",
  ["inputs"], "every sequence of regular, directory and symlink members with any names, in any order",
  "The tests open fixed archives; only one contains nested directories, and none checks directory metadata, implied directories, duplicates or leading-dot names.",
  ["tarfs/tarfs.go"], [("tree construction","tarfs/tarfs.go:Open"),("name cleaning","tarfs/tarfs.go:sanitizePath"),("data offset tracking","tarfs/tarfs.go:readerWithOffset")],
  observe=["tarfs.Open","FS.Stat","FS.Open","FS.ReadDir"])
p("C06", "Symbolic links in a tar filesystem resolve as in a rooted tree",
  "Open, Stat and ReadDir follow symbolic links in every path component exactly as a POSIX lookup confined to the archive root would: relative targets (including those with dot-dot components and through other links) are taken from the directory that holds the link, absolute targets from the archive root, and dot-dot never leaves the root. Link targets are not empty. Link cycles give an error instead of unbounded recursion, and StatLink and ReadLink act on the link itself, ReadLink failing for non-links.",
  ["inputs"], "every arrangement of directories, files and links, including chains, loops and dangling links, and every lookup path",
  "The tests resolve a two-link chain in one image without dot-dot, nested absolute links or cycles.",
  ["tarfs/tarfs.go"], [("component walk with link following","tarfs/tarfs.go:resolve"),("link accessors","tarfs/tarfs.go:ReadLink, StatLink")],
  observe=["FS.Open","FS.Stat","FS.ReadDir","FS.ReadLink","FS.StatLink"])
p("C07", "Hard links in a tar filesystem are aliases of their target",
  "A hard-link member shows the type, mode, owner, size, time and content of the member it ultimately names, under its own name, including when it links to another hard link, and wherever in the archive the two members stand; every open of the same archive gives the same result. A link to a missing member or a cycle of links makes opening the archive fail.",
  ["inputs","schedules"], "every arrangement of hard links and every iteration order the runtime may pick",
  "Hard-link resolution iterates a map in random order; the tests contain only single direct links and one run samples one order.",
  ["tarfs/tarfs.go"], [("hard link resolution loop","tarfs/tarfs.go:Open")], observe=["tarfs.Open","FS.Stat","FS.Open"])
p("C08", "tar Create then Open gives back the same tree",
  "For every source tree of regular files, directories and symbolic links with valid UTF-8 names and targets, tarfs.Create followed by tarfs.Open gives back the same paths with the same types, modes (including setuid, setgid and sticky), modification times to the nearest second, owners (when the source reports them as a tar header or a system stat), link targets and contents, and nothing more.",
  ["inputs"], "every source tree: any names, nesting, metadata and contents",
  "One fixed image is copied and a hash over regular file names and contents compared; directories, links, modes and times are not.",
  ["tarfs/create.go","tarfs/tarfs.go"], [("walk and header writing","tarfs/create.go:Create")], observe=["tarfs.Create","tarfs.Open"])
p("C09", "No archive member or path makes the tar filesystem panic or hang",
  "For every sequence of members, whatever their names, types and link targets, and for every path string, opening the archive and calling Open, Stat, ReadDir, StatLink or ReadLink returns a result or an error and never panics or recurses without bound; a directory (explicit, implied or the root) can be opened, and unsupported member types and truncated archives are rejected with an error.",
  ["inputs"], "every member sequence and every path string",
  "Tests only use valid paths of existing files in well-formed archives.",
  ["tarfs/tarfs.go"], [("type filter","tarfs/tarfs.go:Open"),("open of entries without data","tarfs/tarfs.go:FS.Open")], observe=["tarfs.Open","FS.*"])
p("C10", "erofs Create then Open gives back the same tree and contents",
  "For every source tree of regular files, directories and symbolic links with names that fs.ValidPath allows, the image written by erofs.Create opens and lists exactly the same paths and types, every file (empty, inline-sized or large) reads back byte for byte with the same size, and every link reads back with the same target. A source with an entry type or name the format cannot hold is refused with an error.",
  ["inputs"], "every source tree; every file length, in particular 0, around the inline limit and around block multiples",
  "One fixed image is re-created and only the list of its regular files is compared: contents of the copy are never read.",
  ["erofs/writer.go","erofs/reader.go","erofs/erofs.go"], [("layout and emission","erofs/writer.go:write"),("inode and data access","erofs/reader.go:Inode, Data")], observe=["erofs.Create","erofs.Open"])
p("C11", "erofs preserves mode, ownership and time metadata",
  "Permission bits, setuid, setgid and sticky bits, file type, user and group ids (full 32 bits, when the source reports them as a tar header, a system stat or another erofs image) and modification time (to the nanosecond) that a source filesystem reports are exactly what the image written by Create reports afterwards, whether the inode is stored in compact or extended form; a source with no modification time (the zero time) reads back as that or as the Unix epoch. An owner that does not fit into 32 bits is refused with an error.",
  ["inputs"], "every mode, uid, gid, mtime and size",
  "No test compares metadata after Create.",
  ["erofs/writer.go","erofs/constants.go","erofs/reader.go","erofs/erofs.go","erofs/owner_unix.go"], [("inode form choice","erofs/writer.go:toInode"),("mode encoding","erofs/constants.go:statModeFromFileMode"),("mode decoding","erofs/reader.go:Inode.Mode"),("time decoding","erofs/erofs.go:fileInfo.ModTime")], observe=["erofs.Create","FileInfo","Inode accessors"])
p("C12", "erofs images are laid out without overlap and within bounds",
  "In every image written by Create, the superblock, inodes, inline data and data extents occupy disjoint ranges, inodes are 32-byte aligned, inline data stays inside its inode's block, data extents are block aligned, inode numbers and block addresses locate them, and the block count in the superblock covers every byte written.",
  ["inputs"], "every sequence of file sizes, from empty to many gigabytes",
  "Layout is two-pass arithmetic over all sizes seen so far; the tests exercise one fixed sequence and never look at the layout.",
  ["erofs/writer.go"], [("first pass layout","erofs/writer.go:firstPass"),("metadata and data emission","erofs/writer.go:writeMetadata, writeData")], observe=["bytes written to the destination"])
p("C13", "erofs directory lookup and listing agree and are complete",
  "In every image, looking up a name finds an entry exactly when listing the directory shows it, with the same inode and type, for any number of entries, name lengths and directory blocks; listing yields names in strictly ascending byte order. Directories written by Create list exactly the source's entries plus dot and dot-dot, which point to the directory itself and to its parent.",
  ["inputs"], "every set of names (any bytes, 1-255 long) distributed over any number of directory blocks, and every looked-up name",
  "Binary search over on-disk blocks is only exercised with a few existing names of one image; names sorting before dot, long names, block boundaries and absent names are never looked up.",
  ["erofs/reader.go","erofs/writer.go"], [("two-level binary search","erofs/reader.go:Inode.Lookup"),("iteration","erofs/reader.go:IterDirents, getDirentName"),("directory encoding","erofs/writer.go:encodeDirents, splitIntoDirentBlocks")], observe=["Inode.Lookup","Inode.IterDirents","Filesystem.ReadDir","Filesystem.Stat"])
p("C14", "The erofs reader decodes images per the on-disk format",
  "For every valid superblock geometry, inode number, inode form and data layout, the reader takes the inode from the byte offset the EROFS format assigns to it, reports every field as stored (little-endian; compact inodes take the build time), and reads file data and link targets from exactly the byte ranges the format assigns: plain data from its block address, inline tails from right behind the inode.",
  ["inputs"], "every block size, metadata block address, inode number, size, raw block address and field value",
  "One image with 4096-byte blocks is read; large addresses, other block sizes, multi-block inline files and most fields never occur.",
  ["erofs/reader.go"], [("offset arithmetic","erofs/reader.go:NidToOffset, BlockAddrToOffset"),("inode decoding","erofs/reader.go:Image.Inode"),("data ranges","erofs/reader.go:Data, Readlink")], observe=["OpenImage","Image.Inode","Inode accessors","Inode.Data","Inode.Readlink"])
p("C15", "The erofs superblock is validated before use",
  "An image is accepted only if its magic is right, it uses no incompatible feature the reader does not support, its block size is usable and, when it claims a superblock checksum, the checksum over the first block matches: corrupting up to 32 adjacent bits anywhere in the covered bytes (other than the block size and the flag that claims the checksum, which decide what is covered) makes opening fail. A superblock written by Create carries the right magic, geometry, inode count and a correct checksum.",
  ["inputs"], "every superblock content and every corruption of a covered byte",
  "Tests open one valid image without a checksum feature; no bad magic, checksum or feature bit is ever presented.",
  ["erofs/reader.go","erofs/writer.go"], [("superblock checks","erofs/reader.go:initSuperBlock"),("checksum","erofs/reader.go:verifyChecksum, checksum")], observe=["erofs.Open","OpenImage"])
p("C16", "Malformed erofs images give errors, never panics or hangs",
  "For any byte sequence presented as an image, opening it and calling any operation on it with any path terminates and returns a result or an error: corrupted superblocks, inodes, directory blocks and link targets never cause a panic, unbounded recursion or an allocation that is not bounded by the image's own block size. (Walking an image whose directories form a cycle with fs.WalkDir is not an operation of this package.)",
  ["inputs"], "every superblock, inode and directory block content",
  "No test opens a corrupted image.",
  ["erofs/reader.go","erofs/erofs.go"], [("inode validation","erofs/reader.go:Image.Inode"),("dirent validation","erofs/reader.go:getDirent0, getDirentName"),("inode error handling","erofs/erofs.go:getInode")], observe=["erofs.Open","Filesystem.*","Inode.*"])
p("C17", "Symbolic links in an erofs image resolve as in a rooted tree",
  "Open, Stat and ReadDir follow symbolic links in every path component exactly as a POSIX lookup confined to the image root would: relative targets (including dot-dot components and targets reached through other links) are taken from the directory that holds the link, absolute targets from the root, and dot-dot never leaves the root. Link targets are not empty. Link cycles give an error instead of unbounded recursion, and StatLink and ReadLink follow links in all components but the last, ReadLink failing for non-links.",
  ["inputs"], "every arrangement of directories, files and links, including chains, loops and dangling links, and every lookup path",
  "The tests follow one two-link chain without dot-dot, nested absolute links or cycles.",
  ["erofs/erofs.go","erofs/reader.go"], [("component walk with link following","erofs/erofs.go:resolve"),("target reading","erofs/reader.go:Readlink")], observe=["Filesystem.Open","Filesystem.Stat","Filesystem.ReadDir","Filesystem.ReadLink","Filesystem.StatLink"])
p("C18", "The in-memory filesystem behaves as a map from paths to entries",
  "After any sequence of MkdirAll and WriteFile calls, the tree seen through Open, ReadFile, Stat, ReadDir, WalkDir and Sub is exactly the one the successful calls describe: directories created with all parents and the given permissions (without type bits), files holding the last written bytes with the permissions they were first created with, sizes equal to content length. Failed calls (invalid path, missing parent, file where a directory is needed or the reverse) return an error wrapping the matching fs error and change nothing.",
  ["histories","inputs"], "every sequence of operations with any paths, contents and permissions",
  "One short fixed sequence of calls is tested.",
  ["memfs/memfs.go"], [("directory walk","memfs/memfs.go:getDir, get"),("creation","memfs/memfs.go:create, WriteFile, MkdirAll")], observe=["memfs.FS"])
p("C19", "In-memory files are isolated from callers and from each other",
  "The content of an in-memory file changes only through WriteFile: later changes to the slice that was passed in, or to slices obtained by reading, do not alter it, and a handle opened before a rewrite keeps reading the old bytes to the end. Independent handles have independent positions, a handle's Stat reports the file's full size wherever it stands, reads return the content in order followed by EOF, and using a file handle after Close gives fs.ErrClosed.",
  ["histories"], "every interleaving of writes, opens, partial reads, stats and closes on any handles",
  "Tests write once and read whole files.",
  ["memfs/memfs.go"], [("content ownership","memfs/memfs.go:WriteFile"),("handles","memfs/memfs.go:Open, File")], observe=["memfs.FS.WriteFile","memfs.File"])
p("C20", "Reading an in-memory directory handle lists each entry once",
  "Successive ReadDir(n) calls on an open in-memory directory return every entry exactly once whatever the chunk sizes; a positive n returns at most n entries and io.EOF with none left, a non-positive n returns all remaining entries with no error. Each entry reports the right name, directory flag, type bits and Info.",
  ["histories","schedules"], "every directory content, every sequence of chunk sizes and every map iteration order",
  "Only fs.WalkDir uses directory handles in the tests, always with n = -1 once.",
  ["memfs/memfs.go"], [("directory handle","memfs/memfs.go:fhDir.ReadDir"),("entries","memfs/memfs.go:dirEntry")], observe=["fs.ReadDirFile"])
p("C21", "The in-memory filesystem is safe under concurrent use",
  "Concurrent MkdirAll, WriteFile, Open, Stat, ReadDir and ReadFile calls never race on memory, never deadlock and never leave a lock held (also when they fail), and take effect atomically: a reader sees a file either absent or with the complete content and permissions of one write, and every call's result matches some sequential order (MkdirAll counting as one step for each directory it makes).",
  ["schedules","histories"], "every interleaving of concurrent operations and every error path",
  "No test uses more than one goroutine, nor continues after a failed call on the same directory.",
  ["memfs/memfs.go"], [("per-directory mutex","memfs/memfs.go:dir.mu")], observe=["memfs.FS"])
p("C22", "Failed destination writes are never reported as success",
  "If any write to the destination fails or is cut short, at whatever point while an ar, tar or erofs archive is created, Create returns an error; when Create returns nil every byte of the complete archive has been accepted by the destination.",
  ["fault_sequences"], "every position at which a destination write may fail",
  "All tests write to healthy temporary files.",
  ["arfs/create.go","tarfs/create.go","erofs/writer.go"], [("error propagation","arfs/create.go:Create, writeArHeader, writeArData"),("trailer flush","tarfs/create.go:Create"),("error propagation","erofs/writer.go:write*")], observe=["arfs.Create","tarfs.Create","erofs.Create"])
p("C23", "A failing or lying source never yields a silently wrong archive",
  "If listing, stat, open, link or content reads of the source filesystem fail at any point, or a file yields more or fewer bytes than the size it reported, Create of ar, tar and erofs returns an error rather than an archive that disagrees with what was read; every file opened from the source is closed again.",
  ["fault_sequences"], "every source operation at which a fault may occur, every shortfall or excess",
  "All tests use healthy sources.",
  ["arfs/create.go","tarfs/create.go","erofs/writer.go"], [("content copy","arfs/create.go:writeArData; tarfs/create.go:Create; erofs/writer.go:writeMetadata, writeData")], observe=["arfs.Create","tarfs.Create","erofs.Create"])
p("C24", "Archive read errors surface as errors",
  "Opening and reading ar, tar and erofs archives through any conforming io.ReaderAt gives the same result whether or not the reader reports io.EOF together with the last full read; an I/O error of the underlying reader at any point is returned as an error (never as end of archive, missing file, success or panic), and a member whose data lies beyond the end of the archive is never returned as complete.",
  ["fault_sequences"], "every read at which the underlying reader may fail, every truncation point and every EOF convention",
  "All tests read healthy files from disk.",
  ["arfs/arfs.go","tarfs/tarfs.go","erofs/reader.go","erofs/erofs.go"], [("header reads","arfs/arfs.go:Open, checkAr"),("offset-tracking reader","tarfs/tarfs.go:readerWithOffset.Read"),("image reads","erofs/reader.go:bytesAt, unmarshalFrom"),("cached inode","erofs/erofs.go:getInode")], observe=["Open and all operations of the three readers"])
p("C25", "All views of a filesystem agree",
  "In the ar, tar, erofs and in-memory filesystems, a name is reported by ReadDir of its parent exactly when it can be statted, and entry, Stat and open-handle information agree on name, type, size and mode (for a symbolic link, its entry agrees with StatLink, and Stat with the handle except for the name); WalkDir visits every entry exactly once in lexical order. A file handle yields as many bytes as the size says and from then on reports io.EOF, and a listing that was returned belongs to the caller. Names that do not exist fail with an error matching fs.ErrNotExist, and equivalent spellings of a path (leading slash or dot-slash, doubled or trailing slashes) that are accepted lead to the same entry.",
  ["inputs"], "every tree and every path",
  "Tests look at a handful of existing paths and never at absent ones except in memfs.",
  ["arfs/arfs.go","tarfs/tarfs.go","erofs/erofs.go","memfs/memfs.go"], [("lookup","*: Open, Stat, ReadDir")], observe=["fs.FS, fs.StatFS, fs.ReadDirFS methods"])
p("C26", "Opened archives can be read concurrently",
  "Any number of goroutines may call any read operation on one opened ar, tar or erofs filesystem (and on separate handles) at once: there are no data races and every call returns what it would return alone.",
  ["schedules"], "every interleaving of concurrent read operations",
  "All tests are single-threaded.",
  ["arfs/arfs.go","tarfs/tarfs.go","erofs/erofs.go"], [("one-time inode load","erofs/erofs.go:getInode"),("read-only trees","tarfs/tarfs.go:FS; arfs/arfs.go:FS")], observe=["FS methods"])
p("C27", "Archives are reproducible",
  "Creating an ar, tar or erofs archive on an empty destination from the same source always writes the same bytes, whatever the time of day, the order in which maps are iterated, the pieces in which file content is delivered and the other archives that are made at the same time; and an archive created from an opened archive of the same kind that Create wrote is byte for byte the same (for erofs, entries without a modification time read back with the epoch, so this holds from the second copy on).",
  ["inputs","schedules"], "every source tree, every map iteration order, every division of content into reads and every moment of creation",
  "The tests create each archive once and compare hashes of names and contents of the result, never its bytes.",
  ["arfs/create.go","arfs/arfs.go","tarfs/create.go","tarfs/tarfs.go","erofs/writer.go","erofs/erofs.go","memfs/memfs.go"], [("emission","arfs/create.go:Create; tarfs/create.go:Create; erofs/writer.go:write"),("listing in a fixed order","arfs/arfs.go:ReadDir; tarfs/tarfs.go:ReadDir; memfs/memfs.go:ReadDir")], observe=["arfs.Create","tarfs.Create","erofs.Create"])
p("C28", "Trees survive conversion between formats",
  "Any archive this module reads can be the source of any archive it writes: a tree of files, directories and symbolic links (of files only where an ar archive takes part) that goes through any sequence of ar, tar and erofs archives, or starts in an in-memory filesystem, keeps its paths, types, permissions (with setuid, setgid and sticky), contents, link targets, owners, and modification times to the second, as far as each of the formats can express them (a missing time becomes the epoch).",
  ["inputs","histories"], "every tree, every metadata, and every sequence of formats",
  "The tests convert two example archives in one direction and compare a hash of names and contents.",
  ["arfs/create.go","arfs/arfs.go","tarfs/create.go","tarfs/tarfs.go","erofs/writer.go","erofs/erofs.go","erofs/owner_unix.go","memfs/memfs.go"], [("owners of other formats","tarfs/create.go:Create; arfs/create.go:Create; erofs/owner_unix.go:getOwner"),("information of entries","arfs/arfs.go:Info; tarfs/tarfs.go:Info; erofs/erofs.go:Info")], observe=["arfs.Create","tarfs.Create","erofs.Create","arfs.Open","tarfs.Open","erofs.Open"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
