package lib

import "verif.local/harness/sym"

// TarMember is a member of a tar archive; numeric fields are octal text.
type TarMember struct {
	Name, Link, Prefix          string
	Mode, Uid, Gid, Size, Mtime string
	Type                        byte
	Data                        []byte
	Old                         bool // without the ustar magic
}

// Oct renders a number in octal.
func Oct(n int64) string {
	if n < 8 {
		return string([]byte{byte('0' + n)})
	}
	return Oct(n/8) + string([]byte{byte('0' + n%8)})
}

func put(b []byte, s string) {
	copy(b, s)
}

// TarHeader is the header block of m.
func TarHeader(m TarMember) []byte {
	b := make([]byte, 512)
	put(b[0:100], m.Name)
	put(b[100:108], m.Mode)
	put(b[108:116], m.Uid)
	put(b[116:124], m.Gid)
	size := m.Size
	if size == "" {
		size = Oct(int64(len(m.Data)))
	}
	put(b[124:136], size)
	put(b[136:148], m.Mtime)
	b[156] = m.Type
	put(b[157:257], m.Link)
	if !m.Old {
		put(b[257:], "ustar\x0000")
		put(b[345:500], m.Prefix)
	}
	TarSum(b)
	return b
}

// TarSum fills in the checksum of a header, which the engine takes to be zero.
func TarSum(b []byte) {
	put(b[148:156], "        ")
	n := int64(0)
	if !sym.Engine() {
		for _, c := range b {
			n += int64(c)
		}
	}
	s := "000000" + Oct(n)
	put(b[148:156], s[len(s)-6:]+"\x00 ")
}

// TarAppend adds a member to an archive.
func TarAppend(b []byte, m TarMember) []byte {
	b = append(b, TarHeader(m)...)
	b = append(b, m.Data...)
	if n := len(m.Data) % 512; n != 0 {
		b = append(b, make([]byte, 512-n)...)
	}
	return b
}

// TarEnd is the trailer.
func TarEnd(b []byte) []byte { return append(b, make([]byte, 1024)...) }

// TarOf is an archive of the tree below root.
func TarOf(root *Node) []byte {
	var b []byte
	var walk func(n *Node, p string)
	walk = func(n *Node, p string) {
		for _, k := range n.Kids {
			kp := join(p, k.Nm)
			m := TarMember{Name: kp, Mode: Oct(int64(k.M.Perm())), Uid: "0", Gid: "0", Mtime: "0"}
			switch {
			case k.IsDir():
				m.Type = '5'
			case k.IsLink():
				m.Type = '2'
				m.Link = k.Link
			default:
				m.Type = '0'
				m.Data = k.Data
			}
			b = TarAppend(b, m)
			walk(k, kp)
		}
	}
	walk(root, ".")
	return TarEnd(b)
}

// Holes is a file that is stored with holes: the extents of data in it.
type Holes struct {
	Off, Len []int
	Size     int
}

// Whole is the content of a sparse file whose extents hold data.
func (s Holes) Whole(data []byte) []byte {
	b := make([]byte, s.Size)
	for i, o := range s.Off {
		copy(b[o:o+s.Len[i]], data[:s.Len[i]])
		data = data[s.Len[i]:]
	}
	return b
}

// TarSparse adds a sparse file as GNU tar stores it, with the map in the header
// and in the blocks behind it.
func TarSparse(b []byte, m TarMember, s Holes) []byte {
	m.Type = 'S'
	h := TarHeader(m)
	put(h[257:], "ustar  \x00")
	at := h[386:482]
	var more []byte
	flag := &h[482]
	for i, o := range s.Off {
		if len(at) == 0 {
			*flag = 1
			more = append(more, make([]byte, 512)...)
			at = more[len(more)-512:][:21*24]
			flag = &more[len(more)-8]
		}
		put(at, Oct(int64(o)))
		put(at[12:], Oct(int64(s.Len[i])))
		at = at[24:]
	}
	put(h[483:495], Oct(int64(s.Size)))
	TarSum(h)
	b = append(append(b, h...), more...)
	b = append(b, m.Data...)
	if n := len(m.Data) % 512; n != 0 {
		b = append(b, make([]byte, 512-n)...)
	}
	return b
}

// TarPax adds a PAX header with records of the form key=value.
func TarPax(b []byte, records ...string) []byte {
	data := ""
	for _, r := range records {
		n := len(r) + 3
		for len(Dec(n))+len(r)+2 != n {
			n++
		}
		data += Dec(n) + " " + r + "\n"
	}
	return TarAppend(b, TarMember{Name: "PaxHeaders.0/x", Type: 'x', Mode: "0", Uid: "0", Gid: "0", Mtime: "0", Data: []byte(data)})
}
