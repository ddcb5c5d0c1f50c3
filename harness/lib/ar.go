package lib

// ArMember is a member of an ar archive, with its header fields as text.
type ArMember struct {
	Name                        string
	Mtime, Uid, Gid, Mode, Size string
}

func pad(b []byte, s string, n int) []byte {
	b = append(b, s...)
	for i := len(s); i < n; i++ {
		b = append(b, ' ')
	}
	return b
}

// ArHeader is the 60 byte header of m.
func ArHeader(m ArMember) []byte {
	b := make([]byte, 0, 60)
	b = pad(b, m.Name, 16)
	b = pad(b, m.Mtime, 12)
	b = pad(b, m.Uid, 6)
	b = pad(b, m.Gid, 6)
	b = pad(b, m.Mode, 8)
	b = pad(b, m.Size, 10)
	return append(b, '`', '\n')
}

// ArMagic starts every ar archive.
const ArMagic = "!<arch>\n"

// Num is the value of a string of digits in the given base.
func Num(s string, base int64) int64 {
	var v int64
	for i := 0; i < len(s); i++ {
		v = v*base + int64(s[i]-'0')
	}
	return v
}

// Dec renders a small non-negative number.
func Dec(n int) string {
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	return Dec(n/10) + string([]byte{byte('0' + n%10)})
}
