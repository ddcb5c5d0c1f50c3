package lib

import (
	"io/fs"
	"strings"

	"verif.local/harness/sym"
)

// Blob is content of the given size, with any bytes at its ends and around the
// places where buffers and blocks of common sizes end.
func Blob(id string, size int) []byte {
	b := make([]byte, size)
	for i := range b {
		b[i] = byte(i>>8) + byte(i)
	}
	for _, at := range []int{0, 511, 512, 4095, 4096, 32767, 32768, 65535, 65536, 1<<20 - 1, 1 << 20, size - 1} {
		if at >= 0 && at < size {
			b[at] = sym.Byte(id)
		}
	}
	return b
}

// Sorted returns n different names of the given length in ascending order.
func Sorted(n, length int) []string {
	var out []string
	for i := 0; i < n; i++ {
		s := string([]byte{byte('A' + i/100), byte('0' + i/10%10), byte('0' + i%10)})
		out = append(out, s+strings.Repeat("n", length-3))
	}
	return out
}

// Wide is a directory of n files.
func Wide(name string, n, length int) *Node {
	d := Dir(name, 0o755)
	for i, s := range Sorted(n, length) {
		d.Kids = append(d.Kids, File(s, fs.FileMode(0o600+i%64), []byte{byte(i), byte(i >> 8)}[:i%3]))
	}
	return d
}
