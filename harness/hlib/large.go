package hlib

import (
	"strings"

	rt "github.com/DaoCloud/ckube/zzverif/verifrt"
)

// Sizes are lengths around limits that code tends to have.
var Sizes = []int{10, 16, 31, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1025, 4095, 4097}

// Size is one of the first n of Sizes (all in the thorough tier).
func Size(name string, n int) int { return Sizes[rt.Choice(name, rt.Bound(name, n, len(Sizes)))] }

// Filler is a text of n letters and digits without a short period.
func Filler(n int) string {
	var b strings.Builder
	x := uint32(7)
	for i := 0; i < n; i++ {
		x = x*1664525 + 1013904223
		b.WriteByte("abcdefghijklmnopqrstuvwxyz0123456789"[(x>>16)%36])
	}
	return b.String()
}

// Long is a text of n bytes, one of which, at the begin, in the middle or at the end, is any of alpha.
func Long(name string, n int, alpha string) string {
	f := Filler(n - 1)
	i := []int{0, (n - 1) / 2, n - 1}[rt.Choice(name+".at", 3)]
	return f[:i] + rt.Str(name, 1, alpha) + f[i:]
}
