package p15

import (
	"github.com/DaoCloud/ckube/kube"
	rt "github.com/DaoCloud/ckube/zzverif/verifrt"
)

const alnum = rt.LowerNum + "ABCDEFGHIJKLMNOPQRSTUVWXYZ+/-_="

func reorder(vs []string) []string {
	r := append([]string{}, vs...)
	n := len(r)
	switch rt.Choice("order", 4) {
	case 1:
		for i := range r {
			r[i] = vs[n-1-i]
		}
	case 2:
		for i := range r {
			r[i] = vs[(i+n/2)%n]
		}
	case 3:
		for i := 0; i+1 < n; i += 2 {
			r[i], r[i+1] = r[i+1], r[i]
		}
	}
	return r
}

// CheckShort: any text up to a length.
func CheckShort() {
	check(rt.StrUpTo("text", rt.Bound("length", 400, 900), alnum))
}

// CheckLong: texts that need five digit positions.
func CheckLong() {
	b := make([]byte, 0, 11000)
	n := []int{9999, 10024, 10080, 10081, 10136, 10137, 10192}[rt.Choice("len", 7)]
	for len(b) < n {
		b = append(b, "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[len(b)/56%62])
	}
	s := string(b)
	k := rt.Int64In("at", 0, 3)
	at := []int{0, 5000, 9970, n - 30}[k]
	s = s[:at] + rt.Str("mid", 20, alnum) + s[at+20:]
	check(s)
}

func check(s string) {
	vs := kube.SplittingValue(s)
	ok := len(vs) > 0
	for _, v := range vs {
		if len(v) > 63 {
			ok = false
		}
	}
	rt.Assert("legal", ok, "a part is longer than a label value may be")
	got, err := kube.MergeValues(reorder(vs))
	rt.Assert("nomistake", err == nil, "the parts of a text can not be merged")
	rt.Assert("same", got == s, "merging the parts gives another text")
	if len(vs) > 2 {
		rt.Cover("parts")
	}
}
