package p01

import (
	"strconv"
	"strings"

	"github.com/DaoCloud/ckube/page"
	h "github.com/DaoCloud/ckube/zzverif/hlib"
	rt "github.com/DaoCloud/ckube/zzverif/verifrt"
)

// refParts is the documented grammar read left to right: ";;" is a literal
// ';', a single ';' separates, empty parts vanish.
func refParts(s string) []string {
	var out []string
	cur := []byte{}
	flush := func() {
		if len(cur) > 0 {
			out = append(out, string(cur))
		}
		cur = []byte{}
	}
	for i := 0; i < len(s); i++ {
		if s[i] == ';' {
			if i+1 < len(s) && s[i+1] == ';' {
				cur = append(cur, ';')
				i++
				continue
			}
			flush()
			continue
		}
		cur = append(cur, s[i])
	}
	flush()
	return out
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// CheckSplit: every search text splits as the grammar says.
func CheckSplit() {
	s := rt.StrUpTo("search", rt.Bound("search_len", 7, 9), rt.ASCII)
	p := page.Paginate{Search: s}
	got := p.SearchParts()
	want := refParts(s)
	rt.Observe("parts", got)
	rt.Assert("split", same(got, want), "search text is not split as documented")
	if len(want) > 1 {
		rt.Cover("several-parts")
	}
}

// CheckRoundTrip: conditions joined into one search text come back unchanged.
func CheckRoundTrip() {
	n := rt.Choice("n", 3) + 1
	var parts, want []string
	for i := 0; i < n; i++ {
		s := rt.StrUpTo("part", rt.Bound("part_len", 3, 4), rt.ASCII)
		parts = append(parts, s)
		if t := strings.TrimSpace(s); t != "" {
			want = append(want, t)
		}
	}
	p := page.Paginate{}
	p.SetSearchWithParts(parts)
	var got []string
	for _, g := range p.SearchParts() {
		if t := strings.TrimSpace(g); t != "" {
			got = append(got, t)
		}
	}
	rt.Observe("got", got)
	rt.Assert("roundtrip", same(got, want), "a list of search conditions does not survive being joined and split")
	if len(want) == 3 {
		rt.Cover("three-parts")
	}
}

// CheckLarge: long texts and many parts split and join as short ones do.
func CheckLarge() {
	n, l := 1, 8
	if rt.Bool("many") {
		n = []int{9, 10, 11, 33, 65, 129, 300}[rt.Choice("n", rt.Bound("many", 5, 7))]
	} else {
		n, l = 3, h.Size("size", 13)
	}
	at := []int{0, 1, n / 2, n - 1}[rt.Choice("part", 4)]
	var parts []string
	for i := 0; i < n; i++ {
		t := strconv.Itoa(i) + "=" + h.Filler(l)
		if i == at {
			t = "=" + h.Long("text", l, rt.Printable)
		}
		parts = append(parts, t)
	}
	p := page.Paginate{}
	p.SetSearchWithParts(parts)
	got := p.SearchParts()
	for i := range got {
		got[i] = strings.TrimSpace(got[i])
	}
	for i := range parts {
		parts[i] = strings.TrimSpace(parts[i])
	}
	rt.Assert("joined", same(got, parts), "many or long conditions do not survive being joined and split")
	s := strings.Join(parts, ";")
	q := page.Paginate{Search: s}
	rt.Assert("split", same(q.SearchParts(), refParts(s)), "a long search text is not split as documented")
}
