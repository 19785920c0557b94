package p03

import (
	"strconv"
	"strings"

	"github.com/DaoCloud/ckube/page"
	h "github.com/DaoCloud/ckube/zzverif/hlib"
	rt "github.com/DaoCloud/ckube/zzverif/verifrt"
)

func eval(id string, m map[string]string, rs []h.Req, pre string) {
	var ts []string
	want := true
	for _, r := range rs {
		ts = append(ts, r.Text())
		want = want && r.Holds(m)
	}
	p := page.Paginate{Search: pre + strings.Join(ts, ",")}
	got, err := p.Match(m)
	rt.Observe("got", got)
	rt.Assert(id+"-accepted", err == nil, "a valid label selector is rejected in advanced search")
	rt.Assert(id, got == want, "advanced search does not select by label selector semantics")
	if want {
		rt.Cover(id + "-hit")
	} else {
		rt.Cover(id + "-miss")
	}
}

const as = "__ckube_as__:"

// CheckOne: one requirement with every operator against any index values.
func CheckOne() {
	m := map[string]string{}
	if rt.Bool("has-name") {
		m["name"] = rt.StrUpTo("name", 3, rt.ASCII)
	}
	m["uid"] = h.Word("uid", 1)
	sp := []string{"", " ", "  "}[rt.Choice("space", 3)]
	eval("one", m, []h.Req{h.MkReq([]string{"name", "uid"}, 3)}, as+sp)
}

// CheckSeveral: all requirements of one selector have to hold, also several
// on one key.
func CheckSeveral() {
	m := map[string]string{"name": rt.StrUpTo("name", 1, h.Ident)}
	if rt.Bool("has-uid") {
		m["uid"] = rt.Str("uid", 1, h.Ident)
	}
	a := h.MkReq([]string{"name", "uid"}, 1)
	b := h.MkReq([]string{"name", "uid"}, 1)
	eval("several", m, []h.Req{a, b}, as)
}

// CheckMixed: advanced and plain conditions in one search text.
func CheckMixed() {
	m := map[string]string{"name": rt.Str("name", 2, h.Ident), "uid": rt.Str("uid", 1, h.Ident)}
	a := h.MkReq([]string{"name", "uid"}, 2)
	lit := rt.Str("lit", 1, h.Ident)
	want := a.Holds(m) && strings.Contains(m["name"], lit)
	var s string
	if rt.Bool("advanced-first") {
		s = as + a.Text() + "; name=" + lit
	} else {
		s = "name=" + lit + "; " + as + a.Text()
	}
	got, err := (&page.Paginate{Search: s}).Match(m)
	rt.Observe("got", got)
	rt.Assert("mixed-accepted", err == nil, "a valid mixed search is rejected")
	rt.Assert("mixed", got == want, "advanced and plain conditions of one search do not combine as a conjunction")
}

// CheckMalformed: selectors outside the grammar are errors, never matches.
func CheckMalformed() {
	m := map[string]string{"name": rt.StrUpTo("name", 2, h.Ident), "uid": "u"}
	v := rt.Str("v", 1, h.Ident)
	bad := []string{"", "name in " + v, "name in (" + v, "name notin ()x", "name=" + v + " " + v, "=" + v, "name>" + v + "x", "name<5", "name>5", "name in (" + v + "))",
		"name=-" + v, "na me=" + v, "name,,uid", "name in ,(" + v + ")", "/name=" + v, "name=" + v + "-"}
	k := rt.Choice("bad", len(bad))
	got, err := (&page.Paginate{Search: as + bad[k]}).Match(m)
	rt.Observe("got", got)
	rt.Assert("malformed", err != nil && !got, "a malformed advanced search selects resources instead of failing")
}

// CheckLarge: many requirements, many values, long keys and values.
func CheckLarge() {
	n, l := 3, 5
	if rt.Bool("many") {
		n = []int{3, 9, 17, 33, 70}[rt.Choice("n", rt.Bound("many", 4, 5))]
	} else {
		l = []int{31, 32, 62, 63}[rt.Choice("size", 4)]
	}
	at := []int{0, n / 2, n - 1}[rt.Choice("key", 3)]
	m := map[string]string{}
	key := func(i int) string { return h.Filler(l-3) + "k" + strconv.Itoa(10+i) }
	for i := 0; i < n; i++ {
		m[key(i)] = "same"
	}
	if rt.Bool("has") {
		m[key(at)] = h.Long("value", l, h.Ident)
	} else {
		delete(m, key(at))
	}
	w := h.Long("search", l, h.Ident)
	var rs []h.Req
	if rt.Bool("values") {
		var vs []string
		for i := 0; i < n; i++ {
			if i == at {
				vs = append(vs, w)
			} else {
				vs = append(vs, "v"+strconv.Itoa(i))
			}
		}
		rs = append(rs, h.In(key(at), rt.Bool("not"), vs))
	} else {
		for i := 0; i < n; i++ {
			if i == at {
				rs = append(rs, h.In(key(i), rt.Bool("not"), []string{w}))
			} else {
				rs = append(rs, h.OneOf(key(i), "same"))
			}
		}
	}
	eval("large", m, rs, as)
}
