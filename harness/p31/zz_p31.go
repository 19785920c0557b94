package main

import (
	"net/url"
	"strconv"
	"strings"

	"github.com/DaoCloud/ckube/page"
	h "github.com/DaoCloud/ckube/zzverif/hlib"
	rt "github.com/DaoCloud/ckube/zzverif/verifrt"
)

func p31count(l []string, x string) (n int) {
	for _, y := range l {
		if x == y {
			n++
		}
	}
	return n
}

// p31list lists pods with the printed selector.
func p31list(selector string, have [][2]string) h.List {
	h.Config("c1", "")
	s := h.SortStore()
	for _, o := range have {
		_ = s.OnResourceAdded(h.Pods, o[0], h.Pod("ns", o[1]))
	}
	q := ""
	if selector != "" {
		q = "labelSelector=" + url.QueryEscape(selector)
	}
	res, w := h.Call(s, nil, h.PodList("", q))
	return h.AsList(res, w)
}

// CheckClusters: the printed selector lists the resources of the named
// clusters that match the search, and no others.
func CheckClusters() {
	h.FewValues()
	args := []string{}
	cs := []string{"c1"}
	if rt.Bool("clusters") {
		cs = nil
		for i, n := 0, 1+rt.Choice("named", 2); i < n; i++ {
			cs = append(cs, h.Word("cluster", 1))
		}
		args = append(args, "-c", strings.Join(cs, ","))
	}
	search := rt.StrUpTo("search", rt.Bound("search_len", 2, 3), "p01%= ;!\"")
	rt.Assume(search == "" || search[0] != '-')
	if search != "" {
		args = append(args, []string{"-search", "--search"}[rt.Choice("dashes", 2)], search)
	}
	code, out, calls := rt.RunMain(main, 0, args)
	rt.Assert("runs", len(calls) == 0 && code == 0, "a legal query can not be printed")
	have := [][2]string{{h.Word("has", 1), "p0"}, {"c1", "p1"}}
	l := p31list(out, have)
	q := page.Paginate{Search: search}
	one := func(o [2]string) (bool, bool) {
		ok, err := q.Match(map[string]string{"cluster": o[0], "namespace": "ns", "name": o[1], "is_deleted": "false", "k": "", "j": ""})
		return ok, err == nil
	}
	for _, o := range have {
		hit, legal := one(o)
		if !legal {
			rt.Assert("illegal", !l.OK && l.Code == 400, "an illegal search is answered")
			continue
		}
		rt.Assert("served", l.OK, "the printed selector is refused")
		if !l.OK {
			return
		}
		want := 0
		if hit && p31count(cs, o[0]) > 0 {
			want = 1
		}
		rt.Assert("listed", p31count(h.Names(l.Items), o[0]+"/ns/"+o[1]) == want, "the printed selector lists something else than was asked for")
	}
}

// CheckPages: page, size and sort reach the server as they were given.
func CheckPages() {
	ps, ss := rt.Str("page", 1, "0123456789"), rt.Str("size", 1, "0123456789")
	page, size := int(ps[0]-'0'), int(ss[0]-'0')
	var args []string
	if rt.Bool("page given") {
		args = append(args, "-p", ps)
	} else {
		page = 0
	}
	if rt.Bool("size given") {
		args = append(args, "-s="+ss)
	} else {
		size = 0
	}
	sort := []string{"", "name", "name desc", "-", "a%db"}[rt.Choice("sort", 5)]
	if sort != "" {
		args = append(args, "-sort", sort)
	}
	code, out, _ := rt.RunMain(main, 0, args)
	rt.Assert("runs", code == 0, "a legal query can not be printed")
	names := []string{"p0", "p1", "p2", "p3"}
	var have [][2]string
	for _, n := range names {
		have = append(have, [2]string{"c1", n})
	}
	l := p31list(out, have)
	if sort == "-" || sort == "a%db" {
		rt.Assert("badsort", !l.OK && l.Code == 400, "an unknown sort key is answered")
		return
	}
	lo, hi := 0, 4
	if size > 0 && page > 0 {
		lo = (page - 1) * size
		hi = lo + size
	}
	if lo >= 4 {
		rt.Assert("beyond", l.Code == 400 || len(l.Items) == 0, "a page beyond the end is answered")
		return
	}
	rt.Assert("served", l.OK, "the printed selector is refused")
	if !l.OK {
		return
	}
	if sort == "name desc" {
		names = []string{"p3", "p2", "p1", "p0"}
	}
	if hi > 4 {
		hi = 4
	}
	got := h.Names(l.Items)
	rt.Assert("window", len(got) == hi-lo, "the page asked for has another size")
	for i := range got {
		// without a sort key any order is fine
		rt.Assert("order", sort == "" || got[i] == "c1/ns/"+names[lo+i], "another page or order is listed than was asked for")
	}
}

// CheckRefuse: clusters that can not be named are reported, nothing is printed.
func CheckRefuse() {
	bad := []string{"c1,", ",", "a b", "\"", "c1,-"}[rt.Choice("clusters", 5)]
	args := []string{"-c", bad}
	if rt.Bool("search") {
		args = append(args, "-search", "name=p")
	}
	code, out, _ := rt.RunMain(main, 0, args)
	rt.Assert("refused", code != 0 && out == "", "a selector is printed although it can not be kept to the clusters named")
}

// CheckLarge: many clusters, long searches, far pages.
func CheckLarge() {
	l := []int{61, 3, 30}[rt.Choice("length", rt.Bound("lengths", 2, 3))]
	n := []int{3, 12, 40}[rt.Choice("clusters", rt.Bound("clusters", 2, 3))]
	var cs []string
	for i := 0; i < n; i++ {
		cs = append(cs, h.Filler(l)+strconv.Itoa(10+i))
	}
	at := []int{0, n / 2, n - 1}[rt.Choice("at", 3)]
	cs[at] = h.Long("cluster", l, "az019")
	sp := [][2]int{{7, 2}, {1, 11}, {100, 1}, {10, 3}, {1, 1}, {100, 2}, {7, 11}}[rt.Choice("size", rt.Bound("large_pages", 4, 7))]
	size, pg := sp[0], sp[1]
	search := "name=p" + strings.Repeat(";name=p", l)
	code, out, _ := rt.RunMain(main, 0, []string{"-c", strings.Join(cs, ","), "-search", search, "-sort", "name desc", "-p", strconv.Itoa(pg), "-s", strconv.Itoa(size)})
	rt.Assert("runs", code == 0, "a legal query can not be printed")
	var have [][2]string
	var want []string
	for i := 0; i < 25; i++ {
		c := []string{cs[at], cs[0], "c1"}[i%3]
		have = append(have, [2]string{c, "p" + strconv.Itoa(10+i)})
		if i%3 < 2 {
			want = append([]string{c + "/ns/p" + strconv.Itoa(10+i)}, want...)
		}
	}
	li := p31list(out, have)
	lo, hi := (pg-1)*size, pg*size
	if lo >= len(want) {
		rt.Assert("beyond", li.Code == 400 || len(li.Items) == 0, "a page beyond the end is answered")
		return
	}
	if hi > len(want) {
		hi = len(want)
	}
	rt.Assert("large", li.OK && h.Same(h.Names(li.Items), want[lo:hi]), "a long query prints a selector that lists something else")
}
