package p10

import (
	"strconv"
	"strings"

	"github.com/DaoCloud/ckube/page"
	h "github.com/DaoCloud/ckube/zzverif/hlib"
	rt "github.com/DaoCloud/ckube/zzverif/verifrt"
)

// list gives the pods a page query lists.
func list(have [][3]string, def string, p page.Paginate, selector, ns string) h.List {
	h.Config(def, "")
	s := h.Store()
	for _, o := range have {
		pod := h.Pod(o[1], o[2])
		pod.Labels = map[string]string{"app": "x"}
		_ = s.OnResourceAdded(h.Pods, o[0], pod)
	}
	res, w := h.Call(s, nil, h.PodList(ns, h.ListQuery(p, selector)))
	return h.AsList(res, w)
}

func count(l []string, x string) (n int) {
	for _, y := range l {
		if x == y {
			n++
		}
	}
	return n
}

// check compares the listed pods with those that meet keep.
func check(l h.List, have [][3]string, keep func(o [3]string) bool) {
	rt.Assert("served", l.OK, "a list fails")
	if !l.OK {
		return
	}
	got := h.Names(l.Items)
	n := 0
	for _, o := range have {
		c := count(got, o[0]+"/"+o[1]+"/"+o[2])
		if keep(o) {
			n++
			rt.Assert("in", c == 1, "a resource of a requested cluster is missing or listed twice")
		} else {
			rt.Assert("out", c == 0, "a list leaks a resource of a cluster that was not asked for")
		}
	}
	rt.Assert("all", len(got) == n, "a list holds resources that do not exist")
}

func pods(names ...string) [][3]string {
	var r [][3]string
	for i, c := range names {
		r = append(r, [3]string{c, "ns", "p" + string(rune('0'+i))})
	}
	return r
}

// text that can name a cluster: anything but double quotes
const names = rt.LowerNum + "-_.;=!() ,@:"

// CheckDefault: without naming clusters only the default cluster is listed,
// whatever it is called and whatever else is asked for.
func CheckDefault() {
	c := rt.Str("default", 1+rt.Choice("more", rt.Bound("name_len", 2, 3)), names)
	rt.Assume(strings.TrimSpace(c) == c)
	other := rt.Str("other", 1+rt.Choice("othermore", 2), names)
	have := pods(c, other, "zz")
	var p page.Paginate
	p.Search = []string{"", "name=p", "p", "!q", "name=\"p0\""}[rt.Choice("search", 5)]
	sel := []string{"", "app=x", "app in (x,y)"}[rt.Choice("selector", 3)]
	l := list(have, c, p, sel, "")
	check(l, have, func(o [3]string) bool {
		ok, _ := p.Match(map[string]string{"cluster": o[0], "namespace": o[1], "name": o[2], "is_deleted": "false"})
		return o[0] == c && ok
	})
}

// CheckWord: no search text without an advanced part leaves the default cluster.
func CheckWord() {
	t := rt.StrUpTo("search", rt.Bound("search_len", 3, 4), "c12=!;\" p")
	rt.Assume(!strings.Contains(t, "__ckube_as__"))
	have := pods("c1", "c2", "c1")
	l := list(have, "c1", page.Paginate{Search: t}, "", "")
	if !l.OK {
		rt.Assert("error", l.Code == 400, "a bad search is no client error")
		return
	}
	q := page.Paginate{Search: t}
	check(l, have, func(o [3]string) bool {
		m := map[string]string{"cluster": o[0], "namespace": o[1], "name": o[2], "is_deleted": "false"}
		ok, err := q.Match(m)
		rt.Assert("legal", err == nil, "an illegal search is served")
		return ok && o[0] == "c1"
	})
}

// CheckNamed: naming clusters lists exactly those, next to any other condition.
func CheckNamed() {
	h.FewValues()
	var cs []string
	n := 1 + rt.Choice("named", 2)
	for i := 0; i < n; i++ {
		cs = append(cs, h.Word("cluster", 1))
	}
	have := pods(h.Word("has", 1), h.Word("has", 1), "c1")
	def := []string{"c1", "a"}[rt.Choice("default", 2)]
	p := page.Paginate{Search: []string{"", "name=p", "__ckube_as__:name in (p0,p1,p2)", "__ckube_as__:namespace=ns;p"}[rt.Choice("search", 4)]}
	if rt.Bool("before") {
		_ = p.Clusters([]string{"c9"})
	}
	err := p.Clusters(cs)
	rt.Assert("set", err == nil, "clusters can not be set")
	ns := []string{"", "ns"}[rt.Choice("ns", 2)]
	sel := []string{"", "app"}[rt.Choice("selector", 2)]
	l := list(have, def, p, sel, ns)
	check(l, have, func(o [3]string) bool { return count(cs, o[0]) > 0 })
}

// CheckSelectors: restrictions in an advanced part that do not name a cluster
// keep the default.
func CheckSelectors() {
	h.FewValues()
	r := h.MkReq([]string{"name", "namespace"}, 1)
	t := "__ckube_as__:" + r.Text()
	if rt.Bool("second") {
		r2 := h.MkReq([]string{"name"}, 1)
		t += []string{",", ";__ckube_as__:"}[rt.Choice("join", 2)] + r2.Text()
	}
	n0 := h.Word("pod", 1)
	have := [][3]string{{"c1", "a", n0}, {"c2", "a", n0}}
	l := list(have, "c1", page.Paginate{Search: t}, "", "")
	q := page.Paginate{Search: t}
	check(l, have, func(o [3]string) bool {
		ok, err := q.Match(map[string]string{"cluster": o[0], "namespace": o[1], "name": o[2], "is_deleted": "false"})
		rt.Assert("legal", err == nil, "an illegal search is served")
		return ok && o[0] == "c1"
	})
}

// CheckLarge: many clusters with long names.
func CheckLarge() {
	n := []int{3, 9, 17, 40}[rt.Choice("clusters", rt.Bound("clusters", 3, 4))]
	l := []int{4, 30, 61}[rt.Choice("length", 3)]
	name := func(i int) string { return h.Filler(l) + strconv.Itoa(10+i) }
	var cs []string
	for i := 0; i < n; i++ {
		cs = append(cs, name(i))
	}
	at := []int{0, n / 2, n - 1}[rt.Choice("at", 3)]
	cs[at] = h.Long("cluster", l, rt.LowerNum)
	have := pods(name(0), name(n/2), name(n-1), h.Filler(l), h.Long("has", l, rt.LowerNum))
	if rt.Bool("default") {
		list := list(have, cs[at], page.Paginate{Search: "name=p"}, "", "")
		check(list, have, func(o [3]string) bool { return o[0] == cs[at] })
		return
	}
	p := page.Paginate{Search: []string{"", "name=p"}[rt.Choice("search", 2)]}
	rt.Assert("set", p.Clusters(cs) == nil, "many clusters can not be set")
	check(list(have, "c1", p, []string{"", "app"}[rt.Choice("selector", 2)], ""), have, func(o [3]string) bool { return count(cs, o[0]) > 0 })
}
