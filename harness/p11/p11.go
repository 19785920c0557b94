package p11

import (
	"github.com/DaoCloud/ckube/page"
	h "github.com/DaoCloud/ckube/zzverif/hlib"
	rt "github.com/DaoCloud/ckube/zzverif/verifrt"
	"strconv"
)

type pod struct{ cluster, ns, name string }

func (p pod) id() string { return p.cluster + "/" + p.ns + "/" + p.name }

// CheckList: a list of a namespace holds exactly the resources of that
// namespace, a list without one all of them.
func CheckList() {
	h.Config("a", "")
	s := h.Store()
	seen := map[string]bool{}
	n := rt.Bound("resources", 3, 4)
	var have []pod
	for i := 0; i < n; i++ {
		p := pod{rt.Str("cluster", 1, "ab"), rt.StrUpTo("ns", 2, "xy"), rt.Str("name", 1, "pq")}
		if seen[p.id()] {
			continue
		}
		seen[p.id()] = true
		have = append(have, p)
		_ = s.OnResourceAdded(h.Pods, p.cluster, h.Pod(p.ns, p.name))
	}
	ns := rt.StrUpTo("asked", 2, "xyz")
	q := page.Paginate{}
	named := rt.Bool("named")
	if named {
		rt.Assert("set", q.Clusters([]string{"a", "b"}) == nil, "clusters can not be set")
	}
	sort := rt.Choice("sort", 2)
	q.Sort = []string{"", "name desc"}[sort]
	res, w := h.Call(s, nil, h.PodList(ns, h.ListQuery(q, "")))
	l := h.AsList(res, w)
	rt.Assert("served", l.OK, "a list fails")
	if !l.OK {
		return
	}
	got := map[string]int{}
	for _, x := range h.Names(l.Items) {
		got[x]++
	}
	k := 0
	for _, p := range have {
		if (ns == "" || p.ns == ns) && (named || p.cluster == "a") {
			k++
			rt.Assert("in", got[p.id()] == 1, "a resource of the namespace is missing or listed twice")
		} else {
			rt.Assert("out", got[p.id()] == 0, "a list leaks a resource of another namespace")
		}
	}
	rt.Assert("all", k == len(l.Items), "a list holds resources that do not exist")
}

// CheckRestricted: namespaces set in a page query restrict a list, together
// with the namespace of the path.
func CheckRestricted() {
	h.FewValues()
	h.Config("a", "")
	s := h.Store()
	have := []pod{{"a", h.Word("ns", 1), "p"}, {"a", h.Word("ns", 1), "q"}}
	for _, p := range have {
		_ = s.OnResourceAdded(h.Pods, p.cluster, h.Pod(p.ns, p.name))
	}
	var nss []string
	k := 1 + rt.Choice("namespaces", 2)
	for i := 0; i < k; i++ {
		nss = append(nss, h.Word("set", 1))
	}
	q := page.Paginate{Search: []string{"", "name=p", "__ckube_as__:name!=q"}[rt.Choice("search", 3)]}
	before := q
	rt.Assert("set", q.Namespaces(nss) == nil, "namespaces can not be set")
	path := ""
	if rt.Bool("path") {
		path = h.Word("asked", 1)
	}
	res, w := h.Call(s, nil, h.PodList(path, h.ListQuery(q, "")))
	l := h.AsList(res, w)
	rt.Assert("served", l.OK, "a list fails")
	if !l.OK {
		return
	}
	got := h.Names(l.Items)
	n := 0
	for _, p := range have {
		want := path == "" || path == p.ns
		in := false
		for _, x := range nss {
			in = in || x == p.ns
		}
		ok, _ := before.Match(map[string]string{"name": p.name})
		want = want && in && ok
		c := 0
		for _, g := range got {
			if g == p.id() {
				c++
			}
		}
		if want {
			n++
			rt.Assert("in", c == 1, "a resource of a selected namespace is missing")
		} else {
			rt.Assert("out", c == 0, "a resource of a namespace that was not selected is listed")
		}
	}
	rt.Assert("all", n == len(got), "a list holds resources that do not exist")
}

// CheckGet: a single resource is found under its own cluster, namespace and
// name only, and is answered with exactly the cached object.
func CheckGet() {
	h.Config(rt.Str("default", 1, "ab"), "")
	s := h.Store()
	have := pod{rt.Str("cluster", 1, "ab"), rt.StrUpTo("ns", 2, "xy"), rt.StrUpTo("name", 2, "xy")}
	rt.Assume(have.name != "")
	p := h.Pod(have.ns, have.name)
	_ = s.OnResourceAdded(h.Pods, have.cluster, p)
	other := h.Pod("xyx", "xyx")
	_ = s.OnResourceAdded(h.Pods, "a", other)
	ask := pod{rt.Str("askcluster", 1, "abc"), rt.StrUpTo("askns", 2, "xyz"), rt.StrUpTo("askname", 2, "xyz")}
	rt.Assume(ask.name != "")
	o := s.Get(h.Pods, ask.cluster, ask.ns, ask.name)
	if ask == have {
		rt.Assert("found", o == interface{}(p), "a cached resource is not found")
	} else {
		rt.Assert("notfound", o == nil, "a resource is found under another identity")
	}
	g, gns := h.Services, ask.ns
	if rt.Bool("otherkind") {
		rt.Assert("kind", s.Get(g, have.cluster, gns, have.name) == nil, "a resource is found under another kind")
	}
}

// CheckLarge: long names of namespaces that differ in one place, and many of them.
func CheckLarge() {
	h.Config("a", "")
	s := h.Store()
	n := []int{3, 17, 60}[rt.Choice("namespaces", rt.Bound("namespaces", 2, 3))]
	l := []int{8, 31, 63}[rt.Choice("length", 3)]
	have := []pod{{"a", h.Long("ns", l, rt.LowerNum), "p"}, {"a", h.Filler(l - 1), "p"}}
	for i := 0; i < n; i++ {
		have = append(have, pod{"a", h.Filler(l-2) + strconv.Itoa(10+i), "p"})
	}
	rt.Assume(h.Filler(l) != have[0].ns)
	for i, p := range have {
		for _, q := range have[:i] {
			rt.Assume(p.ns != q.ns)
		}
		_ = s.OnResourceAdded(h.Pods, p.cluster, h.Pod(p.ns, p.name))
	}
	ns := h.Long("asked", l, rt.LowerNum)
	res, w := h.Call(s, nil, h.PodList(ns, ""))
	got := h.AsList(res, w)
	rt.Assert("served", got.OK, "a list fails")
	k := 0
	for _, p := range have {
		if p.ns == ns {
			k++
		}
	}
	rt.Assert("large", len(got.Items) == k && (k == 0 || h.Name(got.Items[0]) == "a/"+ns+"/p"), "a list of one of many namespaces holds others, or not its own")
}
