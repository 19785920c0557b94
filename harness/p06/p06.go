package p06

import (
	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
	h "github.com/DaoCloud/ckube/zzverif/hlib"
	rt "github.com/DaoCloud/ckube/zzverif/verifrt"
	"strconv"
)

var sorts = []string{"", "k", "k desc", "name", "k,name", "cluster desc", "namespace", "k!int", "j,k", "name desc, k!int desc"}

type place struct{ cluster, ns, name string }

// resources in several clusters and namespaces, with equal names
var places = []place{{"c1", "n1", "x"}, {"c2", "n1", "x"}, {"c1", "n2", "x"}, {"c1", "n1", "y"}}

// CheckPages: the pages of one query cover every resource exactly once,
// whatever the order in which the cache yields them at each request.
func CheckPages() {
	n := rt.Bound("objects", 3, 4)
	s := h.SortStore()
	perm := rt.Choice("which", len(places)-n+1)
	for i := 0; i < n; i++ {
		p := places[(i+perm)%len(places)]
		_ = s.OnResourceAdded(h.Pods, p.cluster, h.Labelled(p.ns, p.name, rt.Str("k", 1, "12"), "0"))
	}
	q := page.Paginate{PageSize: int64(1 + rt.Choice("size", 2)), Sort: sorts[rt.Choice("sort", len(sorts))]}
	rt.MapOrder(true)
	seen := map[string]int{}
	total := 0
	for q.Page = 1; (q.Page-1)*q.PageSize < int64(n); q.Page++ {
		r := s.Query(h.Pods, store.Query{Paginate: q})
		rt.Assert("served", r.Error == nil && r.Total == int64(n), "a page of a legal query fails or has another total")
		for _, o := range r.Items {
			seen[h.Name(o)]++
			total++
		}
	}
	rt.MapOrder(false)
	rt.Assert("once", total == n && len(seen) == n, "the pages of a query repeat or omit resources")
}

// CheckStable: the same query on the same cache gives the same list.
func CheckStable() {
	n := rt.Bound("objects", 3, 4)
	s := h.SortStore()
	for i := 0; i < n; i++ {
		p := places[i]
		_ = s.OnResourceAdded(h.Pods, p.cluster, h.Labelled(p.ns, p.name, rt.Str("k", 1, "12"), rt.Str("j", 1, "12")))
	}
	q := store.Query{Paginate: page.Paginate{Sort: sorts[rt.Choice("sort", len(sorts))]}}
	first := h.Names(s.Query(h.Pods, q).Items)
	rt.MapOrder(true)
	second := h.Names(s.Query(h.Pods, q).Items)
	rt.MapOrder(false)
	rt.Assert("stable", len(first) == n && h.Same(first, second), "the same query gives the resources in another order")
}

// CheckMany: many resources with equal keys, which the cache yields in another
// order for every page.
func CheckMany() {
	n := []int{13, 40, 100}[rt.Choice("n", rt.Bound("many", 2, 3))]
	fill := func(turn int) store.Store {
		s := h.SortStore()
		for i := 0; i < n; i++ {
			x := (i*7 + turn*5) % n
			if turn%2 == 1 {
				x = n - 1 - x
			}
			p := places[x%4]
			_ = s.OnResourceAdded(h.Pods, p.cluster, h.Labelled(p.ns, p.name+strconv.Itoa(x/4), strconv.Itoa(x%3), strconv.Itoa(x%2)))
		}
		return s
	}
	q := page.Paginate{PageSize: rt.Int64In("size", 5, 12), Sort: sorts[rt.Choice("sort", len(sorts))]}
	seen := map[string]int{}
	total := 0
	for q.Page = 1; (q.Page-1)*q.PageSize < int64(n); q.Page++ {
		r := fill(int(q.Page)).Query(h.Pods, store.Query{Paginate: q})
		rt.Assert("served", r.Error == nil && r.Total == int64(n), "a page of a legal query fails or has another total")
		for _, o := range r.Items {
			seen[h.Name(o)]++
			total++
		}
	}
	rt.Assert("many", total == n && len(seen) == n, "the pages of a query over many resources repeat or omit some")
}
