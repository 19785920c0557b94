package p08

import (
	"sort"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/types"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
	h "github.com/DaoCloud/ckube/zzverif/hlib"
	rt "github.com/DaoCloud/ckube/zzverif/verifrt"
	corev1 "k8s.io/api/core/v1"
)

type entry struct{ gvr, cluster, ns, name, version string }

func (e entry) same(f entry) bool {
	return e.gvr == f.gvr && e.cluster == f.cluster && e.ns == f.ns && e.name == f.name
}

// model is the last state every resource was reported in.
type model []entry

func (m model) without(e entry) model {
	var r model
	for _, x := range m {
		if !x.same(e) {
			r = append(r, x)
		}
	}
	return r
}

var gvrs = map[string]store.GroupVersionResource{"pods": h.Pods, "services": h.Services}

func step(s store.Store, m model, i int, ns string) model {
	g := "pods"
	if rt.Bool("services") {
		g = "services"
	}
	v := string([]byte{byte('0' + i)})
	e := entry{g, rt.Str("cluster", 1, "ab"), ns, rt.Str("name", 1, "pq"), v}
	o := h.Pod(e.ns, e.name)
	o.Labels = map[string]string{"version": v}
	gvr := gvrs[g]
	switch rt.Choice("op", 4) {
	case 0:
		_ = s.OnResourceAdded(gvr, e.cluster, o)
		return append(m.without(e), e)
	case 1:
		_ = s.OnResourceModified(gvr, e.cluster, o)
		return append(m.without(e), e)
	case 2:
		_ = s.OnResourceDeleted(gvr, e.cluster, o)
		return m.without(e)
	}
	_ = s.Clean(gvr, e.cluster)
	var r model
	for _, x := range m {
		if x.gvr != e.gvr || x.cluster != e.cluster {
			r = append(r, x)
		}
	}
	return r
}

func describe(o interface{}) string {
	p := o.(*corev1.Pod)
	return h.Name(o) + "@" + p.Labels["version"]
}

func compare(s store.Store, m model) {
	for _, g := range []string{"pods", "services"} {
		for _, ns := range []string{"", "x", "z"} {
			r := s.Query(gvrs[g], store.Query{Namespace: ns})
			var want, got []string
			for _, e := range m {
				if e.gvr == g && (ns == "" || e.ns == ns) {
					want = append(want, e.cluster+"/"+e.ns+"/"+e.name+"@"+e.version)
				}
			}
			for _, o := range r.Items {
				got = append(got, describe(o))
			}
			sort.Strings(want)
			sort.Strings(got)
			rt.Assert("list", r.Error == nil && h.Same(got, want) && r.Total == int64(len(want)), "a list is not the last reported state of the cluster")
		}
	}
	// any single resource, also one that was never reported
	q := entry{"pods", rt.Str("getcluster", 1, "abc"), rt.StrUpTo("getns", 1, "xyz"), rt.Str("getname", 1, "pqr"), ""}
	want := ""
	for _, e := range m {
		if e.same(q) {
			want = q.cluster + "/" + q.ns + "/" + q.name + "@" + e.version
			rt.Cover("found")
		}
	}
	o := s.Get(h.Pods, q.cluster, q.ns, q.name)
	if o == nil {
		rt.Assert("get", want == "", "a cached resource is not found")
	} else {
		rt.Assert("get", describe(o) == want, "another resource or state is returned than the last reported one")
	}
}

// CheckHistory: after any short history of events the cache holds exactly the
// last reported state of every resource.
func CheckHistory() {
	s := h.Store()
	var m model
	n := rt.Bound("events", 3, 4)
	for i := 0; i < n; i++ {
		m = step(s, m, i, rt.StrUpTo("ns", 1, "x"))
	}
	compare(s, m)
}

// CheckTail: the same on a cache that holds resources everywhere already.
func CheckTail() {
	s := h.Store()
	var m model
	for _, g := range []string{"pods", "services"} {
		for _, c := range []string{"a", "b"} {
			for _, ns := range []string{"x", "y"} {
				e := entry{g, c, ns, "p", "-"}
				o := h.Pod(ns, "p")
				o.Labels = map[string]string{"version": "-"}
				_ = s.OnResourceAdded(gvrs[g], c, o)
				m = append(m, e)
			}
		}
	}
	for i := 0; i < rt.Bound("tail_events", 1, 2); i++ {
		m = step(s, m, i, rt.Str("ns", 1, "xy"))
	}
	compare(s, m)
}

// CheckSearch: a search applies to what is cached now.
func CheckSearch() {
	s := h.Store()
	var m model
	for i := 0; i < 2; i++ {
		m = step(s, m, i, rt.Str("ns", 1, "xy"))
	}
	n := rt.Str("find", 1, "pq")
	r := s.Query(h.Pods, store.Query{Paginate: page.Paginate{Search: "name=" + n + ";cluster=a"}})
	want := 0
	for _, e := range m {
		if e.gvr == "pods" && e.name == n && e.cluster == "a" {
			want++
		}
	}
	rt.Assert("search", len(r.Items) == want, "a search does not select from the last reported state")
}

// CheckVersions: whatever versions, identities, generations and deletion marks
// the reports of one resource carry, the last report counts.
func CheckVersions() {
	s := h.Store()
	n := rt.Bound("reports", 2, 3)
	live := ""
	for i := 0; i < n; i++ {
		v := string([]byte{byte('0' + i)})
		o := h.Pod("x", "p")
		o.Labels = map[string]string{"version": v}
		o.ResourceVersion = rt.StrUpTo("version", 2, "0129")
		o.UID = types.UID(rt.Str("uid", 1, "uv"))
		o.Generation = rt.Int64In("generation", 0, 3)
		if rt.Bool("deleting") {
			t := metav1.NewTime(time.Unix(1000, 0))
			o.DeletionTimestamp = &t
		}
		switch rt.Choice("op", 3) {
		case 0:
			_ = s.OnResourceAdded(h.Pods, "a", o)
			live = v
		case 1:
			_ = s.OnResourceModified(h.Pods, "a", o)
			live = v
		case 2:
			_ = s.OnResourceDeleted(h.Pods, "a", o)
			live = ""
		}
	}
	g := s.Get(h.Pods, "a", "x", "p")
	if live == "" {
		rt.Assert("gone", g == nil, "a deleted resource is still there")
	} else {
		rt.Assert("last", g != nil && g.(*corev1.Pod).Labels["version"] == live, "not the last reported state is cached")
		rt.Cover("live")
	}
	r := s.Query(h.Pods, store.Query{})
	rt.Assert("count", len(r.Items) == len(live) && r.Total == int64(len(live)), "a list does not hold the last reported state")
}
