package p30

import (
	"encoding/json"

	h "github.com/DaoCloud/ckube/zzverif/hlib"
	rt "github.com/DaoCloud/ckube/zzverif/verifrt"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
)

// only caches one kind, and records what it is asked for.
type only struct {
	h.Recorder
	gvr store.GroupVersionResource
}

func (o *only) IsStoreGVR(g store.GroupVersionResource) bool { return g == o.gvr }

func seg(name string, n int) string {
	return rt.Str(name, 1+rt.Choice(name+"len", n), "ab1.-")
}

var kinds = []string{"pods", "nodes", "namespaces", "x"}

func group() (string, string) {
	if rt.Bool("core") {
		return "", "/api/"
	}
	g := []string{"apps", "a.b", "api"}[rt.Choice("group", 3)]
	return g, "/apis/" + g + "/"
}

// CheckRead: every read URL of a cached kind is answered from the cache, for
// exactly the kind, namespace and name in it.
func CheckRead() {
	h.Config("c1", "")
	g, pre := group()
	v := []string{"v1", "v1beta1"}[rt.Choice("version", 2)]
	kind := kinds[rt.Choice("kind", len(kinds))]
	st := &only{gvr: store.GroupVersionResource{Group: g, Version: v, Resource: kind}}
	st.Obj = map[string]string{"answer": "yes"}
	up := &h.Upstream{Text: "{}"}
	s := h.NewServer(up.Clients("c1"), st)
	path := pre + v
	ns, name := "", ""
	if rt.Bool("namespaced") {
		ns = seg("ns", rt.Bound("name_len", 2, 3))
		path += "/namespaces/" + ns
	}
	path += "/" + kind
	if rt.Bool("single") {
		name = seg("name", rt.Bound("name_len", 2, 3))
		path += "/" + name
	}
	rt.Assume(name != "." && name != ".." && ns != "." && ns != "..")
	rt.Observe("path", path)
	w := s.Serve(h.URLRequest("GET", path, "", ""))
	rt.Assert("cached", w.Status == 200 && len(up.Log) == 0, "a read of a cached kind is not answered from the cache")
	rt.Assert("json", w.H.Get("Content-Type") == "application/json", "an answer from the cache does not say that it is JSON")
	if name != "" {
		rt.Assert("single", len(st.Gets) == 1 && len(st.Queries) == 0 && st.Gets[0] == [3]string{"c1", ns, name} && st.GVRs[0] == st.gvr, "another object is read than the URL names")
		rt.Assert("body", string(w.Body) == `{"answer":"yes"}`, "the cached object is not what is answered")
		return
	}
	rt.Assert("list", len(st.Gets) == 0 && len(st.Queries) == 1 && st.Queries[0].Namespace == ns && st.GVRs[0] == st.gvr, "another list is read than the URL names")
}

// CheckOther: every other URL and every kind that is not cached is forwarded as it is.
func CheckOther() {
	h.Config("c1", "")
	g, pre := group()
	st := &only{gvr: store.GroupVersionResource{Group: g, Version: "v1", Resource: "pods"}}
	up := &h.Upstream{Text: "answer"}
	s := h.NewServer(up.Clients("c1"), st)
	x, y := seg("x", 1), seg("y", 1)
	rt.Assume(x != "." && y != ".")
	path := []string{
		pre + "v1/services", pre + "v2/pods", "/apis/other/v1/pods", pre + "v1/namespaces/" + x + "/pods/" + y + "/log", pre + "v1/namespaces/" + x + "/pods/" + y + "/status",
		pre + "v1/pods/" + x + "/" + y, pre + "v1/watch/pods/" + x, pre + "v1", "/version", "/", "/openapi/v2", "/pods", "/v1/pods", "/" + x + pre + "v1/pods", pre + "v1/" + x, pre + "v1/namespaces/" + x,
		pre + "v1/services/" + x, pre + "v1/namespaces/" + x + "/services/" + y,
	}[rt.Choice("path", 18)]
	rt.Observe("path", path)
	w := s.Serve(h.URLRequest("GET", path, "", ""))
	rt.Assert("notcached", len(st.GVRs) == 0, "a URL of something that is not cached is answered from the cache")
	rt.Assert("forwarded", len(up.Log) == 1 && up.Log[0].Path == path && up.Log[0].Cluster == "c1", "a URL of something that is not cached is not forwarded as it is")
	rt.Assert("relayed", w.Status == 200 && string(w.Body) == "answer", "the answer of the cluster is not relayed")
}

// CheckEnvelope: a list from the cache is the list of the configured kind that
// a client of that group and version decodes, with all the resources in it.
func CheckEnvelope() {
	g, pre := group()
	v := []string{"v1", "v1beta1"}[rt.Choice("version", 2)]
	kind := []string{"pods", "foos"}[rt.Choice("kind", 2)]
	var px []common.Proxy
	want := ""
	for _, pg := range []string{"", "apps", "a.b", "api"} {
		for _, pv := range []string{"v1", "v1beta1"} {
			for _, pr := range []string{"foos", "pods"} {
				lk := "L" + pg + pv + pr + "List"
				px = append(px, common.Proxy{Group: pg, Version: pv, Resource: pr, ListKind: lk})
				if pg == g && pv == v && pr == kind {
					want = lk
				}
			}
		}
	}
	common.InitConfig(&common.Config{DefaultCluster: "c1", Proxies: px})
	st := &only{gvr: store.GroupVersionResource{Group: g, Version: v, Resource: kind}}
	n := rt.Choice("n", rt.Bound("envelope", 3, 4))
	var names []string
	for i := 0; i < n; i++ {
		nm := rt.Str("name"+string(rune('0'+i)), 1, "ab<\"\\\n")
		names = append(names, nm)
		st.Result.Items = append(st.Result.Items, map[string]string{"name": nm})
	}
	st.Result.Total = int64(n) + rt.Int64In("more", 0, 3)
	up := &h.Upstream{Text: "{}"}
	s := h.NewServer(up.Clients("c1"), st)
	path := pre + v + []string{"", "/namespaces/n"}[rt.Choice("namespaced", 2)] + "/" + kind
	q := ""
	paged := n > 0 && rt.Bool("paged")
	if paged {
		q = h.ListQuery(page.Paginate{Page: 1, PageSize: int64(n)}, "")
	} else {
		st.Result.Total = int64(n)
	}
	w := s.Serve(h.URLRequest("GET", path, q, ""))
	rt.Observe("body", string(w.Body))
	var l struct {
		APIVersion, Kind string
		Metadata         struct {
			SelfLink           string
			RemainingItemCount *int64
		}
		Items []map[string]string
	}
	err := json.Unmarshal(w.Body, &l)
	rt.Assert("decodes", w.Status == 200 && err == nil && len(up.Log) == 0, "a list from the cache can not be decoded")
	rt.Assert("json", w.H.Get("Content-Type") == "application/json", "a list from the cache does not say that it is JSON")
	apiVersion := v
	if g != "" {
		apiVersion = g + "/" + v
	}
	rt.Assert("apiVersion", l.APIVersion == apiVersion, "a list does not have the group and version of its URL")
	rt.Assert("kind", l.Kind == want, "a list does not have the kind configured for it")
	rt.Assert("items", len(l.Items) == n, "a list does not hold the resources of the page")
	for i, o := range l.Items {
		rt.Assert("item", len(o) == 1 && o["name"] == names[i], "a resource in a list differs from the cached one")
	}
	rt.Assert("remain", l.Metadata.RemainingItemCount != nil && *l.Metadata.RemainingItemCount == st.Result.Total-int64(n), "the count of remaining resources is wrong")
}
