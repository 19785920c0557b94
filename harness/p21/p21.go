package p21

import (
	"sync"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/rest"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/store/memory"
	"github.com/DaoCloud/ckube/watcher"
	h "github.com/DaoCloud/ckube/zzverif/hlib"
	rt "github.com/DaoCloud/ckube/zzverif/verifrt"
)

// together runs fs at the same time, with up to n context switches besides
// those at blocking operations, and looks for unordered accesses.
func together(n int, fs ...func()) {
	var wg sync.WaitGroup
	rt.RaceStart()
	rt.Preempt(n)
	for _, f := range fs {
		f := f
		wg.Add(1)
		go func() {
			defer wg.Done()
			f()
		}()
	}
	wg.Wait()
	rt.Preempt(0)
	rt.Assert("race", rt.Races() == 0, "unordered accesses to shared memory")
	rt.Assert("locks", rt.LocksHeld() == 0, "a lock is not released")
}

func put(s store.Store, cluster, ns, name, label string) {
	p := h.Pod(ns, name)
	p.Labels = map[string]string{"l": label}
	_ = s.OnResourceAdded(h.Pods, cluster, p)
}

func label(s store.Store, cluster, ns, name string) string {
	o, ok := s.Get(h.Pods, cluster, ns, name).(metav1.Object)
	if !ok {
		return "-"
	}
	return o.GetLabels()["l"]
}

// CheckWriters: two updates at the same time both take effect.
func CheckWriters() {
	h.Config("c1", "")
	s := h.Store()
	if rt.Bool("before") {
		put(s, "c1", "n", "a", "0")
	}
	type op struct{ cluster, ns, name string }
	x, y := op{"c1", "n", "a"}, op{"c" + rt.Str("cluster", 1, "12"), rt.Str("ns", 1, "nm"), rt.Str("name", 1, "ab")}
	l1, l2 := rt.Str("label1", 1, rt.LowerNum), rt.Str("label2", 1, rt.LowerNum)
	rt.Assume(x != y)
	del := rt.Bool("delete")
	together(rt.Bound("switches", 2, 3),
		func() { put(s, x.cluster, x.ns, x.name, l1) },
		func() {
			p := h.Pod(y.ns, y.name)
			p.Labels = map[string]string{"l": l2}
			if del {
				_ = s.OnResourceDeleted(h.Pods, y.cluster, p)
				return
			}
			_ = s.OnResourceModified(h.Pods, y.cluster, p)
		})
	want := l2
	if del {
		want = "-"
	}
	rt.Assert("both", label(s, x.cluster, x.ns, x.name) == l1 && label(s, y.cluster, y.ns, y.name) == want, "an update is lost")
}

// CheckReaders: a list taken while the cache changes holds what does not
// change and the old or the new state of what does.
func CheckReaders() {
	h.Config("c1", "")
	s := h.Store()
	was, is := rt.Str("old label", 1, rt.LowerNum), rt.Str("new label", 1, rt.LowerNum)
	put(s, "c1", "n", "still", "s")
	put(s, "c1", "n", "a", was)
	var items []string
	what := rt.Choice("change", 6)
	change := func() {
		switch what {
		case 0:
			put(s, "c1", "n", "a", is)
		case 1:
			_ = s.OnResourceDeleted(h.Pods, "c1", h.Pod("n", "a"))
		case 2:
			put(s, "c1", "m", "b", is)
		case 3:
			put(s, "c2", "n", "b", is)
		case 4:
			_ = s.Clean(h.Pods, "c1")
		case 5:
			put(s, "c1", "n", "b", is)
		}
	}
	read := func() {
		r := s.Query(h.Pods, store.Query{Paginate: page.Paginate{}})
		for _, o := range r.Items {
			m := o.(metav1.Object)
			items = append(items, m.GetName()+"="+m.GetLabels()["l"])
		}
		_ = s.Get(h.Pods, "c1", "n", "a")
	}
	together(rt.Bound("switches", 2, 3), change, read)
	has := func(x string) bool {
		for _, i := range items {
			if i == x {
				return true
			}
		}
		return false
	}
	switch what {
	case 4:
	case 0:
		rt.Assert("state", len(items) == 2 && has("still=s") && (has("a="+was) || has("a="+is)), "a list misses a resource that is there all the time")
	case 1:
		rt.Assert("state", has("still=s") && (len(items) == 1 || (len(items) == 2 && has("a="+was))), "a list holds a state that never was")
	default:
		rt.Assert("state", has("still=s") && has("a="+was) && (len(items) == 2 || (len(items) == 3 && has("b="+is))), "a list holds a state that never was")
	}
}

// CheckReload: a request that comes while the configuration is replaced is
// answered from the old or the new one.
func CheckReload() {
	h.Config("c1", "")
	up := &h.Upstream{Text: "{}"}
	s1, s2 := h.Store(), h.Store()
	put(s1, "c1", "n", "old", "1")
	put(s2, "c1", "n", "new", "2")
	srv := h.NewServer(up.Clients("c1"), s1)
	var w *h.Writer
	url := []string{"/api/v1/pods", "/api/v1/namespaces/n/pods/new", "/api/v1/x", "/custom/v1/namespaces/n/deployments/d/services", "/healthy"}[rt.Choice("url", 5)]
	clients := up.Clients("c1", "c2")
	together(rt.Bound("switches", 1, 2),
		func() { w = srv.Serve(h.URLRequest("GET", url, "", "")) },
		func() {
			common.InitConfig(&common.Config{DefaultCluster: "c1", Proxies: []common.Proxy{{Version: "v1", Resource: "pods", ListKind: "PodList", Index: h.BasicIndex()}}})
			srv.ResetStore(s2, clients)
		})
	rt.Assert("answered", w.Status == 200 || (w.Status == 404 && url == "/api/v1/namespaces/n/pods/new"), "a request fails because of a reload")
	w = srv.Serve(h.URLRequest("GET", "/api/v1/namespaces/n/pods/new", "", ""))
	rt.Assert("new", w.Status == 200, "a request after a reload is answered from the old cache")
}

// CheckRequests: requests do not disturb one another.
func CheckRequests() {
	h.Config("c1", "")
	up := &h.Upstream{Text: "{}"}
	s := h.Store()
	put(s, "c1", "n", "a", "1")
	srv := h.NewServer(up.Clients("c1"), s)
	urls := []string{"/api/v1/pods", "/api/v1/namespaces/n/pods/a", "/api/v1/x", "/api/v1/x?watch=true", "/custom/v1/namespaces/n/deployments/d/services"}
	one := func(u string) func() {
		return func() {
			q := ""
			if u == "/api/v1/x?watch=true" {
				u, q = "/api/v1/x", "watch=true"
			}
			w := srv.Serve(h.URLRequest("GET", u, q, ""))
			rt.Assert("answered", w.Status == 200, "a request fails because of another")
		}
	}
	together(rt.Bound("request_switches", 1, 1), one(urls[rt.Choice("first", 5)]), one(urls[rt.Choice("second", 5)]))
}

// CheckWatches: the watches of a configuration and those of the next do not
// disturb one another, nor requests.
func CheckWatches() {
	g := store.GroupVersionResource{Group: "g.io", Version: "v1", Resource: "foos"}
	g2 := store.GroupVersionResource{Group: "g.io", Version: "v1", Resource: "bars"}
	common.InitConfig(&common.Config{DefaultCluster: "c1", Proxies: []common.Proxy{
		{Version: "v1", Resource: "pods", ListKind: "PodList"},
		{Group: "g.io", Version: "v1", Resource: "foos", ListKind: "FooList"}, {Group: "g.io", Version: "v1", Resource: "bars", ListKind: "BarList"}}})
	s := memory.NewMemoryStore(map[store.GroupVersionResource]map[string]string{h.Pods: h.BasicIndex(), g: h.BasicIndex(), g2: h.BasicIndex()})
	srv := &h.Events{Texts: map[string]string{
		"/api/v1/pods":       `{"type":"ADDED","object":{"kind":"Pod","apiVersion":"v1","metadata":{"name":"a","namespace":"n"}}}` + "\n",
		"/apis/g.io/v1/foos": `{"type":"BOOKMARK","object":{"kind":"Foo","apiVersion":"g.io/v1","metadata":{"name":"a","namespace":"n"}}}` + "\n",
	}}
	cs := map[string]rest.Config{"c1": {Host: "http://c1", Transport: srv}}
	kinds := []store.GroupVersionResource{h.Pods}
	if rt.Bool("unknown") {
		kinds = []store.GroupVersionResource{g, h.Pods}
	}
	rt.RaceStart()
	w1 := watcher.NewWatcher(cs, kinds, s)
	_ = w1.Start()
	if rt.Bool("gap") {
		rt.Advance(20 * time.Millisecond)
	}
	w2 := watcher.NewWatcher(cs, []store.GroupVersionResource{g2}, s)
	_ = w2.Start()
	rt.Advance(50 * time.Millisecond)
	_ = w1.Stop()
	_ = w2.Stop()
	rt.Advance(20 * time.Millisecond)
	rt.Assert("race", rt.Races() == 0, "unordered accesses to shared memory")
	rt.Assert("there", s.Get(h.Pods, "c1", "n", "a") != nil, "an added object is not in the cache")
}
