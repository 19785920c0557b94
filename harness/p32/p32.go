package p32

import (
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"strconv"

	dto "github.com/prometheus/client_model/go"

	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/store/memory"
	"github.com/DaoCloud/ckube/utils/prommonitor"
	h "github.com/DaoCloud/ckube/zzverif/hlib"
	_ "github.com/DaoCloud/ckube/zzverif/model"
	rt "github.com/DaoCloud/ckube/zzverif/verifrt"
)

var nodes = store.GroupVersionResource{Group: "", Version: "v1", Resource: "nodes"}

// metric is the metric of the resources of a kind.
func metric(g store.GroupVersionResource, cluster, ns string) int {
	var m dto.Metric
	if err := prommonitor.Resources.WithLabelValues(cluster, g.Group, g.Version, g.Resource, ns).Write(&m); err != nil {
		return -1
	}
	return int(*m.Gauge.Value)
}

// CheckCount: the metrics show what is cached, after any history.
func CheckCount() {
	s := memory.NewMemoryStore(map[store.GroupVersionResource]map[string]string{h.Pods: h.BasicIndex(), nodes: h.BasicIndex()})
	clusters := []string{"c" + rt.Str("cluster1", 1, rt.LowerNum), "d" + rt.Str("cluster2", 1, rt.LowerNum)}
	spaces := []string{"n" + rt.Str("space1", 1, rt.LowerNum), "n" + rt.Str("space2", 1, rt.LowerNum)}
	names := []string{"a", "b"}
	type key struct {
		kind, cluster, space, name int
	}
	have := map[key]bool{}
	if spaces[0] == spaces[1] {
		spaces = spaces[:1]
	}
	n := rt.Bound("events", 3, 4)
	for i := 0; i < n; i++ {
		k := key{cluster: rt.Choice("cluster", 2)}
		g := h.Pods
		op := rt.Choice("op", 4)
		if rt.Bool("node") {
			k.kind, g = 1, nodes
		}
		c := clusters[k.cluster]
		if op == 3 {
			_ = s.Clean(g, c)
			for o := range have {
				if o.kind == k.kind && o.cluster == k.cluster {
					delete(have, o)
				}
			}
			continue
		}
		k.name = rt.Choice("name", 2)
		var o interface{} = &corev1.Node{ObjectMeta: metav1.ObjectMeta{Name: names[k.name]}}
		if k.kind == 0 {
			k.space = rt.Choice("space", len(spaces))
			o = h.Pod(spaces[k.space], names[k.name])
		}
		switch op {
		case 0:
			_ = s.OnResourceAdded(g, c, o)
			have[k] = true
		case 1:
			_ = s.OnResourceModified(g, c, o)
			have[k] = true
		case 2:
			_ = s.OnResourceDeleted(g, c, o)
			delete(have, k)
		}
	}
	count := map[key]int{}
	for k := range have {
		k.name = 0
		count[k]++
	}
	for c := range clusters {
		for n := range spaces {
			rt.Assert("pods", metric(h.Pods, clusters[c], spaces[n]) == count[key{0, c, n, 0}], "the metric of the resources of a namespace does not show how many are cached")
		}
		rt.Assert("nodes", metric(nodes, clusters[c], "") == count[key{1, c, 0, 0}], "the metric of the resources without namespace does not show how many are cached")
		rt.Assert("absent", metric(h.Pods, clusters[c], "") == 0 && metric(nodes, clusters[c], spaces[0]) == 0, "a metric shows resources of a kind where there are none")
	}
}

// CheckMany: the metrics of many resources, in many namespaces and clusters.
func CheckMany() {
	s := memory.NewMemoryStore(map[store.GroupVersionResource]map[string]string{h.Pods: h.BasicIndex(), nodes: h.BasicIndex()})
	n := []int{5, 20, 70}[rt.Choice("n", rt.Bound("many", 2, 3))]
	x := rt.Str("cluster", 1, rt.LowerNum)
	for c := 0; c < 3; c++ {
		for i := 0; i < n; i++ {
			_ = s.OnResourceAdded(h.Pods, x+strconv.Itoa(c), h.Pod("n"+strconv.Itoa(i%4), "p"+strconv.Itoa(i)))
			if i%2 == 0 {
				_ = s.OnResourceModified(h.Pods, x+strconv.Itoa(c), h.Pod("n"+strconv.Itoa(i%4), "p"+strconv.Itoa(i)))
			}
		}
	}
	gone := rt.Choice("deleted", n)
	_ = s.OnResourceDeleted(h.Pods, x+"1", h.Pod("n"+strconv.Itoa(gone%4), "p"+strconv.Itoa(gone)))
	clean := rt.Bool("clean")
	if clean {
		_ = s.Clean(h.Pods, x+"0")
	}
	for c := 0; c < 3; c++ {
		for k := 0; k < 4; k++ {
			want := (n - k + 3) / 4
			if c == 1 && gone%4 == k {
				want--
			}
			if c == 0 && clean {
				want = 0
			}
			rt.Assert("many", metric(h.Pods, x+strconv.Itoa(c), "n"+strconv.Itoa(k)) == want, "the metric of many resources does not show how many are cached")
		}
	}
}
