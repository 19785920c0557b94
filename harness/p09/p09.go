package p09

import (
	"encoding/json"
	"strconv"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/store/memory"
	h "github.com/DaoCloud/ckube/zzverif/hlib"
	rt "github.com/DaoCloud/ckube/zzverif/verifrt"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
)

const (
	clusterAnno = "ckube.doacloud.io/cluster"
	indexAnno   = "ckube.daocloud.io/indexes"
)

func newStore() store.Store {
	return memory.NewMemoryStore(map[store.GroupVersionResource]map[string]string{
		h.Pods: {
			"namespace": "{.metadata.namespace}", "name": "{.metadata.name}",
			"node": "{.spec.nodeName}", "app": "{.metadata.labels.app}", "fixed": "some text",
			"both": "{.metadata.labels.app}-{.spec.nodeName}", "absent": "{.spec.noSuchField}",
		},
	})
}

func put(s store.Store, how int, cluster string, p *corev1.Pod) {
	if how == 0 {
		_ = s.OnResourceAdded(h.Pods, cluster, p)
	} else {
		_ = s.OnResourceModified(h.Pods, cluster, p)
	}
}

// CheckIndex: the index of a resource holds the configured fields of its
// current state, its cluster and its name.
func CheckIndex() {
	s := newStore()
	v := rt.StrUpTo("node", rt.Bound("value_len", 2, 3), rt.Printable)
	app := rt.StrUpTo("app", rt.Bound("value_len", 2, 3), rt.LowerNum)
	cluster := rt.Str("cluster", 1, "ab")
	p := h.Pod("ns", "p")
	p.Spec.NodeName = v
	hasApp := rt.Bool("has-app")
	if hasApp {
		p.Labels = map[string]string{"app": app}
	} else {
		app = ""
	}
	hasAnno := rt.Choice("annotations", 3)
	switch hasAnno {
	case 1:
		p.Annotations = map[string]string{"mine": v}
	case 2:
		p.Annotations = map[string]string{clusterAnno: "forged", indexAnno: "{}"}
	}
	deleted := rt.Bool("deleted")
	if deleted {
		p.DeletionTimestamp = &metav1.Time{}
	}
	put(s, rt.Choice("how", 2), cluster, p)
	got, ok := s.Get(h.Pods, cluster, "ns", "p").(*corev1.Pod)
	rt.Assert("cached", ok && got.Name == "p" && got.Namespace == "ns" && got.Spec.NodeName == v && got.Labels["app"] == app, "a cached resource is not what was reported")
	if !ok {
		return
	}
	rt.Assert("cluster", got.Annotations[clusterAnno] == cluster, "a cached resource is not marked with its cluster")
	if hasAnno == 1 {
		rt.Assert("mine", got.Annotations["mine"] == v, "an annotation of the resource is lost")
	}
	idx := map[string]string{}
	err := json.Unmarshal([]byte(got.Annotations[indexAnno]), &idx)
	rt.Observe("index", got.Annotations[indexAnno])
	del := "false"
	if deleted {
		del = "true"
	}
	want := map[string]string{"cluster": cluster, "namespace": "ns", "name": "p", "node": v, "app": app, "fixed": "some text",
		"both": app + "-" + v, "absent": "", "is_deleted": del}
	same := err == nil && len(idx) == len(want)
	for k, x := range want {
		same = same && idx[k] == x
	}
	rt.Assert("index", same, "the index shown with a resource is not what its configuration says")
}

// CheckUpdate: searches go by the last state only.
func CheckUpdate() {
	s := newStore()
	a, b := rt.Str("old", 1, rt.LowerNum), rt.Str("new", 1, rt.LowerNum)
	for i, v := range []string{a, b} {
		p := h.Pod("ns", "p")
		p.Spec.NodeName = v
		p.Labels = map[string]string{"app": "x"}
		if i == 0 && rt.Bool("drop-label") {
			p.Labels["app"] = "gone"
		}
		put(s, rt.Choice("how", 2), "c", p)
	}
	q := rt.Str("find", 1, rt.LowerNum)
	r := s.Query(h.Pods, store.Query{Paginate: page.Paginate{Search: "node=\"" + q + "\";app=\"x\";both=\"x-" + q + "\""}})
	rt.Assert("search", r.Error == nil && (len(r.Items) == 1) == (q == b), "a search goes by another state than the last one")
	r = s.Query(h.Pods, store.Query{Paginate: page.Paginate{Search: "app=gone"}})
	rt.Assert("gone", len(r.Items) == 0, "a search finds a value that is gone")
}

// CheckTemplate: index fields may be templates.
func CheckTemplate() {
	s := memory.NewMemoryStore(map[store.GroupVersionResource]map[string]string{
		h.Pods: {"namespace": "{.metadata.namespace}", "name": "{.metadata.name}",
			"t": `{{.spec.nodeName}}/{{ default "none" .metadata.labels.app }}`,
			"u": `{{ join "-" .metadata.name "x" }}`},
	})
	v, app := rt.StrUpTo("node", 2, rt.LowerNum), rt.Str("app", 1, rt.LowerNum)
	p := h.Pod("ns", "p")
	p.Spec.NodeName = v
	p.Labels = map[string]string{"app": app}
	put(s, 0, "c", p)
	idx := map[string]string{}
	got := s.Get(h.Pods, "c", "ns", "p").(*corev1.Pod)
	err := json.Unmarshal([]byte(got.Annotations[indexAnno]), &idx)
	if v == "" {
		v = "<no value>"
	}
	rt.Observe("t", idx["t"])
	rt.Assert("template", err == nil && idx["t"] == v+"/"+app && idx["u"] == "p-x", "a template index field has another value")
}

// CheckNumbers: numbers and booleans are indexed as they are written.
func CheckNumbers() {
	s := memory.NewMemoryStore(map[store.GroupVersionResource]map[string]string{
		h.Pods: {"namespace": "{.metadata.namespace}", "name": "{.metadata.name}",
			"path": "{.spec.activeDeadlineSeconds}", "both": "{.spec.activeDeadlineSeconds}/{.metadata.generation}", "gen": "{.metadata.generation}",
			"tmpl": "{{.spec.activeDeadlineSeconds}}", "def": `{{ .metadata.generation | default "none" }}`, "quoted": "{{ quote .metadata.generation }}",
			"flag": "{.spec.hostNetwork}", "flagdef": `{{ .spec.hostNetwork | default "unset" }}`},
	})
	stem := []string{"", "-", "100000", "170000000", "900719925474099"}[rt.Choice("stem", 5)]
	text := stem + rt.Str("digit", 1, "123456789")
	n, err := strconv.ParseInt(text, 10, 64)
	rt.Assume(err == nil)
	p := h.Pod("ns", "p")
	p.Spec.ActiveDeadlineSeconds = &n
	p.Generation = n
	flag, flagdef := "", "unset"
	if rt.Bool("flag") {
		p.Spec.HostNetwork = true
		flag, flagdef = "true", "true"
	}
	put(s, rt.Choice("how", 2), "c", p)
	idx := map[string]string{}
	got := s.Get(h.Pods, "c", "ns", "p").(*corev1.Pod)
	e := json.Unmarshal([]byte(got.Annotations[indexAnno]), &idx)
	rt.Observe("index", got.Annotations[indexAnno])
	rt.Assert("paths", e == nil && idx["path"] == text && idx["gen"] == text && idx["both"] == text+"/"+text, "a number is indexed as something else")
	rt.Assert("templates", idx["tmpl"] == text && idx["def"] == text && idx["quoted"] == "\""+text+"\"", "a number in a template is indexed as something else")
	rt.Assert("flags", idx["flag"] == flag && idx["flagdef"] == flagdef, "a boolean is indexed as something else")
	r := s.Query(h.Pods, store.Query{Paginate: page.Paginate{Search: "path=\"" + text + "\";tmpl=\"" + text + "\"", Sort: "path!int"}})
	rt.Assert("found", r.Error == nil && len(r.Items) == 1, "a resource is not found by a number it holds")
}

// CheckOthers: an index field is evaluated on its own, whatever the other
// fields are and whatever happens to them.
func CheckOthers() {
	odd := []string{
		"{range .spec.nodeName[*]}{.x}{end}", "{range .spec.containers[*]}{.name},{end}", "{.spec.containers[5].name}", "{.spec.nodeName[*]}",
		"{.metadata.name", "{range .metadata.labels}{.app}{end}", "{{ .metadata.name", "{{ define \"x\" }}y{{ end }}", "{{ .metadata.name.first }}", "{{/* nothing */}}",
		"{.spec.containers[?(@.name>1)].image}",
	}
	conf := map[string]string{"namespace": "{.metadata.namespace}", "name": "{.metadata.name}", "node": "{.spec.nodeName}", "app": "{{.metadata.labels.app}}"}
	conf["odd"] = odd[rt.Choice("odd", len(odd))]
	s := memory.NewMemoryStore(map[store.GroupVersionResource]map[string]string{h.Pods: conf})
	node, app := rt.Str("node", 1, rt.LowerNum), rt.Str("app", 1, rt.LowerNum)
	p := h.Pod("ns", "p")
	p.Labels = map[string]string{"app": app}
	p.Spec.NodeName = node
	if rt.Bool("containers") {
		p.Spec.Containers = []corev1.Container{{Name: "c1", Image: "i"}, {Name: "c2"}}
	}
	rt.MapOrder(true)
	put(s, rt.Choice("how", 2), "c", p)
	rt.MapOrder(false)
	idx := map[string]string{}
	got, ok := s.Get(h.Pods, "c", "ns", "p").(*corev1.Pod)
	rt.Assert("cached", ok, "a resource is lost because an index field can not be evaluated")
	if !ok {
		return
	}
	err := json.Unmarshal([]byte(got.Annotations[indexAnno]), &idx)
	rt.Assert("others", err == nil && idx["node"] == node && idx["app"] == app && idx["name"] == "p" && idx["namespace"] == "ns", "an index field has another value because of another field")
	if o := conf["odd"]; o == odd[7] || o == odd[9] {
		rt.Assert("own", idx["odd"] == "", "an index field has the value of another one")
	}
	r := s.Query(h.Pods, store.Query{Paginate: page.Paginate{Search: "node=\"" + node + "\";app=\"" + app + "\""}})
	rt.Assert("found", r.Error == nil && len(r.Items) == 1, "a resource is not found by a value it holds")
}

// CheckLarge: long field values, many labels, long names.
func CheckLarge() {
	idx := map[string]string{"namespace": "{.metadata.namespace}", "name": "{.metadata.name}", "node": "{.spec.nodeName}", "labels": "{.metadata.labels}", "owner": "{.metadata.ownerReferences[*].name}"}
	n := []int{1, 9, 17, 33}[rt.Choice("fields", rt.Bound("fields", 3, 4))]
	for i := 0; i < n; i++ {
		idx["l"+strconv.Itoa(i)] = "{.metadata.labels.l" + strconv.Itoa(i) + "}"
	}
	s := memory.NewMemoryStore(map[store.GroupVersionResource]map[string]string{h.Pods: idx})
	v := h.Long("node", h.Size("size", 12), rt.LowerNum)
	name, ns := h.Filler(253), h.Filler(63)
	p := h.Pod(ns, name)
	p.Spec.NodeName = v
	p.Labels = map[string]string{}
	owners := ""
	for i := 0; i < n; i++ {
		p.Labels["l"+strconv.Itoa(i)] = h.Filler(i + 20)
		p.OwnerReferences = append(p.OwnerReferences, metav1.OwnerReference{Name: "o" + strconv.Itoa(i)})
		if i > 0 {
			owners += " "
		}
		owners += "o" + strconv.Itoa(i)
	}
	put(s, rt.Choice("how", 2), "c", p)
	for _, q := range []string{"node=\"" + v + "\"", "name=\"" + name + "\"", "namespace=\"" + ns + "\"", "owner=\"" + owners + "\"", "l" + strconv.Itoa(n-1) + "=\"" + h.Filler(n+19) + "\"", "labels=" + h.Filler(n+19)} {
		r := s.Query(h.Pods, store.Query{Paginate: page.Paginate{Search: q}})
		rt.Assert("large", r.Error == nil && len(r.Items) == 1, "a resource is not found by a long value of a field, or by one of many fields")
	}
	got, _ := s.Get(h.Pods, "c", ns, name).(*corev1.Pod)
	shown := map[string]string{}
	rt.Assert("shown", got != nil && json.Unmarshal([]byte(got.Annotations[indexAnno]), &shown) == nil && len(shown) == len(idx)+2 && shown["node"] == v && shown["owner"] == owners, "the index shown with a resource is cut")
}
