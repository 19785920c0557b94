package p17

import (
	"encoding/json"
	"sort"
	"strconv"

	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/api"
	"github.com/DaoCloud/ckube/api/extend"
	"github.com/DaoCloud/ckube/watcher"
	h "github.com/DaoCloud/ckube/zzverif/hlib"
	rt "github.com/DaoCloud/ckube/zzverif/verifrt"
)

type labels = map[string]string

// pod is a pod of a deployment as Kubernetes makes it.
func pod(ns, dep, suffix string, l labels) *corev1.Pod {
	p := h.Pod(ns, dep+"-5d9c-"+suffix)
	p.Labels = l
	p.OwnerReferences = []metav1.OwnerReference{{APIVersion: "apps/v1", Kind: "ReplicaSet", Name: dep + "-5d9c"}}
	return p
}

// service is a service as the cache holds it, typed or not.
func service(ns, name string, sel labels, typed bool) interface{} {
	if typed {
		return &corev1.Service{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: name}, Spec: corev1.ServiceSpec{Selector: sel}}
	}
	spec := map[string]interface{}{"clusterIP": "1.2.3.4"}
	if sel != nil {
		m := map[string]interface{}{}
		for k, v := range sel {
			m[k] = v
		}
		spec["selector"] = m
	}
	return &watcher.ObjType{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: name}, Data: map[string]interface{}{"spec": spec}}
}

// ask gives the names of the services of a deployment.
func ask(r *api.ReqContext) []string {
	res := extend.Deploy2Service(r)
	b, err := json.Marshal(res)
	rt.Assert("json", err == nil, "the services can not be written")
	var l []corev1.Service
	rt.Assert("list", json.Unmarshal(b, &l) == nil, "the answer is no list of services")
	names := []string{}
	for _, s := range l {
		names = append(names, s.Annotations["ckube.doacloud.io/cluster"]+"/"+s.Namespace+"/"+s.Name)
	}
	sort.Strings(names)
	return names
}

func selector(i int) labels {
	switch rt.Choice("selector", 5) {
	case 0:
		return nil
	case 1:
		return labels{}
	case 2:
		return labels{"app": rt.Str("selapp", 1, "ab")}
	case 3:
		return labels{"app": rt.Str("selapp", 1, "ab"), "tier": rt.Str("seltier", 1, "xy")}
	}
	return labels{"other": "z"}
}

// selects is what Kubernetes does: a service without selector selects nothing.
func selects(sel, l labels) bool {
	if len(sel) == 0 {
		return false
	}
	for k, v := range sel {
		w, ok := l[k]
		if !ok || w != v {
			return false
		}
	}
	return true
}

// CheckSelector: the services of a deployment are those that select its pods.
func CheckSelector() {
	h.Config("c1", "")
	s := h.Store()
	l := labels{"app": rt.Str("app", 1, "ab"), "tier": rt.Str("tier", 1, "xy")}
	n := rt.Choice("pods", 3)
	for i := 0; i < n; i++ {
		_ = s.OnResourceAdded(h.Pods, "c1", pod("n", "web", string([]byte{byte('a' + i)}), l))
	}
	want := []string{}
	typed := rt.Bool("typed")
	for i := 0; i < rt.Bound("services", 2, 3); i++ {
		name := "s" + string([]byte{byte('0' + i)})
		sel := selector(i)
		_ = s.OnResourceAdded(h.Services, "c1", service("n", name, sel, typed))
		if n > 0 && selects(sel, l) {
			want = append(want, "c1/n/"+name)
		}
	}
	got := ask(&api.ReqContext{Store: s, Writer: h.NewWriter(), Request: h.Request("GET", "/x", "", labels{"namespace": "n", "deployment": "web"}, "")})
	rt.Assert("services", h.Same(got, want), "the services of a deployment are not those that select its pods")
	if len(want) > 0 {
		rt.Cover("selected")
	}
}

// CheckNames: pods of deployments whose names resemble the asked one do not count.
func CheckNames() {
	h.Config("c1", "")
	s := h.Store()
	dep := rt.Str("dep", 1+rt.Choice("deplen", rt.Bound("name_len", 2, 3)), "ab-")
	other := rt.Str("other", 1+rt.Choice("otherlen", rt.Bound("other_len", 3, 4)), "ab-")
	rt.Assume(dep[0] != '-' && dep[len(dep)-1] != '-' && other[0] != '-' && other[len(other)-1] != '-' && dep != other)
	_ = s.OnResourceAdded(h.Pods, "c1", pod("n", other, "p", labels{"app": "other"}))
	if rt.Bool("own") {
		_ = s.OnResourceAdded(h.Pods, "c1", pod("n", dep, "q", labels{"app": "own"}))
	}
	_ = s.OnResourceAdded(h.Services, "c1", service("n", "other", labels{"app": "other"}, true))
	_ = s.OnResourceAdded(h.Services, "c1", service("n", "own", labels{"app": "own"}, true))
	want := []string{}
	if s.Get(h.Pods, "c1", "n", dep+"-5d9c-q") != nil {
		want = []string{"c1/n/own"}
	}
	got := ask(&api.ReqContext{Store: s, Writer: h.NewWriter(), Request: h.Request("GET", "/x", "", labels{"namespace": "n", "deployment": dep}, "")})
	rt.Assert("own", h.Same(got, want), "the services of another deployment are answered")
}

// CheckPlace: pods and services of other clusters and namespaces do not count.
func CheckPlace() {
	def := []string{"c1", "kubernetes-admin@kubernetes", "c 1", "c1;x", "a/b"}[rt.Choice("default", 5)]
	h.Config(def, "")
	s := h.Store()
	vars := labels{"namespace": "n", "deployment": "web"}
	asked := def
	if rt.Bool("named") {
		asked = []string{"c2", "admin@c2"}[rt.Choice("name", 2)]
		vars["cluster"] = asked
	}
	want := []string{}
	pc, pn := []string{def, asked, "zz"}[rt.Choice("podcluster", 3)], []string{"n", "n2"}[rt.Choice("podns", 2)]
	_ = s.OnResourceAdded(h.Pods, pc, pod(pn, "web", "p", labels{"app": "a"}))
	for _, c := range []string{def, asked, "zz"} {
		for _, ns := range []string{"n", "nn"} {
			_ = s.OnResourceAdded(h.Services, c, service(ns, "s", labels{"app": "a"}, true))
		}
	}
	if pc == asked && pn == "n" {
		want = []string{asked + "/n/s"}
		rt.Cover("found")
	}
	got := ask(&api.ReqContext{Store: s, Writer: h.NewWriter(), Request: h.Request("GET", "/x", "", vars, "")})
	rt.Assert("place", h.Same(got, want), "pods or services of another cluster or namespace count")
}

// CheckOwner: pods that belong to no deployment do not count.
func CheckOwner() {
	h.Config("c1", "")
	s := h.Store()
	p := pod("n", "web", "p", labels{"app": "a"})
	switch rt.Choice("owner", 4) {
	case 0:
		p.OwnerReferences = nil
	case 1:
		p.OwnerReferences[0].Kind = rt.Str("kind", 3, rt.Lower)
	case 2:
		p.OwnerReferences[0].Name = rt.Str("name", 2, rt.Lower)
	case 3:
		p.OwnerReferences[0].Kind = "DaemonSet"
	}
	_ = s.OnResourceAdded(h.Pods, "c1", p)
	_ = s.OnResourceAdded(h.Services, "c1", service("n", "s", labels{"app": "a"}, true))
	got := ask(&api.ReqContext{Store: s, Writer: h.NewWriter(), Request: h.Request("GET", "/x", "", labels{"namespace": "n", "deployment": "web"}, "")})
	rt.Assert("owner", len(got) == 0, "a pod of no deployment counts")
}

// CheckMany: many services, pods and deployments.
func CheckMany() {
	h.Config("c1", "")
	s := h.Store()
	n := []int{5, 12, 40}[rt.Choice("n", rt.Bound("many", 2, 3))]
	l := labels{"app": rt.Str("app", 1, "ab"), "tier": rt.Str("tier", 1, "xy")}
	for i := 0; i < n; i++ {
		_ = s.OnResourceAdded(h.Pods, "c1", pod("n", "web"+strconv.Itoa(i), "a", labels{"app": "c"}))
	}
	for i := 0; i < n; i++ {
		_ = s.OnResourceAdded(h.Pods, "c1", pod("n", "web", "p"+strconv.Itoa(i), l))
	}
	want := []string{}
	typed := rt.Bool("typed")
	for i := 0; i < n; i++ {
		name := "s" + strconv.Itoa(i)
		sel := labels{"app": string([]byte{"abc"[i%3]}), "tier": string([]byte{"xy"[i/3%2]})}
		_ = s.OnResourceAdded(h.Services, "c1", service("n", name, sel, typed))
		if selects(sel, l) {
			want = append(want, "c1/n/"+name)
		}
	}
	sort.Strings(want)
	got := ask(&api.ReqContext{Store: s, Writer: h.NewWriter(), Request: h.Request("GET", "/x", "", labels{"namespace": "n", "deployment": "web"}, "")})
	rt.Assert("many", h.Same(got, want), "of many services not those that select the pods of the deployment are found")
}
