// Package hlib holds what several harnesses share.
package hlib

import (
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/store/memory"
)

var (
	Pods        = store.GroupVersionResource{Group: "", Version: "v1", Resource: "pods"}
	Services    = store.GroupVersionResource{Group: "", Version: "v1", Resource: "services"}
	Deployments = store.GroupVersionResource{Group: "apps", Version: "v1", Resource: "deployments"}
)

func BasicIndex() map[string]string {
	return map[string]string{"namespace": "{.metadata.namespace}", "name": "{.metadata.name}"}
}

// Store caches pods, services and deployments indexed by namespace and name.
func Store() store.Store {
	return memory.NewMemoryStore(map[store.GroupVersionResource]map[string]string{
		Pods: BasicIndex(), Services: BasicIndex(), Deployments: BasicIndex(),
	})
}

// Config installs a configuration with the given default cluster.
func Config(def, token string) {
	common.InitConfig(&common.Config{
		DefaultCluster: def,
		Token:          token,
		Proxies: []common.Proxy{
			{Group: "", Version: "v1", Resource: "pods", ListKind: "PodList", Index: BasicIndex()},
			{Group: "", Version: "v1", Resource: "services", ListKind: "ServiceList", Index: BasicIndex()},
			{Group: "apps", Version: "v1", Resource: "deployments", ListKind: "DeploymentList", Index: BasicIndex()},
		},
	})
}

func Pod(ns, name string) *corev1.Pod {
	return &corev1.Pod{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: name}}
}

// Name identifies a pod a query returned.
func Name(o interface{}) string {
	m := o.(metav1.Object)
	return m.GetAnnotations()["ckube.doacloud.io/cluster"] + "/" + m.GetNamespace() + "/" + m.GetName()
}

func Names(os []interface{}) []string {
	r := []string{}
	for _, o := range os {
		r = append(r, Name(o))
	}
	return r
}

func Same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// SortStore caches pods indexed by two labels besides namespace and name.
func SortStore() store.Store {
	return memory.NewMemoryStore(map[store.GroupVersionResource]map[string]string{
		Pods: {"namespace": "{.metadata.namespace}", "name": "{.metadata.name}", "k": "{.metadata.labels.k}", "j": "{.metadata.labels.j}"},
	})
}

// Labelled is a pod with the labels k and j.
func Labelled(ns, name, k, j string) *corev1.Pod {
	p := Pod(ns, name)
	p.Labels = map[string]string{"k": k, "j": j}
	return p
}
