package p24

import (
	"encoding/json"
	"strconv"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/store/memory"
	h "github.com/DaoCloud/ckube/zzverif/hlib"
	rt "github.com/DaoCloud/ckube/zzverif/verifrt"
)

const kubectl = "application/json;as=Table;v=v1;g=meta.k8s.io,application/json;as=Table;v=v1beta1;g=meta.k8s.io,application/json"

var kinds = []struct {
	g    store.GroupVersionResource
	path string
	vars map[string]string
}{
	{h.Pods, "/api/v1/pods", map[string]string{"version": "v1", "resourceType": "pods"}},
	{store.GroupVersionResource{Version: "v1", Resource: "nodes"}, "/api/v1/nodes", map[string]string{"version": "v1", "resourceType": "nodes"}},
}

// both lists one query as JSON and as a table.
func both(s store.Store, kind int, query string, orders bool) (l h.List, res interface{}, w *h.Writer) {
	k := kinds[kind]
	res, w = h.Call(s, nil, h.Request("GET", k.path, query, k.vars, ""))
	l = h.AsList(res, w)
	r := h.Request("GET", k.path, query, k.vars, "")
	r.Header.Set([]string{"Accept", "accept"}[rt.Choice("header", 2)], kubectl)
	rt.MapOrder(orders)
	res, w = h.Call(s, nil, r)
	rt.MapOrder(false)
	return
}

// table is the table a client reads.
func table(res interface{}, w *h.Writer) (t metav1.Table, ok bool) {
	if h.Failure(res) {
		return t, false
	}
	b, err := json.Marshal(res)
	if err != nil {
		return t, false
	}
	err = json.Unmarshal(b, &t)
	return t, err == nil && t.Kind == "Table" && t.APIVersion == "meta.k8s.io/v1" && h.Code(res, w) == 200
}

func cell(t metav1.Table, row int, col string) (string, int) {
	n := 0
	v := ""
	for i, c := range t.ColumnDefinitions {
		if c.Name == col && i < len(t.Rows[row].Cells) {
			n++
			v, _ = t.Rows[row].Cells[i].(string)
		}
	}
	return v, n
}

// CheckRows: a table has one row for every resource of the list, in its order,
// with the resource's own values under every column.
func CheckRows() { rows(1+rt.Choice("resources", rt.Bound("resources", 2, 3)), false) }

// CheckOrders: the same in every order maps may be walked in.
func CheckOrders() { rows(1+rt.Choice("resources", rt.Bound("resources_orders", 1, 2)), true) }

func rows(n int, orders bool) {
	h.Config("c1", "")
	kind := rt.Choice("kind", 2)
	conf := map[string]string{"name": "{.metadata.name}", "color": "{.metadata.labels.color}", "created_at": "{.metadata.creationTimestamp}", "a": "{{.metadata.name}}"}
	if kind == 0 {
		conf["namespace"] = "{.metadata.namespace}"
	}
	s := memory.NewMemoryStore(map[store.GroupVersionResource]map[string]string{kinds[kind].g: conf})
	colors := map[string]string{}
	deleted := map[string]string{}
	for i := 0; i < n; i++ {
		name := string([]byte{byte('p' + i)})
		ns := "n"
		if kind == 1 {
			ns = ""
		}
		p := h.Pod(ns, name)
		c := rt.Str("color", 1, rt.Printable)
		switch rt.Choice("labels", 2) {
		case 0:
			p.Labels = map[string]string{"color": c}
		case 1:
			c = ""
		}
		cl := []string{"c1", "c2"}[rt.Choice("cluster", 2)]
		colors[cl+"/"+ns+"/"+name] = c
		deleted[cl+"/"+ns+"/"+name] = "false"
		if !orders && rt.Bool("terminating") {
			p.DeletionTimestamp = &metav1.Time{Time: time.Unix(1700000000, 0)}
			deleted[cl+"/"+ns+"/"+name] = "true"
		}
		_ = s.OnResourceAdded(kinds[kind].g, cl, p)
	}
	p := page.Paginate{Sort: []string{"name", "name desc", "color,name"}[rt.Choice("sort", 3)]}
	if rt.Bool("both clusters") {
		_ = p.Clusters([]string{"c1", "c2"})
	}
	if rt.Bool("paged") {
		p.Page, p.PageSize = 1, 2
	}
	l, res, w := both(s, kind, h.ListQuery(p, ""), orders)
	t, ok := table(res, w)
	rt.Assert("table", ok && l.OK, "a table is asked for and something else is answered")
	if !ok || !l.OK {
		return
	}
	rt.Assert("rows", len(t.Rows) == len(l.Items), "a table has not one row for every resource")
	if len(t.Rows) != len(l.Items) {
		return
	}
	names := h.Names(l.Items)
	for i := range t.Rows {
		rt.Assert("width", len(t.Rows[i].Cells) == len(t.ColumnDefinitions), "a row has not one cell for every column")
		cl, n1 := cell(t, i, "cluster")
		name, n2 := cell(t, i, "name")
		ns, n3 := cell(t, i, "namespace")
		color, n4 := cell(t, i, "color")
		a, n5 := cell(t, i, "a")
		_, n6 := cell(t, i, "created_at")
		del, n7 := cell(t, i, "is_deleted")
		want3 := 1
		if kind == 1 {
			want3 = 0
		}
		rt.Assert("columns", n1 == 1 && n2 == 1 && n3 == want3 && n4 == 1 && n5 == 1 && n6 == 1 && n7 == 1, "an index field has not one column")
		rt.Assert("same", cl+"/"+ns+"/"+name == names[i] && a == name && color == colors[names[i]] && del == deleted[names[i]], "a row shows values of another resource")
	}
	// the name of a resource comes before its other fields
	if len(t.Rows) > 0 {
		lead := []string{"cluster", "namespace", "name"}
		if kind == 1 {
			lead = []string{"cluster", "name"}
		}
		for i, c := range lead {
			rt.Assert("lead", t.ColumnDefinitions[i].Name == c, "a table does not lead with cluster, namespace and name")
		}
	}
}

// CheckFailure: what is no legal list is no table either.
func CheckFailure() {
	h.Config("c1", "")
	s := h.SortStore()
	_ = s.OnResourceAdded(h.Pods, "c1", h.Labelled("n", "p", "x", "y"))
	p := page.Paginate{Page: rt.Int64In("page", -2, 3), PageSize: rt.Int64In("size", -2, 3), Sort: []string{"", "nokey", "k!int"}[rt.Choice("sort", 3)]}
	rt.Assume(p.Page != 0 || p.PageSize != 0 || p.Sort != "")
	l, res, w := both(s, 0, h.ListQuery(p, []string{"", "k=x"}[rt.Choice("selector", 2)]), false)
	_, ok := table(res, w)
	rt.Assert("failure", ok == l.OK && (ok || h.Code(res, w) == l.Code), "a list that fails is answered as a table")
}

// CheckLarge: many resources, many columns, long values.
func CheckLarge() {
	h.Config("c1", "")
	n := []int{5, 21, 70}[rt.Choice("resources", rt.Bound("many", 2, 3))]
	k := []int{1, 9, 20}[rt.Choice("columns", 3)]
	conf := map[string]string{"name": "{.metadata.name}", "namespace": "{.metadata.namespace}"}
	for i := 0; i < k; i++ {
		conf["l"+strconv.Itoa(i)] = "{.metadata.labels.l" + strconv.Itoa(i) + "}"
	}
	s := memory.NewMemoryStore(map[store.GroupVersionResource]map[string]string{h.Pods: conf})
	v := h.Long("value", h.Size("size", 8), rt.LowerNum)
	at := []int{0, n / 2, n - 1}[rt.Choice("at", 3)]
	value := func(i, j int) string {
		if i == at && j == k-1 {
			return v
		}
		return "v" + strconv.Itoa(i) + "x" + strconv.Itoa(j)
	}
	for i := 0; i < n; i++ {
		p := h.Pod("n", "p"+strconv.Itoa(100+i))
		p.Labels = map[string]string{}
		for j := 0; j < k; j++ {
			p.Labels["l"+strconv.Itoa(j)] = value(i, j)
		}
		_ = s.OnResourceAdded(h.Pods, "c1", p)
	}
	l, res, w := both(s, 0, h.ListQuery(page.Paginate{Sort: "name"}, ""), false)
	t, ok := table(res, w)
	rt.Assert("table", ok && l.OK && len(t.Rows) == n && len(l.Items) == n, "a long list is no table")
	rt.Assert("columns", len(t.ColumnDefinitions) == k+4, "a table has not one column for every index field")
	same := true
	for i := range t.Rows {
		name, _ := cell(t, i, "name")
		same = same && name == "p"+strconv.Itoa(100+i) && len(t.Rows[i].Cells) == k+4
		for j := 0; j < k; j++ {
			c, m := cell(t, i, "l"+strconv.Itoa(j))
			same = same && m == 1 && c == value(i, j)
		}
	}
	rt.Assert("large", same, "a large table shows other values than the resources have")
}
