package p13

import (
	"encoding/json"
	"net/url"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/page"
	h "github.com/DaoCloud/ckube/zzverif/hlib"
	rt "github.com/DaoCloud/ckube/zzverif/verifrt"
)

const names = rt.LowerNum + "ABC-_./:@ ,;=&%+\"\\<>"

func vars(res, name string) map[string]string {
	m := map[string]string{"version": "v1", "namespace": "ns", "resourceType": res}
	if name != "" {
		m["resource"] = name
	}
	return m
}

// CheckGetCached: a get of a cached kind returns the object of the named cluster.
func CheckGetCached() {
	c := rt.Str("cluster", 1+rt.Choice("more", rt.Bound("name_len", 3, 4)), names)
	rt.Assume(c != "dft" && c != "zz")
	h.Config("dft", "")
	s := h.Store()
	in, out := h.Pod("ns", "p"), h.Pod("ns", "p")
	_ = s.OnResourceAdded(h.Pods, "dft", out)
	_ = s.OnResourceAdded(h.Pods, "zz", h.Pod("ns", "p"))
	has := rt.Bool("has")
	if has {
		_ = s.OnResourceAdded(h.Pods, c, in)
	}
	q := url.Values{}
	named := rt.Bool("named")
	if named {
		o, err := page.QueryGetOptions(metav1.GetOptions{}, c)
		rt.Assert("encodes", err == nil, "a get can not be sent to a cluster")
		q.Set("resourceVersion", o.ResourceVersion)
	}
	up := &h.Upstream{}
	res, w := h.Call(s, up.Clients("dft", c), h.Request("GET", "/api/v1/namespaces/ns/pods/p", q.Encode(), vars("pods", "p"), ""))
	rt.Assert("local", len(up.Log) == 0, "a get of a cached kind is forwarded")
	switch {
	case !named:
		rt.Assert("default", res == interface{}(out) && h.Code(res, w) == 200, "a get does not return the object of the default cluster")
	case has:
		rt.Assert("named", res == interface{}(in) && h.Code(res, w) == 200, "a get does not return the object of the named cluster")
	default:
		rt.Assert("missing", h.Failure(res) && h.Code(res, w) == 404, "a get of a missing object is no 404")
	}
	_, err := page.QueryGetOptions(metav1.GetOptions{ResourceVersion: "1"}, c)
	rt.Assert("taken", err != nil, "a resource version is overwritten")
}

// CheckForward: every operation on a single object reaches the named cluster
// without the marker and with the other options.
func CheckForward() {
	c := rt.Str("cluster", 1+rt.Choice("more", rt.Bound("name_len", 3, 4)), names)
	rt.Assume(c != "dft" && c != "zz")
	h.Config("dft", "")
	up := &h.Upstream{Text: "{}"}
	q := url.Values{}
	res, path, name, body := "nodes", "/api/v1/namespaces/ns/nodes", "", `{"metadata":{"name":"x"}}`
	if rt.Bool("cachedkind") {
		res, path = "pods", "/api/v1/namespaces/ns/pods"
	}
	extra := rt.Bool("extra")
	var m string
	var err, taken error
	switch rt.Choice("op", 5) {
	case 0:
		m, body = "GET", ""
		res, path, name = "nodes", "/api/v1/namespaces/ns/nodes/x", "x"
		var o metav1.GetOptions
		o, err = page.QueryGetOptions(metav1.GetOptions{}, c)
		q.Set("resourceVersion", o.ResourceVersion)
		_, taken = page.QueryGetOptions(metav1.GetOptions{ResourceVersion: "1"}, c)
	case 1:
		m = "POST"
		in := metav1.CreateOptions{}
		if extra {
			in.DryRun = []string{"All"}
		}
		var o metav1.CreateOptions
		o, err = page.QueryCreateOptions(in, c)
		q.Set("fieldManager", o.FieldManager)
		rt.Assert("dryrun", extra == (len(o.DryRun) == 1), "other options are changed")
		_, taken = page.QueryCreateOptions(metav1.CreateOptions{FieldManager: "me"}, c)
	case 2:
		m, name, path = "PUT", "x", path+"/x"
		in := metav1.UpdateOptions{}
		if extra {
			in.DryRun = []string{"All"}
		}
		var o metav1.UpdateOptions
		o, err = page.QueryUpdateOptions(in, c)
		q.Set("fieldManager", o.FieldManager)
		rt.Assert("dryrun", extra == (len(o.DryRun) == 1), "other options are changed")
		_, taken = page.QueryUpdateOptions(metav1.UpdateOptions{FieldManager: "me"}, c)
	case 3:
		m, name, path = "PATCH", "x", path+"/x"
		force := true
		in := metav1.PatchOptions{Force: &force}
		if extra {
			in.DryRun = []string{"All"}
		}
		var o metav1.PatchOptions
		o, err = page.QueryPatchOptions(in, c)
		q.Set("fieldManager", o.FieldManager)
		rt.Assert("dryrun", extra == (len(o.DryRun) == 1) && o.Force == &force, "other options are changed")
		_, taken = page.QueryPatchOptions(metav1.PatchOptions{FieldManager: "me"}, c)
	case 4:
		m, name, path = "DELETE", "x", path+"/x"
		grace, prop, uid := int64(7), metav1.DeletePropagationForeground, "u"
		in := metav1.DeleteOptions{}
		if extra {
			in.GracePeriodSeconds = &grace
			in.PropagationPolicy = &prop
			in.Preconditions = metav1.NewUIDPreconditions(uid)
		}
		var o metav1.DeleteOptions
		o, err = page.QueryDeleteOptions(in, c)
		bs, _ := json.Marshal(o)
		body = string(bs)
		_, taken = page.QueryDeleteOptions(metav1.DeleteOptions{DryRun: []string{"All"}}, c)
	}
	rt.Assert("encodes", err == nil, "an operation can not be sent to a cluster")
	rt.Assert("taken", taken != nil, "an option of the caller is overwritten")
	if extra && m != "DELETE" && m != "GET" {
		q.Set("dryRun", "All")
	}
	out, w := h.Call(h.Store(), up.Clients("dft", c, "zz"), h.Chunked(h.Request(m, path, q.Encode(), vars(res, name), body), body))
	rt.Assert("once", len(up.Log) == 1, "an operation is not forwarded exactly once")
	if len(up.Log) != 1 {
		return
	}
	s := up.Log[0]
	rt.Assert("cluster", s.Cluster == c, "an operation reaches another cluster than the named one")
	rt.Assert("same", s.Method == m && s.Path == path, "an operation is changed")
	b, ok := h.Answer(out, w)
	rt.Assert("answer", ok && b == "{}" && h.Code(out, w) == 200, "the answer is not relayed")
	got, err := url.ParseQuery(s.Query)
	rt.Assert("query", err == nil, "an operation is forwarded with a broken query")
	rt.Assert("marker", !got.Has("fieldManager") && !got.Has("resourceVersion"), "a cluster marker is forwarded")
	if m == "DELETE" {
		o := metav1.DeleteOptions{}
		rt.Assert("options", json.Unmarshal([]byte(s.Body), &o) == nil, "delete options are broken")
		rt.Assert("nodry", len(o.DryRun) == 0, "a cluster marker is forwarded")
		if extra {
			rt.Assert("kept", o.GracePeriodSeconds != nil && *o.GracePeriodSeconds == 7 && o.PropagationPolicy != nil && *o.PropagationPolicy == metav1.DeletePropagationForeground &&
				o.Preconditions != nil && o.Preconditions.UID != nil && *o.Preconditions.UID == "u", "delete options are lost")
		} else {
			rt.Assert("none", o.GracePeriodSeconds == nil && o.PropagationPolicy == nil && o.Preconditions == nil, "delete options appear")
		}
	} else {
		rt.Assert("body", s.Body == body, "the body of an operation is changed")
		rt.Assert("dry", (got.Get("dryRun") == "All") == (extra && m != "GET"), "other options are lost")
	}
}

// CheckDryRun: a delete that is a dry run stays one, on the default cluster
// and on a named one.
func CheckDryRun() {
	h.Config("dft", "")
	up := &h.Upstream{Text: "{}"}
	o := metav1.DeleteOptions{}
	c := "dft"
	if rt.Bool("named") {
		c = rt.Str("cluster", 1, rt.LowerNum)
		o.DryRun = append(o.DryRun, "dsm-cluster-"+c)
	}
	dry := rt.Bool("dry")
	if dry {
		o.DryRun = append(o.DryRun, "All")
	}
	g := rt.Int64In("grace", 0, 9)
	o.GracePeriodSeconds = &g
	bs, _ := json.Marshal(o)
	_, _ = h.Call(h.Store(), up.Clients("dft", c), h.Chunked(h.Request("DELETE", "/api/v1/namespaces/ns/pods/x", "", vars("pods", "x"), string(bs)), string(bs)))
	rt.Assert("once", len(up.Log) == 1, "an operation is not forwarded exactly once")
	if len(up.Log) != 1 {
		return
	}
	got := metav1.DeleteOptions{}
	rt.Assert("options", json.Unmarshal([]byte(up.Log[0].Body), &got) == nil, "delete options are broken")
	rt.Assert("cluster", up.Log[0].Cluster == c, "an operation reaches another cluster than the named one")
	rt.Assert("dry", dry == (len(got.DryRun) == 1 && got.DryRun[0] == "All") && (dry || len(got.DryRun) == 0), "a dry run becomes a real delete")
	rt.Assert("grace", got.GracePeriodSeconds != nil && *got.GracePeriodSeconds == g, "delete options are lost")
}

// CheckLarge: clusters with long names, of which others differ in one place only.
func CheckLarge() {
	n := []int{16, 31, 63, 64, 100, 116, 117, 128, 253}[rt.Choice("length", 9)]
	c := h.Long("cluster", n, rt.LowerNum)
	a, b := h.Filler(n), h.Filler(n-1)
	h.Config("dft", "")
	up := &h.Upstream{Text: "{}"}
	q := url.Values{}
	var m, path, body string
	path = "/api/v1/nodes/x"
	switch rt.Choice("op", 3) {
	case 0:
		m = "GET"
		o, err := page.QueryGetOptions(metav1.GetOptions{}, c)
		rt.Assert("encodes", err == nil, "an operation can not be sent to a cluster")
		q.Set("resourceVersion", o.ResourceVersion)
	case 1:
		m, body = "PUT", "{}"
		o, err := page.QueryUpdateOptions(metav1.UpdateOptions{}, c)
		rt.Assert("encodes", err == nil, "an operation can not be sent to a cluster")
		q.Set("fieldManager", o.FieldManager)
	case 2:
		m = "DELETE"
		o, err := page.QueryDeleteOptions(metav1.DeleteOptions{}, c)
		rt.Assert("encodes", err == nil, "an operation can not be sent to a cluster")
		bs, _ := json.Marshal(o)
		body = string(bs)
	}
	_, _ = h.Call(h.Store(), up.Clients("dft", a, b, c), h.Chunked(h.Request(m, path, q.Encode(), vars("nodes", "x"), body), body))
	rt.Assert("large", len(up.Log) == 1 && up.Log[0].Cluster == c, "an operation reaches another cluster than the one with the long name")
}
