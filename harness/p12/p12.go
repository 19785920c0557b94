package p12

import (
	"net/http"
	"net/url"
	"strconv"
	"strings"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/labels"

	"github.com/DaoCloud/ckube/page"
	h "github.com/DaoCloud/ckube/zzverif/hlib"
	rt "github.com/DaoCloud/ckube/zzverif/verifrt"
)

var methods = []string{"GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS"}

const answer = `{"kind":"Answer"}`

// forwarded asserts that r was sent once and unchanged to cluster, and
// answered with the answer of the cluster.
func forwarded(up *h.Upstream, res interface{}, w *h.Writer, cluster, method, path, body string) (url.Values, bool) {
	rt.Assert("once", len(up.Log) == 1, "a request is not forwarded exactly once")
	if len(up.Log) != 1 {
		return nil, false
	}
	s := up.Log[0]
	rt.Assert("cluster", s.Cluster == cluster, "a request is forwarded to another cluster")
	rt.Assert("method", s.Method == method, "a request is forwarded with another method")
	rt.Assert("path", s.Path == path, "a request is forwarded to another path")
	if method != "GET" {
		rt.Assert("body", s.Body == body, "a request is forwarded with another body")
	}
	b, ok := h.Answer(res, w)
	rt.Assert("answer", ok && b == up.Text && h.Code(res, w) == 200, "the answer of the cluster is not relayed")
	q, err := url.ParseQuery(s.Query)
	rt.Assert("query", err == nil, "a request is forwarded with a broken query")
	q.Del("timeout")
	return q, err == nil
}

func sameValues(a, b url.Values) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if !h.Same(v, b[k]) {
			return false
		}
	}
	return true
}

// vars are the route variables of a path, as the router finds them.
func vars(path string) map[string]string {
	p := strings.Split(strings.TrimPrefix(path, "/"), "/")
	if len(p) == 3 && p[0] == "api" {
		return map[string]string{"version": p[1], "resourceType": p[2]}
	}
	if len(p) == 4 && p[0] == "api" {
		return map[string]string{"version": p[1], "resourceType": p[2], "resource": p[3]}
	}
	return nil
}

// CheckPath: any method on any path goes to the default cluster.
func CheckPath() {
	def := []string{"c1", "c2"}[rt.Choice("default", 2)]
	h.Config(def, "")
	up := &h.Upstream{Text: answer}
	m := methods[rt.Choice("method", len(methods))]
	p := "/api/v1/" + rt.Str("seg", 1, rt.LowerNum) + rt.StrUpTo("path", rt.Bound("path_len", 2, 3), "abz09/.-_~:;@&=+$,()* %?#\"<>[]^`{|}\\\xc3\xa9!'")
	if rt.Bool("word") {
		p = []string{"/api/v1/namespaces/", "/apis/g/v1/foos/", "/"}[rt.Choice("before", 3)] + h.Words[rt.Choice("word", len(h.Words))] + []string{"", "/services", "/a/log"}[rt.Choice("after", 3)]
	}
	rt.Assume(!strings.Contains(p, "//"))
	body := []string{"", "text"}[rt.Choice("body", 2)]
	res, w := h.Call(h.Store(), up.Clients("c1", "c2"), h.Request(m, p, "", vars(p), body))
	q, ok := forwarded(up, res, w, def, m, p, body)
	if ok {
		rt.Assert("noquery", len(q) == 0, "a request is forwarded with a query it did not have")
	}
}

// CheckQuery: any query goes through, whatever the resource is.
func CheckQuery() {
	h.Config("c1", "")
	up := &h.Upstream{Text: answer}
	m := methods[rt.Choice("method", len(methods))]
	k := rt.Str("key", 1+rt.Choice("klen", 2), rt.LowerNum+"=&%+;/ -")
	v := rt.StrUpTo("value", rt.Bound("value_len", 2, 3), rt.ASCII)
	q := url.Values{}
	q.Add(k, v)
	if rt.Bool("again") {
		q.Add(k, "2")
	}
	if rt.Bool("another") {
		q.Add("fieldSelector", "a=b")
	}
	path := "/api/v1/pods"
	if rt.Bool("uncached") {
		path = "/api/v1/nodes"
	}
	res, w := h.Call(h.Store(), up.Clients("c1", "c2"), h.Request(m, path, q.Encode(), vars(path), ""))
	got, ok := forwarded(up, res, w, "c1", m, path, "")
	if ok {
		rt.Assert("same", sameValues(got, q), "a request is forwarded with another query")
	}
}

// CheckKnown: parameters ckube handles itself go through all the same.
func CheckKnown() {
	h.Config("c1", "")
	up := &h.Upstream{Text: answer}
	m := methods[rt.Choice("method", len(methods))]
	q := url.Values{}
	set := func(k string, vs ...string) {
		if i := rt.Choice(k, len(vs)+1); i > 0 {
			q.Set(k, vs[i-1])
		}
	}
	set("limit", "5")
	set("timeoutSeconds", "9")
	set("fieldManager", "kubectl", "dsm-cluster", "xdsm-cluster-c2")
	set("resourceVersion", "0", "123")
	set("dryRun", "All")
	set("labelSelector", "app=a")
	path := "/api/v1/nodes"
	body := []string{"", `{"kind":"DeleteOptions","gracePeriodSeconds":0,"dryRun":["All"],"zz":1}`, "k8s\x00binary"}[rt.Choice("body", 3)]
	res, w := h.Call(h.Store(), up.Clients("c1", "c2"), h.Chunked(h.Request(m, path, q.Encode(), vars(path), body), body))
	got, ok := forwarded(up, res, w, "c1", m, path, body)
	if ok {
		rt.Assert("same", sameValues(got, q), "a request is forwarded with another query")
	}
}

// CheckBody: any body goes through, also when the cluster throttles.
func CheckBody() {
	h.Config("c1", "")
	up := &h.Upstream{Text: answer, Throttle: rt.Choice("throttle", 3)}
	m := methods[1+rt.Choice("method", 4)]
	n := rt.Bound("body_len", 3, 5)
	if m == "DELETE" {
		// which is parsed
		n = rt.Bound("delete_body_len", 1, 2)
	}
	body := rt.StrUpTo("body", n, rt.AllBytes)
	if m != "DELETE" && rt.Bool("json") {
		body = `{"metadata":{"name":"` + body + `"}}`
	}
	path := "/api/v1/pods/x"
	ct := ""
	if m == "PATCH" {
		ct = []string{"application/json-patch+json", "application/merge-patch+json", "application/apply-patch+yaml"}[rt.Choice("type", 3)]
	}
	r := h.Chunked(h.Request(m, path, "", vars(path), body), body)
	if ct != "" {
		r.Header.Set("Content-Type", ct)
	}
	res, w := h.Call(h.Store(), up.Clients("c1", "c2"), r)
	rt.Assert("retries", len(up.Log) == up.Throttle+1, "a throttled request is not repeated")
	for _, s := range up.Log {
		rt.Assert("again", s.Body == body && s.Method == m && s.Path == path && s.Cluster == "c1", "a request is forwarded with another body")
		if m == "PATCH" && ct != "" {
			rt.Assert("patchtype", s.ContentType == ct, "a patch is forwarded as another kind of patch")
		}
	}
	b, ok := h.Answer(res, w)
	rt.Assert("answer", ok && b == answer && h.Code(res, w) == 200, "the answer of the cluster is not relayed")
}

// CheckSelector: a label selector means the same to the cluster, with and
// without a page query next to it, and the cluster is the one of the page.
func CheckSelector() {
	h.FewValues()
	h.Config("c1", "")
	up := &h.Upstream{Text: answer}
	var rs []h.Req
	var ts []string
	n := rt.Choice("requirements", 3)
	for i := 0; i < n; i++ {
		r := h.MkReq([]string{"app", "tier"}, 1)
		rs = append(rs, r)
		ts = append(ts, r.Text())
	}
	sel := strings.Join(ts, ",")
	want := "c1"
	if rt.Bool("paged") {
		p := page.Paginate{Page: 1, PageSize: 10}
		want = []string{"c1", "c2"}[rt.Choice("on", 2)]
		if want != "c1" {
			rt.Assert("set", p.Clusters([]string{want}) == nil, "clusters can not be set")
		}
		o, err := page.QueryListOptions(metav1.ListOptions{LabelSelector: sel}, p)
		rt.Assert("encodes", err == nil, "a page query can not be put into list options")
		sel = o.LabelSelector
	}
	q := url.Values{}
	if sel != "" {
		q.Set("labelSelector", sel)
	}
	path := "/api/v1/nodes"
	res, w := h.Call(h.Store(), up.Clients("c1", "c2"), h.Request("GET", path, q.Encode(), vars(path), ""))
	got, ok := forwarded(up, res, w, want, "GET", path, "")
	if !ok {
		return
	}
	parsed, err := labels.Parse(got.Get("labelSelector"))
	rt.Assert("legal", err == nil, "a label selector is forwarded as an illegal one")
	if err != nil {
		return
	}
	m := map[string]string{"app": rt.Str("app", 1, h.Values)}
	if rt.Bool("tier") {
		m["tier"] = rt.Str("tier", 1, h.Values)
	}
	all := true
	for _, r := range rs {
		all = all && r.Holds(m)
	}
	rt.Assert("selects", parsed.Matches(labels.Set(m)) == all, "a label selector is forwarded with another meaning")
}

// CheckUnknown: a request for a cluster that is not there reaches no cluster.
func CheckUnknown() {
	h.Config("c1", "")
	up := &h.Upstream{Text: answer}
	m := methods[rt.Choice("method", len(methods))]
	c := rt.Str("cluster", rt.Choice("len", 3), "cC123 -")
	q := url.Values{}
	var body string
	kind := rt.Choice("named", 3)
	switch kind {
	case 0:
		q.Set("cluster", c)
	case 1:
		q.Set("fieldManager", "dsm-cluster-"+c)
	case 2:
		q.Set("resourceVersion", "dsm-cluster-"+c)
	}
	path := "/api/v1/nodes"
	res, w := h.Call(h.Store(), up.Clients("c1", "c2"), h.Request(m, path, q.Encode(), vars(path), body))
	if c == "" {
		c = "c1"
	}
	if c == "c1" || c == "c2" {
		got, ok := forwarded(up, res, w, c, m, path, body)
		if ok && kind > 0 {
			rt.Assert("marker", len(got) == 0, "a cluster marker is forwarded")
		}
		return
	}
	rt.Cover("unknown")
	rt.Assert("notfound", h.Failure(res) && h.Code(res, w) == 404, "an unknown cluster is not reported")
	rt.Assert("nowhere", len(up.Log) == 0, "a request for an unknown cluster reaches another one")
}

var _ = http.MethodGet

// CheckLarge: long paths, queries and bodies go through whole.
func CheckLarge() {
	h.Config("c1", "")
	n := h.Size("size", 12)
	m := methods[rt.Choice("method", 5)]
	i := rt.Choice("answer.at", 2) * (n - 1)
	up := &h.Upstream{Text: h.Filler(i) + rt.Str("answer", 1, rt.AllBytes) + h.Filler(n-1-i)}
	path, body := "/api/v1/nodes/"+h.Filler(20), ""
	q := url.Values{}
	switch rt.Choice("what", 4) {
	case 0:
		path = "/api/v1/nodes/" + h.Long("path", n, rt.LowerNum)
	case 1:
		q.Set("fieldSelector", h.Long("value", n, rt.Printable))
	case 2:
		for i := 0; i < 40; i++ {
			q.Add("k"+strconv.Itoa(i%20), "v"+strconv.Itoa(i))
		}
		q.Add("k7", rt.Str("last", 1, rt.Printable))
	case 3:
		rt.Assume(m != "GET")
		body = `{"a":"` + h.Long("body", n, rt.LowerNum) + `"}`
		if m == "POST" && n == h.Sizes[0] {
			body += h.Filler(70000)
		}
	}
	res, w := h.Call(h.Store(), up.Clients("c1", "c2"), h.Chunked(h.Request(m, path, q.Encode(), vars(path), body), body))
	got, ok := forwarded(up, res, w, "c1", m, path, body)
	if ok {
		rt.Assert("same", sameValues(got, q), "a request is forwarded with another query")
	}
}
