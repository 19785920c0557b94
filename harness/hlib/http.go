package hlib

import (
	"io"
	"net/http"
	"net/url"
	"strings"

	"github.com/gorilla/mux"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/discovery"
	"k8s.io/client-go/kubernetes"
	"k8s.io/client-go/rest"

	"github.com/DaoCloud/ckube/api"
	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
	rt "github.com/DaoCloud/ckube/zzverif/verifrt"
)

// Request is a request as the router hands it over.
func Request(method, path, rawQuery string, vars map[string]string, body string) *http.Request {
	r := &http.Request{
		Method: method, URL: &url.URL{Path: path, RawQuery: rawQuery}, Header: http.Header{},
		Body: io.NopCloser(strings.NewReader(body)), ContentLength: int64(len(body)), Host: "ckube",
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
	}
	return mux.SetURLVars(r, vars)
}

// pieces is a body that comes in pieces, as over a network.
type pieces struct {
	s string
}

func (p *pieces) Read(b []byte) (int, error) {
	if p.s == "" {
		return 0, io.EOF
	}
	n := 1 + len(p.s)/2
	if n > len(p.s) {
		n = len(p.s)
	}
	n = copy(b, p.s[:n])
	p.s = p.s[n:]
	return n, nil
}

func (p *pieces) Close() error { return nil }

// Chunked may turn a request into one whose body comes in chunks, so that its
// length is not known before.
func Chunked(r *http.Request, body string) *http.Request {
	if body != "" && rt.Bool("chunked") {
		r.Body, r.ContentLength, r.TransferEncoding = &pieces{s: body}, -1, []string{"chunked"}
	}
	return r
}

// PodList is a list request for pods of a namespace ("" for all).
func PodList(ns, rawQuery string) *http.Request {
	v := map[string]string{"version": "v1", "resourceType": "pods"}
	p := "/api/v1/pods"
	if ns != "" {
		v["namespace"] = ns
		p = "/api/v1/namespaces/" + ns + "/pods"
	}
	return Request("GET", p, rawQuery, v, "")
}

// Writer records a response.
type Writer struct {
	H       http.Header
	Status  int
	Body    []byte
	Writes  int
	Flushes int
	Flushed int // bytes of Body
}

func NewWriter() *Writer { return &Writer{H: http.Header{}} }

func (w *Writer) Header() http.Header { return w.H }
func (w *Writer) WriteHeader(s int) {
	if w.Status == 0 {
		w.Status = s
	}
}
func (w *Writer) Write(b []byte) (int, error) {
	if w.Status == 0 {
		w.Status = 200
	}
	w.Body = append(w.Body, b...)
	w.Writes++
	return len(b), nil
}
func (w *Writer) Flush() { w.Flushes++; w.Flushed = len(w.Body) }

// Recorder is a store that records queries and serves a fixed answer.
type Recorder struct {
	Cached  bool
	Result  store.QueryResult
	Obj     interface{}
	Queries []store.Query
	GVRs    []store.GroupVersionResource
	Gets    [][3]string
	store.Store
}

func (s *Recorder) IsStoreGVR(store.GroupVersionResource) bool { return s.Cached }
func (s *Recorder) Query(g store.GroupVersionResource, q store.Query) store.QueryResult {
	s.Queries = append(s.Queries, q)
	s.GVRs = append(s.GVRs, g)
	return s.Result
}
func (s *Recorder) Get(g store.GroupVersionResource, cluster, ns, name string) interface{} {
	s.GVRs = append(s.GVRs, g)
	s.Gets = append(s.Gets, [3]string{cluster, ns, name})
	return s.Obj
}

// Sent is a request that reached the API server of a cluster.
type Sent struct {
	Cluster, Method, Path, Query, Body, ContentType string
}

// Upstream stands for the API servers of some clusters.
type Upstream struct {
	Log    []Sent
	Status int
	Header http.Header
	Body   io.ReadCloser
	Text   string
	Err    error
	// the first Throttle requests are answered with 429
	Throttle int
}

type transport struct {
	up      *Upstream
	cluster string
}

func (t *transport) RoundTrip(r *http.Request) (*http.Response, error) {
	s := Sent{Cluster: t.cluster, Method: r.Method, Path: r.URL.Path, Query: r.URL.RawQuery, ContentType: r.Header.Get("Content-Type")}
	if r.Body != nil {
		b, _ := io.ReadAll(r.Body)
		s.Body = string(b)
		_ = r.Body.Close()
	}
	t.up.Log = append(t.up.Log, s)
	if t.up.Err != nil {
		return nil, t.up.Err
	}
	if len(t.up.Log) <= t.up.Throttle {
		h := http.Header{}
		h.Set("Retry-After", "0")
		return &http.Response{StatusCode: 429, Header: h, Body: io.NopCloser(strings.NewReader("slow down")), Request: r, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}, nil
	}
	h := t.up.Header
	if h == nil {
		h = http.Header{}
		h.Set("Content-Type", "application/json")
	}
	st := t.up.Status
	if st == 0 {
		st = 200
	}
	body := t.up.Body
	if body == nil {
		body = io.NopCloser(strings.NewReader(t.up.Text))
	}
	return &http.Response{StatusCode: st, Status: http.StatusText(st), Header: h, Body: body, Request: r, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}, nil
}

type client struct {
	kubernetes.Interface
	rc *rest.RESTClient
}

type disco struct {
	discovery.DiscoveryInterface
	rc *rest.RESTClient
}

func (c *client) Discovery() discovery.DiscoveryInterface { return &disco{rc: c.rc} }
func (d *disco) RESTClient() rest.Interface               { return d.rc }

// Clients are the clients of the named clusters.
func (u *Upstream) Clients(names ...string) map[string]kubernetes.Interface {
	m := map[string]kubernetes.Interface{}
	for _, n := range names {
		m[n] = &client{rc: &rest.RESTClient{
			Client: &http.Client{Transport: &transport{u, n}},
		}}
		base := &url.URL{Scheme: "http", Host: "api"}
		rc, err := rest.NewRESTClient(base, "", ClientConfig(), nil, &http.Client{Transport: &transport{u, n}})
		if err != nil {
			panic(err)
		}
		m[n] = &client{rc: rc}
	}
	return m
}

// CallOn runs the API handler on a given writer.
func CallOn(w *Writer, s store.Store, clis map[string]kubernetes.Interface, r *http.Request) interface{} {
	return api.Proxy(&api.ReqContext{ClusterClients: clis, Store: s, Request: r, Writer: w})
}

// Call runs the API handler.
func Call(s store.Store, clis map[string]kubernetes.Interface, r *http.Request) (interface{}, *Writer) {
	w := NewWriter()
	return api.Proxy(&api.ReqContext{ClusterClients: clis, Store: s, Request: r, Writer: w}), w
}

// ListQuery is the query string of a list with a page query and a selector.
func ListQuery(p page.Paginate, selector string) string {
	o, err := page.QueryListOptions(metav1.ListOptions{LabelSelector: selector}, p)
	rt.Assert("encodes", err == nil, "a page query can not be put into list options")
	if o.LabelSelector == "" {
		return ""
	}
	return "labelSelector=" + url.QueryEscape(o.LabelSelector)
}

// List is what a list response holds.
type List struct {
	OK     bool
	Items  []interface{}
	Remain int64
	Code   int
}

// AsList reads a response of the API handler.
func AsList(res interface{}, w *Writer) List {
	if Failure(res) {
		rt.Assert("errorstatus", Code(res, w) >= 400, "an error is reported as a success")
		return List{Code: Code(res, w)}
	}
	m, ok := res.(map[string]interface{})
	rt.Assert("islist", ok && Code(res, w) == 200, "a list request is answered with something else")
	if !ok {
		return List{}
	}
	items, ok := m["items"].([]interface{})
	rt.Assert("hasitems", ok, "a list has no items")
	meta, _ := m["metadata"].(map[string]interface{})
	remain, ok := meta["remainingItemCount"].(int64)
	rt.Assert("hasremain", ok && remain >= 0, "a list has no remaining item count")
	return List{OK: true, Items: items, Remain: remain}
}

// Code is the status code a client sees: the first one written, or the one of
// the result as the server writes it.
func Code(res interface{}, w *Writer) int {
	if w.Status != 0 {
		return w.Status
	}
	switch s := res.(type) {
	case error:
		return 500
	case metav1.Status:
		return int(s.Code)
	case *metav1.Status:
		return int(s.Code)
	}
	return 200
}

// Failure reports whether the result is a Status of a failure.
func Failure(res interface{}) bool {
	switch s := res.(type) {
	case metav1.Status:
		return s.Status == metav1.StatusFailure
	case *metav1.Status:
		return s.Status == metav1.StatusFailure
	}
	return false
}

// Answer is the body of a relayed answer.
func Answer(res interface{}, w *Writer) (string, bool) {
	switch b := res.(type) {
	case []byte:
		return string(w.Body) + string(b), true
	case string:
		return string(w.Body) + b, true
	case nil:
		return string(w.Body), true
	}
	return "", false
}

// Words are names with a meaning of their own elsewhere: as an object's or a
// namespace's name they mean nothing.
var Words = []string{"x", "watch", "watcher", "a-watch", "log", "proxy", "api", "apis", "cluster", "dsm-cluster-c2", "namespaces", "pods", "healthz", "metrics", "custom", "v1"}
