package p19

import (
	"errors"
	"io"
	"net/http"
	"strings"
	"sync"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/rest"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/store/memory"
	"github.com/DaoCloud/ckube/watcher"
	h "github.com/DaoCloud/ckube/zzverif/hlib"
	rt "github.com/DaoCloud/ckube/zzverif/verifrt"
)

// stream is one watch stream: chunks, then an end (or none).
type stream struct {
	chunks []string
	end    error // nil keeps it open
	closed chan struct{}
	once   sync.Once
	cur    string
}

func (s *stream) Read(b []byte) (int, error) {
	if s.cur == "" {
		if len(s.chunks) == 0 {
			if s.end != nil {
				return 0, s.end
			}
			<-s.closed
			return 0, io.EOF
		}
		s.cur, s.chunks = s.chunks[0], s.chunks[1:]
	}
	n := copy(b, s.cur)
	s.cur = s.cur[n:]
	return n, nil
}

func (s *stream) Close() error {
	s.once.Do(func() { close(s.closed) })
	return nil
}

// server is the API server of one cluster.
type server struct {
	mu      sync.Mutex
	streams []*stream
	asked   []string
	status  int   // of the first answers
	bad     int   // so many of them
	err     error // instead of the first answers
	body    io.ReadCloser
	paths   map[string]*stream
}

func (s *server) RoundTrip(r *http.Request) (*http.Response, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.asked = append(s.asked, r.URL.Path+"?"+r.URL.RawQuery)
	if s.bad > 0 {
		s.bad--
		if s.err != nil {
			return nil, s.err
		}
		return &http.Response{StatusCode: s.status, Header: http.Header{}, Body: io.NopCloser(strings.NewReader("{}")), Request: r, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}, nil
	}
	st := &stream{}
	if len(s.streams) > 0 {
		st, s.streams = s.streams[0], s.streams[1:]
	}
	if p := s.paths[r.URL.Path]; p != nil {
		st = p
		delete(s.paths, r.URL.Path)
	}
	st.closed = make(chan struct{})
	hd := http.Header{}
	hd.Set("Content-Type", "application/json")
	var body io.ReadCloser = st
	if s.body != nil {
		body = s.body
	}
	return &http.Response{StatusCode: 200, Status: "OK", Header: hd, Body: body, Request: r, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}, nil
}

func (s *server) requests() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string{}, s.asked...)
}

// watches tells whether a request watches everything below a path.
func watches(r, path string) bool {
	return strings.HasPrefix(r, path+"?") && strings.Contains(r, "watch=") && !strings.Contains(r, "Selector")
}

// settle waits until f holds, if it ever does.
func settle(f func() bool) bool {
	n := 400
	if rt.InEngine() {
		n = 1
	}
	for i := 0; i < n; i++ {
		rt.Advance(10 * time.Millisecond)
		if f() {
			return true
		}
	}
	return f()
}

var types = []string{"ADDED", "MODIFIED", "DELETED", "BOOKMARK", "ERROR"}

func event(typ, kind, apiVersion, name, label string) string {
	return `{"type":"` + typ + `","object":{"kind":"` + kind + `","apiVersion":"` + apiVersion + `","metadata":{"name":"` + name + `","namespace":"n","labels":{"l":"` + label + `"}}}}` + "\n"
}

// cached is the label of a cached resource, "-" when there is none.
func cached(s store.Store, g store.GroupVersionResource, cluster, name string) string {
	o, ok := s.Get(g, cluster, "n", name).(metav1.Object)
	if !ok {
		return "-"
	}
	return o.GetLabels()["l"]
}

func start(servers map[string]*server, s store.Store, g ...store.GroupVersionResource) watcher.Watcher {
	cs := map[string]rest.Config{}
	for n, srv := range servers {
		cs[n] = rest.Config{Host: "http://" + n, Transport: srv}
	}
	w := watcher.NewWatcher(cs, g, s)
	_ = w.Start()
	return w
}

// fold is a stream of n events and the labels they leave behind.
func fold(n int, state map[string]string) []string {
	var ch []string
	for i := 0; i < n; i++ {
		typ := types[rt.Choice("type", 4)]
		name := []string{"a", "b"}[rt.Choice("name", 2)]
		l := rt.Str("label", 1, rt.LowerNum)
		e := event(typ, "Pod", "v1", name, l)
		switch typ {
		case "ADDED", "MODIFIED":
			state[name] = l
		case "DELETED":
			state[name] = "-"
		}
		switch rt.Choice("cut", 3) {
		case 0:
			ch = append(ch, e)
		case 1:
			ch = append(ch, e[:20], e[20:])
		case 2:
			if len(ch) > 0 {
				ch[len(ch)-1] += e
			} else {
				ch = append(ch, e)
			}
		}
	}
	return ch
}

func agrees(s store.Store, cluster string, state map[string]string) func() bool {
	return func() bool {
		return cached(s, h.Pods, cluster, "a") == state["a"] && cached(s, h.Pods, cluster, "b") == state["b"]
	}
}

// CheckStream: the cache follows the events of a stream, however it is cut.
func CheckStream() {
	h.Config("c1", "")
	s := h.Store()
	state := map[string]string{"a": "-", "b": "-"}
	srv := &server{}
	srv.streams = []*stream{{chunks: fold(rt.Bound("events", 2, 3), state)}}
	w := start(map[string]*server{"c1": srv}, s, h.Pods)
	ok := settle(agrees(s, "c1", state))
	rt.Assert("follows", ok, "the cache does not hold what the stream reported")
	rt.Assert("asked", len(srv.requests()) == 1 && watches(srv.requests()[0], "/api/v1/pods"), "not all pods are watched")
	_ = w.Stop()
}

// CheckReconnect: after a stream broke, the next one is what counts.
func CheckReconnect() {
	h.Config("c1", "")
	s := h.Store()
	state := map[string]string{"a": "-", "b": "-"}
	first := &stream{chunks: fold(1, state)}
	first.end = []error{io.EOF, io.ErrUnexpectedEOF, errors.New("reset")}[rt.Choice("end", 3)]
	switch rt.Choice("broken", 4) {
	case 1:
		first.chunks = append(first.chunks, "{\"type\":")
	case 2:
		first.chunks = append(first.chunks, "xx\n")
	case 3:
		first.chunks = append(first.chunks, `{"type":"ADDED","object":{"kind":"Nope","apiVersion":"v1"}}`+"\n")
	}
	second := &stream{}
	srv := &server{streams: []*stream{first, second}}
	before := state
	after := map[string]string{"a": "-", "b": "-"}
	second.chunks = fold(1, after)
	w := start(map[string]*server{"c1": srv}, s, h.Pods)
	ok := settle(agrees(s, "c1", before))
	rt.Assert("first", ok, "the cache does not hold what the stream reported")
	rt.Advance(3200 * time.Millisecond)
	ok = settle(agrees(s, "c1", after))
	rt.Assert("second", ok, "the cache does not hold what the stream reported after a reconnect")
	rt.Assert("again", len(srv.requests()) == 2, "a broken stream is not opened again")
	_ = w.Stop()
}

// CheckRefused: a cluster that can not be watched yet is watched later, and
// keeps what is known about it.
func CheckRefused() {
	h.Config("c1", "")
	s := h.Store()
	p := h.Pod("n", "a")
	p.Labels = map[string]string{"l": "old"}
	_ = s.OnResourceAdded(h.Pods, "c1", p)
	srv := &server{bad: 1, status: 400 + int(rt.Int64In("status", 0, 199))}
	rt.Assume(srv.status != 429)
	if rt.Bool("unreachable") {
		srv.err = errors.New("no route")
	}
	v := rt.Str("label", 1, rt.LowerNum)
	srv.streams = []*stream{{chunks: []string{event("ADDED", "Pod", "v1", "b", v)}}}
	w := start(map[string]*server{"c1": srv}, s, h.Pods)
	rt.Advance(time.Second)
	rt.Assert("kept", cached(s, h.Pods, "c1", "a") == "old", "what is known of a cluster is lost when it can not be reached")
	rt.Advance(14500 * time.Millisecond)
	ok := settle(agrees(s, "c1", map[string]string{"a": "-", "b": v}))
	rt.Assert("watched", ok, "a cluster that could not be watched is not watched later")
	_ = w.Stop()
}

// CheckClusters: every kind of every cluster is watched, and changes only its own part.
func CheckClusters() {
	h.Config("c1", "")
	s := h.Store()
	srv := map[string]*server{"c1": {}, "c2": {}}
	want := map[string]string{}
	label := rt.Str("label", 1, rt.LowerNum)
	typ := []string{"ADDED", "DELETED"}[rt.Choice("type", 2)]
	for _, c := range []string{"c1", "c2"} {
		want[c] = "-"
		p := h.Pod("n", "a")
		p.Labels = map[string]string{"l": "old"}
		_ = s.OnResourceAdded(h.Services, c, p)
	}
	c := []string{"c1", "c2"}[rt.Choice("cluster", 2)]
	srv[c].streams = []*stream{{chunks: []string{event(typ, "Pod", "v1", "a", label)}}}
	if typ == "ADDED" {
		want[c] = label
	}
	if rt.Bool("dead") {
		o := map[string]string{"c1": "c2", "c2": "c1"}[c]
		srv[o].bad, srv[o].err = 1, errors.New("dead")
	}
	w := start(srv, s, h.Pods)
	ok := settle(func() bool {
		return cached(s, h.Pods, "c1", "a") == want["c1"] && cached(s, h.Pods, "c2", "a") == want["c2"] && len(srv["c1"].requests()) == 1 && len(srv["c2"].requests()) == 1
	})
	rt.Assert("own", ok, "an event does not change exactly its own cluster")
	rt.Assert("others", cached(s, h.Services, "c1", "a") == "old" && cached(s, h.Services, "c2", "a") == "old", "an event changes another kind")
	_ = w.Stop()
}

// CheckKinds: kinds without a Go type are cached, whatever they are called.
func CheckKinds() {
	kind := "K" + rt.StrUpTo("kind", rt.Bound("kind_len", 2, 3), "List")
	g := store.GroupVersionResource{Group: []string{"g.io", "apps"}[rt.Choice("group", 2)], Version: "v1", Resource: "ks"}
	h.Config("c1", "")
	addKind(g, kind+"List")
	s := memory.NewMemoryStore(map[store.GroupVersionResource]map[string]string{g: h.BasicIndex()})
	label := rt.Str("label", 1, rt.LowerNum)
	srv := &server{streams: []*stream{{chunks: []string{event("ADDED", kind, g.Group+"/v1", "a", label)}}}}
	w := start(map[string]*server{"c1": srv}, s, g)
	ok := settle(func() bool { return cached(s, g, "c1", "a") == label })
	rt.Assert("cached", ok, "a resource of a configured kind is not cached")
	rt.Assert("asked", len(srv.requests()) == 1 && watches(srv.requests()[0], "/apis/"+g.Group+"/v1/ks"), "the kind is not watched")
	_ = w.Stop()
}

// CheckMixed: kinds with and without a Go type are cached next to each other.
func CheckMixed() {
	type kind struct {
		g    store.GroupVersionResource
		kind string
	}
	all := []kind{
		{store.GroupVersionResource{Version: "v1", Resource: "pods"}, "Pod"},
		{store.GroupVersionResource{Group: "g.io", Version: "v1", Resource: "foos"}, "Foo"},
		{store.GroupVersionResource{Group: "apps", Version: "v1", Resource: "deployments"}, "Deployment"},
		{store.GroupVersionResource{Group: "apps", Version: "v1", Resource: "bars"}, "Bar"},
		{store.GroupVersionResource{Group: "g.io", Version: "v2", Resource: "pods"}, "Pod"},
	}
	var use []kind
	for n := rt.Bound("kinds", 3, 5); n > 0; n-- {
		i := rt.Choice("kind", len(all))
		use = append(use, all[i])
		all = append(append([]kind{}, all[:i]...), all[i+1:]...)
	}
	label := rt.Str("label", 1, rt.LowerNum)
	idx := map[store.GroupVersionResource]map[string]string{}
	cfg := &common.Config{DefaultCluster: "c1"}
	srv := &server{paths: map[string]*stream{}}
	var gs []store.GroupVersionResource
	for _, k := range use {
		idx[k.g] = h.BasicIndex()
		gs = append(gs, k.g)
		cfg.Proxies = append(cfg.Proxies, common.Proxy{Group: k.g.Group, Version: k.g.Version, Resource: k.g.Resource, ListKind: k.kind + "List", Index: h.BasicIndex()})
		path, av := "/api/v1/"+k.g.Resource, "v1"
		if k.g.Group != "" {
			av = k.g.Group + "/" + k.g.Version
			path = "/apis/" + av + "/" + k.g.Resource
		}
		srv.paths[path] = &stream{chunks: []string{event("ADDED", k.kind, av, "a", label)}}
	}
	common.InitConfig(cfg)
	s := memory.NewMemoryStore(idx)
	w := start(map[string]*server{"c1": srv}, s, gs...)
	ok := settle(func() bool {
		for _, g := range gs {
			if cached(s, g, "c1", "a") != label {
				return false
			}
		}
		return true
	})
	rt.Assert("mixed", ok, "a configured kind is not cached next to another one")
	rt.Assert("once", len(srv.requests()) == len(gs), "a kind is not watched once")
	_ = w.Stop()
}

// CheckStop: a stopped watcher changes nothing any more.
func CheckStop() {
	h.Config("c1", "")
	s := h.Store()
	gate := &gated{go_: make(chan struct{}), text: event(types[rt.Choice("type", 3)], "Pod", "v1", "a", "new")}
	if rt.Bool("ends") {
		gate.text = ""
	}
	w := start(map[string]*server{"c1": {body: gate}}, s, h.Pods)
	rt.Advance(50 * time.Millisecond)
	p := h.Pod("n", "a")
	p.Labels = map[string]string{"l": "old"}
	_ = s.OnResourceAdded(h.Pods, "c1", p)
	_ = w.Stop()
	rt.Advance(50 * time.Millisecond)
	close(gate.go_)
	rt.Advance(100 * time.Millisecond)
	rt.Assert("stopped", cached(s, h.Pods, "c1", "a") == "old", "a stopped watcher changes the cache")
}

// gated delivers its text once the gate is open.
type gated struct {
	go_  chan struct{}
	text string
}

func (g *gated) Read(b []byte) (int, error) {
	<-g.go_
	if g.text == "" {
		return 0, io.EOF
	}
	n := copy(b, g.text)
	g.text = g.text[n:]
	return n, nil
}

func (g *gated) Close() error { return nil }

func addKind(g store.GroupVersionResource, listKind string) {
	common.InitConfig(&common.Config{DefaultCluster: "c1", Proxies: []common.Proxy{{Group: g.Group, Version: g.Version, Resource: g.Resource, ListKind: listKind, Index: h.BasicIndex()}}})
}
