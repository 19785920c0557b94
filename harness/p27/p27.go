package p27

import (
	"bufio"
	"encoding/json"
	"io"
	"net"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"sync"
	"time"

	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/common/constants"
	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/pkg/client/fake"
	h "github.com/DaoCloud/ckube/zzverif/hlib"
	_ "github.com/DaoCloud/ckube/zzverif/model"
	rt "github.com/DaoCloud/ckube/zzverif/verifrt"
)

const conf = `{"default_cluster":"c1","proxies":[
{"group":"","version":"v1","resource":"pods","list_kind":"PodList","index":{"namespace":"{.metadata.namespace}","name":"{.metadata.name}"}},
{"group":"","version":"v1","resource":"services","list_kind":"ServiceList","index":{"namespace":"{.metadata.namespace}","name":"{.metadata.name}"}}]}`

// fakeServer is a running fake server.
type fakeServer struct {
	fake.CkubeServer
	url string
}

func start(conf string) *fakeServer {
	port := 8080
	if !rt.InEngine() {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		port = l.Addr().(*net.TCPAddr).Port
		_ = l.Close()
	}
	s, err := fake.NewFakeCKubeServer("127.0.0.1:"+strconv.Itoa(port), conf)
	rt.Assert("starts", err == nil, "the server does not start")
	if err != nil {
		rt.Exit()
	}
	return &fakeServer{s, s.GetKubeConfig().Host}
}

// call is one request and its answer; 0 is a connection that broke.
func (s *fakeServer) call(method, path, query, body string) (int, string) {
	var rd io.Reader
	if body != "" {
		rd = strings.NewReader(body)
	}
	if query != "" {
		path += "?" + query
	}
	r, err := http.NewRequest(method, s.url+path, rd)
	if err != nil {
		return 0, ""
	}
	r.Close = true
	res, err := http.DefaultClient.Do(r)
	if err != nil {
		return 0, ""
	}
	b, _ := io.ReadAll(res.Body)
	_ = res.Body.Close()
	return res.StatusCode, string(b)
}

// kinds are the resources of a namespace; what follows an @ is the namespace,
// n if there is none.
var kinds = []string{"pods", "services", "pods@nn", "pods@N"}

func split(kind string) (resource, ns string) {
	if i := strings.Index(kind, "@"); i >= 0 {
		return kind[:i], kind[i+1:]
	}
	return kind, "n"
}

func object(kind, name, label string) string {
	_, ns := split(kind)
	b, _ := json.Marshal(&corev1.Pod{TypeMeta: metav1.TypeMeta{APIVersion: "v1", Kind: "Pod"},
		ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: name, Labels: map[string]string{"l": label}}})
	return string(b)
}

func dir(kind string) string {
	r, ns := split(kind)
	return "/api/v1/namespaces/" + ns + "/" + r
}

func (s *fakeServer) create(kind, cluster, name, label string) int {
	q := ""
	if cluster != "" {
		o, _ := page.QueryCreateOptions(metav1.CreateOptions{}, cluster)
		q = "fieldManager=" + url.QueryEscape(o.FieldManager)
	}
	c, _ := s.call("POST", dir(kind), q, object(kind, name, label))
	return c
}

// createBig creates a resource that keeps a watcher busy: natively one that
// does not fit into the buffers of a connection.
func (s *fakeServer) createBig(kind, cluster, name, label string) {
	o, _ := page.QueryCreateOptions(metav1.CreateOptions{}, cluster)
	body := object(kind, name, label)
	if !rt.InEngine() {
		body = strings.Replace(body, `"metadata":{`, `"metadata":{"annotations":{"big":"`+strings.Repeat("x", 24<<20)+`"},`, 1)
	}
	c, _ := s.call("POST", dir(kind), "fieldManager="+url.QueryEscape(o.FieldManager), body)
	rt.Assert("big", c >= 200 && c < 300, "a resource can not be created")
}

func (s *fakeServer) update(kind, cluster, name, label string) int {
	q := ""
	if cluster != "" {
		o, _ := page.QueryUpdateOptions(metav1.UpdateOptions{}, cluster)
		q = "fieldManager=" + url.QueryEscape(o.FieldManager)
	}
	c, _ := s.call("PUT", dir(kind)+"/"+name, q, object(kind, name, label))
	return c
}

func (s *fakeServer) delete(kind, cluster, name string) int {
	b := ""
	if cluster != "" {
		o, _ := page.QueryDeleteOptions(metav1.DeleteOptions{TypeMeta: metav1.TypeMeta{APIVersion: "v1", Kind: "DeleteOptions"}}, cluster)
		j, _ := json.Marshal(o)
		b = string(j)
	}
	c, _ := s.call("DELETE", dir(kind)+"/"+name, "", b)
	return c
}

func (s *fakeServer) get(kind, cluster, name string) (string, bool, int) {
	q := ""
	if cluster != "" {
		o, _ := page.QueryGetOptions(metav1.GetOptions{}, cluster)
		q = "resourceVersion=" + url.QueryEscape(o.ResourceVersion)
	}
	c, b := s.call("GET", dir(kind)+"/"+name, q, "")
	if c != 200 {
		return "", false, c
	}
	var p corev1.Pod
	_, ns := split(kind)
	ok := json.Unmarshal([]byte(b), &p) == nil && p.Name == name && p.Namespace == ns
	return p.Labels["l"], ok, c
}

// list is the listed resources of the clusters as "name=label", in order.
func (s *fakeServer) list(kind string, clusters ...string) (string, bool) {
	p := page.Paginate{Sort: "name"}
	if len(clusters) > 0 {
		_ = p.Clusters(clusters)
	}
	c, b := s.call("GET", dir(kind), h.ListQuery(p, ""), "")
	if c != 200 {
		return "", false
	}
	var l corev1.PodList
	if json.Unmarshal([]byte(b), &l) != nil {
		return "", false
	}
	r := ""
	for _, i := range l.Items {
		r += i.Name + "=" + i.Labels["l"] + ";"
	}
	return r, true
}

var names = []string{"a", "b"}
var clusters = []string{"c1", "c2"}

// world is what the server should hold.
type world map[string]string

func key(kind, cluster, name string) string { return kind + "/" + cluster + "/" + name }

// event is what a watcher should be told.
type event struct{ kind, cluster, typ, name, label string }

// step does one operation and tells what it should do.
func (s *fakeServer) step(w world, kinds ...string) []event {
	op := rt.Choice("op", 4)
	if op == 3 {
		s.Clean()
		for k := range w {
			delete(w, k)
		}
		return nil
	}
	kind := kinds[rt.Choice("kind", len(kinds))]
	ci := rt.Choice("cluster", 3)
	cl := []string{"c1", "c2", ""}[ci]
	name := rt.Str("name", 1, "ab")
	at := key(kind, []string{"c1", "c2", "c1"}[ci], name)
	was, is := w[at]
	label := rt.Str("label", 1, rt.LowerNum)
	cluster := []string{"c1", "c2", "c1"}[ci]
	switch op {
	case 0:
		c := s.create(kind, cl, name, label)
		rt.Assert("create", is && c >= 400 && c < 500 || !is && c >= 200 && c < 300, "creating a resource succeeds though it exists or fails though it does not")
		if !is {
			w[at] = label
			return []event{{kind, cluster, "ADDED", name, label}}
		}
	case 1:
		c := s.update(kind, cl, name, label)
		rt.Assert("update", is && c >= 200 && c < 300 || !is && c == 404, "updating a resource fails though it exists or succeeds though it does not")
		if is {
			w[at] = label
			return []event{{kind, cluster, "MODIFIED", name, label}}
		}
	case 2:
		c := s.delete(kind, cl, name)
		rt.Assert("delete", is && c >= 200 && c < 300 || !is && c == 404, "deleting a resource fails though it exists or succeeds though it does not")
		if is {
			delete(w, at)
			return []event{{kind, cluster, "DELETED", name, was}}
		}
	}
	return nil
}

func (s *fakeServer) check(w world, kinds ...string) {
	for _, kind := range kinds {
		for _, cl := range clusters {
			want := ""
			for _, n := range names {
				l, is := w[key(kind, cl, n)]
				got, ok, code := s.get(kind, cl, n)
				rt.Assert("get", ok == is && got == l && (is || code == 404), "a read does not give the state the history leads to")
				if cl == "c1" {
					got, ok, _ = s.get(kind, "", n)
					rt.Assert("getdefault", ok == is && got == l, "a read of the default cluster does not give the state the history leads to")
				}
				if is {
					want += n + "=" + l + ";"
				}
			}
			got, ok := s.list(kind, cl)
			rt.Assert("list", ok && got == want, "a list does not give the state the history leads to")
		}
	}
}

// CheckHistory: reads and lists give the state the history leads to.
func CheckHistory() {
	s := start(conf)
	w := world{}
	for i := rt.Bound("operations", 3, 4); i > 0; i-- {
		s.step(w, "pods")
	}
	s.check(w, "pods")
	s.Stop()
}

// CheckKinds: operations on one kind leave the others alone.
func CheckKinds() {
	s := start(conf)
	w := world{}
	for i := rt.Bound("operations_kinds", 2, 3); i > 0; i-- {
		s.step(w, kinds...)
	}
	s.check(w, kinds...)
	s.Stop()
}

// stream is an open watch.
type stream struct {
	kind     string
	resource string
	ns       string // "" for all
	clusters []string
	body     io.ReadCloser
	rd       *bufio.Reader
}

func (s *fakeServer) watch(kind string, how int, clusters ...string) *stream {
	p := page.Paginate{}
	if len(clusters) > 0 {
		_ = p.Clusters(clusters)
	}
	q := h.ListQuery(p, "")
	if q != "" {
		q = "&" + q
	}
	path := dir(kind)
	res, ns := split(kind)
	if how == 1 {
		ns = ""
	}
	switch how {
	case 0:
		path += "?watch=true" + q
	case 1:
		path = "/api/v1/" + res + "?watch=1" + q
	case 2:
		path = "/api/v1/watch/namespaces/" + ns + "/" + res + "?watch=true" + q
	}
	r, _ := http.NewRequest("GET", s.url+path, nil)
	answer, err := http.DefaultClient.Do(r)
	rt.Assert("watch", err == nil && answer.StatusCode == 200, "a watch is refused")
	if err != nil {
		rt.Exit()
	}
	return &stream{kind, res, ns, clusters, answer.Body, bufio.NewReader(answer.Body)}
}

func (st *stream) next() (typ, name, label string, ok bool) {
	var l string
	got := make(chan bool, 1)
	go func() {
		x, err := st.rd.ReadString('\n')
		l = x
		got <- err == nil
	}()
	select {
	case ok = <-got:
	case <-time.After(3 * time.Second):
	}
	if !ok {
		return
	}
	var e struct {
		Type   string
		Object corev1.Pod
	}
	ok = json.Unmarshal([]byte(l), &e) == nil
	return e.Type, e.Object.Name, e.Object.Labels["l"], ok
}

func (st *stream) wants(e event) bool {
	r, ns := split(e.kind)
	if r != st.resource || st.ns != "" && ns != st.ns {
		return false
	}
	for _, c := range st.clusters {
		if c == e.cluster {
			return true
		}
	}
	return len(st.clusters) == 0
}

// expect reads the events up to the one of the resource named last.
func (st *stream) expect(es []event) {
	for _, e := range es {
		if !st.wants(e) {
			continue
		}
		typ, name, label, ok := st.next()
		rt.Assert("delivered", ok, "a watcher does not get an event")
		if !ok {
			rt.Exit()
		}
		rt.Assert("event", typ == e.typ && name == e.name && label == e.label, "a watcher gets another event than the one that is next")
	}
}

// end makes an event for every watcher, so that surplus ones would show.
func (s *fakeServer) end(st *stream) []event {
	cl := "c1"
	if len(st.clusters) > 0 {
		cl = st.clusters[0]
	}
	rt.Assert("last", s.create(st.kind, cl, "z", "end") < 300, "a resource can not be created")
	return []event{{st.kind, cl, "ADDED", "z", "end"}}
}

// CheckWatch: a watcher gets exactly the events of its kind, namespace and
// clusters, in order.
func CheckWatch() {
	s := start(conf)
	w := world{}
	if rt.Bool("before") {
		w[key("pods", "c1", "a")] = "before"
		s.create("pods", "c1", "a", "before")
	}
	cls := [][]string{nil, {"c1"}, {"c2"}, {"c1", "c2"}}[rt.Choice("clusters", 4)]
	st := s.watch([]string{"pods", "services"}[rt.Choice("watched", 2)], rt.Choice("how", 3), cls...)
	var es []event
	for i := rt.Bound("operations_watch", 1, 2); i > 0; i-- {
		es = append(es, s.step(w, kinds[:3]...)...)
	}
	es = append(es, s.end(st)...)
	st.expect(es)
	_ = st.body.Close()
	s.Stop()
}

// CheckTwoWatchers: watchers do not disturb one another, and one that left
// disturbs none.
func CheckTwoWatchers() {
	s := start(conf)
	w := world{}
	one := s.watch("pods", 0)
	two := s.watch([]string{"pods", "services"}[rt.Choice("watched", 2)], rt.Choice("how", 2), clusters[rt.Choice("clusters", 2)])
	left := rt.Choice("left", 3)
	switch left {
	case 1:
		_ = one.body.Close()
	case 2:
		_ = two.body.Close()
	}
	var es []event
	for i := rt.Bound("operations_watchers", 1, 2); i > 0; i-- {
		es = append(es, s.step(w, "pods", "services")...)
	}
	es = append(es, s.end(one)...)
	if two.kind != one.kind || two.clusters[0] != "c1" {
		es = append(es, s.end(two)...)
	}
	if left != 1 {
		one.expect(es)
		_ = one.body.Close()
	}
	if left != 2 {
		two.expect(es)
		_ = two.body.Close()
	}
	for _, e := range es {
		if e.name == "z" {
			s.delete(e.kind, e.cluster, "z")
		}
	}
	s.check(w, "pods", "services")
	s.Stop()
}

// CheckOtherNamespace: a watch of a namespace shows no other.
func CheckOtherNamespace() {
	s := start(conf)
	ks := []string{"pods", "pods@nn", "pods@N"}
	st := s.watch(ks[rt.Choice("watched", len(ks))], []int{0, 2}[rt.Choice("how", 2)])
	es := s.step(world{}, ks...)
	es = append(es, s.end(st)...)
	st.expect(es)
	_ = st.body.Close()
	s.Stop()
}

// CheckSchedules: of two clients creating one resource exactly one succeeds,
// and watchers see the states in the order they took effect.
func CheckSchedules() {
	s := start(conf)
	exists := rt.Bool("exists")
	if exists {
		s.create("pods", "c1", "a", "0")
	}
	st := s.watch("pods", 0)
	var wg sync.WaitGroup
	var codes [2]int
	ops := rt.Choice("ops", 6)
	var order [6][2]int = [6][2]int{{0, 0}, {0, 1}, {0, 2}, {1, 1}, {1, 2}, {2, 2}}
	rt.Preempt(rt.Bound("switches", 1, 2))
	for i := 0; i < 2; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			l := strconv.Itoa(i + 1)
			switch order[ops][i] {
			case 0:
				codes[i] = s.create("pods", "c1", "a", l)
			case 1:
				codes[i] = s.update("pods", "c1", "a", l)
			case 2:
				codes[i] = s.delete("pods", "c1", "a")
			}
		}()
	}
	wg.Wait()
	rt.Preempt(0)
	s.end(st)
	// what the watcher saw must be a history that gives the answers and the state
	is, label := exists, "0"
	good := [3]int{}
	for i := 0; i < 2; i++ {
		if codes[i] >= 200 && codes[i] < 300 {
			good[order[ops][i]]++
		}
	}
	seen := [3]int{}
	legal := true
	for {
		typ, name, l, ok := st.next()
		rt.Assert("delivered", ok, "a watcher does not get an event")
		if !ok {
			rt.Exit()
		}
		if name == "z" {
			break
		}
		switch typ {
		case "ADDED":
			legal = legal && !is
			is, label = true, l
			seen[0]++
		case "MODIFIED":
			legal = legal && is
			label = l
			seen[1]++
		case "DELETED":
			legal = legal && is && l == label
			is = false
			seen[2]++
		}
	}
	rt.Assert("legal", legal, "the events a watcher gets are no possible history")
	rt.Assert("answers", good == seen, "the answers and the events disagree")
	got, ok, _ := s.get("pods", "c1", "a")
	rt.Assert("state", ok == is && (!is || got == label), "the state is not the one the events lead to")
	_ = st.body.Close()
	s.Stop()
}

// CheckBusy: a watcher that is busy misses nothing.
func CheckBusy() {
	s := start(conf)
	st := s.watch("pods", 0)
	w := world{key("pods", "c1", "a"): "before"}
	rt.Preempt(rt.Bound("switches_busy", 1, 2))
	s.createBig("pods", "c1", "a", "before")
	es := []event{{"pods", "c1", "ADDED", "a", "before"}}
	es = append(es, s.step(w, "pods")...)
	es = append(es, s.end(st)...)
	rt.Preempt(0)
	st.expect(es)
	_ = st.body.Close()
	s.Stop()
}

// CheckUnknown: what the server can not do is refused, and it goes on.
func CheckUnknown() {
	s := start(conf)
	s.create("pods", "c1", "a", "0")
	o, _ := page.QueryCreateOptions(metav1.CreateOptions{}, clusters[rt.Choice("cluster", 2)])
	q := "fieldManager=" + url.QueryEscape(o.FieldManager)
	c := 0
	switch rt.Choice("what", 8) {
	case 0:
		c = s.create("secrets", "c1", "a", "0")
	case 1:
		c = s.update("secrets", "c1", "a", "0")
	case 2:
		c = s.delete("secrets", "c1", "a")
	case 3:
		c, _ = s.call("POST", "/apis/apps/v1/namespaces/n/pods", q, object("pods", "a", "0"))
	case 4:
		c, _ = s.call("POST", dir("pods"), q, "{"+rt.StrUpTo("body", rt.Bound("body", 1, 2), rt.Printable))
	case 5:
		c, _ = s.call("GET", dir("pods"), "watch=true&labelSelector="+url.QueryEscape(rt.Str("selector", 1, "=!,()<>")), "")
	case 6:
		c, _ = s.call("GET", dir("pods"), "watch=true&labelSelector="+url.QueryEscape("a=b,"+constants.PaginateKey+" in (x"+rt.Str("selector", 1, "._-")+"z)"), "")
	case 7:
		c, _ = s.call("PUT", dir("pods")+"/"+rt.Str("url", 1, "ab")+"b", q, object("pods", "a", "1"))
	}
	rt.Observe("code", c)
	rt.Assert("refused", c >= 400 && c < 500, "a request that can not be served is not refused")
	got, ok, _ := s.get("pods", "c1", "a")
	rt.Assert("unharmed", ok && got == "0", "a refused request changes the state")
	s.Stop()
}

var gvs = []struct{ group, version, resource, kind string }{
	{"", "v1", "pods", "Pod"},
	{"apps", "v1", "deployments", "Deployment"},
	{"apps", "v2", "deployments", "Deployment"},
	{"apps", "v1", "lists", "List"},
	{"x.io", "v1", "widgets", "Widget"},
}

// CheckDiscovery: discovery lists exactly the configured kinds.
func CheckDiscovery() {
	var ps []string
	groups := map[string]map[string]map[string]string{"": {"v1": {}}}
	order := rt.Choice("order", 2)
	for i := range gvs {
		g := gvs[i]
		if order == 1 {
			g = gvs[len(gvs)-1-i]
		}
		if !rt.Bool("configured") {
			continue
		}
		ps = append(ps, `{"group":"`+g.group+`","version":"`+g.version+`","resource":"`+g.resource+`","list_kind":"`+g.kind+`List","index":{"name":"{.metadata.name}"}}`)
		if groups[g.group] == nil {
			groups[g.group] = map[string]map[string]string{}
		}
		if groups[g.group][g.version] == nil {
			groups[g.group][g.version] = map[string]string{}
		}
		groups[g.group][g.version][g.resource] = g.kind
	}
	s := start(`{"default_cluster":"c1","proxies":[` + strings.Join(ps, ",") + `]}`)
	c, b := s.call("GET", "/apis", "", "")
	var gl metav1.APIGroupList
	rt.Assert("groups", c == 200 && json.Unmarshal([]byte(b), &gl) == nil, "the groups can not be read")
	n := 0
	for _, g := range gl.Groups {
		want, ok := groups[g.Name]
		rt.Assert("group", ok && g.Name != "", "a group is listed that is not configured")
		rt.Assert("versions", len(g.Versions) == len(want), "a group does not list its versions")
		pref := false
		for _, v := range g.Versions {
			_, ok := want[v.Version]
			rt.Assert("version", ok && v.GroupVersion == g.Name+"/"+v.Version, "a group lists a version that is not configured")
			pref = pref || v == g.PreferredVersion
		}
		rt.Assert("preferred", pref, "the preferred version of a group is none of its versions")
		n++
	}
	rt.Assert("allgroups", n == len(groups)-1, "a configured group is not listed")
	for g, vs := range groups {
		for v, want := range vs {
			path := "/apis/" + g + "/" + v
			gv := g + "/" + v
			if g == "" {
				path, gv = "/api/"+v, v
			}
			c, b := s.call("GET", path, "", "")
			var rl metav1.APIResourceList
			rt.Assert("resources", c == 200 && json.Unmarshal([]byte(b), &rl) == nil && rl.GroupVersion == gv, "the resources of a version can not be read")
			rt.Assert("count", len(rl.APIResources) == len(want), "a version lists not just its resources")
			for _, r := range rl.APIResources {
				rt.Assert("resource", want[r.Name] != "" && want[r.Name] == r.Kind, "a version lists a resource that is none of it")
			}
		}
	}
	s.Stop()
}
