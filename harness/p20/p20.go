package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/fsnotify/fsnotify"
	dto "github.com/prometheus/client_model/go"
	corev1 "k8s.io/api/core/v1"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/utils/prommonitor"
	h "github.com/DaoCloud/ckube/zzverif/hlib"
	_ "github.com/DaoCloud/ckube/zzverif/model"
	rt "github.com/DaoCloud/ckube/zzverif/verifrt"
)

var ports = 8100

func port() int {
	if rt.InEngine() {
		ports++
		return ports
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

// cluster is an API server with one resource of every kind asked for.
type cluster struct {
	addr string
	name string // of its resources
	mu   sync.Mutex
	open map[string]int
}

// watches is what is watched at the moment.
func (c *cluster) watches() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	r := ""
	for _, k := range []string{"pods", "services"} {
		r += strings.Repeat(k+";", c.open[k])
	}
	return r
}

func (c *cluster) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	p := strings.Split(r.URL.Path, "/")
	kind := p[len(p)-1]
	if r.URL.Query().Get("watch") != "true" {
		w.WriteHeader(404)
		return
	}
	w.Header().Set("Content-Type", "application/json")
	w.WriteHeader(200)
	k := map[string]string{"pods": "Pod", "services": "Service"}[kind]
	fmt.Fprintf(w, `{"type":"ADDED","object":{"apiVersion":"v1","kind":"%s","metadata":{"namespace":"n","name":"%s"}}}`+"\n", k, c.name+"-"+kind)
	w.(http.Flusher).Flush()
	c.mu.Lock()
	c.open[kind]++
	c.mu.Unlock()
	<-r.Context().Done()
	c.mu.Lock()
	c.open[kind]--
	c.mu.Unlock()
}

func startCluster(name string) *cluster {
	c := &cluster{addr: "127.0.0.1:" + strconv.Itoa(port()), name: name, open: map[string]int{}}
	s := &http.Server{Addr: c.addr, Handler: c}
	go func() { _ = s.ListenAndServe() }()
	return c
}

// setup is what the two files say.
type setup struct {
	kinds    []string
	contexts []string // name of a context and of its cluster
	current  string
	token    string
	yaml     bool
	index    int    // of indexes
	def      string // default_cluster, which the current context overrides
}

// indexes are ways to configure what is indexed.
var indexes = []string{
	`,"index":{"namespace":"{.metadata.namespace}","name":"{.metadata.name}"}`,
	`,"index":{}`,
	``,
	`,"index":null`,
	`,"index":{"kind":"{.kind}"}`,
}

func (s setup) kube(cs map[string]*cluster) string {
	if s.yaml {
		r := "apiVersion: v1\nkind: Config\ncurrent-context: " + s.current + "\nusers:\n- name: u\n  user: {}\nclusters:\n"
		for i := 0; i < len(s.contexts); i += 2 {
			r += "- name: k" + s.contexts[i] + "\n  cluster:\n    server: http://" + cs[s.contexts[i+1]].addr + "\n"
		}
		r += "contexts:\n"
		for i := 0; i < len(s.contexts); i += 2 {
			r += "- name: " + s.contexts[i] + "\n  context:\n    cluster: k" + s.contexts[i] + "\n    user: u\n"
		}
		return r
	}
	var cl, ct []string
	for i := 0; i < len(s.contexts); i += 2 {
		cl = append(cl, `{"name":"k`+s.contexts[i]+`","cluster":{"server":"http://`+cs[s.contexts[i+1]].addr+`"}}`)
		ct = append(ct, `{"name":"`+s.contexts[i]+`","context":{"cluster":"k`+s.contexts[i]+`","user":"u"}}`)
	}
	return `{"apiVersion":"v1","kind":"Config","current-context":"` + s.current + `","clusters":[` + strings.Join(cl, ",") + `],"contexts":[` + strings.Join(ct, ",") + `],"users":[{"name":"u","user":{}}]}`
}

func proxy(kind, index string) string {
	lk := map[string]string{"pods": "PodList", "services": "ServiceList"}[kind]
	return `{"group":"","version":"v1","resource":"` + kind + `","list_kind":"` + lk + `"` + index + `}`
}

func (s setup) conf() string {
	var ps []string
	for _, k := range s.kinds {
		ps = append(ps, proxy(k, indexes[s.index]))
	}
	def := ""
	if s.def != "" {
		def = `"default_cluster":"` + s.def + `",`
	}
	return `{"proxies":[` + strings.Join(ps, ",") + `],` + def + `"token":"` + s.token + `"}`
}

// home is the cluster a context stands for.
func (s setup) home(context string) string {
	for i := 0; i < len(s.contexts); i += 2 {
		if s.contexts[i] == context {
			return s.contexts[i+1]
		}
	}
	return ""
}

func (s setup) has(kind string) bool {
	for _, k := range s.kinds {
		if k == kind {
			return true
		}
	}
	return false
}

// names is what a list of a kind should give.
func (s setup) names(kind, context string) string {
	if context == "" {
		context = s.current
	}
	if h := s.home(context); h != "" && s.has(kind) {
		return h + "-" + kind + ";"
	}
	return ""
}

type program struct {
	dir   string
	addr  string
	token string // of the requests
}

func run(s setup, cs map[string]*cluster) *program {
	p := prepare(s.conf(), s.kube(cs))
	rt.SetArgs(p.args())
	go main()
	return p
}

func prepare(conf, kube string) *program {
	d, err := os.MkdirTemp("", "p20")
	if err != nil {
		panic(err)
	}
	if !rt.InEngine() {
		// the system may not have another one
		w, err := fsnotify.NewWatcher()
		rt.Assume(err == nil)
		_ = w.Close()
	}
	p := &program{d, "127.0.0.1:" + strconv.Itoa(port()), ""}
	p.write("conf", conf)
	p.write("kube", kube)
	return p
}

func (p *program) args() []string {
	return []string{"cacheproxy", "-c", p.dir + "/conf", "-k", p.dir + "/kube", "-a", p.addr}
}

func (p *program) write(name, text string) {
	if err := os.WriteFile(p.dir+"/"+name, []byte(text), 0o644); err != nil {
		panic(err)
	}
}

// names lists the resources of a kind in some clusters.
func (p *program) names(kind string, clusters ...string) string {
	pg := page.Paginate{Sort: "name"}
	if len(clusters) > 0 {
		_ = pg.Clusters(clusters)
	}
	r, err := http.NewRequest("GET", "http://"+p.addr+"/api/v1/"+kind+"?"+h.ListQuery(pg, ""), nil)
	if err != nil {
		panic(err)
	}
	r.Close = true
	if p.token != "" {
		r.Header.Set("Authorization", "Bearer "+p.token)
	}
	res, err := http.DefaultClient.Do(r)
	if err != nil {
		return "unreachable"
	}
	b, _ := io.ReadAll(res.Body)
	_ = res.Body.Close()
	if res.StatusCode != 200 {
		return "status " + strconv.Itoa(res.StatusCode)
	}
	var l corev1.PodList
	if json.Unmarshal(b, &l) != nil {
		return "unreadable"
	}
	ns := ""
	for _, i := range l.Items {
		ns += i.Name + ";"
	}
	return ns
}

// eventually waits until f gives want.
func eventually(want string, f func() string) string {
	got := ""
	for i := 0; i < 40; i++ {
		got = f()
		if got == want {
			break
		}
		if rt.InEngine() && i > 4 {
			break
		}
		if rt.InEngine() {
			time.Sleep(7 * time.Second)
		} else {
			time.Sleep(250 * time.Millisecond)
		}
	}
	return got
}

// serves checks that the program does what the files say.
func (p *program) serves(id string, s setup, cs map[string]*cluster) {
	p.token = s.token
	for _, k := range []string{"pods", "services"} {
		if !s.has(k) {
			continue
		}
		want := s.names(k, "")
		got := eventually(want, func() string { return p.names(k) })
		rt.Assert(id+"default", got == want, "a list without a cluster does not show the current context's cluster")
		for i := 0; i < len(s.contexts); i += 2 {
			c := s.contexts[i]
			want := s.names(k, c)
			got := eventually(want, func() string { return p.names(k, c) })
			rt.Assert(id+"context", got == want, "a list of a context does not show its cluster")
		}
	}
	for n, c := range cs {
		want := ""
		for _, k := range []string{"pods", "services"} {
			for i := 0; i < len(s.contexts); i += 2 {
				if s.contexts[i+1] == n && s.has(k) {
					want += k + ";"
				}
			}
		}
		got := eventually(want, c.watches)
		rt.Assert(id+"watches", got == want, "not exactly the configured kinds are watched in a cluster")
	}
	if s.token != "" {
		p.token = "x"
		got := eventually("refused", func() string {
			got := p.names("pods")
			if got == "status 401" || got == "status 403" {
				return "refused"
			}
			return got
		})
		rt.Assert(id+"token", got == "refused", "a request without the configured token is served")
		p.token = s.token
	}
	for _, k := range []string{"pods", "services"} {
		for i := 0; i < len(s.contexts); i += 2 {
			want := "0"
			if s.has(k) {
				want = "1"
			}
			got := eventually(want, func() string { return counted(s.contexts[i], k) })
			rt.Assert(id+"metric", got == want, "the metric of cached resources does not show what is cached")
		}
	}
}

// counted is the metric of the resources of a kind in a cluster.
func counted(cluster, kind string) string {
	var m dto.Metric
	if err := prommonitor.Resources.WithLabelValues(cluster, "", "v1", kind, "n").Write(&m); err != nil {
		return "error"
	}
	return strconv.Itoa(int(*m.Gauge.Value))
}

var kinds = [][]string{{"pods"}, {"services"}, {"pods", "services"}}

func world() map[string]*cluster {
	return map[string]*cluster{"one": startCluster("one"), "two": startCluster("two")}
}

func anySetup(cs map[string]*cluster, yaml bool) setup {
	a, b := "a"+rt.Str("context1", 1, rt.LowerNum), "b"+rt.Str("context2", 1, rt.LowerNum)
	s := setup{kinds: kinds[rt.Choice("kinds", 3)], current: a, yaml: yaml && rt.Bool("yaml")}
	switch rt.Choice("contexts", 4) {
	case 0:
		s.contexts = []string{a, "one"}
	case 1:
		s.contexts = []string{a, "two", b, "one"}
	case 2:
		s.contexts = []string{b, "two", a, "one"}
	case 3:
		s.contexts = []string{b, "two", a, "two"}
	}
	if rt.Bool("token") {
		s.token = "t" + rt.Str("token", 1, rt.LowerNum)
	}
	return s
}

// CheckStart: the program serves what its files configure.
func CheckStart() {
	cs := world()
	s := anySetup(cs, true)
	switch rt.Choice("more", 3) {
	case 1:
		s.index = 1 + rt.Choice("index", len(indexes)-1)
	case 2:
		s.def = []string{"other", "bx"}[rt.Choice("default", 2)]
	}
	p := run(s, cs)
	p.serves("", s, cs)
}

// change gives a file new contents in one of the ways files get them.
func (p *program) change(name, text string, how int) {
	f := p.dir + "/" + name
	switch how {
	case 0: // in place
		p.write(name, text)
	case 1: // replaced, as kubelet does for volumes
		p.write("new", text)
		must(os.Rename(p.dir+"/new", f))
	case 2: // made again
		must(os.Remove(f))
		p.write(name, text)
	case 3: // made again later
		must(os.Remove(f))
		if rt.InEngine() {
			time.Sleep(9 * time.Second)
		} else {
			time.Sleep(2500 * time.Millisecond)
		}
		p.write(name, text)
	case 4: // moved away and made again
		must(os.Rename(f, f+".old"))
		p.write(name, text)
	}
}

// CheckReload: changed files take effect.
func CheckReload() {
	cs := world()
	s := setup{kinds: []string{"pods"}, contexts: []string{"a", "one"}, current: "a"}
	p := run(s, cs)
	p.serves("", s, cs)
	for i := rt.Bound("reloads", 1, 2); i > 0; i-- {
		n := anySetup(cs, false)
		how := rt.Choice("how", 5)
		switch rt.Choice("file", 2) {
		case 0:
			n.contexts, n.current = s.contexts, s.current
			p.change("conf", n.conf(), how)
		case 1:
			n.kinds, n.token = s.kinds, s.token
			p.change("kube", n.kube(cs), how)
		}
		p.serves("new", n, cs)
		for j := 0; j < len(s.contexts); j += 2 {
			c := s.contexts[j]
			if n.home(c) != "" {
				continue
			}
			got := eventually("0", func() string { return counted(c, "pods") })
			rt.Assert("oldmetric", got == "0", "the metric of cached resources shows those of a cluster that is gone")
		}
		s = n
	}
}

// CheckBroken: a broken file changes nothing, and a good one counts again.
func CheckBroken() {
	cs := world()
	s := setup{kinds: []string{"pods"}, contexts: []string{"a", "one"}, current: "a"}
	p := run(s, cs)
	p.serves("", s, cs)
	n := setup{kinds: []string{"services"}, contexts: []string{"a", "one"}, current: "a"}
	p.change("conf", broken(n), rt.Choice("how", 3))
	if rt.InEngine() {
		time.Sleep(20 * time.Second)
	} else {
		time.Sleep(2500 * time.Millisecond)
	}
	p.serves("broken", s, cs)
	p.change("conf", n.conf(), 0)
	p.serves("again", n, cs)
}

// broken is a config file that can not be used.
func broken(s setup) string {
	t := s.conf()
	switch k := rt.Choice("broken", 6); k {
	case 0:
		return t[:rt.Choice("cut", len(t))]
	case 1:
		return strings.Replace(t, `"version":"v1"`, `"version":""`, 1)
	case 2:
		return strings.Replace(t, `"version":"v1",`, ``, 1)
	case 3:
		return strings.Replace(t, `"proxies":[`, `"proxies":["x",`, 1)
	case 4:
		return strings.Replace(t, `"token":""`, `"token":1`, 1)
	default:
		return t + "}"
	}
}

// CheckStarting: a change while the program starts takes effect.
func CheckStarting() {
	cs := world()
	s := setup{kinds: []string{"pods"}, contexts: []string{"a", "one"}, current: "a"}
	n := setup{kinds: []string{"services"}, contexts: []string{"a", "one"}, current: "a"}
	file := rt.Choice("file", 2)
	if file == 1 {
		n = setup{kinds: []string{"pods"}, contexts: []string{"a", "two"}, current: "a"}
	}
	tries := 10
	if rt.InEngine() {
		tries = 1
	}
	var ps []*program
	for i := 0; i < tries; i++ {
		p := prepare(s.conf(), s.kube(cs))
		rt.SetArgs(p.args())
		flag.CommandLine = flag.NewFlagSet("", flag.ExitOnError)
		rt.Preempt(rt.Bound("switches", 1, 2))
		go main()
		if !rt.InEngine() {
			time.Sleep(time.Duration(i) * 500 * time.Microsecond)
		}
		if file == 0 {
			p.change("conf", n.conf(), 1)
		} else {
			p.change("kube", n.kube(cs), 1)
		}
		rt.Preempt(0)
		if !rt.InEngine() {
			// the next one has its own flags
			time.Sleep(100 * time.Millisecond)
		}
		ps = append(ps, p)
	}
	for _, p := range ps {
		k := n.kinds[0]
		want := n.names(k, "")
		got := eventually(want, func() string { return p.names(k) })
		rt.Assert("starting", got == want, "a change while the program starts is lost")
		if got != want {
			break
		}
	}
}

// CheckChanging: changes while the program loads its files do it no harm.
func CheckChanging() {
	cs := world()
	s := setup{kinds: []string{"pods"}, contexts: []string{"a", "one"}, current: "a"}
	n := setup{kinds: []string{"pods"}, contexts: []string{"b", "two"}, current: "b"}
	p := run(s, cs)
	p.serves("", s, cs)
	rt.Preempt(rt.Bound("switches", 1, 2))
	if rt.InEngine() {
		p.change("kube", n.kube(cs), 0)
		for i := rt.Choice("yields", 2); i > 0; i-- {
			runtime.Gosched()
		}
		p.change("kube", s.kube(cs), 0)
	} else {
		for i := 0; i < 600; i++ {
			p.change("kube", n.kube(cs), 0)
			time.Sleep(time.Duration(i%20) * 50 * time.Microsecond)
			p.change("kube", s.kube(cs), 0)
			time.Sleep(time.Duration(i/20) * 50 * time.Microsecond)
		}
	}
	rt.Preempt(0)
	p.serves("changing", s, cs)
}

// CheckBadStart: the program does not start on files it can not use.
func CheckBadStart() {
	cs := map[string]*cluster{"one": {addr: "127.0.0.1:1"}}
	s := setup{kinds: []string{"pods"}, contexts: []string{"a", "one"}, current: "a"}
	conf, kube := s.conf(), s.kube(cs)
	which := rt.Choice("which", 4)
	switch which {
	case 0:
		conf = broken(s)
	case 1:
		kube = kube[:1+rt.Choice("kubecut", len(kube)-1)]
	}
	p := prepare(conf, kube)
	a := p.args()[1:]
	switch which {
	case 2:
		a[1] += "x"
	case 3:
		a[3] += "x"
	}
	code, _, _ := rt.RunMain(main, 0, a)
	rt.Assert("status", code == 1, "the program does not end with an error on files it can not use")
}

// CheckHome: the kube config is the user's own, or there is none.
func CheckHome() {
	cs := world()
	s := setup{kinds: []string{"pods"}, contexts: []string{"a", "one"}, current: "a"}
	k := s.kube(cs)
	own := rt.Bool("own")
	def := ""
	if !own {
		// one cluster without context, as in a pod
		s.current = "default"
		if rt.Bool("named") {
			def = "d" + rt.Str("default", 1, rt.LowerNum)
			s.current = def
		}
		s.contexts[0] = s.current
	}
	conf := func(s setup) string {
		return strings.Replace(s.conf(), `"token"`, `"default_cluster":"`+def+`","token"`, 1)
	}
	p := prepare(conf(s), k)
	if own {
		must(os.MkdirAll(p.dir+"/.kube", 0o755))
		p.write(".kube/config", k)
		rt.Setenv("KUBECONFIG", "")
	} else {
		rt.Setenv("KUBECONFIG", p.dir+"/kube")
	}
	rt.Setenv("KUBERNETES_SERVICE_HOST", "")
	rt.Setenv("HOME", p.dir)
	a := p.args()
	rt.SetArgs(append(a[:3:3], a[5:]...))
	go main()
	p.serves("home", s, cs)
	n := s
	if own && rt.Bool("kube") {
		n.contexts = []string{"a", "two"}
		p.change(".kube/config", n.kube(cs), 0)
	} else {
		n.kinds = []string{"services"}
		p.change("conf", conf(n), 0)
	}
	p.serves("homenew", n, cs)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
