package p23

import (
	"errors"
	"net/http"

	h "github.com/DaoCloud/ckube/zzverif/hlib"
	rt "github.com/DaoCloud/ckube/zzverif/verifrt"

	"github.com/DaoCloud/ckube/store"
)

// failing is a cache that panics on demand.
type failing struct {
	store.Store
	left int
	what interface{}
}

func (f *failing) fail() {
	if f.left > 0 {
		f.left--
		if m, ok := f.what.(map[string]int); ok && m == nil {
			m["x"] = 1
		}
		panic(f.what)
	}
}

func (f *failing) IsStoreGVR(g store.GroupVersionResource) bool {
	if g.Resource == "early" {
		f.fail()
	}
	return true
}

func (f *failing) Query(g store.GroupVersionResource, q store.Query) store.QueryResult {
	f.fail()
	return store.QueryResult{}
}

func (f *failing) Get(g store.GroupVersionResource, c, ns, n string) interface{} {
	f.fail()
	return map[string]string{}
}

var paths = []string{"/api/v1/pods", "/api/v1/namespaces/n/pods/p", "/apis/apps/v1/early", "/custom/v1/namespaces/n/deployments/d/services", "/apis/apps/v1/namespaces/n/x"}

// CheckPanic: whatever a request panics with, it is answered with 500 and the
// next one is served.
func CheckPanic() {
	h.Config("c1", "")
	var nomap map[string]int
	what := []interface{}{"text", errors.New("error"), 5, nomap, http.ErrBodyNotAllowed, struct{ F func() }{}, []byte(nil), &failing{}}[rt.Choice("what", 8)]
	st := &failing{what: what, left: 1 + rt.Choice("left", 2)}
	up := &h.Upstream{Text: "{}"}
	s := h.NewServer(up.Clients("c1"), st)
	n := st.left
	for i := 0; i < n; i++ {
		w := h.NewWriter()
		msg := rt.Catch(func() { w = s.Serve(h.URLRequest("GET", paths[rt.Choice("path", len(paths))], "", "")) })
		rt.Assert("contained", msg == "", "a panic of one request leaves the server")
		rt.Assert("answered", w.Status == 500, "a failed request is not answered with 500")
	}
	w := s.Serve(h.URLRequest("GET", "/api/v1/namespaces/n/pods/p", "", ""))
	rt.Assert("next", w.Status == 200, "a failed request harms the next")
}

// CheckUnreachable: a cluster that can not be reached is a 500, not an empty success.
func CheckUnreachable() {
	h.Config("c1", "")
	up := &h.Upstream{Err: errors.New("no route")}
	s := h.NewServer(up.Clients("c1"), h.Store())
	m := []string{"GET", "POST", "PUT", "DELETE", "PATCH"}[rt.Choice("method", 5)]
	q := []string{"", "watch=true"}[rt.Choice("watch", 2)]
	w := s.Serve(h.URLRequest(m, "/api/v1/nodes", q, ""))
	rt.Assert("error", w.Status >= 500, "a cluster that can not be reached is not reported as an error")
	up.Err = nil
	up.Text = "x"
	up.Log = nil
	w = s.Serve(h.URLRequest("GET", "/api/v1/nodes", "", ""))
	rt.Assert("next", w.Status == 200 && string(w.Body) == "x", "a failed request harms the next")
}

// CheckStatus: the client sees the status of the outcome.
func CheckStatus() {
	h.Config("c1", "")
	code := 200 + int(rt.Int64In("code", 0, 399))
	rt.Assume(code != 429 && code != 204 && code != 301 && code != 302 && code != 303 && code != 307 && code != 308)
	up := &h.Upstream{Text: "{}", Status: code}
	s := h.NewServer(up.Clients("c1"), h.Store())
	m := []string{"GET", "POST", "PUT", "DELETE", "PATCH"}[rt.Choice("method", 5)]
	w := s.Serve(h.URLRequest(m, "/api/v1/nodes", "", ""))
	if code < 207 {
		rt.Assert("ok", w.Status >= 200 && w.Status < 300 && string(w.Body) == "{}", "a success is not relayed")
	}
	if code >= 400 {
		rt.Assert("code", w.Status == code, "an error is answered with another status")
	}
}
