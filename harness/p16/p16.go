package p16

import (
	"strings"

	h "github.com/DaoCloud/ckube/zzverif/hlib"
	rt "github.com/DaoCloud/ckube/zzverif/verifrt"
)

var paths = []string{
	"/api/v1/pods", "/api/v1/namespaces/n/pods", "/api/v1/namespaces/n/pods/p", "/api/v1/nodes/x", "/apis/apps/v1/deployments", "/apis/apps/v1/namespaces/n/deployments",
	"/apis/apps/v1/namespaces/n/deployments/d", "/apis/apps/v1/x/y", "/custom/v1/namespaces/n/deployments/d/services", "/custom/v1/clusters/c1/namespaces/n/deployments/d/services",
	"/", "/version", "/api/v1/watch/pods", "/api/v1/namespaces/n/pods/p/log", "/healthy/x", "/metricsx", "/healthyz",
}

var methods = []string{"GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS"}

// CheckRefused: without the token nothing is served or forwarded.
func CheckRefused() {
	token := rt.Str("token", 1+rt.Choice("tokenlen", rt.Bound("token_len", 2, 3)), "ab.")
	h.Config("c1", token)
	up := &h.Upstream{Text: "{}"}
	st := &h.Recorder{Cached: rt.Bool("cached")}
	s := h.NewServer(up.Clients("c1"), st)
	r := h.URLRequest(methods[rt.Choice("method", len(methods))], paths[rt.Choice("path", len(paths))], "", "")
	auth := rt.StrUpTo("auth", rt.Bound("auth_len", 3, 4), "ab. ")
	switch rt.Choice("scheme", 3) {
	case 1:
		auth = "Bearer " + auth
	case 2:
		auth = "Basic " + auth + "=="
	}
	rt.Assume(!strings.Contains(auth, token))
	r.Header.Set("Authorization", auth)
	switch rt.Choice("elsewhere", 4) {
	case 0:
		r.Header.Del("Authorization")
		rt.Assume(auth == "")
	case 1:
		r.Header.Set("X-Authorization", "Bearer "+token)
	case 2:
		r.URL.RawQuery = "token=" + token
	}
	w := s.Serve(r)
	rt.Assert("refused", w.Status == 401, "a request without the token is not refused")
	rt.Assert("json", w.H.Get("Content-Type") == "application/json", "a refusal does not say that it is JSON")
	rt.Assert("untouched", len(up.Log) == 0 && len(st.GVRs) == 0, "a request without the token reaches the cache or a cluster")
}

// CheckServed: with the token, or without one configured, requests are served.
func CheckServed() {
	token := rt.StrUpTo("token", 2, rt.Printable)
	rt.Assume(!strings.Contains(token, " "))
	h.Config("c1", token)
	up := &h.Upstream{Text: "{}"}
	s := h.NewServer(up.Clients("c1"), h.Store())
	p := paths[rt.Choice("path", len(paths))]
	rt.Assume(!strings.HasPrefix(p, "/custom"))
	m := methods[rt.Choice("method", len(methods))]
	r := h.URLRequest(m, p, "", "")
	if token != "" {
		r.Header.Set("Authorization", "Bearer "+token)
	}
	w := s.Serve(r)
	rt.Assert("served", w.Status != 401 && w.Status != 500, "a request with the token is refused")
	if len(up.Log) == 1 {
		rt.Cover("forwarded")
	}
	if m != "GET" {
		rt.Assert("forwarded", len(up.Log) == 1 && up.Log[0].Method == m && up.Log[0].Path == p && w.Status == 200, "a write with the token is not forwarded")
	}
}

// CheckOpen: the health endpoint needs no token.
func CheckOpen() {
	token := rt.StrUpTo("token", 2, rt.Printable)
	h.Config("c1", token)
	up := &h.Upstream{Text: "{}"}
	s := h.NewServer(up.Clients("c1"), h.Store())
	r := h.URLRequest("GET", "/healthy", "", "")
	if rt.Bool("auth") {
		r.Header.Set("Authorization", "Bearer "+rt.Str("other", 1, rt.Lower))
	}
	w := s.Serve(r)
	rt.Assert("healthy", w.Status == 200 && string(w.Body) == "1" && len(up.Log) == 0, "the health endpoint is not open")
}

// CheckChange: the token that counts is the one of the current configuration.
func CheckChange() {
	up := &h.Upstream{Text: "{}"}
	old, now, sent := rt.StrUpTo("old", 1, "ab"), rt.StrUpTo("new", 1, "ab"), rt.StrUpTo("sent", 1, "ab")
	h.Config("c1", old)
	s := h.NewServer(up.Clients("c1"), h.Store())
	if rt.Bool("before") {
		r := h.URLRequest("GET", "/api/v1/pods", "", "")
		r.Header.Set("Authorization", "B "+old)
		rt.Assert("before", s.Serve(r).Status == 200, "a request with the token is refused")
	}
	h.Config("c1", now)
	r := h.URLRequest("GET", "/api/v1/pods", "", "")
	r.Header.Set("Authorization", "B "+sent)
	w := s.Serve(r)
	if now == "" || sent == now {
		rt.Assert("new", w.Status == 200, "a request with the new token is refused")
	} else {
		rt.Assert("changed", w.Status == 401, "a request with a former token is served")
	}
}

// CheckLong: long tokens count in full.
func CheckLong() {
	n := h.Size("size", 14)
	token := h.Filler(n)
	h.Config("c1", token)
	up := &h.Upstream{Text: "{}"}
	s := h.NewServer(up.Clients("c1"), h.Store())
	r := h.URLRequest(methods[rt.Choice("method", len(methods))], "/api/v1/nodes/x", "", "")
	auth := h.Long("auth", n, rt.LowerNum)
	if rt.Bool("short") {
		auth = auth[:n-1]
	}
	r.Header.Set("Authorization", "Bearer "+auth)
	w := s.Serve(r)
	rt.Assert("long", (w.Status == 401) == (auth != token) && (len(up.Log) == 1) == (auth == token), "a long token does not count in full")
}
