package p26

import (
	"errors"
	"io"
	"strings"

	h "github.com/DaoCloud/ckube/zzverif/hlib"
	rt "github.com/DaoCloud/ckube/zzverif/verifrt"
)

var methods = []string{"GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS"}

// ask sends a request that is answered with code and text.
func ask(m string, code int, text, ct string) {
	h.Config("c1", "")
	up := &h.Upstream{Status: code, Text: text, Header: map[string][]string{"Content-Type": {ct}}}
	res, w := h.Call(h.Store(), up.Clients("c1", "c2"), h.Request(m, "/api/v1/nodes/x", "", nil, ""))
	rt.Assert("once", len(up.Log) == 1, "a request is not forwarded exactly once")
	if code <= 206 {
		rt.Cover("good")
		b, ok := h.Answer(res, w)
		rt.Assert("answer", ok && b == text && h.Code(res, w) == 200, "the answer of a cluster is changed")
		return
	}
	rt.Cover("bad")
	rt.Assert("error", h.Failure(res), "an error of a cluster is answered as something else")
	rt.Assert("code", h.Code(res, w) == code, "an error of a cluster is answered with another status code")
}

var types = []string{"application/json", "text/plain", "application/vnd.kubernetes.protobuf", ""}

// CheckCode: an error of a cluster is relayed with its status code, whatever
// it says.
func CheckCode() {
	m := methods[rt.Choice("method", len(methods))]
	code := 200 + int(rt.Int64In("code", 0, 399))
	text := []string{"", `{"kind":"Status","apiVersion":"v1","status":"Failure","message":"m","reason":"Conflict","code":418}`, "\x00\xff"}[rt.Choice("text", 3)]
	ask(m, code, text, types[rt.Choice("type", rt.Bound("types", 2, len(types)))])
}

// CheckText: the answer of a cluster is relayed byte for byte.
func CheckText() {
	m := methods[rt.Choice("method", len(methods))]
	code := []int{200, 201, 202, 204, 206}[rt.Choice("code", 5)]
	ask(m, code, rt.StrUpTo("text", rt.Bound("text_len", 5, 9), rt.AllBytes), types[rt.Choice("type", len(types))])
}

// CheckTransport: a cluster that can not be reached is an error, never an
// empty answer.
func CheckTransport() {
	h.Config("c1", "")
	m := methods[rt.Choice("method", len(methods))]
	up := &h.Upstream{Err: errors.New("unreachable")}
	res, w := h.Call(h.Store(), up.Clients("c1"), h.Request(m, "/api/v1/nodes", "", nil, "x"))
	rt.Assert("error", h.Code(res, w) >= 400, "a failed request looks like a served one")
}

// CheckBroken: an answer that breaks off is an error, whatever the request is
// about; only watches are relayed as far as they go.
func CheckBroken() {
	h.Config("c1", "")
	m := methods[rt.Choice("method", 5)]
	text := rt.StrUpTo("text", 3, rt.AllBytes)
	up := &h.Upstream{Body: io.NopCloser(io.MultiReader(strings.NewReader(text), broken{}))}
	x := h.Words[rt.Choice("word", len(h.Words))]
	path := []string{"/api/v1/nodes/" + x, "/api/v1/namespaces/" + x + "/services", "/apis/g/v1/" + x, "/apis/g/v1/namespaces/n/foos/" + x + "/status", "/" + x, "/apis/" + x + "/v1/foos", "/apis/g/" + x + "/foos", "/api/v1/namespaces/n/pods/" + x + "/log"}[rt.Choice("path", 8)]
	q := []string{"", "watch=0", "watch=false", "watch=", "pretty=true", "fieldSelector=watch%3Dtrue"}[rt.Choice("query", rt.Bound("broken_query", 3, 6))]
	rt.Observe("path", m+" "+path+" "+q)
	res, w := h.Call(h.Store(), up.Clients("c1", "c2"), h.Request(m, path, q, nil, ""))
	rt.Assert("error", h.Code(res, w) >= 400, "an answer that breaks off looks like a whole one")
}

type broken struct{}

func (broken) Read([]byte) (int, error) { return 0, errors.New("connection reset by peer") }

// CheckLarge: long answers and long errors.
func CheckLarge() {
	n := rt.Choice("n", rt.Bound("sizes", 17, 18))
	if n < len(h.Sizes) {
		n = h.Sizes[n]
	} else {
		n = 100000
	}
	code, alpha := []int{200, 404, 500}[rt.Choice("code", 3)], "a0\"\\\n\r{}\x00\x80\xff"
	if code == 200 {
		alpha = rt.AllBytes
	}
	text := h.Long("text", n, alpha)
	ask(methods[rt.Choice("method", rt.Bound("large_methods", 2, 5))], code, text, types[rt.Choice("type", 2)])
}
