package p25

import (
	"errors"
	"io"
	"net/url"
	"strings"

	h "github.com/DaoCloud/ckube/zzverif/hlib"
	rt "github.com/DaoCloud/ckube/zzverif/verifrt"
)

// feed delivers a stream in pieces of any size, with or without the end
// coming along with the last byte, and watches that nothing is held back.
type feed struct {
	data    string
	pos     int
	w       *h.Writer
	empties int
	late    bool
	brk     bool
	closed  bool
	flushed bool // what is not flushed does not count
}

var errBroken = errors.New("broken")

func (f *feed) end() error {
	if f.brk {
		return errBroken
	}
	return io.EOF
}

func (f *feed) Read(b []byte) (int, error) {
	// every complete event must be out before the stream is read on
	whole := strings.LastIndexByte(f.data[:f.pos], '\n') + 1
	if len(f.w.Body) < whole || f.flushed && f.w.Flushed < whole {
		f.late = true
	}
	if f.pos == len(f.data) {
		return 0, f.end()
	}
	if f.empties > 0 && rt.Bool("empty") {
		f.empties--
		return 0, nil
	}
	n := len(f.data) - f.pos
	if n > len(b) {
		n = len(b)
	}
	copy(b, f.data[f.pos:f.pos+n])
	f.pos += n
	if f.pos == len(f.data) && rt.Bool("together") {
		return n, f.end()
	}
	return n, nil
}

func (f *feed) Close() error { f.closed = true; return nil }

// CheckStream: a watch relays the bytes of the stream, all of them, in order,
// nothing else, and every event as soon as it is complete.
func CheckStream() {
	h.Config("c1", "")
	w := h.NewWriter()
	f := &feed{w: w, empties: rt.Choice("empties", 2), brk: rt.Bool("break")}
	n := rt.Choice("len", rt.Bound("stream_len", 6, 9))
	f.data = rt.Str("data", n, rt.AllBytes)
	up := &h.Upstream{Body: f}
	q, path, vars := "watch=true", "/api/v1/pods", map[string]string{"version": "v1", "resourceType": "pods"}
	switch rt.Choice("how", 6) {
	case 1:
		q = "watch=1&resourceVersion=5"
	case 2:
		q, path, vars = "", "/api/v1/watch/pods", nil
	case 5:
		q, path, vars = "", "/apis/apps/v1/watch/namespaces/n/deployments/d", nil
	case 3:
		q, path, vars = "watch=TRUE", "/apis/apps/v1/deployments", map[string]string{"group": "apps", "version": "v1", "resourceType": "deployments"}
	case 4:
		q, path, vars = "watch=y&labelSelector=app%3Da", "/api/v1/nodes", map[string]string{"version": "v1", "resourceType": "nodes"}
	}
	res := h.CallOn(w, h.Store(), up.Clients("c1", "c2"), h.Request("GET", path, q, vars, ""))
	rt.Assert("once", len(up.Log) == 1 && up.Log[0].Cluster == "c1" && up.Log[0].Path == path, "a watch is not forwarded once to its cluster")
	rt.Assert("ends", res == nil, "a watch ends in an error")
	rt.Assert("bytes", string(w.Body) == f.data, "a watch relays other bytes than the stream holds")
	rt.Assert("timely", !f.late, "a complete event is held back")
	if len(w.Body) > 0 {
		rt.Assert("status", h.Code(res, w) == 200, "a watch is answered with another status")
	}
	if len(up.Log) == 1 {
		got, _ := url.ParseQuery(up.Log[0].Query)
		want, _ := url.ParseQuery(q)
		got.Del("timeout")
		same := len(got) == len(want)
		for k, v := range want {
			same = same && h.Same(v, got[k])
		}
		rt.Assert("query", same, "a watch is forwarded with another query")
	}
}

// CheckError: a watch the cluster refuses is answered with its error.
func CheckError() {
	h.Config("c1", "")
	code := 300 + int(rt.Int64In("code", 0, 299))
	up := &h.Upstream{Status: code, Text: "no", Header: map[string][]string{"Content-Type": {"text/plain"}}}
	res, w := h.Call(h.Store(), up.Clients("c1"), h.Request("GET", "/api/v1/nodes", "watch=true", nil, ""))
	rt.Assert("error", h.Failure(res) && h.Code(res, w) == code, "an error of the cluster is answered with another status")
}

// CheckTransport: a watch that does not reach the cluster is an error.
func CheckTransport() {
	h.Config("c1", "")
	up := &h.Upstream{Err: errBroken}
	res, w := h.Call(h.Store(), up.Clients("c1"), h.Request("GET", "/api/v1/nodes", "watch=true", nil, ""))
	rt.Assert("error", h.Code(res, w) >= 400 && len(w.Body) == 0, "a failed watch looks like a served one")
}

// CheckServer: also the server in front of it does not hold anything back,
// however long the lines are.
func CheckServer() {
	h.Config("c1", "")
	w := h.NewWriter()
	f := &feed{w: w, flushed: true, brk: rt.Bool("break")}
	if rt.Bool("short") {
		f.data = rt.Str("data", rt.Choice("len", rt.Bound("served_len", 4, 6)), "a\n{")
	} else {
		f.data = h.Long("line", h.Size("size", 16), rt.AllBytes) + "\n" + h.Filler(100) + "\n" + h.Filler(5)
	}
	up := &h.Upstream{Body: f}
	path := []string{"/api/v1/pods", "/apis/apps/v1/namespaces/n/deployments", "/api/v1/nodes"}[rt.Choice("path", 3)]
	h.NewServer(up.Clients("c1"), h.Store()).ServeOn(w, h.URLRequest("GET", path, "watch=true", ""))
	rt.Assert("served", len(up.Log) == 1 && w.Status == 200 && string(w.Body) == f.data, "a watch through the server relays other bytes than the stream holds")
	rt.Assert("flushed", !f.late, "the server holds a complete event back")
}
