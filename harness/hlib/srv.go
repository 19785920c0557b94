package hlib

import (
	"io"
	"net/http"
	"net/url"
	"strings"

	"github.com/gorilla/mux"
	"k8s.io/client-go/kubernetes"

	"github.com/DaoCloud/ckube/server"
	"github.com/DaoCloud/ckube/store"
)

// Server is ckube's HTTP server, without the listening.
type Server struct {
	server.Server
	router *mux.Router
}

func NewServer(clis map[string]kubernetes.Interface, s store.Store) *Server {
	r := &Server{}
	r.Server = server.NewMuxServer("", clis, s, func(m *mux.Router) { r.router = m })
	return r
}

// URLRequest is a request as it comes in.
func URLRequest(method, path, rawQuery, body string) *http.Request {
	return &http.Request{
		Method: method, URL: &url.URL{Path: path, RawQuery: rawQuery}, Header: http.Header{},
		Body: io.NopCloser(strings.NewReader(body)), ContentLength: int64(len(body)), Host: "ckube",
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
	}
}

// Serve answers one request.
func (s *Server) Serve(r *http.Request) *Writer {
	w := NewWriter()
	s.ServeOn(w, r)
	return w
}

// ServeOn answers one request on a given writer.
func (s *Server) ServeOn(w *Writer, r *http.Request) {
	s.router.ServeHTTP(w, r)
	if w.Status == 0 {
		w.Status = 200
	}
}
