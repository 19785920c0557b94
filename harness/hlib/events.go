package hlib

import (
	"io"
	"net/http"
	"sync"
)

// Events answers watch requests with one text per path and keeps the stream open.
type Events struct {
	Texts map[string]string
}

type openStream struct {
	text   string
	closed chan struct{}
	once   sync.Once
}

func (s *openStream) Read(b []byte) (int, error) {
	if s.text == "" {
		<-s.closed
		return 0, io.EOF
	}
	n := copy(b, s.text)
	s.text = s.text[n:]
	return n, nil
}

func (s *openStream) Close() error {
	s.once.Do(func() { close(s.closed) })
	return nil
}

func (e *Events) RoundTrip(r *http.Request) (*http.Response, error) {
	hd := http.Header{}
	hd.Set("Content-Type", "application/json")
	return &http.Response{StatusCode: 200, Status: "OK", Header: hd, Body: &openStream{text: e.Texts[r.URL.Path], closed: make(chan struct{})},
		Request: r, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}, nil
}
