// Package model stands in for what the executor can not run: the network.
// Natively nothing of it is used.
package model

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net/http"
	"strconv"
	"strings"
	"sync"

	"k8s.io/client-go/rest"
)

var (
	lock    sync.Mutex
	servers = map[string]*listener{}
	conns   int
)

type listener struct {
	s    *http.Server
	stop chan struct{}
}

// ServerListenAndServe is (*http.Server).ListenAndServe.
func ServerListenAndServe(s *http.Server) error {
	port := s.Addr[strings.LastIndex(s.Addr, ":")+1:]
	l := &listener{s: s, stop: make(chan struct{})}
	lock.Lock()
	if servers[port] != nil {
		lock.Unlock()
		return errors.New("listen: address already in use")
	}
	servers[port] = l
	lock.Unlock()
	<-l.stop
	return http.ErrServerClosed
}

// ServerShutdown is (*http.Server).Shutdown.
func ServerShutdown(s *http.Server, ctx context.Context) error {
	lock.Lock()
	defer lock.Unlock()
	for p, l := range servers {
		if l.s == s {
			delete(servers, p)
			close(l.stop)
		}
	}
	return nil
}

// Get is http.Get.
func Get(url string) (*http.Response, error) {
	r, err := http.NewRequest("GET", url, nil)
	if err != nil {
		return nil, err
	}
	return ClientDo(nil, r)
}

// ClientDo is (*http.Client).Do.
func ClientDo(_ *http.Client, r *http.Request) (*http.Response, error) {
	host := r.URL.Host
	lock.Lock()
	l := servers[host[strings.LastIndex(host, ":")+1:]]
	conns++
	remote := "127.0.0.1:" + strconv.Itoa(30000+conns)
	lock.Unlock()
	if l == nil {
		return nil, errors.New("connect: connection refused")
	}
	var body []byte
	if r.Body != nil {
		b, err := io.ReadAll(r.Body)
		if err != nil {
			return nil, err
		}
		body = b
	}
	ctx, cancel := context.WithCancel(context.Background())
	u := *r.URL
	u.Scheme, u.Host = "", ""
	in := (&http.Request{
		Method: r.Method, URL: &u, Header: r.Header.Clone(), Body: io.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body)),
		Host: host, RemoteAddr: remote, RequestURI: u.RequestURI(), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
	}).WithContext(ctx)
	p := &pipe{hdr: http.Header{}, sent: make(chan struct{}), more: make(chan struct{}, 1), cancel: cancel, gone: r.Context().Done()}
	go func() {
		defer func() {
			if e := recover(); e != nil {
				p.broken = true
			}
			p.finish()
			cancel()
		}()
		l.s.Handler.ServeHTTP(p, in)
	}()
	select {
	case <-p.sent:
	case <-r.Context().Done():
		cancel()
		return nil, r.Context().Err()
	}
	if p.broken && p.status == 0 {
		return nil, io.EOF
	}
	return &http.Response{StatusCode: p.status, Status: strconv.Itoa(p.status), Header: p.snap, Body: p, Request: r, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, ContentLength: -1}, nil
}

// TransportFor is k8s.io/client-go/rest.TransportFor.
func TransportFor(*rest.Config) (http.RoundTripper, error) { return http.DefaultTransport, nil }

// pipe is one connection, from the handler to the client.
type pipe struct {
	lock   sync.Mutex
	hdr    http.Header
	snap   http.Header
	status int
	head   bool
	broken bool
	over   bool
	buf    []byte
	sent   chan struct{}
	more   chan struct{}
	cancel func()
	gone   <-chan struct{}
}

func (p *pipe) Header() http.Header { return p.hdr }

func (p *pipe) WriteHeader(code int) {
	p.lock.Lock()
	defer p.lock.Unlock()
	p.start(code)
}

func (p *pipe) start(code int) {
	if p.head {
		return
	}
	p.head = true
	p.status = code
	p.snap = p.hdr.Clone()
	close(p.sent)
}

func (p *pipe) wake() {
	select {
	case p.more <- struct{}{}:
	default:
	}
}

func (p *pipe) Write(b []byte) (int, error) {
	p.lock.Lock()
	defer p.lock.Unlock()
	p.start(200)
	p.buf = append(p.buf, b...)
	p.wake()
	return len(b), nil
}

func (p *pipe) Flush() {
	p.lock.Lock()
	defer p.lock.Unlock()
	p.start(200)
}

func (p *pipe) finish() {
	p.lock.Lock()
	defer p.lock.Unlock()
	if !p.head && p.broken {
		p.head = true
		close(p.sent)
	}
	p.start(200)
	p.over = true
	p.wake()
}

func (p *pipe) Read(b []byte) (int, error) {
	for {
		p.lock.Lock()
		if len(p.buf) > 0 {
			n := copy(b, p.buf)
			p.buf = p.buf[n:]
			p.lock.Unlock()
			return n, nil
		}
		if p.over {
			p.lock.Unlock()
			if p.broken {
				return 0, io.ErrUnexpectedEOF
			}
			return 0, io.EOF
		}
		p.lock.Unlock()
		select {
		case <-p.more:
		case <-p.gone:
			p.cancel()
			return 0, context.Canceled
		}
	}
}

func (p *pipe) Close() error {
	p.cancel()
	return nil
}
