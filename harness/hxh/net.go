//go:build verif

package hxh

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
)

// Listen makes a handler reachable and returns its URL. The engine runs ModelListen.
func Listen(h http.Handler) string {
	s := httptest.NewServer(h)
	return s.URL
}

var servers = map[string]http.Handler{}

// ModelListen replaces Listen in the engine
func ModelListen(h http.Handler) string {
	host := fmt.Sprintf("server%d", len(servers))
	servers[host] = h
	return "http://" + host
}

// Watch sees every request that reaches a server.
var Watch func(*http.Request)

var errBroken = errors.New("connection broken")

// ModelDo replaces (*http.Client).Do in the engine: the request is carried to the handler that listens
// at its host, which runs concurrently; the client does not wait any longer once its context is done.
func ModelDo(c *http.Client, req *http.Request) (*http.Response, error) {
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	h := servers[req.URL.Host]
	if r := At(":" + req.URL.Port()); h == nil && r != nil && r.TLS == (req.URL.Scheme == "https") {
		h = http.HandlerFunc(func(w http.ResponseWriter, in *http.Request) {
			r.Active++
			defer r.ended()
			r.s.Handler.ServeHTTP(w, in)
		})
	}
	if h == nil {
		return nil, errBroken
	}
	var body []byte
	if req.Body != nil {
		b, err := readAll(req.Body)
		if err != nil {
			return nil, err
		}
		body = b
	}
	ctx, cancel := context.WithCancel(context.Background())
	if c.Timeout > 0 {
		var stop func()
		ctx, stop = context.WithTimeout(ctx, c.Timeout)
		defer stop()
	}
	in, err := http.NewRequestWithContext(ctx, req.Method, "http://"+req.URL.Host+req.URL.RequestURI(), bytes.NewReader(body))
	if err != nil {
		cancel()
		return nil, err
	}
	for k, v := range req.Header {
		in.Header[k] = v
	}
	if Watch != nil {
		Watch(in)
	}
	done := make(chan *Recorder, 1)
	go func() {
		w := NewRecorder()
		defer cancel()
		defer func() {
			if r := recover(); r != nil {
				if r != http.ErrAbortHandler {
					panic(r)
				}
				done <- nil
			}
		}()
		h.ServeHTTP(w, in)
		done <- w
	}()
	select {
	case w := <-done:
		if w == nil {
			return nil, errBroken
		}
		return &http.Response{StatusCode: w.Code(), Header: w.Headers, Body: io.NopCloser(bytes.NewReader(w.Body)), ContentLength: int64(len(w.Body)), Request: req}, nil
	case <-req.Context().Done():
		cancel()
		return nil, req.Context().Err()
	}
}
