//go:build verif

// Package hxh holds the parts of the harnesses that speak HTTP: models of the library functions that the
// engine cannot look into, a response writer that records what a handler sends, and a transport that
// connects a client to a router.
package hxh

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"io"
	"net/http"

	sym "github.com/DanLavine/willow/internal/verif_sym"
)

// reader returns the reader of a decoder; the engine fills it in
func reader(dec *json.Decoder) io.Reader { return nil }

// writer returns the writer of an encoder; the engine fills it in
func writer(enc *json.Encoder) io.Writer { return nil }

func readAll(r io.Reader) ([]byte, error) {
	var all []byte
	buf := make([]byte, 64)
	for {
		n, err := r.Read(buf)
		all = append(all, buf[:n]...)
		if err == io.EOF {
			return all, nil
		}
		if err != nil {
			return nil, err
		}
	}
}

// ModelDecode replaces (*json.Decoder).Decode in the engine
func ModelDecode(dec *json.Decoder, v any) error {
	b, err := readAll(reader(dec))
	if err != nil {
		return err
	}
	if len(b) == 0 {
		return io.EOF
	}
	return json.Unmarshal(b, v)
}

// ModelEncode replaces (*json.Encoder).Encode in the engine
func ModelEncode(enc *json.Encoder, v any) error {
	b, err := json.Marshal(v)
	if err != nil {
		return err
	}
	_, err = writer(enc).Write(append(b, '\n'))
	return err
}

// Body encodes a model, or, for the kinds of body that are no model at all, returns text that does not
// decode.
func Body(v any) []byte {
	b, err := json.Marshal(v)
	sym.Assume(err == nil)
	return b
}

// Recorder is a response writer: it counts what a handler does with it, and a write may fail.
type Recorder struct {
	Fail    bool
	Headers http.Header
	Status  []int
	Writes  int
	Body    []byte
}

func NewRecorder() *Recorder { return &Recorder{Headers: http.Header{}} }

func (r *Recorder) Header() http.Header { return r.Headers }

func (r *Recorder) WriteHeader(status int) { r.Status = append(r.Status, status) }

func (r *Recorder) Write(b []byte) (int, error) {
	if len(r.Status) == 0 {
		r.Status = append(r.Status, http.StatusOK)
	}
	r.Writes++
	if r.Fail {
		return 0, errors.New("the client is gone")
	}
	r.Body = append(r.Body, b...)
	return len(b), nil
}

// Code is the status of the response
func (r *Recorder) Code() int {
	if len(r.Status) == 0 {
		return http.StatusOK
	}
	return r.Status[0]
}

// Request builds a request as it reaches a server
func Request(ctx context.Context, method, path string, body []byte, contentType bool) *http.Request {
	req, err := http.NewRequestWithContext(ctx, method, "http://server"+path, bytes.NewReader(body))
	sym.Assume(err == nil)
	if contentType {
		req.Header.Set("Content-Type", "application/json")
	}
	return req
}

// Serve runs one request through a router
func Serve(mux http.Handler, ctx context.Context, method, path string, body []byte) *Recorder {
	w := NewRecorder()
	mux.ServeHTTP(w, Request(ctx, method, path, body, true))
	return w
}
