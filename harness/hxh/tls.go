//go:build verif

package hxh

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"encoding/pem"
	"errors"
	"net/http"
	"os"
	"strings"

	"golang.org/x/net/http2"
)

// Files are the files that a service or client is configured with. What they contain:
// "cert:K by C" a certificate of the key K that the authority C signed, "key:K", "ca:C"; anything else is garbage.
var Files = map[string]string{}

// ModelReadFile replaces os.ReadFile in the engine.
func ModelReadFile(name string) ([]byte, error) {
	if s, ok := Files[name]; ok {
		return []byte(s), nil
	}
	return nil, os.ErrNotExist
}

var errFile = errors.New("not what the file is used for")

// ModelLoadX509KeyPair replaces tls.LoadX509KeyPair in the engine.
func ModelLoadX509KeyPair(crt, key string) (tls.Certificate, error) {
	c, err := ModelReadFile(crt)
	if err != nil {
		return tls.Certificate{}, err
	}
	k, err := ModelReadFile(key)
	if err != nil {
		return tls.Certificate{}, err
	}
	of, ok := strings.CutPrefix(string(c), "cert:")
	kn, ok2 := strings.CutPrefix(string(k), "key:")
	if !ok || !ok2 || !strings.HasPrefix(of, kn+" ") {
		return tls.Certificate{}, errFile
	}
	return tls.Certificate{Certificate: [][]byte{c}}, nil
}

// Pools are the authorities in each pool.
var Pools = map[*x509.CertPool][]string{}

// ModelNewCertPool replaces x509.NewCertPool in the engine.
func ModelNewCertPool() *x509.CertPool { return &x509.CertPool{} }

// ModelAppendCerts replaces (*x509.CertPool).AppendCertsFromPEM in the engine.
func ModelAppendCerts(p *x509.CertPool, data []byte) bool {
	ca, ok := strings.CutPrefix(string(data), "ca:")
	if ok {
		Pools[p] = append(Pools[p], ca)
	}
	return ok
}

// ModelPEM replaces pem.Decode in the engine.
func ModelPEM(data []byte) (*pem.Block, []byte) {
	if !strings.Contains(string(data), ":") {
		return nil, data
	}
	return &pem.Block{Bytes: data}, nil
}

// ModelParseCertificate replaces x509.ParseCertificate in the engine.
func ModelParseCertificate(der []byte) (*x509.Certificate, error) {
	if !strings.HasPrefix(string(der), "cert:") {
		return nil, errFile
	}
	return &x509.Certificate{Raw: der}, nil
}

// ModelVerify replaces (*x509.Certificate).Verify in the engine.
func ModelVerify(c *x509.Certificate, o x509.VerifyOptions) ([][]*x509.Certificate, error) {
	for _, ca := range Pools[o.Roots] {
		if strings.HasSuffix(string(c.Raw), " by "+ca) {
			return [][]*x509.Certificate{{c}}, nil
		}
	}
	return nil, errFile
}

// Server is what a *http.Server does.
type Server struct {
	Listens bool
	TLS     bool
	Cert    string
	Active  int

	s        *http.Server
	stop     chan struct{}
	shutdown bool
	idle     chan struct{}
	broken   chan error
}

var running = map[*http.Server]*Server{}

// Taken are the addresses that cannot be listened at.
var Taken = map[string]bool{}

func serverOf(s *http.Server) *Server {
	if running[s] == nil {
		running[s] = &Server{s: s, stop: make(chan struct{}), idle: make(chan struct{}, 8), broken: make(chan error, 1)}
	}
	return running[s]
}

// At is the server that listens at an address.
func At(addr string) *Server {
	for s, r := range running {
		if s.Addr == addr && r.Listens {
			return r
		}
	}
	return nil
}

// Break ends a server that nobody shut down.
func (r *Server) Break() { r.broken <- errBroken }

// Ask carries a request to the server, as long as it listens; it is answered on the channel.
func (r *Server) Ask(method, path string) <-chan int {
	answer := make(chan int, 1)
	if !r.Listens {
		answer <- 0
		return answer
	}
	in, err := http.NewRequestWithContext(context.Background(), method, "http://server"+path, strings.NewReader(""))
	if err != nil {
		answer <- 0
		return answer
	}
	r.Active++
	go func() {
		w := NewRecorder()
		r.s.Handler.ServeHTTP(w, in)
		answer <- w.Code()
		r.ended()
	}()
	return answer
}

// ended: one of the requests was answered.
func (r *Server) ended() {
	r.Active--
	select {
	case r.idle <- struct{}{}:
	default:
	}
}

func (r *Server) serve() error {
	if r.shutdown {
		return http.ErrServerClosed
	}
	if Taken[r.s.Addr] {
		return errBroken
	}
	r.Listens = true
	select {
	case <-r.stop:
		return http.ErrServerClosed
	case err := <-r.broken:
		r.Listens = false
		return err
	}
}

// ModelListenAndServe replaces (*http.Server).ListenAndServe in the engine.
func ModelListenAndServe(s *http.Server) error { return serverOf(s).serve() }

// ModelListenAndServeTLS replaces (*http.Server).ListenAndServeTLS in the engine.
func ModelListenAndServeTLS(s *http.Server, crt, key string) error {
	r := serverOf(s)
	r.TLS = true
	var cert tls.Certificate
	if s.TLSConfig != nil && len(s.TLSConfig.Certificates) > 0 && crt == "" && key == "" {
		cert = s.TLSConfig.Certificates[0]
	} else {
		var err error
		if cert, err = ModelLoadX509KeyPair(crt, key); err != nil {
			return err
		}
	}
	r.Cert = string(cert.Certificate[0])
	return r.serve()
}

// ModelShutdown replaces (*http.Server).Shutdown in the engine.
func ModelShutdown(s *http.Server, ctx context.Context) error {
	r := serverOf(s)
	if !r.shutdown {
		r.shutdown, r.Listens = true, false
		close(r.stop)
	}
	for r.Active > 0 {
		select {
		case <-ctx.Done():
			return ctx.Err()
		case <-r.idle:
		}
	}
	return nil
}

// ModelClose replaces (*http.Server).Close in the engine.
func ModelClose(s *http.Server) error {
	r := serverOf(s)
	if !r.shutdown {
		r.shutdown, r.Listens = true, false
		close(r.stop)
	}
	return nil
}

// ModelConfigureServer replaces http2.ConfigureServer in the engine.
func ModelConfigureServer(*http.Server, *http2.Server) error { return nil }
