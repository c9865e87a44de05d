//go:build verif

// Package c39: how the services are reached: with the configured certificates or not at all, until they are told to stop.
package c39

import (
	"context"
	"crypto/tls"
	"net/http"

	"github.com/DanLavine/urlrouter"
	"github.com/DanLavine/willow/internal/config"
	limapi "github.com/DanLavine/willow/internal/limiter/api"
	locapi "github.com/DanLavine/willow/internal/locker/api"
	"github.com/DanLavine/willow/internal/verif_harness/hxh"
	sym "github.com/DanLavine/willow/internal/verif_sym"
	wilapi "github.com/DanLavine/willow/internal/willow/api"
	"github.com/DanLavine/willow/pkg/clients"
	"go.uber.org/zap"
	"golang.org/x/net/http2"
)

type task interface {
	Initialize() error
	Cleanup() error
	Execute(ctx context.Context) error
}

// file picks a file of one of the contents; the first two are no file name, and the name of no file.
func file(name string, contents ...string) (path, content string) {
	switch i := sym.Choose(name, 2+len(contents)); i {
	case 0:
		return "", ""
	case 1:
		return "/missing " + name, ""
	default:
		path, content = "/"+name, contents[i-2]
		hxh.Files[path] = content
		return
	}
}

const garbage = "nothing useful"

type service struct {
	task
	mux  *urlrouter.Router
	port string
}

func start(insecure bool, ca, key, crt string) *service {
	s := &service{mux: urlrouter.New(), port: "8123"}
	switch sym.Choose("service", 3) {
	case 0:
		s.task = limapi.NewLimiterTCP(zap.NewNop(), &config.LimiterConfig{LimiterPort: &s.port, InsecureHttp: &insecure, ServerCA: &ca, ServerKey: &key, ServerCRT: &crt}, s.mux)
	case 1:
		s.task = locapi.NewLockerTCP(zap.NewNop(), &config.LockerConfig{Port: &s.port, InsecureHttp: &insecure, ServerCA: &ca, ServerKey: &key, ServerCRT: &crt}, s.mux)
	case 2:
		s.task = wilapi.NewWillowTCP(zap.NewNop(), &config.WillowConfig{Port: &s.port, InsecureHttp: &insecure, ServerCA: &ca, ServerKey: &key, ServerCRT: &crt}, s.mux)
	}
	return s
}

// CheckServer: a service listens at its port, with TLS and the configured certificate unless it is configured to
// be insecure, and does not start when a file is not what it should be.
//
// verif: native=off
func CheckServer() {
	insecure := sym.Choose("insecure", 2) == 1
	var ca, caIs, key, crt string
	ok := true
	if !insecure {
		var keyIs, crtIs string
		ca, caIs = file("ca", garbage, "ca:A")
		key, keyIs = file("key", garbage, "key:1", "key:2")
		crt, crtIs = file("crt", garbage, "cert:1 by A")
		ok = keyIs == "key:1" && crtIs == "cert:1 by A" && (ca == "" || caIs == "ca:A")
	}
	s := start(insecure, ca, key, crt)
	err := s.Initialize()
	sym.Assert((err == nil) == ok, "a service starts exactly when its certificates can be used")
	if err != nil {
		sym.Assert(hxh.At(":8123") == nil, "a service that does not start is not reachable")
		sym.Reach("refused")
		return
	}
	taken := sym.Choose("port taken", 2) == 1
	hxh.Taken[":8123"] = taken
	ctx, stop := context.WithCancel(context.Background())
	done := make(chan error, 1)
	go func() { done <- s.Execute(ctx) }()
	sym.Quiesce()
	if taken {
		sym.Assert(len(done) == 1 && <-done != nil, "a service that cannot listen reports it")
		stop()
		sym.Quiesce()
		sym.Reach("taken")
		return
	}
	sym.Assert(len(done) == 0, "a service runs until it is told to stop")
	r := hxh.At(":8123")
	sym.Assert(r != nil, "a service listens at its port")
	sym.Assert(r.TLS == !insecure, "a service uses TLS unless it is configured to be insecure")
	sym.Assert(insecure || r.Cert == "cert:1 by A", "a service uses the certificate it is configured with")
	answer := r.Ask("GET", "/health")
	sym.Quiesce()
	sym.Assert(len(answer) == 1 && <-answer == http.StatusOK, "a service that runs says that it is healthy")
	stop()
	sym.Quiesce()
	sym.Assert(len(done) == 1 && <-done == nil, "a service that is told to stop stops")
	sym.Assert(hxh.At(":8123") == nil, "a service that stopped is not reachable")
	sym.Reach("served")
}

// CheckStop: a service that is told to stop answers the requests it has, takes no others and then stops.
//
// verif: native=off
func CheckStop() {
	insecure := sym.Choose("insecure", 2) == 1
	hxh.Files["/key"], hxh.Files["/crt"] = "key:1", "cert:1 by A"
	s := start(insecure, "", "/key", "/crt")
	hold := make(chan struct{})
	s.mux.HandleFunc("GET", "/slow", func(w http.ResponseWriter, _ *http.Request) {
		<-hold
		w.WriteHeader(http.StatusAccepted)
	})
	sym.Assert(s.Initialize() == nil, "a service starts")
	ctx, stop := context.WithCancel(context.Background())
	early := sym.Choose("stopped early", 2) == 1
	if early {
		stop()
	}
	done := make(chan error, 1)
	go func() { done <- s.Execute(ctx) }()
	sym.Quiesce()
	if early {
		sym.Assert(len(done) == 1 && <-done == nil, "a service that is told to stop stops")
		sym.Assert(hxh.At(":8123") == nil, "a service that stopped is not reachable")
		sym.Reach("early")
		return
	}
	r := hxh.At(":8123")
	n := sym.Choose("requests", 3)
	var answers []<-chan int
	for i := 0; i < n; i++ {
		answers = append(answers, r.Ask("GET", "/slow"))
	}
	sym.Quiesce()
	if sym.Choose("breaks", 2) == 1 {
		r.Break()
		sym.Quiesce()
		sym.Assert(len(done) == 1 && <-done != nil, "a service that cannot be reached any more reports it")
		sym.Reach("broken")
		close(hold)
		stop()
		sym.Quiesce()
		return
	}
	stop()
	sym.Quiesce()
	sym.Assert(hxh.At(":8123") == nil, "a service that is told to stop takes no more requests")
	sym.Assert((len(done) == 0) == (n > 0), "a service stops once the requests it has are answered")
	close(hold)
	sym.Quiesce()
	for _, a := range answers {
		sym.Assert(len(a) == 1 && <-a == http.StatusAccepted, "the requests a service has are answered before it stops")
	}
	sym.Assert(len(done) == 1 && <-done == nil, "a service that is told to stop stops")
	sym.Reach("stopped")
}

// CheckClient: a client can be set up exactly when its configuration is usable, and then presents the configured
// certificate and trusts only the configured authority.
//
// verif: native=off
func CheckClient() {
	cfg := &clients.Config{}
	if sym.Choose("url", 2) == 1 {
		cfg.URL = "https://limiter"
	}
	var ca, key, crt string
	cfg.CAFile, ca = file("ca", garbage, "ca:A", "ca:B")
	cfg.ClientKeyFile, key = file("key", garbage, "key:1", "key:2")
	cfg.ClientCRTFile, crt = file("crt", garbage, "cert:1 by A")
	none := cfg.CAFile == "" && cfg.ClientKeyFile == "" && cfg.ClientCRTFile == ""
	ok := cfg.URL != "" && (none || key == "key:1" && crt == "cert:1 by A" && (cfg.CAFile == "" || ca == "ca:A"))
	c, err := clients.NewHTTPClient(cfg)
	sym.Assert((err == nil) == ok, "a client can be set up exactly when its configuration is usable")
	if err != nil {
		sym.Reach("refused")
		return
	}
	var t *tls.Config
	switch tr := c.Transport.(type) {
	case *http2.Transport:
		t = tr.TLSClientConfig
	case *http.Transport:
		t = tr.TLSClientConfig
	}
	sym.Assert(t != nil || none, "a client uses the certificates it is configured with")
	if t != nil {
		sym.Assert(!t.InsecureSkipVerify, "a client verifies the service's certificate")
		sym.Assert(none == (len(t.Certificates) == 0), "a client uses the certificates it is configured with")
		sym.Assert(none || len(t.Certificates) == 1 && string(t.Certificates[0].Certificate[0]) == "cert:1 by A", "a client uses the certificates it is configured with")
		trusts := hxh.Pools[t.RootCAs]
		sym.Assert((t.RootCAs == nil) == (cfg.CAFile == ""), "a client trusts only the authority it is configured with")
		sym.Assert(cfg.CAFile == "" || len(trusts) == 1 && trusts[0] == "A", "a client trusts only the authority it is configured with")
	}
	sym.Reach("set up")
}
