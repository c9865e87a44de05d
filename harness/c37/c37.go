//go:build verif

// Package c37: the configuration of the services.
package c37

import (
	"fmt"
	"os"
	"time"

	"github.com/DanLavine/willow/internal/config"
	"github.com/DanLavine/willow/internal/verif_harness/hxh"
	sym "github.com/DanLavine/willow/internal/verif_sym"
)

var _ = hxh.ModelGetenv

// setting is one setting of a service, and how it can be set.
type setting struct {
	flag, env, def string
	value          string // what the service is told
}

// service is one of the services.
type service struct {
	log, port, insecure, ca, key, crt *setting
	rest                              []*setting
	timeout, storage                  *setting
	start                             func(args []string) (func(*setting) string, error)
}

func (s *service) settings() []*setting {
	l := []*setting{s.log, s.port, s.insecure, s.ca, s.key, s.crt}
	l = append(l, s.rest...)
	if s.timeout != nil {
		l = append(l, s.timeout)
	}
	if s.storage != nil {
		l = append(l, s.storage)
	}
	return l
}

func set(flag, env, def string) *setting { return &setting{flag: flag, env: env, def: def} }

// common are the settings that every service has.
func common(prefix, log, ca, port string) *service {
	return &service{
		log:      set("log-level", log, "info"),
		port:     set("port", prefix+"_PORT", port),
		insecure: set("insecure-http", prefix+"_INSECURE_HTTP", "false"),
		ca:       set("server-ca", ca, ""),
		key:      set("server-key", prefix+"_SERVER_KEY", ""),
		crt:      set("server-crt", prefix+"_SERVER_CRT", ""),
	}
}

// pick is one of the services.
func pick() *service {
	var s *service
	switch sym.Choose("service", 3) {
	case 0:
		s = common("WILLOW", "LOG_LEVEL", "WILLOW_CA", "8080")
		s.storage = set("storage-type", "STORAGE_TYPE", "memory")
		s.rest = []*setting{
			set("limiter-url", "WILLOW_LIMITER_URL", ""), set("limiter-client-ca", "WILLOW_LIMITER_CA", ""),
			set("limiter-client-key", "WILLOW_LIMITER_CLIENT_KEY", ""), set("limiter-client-crt", "WILLOW_LIMITER_CLIENT_CRT", ""),
		}
		s.start = func(args []string) (func(*setting) string, error) {
			c, err := config.Willow(args)
			if err != nil {
				return nil, err
			}
			r := []*string{c.LimiterURL, c.LimiterClientCA, c.LimiterClientKey, c.LimiterClientCRT}
			return s.read(c.LogLevel(), c.Port, c.InsecureHttp, []*string{c.ServerCA, c.ServerKey, c.ServerCRT}, r, c.StorageConfig.Type, nil), nil
		}
	case 1:
		s = common("LIMITER", "LOG_LEVEL", "LIMITER_SERVER_CA", "8082")
		s.rest = []*setting{
			set("locker-url", "LIMITER_LOCKER_URL", ""), set("locker-client-ca", "LIMITER_LOCKER_CA", ""),
			set("locker-client-key", "LIMITER_LOCKER_CLIENT_KEY", ""), set("locker-client-crt", "LIMITER_LOCKER_CLIENT_CRT", ""),
		}
		s.start = func(args []string) (func(*setting) string, error) {
			c, err := config.Limiter(args)
			if err != nil {
				return nil, err
			}
			r := []*string{c.LockerURL, c.LockerClientCA, c.LockerClientKey, c.LockerClientCRT}
			return s.read(c.LogLevel(), c.LimiterPort, c.InsecureHttp, []*string{c.ServerCA, c.ServerKey, c.ServerCRT}, r, nil, nil), nil
		}
	default:
		s = common("LOCKER", "LOCKER_LOG_LEVEL", "LOCKER_SERVER_CA", "8083")
		s.timeout = set("lock-default-timeout", "LOCKER_LOCK_DEFAULT_TIMEOUT", "5s")
		s.start = func(args []string) (func(*setting) string, error) {
			c, err := config.Locker(args)
			if err != nil {
				return nil, err
			}
			return s.read(c.LogLevel(), c.Port, c.InsecureHttp, []*string{c.ServerCA, c.ServerKey, c.ServerCRT}, nil, nil, c.LockDefaultTimeout), nil
		}
	}
	for _, x := range s.settings() {
		x.value = x.def
		_ = os.Unsetenv(x.env)
	}
	return s
}

// read tells what a setting of the configuration is.
func (s *service) read(log string, port *string, insecure *bool, tls []*string, rest []*string, storage *string, timeout *time.Duration) func(*setting) string {
	return func(x *setting) string {
		switch x {
		case s.log:
			return log
		case s.port:
			return *port
		case s.insecure:
			return fmt.Sprint(*insecure)
		case s.ca:
			return *tls[0]
		case s.key:
			return *tls[1]
		case s.crt:
			return *tls[2]
		case s.timeout:
			return timeout.String()
		case s.storage:
			return *storage
		}
		for i, r := range s.rest {
			if x == r {
				return *rest[i]
			}
		}
		return "?"
	}
}

// give sets a setting by flag, by environment variable or both. What is in the environment counts.
func (x *setting) give(args []string, flag, env *string) []string {
	if flag != nil {
		x.value = *flag
		args = append(args, "-"+x.flag+"="+*flag)
	}
	if env != nil {
		x.value = *env
		_ = os.Setenv(x.env, *env)
	}
	return args
}

// some gives the setting one of the values in some way.
func (x *setting) some(args []string, values ...string) []string {
	way := sym.Choose("way", 4)
	var flag, env *string
	if way&1 == 1 {
		flag = &values[sym.Choose("flag", len(values))]
	}
	if way&2 == 2 {
		env = &values[sym.Choose("env", len(values))]
	}
	return x.give(args, flag, env)
}

// check starts the service: it takes its settings as told, if they are valid.
func (s *service) check(args []string, valid bool) {
	got, err := s.start(args)
	sym.Assert((err == nil) == valid, "a service starts exactly when its configuration is valid")
	if err != nil {
		sym.Reach("refused")
		return
	}
	for _, x := range s.settings() {
		sym.Assert(got(x) == x.value, "a setting is what the environment says, or else the command line, or else its default")
	}
	sym.Reach("accepted")
}

// secure tells whether the transport is configured consistently.
func (s *service) secure() bool {
	if s.insecure.value == "true" {
		return s.ca.value == "" && s.key.value == "" && s.crt.value == ""
	}
	return s.key.value != "" && s.crt.value != ""
}

// CheckTransport: a service runs with its key and certificate, or without any of them when it is told so.
func CheckTransport() {
	s := pick()
	args := s.insecure.some(nil, "true", "false")
	for i, x := range []*setting{s.ca, s.key, s.crt} {
		switch sym.Choose("file", 4) {
		case 1:
			f := fmt.Sprint("flag", i)
			args = x.give(args, &f, nil)
		case 2:
			e := fmt.Sprint("env", i)
			args = x.give(args, nil, &e)
		case 3:
			f, e := fmt.Sprint("flag", i), fmt.Sprint("env", i)
			args = x.give(args, &f, &e)
		}
	}
	s.check(args, s.secure())
}

// plain is a configuration that needs nothing else.
func (s *service) plain() []string {
	s.insecure.value = "true"
	return []string{"-insecure-http"}
}

// CheckSettings: every other setting is what it is told to be, whatever that is.
func CheckSettings() {
	s := pick()
	args := s.plain()
	flag, env := sym.String("flag", 3), sym.String("env", 3)
	sym.Assume(len(env) > 0)
	for _, c := range []byte(flag + env) {
		sym.Assume(c > 0 && c < 128)
	}
	l := append([]*setting{s.log}, s.rest...)
	if s.storage != nil {
		l = append(l, s.storage)
	}
	x := l[sym.Choose("setting", len(l))]
	switch sym.Choose("way", 3) {
	case 0:
		args = x.give(args, &flag, nil)
	case 1:
		args = x.give(args, nil, &env)
	default:
		args = x.give(args, &flag, &env)
	}
	s.check(args, x != s.log && x != s.storage) // the names of levels and storages are longer
}

// CheckNames: the log level and the storage are ones that exist.
func CheckNames() {
	s := pick()
	args := s.plain()
	args = s.log.some(args, "debug", "info", "error", "Info")
	valid := s.log.value == "debug" || s.log.value == "info"
	if s.storage != nil {
		args = s.storage.some(args, "memory", "disk", "invalid")
		valid = valid && s.storage.value == "memory"
	}
	s.check(args, valid)
}

// CheckPort: the port is a number that a port can have.
func CheckPort() {
	s := pick()
	args := s.plain()
	max := sym.Bound("digits", 6, 8)
	p := sym.String("port", max)
	sym.Assume(len(p) > 0)
	n, digits := 0, true
	negative := p[0] == '-'
	if negative {
		sym.Assume(len(p) > 1)
	}
	for i := 0; i < len(p); i++ {
		c := p[i]
		sym.Assume(c >= '0' && c <= '9' || c == '-' || c == 'a')
		if c >= '0' && c <= '9' {
			n = n*10 + int(c-'0')
		} else if i > 0 || c == 'a' {
			digits = false
		}
	}
	if sym.Bool("flag") {
		args = s.port.give(args, &p, nil)
	} else {
		args = s.port.give(args, nil, &p)
	}
	s.check(args, digits && n <= 65535 && (!negative || n == 0))
}

// CheckTimeout: locks time out after some time.
func CheckTimeout() {
	s := pick()
	if s.timeout == nil {
		return
	}
	args := s.plain()
	values := []string{"8s", "1ns", "0s", "-8s", "1h0m0s"}
	if sym.Choose("only by environment", 2) == 1 {
		v := append(values, "bad", "8")[sym.Choose("env", len(values)+2)]
		args = s.timeout.give(args, nil, &v)
	} else {
		args = s.timeout.some(args, values...)
	}
	d, err := time.ParseDuration(s.timeout.value)
	if err == nil {
		s.timeout.value = d.String()
	}
	s.check(args, err == nil && d > 0)
}
