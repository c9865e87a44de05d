//go:build verif

// Package c34: what the client libraries promise about a lock or an item that is held.
package c34

import (
	"context"
	"net/http"
	"strings"
	"time"

	sym "github.com/DanLavine/willow/internal/verif_sym"

	"github.com/DanLavine/urlrouter"
	"github.com/DanLavine/willow/internal/config"
	"github.com/DanLavine/willow/internal/locker/api/v1/handlers"
	"github.com/DanLavine/willow/internal/locker/api/v1/router"
	"github.com/DanLavine/willow/internal/verif_harness/hx"
	"github.com/DanLavine/willow/internal/verif_harness/hxh"
	"github.com/DanLavine/willow/pkg/clients"
	lockerclient "github.com/DanLavine/willow/pkg/clients/locker_client"
	"github.com/DanLavine/willow/pkg/models/api/common/errors"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	loc "github.com/DanLavine/willow/pkg/models/api/locker/v1"
	dt "github.com/DanLavine/willow/pkg/models/datatypes"
	"go.uber.org/zap"
)

// The ways a request can end.
const (
	fine      = iota
	lost      // the service says that the lock is not the client's
	fails     // the service fails
	broken    // the connection breaks before the service sees the request
	unheard   // the connection breaks after the service carried the request out
	silent    // there is never an answer
	slow      // the answer takes a while
	outcomes_ // how many
)

// service is the far end: a network that may fail, the service's API, and a service that notes what it is
// asked.
type service struct {
	outcome func(op string) int

	ctx      context.Context // of the request being served
	beats    int
	releases int
	last     int64 // when the client last heard that a heartbeat was accepted
	refused  bool  // the client heard that the lock is lost
	locks    map[string]string
	creates  int
	block    func(kvs dt.KeyValues, ctx context.Context) bool
}

func (s *service) Initialize() error                 { return nil }
func (s *service) Cleanup() error                    { return nil }
func (s *service) Execute(ctx context.Context) error { return nil }

func id(kvs dt.KeyValues) string {
	keys := kvs.SortedKeys()
	return strings.Join(keys, "-")
}

func (s *service) ObtainLock(ctx context.Context, l *loc.Lock) *loc.Lock {
	s.creates++
	if s.block != nil && !s.block(dt.KeyValues(l.Spec.DBDefinition.KeyValues), ctx) {
		return nil
	}
	r := *l
	r.State = &loc.LockState{LockID: id(dt.KeyValues(l.Spec.DBDefinition.KeyValues)), SessionID: "session", LocksHeldOrWaiting: 1}
	return &r
}
func (s *service) LocksQuery(context.Context, *qa.AssociatedActionQuery) loc.Locks { return nil }
func (s *service) Heartbeat(_ context.Context, id string, c *loc.LockClaim) *errors.ServerError {
	return s.answer(c.SessionID == "session")
}
func (s *service) Release(_ context.Context, id string, c *loc.LockClaim) *errors.ServerError {
	return s.answer(c.SessionID == "session")
}

var now int // the outcome of the request being served

func (s *service) answer(mine bool) *errors.ServerError {
	sym.Assert(mine, "the lock is named by the session it was handed out with")
	switch now {
	case lost:
		return &errors.ServerError{StatusCode: http.StatusConflict, Message: "not yours"}
	case fails:
		return errors.InternalServerError
	}
	return nil
}

func (s *service) network(api http.Handler) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		op := "create"
		switch {
		case r.Method == "DELETE":
			op = "release"
			s.releases++
		case strings.HasSuffix(r.URL.Path, "heartbeat"):
			op = "beat"
			s.beats++
		}
		how := fine
		if op != "create" {
			how = s.outcome(op)
		}
		now = how
		switch how {
		case broken:
			panic(http.ErrAbortHandler)
		case silent:
			<-r.Context().Done()
			return
		case unheard:
			api.ServeHTTP(hxh.NewRecorder(), r)
			panic(http.ErrAbortHandler)
		}
		rec := hxh.NewRecorder()
		api.ServeHTTP(rec, r)
		if how == slow {
			time.Sleep(4 * time.Second)
		}
		if op == "beat" && (how == fine || how == slow) {
			sym.Assert(rec.Code() == 200, "a heartbeat is one that the service accepts")
			if r.Context().Err() == nil { // otherwise the client did not wait for it
				s.last = sym.Now()
			}
		}
		if op == "beat" && how == lost {
			s.refused = true
		}
		if op == "release" && how == fine {
			sym.Assert(rec.Code() == 204, "a release is one that the service accepts")
		}
		for k, v := range rec.Headers {
			w.Header()[k] = v
		}
		w.WriteHeader(rec.Code())
		_, _ = w.Write(rec.Body)
	})
}

func (s *service) client() *lockerclient.LockClient {
	mux := urlrouter.New()
	t := 30 * time.Second
	router.AddV1LockerRoutes(zap.NewNop(), mux, handlers.NewLockHandler(&config.LockerConfig{LockDefaultTimeout: &t}, s))
	c, err := lockerclient.NewLockClient(&clients.Config{URL: hxh.Listen(s.network(mux))})
	sym.Assume(err == nil)
	return c
}

func closed(c <-chan struct{}) bool {
	select {
	case <-c:
		return true
	default:
		return false
	}
}

func set(keys ...string) dt.KeyValues {
	kvs := dt.KeyValues{}
	for i, k := range keys {
		kvs[k] = hx.IntKey(i).EV
	}
	return kvs
}

func request(kvs dt.KeyValues, t time.Duration) *loc.Lock {
	return &loc.Lock{Spec: &loc.LockSpec{DBDefinition: &loc.LockDBDefinition{KeyValues: dt.TypedKeyValues(kvs)}, Properties: &loc.LockProperties{Timeout: &t}}}
}

// CheckLockHeld: as long as heartbeats are accepted a lock is not given up, and when they are not, its holder
// learns within the timeout that the lock is lost.
//
// verif: native=off
func CheckLockHeld() {
	s := &service{}
	s.outcome = func(op string) int { return sym.Choose("outcome", outcomes_) }
	c := s.client()
	t := 30 * time.Second
	var callback func(dt.KeyValues, error)
	told := 0
	if sym.Bool("callback") {
		callback = func(_ dt.KeyValues, err error) {
			sym.Assert(err != nil, "the callback is about an error")
			told++
		}
	}
	l, err := c.ObtainLock(context.Background(), request(set("a"), t), callback)
	sym.Assert(l != nil && err == nil, "a lock that was handed out is obtained")
	s.last = sym.Now()
	for i, n := 0, sym.Bound("steps", 8, 12); i < n; i++ {
		sym.Advance(5 * time.Second)
		sym.Quiesce()
		since := time.Duration(sym.Now() - s.last)
		if closed(l.Done()) {
			sym.Assert(s.refused || since >= t*9/10, "a lock whose heartbeats are accepted is not given up")
			sym.Reach("lost")
			beats := s.beats
			sym.Advance(t)
			sym.Assert(s.beats == beats, "no heartbeats are sent for a lock that is lost")
			return
		}
		sym.Assert(!s.refused, "a holder learns at once that the service took its lock away")
		sym.Assert(since <= t, "a holder learns within the timeout that its lock is lost")
	}
	sym.Reach("held")
}

// CheckLockRelease: a lock is released once, whenever that is asked for; it is not held from then on.
//
// verif: native=off
func CheckLockRelease() {
	s := &service{}
	releasing := false
	s.outcome = func(op string) int {
		if op == "beat" {
			if releasing {
				return sym.Choose("heartbeat", outcomes_)
			}
			return []int{fine, silent}[sym.Choose("heartbeat", 2)]
		}
		return sym.Choose("release", silent)
	}
	c := s.client()
	t := 30 * time.Second
	l, err := c.ObtainLock(context.Background(), request(set("a"), t), nil)
	sym.Assert(l != nil && err == nil, "a lock that was handed out is obtained")
	sym.Advance([]time.Duration{0, 9 * time.Second, 20 * time.Second}[sym.Choose("after", 3)])
	releasing = true
	errs := make([]error, 2)
	back := make([]bool, 2)
	for i := range errs {
		go func() {
			errs[i] = l.Release(context.Background())
			sym.Assert(closed(l.Done()), "a lock that was released is not held")
			back[i] = true
		}()
	}
	sym.Quiesce()
	sym.Assert(back[0] && back[1], "releasing a lock ends")
	sym.Assert(s.releases == 1, "a lock is released once")
	sym.Assert(errs[0] != nil || errs[1] != nil, "only one release is successful")
	beats := s.beats
	sym.Advance(2 * t)
	sym.Assert(s.beats == beats, "no heartbeats are sent for a lock that was released")
	sym.Assert(s.releases == 1, "a lock is released once")

	again, err := c.ObtainLock(context.Background(), request(set("a"), t), nil)
	sym.Assert(again != nil && err == nil && s.creates == 2, "a lock that was released can be obtained again")
	sym.Assert(!closed(again.Done()), "a lock that was obtained is held")
}

// CheckLockShared: who asks for a lock that the client already holds, or is waiting for, shares it; a request
// that fails or is given up leaves the others to themselves.
//
// verif: native=off
func CheckLockShared() {
	s := &service{outcome: func(string) int { return fine }}
	first := sym.Choose("first", 3) // obtains the lock, is given up, fails
	go1 := make(chan struct{})
	s.block = func(kvs dt.KeyValues, ctx context.Context) bool {
		if s.creates > 1 {
			return true
		}
		select {
		case <-go1:
			if first == 2 {
				panic(http.ErrAbortHandler)
			}
			return true
		case <-ctx.Done():
			return false
		}
	}
	c := s.client()
	ls := make([]lockerclient.Lock, 2)
	errs := make([]error, 2)
	back := make([]bool, 2)
	ctx, cancel := context.WithCancel(context.Background())
	obtain := func(i int, ctx context.Context) {
		ls[i], errs[i] = c.ObtainLock(ctx, request(set("a"), time.Minute), nil)
		back[i] = true
	}
	go obtain(0, ctx)
	sym.Quiesce()
	go obtain(1, context.Background())
	if sym.Bool("apart") {
		sym.Quiesce()
	}
	if first == 1 {
		cancel()
	} else {
		close(go1)
	}
	sym.Quiesce()
	sym.Assert(back[0] && back[1], "asking for a lock that is free ends")
	switch first {
	case 0:
		sym.Assert(errs[0] == nil && ls[0] != nil && s.creates == 1 && ls[0] == ls[1], "a lock that the client holds is shared")
	case 1:
		sym.Assert(ls[0] == nil && errs[0] == nil, "who gives up waiting obtains nothing")
	default:
		sym.Assert(ls[0] == nil && errs[0] != nil, "a request that breaks is an error")
	}
	sym.Assert(errs[1] == nil && ls[1] != nil && !closed(ls[1].Done()), "a lock that was handed out is obtained")
	cancel()
}

// CheckLockRestart: while the service restarts, who asks for a lock keeps waiting for it, until the lock is
// obtained or the caller gives up.
//
// verif: native=off
func CheckLockRestart() {
	s := &service{outcome: func(string) int { return fine }}
	restarts := sym.Choose("requests that meet a service that stops", sym.Bound("restarts", 3, 4))
	s.block = func(dt.KeyValues, context.Context) bool { return s.creates > restarts }
	c := s.client()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var l lockerclient.Lock
	var err error
	back := false
	go func() {
		l, err = c.ObtainLock(ctx, request(set("a"), time.Minute), nil)
		back = true
	}()
	gives := sym.Bool("gives up")
	if gives {
		at := sym.Int64("after")
		sym.Assume(at > 0 && at < int64(5*time.Second))
		sym.Advance(time.Duration(at))
		cancel()
	}
	sym.Advance(10 * time.Second)
	sym.Quiesce()
	sym.Assert(back && err == nil, "a caller waits while the service restarts")
	sym.Assert(l != nil || gives && s.creates <= restarts, "a lock is obtained once the service is back")
	sym.Assert(s.creates <= restarts+1, "a lock is asked for once")
	sym.Reach("restart")
}

// CheckLocksApart: what happens to one lock does not depend on another that the client is waiting for.
//
// verif: native=off
func CheckLocksApart() {
	s := &service{}
	refuse := sym.Bool("lost")
	s.outcome = func(op string) int {
		if op == "beat" && refuse {
			return lost
		}
		return fine
	}
	waiting := false
	sets := [][]string{{"a"}, {"b"}, {"a", "b"}}
	mine := sets[sym.Choose("held", 3)]
	other := sets[sym.Choose("wanted", 3)]
	value := sym.Choose("value", 2)
	sym.Assume(value == 1 || strings.Join(mine, "") != strings.Join(other, ""))
	free := make(chan struct{})
	s.block = func(kvs dt.KeyValues, ctx context.Context) bool {
		if s.creates == 1 {
			return true
		}
		waiting = true
		select {
		case <-free:
			return true
		case <-ctx.Done():
			return false
		}
	}
	c := s.client()
	l, err := c.ObtainLock(context.Background(), request(set(mine...), 30*time.Second), nil)
	sym.Assert(l != nil && err == nil, "a lock that was handed out is obtained")
	ctx, cancel := context.WithCancel(context.Background())
	want := set(other...)
	if value == 1 {
		want[other[0]] = hx.IntKey(7).EV
	}
	var l2 lockerclient.Lock
	var err2 error
	back := false
	go func() {
		l2, err2 = c.ObtainLock(ctx, request(want, time.Hour), nil)
		back = true
	}()
	sym.Quiesce()
	sym.Assert(waiting && !back, "a lock is waited for")
	if refuse {
		sym.Advance(10 * time.Second)
		sym.Assert(closed(l.Done()), "a holder learns at once that the service took its lock away")
	} else {
		released := false
		go func() {
			_ = l.Release(context.Background())
			released = true
		}()
		sym.Quiesce()
		sym.Assert(released && s.releases == 1, "a lock is released while another is waited for")
	}
	if sym.Bool("give up") {
		cancel()
		sym.Quiesce()
		sym.Assert(back && l2 == nil && err2 == nil, "who gives up waiting obtains nothing")
	} else {
		close(free)
		sym.Quiesce()
		sym.Assert(back && l2 != nil && err2 == nil, "a lock that was handed out is obtained")
	}
	cancel()
}
