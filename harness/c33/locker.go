//go:build verif

package c33

import (
	"context"
	"encoding/json"
	"time"

	sym "github.com/DanLavine/willow/internal/verif_sym"

	"github.com/DanLavine/urlrouter"
	"github.com/DanLavine/willow/internal/config"
	"github.com/DanLavine/willow/internal/locker/api/v1/handlers"
	"github.com/DanLavine/willow/internal/locker/api/v1/router"
	"github.com/DanLavine/willow/pkg/models/api/common/errors"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	loc "github.com/DanLavine/willow/pkg/models/api/locker/v1"
	"go.uber.org/zap"
)

type locks struct{ *service }

func (f locks) Execute(ctx context.Context) error { return nil }
func (f locks) Initialize() error                 { return nil }
func (f locks) Cleanup() error                    { return nil }

func (f locks) ObtainLock(ctx context.Context, l *loc.Lock) *loc.Lock {
	if f.took("create", l) != nil || f.reply == nil {
		return nil
	}
	return f.reply.(*loc.Lock)
}

func (f locks) Heartbeat(ctx context.Context, id string, claim *loc.LockClaim) *errors.ServerError {
	return f.took("heartbeat", claim, id)
}

func (f locks) LocksQuery(ctx context.Context, q *qa.AssociatedActionQuery) loc.Locks {
	f.took("query", q)
	return f.reply.(loc.Locks)
}

func (f locks) Release(ctx context.Context, id string, claim *loc.LockClaim) *errors.ServerError {
	return f.took("release", claim, id)
}

const lockTimeout = 7 * time.Second

func lockMux(f *service) *urlrouter.Router {
	mux := urlrouter.New()
	t := lockTimeout
	router.AddV1LockerRoutes(zap.NewNop(), mux, handlers.NewLockHandler(&config.LockerConfig{LockDefaultTimeout: &t}, locks{f}))
	return mux
}

// CheckLockHeartbeatRelease: heartbeats and releases answer with what became of them.
func CheckLockHeartbeatRelease() {
	s := &service{}
	claim := &loc.LockClaim{SessionID: []string{"s", "t"}[sym.Choose("session", 2)]}
	e := endpoint{args: []string{"lock 1"}, body: claim, bad: &loc.LockClaim{}, same: func(x any) bool { return x.(*loc.LockClaim).SessionID == claim.SessionID }}
	if sym.Bool("release") {
		e.method, e.path, e.op, e.ok = "DELETE", "/v1/locks/lock%201", "release", 204
	} else {
		e.method, e.path, e.op, e.ok = "POST", "/v1/locks/lock%201/heartbeat", "heartbeat", 200
	}
	ask(lockMux(s), s, e)
	once(s)
}

// CheckLockQuery: the locks that a query finds are shown.
func CheckLockQuery() {
	s := &service{}
	kv := key()
	t := time.Duration(sym.IntRange("timeout", 1, 1000))
	found := loc.Locks{}
	for i, n := 0, sym.Choose("locks", 3); i < n; i++ {
		l := lock(kv, &t)
		l.State = &loc.LockState{LockID: "id", SessionID: "s", LocksHeldOrWaiting: uint64(sym.IntRange("clients", 1, 9))}
		found = append(found, l)
	}
	e := endpoint{method: "GET", path: "/v1/locks", op: "query", body: selectKey(kv), bad: badQuery(), same: isSelect(kv), ok: 200, reply: found}
	e.shows = func(b []byte) bool {
		var got loc.Locks
		if json.Unmarshal(b, &got) != nil || len(got) != len(found) {
			return false
		}
		ok := true
		for i, l := range got {
			ok = sym.And(ok, isLock(l, kv, t) && l.State != nil && l.State.LockID == "id" && l.State.LocksHeldOrWaiting == found[i].State.LocksHeldOrWaiting)
		}
		return ok
	}
	e.certain = true
	ask(lockMux(s), s, e)
	once(s)
}

// CheckLockCreate: a client that gets a lock is told so, one that cannot be told does not keep it, and one
// that gets none is asked to try again.
func CheckLockCreate() {
	s := &service{}
	kv := key()
	t := time.Duration(sym.IntRange("timeout", 1, 1000))
	given := sym.Bool("timeout given")
	e := endpoint{method: "POST", path: "/v1/locks", op: "create", ok: 200, certain: true}
	want := lockTimeout
	l := lock(kv, nil)
	if given {
		l, want = lock(kv, &t), t
	} else if sym.Bool("no properties") {
		l.Spec.Properties = nil
	} else {
		l.Spec.Properties = &loc.LockProperties{}
	}
	e.body = l
	e.bad = []*loc.Lock{{}, lock(none, nil), lock(kv, ptr(-t)), {Spec: &loc.LockSpec{}}, {Spec: lock(kv, nil).Spec, State: &loc.LockState{LockID: "mine", SessionID: "mine", LocksHeldOrWaiting: 1}}}[sym.Choose("bad", 5)]
	e.same = func(x any) bool { return isLock(x.(*loc.Lock), kv, want) && x.(*loc.Lock).State == nil }
	got := sym.Bool("obtained")
	if got {
		r := lock(kv, &want)
		r.State = &loc.LockState{LockID: "the lock", SessionID: "the session", LocksHeldOrWaiting: 1}
		e.reply = r
		e.shows = func(b []byte) bool {
			x := &loc.Lock{}
			return json.Unmarshal(b, x) == nil && isLock(x, kv, want) && x.State != nil && x.State.LockID == "the lock" && x.State.SessionID == "the session"
		}
	} else {
		e.ok = 503
	}
	w := ask(lockMux(s), s, e)
	if len(s.calls) == 0 {
		return
	}
	lost := got && w.Fail
	if !lost {
		sym.Assert(len(s.calls) == 1, "a lock that was handed out is kept")
		return
	}
	sym.Assert(len(s.calls) == 2 && s.calls[1].op == "release", "a lock that could not be handed out is released")
	sym.Assert(s.calls[1].args[0] == "the lock" && s.calls[1].body.(*loc.LockClaim).SessionID == "the session", "the lock that could not be handed out is the one released")
}
