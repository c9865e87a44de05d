//go:build verif

package c33

import (
	"context"
	"encoding/json"
	"time"

	sym "github.com/DanLavine/willow/internal/verif_sym"

	"github.com/DanLavine/urlrouter"
	"github.com/DanLavine/willow/internal/verif_harness/hxh"
	"github.com/DanLavine/willow/internal/verif_harness/hxk"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	loc "github.com/DanLavine/willow/pkg/models/api/locker/v1"
)

// asker is one client that asked a running locker for a lock.
type asker struct {
	w     *hxh.Recorder
	leave func()
	back  bool
	t     time.Duration
	lock  *loc.Lock // what it holds
	since int64
}

// locking is the locker behind its API.
type locking struct {
	live
	k    *hxk.Locker
	hold [2]*asker // of a = 0 and a = 1
	wait [2]*asker
}

func newLocking() *locking {
	r := &locking{}
	var mux *urlrouter.Router
	r.k, mux = liveLocker()
	r.mux = mux
	return r
}

// ask sends a request for a lock, and waits until it is answered or sure to wait.
func (r *locking) ask(k int, t time.Duration, gone bool) {
	ctx, cancel := context.WithCancel(context.Background())
	a := &asker{w: hxh.NewRecorder(), leave: cancel, t: 30 * time.Second, since: sym.Now()}
	a.w.Fail = gone
	l := lock(one(k), nil)
	if t > 0 {
		l, a.t = lock(one(k), &t), t
	}
	go func() {
		r.mux.ServeHTTP(a.w, hxh.Request(ctx, "POST", "/v1/locks", hxh.Body(l), true))
		a.back = true
	}()
	sym.Quiesce()
	if r.hold[k] != nil {
		sym.Assert(!a.back, "a request for a lock that is held waits")
		r.wait[k] = a
		return
	}
	r.granted(k, a, sym.Now())
}

func (r *locking) granted(k int, a *asker, at int64) {
	sym.Assert(a.back, "a lock that is free is handed out")
	if a.w.Fail { // and not kept
		r.freed(k, at)
		return
	}
	r.check(a.w, 200)
	a.lock = &loc.Lock{}
	sym.Assert(json.Unmarshal(a.w.Body, a.lock) == nil && a.lock.Validate() == nil && isLock(a.lock, one(k), a.t), "the lock that was asked for is handed out")
	a.since = at
	r.hold[k] = a
}

// freed: the lock is free since at, and whoever waits gets it.
func (r *locking) freed(k int, at int64) {
	r.hold[k] = nil
	if a := r.wait[k]; a != nil {
		r.wait[k] = nil
		r.granted(k, a, at)
	}
}

func (r *locking) claim(k, which int) (path string, claim *loc.LockClaim, ok bool) {
	path, claim = "/v1/locks/none", &loc.LockClaim{SessionID: "none"}
	if a := r.hold[k]; a != nil && which > 0 {
		path = "/v1/locks/" + a.lock.State.LockID
		if which > 1 {
			return path, &loc.LockClaim{SessionID: a.lock.State.SessionID}, true
		}
	}
	return path, claim, false
}

func (r *locking) step() {
	switch op := sym.Choose("request", 6); op {
	case 0:
		k := sym.Choose("key", 2)
		if r.wait[k] == nil {
			t := time.Duration(0)
			if sym.Choose("timeout given", 2) == 1 {
				t = 50 * time.Second
			}
			r.ask(k, t, sym.Choose("the client is gone", 2) == 1)
		}
	case 1, 2: // heartbeat, release
		k := sym.Choose("key", 2)
		path, claim, ok := r.claim(k, sym.Choose("claim", 3))
		if op == 1 {
			if !ok {
				w := r.send("POST", path+"/heartbeat", claim, 404, 409, 410)
				sym.Assert(w.Code() != 200, "only a holder heartbeats a lock")
				break
			}
			r.send("POST", path+"/heartbeat", claim, 200)
			r.hold[k].since = sym.Now()
			break
		}
		if !ok {
			r.send("DELETE", path, claim, 404, 409, 410)
			break
		}
		r.send("DELETE", path, claim, 204)
		r.freed(k, sym.Now())
	case 3: // the client that waits leaves
		for k, a := range r.wait {
			if a != nil {
				a.leave()
				sym.Quiesce()
				sym.Assert(a.back && a.w.Code() != 200, "a client that leaves gets no lock")
				r.wait[k] = nil
			}
		}
	case 4:
		sym.Advance(20 * time.Second)
		sym.Quiesce()
		for k, a := range r.hold {
			if a != nil && sym.Now()-a.since >= int64(a.t) {
				r.freed(k, a.since+int64(a.t))
			}
		}
	case 5:
		w := r.send("POST", "/v1/locks", []any{&loc.Lock{}, lock(one(0), ptr(-time.Second)), lock(none, nil)}[sym.Choose("bad", 3)], 400)
		sym.Assert(len(w.Body) > 0, "a refusal says why")
	}
	r.show()
}

// show: the locks that the service shows are those that are held.
func (r *locking) show() {
	w := r.send("GET", "/v1/locks", &qa.AssociatedActionQuery{}, 200)
	var got loc.Locks
	sym.Assert(json.Unmarshal(w.Body, &got) == nil && got.Validate() == nil, "what the service shows is valid")
	n := 0
	for k, a := range r.hold {
		if a == nil {
			continue
		}
		n++
		clients := uint64(1)
		if r.wait[k] != nil {
			clients++
		}
		found := false
		for _, l := range got {
			if l.State.LockID == a.lock.State.LockID {
				found = true
				sym.Assert(l.Spec.DBDefinition.KeyValues["a"].Data == any(k), "a lock is shown with its key values")
				sym.Assert(l.State.LocksHeldOrWaiting == clients, "a lock is shown with how many hold it or wait")
			}
		}
		sym.Assert(found, "a lock that is held is shown")
	}
	sym.Assert(len(got) == n, "only locks that are held are shown")
}

// CheckRunningLocker: whatever is asked, the lock manager behind its API answers and goes on.
//
// verif: devs=0 maporder=insertion ticks=20
func CheckRunningLocker() {
	r := newLocking()
	if sym.Choose("held", 2) == 1 {
		r.ask(0, 0, false)
		if sym.Choose("awaited", 2) == 1 {
			r.ask(0, 0, false)
		}
	}
	for i, n := 0, sym.Bound("requests", 2, 4); i < n; i++ {
		r.step()
	}
	sym.Reach("end")
}
