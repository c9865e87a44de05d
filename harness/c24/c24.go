//go:build verif

package c24

import (
	"github.com/DanLavine/willow/internal/verif_harness/hx"
	"github.com/DanLavine/willow/internal/verif_harness/hxk"
	sym "github.com/DanLavine/willow/internal/verif_sym"
	"github.com/DanLavine/willow/pkg/models/api/common/errors"
	loc "github.com/DanLavine/willow/pkg/models/api/locker/v1"
)

func set(mask int, vals ...int) hx.KV {
	kv := hx.KV{Mask: mask}
	for i, v := range vals {
		kv.Val[i] = hx.IntKey(v)
	}
	return kv
}

const (
	short = 10 * hxk.Second
	long  = 1000 * hxk.Second
)

// world is a lock in one of its states, next to another lock.
type world struct {
	l      *hxk.Locker
	kv     hx.KV
	first  *hxk.Client // held the lock first
	second *hxk.Client // asked for it next (nil when nobody did)
	other  *hxk.Client // holds the other lock
	holder *hxk.Client // holds the lock now (nil when it is gone)
}

func build(state int) *world {
	w := &world{l: hxk.New(), kv: set(1, 1)}
	w.other = w.l.Client(nil, set(3, 1, 2), long)
	w.first = w.l.Client(nil, w.kv, short)
	sym.Assert(w.other.Obtain() && w.first.Obtain(), "a free lock is granted")
	w.holder = w.first
	wait := func() {
		w.second = w.l.Client(nil, w.kv, short).Go()
		sym.Quiesce()
	}
	switch state {
	case 0: // held
	case 1: // held, and another client waits
		wait()
	case 2: // released
		w.first.Release()
		w.holder = nil
	case 3: // released and granted to the client that waited
		wait()
		w.first.Release()
		w.holder = w.second
	case 4: // released, gone and granted afresh
		w.first.Release()
		wait()
		w.holder = w.second
	case 5: // expired
		sym.Advance(short)
		w.holder = nil
	case 6: // expired and granted to the client that waited
		wait()
		sym.Advance(short)
		w.holder = w.second
	case 7: // the client that waited left
		wait()
		w.second.Leave()
	}
	sym.Quiesce()
	return w
}

func (w *world) id() string {
	switch sym.Choose("id", 4) {
	case 0:
		return w.first.ID
	case 1:
		if w.second != nil && w.second.Got {
			return w.second.ID
		}
		return w.first.ID
	case 2:
		return w.other.ID
	}
	return sym.String("other id", 3)
}

func (w *world) session() string {
	switch sym.Choose("session", 4) {
	case 0:
		return w.first.Sess
	case 1:
		if w.second != nil && w.second.Got {
			return w.second.Sess
		}
		return w.first.Sess
	case 2:
		return w.other.Sess
	}
	s := sym.String("other session", 3)
	sym.Assume(s != "")
	return s
}

func states(n int) {
	w := build(sym.Choose("state", n))
	id, s := w.id(), w.session()
	release := sym.Bool("release")
	half := w.holder != nil && sym.Bool("later")
	if half {
		sym.Advance(short / 2)
	}
	claim := &loc.LockClaim{SessionID: s}
	var err *errors.ServerError
	if release {
		err = w.l.Release(w.l.Ctx, id, claim)
	} else {
		err = w.l.Heartbeat(w.l.Ctx, id, claim)
	}
	onHeld := w.holder != nil && id == w.holder.ID
	onOther := id == w.other.ID
	granted := onHeld && s == w.holder.Sess || onOther && s == w.other.Sess
	switch {
	case granted:
		sym.Assert(err == nil, "the holder's session is accepted")
	case onHeld || onOther:
		sym.Assert(hxk.Conflict(err), "any other session is refused as a conflict")
	default:
		sym.Assert(hxk.NotFound(err), "an unknown lock is not found")
	}
	sym.Quiesce()

	// what was refused changed nothing, what was accepted only its own lock
	_, n2 := w.l.Find(w.other.KV)
	sym.Assert((n2 == 1) == !(granted && onOther && release), "the other lock is held unless it was released")
	if w.holder == nil {
		_, n := w.l.Find(w.kv)
		sym.Assert(n == 0, "a lock that is gone stays gone")
		sym.Reach("gone")
		return
	}
	if granted && onHeld && release {
		e, n := w.l.Find(w.kv)
		sym.Assert(n == 0 || e.State.SessionID != w.holder.Sess, "a released session no longer holds the lock")
		sym.Reach("released")
		return
	}
	clients := 1
	if w.second != nil && w.second != w.holder && !w.second.Gone {
		clients = 2
	}
	w.l.Listed(w.kv, clients, w.holder, "after the call")
	if half {
		// the lock runs out at the time it would have, or at half a timeout later when the heartbeat was accepted
		sym.Advance(short/2 - 1)
		w.l.Listed(w.kv, clients, w.holder, "shortly before it runs out")
		sym.Advance(2)
		e, n := w.l.Find(w.kv)
		sym.Assert((n == 1 && e.State.SessionID == w.holder.Sess) == (granted && onHeld), "only an accepted heartbeat extends the lock")
	}
	sym.Reach("held")
}

// Every call on a lock in every state, with ids and sessions of this lock, the other lock, and arbitrary ones.
//
// verif: ticks=12
func CheckStates() { states(8) }

// A refused call while the holder and another client use the lock: it changes nothing for them.
func CheckIntruder() {
	w := build(sym.Choose("state", 2))
	release := sym.Bool("release")
	s := sym.String("session", 2)
	sym.Assume(s != "")
	sym.Preemptions(sym.Bound("deviations", 1, 2))
	done := 0
	var refused, given *errors.ServerError
	go func() {
		claim := &loc.LockClaim{SessionID: s}
		if release {
			refused = w.l.Release(w.l.Ctx, w.first.ID, claim)
		} else {
			refused = w.l.Heartbeat(w.l.Ctx, w.first.ID, claim)
		}
		done++
	}()
	go func() {
		given = w.first.Release()
		done++
	}()
	sym.Quiesce()
	sym.Preemptions(0)
	sym.Assert(done == 2, "both calls complete")
	sym.Assert(hxk.Conflict(refused) || hxk.NotFound(refused), "any other session is refused")
	sym.Assert(given == nil, "the holder can release")
	if w.second != nil {
		w.l.Listed(w.kv, 1, w.second, "after")
	} else {
		w.l.Listed(w.kv, 0, nil, "after")
	}
	sym.Reach("intruder")
}

// Two clients release or extend with the same session at once: one release succeeds.
func CheckTwice() {
	w := build(sym.Choose("state", 2))
	both := sym.Bool("both release")
	sym.Preemptions(sym.Bound("deviations", 2, 3))
	done, ok := 0, 0
	claim := &loc.LockClaim{SessionID: w.first.Sess}
	go func() {
		if w.l.Release(w.l.Ctx, w.first.ID, claim) == nil {
			ok++
		}
		done++
	}()
	go func() {
		if both {
			if w.l.Release(w.l.Ctx, w.first.ID, claim) == nil {
				ok++
			}
		} else {
			w.l.Heartbeat(w.l.Ctx, w.first.ID, claim)
		}
		done++
	}()
	sym.Quiesce()
	sym.Preemptions(0)
	sym.Assert(done == 2, "both calls complete")
	sym.Assert(ok == 1, "a session releases its lock once")
	if w.second != nil {
		w.l.Listed(w.kv, 1, w.second, "after")
	} else {
		w.l.Listed(w.kv, 0, nil, "after")
	}
	sym.Reach("twice")
}

// A call with some session at the very moment the lock runs out: only the holder's session is accepted, at most while
// it holds the lock, and whoever waited becomes the holder undisturbed.
//
// verif: timers=early ticks=6
func CheckExpiring() {
	l := hxk.New()
	kv := set(1, 1)
	a := l.Client(nil, kv, short)
	sym.Assert(a.Obtain(), "a free lock is granted")
	from := sym.Now()
	var b *hxk.Client
	if sym.Bound("nobody waits", 0, 1) == 0 || sym.Bool("another client waits") {
		b = l.Client(nil, kv, 1<<50).Go()
	}
	sym.Advance(short / 2)
	own, release := sym.Bool("own session"), sym.Bool("release")
	claim := &loc.LockClaim{SessionID: a.Sess}
	if !own {
		claim.SessionID = sym.String("session", 2)
		sym.Assume(claim.SessionID != "")
	}
	sym.Preemptions(sym.Bound("deviations", 2, 3))
	var err *errors.ServerError
	done := false
	go func() {
		if release {
			err = l.Release(l.Ctx, a.ID, claim)
		} else {
			err = l.Heartbeat(l.Ctx, a.ID, claim)
		}
		done = true
	}()
	sym.Quiesce()
	sym.Preemptions(0)
	sym.Assume(sym.Now() <= from+int64(short))
	sym.Assert(done, "the call is answered")
	sym.Assert(own || err != nil, "any other session is refused")
	sym.Assert(!own || err == nil || sym.Now() == from+int64(short), "the holder's session is accepted")
	switch {
	case err == nil && !release:
		e, n := l.Find(kv)
		sym.Assert(n == 1 && e.State.SessionID == a.Sess, "an accepted heartbeat keeps the lock")
		sym.Reach("extended")
		return
	case err == nil || sym.Now() == from+int64(short):
		if b != nil {
			sym.Assert(b.Got, "the client that waits obtains the lock")
			sym.Advance(short)
			l.Listed(kv, 1, b, "next holder")
		} else {
			l.Listed(kv, 0, nil, "nobody left")
			l.Fresh(kv)
		}
		sym.Reach("over")
	}
}
