//go:build verif

package c25

import (
	"time"

	"github.com/DanLavine/willow/internal/verif_harness/hx"
	"github.com/DanLavine/willow/internal/verif_harness/hxk"
	sym "github.com/DanLavine/willow/internal/verif_sym"
)

func set(mask int, vals ...int) hx.KV {
	kv := hx.KV{Mask: mask}
	for i, v := range vals {
		kv.Val[i] = hx.IntKey(v)
	}
	return kv
}

// span is an arbitrary time from lo to about 17 minutes.
func span(name string, lo int) time.Duration {
	return time.Duration(sym.IntRange(name, lo, 1<<40))
}

// holds tells whether the client's session holds its lock, and checks the time left.
func holds(l *hxk.Locker, c *hxk.Client) bool {
	e, n := l.Find(c.KV)
	if n != 1 || e.State.SessionID != c.Sess {
		return false
	}
	sym.Assert(*e.Spec.Properties.Timeout == c.T, "the listing shows the holder's timeout")
	sym.Assert(int64(e.State.TimeTillExipre) == c.At+int64(c.T)-sym.Now(), "the listing shows how long is left")
	return true
}

// Heartbeats at arbitrary moments: every one within the timeout of the one before keeps the lock, and without one it
// goes to the client that waits exactly when the timeout passed.
//
// verif: ticks=12
func CheckBeats() {
	l := hxk.New()
	kv := set(1, 1)
	t := span("timeout", 1)
	a := l.Client(nil, kv, t)
	sym.Assert(a.Obtain(), "a free lock is granted")
	b := l.Client(nil, kv, 1<<50).Go()
	n := sym.Bound("heartbeats", 3, 5)
	for i := 0; i < n; i++ {
		gap := span("gap", 0)
		sym.Advance(gap)
		if gap >= t {
			sym.Assert(b.Got, "a lock is free once its timeout passed without a heartbeat")
			sym.Assert(a.Beat() != nil, "an expired lock cannot be extended")
			sym.Assert(holds(l, b), "the next holder keeps it")
			sym.Reach("expired")
			return
		}
		sym.Assert(!b.Back && holds(l, a), "a lock is held while heartbeats arrive in time")
		sym.Assert(a.Beat() == nil, "the holder's heartbeat is accepted")
		sym.Assert(holds(l, a), "a heartbeat starts the timeout again")
	}
	sym.Reach("kept")
}

// Holders one after the other, each with a timeout of its own, that release or let the lock run out.
//
// verif: ticks=12
func CheckTurns() {
	l := hxk.New()
	kv := set(1, 1)
	var cs []*hxk.Client
	n := sym.Bound("clients", 3, 4)
	for i := 0; i < n; i++ {
		c := l.Client(nil, kv, span("timeout", 1))
		cs = append(cs, c)
		c.Go()
		sym.Quiesce()
	}
	for len(cs) > 0 {
		c := cs[0]
		cs = cs[1:]
		sym.Assert(c.Got, "a free lock goes to the client that waits")
		gap := span("gap", 0)
		sym.Advance(gap)
		if gap < c.T {
			sym.Assert(holds(l, c), "a lock is held until its holder's timeout passes")
			if sym.Bool("release") {
				sym.Assert(c.Release() == nil, "the holder can release")
			} else {
				sym.Advance(c.T - gap)
			}
		}
		sym.Quiesce()
		sym.Assert(!holds(l, c), "a lock is free once it is released or its timeout passed")
		if gap > c.T && len(cs) > 0 {
			return // the next holder's time has begun as well
		}
	}
	sym.Assert(len(l.List()) == 0, "nothing is listed once nobody holds the lock")
	sym.Reach("turns")
}

// Two locks with timeouts of their own run out independently.
//
// verif: ticks=12
func CheckTwoLocks() {
	l := hxk.New()
	a := l.Client(nil, set(1, 1), span("first timeout", 1))
	sym.Assert(a.Obtain(), "a free lock is granted")
	early := span("before", 0)
	sym.Assume(early < a.T)
	sym.Advance(early)
	b := l.Client(nil, set(3, 1, 2), span("second timeout", 1))
	sym.Assert(b.Obtain(), "a free lock is granted")
	beat := sym.Bool("heartbeat")
	if beat {
		sym.Assert(b.Beat() == nil && a.Beat() == nil, "the holder's heartbeat is accepted")
	}
	sym.Advance(span("after", 0))
	now := sym.Now()
	sym.Assert(holds(l, a) == (now < a.At+int64(a.T)), "a lock is held exactly until its own timeout passes")
	sym.Assert(holds(l, b) == (now < b.At+int64(b.T)), "a lock is held exactly until its own timeout passes")
	sym.Reach("two locks")
}

// A heartbeat at the very moment the timeout passes: when it is accepted the lock is held for the whole timeout again,
// otherwise the lock is free.
//
// verif: timers=early ticks=6
func CheckMoment() {
	l := hxk.New()
	kv := set(1, 1)
	t := 10 * hxk.Second
	a := l.Client(nil, kv, t)
	sym.Assert(a.Obtain(), "a free lock is granted")
	from := sym.Now()
	b := l.Client(nil, kv, 1<<50).Go()
	sym.Advance(t / 2)
	sym.Preemptions(sym.Bound("deviations", 2, 3))
	var beaten, ok bool
	go func() { ok = a.Beat() == nil; beaten = true }()
	sym.Quiesce()
	sym.Preemptions(0)
	sym.Assert(beaten, "a heartbeat is answered")
	sym.Assume(sym.Now() <= from+int64(t))
	sym.Advance(time.Duration(from+int64(t)-sym.Now()) + t/4)
	if ok {
		sym.Assert(holds(l, a) && !b.Back, "an accepted heartbeat keeps the lock for the timeout")
	}
	if !ok {
		sym.Assert(b.Got, "a lock that ran out goes to the client that waits")
	}
	sym.Advance(t)
	sym.Assert(b.Got, "a lock that ran out goes to the client that waits")
	sym.Reach("moment")
}
