//go:build verif

package c22

import (
	"github.com/DanLavine/willow/internal/verif_harness/hx"
	"github.com/DanLavine/willow/internal/verif_harness/hxk"
	sym "github.com/DanLavine/willow/internal/verif_sym"
)

func set(mask int, vals ...int) hx.KV {
	kv := hx.KV{Mask: mask}
	for i, v := range vals {
		kv.Val[i] = hx.IntKey(v)
	}
	return kv
}

const long = 1000 * hxk.Second

// Requests for two sets of arbitrary keys and values: the second waits exactly when the sets are equal.
func CheckSets() {
	l := hxk.New()
	x := hx.MakeKV("held", 1+sym.Choose("held keys", 3), hx.KInt, hx.KString)
	y := hx.MakeKV("asked", 1+sym.Choose("asked keys", 3), hx.KInt, hx.KString)
	h := &hxk.Holder{}
	a := l.Client(h, x, long)
	sym.Assert(a.Obtain(), "a free lock is granted")
	b := l.Client(nil, y, long).Go()
	sym.Quiesce()
	same := hx.SameKV(x, y)
	sym.Assert(b.Back == b.Got, "a waiting request is not turned away")
	sym.Assert(sym.Iff(b.Got, !same), "a request waits exactly while the same set is held")
	l.Listed(x, 1+sym.IteInt(same, 1, 0), a, "both asked")
	sym.Assert(a.Release() == nil, "the holder can release")
	sym.Quiesce()
	sym.Assert(b.Got && !l.Twice, "a released lock is granted with a new session")
	sym.Assert(!same || a.Sess != b.Sess, "every grant carries its own session")
	l.Listed(y, 1, b, "the second holds")
	sym.Reach("sets")
}

// use obtains the lock, keeps it for a moment and gives it back.
func use(c *hxk.Client, beat bool, done chan<- bool) {
	ok := c.Obtain()
	hx.Point()
	if ok && beat {
		ok = c.Beat() == nil
	}
	hx.Point()
	if ok {
		ok = c.Release() == nil
	}
	done <- ok
}

func rivals(n int, kvs ...hx.KV) {
	l := hxk.New()
	sym.Preemptions(sym.Bound("deviations", n, n+1))
	done := make(chan bool, len(kvs))
	hs := map[int]*hxk.Holder{}
	for i, kv := range kvs {
		if hs[kv.Mask] == nil {
			hs[kv.Mask] = &hxk.Holder{}
		}
		go use(l.Client(hs[kv.Mask], kv, long), i == 0, done)
	}
	ok := true
	for range kvs {
		ok = <-done && ok
	}
	for _, h := range hs {
		sym.Assert(!h.Clash, "at most one client holds a lock")
	}
	sym.Assert(ok, "every client obtains the lock in turn and releases it")
	sym.Assert(!l.Twice, "every grant carries its own session")
	sym.Quiesce()
	sym.Assert(len(l.List()) == 0, "nothing is listed once everyone is done")
	sym.Reach("rivals")
}

// Two clients that obtain, heartbeat and release the same lock.
func CheckTwo() { rivals(2, set(1, 1), set(1, 1)) }

// Three clients.
func CheckThree() { rivals(1, set(3, 1, 2), set(3, 1, 2), set(3, 1, 2)) }

// Clients of two locks that share a key and value.
func CheckShared() { rivals(1, set(1, 1), set(3, 1, 2), set(1, 1)) }

// A holder whose lock runs out at any moment, against its own heartbeat and release, while another waits.
//
// verif: timers=early ticks=4
func CheckLapse() {
	l := hxk.New()
	kv := set(1, 1)
	h := &hxk.Holder{}
	a := l.Client(h, kv, hxk.Second)
	sym.Assert(a.Obtain(), "a free lock is granted")
	b := l.Client(h, kv, long).Go()
	sym.Quiesce()
	sym.Assert(!b.Back, "a request waits while the lock is held")
	sym.Preemptions(sym.Bound("deviations", 2, 3))
	done := make(chan bool, 2)
	beats := sym.Choose("call", 2) == 0
	go func() {
		if beats {
			a.Beat()
		} else {
			a.Release()
		}
		done <- true
	}()
	<-done
	sym.Assert(!h.Clash, "a lock is not granted while its holder's timeout has not passed")
	sym.Preemptions(0)
	sym.Advance(2 * hxk.Second)
	sym.Assert(b.Got && !h.Clash && !l.Twice, "the waiting client obtains the lock in the end")
	sym.Reach("lapse")
}
