//go:build verif

package c23

import (
	"github.com/DanLavine/willow/internal/verif_harness/hx"
	"github.com/DanLavine/willow/internal/verif_harness/hxk"
	sym "github.com/DanLavine/willow/internal/verif_sym"
)

func set(mask int, vals ...int) hx.KV {
	kv := hx.KV{Mask: mask}
	for i, v := range vals {
		kv.Val[i] = hx.IntKey(v)
	}
	return kv
}

const long = 1000 * hxk.Second

// The calls that may happen at the same time.
const (
	release = iota
	releaseTwice
	beat
	leave
	obtain
	list
	shared
	events
)

// scene is a lock held by the first client, with others that wait for it.
type scene struct {
	l       *hxk.Locker
	kv      hx.KV
	h       *hxk.Holder
	holder  *hxk.Client
	waiting []*hxk.Client
	calls   int
	done    chan bool
	refused bool
	from    int64
}

func newScene(waiting int) *scene {
	s := &scene{l: hxk.New(), kv: set(1, 1), h: &hxk.Holder{}, done: make(chan bool, 8), from: sym.Now()}
	s.holder = s.l.Client(s.h, s.kv, hxk.Second)
	sym.Assert(s.holder.Obtain(), "a free lock is granted")
	for i := 0; i < waiting; i++ {
		s.waiting = append(s.waiting, s.l.Client(s.h, s.kv, long).Go())
	}
	sym.Quiesce()
	return s
}

func (s *scene) run(f func()) {
	s.calls++
	go func() { f(); s.done <- true }()
}

// start begins a call in the background.
func (s *scene) start(e int) {
	switch e {
	case release:
		s.run(func() { s.refused = s.holder.Release() != nil || s.refused })
	case releaseTwice:
		s.run(func() {
			s.holder.Release()
			sym.Assert(s.holder.Release() != nil, "a lock is released once")
		})
	case beat:
		s.run(func() { s.holder.Beat() })
	case leave:
		if len(s.waiting) > 0 {
			s.run(s.waiting[0].Leave)
		}
	case obtain:
		c := s.l.Client(s.h, s.kv, long)
		s.waiting = append(s.waiting, c)
		c.Go()
	case list:
		s.run(func() { sym.Assert(len(s.l.List()) <= 2, "a lock is listed once") })
	case shared:
		s.run(func() {
			c := s.l.Client(nil, set(3, 1, 2), long)
			sym.Assert(c.Obtain() && c.Release() == nil, "another lock is obtained and released meanwhile")
		})
	}
}

// settle waits for the calls.
func (s *scene) settle() {
	sym.Quiesce()
	sym.Preemptions(0)
	sym.Assume(sym.Now() < s.from+int64(10*hxk.Second)) // only the first holder's timeout passed
	sym.Assert(len(s.done) == s.calls, "every call in progress completes")
}

// after checks who holds the lock, hands it round until nobody is left, and obtains it afresh.
func (s *scene) after() {
	sym.Assert(!s.h.Clash, "at most one client holds the lock")
	for {
		var holder *hxk.Client
		n := 0
		for _, c := range append([]*hxk.Client{s.holder}, s.waiting...) {
			switch {
			case c.Holds():
				sym.Assert(holder == nil, "at most one client holds the lock")
				holder = c
				n++
			case !c.Back:
				sym.Assert(!c.Gone, "a client that disconnected gets its answer")
				n++
			default:
				sym.Assert(c.Over || c.Gone, "a client that waits is not turned away")
			}
		}
		sym.Assert(n == 0 || holder != nil, "a free lock goes to a client that waits for it")
		s.l.Listed(s.kv, n, holder, "after")
		if n == 0 {
			break
		}
		sym.Assert(holder.Release() == nil, "the holder can release")
		sym.Quiesce()
	}
	s.l.Fresh(s.kv)
	sym.Assert(len(s.l.List()) == 0, "nothing is left behind")
}

func calls(waiting, devs int) *scene {
	s := newScene(waiting)
	a := sym.Choose("first", events)
	b := sym.Choose("second", events)
	sym.Assume(a < b && (a != release || b != releaseTwice))
	sym.Preemptions(sym.Bound("deviations", devs, devs+1))
	s.start(a)
	s.start(b)
	return s
}

// Any two calls while one client holds the lock and nobody waits.
func CheckHeld() {
	s := calls(0, 1)
	s.settle()
	s.after()
	sym.Assert(!s.refused, "the holder can release")
	sym.Reach("held")
}

// Any two calls while one client holds the lock and another waits.
func CheckWaiting() {
	s := calls(1, 1)
	s.settle()
	s.after()
	sym.Assert(!s.refused, "the holder can release")
	sym.Reach("waiting")
}

// Any two calls while one client holds the lock and two others wait.
func CheckTwoWaiting() {
	s := calls(2, 1)
	s.settle()
	s.after()
	sym.Reach("two waiting")
}

// Any call at the moment the holder's timeout passes, with up to one client waiting.
//
// verif: timers=early ticks=6
func CheckExpiry() {
	s := newScene(sym.Choose("waiting", 2))
	e := sym.Choose("call", events)
	sym.Preemptions(sym.Bound("deviations", 1, 2))
	s.start(e)
	s.settle()
	sym.Assert(!s.h.Clash, "the lock is not granted before the timeout passed")
	s.lapse()
	s.after()
	sym.Reach("expiry")
}

func (s *scene) lapse() {
	sym.Advance(2 * hxk.Second)
	s.holder.Lapse()
	s.h.C = nil
}

// The holder's lock is not released: it runs out, and then any call is made with the session that is no longer valid.
//
// verif: ticks=6
func CheckExpired() {
	s := newScene(sym.Choose("waiting", 3))
	s.lapse()
	if sym.Choose("call", 2) == 0 {
		sym.Assert(s.holder.Beat() != nil, "an expired lock cannot be extended")
	} else {
		sym.Assert(s.holder.Release() != nil, "an expired lock cannot be released")
	}
	s.settle()
	s.after()
	sym.Reach("expired")
}

// A client leaves, and every call made afterwards completes.
func CheckLeave() {
	s := newScene(2)
	sym.Preemptions(sym.Bound("deviations", 2, 3))
	s.run(s.waiting[0].Leave)
	s.run(s.waiting[1].Leave)
	s.start(release)
	s.settle()
	s.after()
	sym.Reach("leave")
}

// A client asks for the lock and disconnects at once, before, while or after its request is looked at.
func CheckGone() {
	s := newScene(sym.Choose("waiting", 2))
	switch {
	case len(s.waiting) == 0 && sym.Bool("free"):
		sym.Assert(s.holder.Release() == nil, "the holder can release")
	}
	sym.Preemptions(sym.Bound("deviations", 1, 2))
	s.start(obtain)
	s.run(s.waiting[len(s.waiting)-1].Leave)
	if s.holder.Holds() && sym.Bool("release") {
		s.start(release)
	}
	s.settle()
	s.after()
	sym.Reach("gone")
}

// The service is told to stop: every request in progress gets its answer, also when the lock runs out at that moment.
//
// verif: timers=early ticks=6
func CheckShutdown() {
	waiting := sym.Choose("waiting", 2)
	s := newScene(waiting)
	e := sym.Choose("call", shared)
	sym.Preemptions(sym.Bound("deviations", 1, 2))
	s.start(e)
	s.run(s.l.Shutdown)
	s.settle()
	for _, c := range s.waiting {
		sym.Assert(c.Back, "a request that waits is answered when the service stops")
	}
	sym.Assert(!s.h.Clash, "at most one client holds the lock")
	sym.Advance(2 * hxk.Second)
	sym.Assert(len(s.l.Stopped) == 1, "the service stops")
	for i := 0; i < 4; i++ {
		c := s.l.Client(nil, set(1, 1+i/2), long).Go()
		sym.Quiesce()
		sym.Assert(c.Back && !c.Got, "a stopped service turns requests away")
	}
	sym.Reach("shutdown")
}
