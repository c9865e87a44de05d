//go:build verif

package c26

import (
	"github.com/DanLavine/willow/internal/verif_harness/hxw"
	sym "github.com/DanLavine/willow/internal/verif_sym"
)

const all = hxw.Enqueue | hxw.Deliver | hxw.Undeliver | hxw.Limit | hxw.Pass | hxw.Fail | hxw.Expire

// drain takes every item that is left: each one that is not finished is handed out, once.
func drain(c *hxw.Channel) {
	want := c.Unfinished()
	p, w := c.Drain()
	sym.Assert(p+w == want && c.Unfinished() == 0, "every unfinished item is handed out")
	sym.Assert(c.C.Delete(), "a channel whose items are finished is empty")
	sym.Quiesce()
	sym.Assert(c.Stopped, "a deleted channel stops")
	sym.Reach("drained")
}

func history(c *hxw.Channel, steps, ops int, s hxw.Settings) {
	for i := 0; i < steps; i++ {
		if sym.Choose("more", 2) == 0 {
			break
		}
		c.Step(ops, s)
		if c.Unfinished() > 0 {
			sym.Assert(!c.C.Delete(), "a channel with items is not empty")
		}
	}
	drain(c)
}

// Every history of a new channel whose items are not updateable.
//
// verif: devs=0 ticks=60
func CheckNew() {
	history(hxw.New(hxw.Hands), sym.Bound("operations", 5, 6), all, hxw.Settings{Retries: 1, Expires: true})
}

// busy is a channel with one item being processed and up to two that wait.
func busy(most int, s hxw.Settings) *hxw.Channel {
	c := hxw.New(hxw.Hands)
	for i, n := 0, 1+sym.Choose("waiting", most+1); i < n; i++ {
		c.Enqueue(c.Some(s))
		if i == 0 {
			c.Deliver(c.Next())
		}
	}
	sym.Quiesce()
	return c
}

// Every history of a channel with items.
//
// verif: devs=0 ticks=60
func CheckBusy() {
	s := hxw.Settings{Retries: 1, Expires: true}
	history(busy(2, s), sym.Bound("operations", 2, 3), all, s)
}

// Every history of a channel whose items may be updateable, and may be refused by the limiter.
//
// verif: devs=0 ticks=60
func CheckUpdateable() {
	s := hxw.Settings{Retries: 1, Updateable: true, Refuse: true}
	history(hxw.New(hxw.Hands), sym.Bound("operations", 5, 6), all&^hxw.Expire, s)
}

// Three calls at the same time, while the item that is being processed may run out of time.
//
// verif: timers=early ticks=40
func CheckMeanwhile() {
	c := hxw.New(hxw.Hands)
	retries := uint64(sym.Choose("retries", 2))
	c.Enqueue(c.Make(false, retries, hxw.Positions[sym.Choose("position", 2)], hxw.Short))
	c.Deliver(c.Next())
	it := c.Processing[0]
	waiting := sym.Choose("waiting", 2)
	if waiting == 1 {
		c.Enqueue(c.Make(false, 1, hxw.Positions[0], hxw.Short))
	}
	sym.Quiesce()
	a := sym.Choose("first", hxw.Calls)
	b := sym.Choose("second", hxw.Calls)
	sym.Assume(a <= b)
	s := hxw.NewScene(c)
	from := sym.Now()
	sym.Preemptions(sym.Bound("deviations", 1, 2))
	s.Call(a, it)
	s.Call(b, it)
	s.Settle()
	sym.Assume(sym.Now() < from+int64(3*hxw.Short)) // the clock does not jump
	early := sym.Now() < from+int64(hxw.Short)
	if early {
		sym.Assert(!s.Twice(it, s.OK[hxw.CallFail] > 0), "an item that is being processed is not handed out")
	}
	accepted := 1 + waiting + s.Accepted
	p, w := s.Empty()
	passed := s.OK[hxw.CallPass]
	sym.Assert(p+w+passed <= accepted, "no item is handed out after it was acknowledged")
	if retries > 0 && early {
		sym.Assert(p+w+passed == accepted, "every unfinished item is handed out")
	}
	sym.Assert(p+w+passed >= accepted-1, "every unfinished item is handed out")
	sym.Assert(c.C.Delete(), "a channel whose items are finished is empty")
	sym.Reach("meanwhile")
}

// A limit that stops items from running, until there is room again.
//
// verif: devs=0 ticks=60
func CheckLimit() {
	c := hxw.New(hxw.Hands)
	for i, n := 0, 1+sym.Choose("waiting", 2); i < n; i++ {
		c.Enqueue(c.Make(false, 1, hxw.Positions[0], hxw.Long))
	}
	rule, override := sym.Int64("rule"), sym.Int64("override")
	sym.Assume(rule >= -1 && override >= -1)
	c.L.Rule = &rule
	limit := rule
	if sym.Choose("overrides", 2) == 1 {
		c.L.Override = &override
		limit = override
	}
	for i, n := 0, sym.Choose("counters", 3); i < n; i++ {
		n := sym.Int64("counted")
		sym.Assume(n >= 1 && n <= 1<<40)
		c.L.Counted = append(c.L.Counted, n)
	}
	c.L.RefuseRunning = func() bool { return true }
	h, offered := c.Offer()
	sym.Assert(offered && h == nil, "an item that the limiter refuses to run is not handed out")
	sym.Quiesce()
	if sym.Choose("while", 2) == 1 {
		sym.Advance(hxw.Second)
	}
	// there is room again
	c.L.RefuseRunning = nil
	if limit == 0 || sym.Choose("unlimited", 2) == 1 {
		none := int64(-1)
		c.L.Rule, c.L.Override = &none, nil
	} else {
		c.L.Counted = nil
	}
	sym.Advance(20 * hxw.Second)
	drain(c)
}
