//go:build verif

package c27

import (
	"github.com/DanLavine/willow/internal/verif_harness/hxw"
	sym "github.com/DanLavine/willow/internal/verif_sym"
)

const all = hxw.Enqueue | hxw.Deliver | hxw.Undeliver | hxw.Limit | hxw.Pass | hxw.Fail | hxw.Expire

func history(c *hxw.Channel, steps int, s hxw.Settings) {
	for i := 0; i < steps; i++ {
		if sym.Choose("more", 2) == 0 {
			break
		}
		c.Step(all, s)
	}
	c.Drain()
	sym.Assert(c.Unfinished() == 0, "every item is handed out in its turn")
	sym.Reach("history")
}

// prefix is a channel with one item being processed and more that wait.
func prefix(most int, s hxw.Settings) *hxw.Channel {
	c := hxw.New(hxw.Order)
	for i, n := 0, 1+sym.Choose("waiting", most+1); i < n; i++ {
		c.Enqueue(c.Some(s))
		if i == 0 {
			c.Deliver(c.Next())
		}
		s.Updateable = false
	}
	sym.Quiesce()
	return c
}

// Every history of items that are not updateable.
//
// verif: devs=0 ticks=60
func CheckNew() {
	history(hxw.New(hxw.Order), sym.Bound("operations", 5, 6), hxw.Settings{Retries: 1, Expires: true})
}

// Every history of a channel with items that are not updateable.
//
// verif: devs=0 ticks=60
func CheckBusy() {
	s := hxw.Settings{Retries: 1, Expires: true}
	history(prefix(2, s), sym.Bound("operations", 2, 3), s)
}

// Every history of a channel with an item that may be updateable, as long as none is replaced by another.
//
// verif: devs=0 ticks=60
func CheckUpdateable() {
	s := hxw.Settings{Retries: 1, Updateable: true, NoReplace: true}
	history(prefix(1, s), sym.Bound("operations", 3, 4), s)
}

// An item that fails over and over, in any way.
//
// verif: devs=0 ticks=60
func CheckRetries() {
	c := hxw.New(hxw.Order)
	it := c.Some(hxw.Settings{Retries: 1, Updateable: true})
	it.T = hxw.Short
	c.Enqueue(it)
	handed := uint64(0)
	for i := 0; i < sym.Bound("failures", 5, 8); i++ {
		h := c.Next()
		if h == nil {
			break
		}
		switch sym.Choose("failure", 3) {
		case 0:
			c.Undeliverable(h)
			continue // not an attempt
		case 1:
			c.Deliver(h)
			c.Done(h.Of, false)
		case 2:
			c.Deliver(h)
			c.Pass(hxw.Short)
		}
		handed++
		sym.Assert(handed-1 <= it.Max, "an item is handed out again at most as often as its retries allow")
	}
	c.Drain()
	sym.Assert(c.Unfinished() == 0, "an item is handed out again while it has retries left")
	sym.Reach("retries")
}
