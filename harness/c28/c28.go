//go:build verif

package c28

import (
	"time"

	"github.com/DanLavine/willow/internal/verif_harness/hxw"
	sym "github.com/DanLavine/willow/internal/verif_sym"
)

func history(c *hxw.Channel, steps, ops int, s hxw.Settings) {
	for i := 0; i < steps; i++ {
		if sym.Choose("more", 2) == 0 {
			break
		}
		c.Step(ops, s)
	}
	c.Drain()
	sym.Assert(c.Unfinished() == 0, "an item that replaces another adds none")
	sym.Reach("history")
}

// Every history of a new channel.
//
// verif: devs=0 ticks=60
func CheckNew() {
	history(hxw.New(hxw.Update), sym.Bound("operations", 5, 6), hxw.Enqueue|hxw.Deliver|hxw.Pass, hxw.Settings{Retries: 1, Updateable: true, Expires: true})
}

// An item that was handed out before, and waits again after a failed delivery.
//
// verif: devs=0 ticks=60
func CheckUndelivered() {
	history(hxw.New(hxw.Update), sym.Bound("operations", 5, 6), hxw.Enqueue|hxw.Deliver|hxw.Undeliver, hxw.Settings{Retries: 1, Updateable: true})
}

// The limiter has no say when an item is replaced.
//
// verif: devs=0 ticks=60
func CheckRefused() {
	history(hxw.New(hxw.Update), sym.Bound("operations", 4, 6), hxw.Enqueue|hxw.Deliver|hxw.Pass, hxw.Settings{Updateable: true, Refuse: true})
}

// Two items with every setting arbitrary, one after the other.
//
// verif: devs=0 ticks=60
func CheckSettings() {
	c := hxw.New(hxw.Update)
	for i, n := 0, 2+sym.Choose("more", 2); i < n; i++ {
		it := c.Some(hxw.Settings{Retries: 1, Updateable: true})
		t := sym.Int64("timeout")
		sym.Assume(t > int64(hxw.Long))
		it.T = time.Duration(t)
		c.Enqueue(it)
	}
	for {
		h := c.Next()
		if h == nil {
			break
		}
		c.Deliver(h)
	}
	sym.Assert(len(c.Waiting) == 0, "an item that replaces another adds none")
	sym.Reach("settings")
}

// handed counts how often the only item of the channel is handed out when its processing always fails.
func handed(c *hxw.Channel, most int) int {
	for n := 0; n < most; n++ {
		h, _ := c.Offer()
		if h == nil {
			return n
		}
		h.Deliver()
		sym.Quiesce()
		c.ACK(h.Item.State.ID, false)
	}
	return most
}

// An item replaces one that failed before: it has all of its own retries.
//
// verif: devs=0 ticks=60
func CheckRetries() {
	most := sym.Bound("failures", 3, 5)
	b := hxw.New(hxw.Update)
	it := b.Some(hxw.Settings{Retries: 1, Updateable: true})
	b.Enqueue(it)

	a := hxw.New(hxw.Update)
	old := a.Some(hxw.Settings{Retries: 1})
	old.Upd = true
	a.Enqueue(old)
	for i, n := 0, sym.Choose("failed", 3); i < n; i++ {
		h, _ := a.Offer()
		sym.Assume(h != nil) // it had too few retries
		h.Deliver()
		sym.Quiesce()
		a.ACK(h.Item.State.ID, false)
	}
	sym.Assume(offers(a))
	sym.Assume(a.C.Enqueue(a.Ctx, hxw.Spec(a.KV, it)) == nil)
	sym.Assert(handed(a, most) == handed(b, most), "an item that replaces another has all of its own retries")
	sym.Reach("retries")
}

// offers tells whether an item waits, and leaves it there.
func offers(c *hxw.Channel) bool {
	h, _ := c.Offer()
	if h == nil {
		return false
	}
	h.Lose()
	sym.Quiesce()
	return true
}
