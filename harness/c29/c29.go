//go:build verif

package c29

import (
	"github.com/DanLavine/willow/internal/verif_harness/hxw"
	sym "github.com/DanLavine/willow/internal/verif_sym"
)

var any = hxw.Settings{Updateable: true, Retries: 1, Refuse: true, Expires: true}

func newChannel() *hxw.Channel {
	c := hxw.New(hxw.Count)
	c.L.Strict = true
	return c
}

func running(c *hxw.Channel) {
	sym.Assert(c.L.Running == int64(len(c.Processing)), "the running total is the number of items being processed")
}

// totals compares what the limiter was told with what the channel turns out to hold.
func totals(c *hxw.Channel) {
	enqueued := c.L.Enqueued
	running(c)
	p, w := c.Drain()
	sym.Assert(enqueued == int64(p+w), "the enqueued total is the number of unfinished items")
	sym.Assert(c.L.Enqueued == 0 && c.L.Running == 0, "nothing is counted once everything is finished")
}

func history(c *hxw.Channel, steps, ops int) {
	for i := 0; i < steps; i++ {
		if sym.Choose("more", 2) == 0 {
			break
		}
		c.Step(ops, any)
		running(c)
	}
	totals(c)
	sym.Reach("history")
}

const all = hxw.Enqueue | hxw.Deliver | hxw.Undeliver | hxw.Limit | hxw.Pass | hxw.Fail | hxw.Expire

// Every history of a new channel.
//
// verif: devs=0 ticks=60
func CheckNew() { history(newChannel(), sym.Bound("operations", 4, 5), all) }

// busy is a channel with one item being processed and up to two that wait.
func busy(most int) *hxw.Channel {
	c := newChannel()
	for i, n := 0, 1+sym.Choose("waiting", most+1); i < n; i++ {
		c.Enqueue(c.Some(any))
		if i == 0 {
			c.Deliver(c.Next())
		}
	}
	sym.Quiesce()
	return c
}

// Every history of a channel with items.
//
// verif: devs=0 ticks=60
func CheckBusy() { history(busy(sym.Bound("waiting", 1, 2)), sym.Bound("operations", 2, 3), all) }

// A channel that is force-deleted at any point of its history.
//
// verif: devs=0 ticks=60
func CheckForceDelete() {
	c := busy(1)
	for i := 0; i < sym.Bound("operations", 1, 3); i++ {
		if sym.Choose("more", 2) == 1 {
			c.Step(all, any)
		}
	}
	c.C.ForceDelete(c.Ctx)
	gone(c)
}

// gone checks a channel that was deleted.
func gone(c *hxw.Channel) {
	sym.Quiesce()
	sym.Preemptions(0)
	sym.Advance(2 * hxw.Short)
	sym.Assert(c.L.Enqueued == 0 && c.L.Running == 0, "nothing is counted for a deleted channel")
	sym.Assert(c.Stopped, "a deleted channel stops")
	sym.Reach("gone")
}

// A channel that is force-deleted while an item is acknowledged, taken or runs out of time.
//
// verif: timers=early ticks=40
func CheckForceDeleteMeanwhile() {
	c := newChannel()
	c.Enqueue(c.Make(false, 1, hxw.Positions[sym.Choose("position", 2)], hxw.Short))
	c.Deliver(c.Next())
	it := c.Processing[0]
	if sym.Choose("waiting", 2) == 1 {
		c.Enqueue(c.Make(false, 0, hxw.Positions[0], hxw.Short))
	}
	sym.Quiesce()
	s := hxw.NewScene(c)
	e := sym.Choose("call", hxw.Calls)
	sym.Assume(e != hxw.CallPass && e != hxw.CallFail && e != hxw.CallEnqueue && e != hxw.CallBeat) // the queue keeps those away from a deletion
	sym.Preemptions(sym.Bound("deviations", 1, 2))
	s.Call(e, it)
	c.C.ForceDelete(c.Ctx)
	gone(c)
}

// Two calls at the same time, while the item that is being processed may run out of time.
//
// verif: timers=early ticks=40
func CheckMeanwhile() {
	c := newChannel()
	c.Enqueue(c.Make(false, uint64(sym.Choose("retries", 2)), hxw.Positions[sym.Choose("position", 2)], hxw.Short))
	c.Deliver(c.Next())
	if sym.Choose("waiting", 2) == 1 {
		c.Enqueue(c.Make(sym.Choose("updateable", 2) == 1, 1, hxw.Positions[0], hxw.Short))
	}
	sym.Quiesce()
	a := sym.Choose("first", hxw.Calls)
	b := sym.Choose("second", hxw.Calls)
	sym.Assume(a <= b)
	s := hxw.NewScene(c)
	sym.Preemptions(sym.Bound("deviations", 1, 2))
	s.Call(a, c.Processing[0])
	s.Call(b, c.Processing[0])
	s.Settle()
	enqueued, running := c.L.Enqueued, c.L.Running
	p, w := s.Empty()
	sym.Assert(running == int64(p), "the running total is the number of items being processed")
	sym.Assert(enqueued == int64(p+w), "the enqueued total is the number of unfinished items")
	sym.Assert(c.L.Enqueued == 0 && c.L.Running == 0, "nothing is counted once everything is finished")
	sym.Reach("meanwhile")
}
