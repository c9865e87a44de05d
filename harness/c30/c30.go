//go:build verif

package c30

import (
	"github.com/DanLavine/willow/internal/verif_harness/hxw"
	sym "github.com/DanLavine/willow/internal/verif_sym"
)

const all = hxw.Enqueue | hxw.Deliver | hxw.Undeliver | hxw.Pass | hxw.Fail | hxw.Expire | hxw.Heartbeat | hxw.Tick

// strays are the ids of items that are not being processed: they wait, or are finished, or never were.
func strays(c *hxw.Channel) []string {
	var ids []string
	for _, h := range c.Hands {
		id, stray := h.Item.State.ID, true
		for _, it := range c.Processing {
			stray = stray && it.ID != id
		}
		for _, o := range ids {
			stray = stray && o != id
		}
		if stray {
			ids = append(ids, id)
		}
	}
	return append(ids, "none", "")
}

// disturb makes calls about items that are not being processed.
func disturb(c *hxw.Channel) {
	for _, id := range strays(c) {
		sym.Assert(hxw.NotFound(c.Beat(id)), "a heartbeat for an item that is not being processed is refused")
		sym.Assert(hxw.NotFound(c.ACK(id, true)), "an item that is not being processed cannot pass")
		sym.Assert(hxw.NotFound(c.ACK(id, false)), "an item that is not being processed cannot fail")
	}
}

// history drives two channels in the same way. One of them also sees calls about items that are not being processed.
func history(steps, ops int, s hxw.Settings) {
	a, b := hxw.New(hxw.Ack), hxw.New(hxw.Ack)
	disturb(a)
	for i := 0; i < steps; i++ {
		if sym.Choose("more", 2) == 0 {
			break
		}
		act := a.Pick(ops, s)
		switch act.Op {
		case hxw.Expire:
			sym.Advance(hxw.Short)
			a.Lapse()
			b.Lapse()
		case hxw.Tick:
			sym.Advance(hxw.Second)
			a.Lapse()
			b.Lapse()
		default:
			a.Do(act)
			b.Do(act)
		}
		disturb(a)
	}
	sym.Assert(a.C.Delete() == b.C.Delete(), "a refused acknowledgement neither adds nor removes items")
	ap, aw := a.Drain()
	bp, bw := b.Drain()
	sym.Assert(ap == bp && aw == bw, "a refused acknowledgement neither adds nor removes items")
	for i := range a.Hands {
		same := a.Hands[i].Item.Spec.Properties.Data[0] == b.Hands[i].Item.Spec.Properties.Data[0]
		sym.Assert(same, "a refused acknowledgement does not change what is handed out")
	}
	disturb(a)
	sym.Assert(sym.And(a.L.Enqueued == b.L.Enqueued, a.L.Running == b.L.Running), "a refused acknowledgement does not change the counters")
	sym.Reach("history")
}

// Every history of items that are not updateable.
//
// verif: devs=0 ticks=120
func CheckHistory() {
	history(sym.Bound("operations", 5, 6), all, hxw.Settings{Retries: 1, Expires: true})
}

// Every history in which items may be replaced by others.
//
// verif: devs=0 ticks=120
func CheckUpdateable() {
	history(sym.Bound("operations", 5, 6), all&^(hxw.Expire|hxw.Tick), hxw.Settings{Retries: 1, Updateable: true})
}

// Two calls at the same time, while the item may run out of time: the item is finished once.
//
// verif: timers=early ticks=40
func CheckMeanwhile() {
	c := hxw.New(hxw.Ack)
	c.Enqueue(c.Make(false, 0, hxw.Positions[0], hxw.Short))
	c.Deliver(c.Next())
	it := c.Processing[0]
	if sym.Choose("waiting", 2) == 1 {
		c.Enqueue(c.Make(false, 1, hxw.Positions[0], hxw.Short))
	}
	sym.Quiesce()
	calls := []int{hxw.CallPass, hxw.CallFail, hxw.CallBeat}
	a := sym.Choose("first", 3)
	b := sym.Choose("second", 3)
	sym.Assume(a <= b)
	s := hxw.NewScene(c)
	from := sym.Now()
	sym.Preemptions(sym.Bound("deviations", 2, 3))
	s.Call(calls[a], it)
	s.Call(calls[b], it)
	s.Settle()
	sym.Assert(len(s.Done) == s.Started, "every call returns")
	sym.Assume(sym.Now() < from+int64(3*hxw.Short)) // the clock does not jump
	acks := s.OK[hxw.CallPass] + s.OK[hxw.CallFail]
	sym.Assert(acks <= 1, "an item is acknowledged once")
	if sym.Now() < from+int64(hxw.Short) {
		if a < 2 {
			sym.Assert(acks == 1, "an item that is being processed can be acknowledged")
		} else {
			sym.Assert(s.OK[hxw.CallBeat] == 2, "an item that is being processed accepts heartbeats")
		}
	}
	if acks == 1 {
		disturbed := hxw.NotFound(c.Beat(it.ID)) && hxw.NotFound(c.ACK(it.ID, true)) && hxw.NotFound(c.ACK(it.ID, false))
		sym.Assert(disturbed, "an acknowledged item is not being processed any more")
	}
	sym.Reach("meanwhile")
}

// Three calls at the same time.
//
// verif: devs=0 ticks=40
func CheckThree() {
	c := hxw.New(hxw.Ack)
	retries := uint64(sym.Choose("retries", 2))
	c.Enqueue(c.Make(false, retries, hxw.Positions[0], hxw.Long))
	c.Deliver(c.Next())
	it := c.Processing[0]
	sym.Quiesce()
	calls := []int{hxw.CallPass, hxw.CallFail, hxw.CallBeat}
	x := []int{sym.Choose("first", 3), sym.Choose("second", 3), sym.Choose("third", 3)}
	sym.Assume(x[0] <= x[1] && x[1] <= x[2])
	s := hxw.NewScene(c)
	sym.Preemptions(sym.Bound("deviations", 2, 3))
	for _, i := range x {
		s.Call(calls[i], it)
	}
	s.Settle()
	sym.Assert(len(s.Done) == s.Started, "every call returns")
	want := 1
	if x[0] == 2 {
		want = 0
	}
	sym.Assert(s.OK[hxw.CallPass]+s.OK[hxw.CallFail] == want, "an item is acknowledged once")
	sym.Reach("three")
}
