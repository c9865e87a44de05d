//go:build verif

package c26

import (
	"github.com/DanLavine/willow/internal/verif_harness/hxw"
	sym "github.com/DanLavine/willow/internal/verif_sym"
)

// settle ends what a consumer does: one that got an item is told, or loses it on the way.
func settle(c *hxw.Consumer, lost bool, got map[byte]int) {
	if !c.Returned || c.Item == nil || c.Settled {
		return
	}
	c.Settled = true
	if lost {
		c.Fail()
		return
	}
	c.OK()
	got[c.Item.Spec.Properties.Data[0]]++
}

// Consumers of a queue wait, leave, and lose items on the way, while items arrive in two channels.
//
// verif: devs=0 ticks=40
func CheckConsumers() {
	s := hxw.NewService()
	sym.Assume(s.Create(hxw.Queue, 10) == nil)
	got := map[byte]int{}
	items := 0
	scene := sym.Choose("scene", 5)
	waiting, channel, leaves, second, lost := scene == 0, 0, scene == 1, scene%2 == 0, scene == 2
	if scene > 2 {
		channel = 1
	}
	if waiting {
		sym.Assume(s.Enqueue(hxw.Queue, 0, s.Item(1)) == nil)
		sym.Quiesce()
		items++
	}
	sym.Preemptions(sym.Bound("deviations", 1, 2))
	a := s.Dequeue(hxw.Queue, hxw.Anything())
	var b *hxw.Consumer
	if second {
		b = s.Dequeue(hxw.Queue, hxw.Only(0))
	}
	accepted := false
	go func() {
		accepted = s.Enqueue(hxw.Queue, channel, s.Item(1)) == nil
	}()
	if leaves {
		go a.Cancel()
	}
	sym.Quiesce()
	sym.Preemptions(0)
	sym.Assert(accepted, "a queue accepts items")
	items++
	sym.Assert(!leaves || a.Returned, "a consumer that leaves is let go")
	for _, c := range []*hxw.Consumer{a, b, a} { // either may have to wait for the other
		if c == nil {
			continue
		}
		settle(c, lost && c == a, got)
		sym.Quiesce()
	}
	for _, c := range []*hxw.Consumer{a, b} {
		if c != nil && !c.Returned {
			c.Cancel()
			sym.Quiesce()
			settle(c, false, got)
			sym.Quiesce()
		}
	}
	// a consumer that keeps asking gets the rest
	for {
		c := s.Dequeue(hxw.Queue, hxw.Anything())
		sym.Quiesce()
		if !c.Returned {
			c.Cancel()
			break
		}
		sym.Assert(c.Item != nil && c.Err == nil, "an item that is offered is handed out")
		settle(c, false, got)
		sym.Quiesce()
	}
	sym.Assert(len(got) == items, "every unfinished item is handed out")
	for _, n := range got {
		sym.Assert(n == 1, "an item that is being processed is not handed out")
	}
	sym.Reach("consumers")
}
