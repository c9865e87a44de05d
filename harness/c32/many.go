//go:build verif

package c32

import (
	"github.com/DanLavine/willow/internal/verif_harness/hxw"
	sym "github.com/DanLavine/willow/internal/verif_sym"
)

// want is a consumer that waits, and what it asks for.
type want struct {
	q, ch int // ch is 2 for a consumer that takes anything
	c     *hxw.Consumer
	left  bool
}

// takes tells whether the consumer asked for the item.
func (w *want) takes(i item) bool { return w.q == i.q && (w.ch == 2 || w.ch == i.ch) }

// item is where an item was put.
type item struct{ q, ch int }

// Consumers of both queues wait, each for what it asks for, while items arrive.
//
// verif: devs=0 ticks=40
func CheckMany() {
	s := hxw.NewService()
	for _, n := range names {
		sym.Assume(s.Create(n, 10) == nil)
	}
	if sym.Choose("channel exists", 2) == 1 {
		q := sym.Choose("queue of the channel", 2)
		sym.Assume(s.Enqueue(names[q], 0, s.Item(0)) == nil)
		c := s.Dequeue(names[q], hxw.Anything())
		sym.Quiesce()
		sym.Assume(c.Returned && c.Item != nil)
		c.OK()
		sym.Quiesce()
	}
	items := map[byte]item{}
	put := func() {
		it := s.Item(0)
		i := item{q: sym.Choose("queue", 2), ch: sym.Choose("channel", 2)}
		sym.Assert(s.Enqueue(names[i.q], i.ch, it) == nil, "a queue accepts items")
		items[it.Data] = i
	}
	n := sym.Bound("items", 2, 3)
	scene := sym.Choose("scene", 4)
	before, calm, leaves := 0, scene > 1, scene == 3
	if scene == 0 {
		before = 1
	}
	for i := 0; i < before; i++ {
		put()
	}
	sym.Preemptions(sym.Bound("deviations", 0, 1))
	var ws []*want
	for i, k := 0, sym.Bound("consumers", 2, 3); i < k; i++ {
		w := &want{q: sym.Choose("queue asked", 2), ch: sym.Choose("channel asked", 3)}
		query := hxw.Anything()
		if w.ch < 2 {
			query = hxw.Only(w.ch)
		}
		w.c = s.Dequeue(names[w.q], query)
		ws = append(ws, w)
	}
	// an item is handed out once the item before it has arrived
	settle := func() {
		sym.Quiesce()
		for again := true; again; {
			again = false
			for _, w := range ws {
				if !w.c.Returned || w.c.Settled {
					continue
				}
				w.c.Settled = true
				if w.c.Item == nil {
					sym.Assert(w.left, "a consumer waits while there are no items for it")
					continue
				}
				data := w.c.Item.Spec.Properties.Data[0]
				i, ok := items[data]
				sym.Assert(ok, "an item is handed to one consumer")
				delete(items, data)
				sym.Assert(w.takes(i), "a consumer gets items of the channels it asks for, of its own queue")
				again = true
				w.c.OK()
				sym.Quiesce()
			}
		}
	}
	if calm {
		settle()
	}
	if leaves {
		ws[0].left = true
		ws[0].c.Cancel()
	}
	for i := before; i < n; i++ {
		if calm {
			settle()
		}
		put()
	}
	sym.Preemptions(0)
	settle()
	for _, w := range ws {
		sym.Assert(w.c.Returned || !w.left, "a consumer that leaves is let go")
		for _, i := range items {
			sym.Assert(w.c.Returned || !w.takes(i), "a consumer that waits gets an item that arrives")
		}
	}
	sym.Reach("many")
}
