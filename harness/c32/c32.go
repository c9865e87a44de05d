//go:build verif

package c32

import (
	"github.com/DanLavine/willow/internal/verif_harness/hxl"
	"github.com/DanLavine/willow/internal/verif_harness/hxw"
	sym "github.com/DanLavine/willow/internal/verif_sym"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
)

var names = []string{"p", "q"}

// queues is the reference of the queues.
type queues struct {
	is    [2]bool
	limit [2]int64
}

func (r *queues) check(s *hxw.Service) {
	all, err := s.Q.ListQueues(hxl.Ctx())
	sym.Assert(err == nil, "the queues can be listed")
	n := 0
	for i, name := range names {
		q, err := s.Q.GetQueue(hxl.Ctx(), name)
		limit, overrides := s.L.LimitOf(name)
		if !r.is[i] {
			sym.Assert(q == nil && hxw.Code(err) == hxw.Unknown, "a queue that does not exist is not found")
			sym.Assert(overrides == 0, "a queue that does not exist has no limit")
			continue
		}
		n++
		sym.Assert(err == nil && q != nil, "a queue exists until it is deleted")
		ok := *q.Spec.DBDefinition.Name == name
		ok = sym.And(ok, *q.Spec.Properties.MaxItems == r.limit[i])
		sym.Assert(ok, "a queue has its name and the latest limit it was given")
		sym.Assert(sym.And(overrides == 1, limit == r.limit[i]), "the latest limit of a queue is enforced")
		found := false
		for _, q := range all {
			if *q.Spec.DBDefinition.Name == name {
				found = true
				sym.Assert(*q.Spec.Properties.MaxItems == r.limit[i], "the listing shows the limit of each queue")
			}
		}
		sym.Assert(found, "the listing shows every queue")
	}
	sym.Assert(len(all) == n, "the listing shows the queues that exist")
}

// Every history of operations on queues, with the limiter failing at any point.
//
// verif: devs=0
func CheckQueues() {
	s := hxw.NewService()
	r := &queues{}
	failures := 1
	for i, n := 0, sym.Choose("operations", sym.Bound("operations", 4, 6)+1); i < n; i++ {
		op, q := sym.Choose("operation", 3), sym.Choose("queue", 2)
		failed := false
		s.L.Fails = func() bool {
			if failures > 0 && sym.Choose("limiter fails", 2) == 1 {
				failures--
				failed = true
			}
			return failed
		}
		limit := sym.Int64("limit")
		switch op {
		case 0:
			err := s.Create(names[q], limit)
			switch {
			case r.is[q]:
				sym.Assert(hxw.Code(err) == hxw.Conflict, "the name of a queue is unique")
			case failed:
				sym.Assert(err != nil, "a queue whose limit cannot be set is not created")
			default:
				sym.Assert(err == nil, "a queue can be created under a name that is free")
				r.is[q], r.limit[q] = true, limit
			}
		case 1:
			err := s.Q.UpdateQueue(hxl.Ctx(), names[q], &v1willow.QueueProperties{MaxItems: &limit})
			switch {
			case !r.is[q]:
				sym.Assert(hxw.Code(err) == hxw.Unknown, "an unknown queue cannot be updated")
			case failed:
				sym.Assert(err != nil, "an update that fails is reported")
			default:
				sym.Assert(err == nil, "a queue can be updated")
				r.limit[q] = limit
			}
		case 2:
			err := s.Q.DeleteQueue(hxl.Ctx(), names[q])
			switch {
			case !r.is[q]:
				sym.Assert(hxw.Code(err) == 0 || hxw.Code(err) == hxw.Unknown, "deleting an unknown queue does nothing")
			case failed:
				sym.Assert(err != nil, "a queue whose limit cannot be removed is not deleted")
			default:
				sym.Assert(err == nil, "a queue can be deleted")
				r.is[q] = false
			}
		}
		s.L.Fails = nil
		r.check(s)
	}
	sym.Reach("queues")
}

// ref is the reference of the channels of one queue.
type ref struct {
	is      bool
	waiting [2]int
	held    [2][]string // ids of the items being processed
}

func (r *ref) has(ch int) bool { return r.waiting[ch]+len(r.held[ch]) > 0 }

// world is a service with two queues.
type world struct {
	s *hxw.Service
	r [2]*ref
}

func newWorld() *world {
	w := &world{s: hxw.NewService()}
	for i, name := range names {
		sym.Assume(w.s.Create(name, 10) == nil)
		w.r[i] = &ref{is: true}
	}
	return w
}

// items puts items into the channel: one being processed, one waiting, or both.
func (w *world) items(q, ch int) {
	n := sym.Choose("items", 4)
	if n&1 != 0 {
		w.step(0, q, ch)
		c := w.s.Dequeue(names[q], hxw.Only(ch))
		sym.Quiesce()
		sym.Assume(c.Item != nil)
		c.OK()
		sym.Quiesce()
		r := w.r[q]
		r.waiting[ch]--
		r.held[ch] = append(r.held[ch], c.Item.State.ID)
	}
	if n&2 != 0 {
		w.step(0, q, ch)
	}
}

func (w *world) check() {
	for i, name := range names {
		is, ok, err := w.s.Channels(name)
		sym.Assert(ok, "a channel is shown once, with its key values")
		if !w.r[i].is {
			sym.Assert(len(is) == 0, "a queue that does not exist has no channels")
			sym.Assert(hxw.Code(err) == hxw.Unknown, "the channels of an unknown queue are not found")
			continue
		}
		sym.Assert(err == nil, "the channels of a queue can be listed")
		n := 0
		for ch := range w.r[i].waiting {
			if w.r[i].has(ch) {
				sym.Assert(is[ch], "a channel exists while it holds items")
				n++
			}
		}
		sym.Assert(len(is) == n, "a channel without items does not exist")
	}
}

// step is one operation on the channel.
func (w *world) step(op, q, ch int) {
	s, r, name := w.s, w.r[q], names[q]
	switch op {
	case 0:
		err := s.Enqueue(name, ch, s.Item(0))
		if !r.is {
			sym.Assert(hxw.Code(err) == hxw.Unknown, "an unknown queue accepts no items")
			break
		}
		sym.Assert(err == nil, "a queue accepts items")
		r.waiting[ch]++
	case 1: // take an item
		any := sym.Choose("any channel", 2) == 1
		query := hxw.Only(ch)
		if any {
			query = hxw.Anything()
		}
		c := s.Dequeue(name, query)
		sym.Quiesce()
		if !r.is {
			sym.Assert(c.Returned && c.Item == nil && hxw.Code(c.Err) == hxw.Unknown, "an unknown queue has no items")
			break
		}
		if !(r.waiting[ch] > 0 || any && r.waiting[1-ch] > 0) {
			sym.Assert(!c.Returned, "a consumer waits while there are no items for it")
			c.Cancel()
			sym.Quiesce()
			sym.Assert(c.Returned && c.Item == nil && c.Err != nil, "a consumer that leaves gets no item")
			break
		}
		sym.Assert(c.Returned && c.Item != nil && c.Err == nil, "a consumer gets an item that matches its query")
		v := c.Item.Spec.DBDefinition.KeyValues["a"].Data.(int)
		sym.Assert((v == 0 || v == 1) && (any || v == ch) && r.waiting[v] > 0, "a consumer gets an item of a channel that matches its query")
		c.OK()
		r.waiting[v]--
		r.held[v] = append(r.held[v], c.Item.State.ID)
	case 2, 3: // acknowledge
		if len(r.held[ch]) == 0 {
			code := hxw.Code(s.Ack(name, ch, "none", op == 2))
			sym.Assert(code == hxw.Unknown, "an unknown item is not acknowledged")
			break
		}
		sym.Assert(s.Ack(name, ch, r.held[ch][0], op == 2) == nil, "an item that is being processed can be acknowledged")
		r.held[ch] = r.held[ch][1:]
	case 4:
		err := s.Q.DeleteChannel(hxl.Ctx(), name, hxw.Key(ch).Map())
		if !r.is {
			sym.Assert(hxw.Code(err) == hxw.Unknown, "an unknown queue has no channels to delete")
			break
		}
		sym.Assert(err == nil, "a channel can be deleted")
		r.waiting[ch], r.held[ch] = 0, nil
	case 5:
		err := s.Q.DeleteQueue(hxl.Ctx(), name)
		sym.Assert(!r.is || err == nil, "a queue can be deleted")
		*r = ref{}
	case 6:
		err := s.Create(name, 10)
		if r.is {
			sym.Assert(hxw.Code(err) == hxw.Conflict, "the name of a queue is unique")
			break
		}
		sym.Assert(err == nil, "a queue can be created under a name that is free")
		*r = ref{is: true}
	case 7: // heartbeats
		if len(r.held[ch]) > 0 {
			sym.Assert(s.Beat(name, ch, r.held[ch][0]) == nil, "an item that is being processed accepts heartbeats")
		}
		sym.Assert(hxw.Code(s.Beat(name, ch, "none")) == hxw.Unknown, "an unknown item accepts no heartbeats")
	case 8: // no heartbeats
		sym.Advance(hxw.Long)
		for _, r := range w.r {
			r.held = [2][]string{}
		}
	}
	sym.Quiesce()
	w.check()
}

// Every history of one queue with two channels; the other queue holds an item.
//
// verif: devs=0 ticks=20
func CheckChannels() {
	w := newWorld()
	w.step(0, 1, 1)
	w.items(0, 0)
	for i := 0; i < sym.Bound("operations", 2, 4); i++ {
		op := sym.Choose("operation", 10)
		if op == 9 {
			break
		}
		ch := 0
		if op < 5 || op == 7 {
			ch = sym.Choose("channel", 2)
		}
		w.step(op, 0, ch)
	}
	sym.Reach("channels")
}

// Every history of two queues with one channel each, of the same key values.
//
// verif: devs=0 ticks=20
func CheckTwoQueues() {
	w := newWorld()
	w.items(0, 0)
	for i := 0; i < sym.Bound("operations", 2, 4); i++ {
		op := sym.Choose("operation", 10)
		if op == 9 {
			break
		}
		q := 0
		if op != 8 {
			q = sym.Choose("queue", 2)
		}
		w.step(op, q, 0)
	}
	sym.Reach("queues")
}

// A consumer that waits gets an item that arrives, and nobody else's.
//
// verif: devs=0 ticks=20
func CheckWaiting() {
	w := newWorld()
	s := w.s
	if sym.Choose("channel exists", 2) == 1 { // with an item being processed
		w.step(0, 0, 0)
		w.step(1, 0, 0)
	}
	sym.Preemptions(sym.Bound("deviations", 1, 2))
	c := s.Dequeue(names[0], hxw.Only(0))
	sym.Assert(s.Enqueue(names[1], 0, s.Item(0)) == nil, "a queue accepts items")
	sym.Assert(s.Enqueue(names[0], 1, s.Item(0)) == nil, "a queue accepts items")
	sym.Quiesce()
	sym.Assert(!c.Returned, "a consumer waits while there are no items for it")
	sym.Assert(s.Enqueue(names[0], 0, s.Item(0)) == nil, "a queue accepts items")
	sym.Quiesce()
	sym.Assert(c.Returned && c.Item != nil && c.Err == nil, "a consumer that waits gets an item that arrives")
	sym.Assert(c.Item.Spec.DBDefinition.KeyValues["a"].Data.(int) == 0, "a consumer gets an item of a channel that matches its query")
	sym.Reach("waiting")
}

// While a consumer waits, everything else goes on.
//
// verif: devs=0 ticks=20
func CheckMeanwhile() {
	w := newWorld()
	s := w.s
	c := s.Dequeue(names[0], hxw.Anything())
	sym.Quiesce()
	limit := int64(5)
	done := false
	op := sym.Choose("operation", 6)
	go func() {
		switch op {
		case 0:
			sym.Assert(s.Create("r", 1) == nil, "a queue can be created while a consumer waits")
		case 1:
			sym.Assert(s.Q.DeleteQueue(hxl.Ctx(), names[1]) == nil, "another queue can be deleted while a consumer waits")
		case 2:
			sym.Assert(s.Q.UpdateQueue(hxl.Ctx(), names[0], &v1willow.QueueProperties{MaxItems: &limit}) == nil, "a queue can be updated while a consumer waits")
		case 3:
			_, err := s.Q.ListQueues(hxl.Ctx())
			sym.Assert(err == nil, "the queues can be listed while a consumer waits")
		case 4:
			sym.Assert(s.Q.DeleteChannel(hxl.Ctx(), names[0], hxw.Key(0).Map()) == nil, "a channel can be deleted while a consumer waits")
		case 5:
			sym.Assert(s.Enqueue(names[1], 0, s.Item(0)) == nil, "another queue accepts items while a consumer waits")
		}
		done = true
	}()
	sym.Quiesce()
	sym.Assert(done && !c.Returned, "a waiting consumer does not hold up others")
	sym.Assert(s.Enqueue(names[0], 0, s.Item(0)) == nil, "a queue accepts items")
	sym.Quiesce()
	sym.Assert(c.Returned && c.Item != nil, "a consumer that waits gets an item that arrives")
	sym.Reach("meanwhile")
}

// A queue is deleted while a consumer waits.
//
// verif: devs=0 ticks=20
func CheckDeleteWhileWaiting() {
	w := newWorld()
	s := w.s
	if sym.Choose("channel exists", 2) == 1 { // with an item being processed
		w.step(0, 0, 0)
		w.step(1, 0, 0)
	}
	sym.Preemptions(sym.Bound("deviations", 1, 2))
	c := s.Dequeue(names[0], hxw.Only(0))
	done := false
	go func() {
		sym.Assert(s.Q.DeleteQueue(hxl.Ctx(), names[0]) == nil, "a queue can be deleted")
		done = true
	}()
	sym.Quiesce()
	sym.Assert(done, "deleting a queue does not wait for its consumers")
	sym.Assert(c.Returned && c.Item == nil && (hxw.Code(c.Err) == hxw.Conflict || hxw.Code(c.Err) == hxw.Unknown), "consumers learn that their queue was deleted")
	sym.Reach("deleted")
}

// Two calls at the same time, while the item being processed may run out of time.
//
// verif: timers=early ticks=20
func CheckTogether() {
	s := hxw.NewService()
	sym.Assume(s.Create(names[0], 10) == nil)
	it := s.Item(0)
	it.T = hxw.Short
	sym.Assume(s.Enqueue(names[0], 0, it) == nil)
	first := s.Dequeue(names[0], hxw.Only(0))
	sym.Quiesce()
	sym.Assume(first.Item != nil)
	first.OK()
	id := first.Item.State.ID
	sym.Quiesce()
	a, b := sym.Choose("first", 7), sym.Choose("second", 7)
	sym.Assume(a <= b)
	from := sym.Now()
	finished := 0
	var enqueued, deleted, gone, acked int
	var cs []*hxw.Consumer
	call := func(op int) {
		switch op {
		case 0:
			go func() {
				if err := s.Enqueue(names[0], 0, s.Item(0)); err == nil {
					enqueued++
				} else {
					sym.Assert(hxw.Code(err) == hxw.Unknown || hxw.Code(err) == hxw.Conflict, "an item is only refused when its queue is deleted")
				}
				finished++
			}()
		case 1:
			cs = append(cs, s.Dequeue(names[0], hxw.Anything()))
			finished++
		case 2:
			go func() {
				if s.Ack(names[0], 0, id, true) == nil {
					acked++
				}
				finished++
			}()
		case 3:
			go func() {
				s.Beat(names[0], 0, id)
				finished++
			}()
		case 4:
			go func() {
				if s.Q.DeleteChannel(hxl.Ctx(), names[0], hxw.Key(0).Map()) == nil {
					deleted++
				}
				finished++
			}()
		case 5:
			go func() {
				if s.Q.DeleteQueue(hxl.Ctx(), names[0]) == nil {
					gone++
				}
				finished++
			}()
		case 6:
			go func() {
				_, ok, _ := s.Channels(names[0])
				sym.Assert(ok, "a channel is shown once, with its key values")
				finished++
			}()
		}
	}
	sym.Preemptions(sym.Bound("deviations", 1, 2))
	call(a)
	call(b)
	sym.Quiesce()
	sym.Preemptions(0)
	sym.Assume(sym.Now() < from+int64(3*hxw.Short)) // the clock does not jump
	sym.Assert(finished == 2, "every call returns")
	if a == 5 || b == 5 {
		sym.Assert(gone > 0, "a queue can be deleted")
		_, err := s.Q.GetQueue(hxl.Ctx(), names[0])
		sym.Assert(hxw.Code(err) == hxw.Unknown, "a queue that does not exist is not found")
		for _, c := range cs {
			sym.Assert(c.Returned, "consumers learn that their queue was deleted")
		}
		// nothing is left of it
		sym.Assume(s.Create(names[0], 10) == nil)
		is, _, err := s.Channels(names[0])
		sym.Assert(err == nil && len(is) == 0, "deleting a queue removes its channels")
		sym.Reach("deleted")
		return
	}
	// finish everything
	taken := 0
	for _, c := range cs {
		if c.Returned {
			sym.Assert(c.Item != nil && c.Err == nil, "a consumer gets an item that matches its query")
			c.OK()
			if s.Ack(names[0], 0, c.Item.State.ID, true) == nil {
				taken++
			}
		} else {
			c.Cancel()
			sym.Quiesce()
			sym.Assert(c.Returned && c.Item == nil, "a consumer that leaves gets no item")
		}
	}
	_ = s.Ack(names[0], 0, id, true)
	for {
		c := s.Dequeue(names[0], hxw.Anything())
		sym.Quiesce()
		if !c.Returned {
			c.Cancel()
			sym.Quiesce()
			break
		}
		sym.Assert(c.Item != nil, "a consumer gets an item that matches its query")
		c.OK()
		_ = s.Ack(names[0], 0, c.Item.State.ID, true)
		taken++
	}
	if deleted == 0 {
		sym.Assert(taken == enqueued, "an accepted item is handed out")
	}
	is, _, err := s.Channels(names[0])
	sym.Assert(err == nil && len(is) == 0, "a channel without items does not exist")
	sym.Reach("together")
}

// However many queues there are, and whichever were deleted, the listing shows each once.
//
// verif: devs=0
func CheckListed() {
	s := hxw.NewService()
	n := sym.Choose("queues", sym.Bound("queues", 6, 8))
	limit := sym.Int64("limit")
	is := map[string]bool{}
	for i := 0; i < n; i++ {
		name := string(rune('a' + i))
		sym.Assert(s.Create(name, limit) == nil, "a queue can be created under a name that is free")
		is[name] = true
	}
	if n > 0 && sym.Choose("delete", 2) == 1 {
		name := string(rune('a' + sym.Choose("deleted", n)))
		sym.Assert(s.Q.DeleteQueue(hxl.Ctx(), name) == nil, "a queue can be deleted")
		delete(is, name)
	}
	all, err := s.Q.ListQueues(hxl.Ctx())
	sym.Assert(err == nil && len(all) == len(is), "the listing shows every queue once")
	for _, q := range all {
		sym.Assert(is[*q.Spec.DBDefinition.Name], "the listing shows every queue once")
		delete(is, *q.Spec.DBDefinition.Name)
	}
	sym.Reach("listed")
}

// A queue that could not be changed or deleted, as the limiter failed, goes on as before.
//
// verif: devs=0 ticks=20
func CheckAfterFailure() {
	w := newWorld()
	s := w.s
	early := sym.Choose("consumer waits", 2) == 1
	var c *hxw.Consumer
	if early {
		c = s.Dequeue(names[0], hxw.Only(0))
		sym.Quiesce()
	}
	s.L.Fails = func() bool { return true }
	if sym.Choose("operation", 2) == 0 {
		sym.Assert(s.Q.DeleteQueue(hxl.Ctx(), names[0]) != nil, "a queue whose limit cannot be removed is not deleted")
	} else {
		n := int64(3)
		sym.Assert(s.Q.UpdateQueue(hxl.Ctx(), names[0], &v1willow.QueueProperties{MaxItems: &n}) != nil, "an update that fails is reported")
	}
	s.L.Fails = nil
	sym.Quiesce()
	if !early || c.Returned && c.Item == nil {
		c = s.Dequeue(names[0], hxw.Only(0))
		sym.Quiesce()
	}
	sym.Assert(!c.Returned, "a consumer waits while there are no items for it")
	sym.Assert(s.Enqueue(names[0], 0, s.Item(0)) == nil, "a queue accepts items")
	sym.Quiesce()
	sym.Assert(c.Returned && c.Item != nil && c.Err == nil, "a consumer that waits gets an item that arrives")
	sym.Reach("after failure")
}
