//go:build verif

// Package hxw drives the queue channels.
package hxw

import (
	"context"
	"net/http"
	"time"

	"github.com/DanLavine/willow/internal/verif_harness/hx"
	"github.com/DanLavine/willow/internal/verif_harness/hxl"
	sym "github.com/DanLavine/willow/internal/verif_sym"
	"github.com/DanLavine/willow/internal/willow/brokers/queue_channels/memory"
	"github.com/DanLavine/willow/pkg/models/api/common/errors"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
)

const (
	Second = time.Second
	Short  = 2 * time.Second
	Long   = 1000 * time.Second
)

// Item is an item that a channel accepted, as the reference keeps it.
type Item struct {
	Data  byte
	Upd   bool
	Max   uint64
	Pos   string
	T     time.Duration
	Fails uint64
	ID    string // known once the item was handed out
	Since int64  // the last sign of life of the consumer
}

// What a harness checks.
const (
	Hands  = 1 << iota // who holds an item, and that none is lost
	Order              // the order items are handed out in, and how often
	Update             // items that replace the one waiting
	Count              // what the limiter is told
	Ack                // acknowledgements and heartbeats
)

// Channel is a running channel next to the reference: the items that wait, in order, and the ones being processed.
type Channel struct {
	C interface {
		Execute(ctx context.Context) error
		Enqueue(ctx context.Context, item *v1willow.Item) *errors.ServerError
		Dequeue() <-chan func(ctx context.Context) (*v1willow.Item, func(), func())
		ACK(ctx context.Context, ack *v1willow.ACK) (bool, *errors.ServerError)
		Heartbeat(ctx context.Context, heartbeat *v1willow.Heartbeat) *errors.ServerError
		Delete() bool
		ForceDelete(ctx context.Context)
	}
	L        *Limiter
	KV       hx.KV
	Ctx      context.Context
	Shutdown func()
	Stopped  bool
	Deletes  int // how often the channel asked to be deleted

	Checks     int
	Waiting    []*Item
	Processing []*Item
	Finished   []*Item
	Hands      []*Hand // what was handed out
	all        [256]*Item
	n          byte
}

// must is asserted when the harness checks it. Otherwise the history ends where the code and the reference differ.
func (c *Channel) must(what int, ok bool, label string) {
	if c.Checks&what != 0 {
		sym.Assert(ok, label)
	} else {
		sym.Assume(ok)
	}
}

// loose tells that the harness does not depend on what the reference says about the items that wait.
func (c *Channel) loose() bool { return c.Checks&(Hands|Order|Update) == 0 }

// New starts a channel of the queue.
func New(checks int) *Channel {
	c := &Channel{Checks: checks, L: NewLimiter(), Ctx: hxl.Ctx()}
	c.KV = hx.KV{Mask: 1}
	c.KV.Val[0] = hx.IntKey(1)
	c.C = memory.New(c.L, func() { c.Deletes++ }, Queue, c.KV.Map())
	ctx, cancel := context.WithCancel(context.Background())
	c.Shutdown = cancel
	go func() {
		_ = c.C.Execute(ctx)
		c.Stopped = true
	}()
	sym.Quiesce()
	return c
}

// Spec is a request to enqueue the item.
func Spec(kv hx.KV, it *Item) *v1willow.Item {
	upd, max, pos, t := it.Upd, it.Max, it.Pos, it.T
	return &v1willow.Item{Spec: &v1willow.ItemSpec{
		DBDefinition: &v1willow.ItemDBDefinition{KeyValues: kv.Map()},
		Properties: &v1willow.ItemProperties{
			Data:            []byte{it.Data},
			Updateable:      &upd,
			RetryAttempts:   &max,
			RetryPosition:   &pos,
			TimeoutDuration: &t,
		},
	}}
}

var Positions = []string{"front", "back"}

// Make is a new item.
func (c *Channel) Make(upd bool, max uint64, pos string, t time.Duration) *Item {
	c.n++
	it := &Item{Data: c.n, Upd: upd, Max: max, Pos: pos, T: t}
	c.all[c.n] = it
	return it
}

// Enqueue offers the item. The limiter refuses a new one when it was told to.
func (c *Channel) Enqueue(it *Item) bool {
	before := c.L.Refused
	err := c.C.Enqueue(c.Ctx, Spec(c.KV, it))
	if err != nil {
		c.must(Count, sym.And(err.StatusCode == http.StatusConflict, c.L.Refused > before), "only the limiter refuses an item")
		return false
	}
	c.must(Count, c.L.Refused == before, "an item that the limiter refuses is not accepted")
	if n := len(c.Waiting); !c.loose() && n > 0 && c.Waiting[n-1].Upd {
		c.Finished = append(c.Finished, c.Waiting[n-1])
		it.ID = c.Waiting[n-1].ID
		c.Waiting[n-1] = it
	} else {
		c.Waiting = append(c.Waiting, it)
	}
	return true
}

// Hand is an item in the hands of a consumer that was not told yet whether the delivery worked.
type Hand struct {
	Item     *v1willow.Item
	Of       *Item
	ok, fail func()
	at       int64
}

// Offer asks for an item without waiting. The second result tells whether the channel offers one at all.
func (c *Channel) Offer() (*Hand, bool) {
	sym.Quiesce()
	select {
	case f, open := <-c.C.Dequeue():
		c.must(Hands, open, "a running channel keeps offering items")
		h := &Hand{}
		h.at = sym.Now()
		h.Item, h.ok, h.fail = f(c.Ctx)
		if h.Item == nil {
			return nil, true
		}
		return h, true
	default:
		return nil, false
	}
}

// Find is the reference item with the data.
func Find(l []*Item, data byte) int {
	for i, it := range l {
		if it.Data == data {
			return i
		}
	}
	return -1
}

func drop(l *[]*Item, i int) {
	*l = append(append([]*Item{}, (*l)[:i]...), (*l)[i+1:]...)
}

// Is tells whether the item handed out is the reference item in every respect.
func (c *Channel) Is(h *Hand, it *Item) bool {
	s, p := h.Item.Spec, h.Item.Spec.Properties
	ok := len(p.Data) == 1 && p.Data[0] == it.Data
	ok = sym.And(ok, *p.Updateable == it.Upd)
	ok = sym.And(ok, *p.RetryAttempts == it.Max)
	ok = sym.And(ok, *p.RetryPosition == it.Pos)
	ok = sym.And(ok, *p.TimeoutDuration == it.T)
	return sym.And(ok, c.KV.IsKV(s.DBDefinition.KeyValues))
}

// Take moves the reference item that was handed out to the ones being processed.
func (c *Channel) Take(h *Hand) *Item {
	c.must(Hands, h.Item.State != nil && h.Item.State.ID != "", "an item that is handed out has an id")
	c.must(Order|Update|Hands, len(h.Item.Spec.Properties.Data) == 1, "an item keeps its data")
	d := h.Item.Spec.Properties.Data[0]
	c.must(Hands, Find(c.Processing, d) < 0, "an item that is being processed is not handed out")
	var it *Item
	i := Find(c.Waiting, d)
	if c.loose() {
		it = c.all[d]
	} else {
		c.must(Hands|Order|Update, i >= 0, "only an item that waits is handed out")
		c.must(Order|Update, i == 0, "the first item that waits is handed out")
		it = c.Waiting[i]
	}
	if i >= 0 {
		drop(&c.Waiting, i)
	}
	for _, o := range c.all {
		if o != nil && o != it && it.ID == "" && o.ID != "" {
			c.must(Hands, o.ID != h.Item.State.ID, "every item has an id of its own")
		}
	}
	c.must(Order|Update, c.Is(h, it), "an item is handed out as it was accepted")
	c.Processing = append(c.Processing, it)
	it.ID = h.Item.State.ID
	h.Of = it
	c.Hands = append(c.Hands, h)
	return it
}

// Deliver tells the channel that the item reached the consumer.
func (c *Channel) Deliver(h *Hand) {
	h.Of.Since = sym.Now()
	h.ok()
}

// Undeliverable tells the channel that the item did not reach the consumer.
func (c *Channel) Undeliverable(h *Hand) {
	h.fail()
	it := h.Of
	drop(&c.Processing, Find(c.Processing, it.Data))
	if c.loose() {
		return
	}
	if it.Upd && len(c.Waiting) > 0 {
		c.Finished = append(c.Finished, it)
		return
	}
	c.Waiting = append([]*Item{it}, c.Waiting...)
}

// Failed is what becomes of an item whose processing failed.
func (c *Channel) Failed(it *Item) {
	drop(&c.Processing, Find(c.Processing, it.Data))
	if c.loose() {
		return
	}
	it.Fails++
	switch n := len(c.Waiting); {
	case it.Fails > it.Max:
		c.Finished = append(c.Finished, it)
	case it.Pos == "front" && n > 0 && it.Upd:
		c.Finished = append(c.Finished, it)
	case it.Pos == "front":
		c.Waiting = append([]*Item{it}, c.Waiting...)
	case n > 0 && c.Waiting[n-1].Upd:
		c.Finished = append(c.Finished, c.Waiting[n-1])
		c.Waiting[n-1] = it
	default:
		c.Waiting = append(c.Waiting, it)
	}
}

// Passed finishes an item.
func (c *Channel) Passed(it *Item) {
	drop(&c.Processing, Find(c.Processing, it.Data))
	c.Finished = append(c.Finished, it)
}

// ACK acknowledges the item with the id.
func (c *Channel) ACK(id string, passed bool) *errors.ServerError {
	_, err := c.C.ACK(c.Ctx, &v1willow.ACK{ItemID: id, KeyValues: c.KV.Map(), Passed: passed})
	return err
}

// Beat sends a heartbeat for the id.
func (c *Channel) Beat(id string) *errors.ServerError {
	return c.C.Heartbeat(c.Ctx, &v1willow.Heartbeat{ItemID: id, KeyValues: c.KV.Map()})
}

// Done is an acknowledgement of an item that is being processed.
func (c *Channel) Done(it *Item, passed bool) {
	c.must(Ack, c.ACK(it.ID, passed) == nil, "an item that is being processed can be acknowledged")
	if passed {
		c.Passed(it)
	} else {
		c.Failed(it)
	}
}

// Pass lets time pass: items without a heartbeat for their timeout fail.
func (c *Channel) Pass(d time.Duration) {
	sym.Advance(d)
	c.Lapse()
}

// Lapse is what happens to the items whose time is up.
func (c *Channel) Lapse() {
	for _, it := range append([]*Item{}, c.Processing...) {
		if sym.Now()-it.Since >= int64(it.T) {
			c.Failed(it)
		}
	}
}

// NotFound is the answer for an item that is not being processed.
func NotFound(err *errors.ServerError) bool {
	return err != nil && err.StatusCode == http.StatusNotFound
}

// Unfinished counts the items that wait or are being processed.
func (c *Channel) Unfinished() int { return len(c.Waiting) + len(c.Processing) }

// The operations of a history.
const (
	Enqueue = 1 << iota
	Deliver
	Undeliver
	Limit // the limiter refuses to run the item
	Pass
	Fail
	Expire
	Heartbeat
	Tick // less time than any timeout passes
)

// Settings are what items of a history are made of.
type Settings struct {
	Updateable bool // items may be updateable
	Retries    int  // most retries that matter
	Refuse     bool // the limiter may refuse items
	Expires    bool // items may have a short timeout
	NoReplace  bool // nothing is enqueued behind an updateable item
}

// Some is an item with arbitrary settings.
func (c *Channel) Some(s Settings) *Item {
	it := c.Make(false, 0, Positions[0], Long)
	if s.Updateable {
		it.Upd = sym.Bool("updateable")
	}
	if s.Retries > 0 {
		it.Max = sym.Uint64("retries")
		it.Pos = Positions[sym.Choose("position", 2)]
	}
	if s.Expires && sym.Bool("expires") {
		it.T = Short
	}
	return it
}

// Act is one operation of a history.
type Act struct {
	Op     int
	Item   Item // what is enqueued
	Refuse bool
	Index  int // which item that is being processed
}

// Pick chooses one of the operations.
func (c *Channel) Pick(ops int, s Settings) Act {
	var l []int
	for o := Enqueue; o <= Tick; o <<= 1 {
		if ops&o == 0 || o&(Pass|Fail|Expire|Heartbeat|Tick) != 0 && len(c.Processing) == 0 {
			continue
		}
		l = append(l, o)
	}
	a := Act{Op: l[sym.Choose("operation", len(l))]}
	switch a.Op {
	case Enqueue:
		if s.Refuse {
			a.Refuse = sym.Bool("limiter refuses")
		}
		a.Item = *c.Some(s)
		if n := len(c.Waiting); s.NoReplace && n > 0 {
			sym.Assume(!c.Waiting[n-1].Upd)
		}
	case Pass, Fail, Heartbeat:
		a.Index = sym.Choose("item", len(c.Processing))
	}
	return a
}

// Step makes one of the operations.
func (c *Channel) Step(ops int, s Settings) { c.Do(c.Pick(ops, s)) }

// Do makes the operation. The history ends if it is not possible.
func (c *Channel) Do(a Act) {
	switch a.Op {
	case Enqueue:
		c.L.RefuseEnqueue = func() bool { return a.Refuse }
		it := a.Item
		c.all[it.Data] = &it
		c.Enqueue(&it)
	case Deliver, Undeliver:
		h := c.Next()
		if h == nil {
			sym.Assume(false) // nothing waits
		}
		if a.Op == Deliver {
			c.Deliver(h)
		} else {
			c.Undeliverable(h)
		}
	case Limit:
		c.L.RefuseRunning = func() bool { return true }
		h, offered := c.Offer()
		c.L.RefuseRunning = nil
		sym.Assume(offered)
		c.must(Count, h == nil, "an item that the limiter refuses to run is not handed out")
	case Pass, Fail:
		c.Done(c.Processing[a.Index], a.Op == Pass)
	case Heartbeat:
		it := c.Processing[a.Index]
		c.must(Ack, c.Beat(it.ID) == nil, "an item that is being processed accepts heartbeats")
		it.Since = sym.Now()
	case Expire:
		c.Pass(Short)
	case Tick:
		c.Pass(Second)
	}
	sym.Quiesce()
	c.Unaltered()
}

// Unaltered checks the items that consumers hold.
func (c *Channel) Unaltered() {
	if c.Checks&Update == 0 {
		return
	}
	for _, h := range c.Hands {
		if Find(c.Processing, h.Of.Data) >= 0 && h.Of.ID == h.Item.State.ID {
			sym.Assert(c.Is(h, h.Of), "an item that is being processed is not altered")
		}
	}
}

// Next takes the next item, if there is one.
func (c *Channel) Next() *Hand {
	h, offered := c.Offer()
	if !c.loose() {
		c.must(Hands|Order|Update, offered == (len(c.Waiting) > 0), "an item is offered when one waits")
	}
	if h == nil {
		c.must(Hands|Order|Update, !offered, "an item that is offered is handed out")
		return nil
	}
	c.Take(h)
	return h
}

// Drain finishes everything: what is being processed, and then what waits. It returns how many items there were.
func (c *Channel) Drain() (processing, waiting int) {
	for _, it := range append([]*Item{}, c.Processing...) {
		c.Done(it, true)
		processing++
	}
	for {
		h := c.Next()
		if h == nil {
			return
		}
		waiting++
		c.Deliver(h)
		sym.Quiesce()
		c.Done(h.Of, true)
	}
}

// Calls that may happen at the same time.
const (
	CallEnqueue = iota
	CallTake    // a consumer takes an item and is told about it
	CallLose    // a consumer takes an item, but the delivery fails
	CallPass
	CallFail
	CallBeat
	Calls
)

// Scene counts what the calls of a concurrent history did.
type Scene struct {
	C        *Channel
	Accepted int // items accepted
	Ended    int // items acknowledged
	Started  int
	Done     chan bool
	Got      []*Hand
	OK       []int // successes by call
}

// Call makes the call in the background, about the item that is being processed (if it is about one).
func (s *Scene) Call(e int, it *Item) {
	s.Started++
	c := s.C
	switch e {
	case CallEnqueue:
		n := c.Make(false, 0, Positions[0], Long)
		go func() {
			if c.C.Enqueue(c.Ctx, Spec(c.KV, n)) == nil {
				s.Accepted++
			}
			s.Done <- true
		}()
	case CallTake, CallLose:
		go func() {
			if f, open := <-c.C.Dequeue(); open {
				if item, ok, fail := f(c.Ctx); item != nil {
					if e == CallTake {
						s.Got = append(s.Got, &Hand{Item: item})
						ok()
					} else {
						fail()
					}
				}
			}
			s.Done <- true
		}()
	case CallPass, CallFail:
		go func() {
			if c.ACK(it.ID, e == CallPass) == nil {
				s.OK[e]++
			}
			s.Done <- true
		}()
	case CallBeat:
		go func() {
			if c.Beat(it.ID) == nil {
				s.OK[e]++
			}
			s.Done <- true
		}()
	}
}

// NewScene is a channel that is about to see concurrent calls.
func NewScene(c *Channel) *Scene {
	return &Scene{C: c, Done: make(chan bool, 8), OK: make([]int, Calls)}
}

// Settle waits for the calls.
func (s *Scene) Settle() {
	sym.Quiesce()
	sym.Preemptions(0)
}

// Empty finishes everything by acknowledging whatever can be acknowledged. It returns how many items were being
// processed and how many waited.
func (s *Scene) Empty() (processing, waiting int) {
	c := s.C
	ids := map[string]bool{}
	for _, it := range c.Processing {
		ids[it.ID] = true
	}
	for _, h := range s.Got {
		ids[h.Item.State.ID] = true
	}
	c.Processing = nil
	for id := range ids {
		if c.ACK(id, true) == nil {
			processing++
		}
	}
	for {
		h, _ := c.Offer()
		if h == nil {
			return
		}
		waiting++
		h.ok()
		sym.Quiesce()
		c.ACK(h.Item.State.ID, true)
	}
}

// Twice tells whether an item was handed out while it was in the hands of another consumer: the item that was being
// processed, unless it failed, or one item to two consumers.
func (s *Scene) Twice(it *Item, failed bool) bool {
	seen := map[byte]int{}
	if !failed {
		seen[it.Data]++
	}
	for _, h := range s.Got {
		seen[h.Item.Spec.Properties.Data[0]]++
	}
	for _, n := range seen {
		if n > 1 {
			return true
		}
	}
	return false
}

// Deliver and Lose tell the channel about the delivery, without the reference.
func (h *Hand) Deliver() { h.ok() }
func (h *Hand) Lose()    { h.fail() }
