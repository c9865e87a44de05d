//go:build verif

// Package c40: the commands as they are started from a command line.
package c40

import (
	"context"
	"net/http"
	"time"

	"github.com/DanLavine/willow/internal/verif_harness/hxh"
	sym "github.com/DanLavine/willow/internal/verif_sym"
	"github.com/DanLavine/willow/pkg/clients"
	limiterclient "github.com/DanLavine/willow/pkg/clients/limiter_client"
	willowclient "github.com/DanLavine/willow/pkg/clients/willow_client"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	lim "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	dt "github.com/DanLavine/willow/pkg/models/datatypes"
)

type commands struct {
	p [3]*hxh.Process
}

var mains = [3]func(){hxh.Locker, hxh.Limiter, hxh.Willow}
var ports = [3]string{":8083", ":8082", ":8081"}
var args = [3][]string{
	{"-insecure-http", "-log-level", "info", "-port", "8083"},
	{"-insecure-http", "-log-level", "info", "-port", "8082", "-locker-url", "http://127.0.0.1:8083"},
	{"-insecure-http", "-log-level", "info", "-port", "8081", "-limiter-url", "http://127.0.0.1:8082"},
}

func (c *commands) start(i int) {
	c.p[i] = hxh.Start(mains[i], args[i]...)
	sym.Quiesce()
}

// orders of the three commands.
var orders = [][]int{{0, 1, 2}, {2, 1, 0}, {1, 2, 0}, {0, 2, 1}, {1, 0, 2}, {2, 0, 1}}

// CheckStartAndStop: the commands can be started and stopped in any order.
//
// verif: native=off race=off devs=0 ticks=60 maporder=insertion
func CheckStartAndStop() {
	c := &commands{}
	order := orders[sym.Choose("started", 6)]
	for _, i := range order {
		c.start(i)
		if sym.Choose("later", 2) == 1 {
			sym.Advance(time.Duration(sym.Choose("seconds", 3)*7) * time.Second)
			sym.Quiesce()
		}
	}
	sym.Advance(25 * time.Second)
	sym.Quiesce()
	for i := range c.p {
		sym.Assert(!c.p[i].Ended, "a command runs until it is told to stop")
		sym.Assert(hxh.At(ports[i]) != nil, "a command serves once the one it needs does")
	}
	order = orders[sym.Choose("stopped", 6)]
	for _, i := range order {
		c.p[i].Interrupt()
		sym.Quiesce()
		sym.Advance(time.Minute)
		sym.Quiesce()
		sym.Assert(c.p[i].Ended && !c.p[i].Failed, "a command that is told to stop does")
		sym.Assert(hxh.At(ports[i]) == nil, "a command that stopped is not reachable")
	}
	sym.Reach("stopped")
}

// CheckWaiting: a command waits for the service that it needs, for a while.
//
// verif: native=off race=off devs=0 ticks=60 maporder=insertion
func CheckWaiting() {
	c := &commands{}
	i := 1 + sym.Choose("command", 2)
	if i == 2 && sym.Choose("locker", 2) == 1 {
		c.start(0)
	}
	c.start(i)
	for n := sym.Choose("waited", 8); n > 0; n-- {
		sym.Advance(9 * time.Second)
		sym.Quiesce()
	}
	sym.Assert(!c.p[i].Ended && hxh.At(ports[i]) == nil, "a command does not serve before the one it needs does")
	switch sym.Choose("then", 3) {
	case 0:
		if i == 2 && c.p[0] == nil {
			c.start(0)
		}
		c.start(i - 1)
		sym.Advance(11 * time.Second)
		sym.Quiesce()
		sym.Assert(!c.p[i].Ended && hxh.At(ports[i]) != nil, "a command serves once the one it needs does")
		sym.Reach("served")
	case 1:
		c.p[i].Interrupt()
		sym.Quiesce()
		sym.Advance(time.Second)
		sym.Quiesce()
		sym.Assert(c.p[i].Ended, "a command that is told to stop while it waits does")
		sym.Reach("stopped")
	case 2:
		sym.Advance(2 * time.Minute)
		sym.Quiesce()
		sym.Assert(c.p[i].Ended && c.p[i].Failed, "a command whose service does not come gives up and says so")
		sym.Reach("gave up")
	}
}

// CheckMisconfigured: a command that is not configured properly does not start.
//
// verif: native=off race=off devs=0 ticks=60 maporder=insertion
func CheckMisconfigured() {
	c := &commands{}
	i := sym.Choose("command", 3)
	for n := 0; n < i; n++ {
		c.start(n)
	}
	bad := [][]string{
		{"-log-level", "loud"}, {"-port", "70000"}, {"-insecure-http=false"}, {"-server-key", "/key"},
		{"-limiter-url", ""}, {"-limiter-client-crt", "/missing"},
		{"-locker-url", ""}, {"-locker-client-crt", "/missing"},
	}
	w := sym.Choose("wrong", len(bad))
	if w/2 == 2 && i != 2 || w/2 == 3 && i != 1 {
		return
	}
	c.p[i] = hxh.Start(mains[i], append(append([]string{}, args[i]...), bad[w]...)...)
	sym.Quiesce()
	sym.Advance(2 * time.Minute)
	sym.Quiesce()
	sym.Assert(c.p[i].Ended && c.p[i].Failed, "a command that is not configured properly fails")
	sym.Assert(hxh.At(ports[i]) == nil, "a command that is not configured properly does not serve")
	sym.Reach("failed")
}

// worker is a user's process that takes an item.
type worker struct {
	item   *willowclient.Item
	err    error
	done   bool
	cancel context.CancelFunc
}

func work(c *willowclient.WillowClient) *worker {
	w := &worker{}
	ctx, cancel := context.WithCancel(context.Background())
	w.cancel = cancel
	go func() {
		w.item, w.err = c.DequeueQueueItem(ctx, "q", &qa.AssociatedActionQuery{})
		w.done = true
	}()
	sym.Quiesce()
	return w
}

// CheckWorking: the commands together hold items and hand them out within the limits, until they are stopped.
//
// verif: native=off race=off devs=0 ticks=200 maporder=insertion
func CheckWorking() {
	c := &commands{}
	for i := range c.p {
		c.start(i)
	}
	ctx := context.Background()
	wc, err := willowclient.NewWillowClient(&clients.Config{URL: "http://127.0.0.1:8081"})
	sym.Assume(err == nil)
	lc, err := limiterclient.NewLimiterClient(&clients.Config{URL: "http://127.0.0.1:8082"})
	sym.Assume(err == nil)
	add := func(data byte) bool {
		no, zero, front := false, uint64(0), "front"
		beat := time.Minute
		err := wc.EnqueueQueueItem(ctx, "q", &v1willow.Item{Spec: &v1willow.ItemSpec{
			DBDefinition: &v1willow.ItemDBDefinition{KeyValues: dt.TypedKeyValues{"a": dt.Int(1)}},
			Properties:   &v1willow.ItemProperties{Data: []byte{data}, Updateable: &no, RetryAttempts: &zero, RetryPosition: &front, TimeoutDuration: &beat},
		}})
		return err == nil
	}
	sym.Assert(!add(0), "there is no queue before one is created")
	name := "q"
	n := int64(sym.Choose("queue limit", 5)) - 1
	sym.Assert(wc.CreateQueue(ctx, &v1willow.Queue{Spec: &v1willow.QueueSpec{
		DBDefinition: &v1willow.QueueDBDefinition{Name: &name}, Properties: &v1willow.QueueProperties{MaxItems: &n}}}) == nil, "a queue is created")
	running := int64(sym.Choose("limit on running items", 4)) - 1
	if running != -1 {
		_, err := lc.CreateRule(ctx, &lim.Rule{Spec: &lim.RuleSpec{
			DBDefinition: &lim.RuleDBDefinition{GroupByKeyValues: dt.TypedKeyValues{"_willow_running": dt.Any()}},
			Properties:   &lim.RuleProperties{Limit: &running}}})
		sym.Assert(err == nil, "a rule is created")
	}
	const items = 3
	room := items
	if n != -1 && n < items {
		room = int(n)
	}
	for i := 0; i < items; i++ {
		sym.Assert(add(byte(i)) == (i < room), "a queue accepts items up to its limit")
	}
	may := room
	if running != -1 && int(running) < room {
		may = int(running)
	}
	var ws []*worker
	for i := 0; i < items; i++ {
		ws = append(ws, work(wc))
	}
	got := map[byte]bool{}
	handed := func() (k int) {
		clear(got)
		for _, w := range ws {
			if w.done {
				sym.Assert(w.err == nil && w.item != nil && len(w.item.Data()) == 1 && !got[w.item.Data()[0]], "a worker gets an item of its own")
				got[w.item.Data()[0]] = true
				k++
			}
		}
		for i := 0; i < k; i++ {
			sym.Assert(got[byte(i)], "items are handed out in their order")
		}
		return
	}
	sym.Assert(handed() == may, "items are handed out up to the limit on running ones")
	for i := sym.Choose("waits", 3); i > 0; i-- {
		sym.Advance(40 * time.Second)
		sym.Quiesce()
	}
	sym.Assert(handed() == may, "items that are being processed stay with their workers")
	if may > 0 && sym.Choose("finish", 2) == 1 {
		for _, w := range ws {
			if w.done {
				sym.Assert(w.item.ACK(ctx, true) == nil, "an item is acknowledged")
				break
			}
		}
		sym.Advance(6 * time.Second)
		sym.Quiesce()
		if may < room {
			may++
		}
		sym.Assert(handed() == may, "an item that waits is handed out once there is room")
		sym.Assert(add(items) == (n != 0), "a queue accepts an item again once there is room")
		sym.Quiesce()
		sym.Reach("finished")
	}
	for _, i := range orders[sym.Choose("stopped", sym.Bound("stop orders", 2, 6))] {
		c.p[i].Interrupt()
		sym.Quiesce()
		sym.Advance(10 * time.Second)
		sym.Quiesce()
		sym.Assert(c.p[i].Ended && !c.p[i].Failed, "a command that is told to stop does, whatever it does at the time")
	}
	for _, w := range ws {
		sym.Assert(w.done, "a worker is told when the service stops")
	}
	sym.Reach("stopped")
}

// CheckTrace: the id that a request comes with, or gets, goes with every request that the services make for it.
//
// verif: native=off race=off devs=0 ticks=60 maporder=insertion
func CheckTrace() {
	c := &commands{}
	for i := range c.p {
		c.start(i)
	}
	wc, err := willowclient.NewWillowClient(&clients.Config{URL: "http://127.0.0.1:8081"})
	sym.Assume(err == nil)
	lc, err := limiterclient.NewLimiterClient(&clients.Config{URL: "http://127.0.0.1:8082"})
	sym.Assume(err == nil)
	name, n, limit := "q", int64(5), int64(1)
	q := &v1willow.Queue{Spec: &v1willow.QueueSpec{DBDefinition: &v1willow.QueueDBDefinition{Name: &name}, Properties: &v1willow.QueueProperties{MaxItems: &n}}}
	no, zero, front, beat := false, uint64(0), "front", time.Minute
	item := &v1willow.Item{Spec: &v1willow.ItemSpec{
		DBDefinition: &v1willow.ItemDBDefinition{KeyValues: dt.TypedKeyValues{"a": dt.Int(1)}},
		Properties:   &v1willow.ItemProperties{Data: []byte{1}, Updateable: &no, RetryAttempts: &zero, RetryPosition: &front, TimeoutDuration: &beat},
	}}
	ops := []func(ctx context.Context) error{
		func(ctx context.Context) error { return wc.CreateQueue(ctx, q) },
		func(ctx context.Context) error { return wc.UpdateQueue(ctx, name, q.Spec.Properties) },
		func(ctx context.Context) error { return wc.EnqueueQueueItem(ctx, name, item) },
		func(ctx context.Context) error {
			return lc.UpdateCounter(ctx, &lim.Counter{Spec: &lim.CounterSpec{DBDefinition: &lim.CounterDBDefinition{KeyValues: dt.TypedKeyValues{"x": dt.Int(1)}}, Properties: &lim.CounteProperties{Counters: &limit}}})
		},
		func(ctx context.Context) error {
			return wc.DeleteQueueChannel(ctx, name, item.Spec.DBDefinition.KeyValues)
		},
		func(ctx context.Context) error { return wc.DeleteQueue(ctx, name) },
	}
	given := sym.Choose("with an id", 2) == 1
	for i, op := range ops {
		ctx := context.Background()
		if given {
			ctx = context.WithValue(ctx, clients.TraceID, string(rune('a'+i)))
		}
		var ids []string
		hxh.Watch = func(r *http.Request) { ids = append(ids, r.Header.Get(clients.TraceHeader)) }
		sym.Assert(op(ctx) == nil, "a call succeeds")
		hxh.Watch = nil
		if !given {
			ids = ids[1:]
		}
		for _, id := range ids {
			sym.Assert(id == ids[0] && id != "" && (!given || id == string(rune('a'+i))), "the id of a request goes with those made for it")
			sym.Reach("passed on")
		}
		sym.Quiesce()
	}
}
