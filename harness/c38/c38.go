//go:build verif

// Package c38: the willow, limiter and locker services together, wired as their commands wire them.
package c38

import (
	"context"
	"net/http"
	"time"

	"github.com/DanLavine/urlrouter"
	"github.com/DanLavine/willow/internal/config"
	limhandlers "github.com/DanLavine/willow/internal/limiter/api/v1/handlers"
	limrouter "github.com/DanLavine/willow/internal/limiter/api/v1/router"
	lochandlers "github.com/DanLavine/willow/internal/locker/api/v1/handlers"
	locrouter "github.com/DanLavine/willow/internal/locker/api/v1/router"
	"github.com/DanLavine/willow/internal/verif_harness/hxh"
	"github.com/DanLavine/willow/internal/verif_harness/hxk"
	"github.com/DanLavine/willow/internal/verif_harness/hxl"
	"github.com/DanLavine/willow/internal/verif_harness/hxw"
	sym "github.com/DanLavine/willow/internal/verif_sym"
	"github.com/DanLavine/willow/pkg/clients"
	limiterclient "github.com/DanLavine/willow/pkg/clients/limiter_client"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	lim "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	dt "github.com/DanLavine/willow/pkg/models/datatypes"
	"go.uber.org/zap"
)

// all is the three services, and what they hold.
type all struct {
	s      *hxw.Service
	rule   string // the one for queues
	lim    limiterclient.LimiterClient
	queues []*queue

	last  int64 // when the limiter was last asked something
	asked int   // how often at that moment

	gone  bool   // whether the rule was deleted
	down  bool   // whether the limiter answers nothing but that it has a problem
	after int    // the request to the limiter, counted from now, before which
	then  func() // this happens
}

type queue struct {
	name    string
	exists  bool
	limit   int64
	waiting [2]int
	held    [2][]string

	first  int64 // the limit of the first channel
	narrow bool  // if it has one
}

func (q *queue) total() (n int) {
	for ch := range q.waiting {
		n += q.waiting[ch] + len(q.held[ch])
	}
	return
}

// start starts the services.
func start() *all {
	k := hxk.New()
	locks := urlrouter.New()
	t := 30 * time.Second
	locrouter.AddV1LockerRoutes(zap.NewNop(), locks, lochandlers.NewLockHandler(&config.LockerConfig{LockDefaultTimeout: &t}, k))

	l := hxl.New()
	limits := urlrouter.New()
	limrouter.AddV1LimiterRoutes(zap.NewNop(), limits, limhandlers.NewGroupRuleHandler(context.Background(), &clients.Config{URL: hxh.Listen(locks)}, l.Rules, l.Counters))
	a := &all{queues: []*queue{{name: "p"}, {name: "q"}}}
	client, err := limiterclient.NewLimiterClient(&clients.Config{URL: hxh.Listen(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if now := sym.Now(); now != a.last {
			a.last, a.asked = now, 0
		}
		a.asked++
		sym.Assert(a.asked < 25, "the limiter is not asked over and over again without a pause")
		if a.after--; a.after == 0 {
			a.then()
		}
		if a.down {
			w.WriteHeader(http.StatusInternalServerError)
			return
		}
		limits.ServeHTTP(w, r)
	}))})
	sym.Assume(err == nil)

	zero := int64(0)
	rule, err := client.CreateRule(context.Background(), &lim.Rule{Spec: &lim.RuleSpec{
		DBDefinition: &lim.RuleDBDefinition{GroupByKeyValues: dt.KeyValues{"_willow_queue_name": dt.Any(), "_willow_enqueued": dt.Any()}},
		Properties:   &lim.RuleProperties{Limit: &zero},
	}})
	sym.Assert(err == nil, "the rule for queues can be created")
	a.s, a.lim, a.rule = hxw.NewServiceWith(client, rule.State.ID), client, rule.State.ID
	return a
}

func (a *all) create(q *queue, limit int64) {
	err := a.s.Create(q.name, limit)
	sym.Assert((err == nil) == !q.exists, "a queue is created unless there is one of its name")
	if err == nil {
		*q = queue{name: q.name, exists: true, limit: limit, first: q.first, narrow: q.narrow}
	}
}

func (a *all) enqueue(q *queue, ch int) {
	err := a.s.Enqueue(q.name, ch, a.s.Item(0))
	room := q.exists && (q.limit == -1 || int64(q.total()) < q.limit)
	if ch == 0 && q.narrow && q.first != -1 && int64(q.waiting[0]+len(q.held[0])) >= q.first {
		room = false
	}
	sym.Assert((err == nil) == room, "a queue accepts an item exactly when it holds fewer than its limit")
	if err == nil {
		q.waiting[ch]++
	}
}

func (a *all) dequeue(q *queue, ch int) {
	c := a.s.Dequeue(q.name, hxw.Only(ch))
	sym.Quiesce()
	if !q.exists || q.waiting[ch] == 0 {
		c.Cancel()
		sym.Quiesce()
		sym.Assert(c.Returned && c.Item == nil, "there is only what was enqueued")
		return
	}
	sym.Assert(c.Returned && c.Item != nil && c.Err == nil, "an item that waits is handed out")
	c.OK()
	sym.Quiesce()
	q.waiting[ch]--
	q.held[ch] = append(q.held[ch], c.Item.State.ID)
}

func (a *all) ack(q *queue, ch int) {
	if len(q.held[ch]) == 0 {
		return
	}
	sym.Assert(a.s.Ack(q.name, ch, q.held[ch][0], true) == nil, "an item that is being processed is acknowledged")
	q.held[ch] = q.held[ch][1:]
	sym.Quiesce()
}

// agree: the limiter counts what the queues hold.
func (a *all) agree() {
	counters, err := a.lim.QueryCounters(context.Background(), &qa.AssociatedActionQuery{})
	sym.Assert(err == nil, "the counters can be read")
	enq, run := map[string]int{}, map[string]int{}
	for _, c := range counters {
		kvs := c.Spec.DBDefinition.KeyValues
		name := kvs["_willow_queue_name"].Data.(string)
		if _, ok := kvs["_willow_enqueued"]; ok {
			enq[name] += int(*c.Spec.Properties.Counters)
		} else {
			run[name] += int(*c.Spec.Properties.Counters)
		}
	}
	for _, q := range a.queues {
		sym.Assert(enq[q.name] == q.total(), "the limiter counts the items that a queue holds")
		sym.Assert(run[q.name] == len(q.held[0])+len(q.held[1]), "the limiter counts the items that are being processed")
	}
}

func (a *all) step(op int, q *queue) {
	switch op {
	case 0:
		a.enqueue(q, 0)
	case 1:
		a.enqueue(q, 1)
	case 2:
		a.dequeue(q, 0)
	case 3:
		a.ack(q, 0)
	case 4:
		n := int64(sym.Choose("new limit", 4)) - 1
		err := a.s.Q.UpdateQueue(hxl.Ctx(), q.name, &v1willow.QueueProperties{MaxItems: &n})
		sym.Assert((err == nil) == q.exists, "a queue that exists is updated")
		q.limit = n
	case 5:
		err := a.s.Q.DeleteQueue(hxl.Ctx(), q.name)
		sym.Assert(err == nil || !q.exists, "a queue that exists is deleted")
		sym.Quiesce()
		*q = queue{name: q.name, first: q.first, narrow: q.narrow}
	case 6:
		err := a.s.Q.DeleteChannel(hxl.Ctx(), q.name, hxw.Key(0).Map())
		sym.Assert(!q.exists || err == nil, "a channel is deleted")
		sym.Quiesce()
		q.waiting[0], q.held[0] = 0, nil
	case 7:
		a.create(q, int64(sym.Choose("limit", 3)))
	}
}

// CheckQueueLimit: a queue never holds more than its limit, and accepts items up to it, whatever happened before.
//
// verif: devs=0 ticks=40 maporder=insertion
func CheckQueueLimit() {
	a := start()
	a.create(a.queues[0], 1+int64(sym.Choose("limit", 2)))
	for i, n := 0, sym.Bound("operations", 3, 4); i < n; i++ {
		a.step(sym.Choose("operation", 8), a.queues[0])
	}
	a.agree()
	a.enqueue(a.queues[0], 1)
	sym.Reach("queue limit")
}

// CheckChannelLimit: a user limits what one of the queue's channels holds, with an override of the same rule.
//
// verif: devs=0 ticks=40 maporder=insertion
func CheckChannelLimit() {
	a := start()
	q := a.queues[0]
	if sym.Choose("queue first", 2) == 1 {
		a.create(q, 2)
	}
	q.first, q.narrow = []int64{1, 0, -1}[sym.Choose("channel limit", sym.Bound("channel limits", 2, 3))], true
	_, err := a.lim.CreateOverride(context.Background(), a.rule, &lim.Override{Spec: &lim.OverrideSpec{
		DBDefinition: &lim.OverrideDBDefinition{GroupByKeyValues: dt.TypedKeyValues{
			"_willow_queue_name": dt.String(q.name), "_willow_enqueued": dt.String("true"), "_willow_a": dt.Int(0)}},
		Properties: &lim.OverrideProperties{Limit: &q.first},
	}})
	sym.Assert(err == nil, "an override can be created")
	if !q.exists {
		a.create(q, 2)
	}
	a.enqueue(q, 0)
	for i, n := 0, sym.Bound("operations", 2, 3); i < n; i++ {
		a.step(sym.Choose("operation", 8), q)
	}
	a.agree()
	a.enqueue(q, sym.Choose("channel", 2))
	sym.Reach("channel limit")
}

// CheckTwoQueues: the limit of one queue is not used up by another.
//
// verif: devs=0 ticks=40 maporder=insertion
func CheckTwoQueues() {
	a := start()
	for i, q := range a.queues {
		a.create(q, int64(2-i))
		a.enqueue(q, 0)
	}
	if sym.Choose("being processed", 2) == 1 {
		a.dequeue(a.queues[0], 0)
	}
	for i, n := 0, sym.Bound("operations", 2, 3); i < n; i++ {
		a.step(sym.Choose("operation", 7), a.queues[sym.Choose("queue", 2)])
	}
	a.agree()
	a.enqueue(a.queues[sym.Choose("queue", 2)], 1)
	sym.Reach("two queues")
}

// rule adds a rule to the limiter.
func (a *all) addRule(kvs dt.KeyValues, limit int64) string {
	r, err := a.lim.CreateRule(context.Background(), &lim.Rule{Spec: &lim.RuleSpec{
		DBDefinition: &lim.RuleDBDefinition{GroupByKeyValues: dt.TypedKeyValues(kvs)},
		Properties:   &lim.RuleProperties{Limit: &limit},
	}})
	sym.Assert(err == nil, "a rule can be created")
	return r.State.ID
}

// vanish: while the services find out whether there is room, the rule is deleted.
func (a *all) vanish(rule string) {
	a.after = sym.Choose("deleted before request", 5)
	a.then = func() {
		a.gone = true
		sym.Assert(a.lim.DeleteRule(context.Background(), rule) == nil, "a rule is deleted")
	}
}

// relax lifts the limits of a rule and of its override, if it has one.
func (a *all) relax(rule, override string, how int) {
	switch how {
	case 0:
		unlimited := int64(-1)
		sym.Assert(a.lim.UpdateRule(context.Background(), rule, &lim.RuleProperties{Limit: &unlimited}) == nil, "a rule is updated")
		if override != "" {
			sym.Assert(a.lim.UpdateOverride(context.Background(), rule, override, &lim.OverrideProperties{Limit: &unlimited}) == nil, "an override is updated")
		}
	case 1:
		sym.Assert(a.lim.DeleteRule(context.Background(), rule) == nil, "a rule is deleted")
	}
	sym.Advance(time.Minute)
	sym.Quiesce()
}

// CheckRunning: a rule limits how many items are processed at once; an item that has to wait for it is handed
// out once there is room: another item is acknowledged, or the limit is lifted.
//
// verif: devs=0 ticks=40 maporder=insertion
func CheckRunning() {
	a := start()
	p, q := a.queues[0], a.queues[1]
	a.create(p, -1)
	a.create(q, -1)
	// what is limited: the channels a = 0, each value of a, the queue p, each queue, everything
	kind := sym.Choose("rule", 5)
	kvs := dt.KeyValues{"_willow_running": dt.String("true")}
	some := dt.KeyValues{"_willow_running": dt.String("true")} // the group of the first item
	switch kind {
	case 0:
		kvs["a"] = dt.Int(0)
	case 1:
		kvs["a"], some["a"] = dt.Any(), dt.Int(0)
	case 2:
		kvs["_willow_queue_name"] = dt.String(p.name)
	case 3:
		kvs["_willow_queue_name"], some["_willow_queue_name"] = dt.Any(), dt.String(p.name)
	}
	base := int64(sym.Choose("limit", 3)) - 1
	id := a.addRule(kvs, base)
	limit, over := base, ""
	if kind == 1 || kind == 3 { // the first item's group may have its own limit
		if n := int64(sym.Choose("override", 4)) - 2; n > -2 {
			o, err := a.lim.CreateOverride(context.Background(), id, &lim.Override{Spec: &lim.OverrideSpec{
				DBDefinition: &lim.OverrideDBDefinition{GroupByKeyValues: dt.TypedKeyValues(some)},
				Properties:   &lim.OverrideProperties{Limit: &n},
			}})
			sym.Assert(err == nil, "an override can be created")
			limit, over = n, o.State.ID
		}
	}
	a.enqueue(p, 0)
	if limit == 0 && over == "" {
		a.vanish(id)
	}
	first := a.s.Dequeue(p.name, hxw.Only(0))
	sym.Quiesce()
	a.after = 0
	if !a.gone {
		sym.Assert(first.Returned == (limit != 0), "an item is processed exactly when every limit has room")
	}
	if limit == 0 {
		if !a.gone {
			a.agree()
			a.relax(id, over, sym.Choose("relaxed", 2))
		}
		sym.Advance(time.Minute)
		sym.Quiesce()
		sym.Assert(first.Returned, "an item that waits for a limit is handed out once there is room")
		limit, base = -1, -1
	}
	first.OK()
	p.waiting[0]--
	p.held[0] = append(p.held[0], first.Item.State.ID)
	// what the second item has in common with the first
	to, ch := p, 0
	switch sym.Choose("second", 3) {
	case 1:
		ch = 1
	case 2:
		to = q
	}
	free, ever := limit == -1, true
	switch {
	case kind == 0 && ch == 1, kind == 2 && to == q:
		free = true
	case kind == 1 && ch == 1, kind == 3 && to == q: // another group
		free, ever = base != 0, base != 0
	}
	a.enqueue(to, ch)
	second := a.s.Dequeue(to.name, hxw.Only(ch))
	sym.Quiesce()
	sym.Assert(second.Returned == free, "an item is processed exactly when every limit has room")
	if !free {
		a.agree()
		if how := sym.Choose("room", 3); how < 2 {
			a.relax(id, over, how)
			ever = true
		} else {
			a.ack(p, 0)
			sym.Advance(time.Minute)
			sym.Quiesce()
		}
		sym.Assert(second.Returned == ever, "an item that waits for a limit is handed out once there is room")
		if !ever {
			sym.Reach("never room")
			return
		}
	}
	sym.Assert(second.Item != nil, "an item that waits is handed out")
	second.OK()
	to.waiting[ch]--
	to.held[ch] = append(to.held[ch], second.Item.State.ID)
	sym.Quiesce()
	a.agree()
	sym.Reach("running")
}

// CheckLimiterDown: when the limiter has a problem, nothing is handed out or lost, and willow goes on once the
// problem is solved.
//
// verif: devs=0 ticks=40 maporder=insertion
func CheckLimiterDown() {
	a := start()
	p := a.queues[0]
	a.create(p, -1)
	if sym.Choose("limit", 2) == 1 { // another item has to be acknowledged first
		a.addRule(dt.KeyValues{"_willow_running": dt.String("true")}, 1)
		a.enqueue(p, 1)
		c := a.s.Dequeue(p.name, hxw.Only(1))
		sym.Quiesce()
		c.OK()
		p.waiting[1]--
		p.held[1] = append(p.held[1], c.Item.State.ID)
	}
	a.enqueue(p, 0)
	a.after, a.then = 1+sym.Choose("problem before request", 5), func() { a.down = true }
	c := a.s.Dequeue(p.name, hxw.Only(0))
	sym.Quiesce()
	if a.down && a.asked > 0 {
		sym.Advance(time.Duration(sym.Choose("seconds", 2)*7) * time.Second)
		sym.Quiesce()
	}
	a.down, a.after = false, 0
	if len(p.held[1]) > 0 {
		sym.Assert(!c.Returned, "an item is processed exactly when every limit has room")
		sym.Assert(a.s.Ack(p.name, 1, p.held[1][0], true) == nil, "an item that is being processed is acknowledged")
		p.held[1] = nil
	}
	sym.Advance(time.Minute)
	sym.Quiesce()
	sym.Assert(c.Returned && c.Item != nil, "an item that waits is handed out once the limiter has no problem any more")
	c.OK()
	p.waiting[0]--
	p.held[0] = append(p.held[0], c.Item.State.ID)
	a.agree()
	sym.Reach("limiter down")
}
