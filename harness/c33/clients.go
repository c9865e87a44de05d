//go:build verif

package c33

import (
	"context"
	"net/http"
	"time"

	sym "github.com/DanLavine/willow/internal/verif_sym"

	"github.com/DanLavine/willow/internal/verif_harness/hxh"
	"github.com/DanLavine/willow/pkg/clients"
	limiterclient "github.com/DanLavine/willow/pkg/clients/limiter_client"
	willowclient "github.com/DanLavine/willow/pkg/clients/willow_client"
	"github.com/DanLavine/willow/pkg/models/api/common/errors"
	lim "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	wil "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	dt "github.com/DanLavine/willow/pkg/models/datatypes"
)

// use is one call of a client library.
type use struct {
	op    string
	args  []string
	same  func(any) bool // whether the service received what the caller passed
	reply any            // what the service returns
	do    func() error   // the call
	shows func() bool    // whether the caller received what the service returned
	wrong func() error   // the call with a request that is not valid
}

// through makes one call of a client library against the API it is meant for.
func through(s *service, calls *int, u use) {
	s.reply = u.reply
	if u.wrong != nil && sym.Bool("not a valid request") {
		sym.Assert(u.wrong() != nil, "a request that is not valid is an error")
		sym.Assert(len(s.calls) == 0, "a request that is not valid changes nothing")
		return
	}
	if sym.Bool("the service refuses") {
		s.err = &errors.ServerError{StatusCode: codes[sym.Choose("code", len(codes))], Message: "refused"}
	}
	err := u.do()
	sym.Assert(*calls == 1 && len(s.calls) == 1, "one call is one request")
	c := s.calls[0]
	ok := c.op == u.op && len(c.args) == len(u.args)
	for i := range u.args {
		ok = ok && c.args[i] == u.args[i]
	}
	sym.Assert(ok, "a call reaches the operation and the object it names")
	if u.same != nil {
		sym.Assert(u.same(c.body), "the service receives what the caller passed")
	}
	sym.Assert((err != nil) == (s.err != nil), "the caller learns whether the service agreed")
	if err == nil && u.shows != nil {
		sym.Assert(u.shows(), "the caller receives what the service returned")
	}
}

// counted counts the requests that reach a service
func counted(h http.Handler) (http.Handler, *int) {
	n := new(int)
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { *n++; h.ServeHTTP(w, r) }), n
}

// names are the names that callers give to objects, some with characters that mean something in a URL
func name() string {
	return []string{"n", "a b", "a?b", "a#b", "a%20b", "query"}[sym.Choose("name", 6)]
}

// ClientLimiter: each call of the limiter client.
func ClientLimiter() {
	s := &service{}
	h, calls := counted(limiterMux(s, context.Background(), nil))
	c, err := limiterclient.NewLimiterClient(&clients.Config{URL: hxh.Listen(h)})
	sym.Assume(err == nil)
	ctx := context.Background()
	n := limit()
	kv := key()
	id := "n"
	oneOver := func() *lim.Override {
		o := over(kv, &n)
		o.State = &lim.OverrideState{ID: "o"}
		return o
	}
	oneRule := func() *lim.Rule {
		r := rule(kv, &n)
		r.State = &lim.RuleState{ID: "r", Overrides: lim.Overrides{oneOver()}}
		return r
	}
	isO := func(o *lim.Override) bool { return isOver(o, kv, n) && o.State != nil && o.State.ID == "o" }
	isR := func(r *lim.Rule) bool {
		return isRule(r, kv, n) && r.State != nil && r.State.ID == "r" && len(r.State.Overrides) == 1 && isO(r.State.Overrides[0])
	}
	rules, overs := lim.Rules{}, lim.Overrides{}
	found := sym.Choose("found", 3)
	for i := 0; i < found; i++ {
		rules, overs = append(rules, oneRule()), append(overs, oneOver())
	}
	var r *lim.Rule
	var o *lim.Override
	var rs lim.Rules
	var os lim.Overrides
	var cs lim.Counters
	allR := func() bool {
		ok := len(rs) == found
		for _, r := range rs {
			ok = sym.And(ok, isR(r))
		}
		return ok
	}
	allO := func() bool {
		ok := len(os) == found
		for _, o := range os {
			ok = sym.And(ok, isO(o))
		}
		return ok
	}
	var u use
	switch sym.Choose("call", 15) {
	case 0:
		u = use{op: "create rule", do: func() (e error) { r, e = c.CreateRule(ctx, rule(kv, &n)); return },
			same:  func(x any) bool { return isRule(x.(*lim.Rule), kv, n) },
			shows: func() bool { return isRule(r, kv, n) && r.State != nil && r.State.ID == "new" },
			wrong: func() error { _, e := c.CreateRule(ctx, badRule(kv, n)); return e }}
	case 1:
		u = use{op: "update rule", args: []string{id}, do: func() error { return c.UpdateRule(ctx, id, &lim.RuleProperties{Limit: &n}) },
			same:  func(x any) bool { p := x.(*lim.RuleProperties); return p.Limit != nil && *p.Limit == n },
			wrong: func() error { return c.UpdateRule(ctx, id, &lim.RuleProperties{}) }}
	case 2:
		u = use{op: "delete rule", args: []string{id}, do: func() error { return c.DeleteRule(ctx, id) }}
	case 3:
		u = use{op: "get rule", args: []string{id}, reply: oneRule(), do: func() (e error) { r, e = c.GetRule(ctx, id); return },
			shows: func() bool { return isR(r) }}
	case 4:
		u = use{op: "query rules", same: isSelect(kv), reply: rules, do: func() (e error) { rs, e = c.QueryRules(ctx, selectKey(kv)); return }, shows: allR,
			wrong: func() error { _, e := c.QueryRules(ctx, badQuery()); return e }}
	case 5:
		u = use{op: "match rules", same: isMatch(kv), reply: rules, do: func() (e error) { rs, e = c.MatchRules(ctx, matchKey(kv)); return }, shows: allR}
	case 6:
		u = use{op: "create override", args: []string{id}, do: func() (e error) { o, e = c.CreateOverride(ctx, id, over(kv, &n)); return },
			same:  func(x any) bool { return isOver(x.(*lim.Override), kv, n) },
			shows: func() bool { return isOver(o, kv, n) && o.State != nil && o.State.ID == "new" },
			wrong: func() error { _, e := c.CreateOverride(ctx, id, badOver(kv, n)); return e }}
	case 7:
		u = use{op: "update override", args: []string{id, "o"}, do: func() error { return c.UpdateOverride(ctx, id, "o", &lim.OverrideProperties{Limit: &n}) },
			same:  func(x any) bool { p := x.(*lim.OverrideProperties); return p.Limit != nil && *p.Limit == n },
			wrong: func() error { return c.UpdateOverride(ctx, id, "o", &lim.OverrideProperties{}) }}
	case 8:
		u = use{op: "delete override", args: []string{id, "o"}, do: func() error { return c.DeleteOverride(ctx, id, "o") }}
	case 9:
		u = use{op: "get override", args: []string{id, "o"}, reply: oneOver(), do: func() (e error) { o, e = c.GetOverride(ctx, id, "o"); return },
			shows: func() bool { return isO(o) }}
	case 10:
		u = use{op: "query overrides", args: []string{id}, same: isSelect(kv), reply: overs, do: func() (e error) { os, e = c.QueryOverrides(ctx, id, selectKey(kv)); return }, shows: allO}
	case 11:
		u = use{op: "match overrides", args: []string{id}, same: isMatch(kv), reply: overs, do: func() (e error) { os, e = c.MatchOverrides(ctx, id, matchKey(kv)); return }, shows: allO}
	case 12:
		m := sym.Int64("counters")
		u = use{op: "decrement", do: func() error { return c.UpdateCounter(ctx, count(kv, &m)) }, same: func(x any) bool { return isCount(x.(*lim.Counter), kv, m) },
			wrong: func() error { return c.UpdateCounter(ctx, count(none, &m)) }}
		if m > 0 {
			u.op = "increment"
		}
	case 13:
		m := sym.Int64("counters")
		u = use{op: "set counters", do: func() error { return c.SetCounters(ctx, count(kv, &m)) }, same: func(x any) bool { return isCount(x.(*lim.Counter), kv, m) },
			wrong: func() error { return c.SetCounters(ctx, count(none, &m)) }}
	default:
		m := sym.Int64("counters")
		reply := lim.Counters{}
		for i := 0; i < found; i++ {
			x := count(kv, &m)
			x.State = &lim.CounterState{}
			reply = append(reply, x)
		}
		u = use{op: "query counters", same: isSelect(kv), reply: reply, do: func() (e error) { cs, e = c.QueryCounters(ctx, selectKey(kv)); return }, shows: func() bool {
			ok := len(cs) == found
			for _, x := range cs {
				ok = sym.And(ok, isCount(x, kv, m))
			}
			return ok
		}}
	}
	through(s, calls, u)
}

// ClientWillow: each call of the willow client.
func ClientWillow() {
	s := &service{}
	got, lost := 0, 0
	h, calls := counted(willowMux(queues{s, &got, &lost}))
	c, err := willowclient.NewWillowClient(&clients.Config{URL: hxh.Listen(h)})
	sym.Assume(err == nil)
	ctx := context.Background()
	n := sym.Int64("items")
	kv := key()
	data := sym.Uint8("data")
	t := time.Minute
	id := name()
	oneQueue := func() *wil.Queue {
		q := queue(ptr("q"), &n)
		q.State = &wil.QueueState{}
		return q
	}
	var q *wil.Queue
	var qs wil.Queues
	var it *willowclient.Item
	var u use
	switch sym.Choose("call", 8) {
	case 0:
		u = use{op: "create queue", do: func() error { return c.CreateQueue(ctx, queue(ptr("q"), &n)) },
			same:  func(x any) bool { return isQueue(x.(*wil.Queue), n) },
			wrong: func() error { return c.CreateQueue(ctx, queue(ptr(""), &n)) }}
	case 1:
		u = use{op: "get queue", args: []string{id}, reply: oneQueue(), do: func() (e error) { q, e = c.GetQueue(ctx, id, selectKey(kv)); return }, shows: func() bool { return isQueue(q, n) }}
	case 2:
		found := wil.Queues{}
		for i, k := 0, sym.Choose("found", 3); i < k; i++ {
			found = append(found, oneQueue())
		}
		u = use{op: "list queues", reply: found, do: func() (e error) { qs, e = c.ListQueues(ctx); return }, shows: func() bool {
			ok := len(qs) == len(found)
			for _, q := range qs {
				ok = sym.And(ok, isQueue(q, n))
			}
			return ok
		}}
	case 3:
		u = use{op: "update queue", args: []string{id}, do: func() error { return c.UpdateQueue(ctx, id, &wil.QueueProperties{MaxItems: &n}) },
			same:  func(x any) bool { p := x.(*wil.QueueProperties); return p.MaxItems != nil && *p.MaxItems == n },
			wrong: func() error { return c.UpdateQueue(ctx, id, &wil.QueueProperties{}) }}
	case 4:
		u = use{op: "delete queue", args: []string{id}, do: func() error { return c.DeleteQueue(ctx, id) }}
	case 5:
		u = use{op: "enqueue", args: []string{id}, do: func() error { return c.EnqueueQueueItem(ctx, id, item(kv, data, &t)) },
			same: func(x any) bool {
				i := x.(*wil.Item)
				return isItem(i, kv, data) && *i.Spec.Properties.TimeoutDuration == t && *i.Spec.Properties.RetryAttempts == 1
			},
			wrong: func() error { return c.EnqueueQueueItem(ctx, id, item(none, data, &t)) }}
	case 6:
		i := item(kv, data, &t)
		i.State = &wil.ItemState{ID: "item"}
		u = use{op: "dequeue", args: []string{id}, same: isSelect(kv), reply: i, do: func() (e error) { it, e = c.DequeueQueueItem(ctx, id, selectKey(kv)); return }, shows: func() bool {
			return it != nil && len(it.Data()) == 1 && it.Data()[0] == data
		}}
	default:
		u = use{op: "delete channel", args: []string{id}, same: func(x any) bool { return kv.IsKV(x.(dt.KeyValues)) }, do: func() error { return c.DeleteQueueChannel(ctx, id, kv.Map()) },
			wrong: func() error { return c.DeleteQueueChannel(ctx, id, none.Map()) }}
	}
	through(s, calls, u)
}

// ClientAck: an item is acknowledged, and kept alive, as the item it is.
func ClientAck() {
	s := &service{}
	got, lost := 0, 0
	h, calls := counted(willowMux(queues{s, &got, &lost}))
	c, err := willowclient.NewWillowClient(&clients.Config{URL: hxh.Listen(h)})
	sym.Assume(err == nil)
	ctx := context.Background()
	kv := key()
	t := time.Minute
	id := name()
	i := item(kv, 1, &t)
	i.State = &wil.ItemState{ID: "item"}
	s.reply = i
	it, err := c.DequeueQueueItem(ctx, id, selectKey(kv))
	sym.Assert(err == nil && it != nil, "an item is handed out")
	s.calls, *calls = nil, 0
	pass := sym.Bool("pass")
	through(s, calls, use{op: "ack", args: []string{id}, do: func() error { return it.ACK(ctx, pass) }, same: func(x any) bool {
		a := x.(*wil.ACK)
		return a.ItemID == "item" && sym.And(a.Passed == pass, kv.IsKV(dt.KeyValues(a.KeyValues)))
	}})
}
