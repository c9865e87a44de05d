//go:build verif

package c33

import (
	"context"
	"encoding/json"
	"time"

	sym "github.com/DanLavine/willow/internal/verif_sym"

	"github.com/DanLavine/urlrouter"
	"github.com/DanLavine/willow/internal/verif_harness/hx"
	"github.com/DanLavine/willow/internal/willow/api/v1/handlers"
	"github.com/DanLavine/willow/internal/willow/api/v1/router"
	"github.com/DanLavine/willow/pkg/models/api/common/errors"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	wil "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	dt "github.com/DanLavine/willow/pkg/models/datatypes"
	"go.uber.org/zap"
)

type queues struct {
	*service
	got, lost *int
}

func (f queues) CreateQueue(ctx context.Context, q *wil.Queue) *errors.ServerError {
	return f.took("create queue", q)
}
func (f queues) GetQueue(ctx context.Context, name string) (*wil.Queue, *errors.ServerError) {
	if err := f.took("get queue", nil, name); err != nil {
		return nil, err
	}
	return f.reply.(*wil.Queue), nil
}
func (f queues) ListQueues(ctx context.Context) (wil.Queues, *errors.ServerError) {
	if err := f.took("list queues", nil); err != nil {
		return nil, err
	}
	return f.reply.(wil.Queues), nil
}
func (f queues) UpdateQueue(ctx context.Context, name string, p *wil.QueueProperties) *errors.ServerError {
	return f.took("update queue", p, name)
}
func (f queues) DeleteQueue(ctx context.Context, name string) *errors.ServerError {
	return f.took("delete queue", nil, name)
}
func (f queues) QueryChannels(ctx context.Context, name string, q *qa.AssociatedActionQuery) (wil.Channels, *errors.ServerError) {
	if err := f.took("query channels", q, name); err != nil {
		return nil, err
	}
	return f.reply.(wil.Channels), nil
}
func (f queues) DeleteChannel(ctx context.Context, name string, kvs dt.KeyValues) *errors.ServerError {
	return f.took("delete channel", kvs, name)
}
func (f queues) Enqueue(ctx context.Context, name string, i *wil.Item) *errors.ServerError {
	return f.took("enqueue", i, name)
}
func (f queues) Dequeue(ctx context.Context, name string, q *qa.AssociatedActionQuery) (*wil.Item, func(), func(), *errors.ServerError) {
	if err := f.took("dequeue", q, name); err != nil {
		return nil, nil, nil, err
	}
	return f.reply.(*wil.Item), func() { *f.got++ }, func() { *f.lost++ }, nil
}
func (f queues) Ack(ctx context.Context, name string, a *wil.ACK) *errors.ServerError {
	return f.took("ack", a, name)
}
func (f queues) Heartbeat(ctx context.Context, name string, h *wil.Heartbeat) *errors.ServerError {
	return f.took("heartbeat", h, name)
}

func willowMux(f queues) *urlrouter.Router {
	mux := urlrouter.New()
	router.AddV1WillowRoutes(zap.NewNop(), mux, handlers.NewV1QueueHandler(f, "rule"))
	return mux
}

func serveWillow(s *service, e endpoint) {
	ask(willowMux(queues{service: s}), s, e)
	once(s)
}

// CheckQueues: queues are created, shown, updated and deleted as asked.
func CheckQueues() {
	s := &service{}
	n := sym.Int64("items")
	name := ptr("q")
	var e endpoint
	switch sym.Choose("operation", 5) {
	case 0:
		e = endpoint{method: "POST", path: "/v1/queues", op: "create queue", body: queue(name, &n), ok: 201,
			same: func(x any) bool { return isQueue(x.(*wil.Queue), n) && x.(*wil.Queue).State == nil }}
		e.bad = []*wil.Queue{{}, queue(nil, &n), queue(ptr(""), &n), queue(name, nil), {Spec: &wil.QueueSpec{}}, {Spec: queue(name, &n).Spec, State: &wil.QueueState{}}}[sym.Choose("bad", 6)]
	case 1:
		q := queue(name, &n)
		q.State = &wil.QueueState{}
		e = endpoint{method: "GET", path: "/v1/queues/q", op: "get queue", args: []string{"q"}, ok: 200, reply: q, shows: func(b []byte) bool {
			got := &wil.Queue{}
			return json.Unmarshal(b, got) == nil && isQueue(got, n)
		}}
		if sym.Bool("none") {
			e.reply, e.ok, e.shows = (*wil.Queue)(nil), 404, nil
		}
	case 2:
		found := wil.Queues{}
		for i, k := 0, sym.Choose("found", 3); i < k; i++ {
			q := queue(name, &n)
			q.State = &wil.QueueState{}
			found = append(found, q)
		}
		e = endpoint{method: "GET", path: "/v1/queues", op: "list queues", ok: 200, reply: found, shows: func(b []byte) bool {
			got := wil.Queues{}
			if json.Unmarshal(b, &got) != nil || len(got) != len(found) {
				return false
			}
			ok := true
			for _, q := range got {
				ok = sym.And(ok, isQueue(q, n))
			}
			return ok
		}}
	case 3:
		e = endpoint{method: "PUT", path: "/v1/queues/q", op: "update queue", args: []string{"q"}, body: &wil.QueueProperties{MaxItems: &n}, bad: &wil.QueueProperties{}, ok: 200,
			same: func(x any) bool { p := x.(*wil.QueueProperties); return p.MaxItems != nil && *p.MaxItems == n }}
	default:
		e = endpoint{method: "DELETE", path: "/v1/queues/q", op: "delete queue", args: []string{"q"}, ok: 204}
	}
	serveWillow(s, e)
}

// CheckChannels: channels are shown and deleted as asked.
func CheckChannels() {
	s := &service{}
	kv := key()
	var e endpoint
	if sym.Bool("delete") {
		e = endpoint{method: "DELETE", path: "/v1/queues/q/channels", op: "delete channel", args: []string{"q"}, body: kv.Map(), ok: 204,
			same: func(x any) bool { return kv.IsKV(x.(dt.KeyValues)) }}
		none := hx.KV{Mask: 1}
		none.Val[0] = hx.Of("any", hx.KAny, 0)
		e.bad = []dt.KeyValues{{}, none.Map()}[sym.Choose("bad", 2)]
	} else {
		found := wil.Channels{}
		for i, k := 0, sym.Choose("found", 3); i < k; i++ {
			c := &wil.Channel{Spec: &wil.ChannelSpec{DBDefinition: &wil.ChannelDBDefinition{KeyValues: typed(kv)}}, State: &wil.ChannelState{EnqueuedItems: int64(sym.IntRange("enqueued", 0, 9)), ProcessingItems: int64(sym.IntRange("processing", 0, 9))}}
			sym.Assume(c.State.EnqueuedItems+c.State.ProcessingItems > 0)
			found = append(found, c)
		}
		e = endpoint{method: "GET", path: "/v1/queues/q/channels", op: "query channels", args: []string{"q"}, body: selectKey(kv), bad: badQuery(), same: isSelect(kv), ok: 200, reply: found}
		e.shows = func(b []byte) bool {
			got := wil.Channels{}
			if json.Unmarshal(b, &got) != nil || len(got) != len(found) {
				return false
			}
			ok := true
			for i, c := range got {
				ok = sym.And(ok, c.Spec != nil && c.Spec.DBDefinition != nil && c.State != nil &&
					sym.And(kv.IsKV(dt.KeyValues(c.Spec.DBDefinition.KeyValues)), sym.And(c.State.EnqueuedItems == found[i].State.EnqueuedItems, c.State.ProcessingItems == found[i].State.ProcessingItems)))
			}
			return ok
		}
	}
	serveWillow(s, e)
}

// CheckItems: items are enqueued, acknowledged and kept alive as asked.
func CheckItems() {
	s := &service{}
	kv := key()
	t := time.Duration(sym.IntRange("timeout", 1, 1000))
	data := sym.Uint8("data")
	pass := sym.Bool("pass")
	var e endpoint
	switch sym.Choose("operation", 3) {
	case 0:
		e = endpoint{method: "POST", path: "/v1/queues/q/channels/items", op: "enqueue", args: []string{"q"}, body: item(kv, data, &t), ok: 201,
			same: func(x any) bool {
				i := x.(*wil.Item)
				return isItem(i, kv, data) && i.State == nil && sym.And(*i.Spec.Properties.TimeoutDuration == t, *i.Spec.Properties.RetryAttempts == 1)
			}}
		empty := item(kv, data, &t)
		empty.Spec.Properties.Data = nil
		where := item(kv, data, &t)
		where.Spec.Properties.RetryPosition = ptr("middle")
		e.bad = []*wil.Item{{}, item(none, data, &t), item(kv, data, nil), empty, where, {Spec: &wil.ItemSpec{}}, {Spec: item(kv, data, &t).Spec, State: &wil.ItemState{ID: "mine"}}, item(kv, data, ptr(-t)), item(kv, data, ptr(time.Duration(0)))}[sym.Choose("bad", 9)]
	case 1:
		ack := &wil.ACK{ItemID: "item", KeyValues: typed(kv), Passed: pass}
		e = endpoint{method: "POST", path: "/v1/queues/q/channels/items/ack", op: "ack", args: []string{"q"}, body: ack, ok: 200,
			same: func(x any) bool {
				a := x.(*wil.ACK)
				return a.ItemID == "item" && sym.And(a.Passed == pass, kv.IsKV(dt.KeyValues(a.KeyValues)))
			}}
		e.bad = []*wil.ACK{{KeyValues: typed(kv)}, {ItemID: "item"}}[sym.Choose("bad", 2)]
	default:
		beat := &wil.Heartbeat{ItemID: "item", KeyValues: typed(kv)}
		e = endpoint{method: "POST", path: "/v1/queues/q/channels/items/heartbeat", op: "heartbeat", args: []string{"q"}, body: beat, ok: 200,
			same: func(x any) bool {
				a := x.(*wil.Heartbeat)
				return a.ItemID == "item" && kv.IsKV(dt.KeyValues(a.KeyValues))
			}}
		e.bad = []*wil.Heartbeat{{KeyValues: typed(kv)}, {ItemID: "item"}}[sym.Choose("bad", 2)]
	}
	serveWillow(s, e)
}

// CheckDequeue: the broker learns, exactly once, whether the item reached the consumer.
func CheckDequeue() {
	s := &service{}
	kv := key()
	data := sym.Uint8("data")
	t := time.Minute
	i := item(kv, data, &t)
	i.State = &wil.ItemState{ID: "item"}
	got, lost := 0, 0
	e := endpoint{method: "GET", path: "/v1/queues/q/channels/items", op: "dequeue", args: []string{"q"}, body: selectKey(kv), bad: badQuery(), same: isSelect(kv), ok: 200, reply: i}
	e.shows = func(b []byte) bool {
		x := &wil.Item{}
		return json.Unmarshal(b, x) == nil && isItem(x, kv, data) && x.State != nil && x.State.ID == "item"
	}
	w := ask(willowMux(queues{s, &got, &lost}), s, e)
	once(s)
	if len(s.calls) == 0 || s.err != nil {
		sym.Assert(got == 0 && lost == 0, "without an item there is nothing to report")
		return
	}
	if w.Fail {
		sym.Assert(got == 0 && lost == 1, "an item that could not be sent is given back once")
	} else {
		sym.Assert(got == 1 && lost == 0, "an item that was sent is reported as received once")
	}
}
