//go:build verif

package hxw

import (
	"context"
	"fmt"
	limiterclient "github.com/DanLavine/willow/pkg/clients/limiter_client"
	"net/http"

	"github.com/DanLavine/willow/internal/verif_harness/hx"
	"github.com/DanLavine/willow/internal/verif_harness/hxl"
	sym "github.com/DanLavine/willow/internal/verif_sym"
	queuechannels "github.com/DanLavine/willow/internal/willow/brokers/queue_channels"
	"github.com/DanLavine/willow/internal/willow/brokers/queue_channels/constructor"
	"github.com/DanLavine/willow/internal/willow/brokers/queues"
	"github.com/DanLavine/willow/pkg/models/api/common/errors"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	dt "github.com/DanLavine/willow/pkg/models/datatypes"
)

// Overrides stands in for the limiter service of a number of queues.
type Overrides struct {
	Limiter
	Fails func() bool // the limiter cannot be reached
	All   []*v1limiter.Override
	n     int
}

var unreachable = fmt.Errorf("limiter unreachable")

func (l *Overrides) fails() bool { return l.Fails != nil && l.Fails() }

func (l *Overrides) CreateOverride(_ context.Context, rule string, o *v1limiter.Override) (*v1limiter.Override, error) {
	if l.fails() {
		return nil, unreachable
	}
	l.n++
	limit := *o.Spec.Properties.Limit
	c := &v1limiter.Override{
		Spec: &v1limiter.OverrideSpec{
			DBDefinition: &v1limiter.OverrideDBDefinition{GroupByKeyValues: o.Spec.DBDefinition.GroupByKeyValues},
			Properties:   &v1limiter.OverrideProperties{Limit: &limit},
		},
		State: &v1limiter.OverrideState{ID: fmt.Sprintf("%s-%d", rule, l.n)},
	}
	l.All = append(l.All, c)
	return c, nil
}

func (l *Overrides) QueryOverrides(_ context.Context, rule string, q *queryassociatedaction.AssociatedActionQuery) (v1limiter.Overrides, error) {
	if l.fails() {
		return nil, unreachable
	}
	var r v1limiter.Overrides
	for _, o := range l.All {
		if q.MatchTags(o.Spec.DBDefinition.GroupByKeyValues) {
			r = append(r, o)
		}
	}
	return r, nil
}

func (l *Overrides) UpdateOverride(_ context.Context, rule, id string, p *v1limiter.OverrideProperties) error {
	if l.fails() {
		return unreachable
	}
	for _, o := range l.All {
		if o.State.ID == id {
			*o.Spec.Properties.Limit = *p.Limit
			return nil
		}
	}
	return unreachable
}

func (l *Overrides) DeleteOverride(_ context.Context, rule, id string) error {
	if l.fails() {
		return unreachable
	}
	for i, o := range l.All {
		if o.State.ID == id {
			l.All = append(append([]*v1limiter.Override{}, l.All[:i]...), l.All[i+1:]...)
			return nil
		}
	}
	return nil
}

// LimitOf is the limit that the limiter has for the queue, and how many overrides the queue has.
func (l *Overrides) LimitOf(name string) (limit int64, n int) {
	for _, o := range l.All {
		kvs := o.Spec.DBDefinition.GroupByKeyValues
		if v, ok := kvs["_willow_queue_name"]; ok && len(kvs) == 2 && v.Data.(string) == name {
			if e, ok := kvs["_willow_enqueued"]; ok && e.Data.(string) == "true" {
				limit = *o.Spec.Properties.Limit
				n++
			}
		}
	}
	return
}

// Service is the running broker.
type Service struct {
	L        *Overrides
	Q        queues.QueuesClient
	Shutdown func()
	Stopped  bool
	n        byte
}

// NewService starts the broker with a limiter that stands in for the service.
func NewService() *Service {
	l := &Overrides{}
	s := NewServiceWith(l, "rule")
	s.L = l
	return s
}

// NewServiceWith starts the broker with a limiter, which has a rule for the queues.
func NewServiceWith(l limiterclient.LimiterClient, rule string) *Service {
	s := &Service{}
	cc, err := constructor.NewQueueChannelConstructor("memory", l)
	sym.Assume(err == nil)
	channels := queuechannels.NewLocalQueueChannelsClient(cc)
	qc, err := queues.NewQueueConstructor("memory", l)
	sym.Assume(err == nil)
	s.Q = queues.NewLocalQueueClient(qc, channels, rule)
	ctx, cancel := context.WithCancel(context.Background())
	s.Shutdown = cancel
	go func() {
		_ = channels.Execute(ctx)
		s.Stopped = true
	}()
	sym.Quiesce()
	return s
}

// Create makes a queue.
func (s *Service) Create(name string, limit int64) *errors.ServerError {
	return s.Q.CreateQueue(hxl.Ctx(), &v1willow.Queue{Spec: &v1willow.QueueSpec{
		DBDefinition: &v1willow.QueueDBDefinition{Name: &name},
		Properties:   &v1willow.QueueProperties{MaxItems: &limit},
	}})
}

// Key is the key values of a channel.
func Key(i int) hx.KV {
	kv := hx.KV{Mask: 1}
	kv.Val[0] = hx.IntKey(i)
	return kv
}

// Enqueue adds a new item to the channel.
func (s *Service) Enqueue(queue string, channel int, it *Item) *errors.ServerError {
	return s.Q.Enqueue(hxl.Ctx(), queue, Spec(Key(channel), it))
}

// Item is a new item.
func (s *Service) Item(retries uint64) *Item {
	s.n++
	return &Item{Data: s.n, Max: retries, Pos: Positions[0], T: Long}
}

// Anything is the query for every channel.
func Anything() *queryassociatedaction.AssociatedActionQuery {
	return &queryassociatedaction.AssociatedActionQuery{}
}

// Only is the query for one channel.
func Only(channel int) *queryassociatedaction.AssociatedActionQuery {
	return queryassociatedaction.KeyValuesToExactAssociatedActionQuery(Key(channel).Map())
}

// Consumer waits for an item.
type Consumer struct {
	Returned bool
	Settled  bool // told whether the item arrived
	Item     *v1willow.Item
	OK, Fail func()
	Err      *errors.ServerError
	Cancel   func()
}

// Dequeue starts to wait for an item.
func (s *Service) Dequeue(queue string, q *queryassociatedaction.AssociatedActionQuery) *Consumer {
	ctx, cancel := context.WithCancel(hxl.Ctx())
	c := &Consumer{Cancel: cancel}
	go func() {
		c.Item, c.OK, c.Fail, c.Err = s.Q.Dequeue(ctx, queue, q)
		c.Returned = true
	}()
	return c
}

// Ack acknowledges an item.
func (s *Service) Ack(queue string, channel int, id string, passed bool) *errors.ServerError {
	return s.Q.Ack(hxl.Ctx(), queue, &v1willow.ACK{ItemID: id, KeyValues: Key(channel).Map(), Passed: passed})
}

// Beat sends a heartbeat.
func (s *Service) Beat(queue string, channel int, id string) *errors.ServerError {
	return s.Q.Heartbeat(hxl.Ctx(), queue, &v1willow.Heartbeat{ItemID: id, KeyValues: Key(channel).Map()})
}

// Channels tells which channels the queue shows. It is false when one is shown twice or with other key values.
func (s *Service) Channels(queue string) (is map[int]bool, ok bool, err *errors.ServerError) {
	l, err := s.Q.QueryChannels(hxl.Ctx(), queue, Anything())
	is, ok = map[int]bool{}, true
	for _, c := range l {
		v, has := c.Spec.DBDefinition.KeyValues["a"]
		if !has || len(c.Spec.DBDefinition.KeyValues) != 1 || v.Type != dt.T_int {
			ok = false
			continue
		}
		i := v.Data.(int)
		ok = ok && !is[i]
		is[i] = true
	}
	return
}

// Code is the status of an error, and 0 without one.
func Code(err *errors.ServerError) int {
	if err == nil {
		return 0
	}
	return err.StatusCode
}

const (
	Unknown  = http.StatusNotFound
	Conflict = http.StatusConflict
)
