//go:build verif

package hxw

import (
	"context"
	"fmt"

	sym "github.com/DanLavine/willow/internal/verif_sym"
	limiterclient "github.com/DanLavine/willow/pkg/clients/limiter_client"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	querymatchaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_match_action"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	dt "github.com/DanLavine/willow/pkg/models/datatypes"
)

// Queue is the name of the queue that channels belong to.
const Queue = "q"

var refused = fmt.Errorf("limit reached")

// Limiter stands in for the limiter service. It adds up what it is told and refuses a reservation when decided so.
type Limiter struct {
	limiterclient.LimiterClient // any other call is a nil dereference

	Enqueued, Running int64
	Refused           int
	RefuseEnqueue     func() bool
	RefuseRunning     func() bool
	Sets              int
	Strict            bool

	// the rule and override that running items may be at the limit of, and what is counted for them
	Rule, Override *int64
	Counted        []int64
	Asked          int
}

func NewLimiter() *Limiter { return &Limiter{} }

// which is the counter's kind: 0 enqueued, 1 running.
func (l *Limiter) which(kvs dt.KeyValues) int {
	q, ok := kvs["_willow_queue_name"]
	_, enq := kvs["_willow_enqueued"]
	if l.Strict {
		sym.Assert(ok && q.Type == dt.T_string && q.Data.(string) == Queue, "counters carry the name of the queue")
		_, run := kvs["_willow_running"]
		sym.Assert(enq != run, "a counter is for enqueued or for running items")
		name := "a"
		if enq {
			name = "_willow_a"
		}
		v, ok := kvs[name]
		sym.Assert(ok && v.Type == dt.T_int && len(kvs) == 3, "items are counted for their channel")
	}
	if enq {
		return 0
	}
	return 1
}

func (l *Limiter) UpdateCounter(_ context.Context, c *v1limiter.Counter) error {
	n := *c.Spec.Properties.Counters
	if l.which(c.Spec.DBDefinition.KeyValues) == 0 {
		if n > 0 && l.RefuseEnqueue != nil && l.RefuseEnqueue() {
			l.Refused++
			return refused
		}
		l.Enqueued += n
		return nil
	}
	if n > 0 && l.RefuseRunning != nil && l.RefuseRunning() {
		l.Refused++
		return refused
	}
	l.Running += n
	return nil
}

func (l *Limiter) SetCounters(_ context.Context, c *v1limiter.Counter) error {
	l.Sets++
	if l.which(c.Spec.DBDefinition.KeyValues) == 0 {
		l.Enqueued = *c.Spec.Properties.Counters
	} else {
		l.Running = *c.Spec.Properties.Counters
	}
	return nil
}

func (l *Limiter) MatchRules(context.Context, *querymatchaction.MatchActionQuery) (v1limiter.Rules, error) {
	l.Asked++
	if l.Rule == nil {
		return nil, nil
	}
	return v1limiter.Rules{{
		Spec: &v1limiter.RuleSpec{
			DBDefinition: &v1limiter.RuleDBDefinition{GroupByKeyValues: dt.KeyValues{"a": dt.Int(1)}},
			Properties:   &v1limiter.RuleProperties{Limit: l.Rule},
		},
		State: &v1limiter.RuleState{ID: "rule"},
	}}, nil
}

func (l *Limiter) MatchOverrides(_ context.Context, rule string, _ *querymatchaction.MatchActionQuery) (v1limiter.Overrides, error) {
	if l.Override == nil || rule != "rule" {
		return nil, nil
	}
	return v1limiter.Overrides{{
		Spec: &v1limiter.OverrideSpec{
			DBDefinition: &v1limiter.OverrideDBDefinition{GroupByKeyValues: dt.KeyValues{"a": dt.Int(1)}},
			Properties:   &v1limiter.OverrideProperties{Limit: l.Override},
		},
		State: &v1limiter.OverrideState{ID: "override"},
	}}, nil
}

func (l *Limiter) QueryCounters(context.Context, *queryassociatedaction.AssociatedActionQuery) (v1limiter.Counters, error) {
	var r v1limiter.Counters
	for _, n := range l.Counted {
		c := n
		r = append(r, &v1limiter.Counter{Spec: &v1limiter.CounterSpec{Properties: &v1limiter.CounteProperties{Counters: &c}}})
	}
	return r, nil
}
