// Package hxl holds what the limiter harnesses share: the limiter's clients with their reference.
package hxl

import (
	"context"
	"fmt"

	"go.uber.org/zap"

	"github.com/DanLavine/willow/internal/limiter/counters"
	"github.com/DanLavine/willow/internal/limiter/overrides"
	"github.com/DanLavine/willow/internal/limiter/rules"
	"github.com/DanLavine/willow/internal/middleware"
	"github.com/DanLavine/willow/internal/verif_harness/hx"
	sym "github.com/DanLavine/willow/internal/verif_sym"
	lc "github.com/DanLavine/willow/pkg/clients/locker_client"
	"github.com/DanLavine/willow/pkg/models/api/common/errors"
	v1 "github.com/DanLavine/willow/pkg/models/api/common/v1"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	lim "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	loc "github.com/DanLavine/willow/pkg/models/api/locker/v1"
	dt "github.com/DanLavine/willow/pkg/models/datatypes"
)

// Ctx is a request context with the logger every call expects.
func Ctx() context.Context {
	return context.WithValue(context.Background(), middleware.LoggerCtxKey, zap.NewNop())
}

// Group is a rule or an override of the reference.
type Group struct {
	KV    hx.KV
	Limit int
	ID    string
	On    bool
	Over  []*Group
}

// Count is an entry of the reference counters; it is there when On.
type Count struct {
	KV hx.KV
	N  int
	On bool
}

// Limiter is the limiter's clients and their reference.
type Limiter struct {
	Rules    rules.RuleClient
	Counters counters.CounterClient
	Ctx      context.Context

	R []*Group
	C []*Count
}

// New builds the clients as the service does.
func New() *Limiter {
	oc, e1 := overrides.NewOverrideConstructor("memory")
	rc, e2 := rules.NewRuleConstructor("memory")
	cc, e3 := counters.NewCountersConstructor("memory")
	if e1 != nil || e2 != nil || e3 != nil {
		panic("limiter setup")
	}
	l := &Limiter{Ctx: Ctx()}
	l.Rules = rules.NewLocalRulesClient(rc, overrides.NewDefaultOverridesClientLocal(oc))
	l.Counters = counters.NewCountersClientLocal(cc, l.Rules)
	return l
}

func i64(n int) *int64 { x := int64(n); return &x }

// Limit is the limit as the repository's type.
func Limit(n int) *lim.RuleProperties { return &lim.RuleProperties{Limit: i64(n)} }

// OverLimit is the override's limit as the repository's type.
func OverLimit(n int) *lim.OverrideProperties { return &lim.OverrideProperties{Limit: i64(n)} }

// RuleModel is a rule as the repository's type.
func RuleModel(kv hx.KV, limit int) *lim.Rule {
	return &lim.Rule{Spec: &lim.RuleSpec{DBDefinition: &lim.RuleDBDefinition{GroupByKeyValues: dt.AnyKeyValues(kv.Map())}, Properties: Limit(limit)}}
}

// OverrideModel is an override as the repository's type.
func OverrideModel(kv hx.KV, limit int) *lim.Override {
	return &lim.Override{Spec: &lim.OverrideSpec{DBDefinition: &lim.OverrideDBDefinition{GroupByKeyValues: dt.AnyKeyValues(kv.Map())}, Properties: OverLimit(limit)}}
}

// CounterModel is a counter as the repository's type.
func CounterModel(kv hx.KV, n int) *lim.Counter {
	return &lim.Counter{Spec: &lim.CounterSpec{DBDefinition: &lim.CounterDBDefinition{KeyValues: dt.TypedKeyValues(kv.Map())}, Properties: &lim.CounteProperties{Counters: i64(n)}}}
}

// AddRule creates a rule that is not there yet.
func (l *Limiter) AddRule(kv hx.KV, limit int) *Group {
	id, err := l.Rules.CreateRule(l.Ctx, RuleModel(kv, limit))
	sym.Assert(err == nil && id != "", "a new rule is accepted")
	g := &Group{KV: kv, Limit: limit, ID: id, On: true}
	l.R = append(l.R, g)
	return g
}

// AddOverride creates an override that is not there yet.
func (l *Limiter) AddOverride(r *Group, kv hx.KV, limit int) *Group {
	id, err := l.Rules.CreateOverride(l.Ctx, r.ID, OverrideModel(kv, limit))
	sym.Assert(err == nil && id != "", "a new override is accepted")
	g := &Group{KV: kv, Limit: limit, ID: id, On: true}
	r.Over = append(r.Over, g)
	return g
}

func full(int) v1.TypeRestrictions { return hx.FullRange }

// Applies is the reference meaning of a rule or override matching a counter.
func (g *Group) Applies(kv hx.KV) bool {
	return sym.And(g.On, hx.Contained(g.KV, kv, full, nil, nil))
}

// shares tells whether two counters have the same values for the keys.
func shares(a, b hx.KV, mask int) bool {
	ok := true
	for i := range hx.KeyNames {
		if mask>>i&1 == 1 {
			if !a.Has(i) || !b.Has(i) {
				return false
			}
			ok = sym.And(ok, hx.Same(a.Val[i], b.Val[i]))
		}
	}
	return ok
}

// Total adds up the counters sharing kv's values for the keys.
func (l *Limiter) Total(kv hx.KV, mask int) int {
	n := 0
	for _, c := range l.C {
		n += sym.IteInt(sym.And(c.On, shares(c.KV, kv, mask)), c.N, 0)
	}
	return n
}

// below tells whether the group has room for one more.
func (l *Limiter) below(g *Group, kv hx.KV) bool {
	return sym.Or(g.Limit == -1, l.Total(kv, g.KV.Mask) < g.Limit)
}

// Room tells whether no limit refuses one more for kv.
func (l *Limiter) Room(kv hx.KV) bool {
	ok := true
	for _, r := range l.R {
		over, overOK := false, true
		for _, o := range r.Over {
			a := o.Applies(kv)
			over = sym.Or(over, a)
			overOK = sym.And(overOK, sym.Or(!a, l.below(o, kv)))
		}
		ruleOK := sym.Or(sym.And(over, overOK), sym.And(!over, l.below(r, kv)))
		ok = sym.And(ok, sym.Or(!r.Applies(kv), ruleOK))
	}
	return ok
}

// Value is the reference counter of kv, 0 when absent.
func (l *Limiter) Value(kv hx.KV) int {
	n := 0
	for _, c := range l.C {
		n = sym.IteInt(sym.And(c.On, hx.SameKV(c.KV, kv)), c.N, n)
	}
	return n
}

// put makes kv's counter n; n <= 0 removes it.
func (l *Limiter) put(kv hx.KV, n int, when bool) {
	for _, c := range l.C {
		c.On = sym.And(c.On, !sym.And(when, hx.SameKV(c.KV, kv)))
	}
	l.C = append(l.C, &Count{KV: kv, N: n, On: sym.And(when, n > 0)})
}

// Inc adds n to kv's counter and tells whether it was accepted.
func (l *Limiter) Inc(s lc.LockerClient, kv hx.KV, n int) *errors.ServerError {
	return l.Counters.IncrementCounters(l.Ctx, s, CounterModel(kv, n))
}

// IncOK adds n to kv's counter and records it in the reference when it is accepted.
func (l *Limiter) IncOK(s lc.LockerClient, kv hx.KV, n int) bool {
	err := l.Inc(s, kv, n)
	if err == nil {
		l.put(kv, l.Value(kv)+n, true)
	}
	return err == nil
}

// Dec takes n from kv's counter.
func (l *Limiter) Dec(kv hx.KV, n int) {
	err := l.Counters.DecrementCounters(l.Ctx, CounterModel(kv, -n))
	sym.Assert(err == nil, "a decrement does not fail")
	v := l.Value(kv)
	l.put(kv, v-n, v > 0)
}

// Set makes kv's counter n.
func (l *Limiter) Set(kv hx.KV, n int) {
	err := l.Counters.SetCounter(l.Ctx, CounterModel(kv, n))
	sym.Assert(err == nil, "a set does not fail")
	l.put(kv, n, true)
}

// Stored lists the stored counters.
func (l *Limiter) Stored() lim.Counters {
	got, err := l.Counters.QueryCounters(l.Ctx, &qa.AssociatedActionQuery{})
	sym.Assert(err == nil, "listing counters does not fail")
	return got
}

// Exact tells whether the stored counters are the reference counters.
func (l *Limiter) Exact() bool {
	got := l.Stored()
	live := 0
	ok := true
	for _, c := range l.C {
		live += sym.IteInt(c.On, 1, 0)
	}
	for _, s := range got {
		in := false
		for _, c := range l.C {
			in = sym.Or(in, sym.And(sym.And(c.On, c.KV.IsKV(dt.KeyValues(s.Spec.DBDefinition.KeyValues))), int(*s.Spec.Properties.Counters) == c.N))
		}
		ok = sym.And(ok, in)
	}
	// the reference never holds a key-value set twice, the store never lists one twice (C10)
	return sym.And(ok, len(got) == live)
}

// Granting is a lock service without other users.
type Granting struct{ N int }

func (s *Granting) Healthy() error { return nil }

func (s *Granting) ObtainLock(context.Context, *loc.Lock, func(dt.KeyValues, error)) (lc.Lock, error) {
	s.N++
	return &held{done: make(chan struct{})}, nil
}

// Service is a lock service that grants a lock on each key-value to one holder at a time.
type Service struct {
	slots []*slot
}

type slot struct {
	name string
	val  dt.EncapsulatedValue
	free chan struct{}
}

// NewService builds a lock service for the key-values of the given sets (with concrete values).
func NewService(kvs ...hx.KV) *Service {
	s := &Service{}
	for _, kv := range kvs {
		for k, v := range kv.Map() {
			if s.find(k, v) == nil {
				s.slots = append(s.slots, &slot{name: k, val: v, free: make(chan struct{}, 1)})
			}
		}
	}
	return s
}

func (s *Service) find(k string, v dt.EncapsulatedValue) *slot {
	for _, x := range s.slots {
		if x.name == k && x.val.Type == v.Type && x.val.Data == v.Data {
			return x
		}
	}
	return nil
}

func (s *Service) Healthy() error { return nil }

func (s *Service) ObtainLock(ctx context.Context, l *loc.Lock, _ func(dt.KeyValues, error)) (lc.Lock, error) {
	var sl *slot
	for k, v := range l.Spec.DBDefinition.KeyValues {
		sl = s.find(k, v)
	}
	select {
	case sl.free <- struct{}{}:
		return &held{done: make(chan struct{}), slot: sl}, nil
	case <-ctx.Done():
		return nil, nil // as documented for a cancelled context
	}
}

// Free tells whether no lock is held.
func (s *Service) Free() bool {
	for _, x := range s.slots {
		if len(x.free) != 0 {
			return false
		}
	}
	return true
}

type held struct {
	done chan struct{}
	slot *slot
}

func (h *held) Done() <-chan struct{} { return h.done }

func (h *held) Release(context.Context) error {
	close(h.done)
	if h.slot != nil {
		<-h.slot.free
	}
	return nil
}

// isOver tells whether the answer is the override as the reference has it.
func isOver(a *lim.Override, o *Group) bool {
	if a.State.ID != o.ID || a.State.Deleting {
		return false
	}
	return sym.And(o.On, sym.And(o.KV.IsKV(dt.KeyValues(a.Spec.DBDefinition.GroupByKeyValues)), int(*a.Spec.Properties.Limit) == o.Limit))
}

// isRule tells whether the answer is the rule as the reference has it.
func isRule(a *lim.Rule, r *Group) bool {
	if a.State.ID != r.ID {
		return false
	}
	return sym.And(r.On, sym.And(r.KV.IsKV(dt.KeyValues(a.Spec.DBDefinition.GroupByKeyValues)), int(*a.Spec.Properties.Limit) == r.Limit))
}

// SameOvers tells whether the answers are exactly the overrides selected by want.
func SameOvers(got lim.Overrides, over []*Group, want func(*Group) bool) bool {
	ok := overs(got, over, want)
	n := 0
	for _, o := range over {
		n += sym.IteInt(sym.And(o.On, want(o)), 1, 0)
	}
	return sym.And(ok, len(got) == n)
}

// overs tells whether the answers are different overrides selected by want.
func overs(got lim.Overrides, over []*Group, want func(*Group) bool) bool {
	ok := true
	ids := map[string]bool{}
	for _, a := range got {
		in := false
		for _, o := range over {
			if a.State.ID == o.ID {
				in = sym.Or(in, sym.And(isOver(a, o), want(o)))
			}
		}
		ok = sym.And(ok, sym.And(in, !ids[a.State.ID]))
		ids[a.State.ID] = true
	}
	return ok
}

// SameRules tells whether the answers are exactly the rules selected by want, each with the overrides overs accepts.
func (l *Limiter) SameRules(got lim.Rules, want func(*Group) bool, overs func(*lim.Rule, *Group) bool, all bool) bool {
	ok, n := true, 0
	ids := map[string]bool{}
	for _, a := range got {
		in := false
		for _, r := range l.R {
			if a.State.ID == r.ID {
				in = sym.Or(in, sym.And(sym.And(isRule(a, r), want(r)), overs(a, r)))
			}
		}
		ok = sym.And(ok, sym.And(in, !ids[a.State.ID]))
		ids[a.State.ID] = true
	}
	for _, r := range l.R {
		n += sym.IteInt(sym.And(r.On, want(r)), 1, 0)
	}
	if all {
		ok = sym.And(ok, len(got) == n)
	}
	return ok
}

// Limits checks the limits looked up for kv.
func (l *Limiter) Limits(kv hx.KV) {
	got, err := l.Rules.FindLimits(l.Ctx, kv.Map())
	sym.Assert(err == nil, "a lookup does not fail")
	want := func(g *Group) bool { return g.Applies(kv) }
	zero := false // the last answer ends in a limit of 0
	overOK := func(a *lim.Rule, r *Group) bool {
		n := 0
		for _, o := range r.Over {
			n += sym.IteInt(o.Applies(kv), 1, 0)
		}
		all := len(a.State.Overrides) == n
		if x := len(a.State.Overrides); x > 0 {
			all = sym.Or(all, *a.State.Overrides[x-1].Spec.Properties.Limit == 0)
		}
		return sym.And(overs(a.State.Overrides, r.Over, want), all)
	}
	if n := len(got); n > 0 {
		last := got[n-1]
		if x := len(last.State.Overrides); x > 0 {
			zero = *last.State.Overrides[x-1].Spec.Properties.Limit == 0
		} else {
			zero = *last.Spec.Properties.Limit == 0
		}
	}
	n := 0
	for _, r := range l.R {
		n += sym.IteInt(r.Applies(kv), 1, 0)
	}
	sym.Assert(l.SameRules(got, want, overOK, false), "only contained rules, each once, as they are stored, with their contained overrides")
	sym.Assert(sym.Or(len(got) == n, zero), "every contained rule, unless the lookup ended at a limit of 0")
}

// LockOf is a lock request for the set.
func LockOf(kv hx.KV) *loc.Lock {
	return &loc.Lock{Spec: &loc.LockSpec{DBDefinition: &loc.LockDBDefinition{KeyValues: dt.TypedKeyValues(kv.Map())}}}
}

// Failing is a lock service that may refuse a lock, or lose one while the next is obtained.
type Failing struct {
	Granted, Released int
	Failed            bool // whether anything went wrong
	locks             []*failing
}

func (s *Failing) Healthy() error { return nil }

func (s *Failing) ObtainLock(context.Context, *loc.Lock, func(dt.KeyValues, error)) (lc.Lock, error) {
	switch what := sym.Choose("obtain", 4); {
	case what == 1:
		s.Failed = true
		return nil, fmt.Errorf("no lock")
	case what == 2:
		s.Failed = true
		return nil, nil // as documented for a cancelled context
	case what == 3 && len(s.locks) > 0:
		l := s.locks[sym.Choose("lost", len(s.locks))]
		if !l.lost {
			s.Failed, l.lost = true, true
			close(l.done)
			sym.Quiesce()
		}
	}
	l := &failing{s: s, done: make(chan struct{})}
	s.locks = append(s.locks, l)
	s.Granted++
	return l, nil
}

type failing struct {
	s    *Failing
	done chan struct{}
	lost bool
	rel  bool
}

func (l *failing) Done() <-chan struct{} { return l.done }

func (l *failing) Release(context.Context) error {
	if l.rel {
		return nil
	}
	l.rel = true
	l.s.Released++
	if l.lost {
		return fmt.Errorf("lock already lost")
	}
	close(l.done)
	return nil
}
