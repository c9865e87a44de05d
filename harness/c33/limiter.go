//go:build verif

package c33

import (
	"context"
	"encoding/json"

	sym "github.com/DanLavine/willow/internal/verif_sym"

	"github.com/DanLavine/urlrouter"
	"github.com/DanLavine/willow/internal/limiter/api/v1/handlers"
	"github.com/DanLavine/willow/internal/limiter/api/v1/router"
	"github.com/DanLavine/willow/internal/verif_harness/hx"
	"github.com/DanLavine/willow/pkg/clients"
	lockerclient "github.com/DanLavine/willow/pkg/clients/locker_client"
	"github.com/DanLavine/willow/pkg/models/api/common/errors"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	qm "github.com/DanLavine/willow/pkg/models/api/common/v1/query_match_action"
	lim "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	dt "github.com/DanLavine/willow/pkg/models/datatypes"
	"go.uber.org/zap"
)

type ruleClient struct{ *service }

func (f ruleClient) CreateRule(ctx context.Context, r *lim.Rule) (string, *errors.ServerError) {
	c := *r
	if err := f.took("create rule", &c); err != nil {
		return "", err
	}
	return "new", nil
}
func (f ruleClient) UpdateRule(ctx context.Context, id string, p *lim.RuleProperties) *errors.ServerError {
	return f.took("update rule", p, id)
}
func (f ruleClient) rules(err *errors.ServerError) (lim.Rules, *errors.ServerError) {
	if err != nil {
		return nil, err
	}
	return f.reply.(lim.Rules), nil
}
func (f ruleClient) QueryRules(ctx context.Context, q *qa.AssociatedActionQuery) (lim.Rules, *errors.ServerError) {
	return f.rules(f.took("query rules", q))
}
func (f ruleClient) MatchRules(ctx context.Context, q *qm.MatchActionQuery) (lim.Rules, *errors.ServerError) {
	return f.rules(f.took("match rules", q))
}
func (f ruleClient) GetRule(ctx context.Context, id string) (*lim.Rule, *errors.ServerError) {
	if err := f.took("get rule", nil, id); err != nil {
		return nil, err
	}
	return f.reply.(*lim.Rule), nil
}
func (f ruleClient) DeleteRule(ctx context.Context, id string) *errors.ServerError {
	return f.took("delete rule", nil, id)
}
func (f ruleClient) CreateOverride(ctx context.Context, id string, o *lim.Override) (string, *errors.ServerError) {
	c := *o
	if err := f.took("create override", &c, id); err != nil {
		return "", err
	}
	return "new", nil
}
func (f ruleClient) UpdateOverride(ctx context.Context, id string, over string, p *lim.OverrideProperties) *errors.ServerError {
	return f.took("update override", p, id, over)
}
func (f ruleClient) overs(err *errors.ServerError) (lim.Overrides, *errors.ServerError) {
	if err != nil {
		return nil, err
	}
	return f.reply.(lim.Overrides), nil
}
func (f ruleClient) QueryOverrides(ctx context.Context, id string, q *qa.AssociatedActionQuery) (lim.Overrides, *errors.ServerError) {
	return f.overs(f.took("query overrides", q, id))
}
func (f ruleClient) MatchOverrides(ctx context.Context, id string, q *qm.MatchActionQuery) (lim.Overrides, *errors.ServerError) {
	return f.overs(f.took("match overrides", q, id))
}
func (f ruleClient) GetOverride(ctx context.Context, id string, over string) (*lim.Override, *errors.ServerError) {
	if err := f.took("get override", nil, id, over); err != nil {
		return nil, err
	}
	return f.reply.(*lim.Override), nil
}
func (f ruleClient) DeleteOverride(ctx context.Context, id string, over string) *errors.ServerError {
	return f.took("delete override", nil, id, over)
}
func (f ruleClient) FindLimits(ctx context.Context, kvs dt.KeyValues) (lim.Rules, *errors.ServerError) {
	return f.rules(f.took("find limits", kvs))
}

type counterClient struct {
	*service
	during func(ctx context.Context)
}

func (f counterClient) IncrementCounters(ctx context.Context, l lockerclient.LockerClient, c *lim.Counter) *errors.ServerError {
	if l == nil {
		f.took("increment without locks", c)
	}
	if f.during != nil {
		f.during(ctx)
	}
	return f.took("increment", c)
}
func (f counterClient) DecrementCounters(ctx context.Context, c *lim.Counter) *errors.ServerError {
	return f.took("decrement", c)
}
func (f counterClient) QueryCounters(ctx context.Context, q *qa.AssociatedActionQuery) (lim.Counters, *errors.ServerError) {
	if err := f.took("query counters", q); err != nil {
		return nil, err
	}
	return f.reply.(lim.Counters), nil
}
func (f counterClient) SetCounter(ctx context.Context, c *lim.Counter) *errors.ServerError {
	return f.took("set counters", c)
}

func limiterMux(s *service, stop context.Context, during func(context.Context)) *urlrouter.Router {
	mux := urlrouter.New()
	router.AddV1LimiterRoutes(zap.NewNop(), mux, handlers.NewGroupRuleHandler(stop, &clients.Config{URL: "http://locker"}, ruleClient{s}, counterClient{s, during}))
	return mux
}

func serveLimiter(s *service, e endpoint) {
	ask(limiterMux(s, context.Background(), nil), s, e)
	once(s)
}

// limit is any limit a rule may have
func limit() int64 {
	n := sym.Int64("limit")
	sym.Assume(n >= -1)
	return n
}

func badRule(kv hx.KV, n int64) *lim.Rule {
	return []*lim.Rule{{}, rule(none, &n), rule(kv, nil), rule(kv, ptr(int64(-2))), {Spec: &lim.RuleSpec{}}}[sym.Choose("bad", 5)]
}

func badOver(kv hx.KV, n int64) *lim.Override {
	return []*lim.Override{{}, over(none, &n), over(kv, nil), over(kv, ptr(int64(-2))), {Spec: &lim.OverrideSpec{}}}[sym.Choose("bad", 5)]
}

// CheckRuleChanges: rules and overrides are created, updated and deleted as asked.
func CheckRuleChanges() {
	s := &service{}
	n := limit()
	kv := key()
	var e endpoint
	switch sym.Choose("operation", 6) {
	case 0:
		e = endpoint{method: "POST", path: "/v1/limiter/rules", op: "create rule", body: rule(kv, &n), ok: 201,
			same: func(x any) bool { return isRule(x.(*lim.Rule), kv, n) && x.(*lim.Rule).State == nil },
			shows: func(b []byte) bool {
				r := &lim.Rule{}
				return json.Unmarshal(b, r) == nil && isRule(r, kv, n) && r.State != nil && r.State.ID == "new"
			}}
		e.bad = badRule(kv, n)
	case 1:
		e = endpoint{method: "PUT", path: "/v1/limiter/rules/r", op: "update rule", args: []string{"r"}, body: &lim.RuleProperties{Limit: &n}, ok: 200,
			same: func(x any) bool { p := x.(*lim.RuleProperties); return p.Limit != nil && *p.Limit == n }}
		e.bad = []*lim.RuleProperties{{}, {Limit: ptr(int64(-2))}}[sym.Choose("bad", 2)]
	case 2:
		e = endpoint{method: "DELETE", path: "/v1/limiter/rules/r", op: "delete rule", args: []string{"r"}, ok: 204}
	case 3:
		e = endpoint{method: "POST", path: "/v1/limiter/rules/r/overrides", op: "create override", args: []string{"r"}, body: over(kv, &n), ok: 201,
			same: func(x any) bool { return isOver(x.(*lim.Override), kv, n) && x.(*lim.Override).State == nil },
			shows: func(b []byte) bool {
				r := &lim.Override{}
				return json.Unmarshal(b, r) == nil && isOver(r, kv, n) && r.State != nil && r.State.ID == "new"
			}}
		e.bad = badOver(kv, n)
	case 4:
		e = endpoint{method: "PUT", path: "/v1/limiter/rules/r/overrides/o", op: "update override", args: []string{"r", "o"}, body: &lim.OverrideProperties{Limit: &n}, ok: 200,
			same: func(x any) bool { p := x.(*lim.OverrideProperties); return p.Limit != nil && *p.Limit == n }}
		e.bad = []*lim.OverrideProperties{{}, {Limit: ptr(int64(-2))}}[sym.Choose("bad", 2)]
	default:
		e = endpoint{method: "DELETE", path: "/v1/limiter/rules/r/overrides/o", op: "delete override", args: []string{"r", "o"}, ok: 204}
	}
	serveLimiter(s, e)
}

// CheckRuleReads: rules and overrides are shown as they are.
func CheckRuleReads() {
	s := &service{}
	n := limit()
	kv := key()
	all := sym.Choose("found", 3)
	oneRule := func() *lim.Rule {
		r := rule(kv, &n)
		r.State = &lim.RuleState{ID: "r"}
		if sym.Bool("with an override") {
			o := over(kv, &n)
			o.State = &lim.OverrideState{ID: "o"}
			r.State.Overrides = lim.Overrides{o}
		}
		return r
	}
	oneOver := func() *lim.Override {
		o := over(kv, &n)
		o.State = &lim.OverrideState{ID: "o"}
		return o
	}
	isO := func(o *lim.Override) bool { return isOver(o, kv, n) && o.State != nil && o.State.ID == "o" }
	isR := func(r, want *lim.Rule) bool {
		ok := isRule(r, kv, n) && r.State != nil && r.State.ID == "r" && len(r.State.Overrides) == len(want.State.Overrides)
		return ok && (len(r.State.Overrides) == 0 || isO(r.State.Overrides[0]))
	}
	rules, overs := lim.Rules{}, lim.Overrides{}
	for i := 0; i < all; i++ {
		rules, overs = append(rules, oneRule()), append(overs, oneOver())
	}
	shows := func(b []byte) bool {
		got := lim.Rules{}
		if json.Unmarshal(b, &got) != nil || len(got) != all {
			return false
		}
		ok := true
		for i := range got {
			ok = sym.And(ok, isR(got[i], rules[i]))
		}
		return ok
	}
	showsOvers := func(b []byte) bool {
		got := lim.Overrides{}
		if json.Unmarshal(b, &got) != nil || len(got) != all {
			return false
		}
		ok := true
		for i := range got {
			ok = sym.And(ok, isO(got[i]))
		}
		return ok
	}
	var e endpoint
	switch sym.Choose("operation", 6) {
	case 0:
		e = endpoint{method: "GET", path: "/v1/limiter/rules/query", op: "query rules", body: selectKey(kv), bad: badQuery(), same: isSelect(kv), ok: 200, reply: rules, shows: shows}
	case 1:
		e = endpoint{method: "GET", path: "/v1/limiter/rules/match", op: "match rules", body: matchKey(kv), bad: &qm.MatchActionQuery{}, same: isMatch(kv), ok: 200, reply: rules, shows: shows}
	case 2:
		r := oneRule()
		e = endpoint{method: "GET", path: "/v1/limiter/rules/r", op: "get rule", args: []string{"r"}, ok: 200, reply: r, shows: func(b []byte) bool {
			got := &lim.Rule{}
			return json.Unmarshal(b, got) == nil && isR(got, r)
		}}
	case 3:
		e = endpoint{method: "GET", path: "/v1/limiter/rules/r/overrides/query", op: "query overrides", args: []string{"r"}, body: selectKey(kv), bad: badQuery(), same: isSelect(kv), ok: 200, reply: overs, shows: showsOvers}
	case 4:
		e = endpoint{method: "GET", path: "/v1/limiter/rules/r/overrides/match", op: "match overrides", args: []string{"r"}, body: matchKey(kv), bad: &qm.MatchActionQuery{}, same: isMatch(kv), ok: 200, reply: overs, shows: showsOvers}
	default:
		o := oneOver()
		e = endpoint{method: "GET", path: "/v1/limiter/rules/r/overrides/o", op: "get override", args: []string{"r", "o"}, ok: 200, reply: o, shows: func(b []byte) bool {
			got := &lim.Override{}
			return json.Unmarshal(b, got) == nil && isO(got)
		}}
		if sym.Bool("none") {
			e.reply, e.ok, e.shows = (*lim.Override)(nil), 404, nil
		}
	}
	serveLimiter(s, e)
}

// CheckCounters: counters are raised, lowered, set and shown as asked.
func CheckCounters() {
	s := &service{}
	n := sym.Int64("counters")
	kv := key()
	e := endpoint{body: count(kv, &n), ok: 200, same: func(x any) bool { return isCount(x.(*lim.Counter), kv, n) }}
	switch sym.Choose("operation", 3) {
	case 0:
		e.method, e.path = "PUT", "/v1/limiter/counters"
		e.op = "decrement"
		if n > 0 {
			e.op = "increment"
		}
	case 1:
		e.method, e.path, e.op = "PUT", "/v1/limiter/counters/set", "set counters"
	default:
		found := lim.Counters{}
		for i, k := 0, sym.Choose("found", 3); i < k; i++ {
			c := count(kv, &n)
			c.State = &lim.CounterState{}
			found = append(found, c)
		}
		e = endpoint{method: "GET", path: "/v1/limiter/counters/query", op: "query counters", body: selectKey(kv), bad: badQuery(), same: isSelect(kv), ok: 200, reply: found}
		e.shows = func(b []byte) bool {
			got := lim.Counters{}
			if json.Unmarshal(b, &got) != nil || len(got) != len(found) {
				return false
			}
			ok := true
			for i := range got {
				ok = sym.And(ok, isCount(got[i], kv, n))
			}
			return ok
		}
		serveLimiter(s, e)
		return
	}
	e.bad = []*lim.Counter{{}, count(none, &n), count(kv, nil), {Spec: &lim.CounterSpec{}}}[sym.Choose("bad", 4)]
	serveLimiter(s, e)
}

// CheckIncrementEnds: raising a counter ends with the request, or with the service.
func CheckIncrementEnds() {
	s := &service{}
	stop, shutdown := context.WithCancel(context.Background())
	ctx, gone := context.WithCancel(context.Background())
	ended := false
	how := sym.Choose("ends by", 3)
	mux := limiterMux(s, stop, func(ctx context.Context) {
		sym.Assert(ctx.Err() == nil, "a request starts alive")
		switch how {
		case 0:
			shutdown()
		case 1:
			gone()
		default:
			return
		}
		<-ctx.Done()
		ended = true
	})
	kv := hx.KV{Mask: 1}
	kv.Val[0] = hx.IntKey(1)
	w := serve(mux, ctx, "PUT", "/v1/limiter/counters", count(kv, ptr(int64(1))))
	sym.Assert(w.Code() == 200 && len(w.Status) == 1, "the request is answered")
	sym.Assert(ended == (how != 2), "raising a counter ends with the request or the service")
	shutdown()
	gone()
}
